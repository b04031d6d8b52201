//! The public API of morton-index behind one trait per index family
//! (dimension x word type), so that templates, walks and recordings are
//! written once. No expectation about behaviour lives here.
use morton_index::dimensions::*;
use morton_index::helper::make_displayable;
use morton_index::nalgebra::{Vector2, Vector3};
use morton_index::number::Bits;
use morton_index::*;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::num::NonZeroUsize;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum K {
    F,
    S,
    D,
}

impl K {
    pub fn parse(s: &str) -> K {
        match s {
            "F" => K::F,
            "S" => K::S,
            "D" => K::D,
            _ => panic!("bad kind {s}"),
        }
    }
    pub fn s(&self) -> &'static str {
        match self {
            K::F => "F",
            K::S => "S",
            K::D => "D",
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out<T> {
    Ok(T),
    None,
    Err(usize),
    /// an error of another kind than the depth limit
    ErrOther,
    Panic(String),
}

impl<T> Out<T> {
    pub fn tag(&self) -> &'static str {
        match self {
            Out::Ok(_) => "ok",
            Out::None => "none",
            Out::Err(_) => "err",
            Out::ErrOther => "err-other",
            Out::Panic(_) => "panic",
        }
    }
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> Out<U> {
        match self {
            Out::Ok(v) => Out::Ok(f(v)),
            Out::None => Out::None,
            Out::Err(m) => Out::Err(m),
            Out::ErrOther => Out::ErrOther,
            Out::Panic(s) => Out::Panic(s),
        }
    }
    pub fn ok(self) -> Option<T> {
        match self {
            Out::Ok(v) => Some(v),
            _ => None,
        }
    }
}

pub fn res<T>(r: std::result::Result<T, Error>) -> Out<T> {
    match r {
        Ok(v) => Out::Ok(v),
        Err(Error::DepthLimitedExceeded { max_depth }) => Out::Err(max_depth),
        Err(_) => Out::ErrOther,
    }
}
pub fn opt<T>(r: Option<T>) -> Out<T> {
    match r {
        Some(v) => Out::Ok(v),
        None => Out::None,
    }
}

/// Runs code under test; a panic becomes an outcome.
pub fn guard<T>(f: impl FnOnce() -> Out<T>) -> Out<T> {
    shield(|| crate::heap::call(f))
}
/// The same around code that makes several calls.
pub fn shield<T>(f: impl FnOnce() -> Out<T>) -> Out<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(e) => {
            let s = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            };
            Out::Panic(s)
        }
    }
}

/// Deep pairs of which max, min and clamp are not tried: comparing them is slow.
fn big_pair(n1: usize, n2: usize) -> bool {
    n1 + n2 > 600 || (n1 + n2 > 64 && (n1 * 3 + n2) % 16 != 0)
}
pub fn hash_of<T: Hash + ?Sized>(v: &T) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

pub trait Word: FixedStorageType + 'static {
    fn of(v: u128) -> Self;
    fn to(self) -> u128;
    const N: usize;
    const T: &'static str;
}
macro_rules! word {
    ($t:ty, $n:expr) => {
        impl Word for $t {
            fn of(v: u128) -> Self {
                v as $t
            }
            fn to(self) -> u128 {
                self as u128
            }
            const N: usize = $n;
            const T: &'static str = stringify!($t);
        }
    };
}
word!(u8, 8);
word!(u16, 16);
word!(u32, 32);
word!(u64, 64);
word!(u128, 128);
word!(usize, 64);

pub fn naming(i: usize) -> MortonIndexNaming {
    match i {
        0 => MortonIndexNaming::CellConcatenation,
        1 => MortonIndexNaming::CellConcatenationWithRoot,
        _ => MortonIndexNaming::GridIndex,
    }
}
pub const NAMINGS: [&str; 3] = ["cells", "root", "grid"];
pub const ORD2: [&str; 2] = ["XY", "YX"];
pub const ORD3: [&str; 6] = ["XYZ", "XZY", "YXZ", "YZX", "ZXY", "ZYX"];
pub fn orderings(d: usize) -> &'static [&'static str] {
    if d == 2 {
        &ORD2
    } else {
        &ORD3
    }
}

pub fn q(c: u8) -> Quadrant {
    [Quadrant::Zero, Quadrant::One, Quadrant::Two, Quadrant::Three][c as usize]
}
pub fn qn(c: Quadrant) -> u8 {
    match c {
        Quadrant::Zero => 0,
        Quadrant::One => 1,
        Quadrant::Two => 2,
        Quadrant::Three => 3,
    }
}
pub fn o(c: u8) -> Octant {
    [
        Octant::Zero,
        Octant::One,
        Octant::Two,
        Octant::Three,
        Octant::Four,
        Octant::Five,
        Octant::Six,
        Octant::Seven,
    ][c as usize]
}
pub fn on(c: Octant) -> u8 {
    match c {
        Octant::Zero => 0,
        Octant::One => 1,
        Octant::Two => 2,
        Octant::Three => 3,
        Octant::Four => 4,
        Octant::Five => 5,
        Octant::Six => 6,
        Octant::Seven => 7,
    }
}
pub fn qord(s: &str) -> QuadrantOrdering {
    match s {
        "XY" => QuadrantOrdering::XY,
        "YX" => QuadrantOrdering::YX,
        _ => panic!("ordering {s}"),
    }
}
pub fn oord(s: &str) -> OctantOrdering {
    match s {
        "XYZ" => OctantOrdering::XYZ,
        "XZY" => OctantOrdering::XZY,
        "YXZ" => OctantOrdering::YXZ,
        "YZX" => OctantOrdering::YZX,
        "ZXY" => OctantOrdering::ZXY,
        "ZYX" => OctantOrdering::ZYX,
        _ => panic!("ordering {s}"),
    }
}
pub type Grid = [usize; 3];
fn v2(g: &Grid) -> Vector2<usize> {
    Vector2::new(g[0], g[1])
}
fn v3(g: &Grid) -> Vector3<usize> {
    Vector3::new(g[0], g[1], g[2])
}

/// What can be seen of an index.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Obs {
    pub depth: usize,
    pub cells: Vec<u8>,
}

/// Storage-level view.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct StObs {
    pub depth: usize,
    pub max_depth: Option<usize>,
    pub cells: Vec<u8>,
    /// the packed word; None for dynamic storage
    pub bits: Option<u128>,
}

pub enum StOp<'a> {
    New,
    NewArr,
    Def,
    Set(usize, u8),
    Anc(usize),
    Desc(&'a [u8]),
}

/// One script on an iterator: advance to position p in some way, make one call.
#[derive(Clone, Copy, Debug)]
pub struct ItScript<'a> {
    /// how to advance: 0 next, 1 nth, 2 by_ref().take, 3 one nth per cell
    pub way: usize,
    pub p: usize,
    pub f: &'a str,
    pub j: usize,
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct ItObs {
    /// cells yielded by the call
    pub y: Vec<u8>,
    /// what count() or size_hint() gave
    pub lo: usize,
    pub hi: Option<usize>,
    /// what is left after the call (for calls that do not use the iterator up)
    pub rest: Vec<u8>,
    /// calls after the end gave nothing
    pub fused: bool,
}
const LIM: usize = 1 << 18;
fn advance<I: Iterator>(it: &mut I, s: &ItScript) {
    match s.way {
        0 => {
            for _ in 0..s.p {
                it.next();
            }
        }
        1 => {
            if s.p > 0 {
                it.nth(s.p - 1);
            }
        }
        2 => {
            it.by_ref().take(s.p).for_each(|_| ());
        }
        _ => {
            for _ in 0..s.p {
                it.nth(0);
            }
        }
    }
}
fn run_it<I: Iterator>(mk: impl Fn() -> I, num: impl Fn(I::Item) -> u8, s: &ItScript) -> ItObs {
    // an iterator that does not end must not hang the calls that use it up
    let mut it = mk();
    advance(&mut it, s);
    let y: Vec<u8> = it.take(LIM).map(&num).collect();
    if y.len() == LIM {
        return ItObs { y, ..Default::default() };
    }
    let mut it = mk();
    advance(&mut it, s);
    let mut o = ItObs { fused: true, ..Default::default() };
    match s.f {
        "next" => o.y.extend(it.next().map(&num)),
        "nth" => o.y.extend(it.nth(s.j).map(&num)),
        "last" => {
            o.y.extend(it.last().map(&num));
            return o;
        }
        "every" => {
            o.y.extend(it.step_by(s.j + 1).map(&num));
            return o;
        }
        "rest" => {
            // alternate internal and external iteration
            if s.way % 2 == 0 {
                it.for_each(|c| o.y.push(num(c)));
            } else {
                o.y = it.fold(vec![], |mut v, c| {
                    v.push(num(c));
                    v
                });
            }
            return o;
        }
        "skip" => {
            o.y.extend(it.skip(s.j).map(&num));
            return o;
        }
        "count" => {
            o.lo = it.count();
            return o;
        }
        "hint" => {
            let h = it.size_hint();
            o.lo = h.0;
            o.hi = h.1;
        }
        f => panic!("iterator call {f}"),
    }
    o.rest.extend(it.by_ref().take(LIM).map(&num));
    o.fused = it.next().is_none() && it.nth(0).is_none() && it.nth(3).is_none() && it.next().is_none();
    o
}

pub trait Ix: Clone + std::fmt::Debug {
    const DIM: usize;
    const W: usize;
    const T: &'static str;
    fn kind(&self) -> K;
    fn cap(k: K) -> usize {
        match k {
            K::D => usize::MAX,
            _ => Self::W / Self::DIM,
        }
    }
    fn build(k: K, c: &[u8]) -> Out<Self>;
    fn build_arr(k: K, c: &[u8]) -> Option<Out<Self>>;
    fn default(k: K) -> Self;
    fn zeroed(k: K, n: usize) -> Option<Out<Self>>;
    fn depth(&self) -> usize;
    fn get(&self, l: usize) -> Out<u8>;
    fn get_unchecked(&self, l: usize) -> Out<u8>;
    fn cells(&self) -> Vec<u8>;
    /// runs a script on the iterator of the index, or of a storage with its cells
    fn it(&self, storage: bool, s: &ItScript) -> Out<ItObs>;
    fn set(&mut self, l: usize, c: u8) -> Out<()>;
    fn set_unchecked(&mut self, l: usize, c: u8) -> Out<()>;
    fn anc(&self, g: usize) -> Out<Self>;
    fn par(&self) -> Out<Self>;
    fn wd(&self, n: usize) -> Out<Self>;
    fn desc(&self, c: &[u8]) -> Out<Self>;
    fn chd(&self, c: u8) -> Out<Self>;
    fn inv(&self) -> Self;
    fn cnv(&self, k: K) -> Out<Self> {
        guard(|| self.clone().cnv_own(k))
    }
    fn cnv_own(self, k: K) -> Out<Self>;
    fn from_grid(k: K, g: &Grid, n: usize, o: &str) -> Out<Self>;
    fn fast(g: &Grid, o: &str) -> Option<Self>;
    fn to_grid(&self, o: &str) -> Grid;
    fn name(&self, nm: usize) -> String;
    fn display(l: &[Self], nm: usize) -> Vec<String>;
    /// compares two displayable slices of one flavour
    fn cmp_lists(a: &[Self], b: &[Self], nm: usize) -> (Ordering, Option<Ordering>, [bool; 5], bool, bool);
    fn sorted(l: &[Self], how: usize) -> Vec<Self>;
    fn same(&self, x: &Self) -> (bool, bool);
    fn cmp(&self, x: &Self) -> (Ordering, Option<Ordering>, [bool; 5]);
    fn hash64(&self) -> u64;
    /// self becomes a copy of x (of the same flavour)
    fn copy_from(&mut self, x: &Self);
    fn from_raw(k: K, bits: u128, n: usize) -> Option<Self>;
    fn max_levels(k: K) -> Vec<usize>;
    fn st(k: K, base: &[u8], op: StOp) -> Option<Out<StObs>>;
    fn st_cmp(k: K, a: &[u8], b: &[u8]) -> Option<(Ordering, Option<Ordering>, bool, bool, Ordering)>;

    fn obs(&self) -> Out<Obs> {
        guard(|| {
            let depth = self.depth();
            if depth > 1 << 20 {
                return Out::Ok(Obs { depth, cells: vec![] });
            }
            let mut cells = Vec::with_capacity(depth);
            for l in 0..depth {
                match self.get(l) {
                    Out::Ok(c) => cells.push(c),
                    x => return x.map(|_| unreachable!()),
                }
            }
            Out::Ok(Obs { depth, cells })
        })
    }
}

macro_rules! arr_dispatch {
    ($cells:expr, $conv:expr, $ty:ty, $wrap:expr, [$($n:literal)*]) => {
        match $cells.len() {
            $( $n => {
                let mut i = 0;
                let a: [_; $n] = std::array::from_fn(|_| { let c = $conv($cells[i]); i += 1; c });
                let _ = &mut i;
                Some(res(<$ty>::try_from(a)).map($wrap))
            } )*
            _ => None,
        }
    };
}
macro_rules! arr_all {
    ($cells:expr, $conv:expr, $ty:ty, $wrap:expr) => {
        arr_dispatch!($cells, $conv, $ty, $wrap,
            [0 1 2 3 4 5 6 7 8 9 10 11 12 15 16 17 20 21 22 23 31 32 33 41 42 43 44 62 63 64 65 66 127 128 129 255 256 257 258 300])
    };
}

macro_rules! each {
    ($self:expr, $x:ident => $e:expr) => {
        match $self {
            Any::F($x) => $e,
            Any::S($x) => $e,
            Any::D($x) => $e,
        }
    };
}

fn st_obs<Dm, S, B>(s: &S, num: impl Fn(Dm::Cell) -> u8, bits: impl Fn(&S) -> Option<u128>) -> StObs
where
    Dm: Dimension,
    S: Storage<Dm, Bits = B>,
    B: Bits,
{
    let depth = s.depth();
    let cells = if depth > 1 << 20 {
        vec![]
    } else {
        (0..depth).map(|l| num(unsafe { s.get_cell_at_level_unchecked(l) })).collect()
    };
    StObs { depth, max_depth: S::max_depth(), cells, bits: bits(s) }
}

macro_rules! family {
    ($m:ident, $dim:literal, $Dim:ident, $Idx:ident, $Fx:ident, $St:ident, $Dy:ident, $Cell:ident, $cell:expr, $num:expr, $ord:expr, $vec:expr) => {
        pub mod $m {
            use super::*;
            pub type F<B> = $Idx<$Fx<B>>;
            pub type S<B> = $Idx<$St<B>>;
            pub type Dn = $Idx<$Dy>;
            #[derive(Clone, Debug)]
            pub enum Any<B: Word> {
                F(F<B>),
                S(S<B>),
                D(Dn),
            }
            fn cs(c: &[u8]) -> Vec<$Cell> {
                c.iter().map(|x| $cell(*x)).collect()
            }
            fn all_sorted<T: Clone + Ord>(l: &[T], how: usize) -> Vec<T> {
                match how {
                    0 => {
                        let mut v = l.to_vec();
                        v.sort();
                        v
                    }
                    1 => {
                        let mut v = l.to_vec();
                        v.sort_unstable();
                        v
                    }
                    2 => {
                        let mut v = l.to_vec();
                        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
                        v
                    }
                    _ => {
                        // repeated minimum
                        let mut v = l.to_vec();
                        let mut out = vec![];
                        while !v.is_empty() {
                            let mut k = 0;
                            for i in 1..v.len() {
                                if v[i] < v[k] {
                                    k = i;
                                }
                            }
                            out.push(v.remove(k));
                        }
                        out
                    }
                }
            }
            fn disp<T: MortonIndex>(l: &[T], nm: usize) -> Vec<String> {
                let d = make_displayable(l, naming(nm));
                vec![format!("{}", d), format!("{:?}", d)]
            }
            fn rel<T: Ord>(a: &T, b: &T) -> (Ordering, Option<Ordering>, [bool; 5]) {
                let o = a.cmp(b);
                // the provided methods of Ord agree with the comparison
                let (hi, lo) = (a.max(b), a.min(b));
                let fine = match o {
                    Ordering::Less => std::ptr::eq(hi, b) && std::ptr::eq(lo, a),
                    Ordering::Equal => true,
                    Ordering::Greater => std::ptr::eq(hi, a) && std::ptr::eq(lo, b),
                };
                (o, a.partial_cmp(b), [a < b, a <= b, a > b, a >= b, fine])
            }
            /// max, min and clamp of the values themselves (not of references)
            fn extremes<T: Ord + Clone>(a: &T, b: &T) -> bool {
                let o = a.cmp(b);
                let (lo, hi) = if o == Ordering::Greater { (b, a) } else { (a, b) };
                let eq = |x: T, y: &T| x.cmp(y) == Ordering::Equal && x == *y;
                eq(a.clone().max(b.clone()), hi)
                    && eq(a.clone().min(b.clone()), lo)
                    && eq(a.clone().clamp(lo.clone(), hi.clone()), a)
                    && eq(hi.clone().clamp(lo.clone(), lo.clone()), lo)
                    && eq(lo.clone().clamp(hi.clone(), hi.clone()), hi)
            }
            fn lists<T: MortonIndex + Ord>(a: &[T], b: &[T], nm: usize) -> (Ordering, Option<Ordering>, [bool; 5], bool, bool) {
                let (a, b) = (make_displayable(a, naming(nm)), make_displayable(b, naming((nm + 1) % 3)));
                let r = rel(&a, &b);
                (r.0, r.1, r.2, a == b, a != b)
            }
            impl<B: Word> Ix for Any<B>
            where
                Any<B>: Extra,
            {
                const DIM: usize = $dim;
                const W: usize = B::N;
                const T: &'static str = B::T;
                fn kind(&self) -> K {
                    match self {
                        Any::F(_) => K::F,
                        Any::S(_) => K::S,
                        Any::D(_) => K::D,
                    }
                }
                fn build(k: K, c: &[u8]) -> Out<Self> {
                    let c = cs(c);
                    guard(|| match k {
                        K::F => res(F::<B>::try_from(c.as_slice())).map(Any::F),
                        K::S => res(S::<B>::try_from(c.as_slice())).map(Any::S),
                        K::D => res(Dn::try_from(c.as_slice())).map(Any::D),
                    })
                }
                fn build_arr(k: K, c: &[u8]) -> Option<Out<Self>> {
                    let mut some = true;
                    let r = guard(|| {
                        let r = match k {
                            K::F => arr_all!(c, $cell, F<B>, Any::F),
                            K::S => arr_all!(c, $cell, S<B>, Any::S),
                            K::D => arr_all!(c, $cell, Dn, Any::D),
                        };
                        match r {
                            Some(r) => r,
                            None => {
                                some = false;
                                Out::None
                            }
                        }
                    });
                    if some {
                        Some(r)
                    } else {
                        None
                    }
                }
                fn default(k: K) -> Self {
                    match k {
                        K::F => Any::F(Default::default()),
                        K::S => Any::S(Default::default()),
                        K::D => Any::D(Default::default()),
                    }
                }
                fn zeroed(k: K, n: usize) -> Option<Out<Self>> {
                    match k {
                        K::F => None,
                        K::S if n > 255 => None,
                        K::S => Some(guard(|| opt(S::<B>::zeroed(n as u8)).map(Any::S))),
                        K::D => Some(guard(|| Out::Ok(Any::D(Dn::zeroed(n))))),
                    }
                }
                fn depth(&self) -> usize {
                    each!(self, x => x.depth())
                }
                fn get(&self, l: usize) -> Out<u8> {
                    guard(|| Out::Ok($num(each!(self, x => x.get_cell_at_level(l)))))
                }
                fn get_unchecked(&self, l: usize) -> Out<u8> {
                    guard(|| Out::Ok($num(each!(self, x => unsafe { x.get_cell_at_level_unchecked(l) }))))
                }
                fn cells(&self) -> Vec<u8> {
                    each!(self, x => x.cells().take(1 << 20).map($num).collect())
                }
                fn it(&self, storage: bool, s: &ItScript) -> Out<ItObs> {
                    if !storage {
                        return guard(|| Out::Ok(each!(self, x => run_it(|| x.cells(), $num, s))));
                    }
                    let c = cs(&self.obs().ok().map(|o| o.cells).unwrap_or_default());
                    let c = c.as_slice();
                    guard(|| Out::Ok(match self {
                        Any::F(_) => { let x = $Fx::<B>::try_from(c).unwrap(); run_it(|| (&x).into_iter(), $num, s) }
                        Any::S(_) => { let x = $St::<B>::try_from(c).unwrap(); run_it(|| (&x).into_iter(), $num, s) }
                        Any::D(_) => { let x = $Dy::try_from(c).unwrap(); run_it(|| (&x).into_iter(), $num, s) }
                    }))
                }
                fn set(&mut self, l: usize, c: u8) -> Out<()> {
                    guard(|| Out::Ok(each!(self, x => x.set_cell_at_level(l, $cell(c)))))
                }
                fn set_unchecked(&mut self, l: usize, c: u8) -> Out<()> {
                    guard(|| Out::Ok(each!(self, x => unsafe { x.set_cell_at_level_unchecked(l, $cell(c)) })))
                }
                fn anc(&self, g: usize) -> Out<Self> {
                    let g = NonZeroUsize::new(g).unwrap();
                    guard(|| match self {
                        Any::F(_) => unreachable!(),
                        Any::S(x) => opt(x.ancestor(g)).map(Any::S),
                        Any::D(x) => opt(x.ancestor(g)).map(Any::D),
                    })
                }
                fn par(&self) -> Out<Self> {
                    guard(|| match self {
                        Any::F(_) => unreachable!(),
                        Any::S(x) => opt(x.parent()).map(Any::S),
                        Any::D(x) => opt(x.parent()).map(Any::D),
                    })
                }
                fn wd(&self, n: usize) -> Out<Self> {
                    guard(|| match self {
                        Any::F(_) => unreachable!(),
                        Any::S(x) => opt(x.with_depth(n)).map(Any::S),
                        Any::D(x) => opt(x.with_depth(n)).map(Any::D),
                    })
                }
                fn desc(&self, c: &[u8]) -> Out<Self> {
                    let c = cs(c);
                    guard(|| match self {
                        Any::F(_) => unreachable!(),
                        Any::S(x) => opt(x.descendant(&c)).map(Any::S),
                        Any::D(x) => opt(x.descendant(&c)).map(Any::D),
                    })
                }
                fn chd(&self, c: u8) -> Out<Self> {
                    let c = $cell(c);
                    guard(|| match self {
                        Any::F(_) => unreachable!(),
                        Any::S(x) => opt(x.child(c)).map(Any::S),
                        Any::D(x) => opt(x.child(c)).map(Any::D),
                    })
                }
                fn inv(&self) -> Self {
                    match self {
                        Any::F(x) => Any::F(x.inverted()),
                        Any::S(x) => Any::S(x.inverted()),
                        Any::D(x) => Any::D(x.inverted()),
                    }
                }
                fn cnv_own(self, k: K) -> Out<Self> {
                    guard(|| match (self, k) {
                        (Any::F(x), K::S) => Out::Ok(Any::S(S::<B>::from(x))),
                        (Any::F(x), K::D) => Out::Ok(Any::D(Dn::from(x))),
                        (Any::S(x), K::F) => Out::Ok(Any::F(F::<B>::from(x))),
                        (Any::S(x), K::D) => Out::Ok(Any::D(Dn::from(x))),
                        (Any::D(x), K::F) => res(F::<B>::try_from(x)).map(Any::F),
                        (Any::D(x), K::S) => res(S::<B>::try_from(x)).map(Any::S),
                        (x, _) => Out::Ok(x),
                    })
                }
                fn from_grid(k: K, g: &Grid, n: usize, or: &str) -> Out<Self> {
                    guard(|| match k {
                        K::F => Out::Ok(Any::F(F::<B>::from_grid_index($vec(g), $ord(or)))),
                        K::S => res(S::<B>::from_grid_index($vec(g), n, $ord(or))).map(Any::S),
                        K::D => Out::Ok(Any::D(Dn::from_grid_index($vec(g), n, $ord(or)))),
                    })
                }
                fn fast(g: &Grid, or: &str) -> Option<Self> {
                    <Self as Extra>::fast(g, or)
                }
                fn to_grid(&self, or: &str) -> Grid {
                    let v = each!(self, x => x.to_grid_index($ord(or)));
                    let mut g = [0; 3];
                    for i in 0..$dim {
                        g[i] = v[i];
                    }
                    g
                }
                fn name(&self, nm: usize) -> String {
                    each!(self, x => MortonIndex::to_string(x, naming(nm)))
                }
                fn display(l: &[Self], nm: usize) -> Vec<String> {
                    match l.first() {
                        None => {
                            let mut r = disp::<F<B>>(&[], nm);
                            r.extend(disp::<S<B>>(&[], nm));
                            r.extend(disp::<Dn>(&[], nm));
                            r
                        }
                        Some(Any::F(_)) => {
                            let v: Vec<F<B>> = l.iter().map(|x| if let Any::F(x) = x { x.clone() } else { unreachable!() }).collect();
                            disp(&v, nm)
                        }
                        Some(Any::S(_)) => {
                            let v: Vec<S<B>> = l.iter().map(|x| if let Any::S(x) = x { x.clone() } else { unreachable!() }).collect();
                            disp(&v, nm)
                        }
                        Some(Any::D(_)) => {
                            let v: Vec<Dn> = l.iter().map(|x| if let Any::D(x) = x { x.clone() } else { unreachable!() }).collect();
                            disp(&v, nm)
                        }
                    }
                }
                fn cmp_lists(a: &[Self], b: &[Self], nm: usize) -> (Ordering, Option<Ordering>, [bool; 5], bool, bool) {
                    fn f<B: Word>(l: &[Any<B>]) -> Vec<F<B>> {
                        l.iter().map(|x| if let Any::F(x) = x { x.clone() } else { unreachable!() }).collect()
                    }
                    fn st<B: Word>(l: &[Any<B>]) -> Vec<S<B>> {
                        l.iter().map(|x| if let Any::S(x) = x { x.clone() } else { unreachable!() }).collect()
                    }
                    fn dy<B: Word>(l: &[Any<B>]) -> Vec<Dn> {
                        l.iter().map(|x| if let Any::D(x) = x { x.clone() } else { unreachable!() }).collect()
                    }
                    match a.first().or(b.first()) {
                        None => lists::<Dn>(&[], &[], nm),
                        Some(Any::F(_)) => lists(&f(a), &f(b), nm),
                        Some(Any::S(_)) => lists(&st(a), &st(b), nm),
                        Some(Any::D(_)) => lists(&dy(a), &dy(b), nm),
                    }
                }
                fn sorted(l: &[Self], how: usize) -> Vec<Self> {
                    match l.first() {
                        None => vec![],
                        Some(Any::F(_)) => {
                            let v: Vec<F<B>> = l.iter().map(|x| if let Any::F(x) = x { x.clone() } else { unreachable!() }).collect();
                            all_sorted(&v, how).into_iter().map(Any::F).collect()
                        }
                        Some(Any::S(_)) => {
                            let v: Vec<S<B>> = l.iter().map(|x| if let Any::S(x) = x { x.clone() } else { unreachable!() }).collect();
                            all_sorted(&v, how).into_iter().map(Any::S).collect()
                        }
                        Some(Any::D(_)) => {
                            let v: Vec<Dn> = l.iter().map(|x| if let Any::D(x) = x { x.clone() } else { unreachable!() }).collect();
                            all_sorted(&v, how).into_iter().map(Any::D).collect()
                        }
                    }
                }
                fn same(&self, x: &Self) -> (bool, bool) {
                    match (self, x) {
                        (Any::F(a), Any::F(b)) => (a == b, a != b),
                        (Any::S(a), Any::S(b)) => (a == b, a != b),
                        (Any::D(a), Any::D(b)) => (a == b, a != b),
                        _ => (false, true),
                    }
                }
                fn cmp(&self, x: &Self) -> (Ordering, Option<Ordering>, [bool; 5]) {
                    match (self, x) {
                        (Any::F(a), Any::F(b)) => {
                            let mut r = rel(a, b);
                            r.2[4] = r.2[4] && (big_pair(a.depth(), b.depth()) || extremes(a, b));
                            r
                        }
                        (Any::S(a), Any::S(b)) => {
                            let mut r = rel(a, b);
                            r.2[4] = r.2[4] && (big_pair(a.depth(), b.depth()) || extremes(a, b));
                            r
                        }
                        (Any::D(a), Any::D(b)) => {
                            let mut r = rel(a, b);
                            r.2[4] = r.2[4] && (big_pair(a.depth(), b.depth()) || extremes(a, b));
                            r
                        }
                        _ => unreachable!(),
                    }
                }
                fn hash64(&self) -> u64 {
                    each!(self, x => hash_of(x) ^ hash_of(std::slice::from_ref(x)).rotate_left(1))
                }
                fn copy_from(&mut self, x: &Self) {
                    match (self, x) {
                        (Any::F(a), Any::F(b)) => a.clone_from(b),
                        (Any::S(a), Any::S(b)) => a.clone_from(b),
                        (Any::D(a), Any::D(b)) => a.clone_from(b),
                        (a, b) => *a = b.clone(),
                    }
                }
                fn from_raw(k: K, bits: u128, n: usize) -> Option<Self> {
                    <Self as Extra>::raw(k, bits, n)
                }
                fn max_levels(k: K) -> Vec<usize> {
                    #[allow(unused_mut)]
                    let mut v = <Self as Extra>::maxl(k);
                    #[cfg(feature = "own")]
                    v.push(match k {
                        K::F => <<$Fx<B> as Storage<$Dim>>::StorageType as StorageType>::MAX_LEVELS,
                        K::S => <<$St<B> as Storage<$Dim>>::StorageType as StorageType>::MAX_LEVELS,
                        K::D => <<$Dy as Storage<$Dim>>::StorageType as StorageType>::MAX_LEVELS,
                    });
                    v
                }
                fn st(k: K, base: &[u8], op: StOp) -> Option<Out<StObs>> {
                    let b = cs(base);
                    fn w<B: Word>(s: &impl Storage<$Dim, Bits = B>) -> Option<u128> {
                        Some((*s.bits()).to())
                    }
                    Some(match k {
                        K::F => {
                            type T<B> = $Fx<B>;
                            let r: Option<Out<T<B>>> = {
                                let mut none = false;
                                let r = guard(|| match &op {
                                    StOp::New => res(T::<B>::try_from(b.as_slice())),
                                    StOp::NewArr => match arr_all!(base, $cell, T<B>, |x| x) {
                                        Some(r) => r,
                                        None => { none = true; Out::None }
                                    },
                                    StOp::Def => Out::Ok(T::<B>::default()),
                                    StOp::Set(l, c) => res(T::<B>::try_from(b.as_slice())).map(|mut s| {
                                        unsafe { s.set_cell_at_level_unchecked(*l, $cell(*c)) };
                                        s
                                    }),
                                    _ => { none = true; Out::None }
                                });
                                if none { None } else { Some(r) }
                            };
                            match r? { Out::Ok(s) => guard(|| Out::Ok(st_obs::<$Dim, _, _>(&s, $num, w::<B>))), x => x.map(|_| unreachable!()) }
                        }
                        K::S => {
                            type T<B> = $St<B>;
                            let r: Option<Out<T<B>>> = {
                                let mut none = false;
                                let r = guard(|| match &op {
                                    StOp::New => res(T::<B>::try_from(b.as_slice())),
                                    StOp::NewArr => match arr_all!(base, $cell, T<B>, |x| x) {
                                        Some(r) => r,
                                        None => { none = true; Out::None }
                                    },
                                    StOp::Def => Out::Ok(T::<B>::default()),
                                    StOp::Set(l, c) => res(T::<B>::try_from(b.as_slice())).map(|mut s| {
                                        unsafe { s.set_cell_at_level_unchecked(*l, $cell(*c)) };
                                        s
                                    }),
                                    StOp::Anc(g) => opt(T::<B>::try_from(b.as_slice()).unwrap().ancestor(NonZeroUsize::new(*g).unwrap())),
                                    StOp::Desc(p) => opt(T::<B>::try_from(b.as_slice()).unwrap().descendant(&cs(p))),
                                });
                                if none { None } else { Some(r) }
                            };
                            match r? { Out::Ok(s) => guard(|| Out::Ok(st_obs::<$Dim, _, _>(&s, $num, w::<B>))), x => x.map(|_| unreachable!()) }
                        }
                        K::D => {
                            type T = $Dy;
                            let r: Option<Out<T>> = {
                                let mut none = false;
                                let r = guard(|| match &op {
                                    StOp::New => res(T::try_from(b.as_slice())),
                                    StOp::NewArr => match arr_all!(base, $cell, T, |x| x) {
                                        Some(r) => r,
                                        None => { none = true; Out::None }
                                    },
                                    StOp::Def => Out::Ok(T::default()),
                                    StOp::Set(l, c) => res(T::try_from(b.as_slice())).map(|mut s| {
                                        unsafe { s.set_cell_at_level_unchecked(*l, $cell(*c)) };
                                        s
                                    }),
                                    StOp::Anc(g) => opt(T::try_from(b.as_slice()).unwrap().ancestor(NonZeroUsize::new(*g).unwrap())),
                                    StOp::Desc(p) => opt(T::try_from(b.as_slice()).unwrap().descendant(&cs(p))),
                                });
                                if none { None } else { Some(r) }
                            };
                            match r? { Out::Ok(s) => guard(|| Out::Ok(st_obs::<$Dim, _, _>(&s, $num, |_| None))), x => x.map(|_| unreachable!()) }
                        }
                    })
                }
                fn st_cmp(k: K, a: &[u8], b: &[u8]) -> Option<(Ordering, Option<Ordering>, bool, bool, Ordering)> {
                    let (a, b) = (cs(a), cs(b));
                    match k {
                        K::F => {
                            let (a, b) = ($Fx::<B>::try_from(a.as_slice()).ok()?, $Fx::<B>::try_from(b.as_slice()).ok()?);
                            Some((a.cmp(&b), a.partial_cmp(&b), a == b, hash_of(&a) == hash_of(&b), a.bits().to().cmp(&b.bits().to())))
                        }
                        K::S => {
                            let (a, b) = ($St::<B>::try_from(a.as_slice()).ok()?, $St::<B>::try_from(b.as_slice()).ok()?);
                            Some((a.cmp(&b), a.partial_cmp(&b), a == b, hash_of(&a) == hash_of(&b), a.bits().to().cmp(&b.bits().to())))
                        }
                        K::D => {
                            let (a, b) = ($Dy::try_from(a.as_slice()).ok()?, $Dy::try_from(b.as_slice()).ok()?);
                            Some((a.cmp(&b), a.partial_cmp(&b), a == b, hash_of(&a) == hash_of(&b), a.cmp(&b)))
                        }
                    }
                }
            }
        }
    };
}

/// What only some families offer.
pub trait Extra: Sized {
    fn fast(_g: &Grid, _o: &str) -> Option<Self> {
        None
    }
    fn raw(_k: K, _bits: u128, _n: usize) -> Option<Self> {
        None
    }
    fn maxl(_k: K) -> Vec<usize> {
        vec![]
    }
}

family!(d2, 2, Dim2D, MortonIndex2D, FixedDepthStorage2D, StaticStorage2D, DynamicStorage2D, Quadrant, q, qn, qord, v2);
family!(d3, 3, Dim3D, MortonIndex3D, FixedDepthStorage3D, StaticStorage3D, DynamicStorage3D, Octant, o, on, oord, v3);

macro_rules! extra2 {
    ($($t:ty)*) => { $( impl Extra for d2::Any<$t> {} )* };
}
extra2!(u8 u16 u32 u64 u128 usize);
#[cfg(feature = "own")]
impl<const N: usize> Extra for d2::Any<crate::own::Own<N>> {}

macro_rules! extra3 {
    ($([$($g:tt)*] $t:ty, $fast:expr;)*) => { $( impl $($g)* Extra for d3::Any<$t> {
        fn fast(g: &Grid, or: &str) -> Option<Self> {
            let f: Option<fn(&Grid, &str) -> Self> = $fast;
            f.map(|f| f(g, or))
        }
        fn raw(k: K, bits: u128, n: usize) -> Option<Self> {
            match k {
                K::F => Some(d3::Any::F(d3::F::<$t>::from_raw_index(<$t>::of(bits)))),
                K::S => Some(d3::Any::S(d3::S::<$t>::from_raw_index(<$t>::of(bits), n as u8))),
                K::D => None,
            }
        }
        fn maxl(k: K) -> Vec<usize> {
            match k {
                K::F => vec![d3::F::<$t>::MAX_LEVELS],
                K::S => vec![d3::S::<$t>::MAX_LEVELS],
                K::D => vec![],
            }
        }
    } )* };
}
extra3!(
    [] u8, None;
    [] u16, None;
    [] u32, None;
    [] u64, Some(|g, or| d3::Any::F(FixedDepthMortonIndex3D64::from_grid_index_fast(v3(g), oord(or))));
    [] u128, None;
    [] usize, None;
);
#[cfg(feature = "own")]
extra3!([<const N: usize>] crate::own::Own<N>, None;);
