//! Replays the cases TLC printed from BitCases: bit ranges and conversions
//! (C12), bit spreading (C13), alignment (C14), cells and orderings (C15).
use crate::fam::*;
use crate::util::*;
use morton_index::align::Alignable;
use morton_index::dimensions::*;
use morton_index::number::*;
use morton_index::Error;
use std::convert::TryFrom;

pub fn bits_of(v: u128, n: usize) -> Vec<u8> {
    (0..n).map(|i| if i < 128 { ((v >> i) & 1) as u8 } else { 0 }).collect()
}
pub fn word_of(b: &[u8]) -> u128 {
    b.iter().enumerate().fold(0, |a, (i, x)| if *x != 0 { a | 1u128 << i } else { a })
}
pub fn bits_of_vec(v: &[u8]) -> Vec<u8> {
    v.iter().flat_map(|x| (0..8).map(move |i| (x >> i) & 1)).collect()
}
pub fn vec_of(b: &[u8]) -> Vec<u8> {
    b.chunks(8).map(|c| word_of(c) as u8).collect()
}
/// result segments -> bits
fn expand(r: &[i64], recv: &[u8], arg: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    for s in r.chunks(3) {
        for i in 0..s[2] {
            out.push(match s[0] {
                0 => 0,
                1 => recv[(s[1] + i) as usize],
                _ => arg[(s[1] + i) as usize],
            });
        }
    }
    out
}
/// bit patterns of a given length
fn patterns(rng: &mut Rng, n: usize, rounds: usize) -> Vec<Vec<u8>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![vec![0; n], vec![1; n]];
    if n <= 4 {
        out = (0..(1u128 << n)).map(|v| bits_of(v, n)).collect();
        return out;
    }
    for v in [0usize, n - 1, rng.below(n)] {
        let mut x = vec![0; n];
        x[v] = 1;
        out.push(x);
        let mut x = vec![1; n];
        x[v] = 0;
        out.push(x);
    }
    out.push((0..n).map(|i| (i % 2) as u8).collect());
    let k = rng.below(n);
    out.push((0..n).map(|i| (i < k) as u8).collect());
    let k = rng.below(n);
    out.push((0..n).map(|i| (i >= k) as u8).collect());
    for _ in 0..rounds {
        out.push((0..n).map(|_| (rng.next() & 1) as u8).collect());
    }
    out
}
fn hexb(b: &[u8]) -> String {
    b.iter().rev().map(|x| if *x == 0 { '0' } else { '1' }).collect()
}

struct Rep<'a> {
    ctx: &'a Ctx,
}
impl<'a> Rep<'a> {
    fn expect(&self, prop: &'static str, t: &Tpl, what: &str, got: Out<Vec<u8>>, want: &[u8], recv: &[u8], arg: &[u8]) {
        match &got {
            Out::Ok(g) if g == want => {}
            _ => self.ctx.fail(&[prop], || {
                format!(
                    "{what} {:?}: receiver {} argument {}: {}, expected {}",
                    t.a,
                    hexb(recv),
                    hexb(arg),
                    match &got {
                        Out::Ok(g) => hexb(g),
                        x => format!("{:?}", x),
                    },
                    hexb(want)
                )
            }),
        }
    }

    fn word<B: Word>(&self, t: &Tpl, rng: &mut Rng) -> u64 {
        let w = B::N;
        let mut cases = 0;
        let name = |f: &str| format!("{}::{}", B::T, f);
        let rounds = self.ctx.rounds;
        match t.op.as_str() {
            "bget" | "bset" | "bgetu" | "bsetu" => {
                let (s, e) = (t.a[0] as usize, t.a[1] as usize);
                let rec = patterns(rng, w, rounds);
                let args = if t.op.starts_with("bset") { patterns(rng, e - s, rounds) } else { vec![vec![]] };
                for r in &rec {
                    for a in &args {
                        cases += 1;
                        let x = B::of(word_of(r));
                        let want = expand(&t.r, r, a);
                        let v = word_of(a);
                        match t.op.as_str() {
                            "bget" => {
                                let got = guard(|| Out::Ok(bits_of(unsafe { x.get_bits(s..e) }.to(), w)));
                                self.expect("C12", t, &name("get_bits"), got, &want, r, a)
                            }
                            "bgetu" => {
                                let got = guard(|| Out::Ok(bits_of(unsafe { x.get_bits_as_usize(s..e) } as u128, 64)));
                                self.expect("C12", t, &name("get_bits_as_usize"), got, &want, r, a)
                            }
                            "bset" => {
                                let got = guard(|| {
                                    let mut x = x;
                                    unsafe { x.set_bits(s..e, B::of(v)) };
                                    Out::Ok(bits_of(x.to(), w))
                                });
                                self.expect("C12", t, &name("set_bits"), got, &want, r, a)
                            }
                            _ => {
                                let got = guard(|| {
                                    let mut x = x;
                                    unsafe { x.set_bits_from_usize(s..e, v as usize) };
                                    Out::Ok(bits_of(x.to(), w))
                                });
                                self.expect("C12", t, &name("set_bits_from_usize"), got, &want, r, a)
                            }
                        }
                    }
                }
            }
            "as" => {
                let u = t.a[0] as usize;
                for r in patterns(rng, w, 8 * rounds) {
                    cases += 1;
                    let x = B::of(word_of(&r));
                    let want = expand(&t.r, &r, &[]);
                    let got = |how: usize| {
                        guard(|| {
                            Out::Ok(bits_of(
                                unsafe {
                                    match (u, how) {
                                        (8, _) => x.as_u8() as u128,
                                        (16, _) => x.as_u16() as u128,
                                        (32, _) => x.as_u32() as u128,
                                        (64, 0) => x.as_u64() as u128,
                                        (64, _) => x.as_usize() as u128,
                                        _ => x.as_u128(),
                                    }
                                },
                                u,
                            ))
                        })
                    };
                    self.expect("C12", t, &name(&format!("as_u{u}")), got(0), &want, &r, &[]);
                    if u == 64 {
                        self.expect("C12", t, &name("as_usize"), got(1), &want, &r, &[]);
                    }
                    // the view as bytes is the word in memory order
                    let got = guard(|| Out::Ok(bits_of_vec(unsafe { x.as_u8_slice() })));
                    self.expect("C12", t, &name("as_u8_slice"), got, &r, &r, &[]);
                    let got = guard(|| {
                        let mut y = B::of(0);
                        let from = vec_of(&r);
                        unsafe { y.as_u8_slice_mut() }.copy_from_slice(&from);
                        Out::Ok(bits_of(y.to(), w))
                    });
                    self.expect("C12", t, &name("as_u8_slice_mut"), got, &r, &r, &[]);
                    if guard(|| Out::Ok(x.size())) != Out::Ok(w / 8) || <B as Bits>::BITS != w {
                        self.ctx.fail(&["C12"], || format!("{}::size/BITS: {} {}", B::T, x.size(), <B as Bits>::BITS));
                    }
                }
            }
            "from" => {
                let u = t.a[0] as usize;
                for a in patterns(rng, u, 8 * rounds) {
                    cases += 1;
                    let v = word_of(&a);
                    let want = expand(&t.r, &[], &a);
                    for how in 0..2 {
                        let got = guard(|| {
                            Out::Ok(bits_of(
                                unsafe {
                                    match (u, how) {
                                        (8, _) => B::from_u8(v as u8),
                                        (16, _) => B::from_u16(v as u16),
                                        (32, _) => B::from_u32(v as u32),
                                        (64, 0) => B::from_u64(v as u64),
                                        (64, _) => B::from_usize(v as usize),
                                        _ => B::from_u128(v),
                                    }
                                }
                                .to(),
                                w,
                            ))
                        });
                        self.expect("C12", t, &name(&format!("from_u{u}/{how}")), got, &want, &[], &a);
                    }
                }
            }
            "slice" => {
                let (l, be) = (t.a[0] as usize, t.a[1] == 1);
                for a in patterns(rng, 8 * l, 8 * rounds) {
                    cases += 1;
                    let bytes = vec_of(&a);
                    let want = expand(&t.r, &[], &a);
                    let got = guard(|| {
                        let en = if be { Endianness::BigEndian } else { Endianness::LittleEndian };
                        Out::Ok(bits_of(unsafe { B::from_u8_slice(&bytes, en) }.to(), w))
                    });
                    self.expect("C12", t, &name("from_u8_slice"), got, &want, &[], &a);
                }
            }
            op => panic!("unknown bit op {op}"),
        }
        cases
    }

    fn vector(&self, t: &Tpl, rng: &mut Rng) -> u64 {
        let l = t.w;
        let mut cases = 0;
        let rounds = self.ctx.rounds;
        match t.op.as_str() {
            "vget" | "vgetu" | "vset" | "vsetu" => {
                let (s, e) = (t.a[0] as usize, t.a[1] as usize);
                let set = t.op.starts_with("vset");
                let rec = patterns(rng, 8 * l, rounds);
                let args = if set { patterns(rng, e - s, rounds) } else { vec![vec![]] };
                for r in &rec {
                    for a in &args {
                        cases += 1;
                        let x = vec_of(r);
                        let want = expand(&t.r, r, a);
                        let got = guard(|| {
                            let mut x = x.clone();
                            Out::Ok(bits_of_vec(&unsafe {
                                match t.op.as_str() {
                                    "vget" => x.get_bits(s..e),
                                    "vgetu" => x.get_bits_as_usize(s..e).to_le_bytes().to_vec(),
                                    "vset" => {
                                        let mut v = vec_of(a);
                                        v.resize(t.a[2] as usize, 0);
                                        x.set_bits(s..e, v);
                                        x
                                    }
                                    _ => {
                                        x.set_bits_from_usize(s..e, word_of(a) as usize);
                                        x
                                    }
                                }
                            }))
                        });
                        self.expect("C12", t, &format!("Vec<u8>({l} bytes) {}", t.op), got, &want, r, a);
                    }
                }
            }
            "vas" => {
                let u = t.a[0] as usize;
                for r in patterns(rng, 8 * l, 8 * rounds) {
                    cases += 1;
                    let want = expand(&t.r, &r, &[]);
                    for how in 0..2 {
                        let x = vec_of(&r);
                        let got = guard(|| {
                            Out::Ok(bits_of(
                                unsafe {
                                    match (u, how) {
                                        (8, _) => x.as_u8() as u128,
                                        (16, _) => x.as_u16() as u128,
                                        (32, _) => x.as_u32() as u128,
                                        (64, 0) => x.as_u64() as u128,
                                        (64, _) => x.as_usize() as u128,
                                        _ => x.as_u128(),
                                    }
                                },
                                u,
                            ))
                        });
                        self.expect("C12", t, &format!("Vec<u8>({l} bytes)::as_u{u}/{how}"), got, &want, &r, &[]);
                    }
                    let mut x = vec_of(&r);
                    let got = guard(|| Out::Ok(bits_of_vec(unsafe { x.as_u8_slice() })));
                    self.expect("C12", t, "Vec<u8>::as_u8_slice", got, &r, &r, &[]);
                    let got = guard(|| Out::Ok(bits_of_vec(unsafe { x.as_u8_slice_mut() })));
                    self.expect("C12", t, "Vec<u8>::as_u8_slice_mut", got, &r, &r, &[]);
                    if x.size() != l {
                        self.ctx.fail(&["C12"], || format!("Vec<u8>::size: {} for {l} bytes", x.size()));
                    }
                }
            }
            "vfrom" => {
                let u = t.a[0] as usize;
                for a in patterns(rng, u, 8 * rounds) {
                    cases += 1;
                    let v = word_of(&a);
                    let want = expand(&t.r, &[], &a);
                    for how in 0..2 {
                        let got = guard(|| {
                            Out::Ok(bits_of_vec(&unsafe {
                                match (u, how) {
                                    (8, _) => Vec::<u8>::from_u8(v as u8),
                                    (16, _) => Vec::<u8>::from_u16(v as u16),
                                    (32, _) => Vec::<u8>::from_u32(v as u32),
                                    (64, 0) => Vec::<u8>::from_u64(v as u64),
                                    (64, _) => Vec::<u8>::from_usize(v as usize),
                                    _ => Vec::<u8>::from_u128(v),
                                }
                            }))
                        });
                        self.expect("C12", t, &format!("Vec<u8>::from_u{u}/{how}"), got, &want, &[], &a);
                    }
                }
            }
            "vslice" => {
                let (l, be) = (t.a[0] as usize, t.a[1] == 1);
                for a in patterns(rng, 8 * l, 8 * rounds) {
                    cases += 1;
                    let bytes = vec_of(&a);
                    let want = expand(&t.r, &[], &a);
                    let got = guard(|| {
                        let en = if be { Endianness::BigEndian } else { Endianness::LittleEndian };
                        Out::Ok(bits_of_vec(&unsafe { Vec::<u8>::from_u8_slice(&bytes, en) }))
                    });
                    self.expect("C12", t, "Vec<u8>::from_u8_slice", got, &want, &[], &a);
                }
            }
            op => panic!("unknown vector op {op}"),
        }
        cases
    }

    fn spread(&self, t: &Tpl, rng: &mut Rng) -> u64 {
        let mut cases = 0;
        let f = |x: u64| -> u64 {
            let mut y = 0;
            for (j, src) in t.r.iter().enumerate() {
                if *src >= 0 {
                    y |= ((x >> src) & 1) << j;
                }
            }
            y
        };
        let call = |x: u64| -> u64 {
            match t.op.as_str() {
                "before8" => add_zero_before_every_bit_u8(x as u8) as u64,
                "behind8" => add_zero_behind_every_bit_u8(x as u8) as u64,
                "before16" => add_zero_before_every_bit_u16(x as u16) as u64,
                "two8" => add_two_zeroes_before_every_bit_u8(x as u8) as u64,
                _ => add_two_zeroes_before_every_bit_u32(x as u32),
            }
        };
        let mut one = |x: u64| {
            cases += 1;
            let got = guard(|| Out::Ok(call(x)));
            if got != Out::Ok(f(x)) {
                self.ctx.fail(&["C13"], || format!("{}({:#x}): {:x?}, expected {:#x}", t.op, x, got, f(x)));
            }
        };
        match t.w {
            8 => (0..256).for_each(&mut one),
            16 => (0..65536).for_each(&mut one),
            _ => {
                // all values of the documented input width
                for x in 0..(1u64 << 21) {
                    one(x);
                }
                for b in 0..32u64 {
                    for c in 0..32u64 {
                        one(1 << b | 1 << c);
                        one(!(1 << b | 1 << c) & 0xffff_ffff);
                    }
                }
                for h in 0..2048u64 {
                    one(h << 21);
                    one(h << 21 | 0x1f_ffff);
                    one(h << 21 | (rng.next() & 0x1f_ffff));
                }
                for x in 0..(1u64 << 16) {
                    one(x << 8);
                    one(x << 16);
                }
                for _ in 0..(20_000 * self.ctx.rounds as u64) {
                    one(rng.next() & 0xffff_ffff);
                }
            }
        }
        cases
    }

    fn align(&self, t: &Tpl, rng: &mut Rng) -> u64 {
        let mut cases = 0;
        macro_rules! al {
            ($ty:ty, $v:expr, $a:expr, $w:expr) => {{
                cases += 1;
                let (v, a, w) = ($v as $ty, $a as $ty, $w as $ty);
                let got = guard(|| Out::Ok(v.align_to(a)));
                if got != Out::Ok(w) {
                    self.ctx.fail(&["C14"], || format!("{}: {}.align_to({}): {:?}, expected {}", stringify!($ty), v, a, got, w));
                }
            }};
        }
        if t.op == "align8" {
            let a = t.a[0];
            for (v, w) in t.r.iter().enumerate() {
                if *w >= 0 {
                    al!(u8, v, a, *w);
                    al!(u16, v, a, *w);
                    al!(u32, v, a, *w);
                    al!(u64, v, a, *w);
                    al!(u128, v, a, *w);
                    al!(usize, v, a, *w);
                }
            }
            return cases;
        }
        // align: v = q * a + r; the law says which multiple of a is the result
        let add = t.r[0] as u128;
        macro_rules! class {
            ($ty:ty) => {{
                const MAX: u128 = <$ty>::MAX as u128;
                let nb = <$ty>::BITS as usize;
                let lim = |rng: &mut Rng| -> u128 {
                    let v = rng.u128() & MAX;
                    v >> rng.below(nb)
                };
                let mut vs: Vec<u128> = vec![0, 1, 2, 3, 7, MAX, MAX - 1, MAX - 2, MAX / 2, MAX / 2 + 1, MAX / 2 + 2, MAX / 3, MAX / 3 + 1];
                for b in 0..nb {
                    vs.push(1u128 << b);
                    vs.push((1u128 << b) - 1);
                    vs.push((1u128 << b) + 1);
                }
                for _ in 0..(40 * self.ctx.rounds) {
                    let v = lim(rng);
                    vs.push(v);
                }
                if t.s == "zero" {
                    for v in vs {
                        al!($ty, v & MAX, 0, v & MAX);
                    }
                } else {
                    for a in vs.iter().map(|v| v & MAX).filter(|a| *a > 0) {
                        // q with (q + add) * a representable
                        let top = MAX / a;
                        if top < add {
                            continue;
                        }
                        let top = top - add;
                        let mut qs = vec![0, 1, top, top.saturating_sub(1), top / 2];
                        for _ in 0..self.ctx.rounds {
                            qs.push((rng.u128() >> rng.below(128)) % (top.saturating_add(1)).max(1));
                        }
                        for q in qs.into_iter().filter(|q| *q <= top) {
                            let mut rs = vec![0];
                            if t.s == "rest" {
                                rs = vec![1, a - 1, a / 2, 2, 1 + rng.u128() % a];
                                rs.retain(|r| *r > 0 && *r < a);
                            }
                            for r in rs {
                                al!($ty, q * a + r, a, (q + add) * a);
                            }
                        }
                    }
                }
            }};
        }
        class!(u8);
        class!(u16);
        class!(u32);
        class!(u64);
        class!(u128);
        class!(usize);
        cases
    }

    fn cell(&self, t: &Tpl) -> u64 {
        let mut cases = 0;
        let xs: Vec<usize> = if t.a[0] < 0 {
            let mut v = HUGE.to_vec();
            for k in 4..64 {
                for c in 0..8 {
                    v.push((1usize << k) + c);
                    v.push((usize::MAX << k) + c);
                }
            }
            v
        } else {
            vec![t.a[0] as usize]
        };
        for x in xs {
            cases += 1;
            let got = guard(|| {
                if t.w == 2 {
                    match Quadrant::try_from(x) {
                        Ok(c) => Out::Ok(vec![qn(c) as usize, c.index(), c.into(), (&c).into()]),
                        Err(Error::CellIndexOutOfRange) => Out::None,
                        Err(_) => Out::ErrOther,
                    }
                } else {
                    match Octant::try_from(x) {
                        Ok(c) => Out::Ok(vec![on(c) as usize, c.index(), c.into(), (&c).into()]),
                        Err(Error::CellIndexOutOfRange) => Out::None,
                        Err(_) => Out::ErrOther,
                    }
                }
            });
            let want = if t.r.is_empty() { Out::None } else { Out::Ok(vec![t.r[0] as usize; 4]) };
            if got != want {
                self.ctx.fail(&["C15"], || format!("cell number {x} in {}D: {:?}, expected {:?}", t.w, got, want));
            }
            if let Out::Ok(_) = want {
                for y in 0..(1u8 << t.w) {
                    cases += 1;
                    let xx = x as u8;
                    let num = xx.cmp(&y);
                    let ok = if t.w == 2 {
                        let (a, b) = (q(xx), q(y));
                        a.cmp(&b) == num && a.partial_cmp(&b) == Some(num) && (a == b) == (xx == y) && (a < b) == (xx < y) && (hash_of(&a) == hash_of(&b)) == (xx == y)
                    } else {
                        let (a, b) = (o(xx), o(y));
                        a.cmp(&b) == num && a.partial_cmp(&b) == Some(num) && (a == b) == (xx == y) && (a < b) == (xx < y) && (hash_of(&a) == hash_of(&b)) == (xx == y)
                    };
                    if !ok {
                        self.ctx.fail(&["C15"], || format!("order of cells {x} and {y} in {}D", t.w));
                    }
                }
            }
        }
        cases
    }

    fn ord(&self, t: &Tpl) -> u64 {
        let d = t.w;
        let n = 1usize << d;
        for x in 0..n {
            let want: Vec<usize> = t.r[x * d..(x + 1) * d].iter().map(|v| *v as usize).collect();
            let got = guard(|| {
                Out::Ok(if d == 2 {
                    qord(&t.s).to_index(q(x as u8)).iter().cloned().collect::<Vec<_>>()
                } else {
                    oord(&t.s).to_index(o(x as u8)).iter().cloned().collect::<Vec<_>>()
                })
            });
            if got != Out::Ok(want.clone()) {
                self.ctx.fail(&["C15"], || format!("{}.to_index({x}): {:?}, expected {:?}", t.s, got, want));
            }
        }
        if d == 3 {
            let want: Vec<usize> = t.r[n * d..].iter().map(|v| *v as usize).collect();
            let got = guard(|| {
                let (x, y, z) = oord(&t.s).get_bit_shifts_for_xyz();
                Out::Ok(vec![x, y, z])
            });
            if got != Out::Ok(want.clone()) {
                self.ctx.fail(&["C15"], || format!("{}.get_bit_shifts_for_xyz(): {:?}, expected {:?}", t.s, got, want));
            }
        }
        n as u64 + 1
    }

    fn deford(&self, t: &Tpl) -> u64 {
        let ok = guard(|| {
            Out::Ok(match (t.w, t.s.as_str()) {
                (2, "XY") => matches!(QuadrantOrdering::default(), QuadrantOrdering::XY),
                (3, "XYZ") => matches!(OctantOrdering::default(), OctantOrdering::XYZ),
                x => panic!("default ordering {:?}", x),
            })
        });
        if ok != Out::Ok(true) {
            self.ctx.fail(&["C15"], || format!("the default {}D ordering is not {}", t.w, t.s));
        }
        1
    }
}

pub fn run_bits(ctx: &Ctx, prog: &Progress, slot: usize, part: usize, parts: usize, tpls: &[Tpl]) {
    let r = Rep { ctx };
    for t in tpls.iter().filter(|t| t.id % parts == part) {
        let mut rng = Rng::new(seed_of(&[ctx.seed, t.id as u64]));
        prog.at(slot, t.show());
        let c = match t.op.as_str() {
            "bget" | "bset" | "bgetu" | "bsetu" | "as" | "from" | "slice" => match t.w {
                8 => r.word::<u8>(t, &mut rng),
                16 => r.word::<u16>(t, &mut rng),
                32 => r.word::<u32>(t, &mut rng),
                64 => r.word::<u64>(t, &mut rng) + r.word::<usize>(t, &mut rng),
                _ => r.word::<u128>(t, &mut rng),
            },
            "vget" | "vset" | "vgetu" | "vsetu" | "vas" | "vfrom" | "vslice" => r.vector(t, &mut rng),
            "before8" | "behind8" | "before16" | "two8" | "two32" => r.spread(t, &mut rng),
            "align8" | "align" => r.align(t, &mut rng),
            "cell" => r.cell(t),
            "ord" => r.ord(t),
            "deford" => r.deford(t),
            op => panic!("unknown op {op}"),
        };
        ctx.count(&t.op, 1, c);
        if ctx.enough() {
            break;
        }
    }
    prog.done(slot);
}
pub const BIT_OPS: [&str; 21] = [
    "bget", "bset", "bgetu", "bsetu", "as", "from", "slice", "vget", "vset", "vgetu", "vsetu", "vas", "vfrom", "vslice", "before8",
    "behind8", "before16", "two8", "two32", "align8", "align",
];
pub fn is_bit_op(op: &str) -> bool {
    BIT_OPS.contains(&op) || matches!(op, "cell" | "ord" | "deford")
}
