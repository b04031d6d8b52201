//! Replays the transitions TLC printed (MortonCases) on the real code: every
//! template is instantiated with many cell values and executed; outcome and
//! result must be what the specification's transition says.
use crate::fam::*;
use crate::util::*;
use std::cmp::Ordering;
use std::collections::HashMap;

/// Which property an operation's own result belongs to.
pub fn prop_of(op: &str) -> &'static str {
    match op {
        "new" | "def" | "zer" | "get" | "it" | "hg" => "C01",
        "max" => "C02",
        "set" => "C03",
        "tg" => "C04",
        "fg" | "ff" => "C05",
        "anc" | "par" | "wd" | "desc" | "chd" => "C06",
        "cmp" => "C07",
        "cnv" => "C09",
        "nam" | "dsp" => "C10",
        "inv" => "C11",
        "raw" => "C16",
        "nst" | "zc" => "C17",
        _ => "C08",
    }
}
/// Operations whose refusals are a matter of capacity or level bounds.
fn bounded(op: &str) -> bool {
    matches!(op, "new" | "zer" | "fg" | "desc" | "chd" | "cnv" | "set" | "get" | "max")
}

pub fn top(d: usize) -> u8 {
    ((1u32 << d) - 1) as u8
}

/// Cell vectors to instantiate a template with.
pub fn vals(rng: &mut Rng, len: usize, d: usize, rounds: usize) -> Vec<Vec<u8>> {
    let base = 1usize << d;
    let mut out: Vec<Vec<u8>> = vec![];
    if len == 0 {
        return vec![vec![]];
    }
    let exhaustive = len * d <= if rounds >= 8 { 10 } else { 8 };
    if exhaustive {
        for x in 0..(1usize << (len * d)) {
            out.push((0..len).map(|i| ((x >> (i * d)) % base) as u8).collect());
        }
        return out;
    }
    out.push(vec![0; len]);
    out.push(vec![top(d); len]);
    out.push((0..len).map(|i| ((i * 5 + 3) % base) as u8).collect());
    out.push((0..len).map(|i| if i % 2 == 0 { 0 } else { top(d) }).collect());
    // one cell differs from zero / from the maximum
    for k in [0, len - 1, rng.below(len), rng.below(len)] {
        let mut v = vec![0; len];
        v[k] = 1 + rng.below(base - 1) as u8;
        out.push(v);
    }
    let mut v = vec![top(d); len];
    v[rng.below(len)] = rng.below(base - 1) as u8;
    out.push(v);
    out.push(vec![1 + rng.below(base - 2) as u8; len]);
    for _ in 0..rounds {
        out.push(rnd_cells(rng, len, d));
    }
    out
}
fn vals_for(t: &Tpl, rng: &mut Rng, len: usize, d: usize, rounds: usize) -> Vec<Vec<u8>> {
    if !t.far {
        return vals(rng, len, d, rounds);
    }
    let base = 1usize << d;
    vec![(0..len).map(|i| ((i * 5 + i / 256 + i / 65536 + 3) % base) as u8).collect(), rnd_cells(rng, len, d)]
}
/// A coordinate below 2^n of a telling shape.
pub fn rnd_coord(rng: &mut Rng, n: usize) -> usize {
    let n = n.min(64);
    if n == 0 {
        return 0;
    }
    let mask = if n == 64 { usize::MAX } else { (1usize << n) - 1 };
    let one = 1usize << rng.below(n);
    let ten = 10usize.pow(rng.below(20) as u32);
    mask & match rng.below(12) {
        0 => 0,
        1 => mask,
        2 => one,
        3 => one - 1,
        4 => !one,
        5 => mask.saturating_sub(rng.below(4)),
        6 => rng.below(16),
        7 => ten,
        8 => ten - 1,
        _ => rng.next() as usize,
    }
}
/// A grid position: some coordinates may be equal or zero.
pub fn rnd_grid(rng: &mut Rng, n: usize) -> Grid {
    let mut g = [rnd_coord(rng, n), rnd_coord(rng, n), rnd_coord(rng, n)];
    match rng.below(6) {
        0 => g = [g[0]; 3],
        1 => g[1] = g[0],
        2 => g[2] = g[1],
        3 => g[2] = g[0],
        _ => {}
    }
    g
}
pub fn rnd_cells(rng: &mut Rng, len: usize, d: usize) -> Vec<u8> {
    let base = 1usize << d;
    match rng.below(12) {
        0 => {
            // long constant stretches
            let mut v = Vec::with_capacity(len);
            let mut c = rng.below(base) as u8;
            for _ in 0..len {
                if rng.chance(1, 6) {
                    c = rng.below(base) as u8;
                }
                v.push(c);
            }
            v
        }
        1 | 2 => {
            // zero tail or head
            let k = rng.below(len + 1);
            let tail = rng.chance(1, 2);
            (0..len).map(|i| if (i < k) == tail { rng.below(base) as u8 } else { 0 }).collect()
        }
        3 => {
            // a period, possibly with one deviation
            let p = 1 + rng.below(9);
            let unit: Vec<u8> = (0..p).map(|_| rng.below(base) as u8).collect();
            let mut v: Vec<u8> = (0..len).map(|i| unit[i % p]).collect();
            if len > 0 && rng.chance(1, 3) {
                v[rng.below(len)] = rng.below(base) as u8;
            }
            v
        }
        4 => {
            // a palindrome, or nearly one
            let mut v: Vec<u8> = (0..len).map(|_| rng.below(base) as u8).collect();
            for i in 0..len / 2 {
                v[len - 1 - i] = v[i];
            }
            if len > 0 && rng.chance(1, 2) {
                v[rng.below(len)] = rng.below(base) as u8;
            }
            v
        }
        5 => {
            // two equal halves
            let h = (len + 1) / 2;
            let half: Vec<u8> = (0..h).map(|_| rng.below(base) as u8).collect();
            (0..len).map(|i| half[i % h]).collect()
        }
        6 => {
            // one cell differs from all the others
            let c = rng.below(base) as u8;
            let mut v = vec![c; len];
            if len > 0 {
                v[rng.below(len)] = rng.below(base) as u8;
            }
            v
        }
        7 => {
            // an ascending or descending staircase
            let (s, up) = (1 + rng.below(7), rng.chance(1, 2));
            (0..len).map(|i| if up { ((i / s) % base) as u8 } else { (base - 1 - (i / s) % base) as u8 }).collect()
        }
        8 => {
            // the cells of a position of telling shape
            let g = rnd_grid(rng, len);
            (0..len).map(|l| {
                let s = len - 1 - l;
                (0..d).map(|a| if s < 64 { ((g[a] >> s & 1) as u8) << a } else { 0 }).sum()
            }).collect()
        }
        _ => (0..len).map(|_| rng.below(base) as u8).collect(),
    }
}

pub fn subst(t: &Tpl, base: &[u8], args: &[u8]) -> Vec<u8> {
    let a = if t.far { 1_000_000 } else { 1000 };
    t.r.iter()
        .map(|&t| {
            if t == 0 {
                0
            } else if t > a {
                args[(t - a - 1) as usize]
            } else {
                base[(t - 1) as usize]
            }
        })
        .collect()
}
pub fn bit_of(tok: i64, base: &[u8], g: &Grid) -> usize {
    if tok == 0 {
        0
    } else if tok >= 100_000 {
        let a = ((tok - 100_000) / 1000) as usize;
        let k = (tok % 1000) as u32;
        (g[a - 1] >> k) & 1
    } else {
        let t = (tok / 4) as usize;
        ((base[t - 1] >> (tok % 4)) & 1) as usize
    }
}
pub fn grid_of(r: &[i64], d: usize, n: usize, base: &[u8]) -> Grid {
    let mut g = [0usize; 3];
    for a in 0..d {
        for i in 0..n {
            g[a] = (g[a] << 1) | bit_of(r[a * n + i], base, &[0; 3]);
        }
    }
    g
}
fn cells_of_bits(r: &[i64], d: usize, g: &Grid) -> Vec<u8> {
    r.chunks(d)
        .map(|c| c.iter().enumerate().map(|(b, t)| (bit_of(*t, &[], g) << b) as u8).sum())
        .collect()
}

/// Spells the text tokens of MortonDesign (NameText, DisplayText).
pub fn text(r: &[i64], base: &[u8]) -> String {
    let mut s = String::new();
    let mut i = 0;
    while i < r.len() {
        match r[i] {
            -1 => s.push('['),
            -2 => s += ", ",
            -3 => s.push(']'),
            -4 => s.push('r'),
            -5 => s.push('-'),
            -6 => {
                s += &r[i + 1].to_string();
                i += 1;
            }
            -7 => {
                let n = r[i + 1] as usize;
                let mut v: u128 = 0;
                for t in &r[i + 2..i + 2 + n] {
                    v = (v << 1) | bit_of(*t, base, &[0; 3]) as u128;
                }
                s += &v.to_string();
                i += 1 + n;
            }
            t => s.push((b'0' + base[(t - 1) as usize]) as char),
        }
        i += 1;
    }
    s
}

fn short(c: &[u8]) -> String {
    let s: String = c.iter().take(150).map(|x| (b'0' + x) as char).collect();
    if c.len() > 150 {
        format!("{}..({})", s, c.len())
    } else {
        format!("\"{}\"", s)
    }
}

/// Another way of arriving at the index (k, cells). None if not applicable.
pub const ROUTES: usize = 13;
pub fn route<A: Ix>(rng: &mut Rng, how: usize, k: K, c: &[u8]) -> Option<(String, &'static str, Out<A>)> {
    let n = c.len();
    let cap = A::cap(k);
    let d = A::DIM;
    let of = |rng: &mut Rng, m: usize| -> Vec<u8> { rnd_cells(rng, m, d) };
    Some(match how {
        0 => ("slice".into(), "C01", A::build(k, c)),
        1 => ("array".into(), "C01", A::build_arr(k, c)?),
        2 => {
            let mut v = match k {
                K::F => A::default(K::F),
                _ => A::zeroed(k, n)?.ok()?,
            };
            for l in 0..n {
                if let Out::Panic(m) = v.set(l, c[l]) {
                    return Some(("set every level".into(), "C03", Out::Panic(m)));
                }
            }
            ("set every level".into(), "C03", Out::Ok(v))
        }
        3 => {
            let rev: Vec<u8> = c.iter().rev().cloned().collect();
            ("inverted reverse".into(), "C11", A::build(k, &rev).ok().map(|v| guard(|| Out::Ok(v.inv())))?)
        }
        4 => {
            if k == K::F {
                return None;
            }
            let room = if k == K::D { 70 } else { cap - n };
            if room == 0 {
                return None;
            }
            let m = if rng.chance(1, 3) { room } else { 1 + rng.below(room) };
            let mut e = c.to_vec();
            if rng.chance(1, 4) {
                e.extend(vec![top(d); m]);
            } else {
                e.extend(of(rng, m));
            }
            (format!("ancestor of {}", short(&e)), "C06", A::build(k, &e).ok()?.anc(m))
        }
        5 => {
            if k == K::F {
                return None;
            }
            let p = rng.below(n + 1);
            (format!("descendant from depth {p}"), "C06", A::build(k, &c[..p]).ok()?.desc(&c[p..]))
        }
        6 => {
            let full = k != K::D && n == cap;
            let wcap = A::W / d;
            let from = match k {
                K::F => [K::S, K::D][rng.below(2)],
                K::S => {
                    if full && rng.chance(1, 2) {
                        K::F
                    } else {
                        K::D
                    }
                }
                K::D => {
                    if n > wcap {
                        return None;
                    }
                    if n == wcap && rng.chance(1, 2) {
                        K::F
                    } else {
                        K::S
                    }
                }
            };
            (format!("converted from {}", from.s()), "C09", A::build(from, c).ok()?.cnv(k))
        }
        7 => {
            if n > 64 || (k == K::D && n > 32) {
                return None;
            }
            let mut g = [0usize; 3];
            for x in c {
                for a in 0..d {
                    g[a] = (g[a] << 1) | ((x >> a) & 1) as usize;
                }
            }
            (format!("from grid {:?}", g), "C05", A::from_grid(k, &g, n, orderings(d)[0]))
        }
        8 => {
            if k == K::D {
                return None;
            }
            let mut bits = 0u128;
            for (l, x) in c.iter().enumerate() {
                bits |= (*x as u128) << (A::W - (l + 1) * d);
            }
            ("raw".into(), "C16", guard(|| opt(A::from_raw(k, bits, n))))
        }
        9 => {
            if n == 0 {
                return None;
            }
            let mut e = c.to_vec();
            let l = rng.below(n);
            e[l] = rng.below(1 << d) as u8;
            let mut v = A::build(k, &e).ok()?;
            if let Out::Panic(m) = v.set(l, c[l]) {
                return Some(("set back".into(), "C03", Out::Panic(m)));
            }
            (format!("level {l} set last"), "C03", Out::Ok(v))
        }
        10 => {
            if k == K::F {
                return None;
            }
            // up into other ground and down again
            let p = rng.below(n + 1);
            let room = if k == K::D { 40 } else { cap - p };
            if room == 0 {
                return None;
            }
            let m = 1 + rng.below(room);
            let mut e = c[..p].to_vec();
            e.extend(of(rng, m));
            let v = A::build(k, &e).ok()?.wd(p).ok()?;
            (format!("down to {}, up to {p}, down again", p + m), "C06", v.desc(&c[p..]))
        }
        11 => {
            // copied over another index, of any depth
            let other = match k {
                K::F => cap,
                _ if rng.chance(1, 3) => n,
                K::S => rng.below(cap + 1),
                K::D => rng.below(2 * n + 9).min(600),
            };
            let o = of(rng, other);
            let mut v: A = A::build(k, &o).ok()?;
            let src = A::build(k, c).ok()?;
            ("copied over an index of depth ".to_string() + &other.to_string(), "C03", guard(|| {
                v.copy_from(&src);
                Out::Ok(v.clone())
            }))
        }
        _ => {
            let v = A::build(k, c).ok()?;
            ("inverted twice".into(), "C11", guard(|| Out::Ok(v.inv().inv())))
        }
    })
}
/// None when the route applies but gives nothing (raw on 2D): not a failure.
fn route_na(how: usize, r: &Out<impl Sized>) -> bool {
    how == 8 && matches!(r, Out::None)
}

pub struct Fam<'a> {
    pub ctx: &'a Ctx,
    pub prog: &'a Progress,
    pub slot: usize,
    pub pack: HashMap<(usize, String, usize), &'a Tpl>, // (w, k, n) of this dimension
    pub grid: HashMap<(usize, usize, String), &'a Tpl>, // (w or 0 for D, n, ordering): index to grid
}

pub fn desc_index<A: Ix>(k: K, c: &[u8]) -> String {
    format!("{}{}D<{}> {}", k.s(), A::DIM, A::T, short(c))
}

/// Everything that can be read from v must say (k, cells).
pub fn observe<A: Ix>(v: &A, k: K, cells: &[u8]) -> Result<(), String> {
    if v.kind() != k {
        return Err(format!("flavour {:?}", v.kind()));
    }
    match v.obs() {
        Out::Ok(o) => {
            if o.depth != cells.len() {
                return Err(format!("depth {} (expected {}), cells {}", o.depth, cells.len(), short(&o.cells)));
            }
            if o.cells != cells {
                return Err(format!("cells {} (expected {})", short(&o.cells), short(cells)));
            }
        }
        x => return Err(format!("reading its levels: {:?}", x.tag())),
    }
    match guard(|| Out::Ok(v.cells())) {
        Out::Ok(it) => {
            if it != cells {
                return Err(format!("iterator gives {} (expected {})", short(&it), short(cells)));
            }
        }
        x => return Err(format!("iterating its cells: {:?}", x)),
    }
    Ok(())
}

impl<'a> Fam<'a> {
    /// Same node, reached differently: equal, equally hashed, equally ordered,
    /// and different from its neighbours.
    /// The node is what v itself shows: a wrong result is charged elsewhere.
    pub fn identity<A: Ix>(&self, rng: &mut Rng, v: &A, k: K, how: &dyn Fn() -> String) {
        let ctx = self.ctx;
        if !ctx.wants("C08") || v.kind() != k {
            return;
        }
        let cells = match v.obs() {
            Out::Ok(o) if o.depth == o.cells.len() => o.cells,
            _ => return,
        };
        let cells = cells.as_slice();
        let fresh = match A::build(k, cells) {
            Out::Ok(f) if observe(&f, k, cells).is_ok() => f,
            _ => return,
        };
        let r = guard(|| {
            let e1 = v.same(&fresh);
            let e2 = fresh.same(v);
            if e1 != (true, false) || e2 != (true, false) {
                return Out::Ok(format!("equality with a fresh index of the same cells: {:?} {:?}", e1, e2));
            }
            if v.hash64() != fresh.hash64() {
                return Out::Ok("hash differs from that of a fresh index of the same cells".into());
            }
            let c = v.cmp(&fresh);
            if c.0 != Ordering::Equal {
                return Out::Ok(format!("ordering against a fresh index of the same cells: {:?}", c));
            }
            // far down these are costly: on a sample
            if cells.len() > 5000 && !rng.chance(1, 6) {
                return Out::None;
            }
            // neighbours are different
            let mut other: Vec<Vec<u8>> = vec![];
            if !cells.is_empty() {
                let mut x = cells.to_vec();
                let l = rng.below(cells.len());
                x[l] = (x[l] + 1 + rng.below((1 << A::DIM) - 1) as u8) % (1 << A::DIM);
                other.push(x);
                let mut x = cells.to_vec();
                let l = cells.len() - 1;
                x[l] ^= 1;
                other.push(x);
                if k != K::F {
                    other.push(cells[..cells.len() - 1].to_vec());
                }
            }
            if k != K::F && cells.len() < A::cap(k) {
                let mut x = cells.to_vec();
                x.push(0);
                other.push(x);
            }
            for x in other {
                if let Out::Ok(w) = A::build(k, &x) {
                    if v.same(&w) != (false, true) || w.same(v) != (false, true) {
                        return Out::Ok(format!("equal to the different index {}", short(&x)));
                    }
                    if v.cmp(&w).0 == Ordering::Equal {
                        return Out::Ok(format!("ordered equal to the different index {}", short(&x)));
                    }
                }
            }
            // later operations behave as on the fresh index
            for k2 in [K::F, K::S, K::D] {
                let (a, b) = (v.cnv(k2), fresh.cnv(k2));
                match (&a, &b) {
                    (Out::Ok(a), Out::Ok(b)) => {
                        if !a.same(b).0 || a.hash64() != b.hash64() {
                            return Out::Ok(format!("converting it to {} differs from converting a fresh index", k2.s()));
                        }
                    }
                    _ => {
                        if a.tag() != b.tag() {
                            return Out::Ok(format!("converting it to {}: {} but {} for a fresh index", k2.s(), a.tag(), b.tag()));
                        }
                    }
                }
            }
            if k != K::F {
                let m = (A::cap(k) - cells.len().min(A::cap(k))).min(1 + rng.below(9));
                let p = rnd_cells(rng, m, A::DIM);
                if let (Out::Ok(a), Out::Ok(b)) = (v.desc(&p), fresh.desc(&p)) {
                    if !a.same(&b).0 || a.hash64() != b.hash64() {
                        return Out::Ok(format!("its descendant along {} differs from that of a fresh index", short(&p)));
                    }
                } else {
                    return Out::Ok(format!("no descendant along {}", short(&p)));
                }
                if !cells.is_empty() {
                    let g = 1 + rng.below(cells.len());
                    if let (Out::Ok(a), Out::Ok(b)) = (v.anc(g), fresh.anc(g)) {
                        if !a.same(&b).0 || a.hash64() != b.hash64() {
                            return Out::Ok(format!("its ancestor {g} up differs from that of a fresh index"));
                        }
                    } else {
                        return Out::Ok(format!("no ancestor {g} up"));
                    }
                }
            }
            Out::None
        });
        match r {
            Out::None => {}
            Out::Ok(s) => ctx.fail(&["C08"], || format!("{}: {}", how(), s)),
            x => ctx.fail(&["C08"], || format!("{}: using the result: {:?}", how(), x)),
        }
    }

    /// Compares an outcome with what the template says.
    fn check<A: Ix>(&self, rng: &mut Rng, t: &Tpl, k: K, got: &Out<A>, want: &[u8], how: &dyn Fn() -> String) {
        let own = prop_of(&t.op);
        let props: Vec<&str> = if bounded(&t.op) && own != "C02" { vec![own, "C02"] } else { vec![own] };
        if got.tag() != t.out {
            self.ctx.fail(&props, || format!("{}: {:?}, expected {}; {}", how(), got.clone().map(|v| v.obs()), t.out, t.show()));
            return;
        }
        match got {
            Out::Err(m) => {
                if *m != t.max {
                    self.ctx.fail(&props, || format!("{}: error names a maximum of {}, expected {}; {}", how(), m, t.max, t.show()));
                }
            }
            Out::Ok(v) => {
                match observe(v, k, want) {
                    Err(e) => {
                        // a result of wrong depth means levels were dropped or invented
                        self.ctx.fail(&props, || format!("{}: {}; {}", how(), e, t.show()));
                    }
                    Ok(()) => {}
                }
                self.identity(rng, v, k, how);
            }
            _ => {}
        }
    }

    /// Builds the argument index, sometimes by a roundabout route.
    fn base<A: Ix>(&self, rng: &mut Rng, k: K, c: &[u8]) -> Option<(A, String)> {
        if rng.chance(1, 2) {
            let how = rng.below(ROUTES);
            if let Some((name, prop, r)) = route::<A>(rng, how, k, c) {
                if !route_na(how, &r) {
                    if let Out::Ok(v) = &r {
                        let w = if k == K::F { pad(c, A::cap(K::F)) } else { c.to_vec() };
                        if observe(v, k, &w).is_ok() {
                            return Some((v.clone(), name));
                        }
                    }
                    self.ctx.fail(&[prop], || {
                        format!("{} reached by '{}': {:?}", desc_index::<A>(k, c), name, r.clone().map(|v| v.obs()))
                    });
                }
            }
        }
        match A::build(k, c) {
            Out::Ok(v) => Some((v, "slice".into())),
            x => {
                self.ctx.fail(&["C01", "C02"], || format!("building {}: {:?}", desc_index::<A>(k, c), x.map(|v| v.obs())));
                None
            }
        }
    }

    fn st_check<A: Ix>(&self, t: &Tpl, k: K, got: Option<Out<StObs>>, want: &[u8], how: &dyn Fn() -> String) {
        let got = match got {
            Some(g) => g,
            None => return,
        };
        let own = prop_of(&t.op);
        let bound: &[&str] = if bounded(&t.op) { &["C02", "C16"] } else { &["C16"] };
        if got.tag() != t.out {
            let mut p = bound.to_vec();
            p.push(own);
            self.ctx.fail(&p, || format!("storage: {}: {:?}, expected {}", how(), got, t.out));
            return;
        }
        if let Out::Err(m) = &got {
            if *m != t.max {
                self.ctx.fail(&["C02"], || format!("storage: {}: maximum {} expected {}", how(), m, t.max));
            }
        }
        if let Out::Ok(s) = &got {
            let maxd = if k == K::D { None } else { Some(A::W / A::DIM) };
            if s.depth != want.len() || s.cells != want {
                self.ctx.fail(&[own, "C16"], || format!("storage: {}: depth {} cells {}, expected {}", how(), s.depth, short(&s.cells), short(want)));
                return;
            }
            let _ = maxd;
            if let (Some(b), Some(p)) = (s.bits, self.pack.get(&(A::W, k.s().to_string(), want.len()))) {
                let mut e = 0u128;
                for (i, tok) in p.r.iter().enumerate() {
                    e |= (bit_of(*tok, want, &[0; 3]) as u128) << i;
                }
                if b != e {
                    self.ctx.fail(&["C16"], || format!("storage: {}: packed word {:#x}, expected {:#x} for cells {}", how(), b, e, short(want)));
                }
            }
        }
    }

    /// A script on a dynamic index of billions of levels (Sparse.tla): calls
    /// <<code, q, r, x>> with the answers the specification gives.
    fn huge<A: Ix>(&self, t: &Tpl) -> u64 {
        let ctx = self.ctx;
        if ctx.rounds < 8 && seed_of(&[ctx.seed, t.id as u64, 99]) % 8 != 0 {
            return 0; // quick: a sample
        }
        let _one = HUGE_LOCK.lock().unwrap_or_else(|e| e.into_inner());
        // such an index is cheap only as long as its zeroes are never touched;
        // an implementation that does touch them is left in peace
        if !huge_is_cheap::<A>() || HUGE_SPENT.load(std::sync::atomic::Ordering::Relaxed) > 20_000 {
            return 0;
        }
        let t0 = std::time::Instant::now();
        let before = ctx.nfails.load(std::sync::atomic::Ordering::Relaxed);
        self.huge_script::<A>(t);
        // one finding is enough: what fails here may be slow
        let found = ctx.nfails.load(std::sync::atomic::Ordering::Relaxed) != before;
        HUGE_SPENT.fetch_add(t0.elapsed().as_millis() as u64 + if found { 1 << 40 } else { 1 }, std::sync::atomic::Ordering::Relaxed);
        1
    }
    fn huge_script<A: Ix>(&self, t: &Tpl) {
        let ctx = self.ctx;
        let num = |c: &[i64]| c[1] as usize * 65536 + c[2] as usize;
        let mut rng = Rng::new(seed_of(&[ctx.seed, t.id as u64, 77]));
        let cells: Vec<u8> = (0..2).map(|_| 1 + rng.below((1 << A::DIM) - 1) as u8).collect();
        let n = num(&t.a[0..4]);
        let mut v = match A::zeroed(K::D, n) {
            Some(Out::Ok(v)) => v,
            r => {
                ctx.fail(&["C01", "C02"], || format!("zeroed dynamic {}D index of depth {n}: {:?}", A::DIM, r.map(|r| r.tag())));
                return;
            }
        };
        let mut done = format!("zeroed dynamic {}D index of depth {n}", A::DIM);
        let mut own = vec!["C01"];
        for c in t.a.chunks(4).skip(1) {
            self.prog.at(self.slot, format!("{done}, then {c:?}"));
            let (at, x) = (num(c), c[3]);
            match c[0] {
                1 => {
                    let cell = if x < 0 { 1 } else { cells[x as usize - 1] };
                    let r = if x >= 0 && rng.chance(1, 2) { v.set_unchecked(at, cell) } else { v.set(at, cell) };
                    match (&r, x) {
                        (Out::Ok(()), 0..) => done += &format!(", level {at} set to {cell}"),
                        (Out::Panic(_), -1) => done += &format!(", refused to set level {at}"),
                        _ => {
                            ctx.fail(&["C02", "C03"], || format!("{done}: setting level {at}: {:?}", r));
                            return;
                        }
                    }
                    if own.len() == 1 {
                        own.push("C03");
                    }
                }
                2 => {
                    let r = if x >= 0 && rng.chance(1, 3) { v.get_unchecked(at) } else { v.get(at) };
                    let want = if x > 0 { cells[x as usize - 1] } else { 0 };
                    match r {
                        Out::Ok(y) if x >= 0 && y == want => {}
                        Out::Panic(_) if x < 0 => {}
                        r if x < 0 => {
                            let mut own = own.clone();
                            own.push("C02");
                            ctx.fail(&own, || format!("{done}: reading level {at} gives {:?} but must panic", r));
                            return;
                        }
                        r => {
                            ctx.fail(&own, || format!("{done}: reading level {at} gives {:?}, expected {want}", r));
                            return;
                        }
                    }
                }
                3 => {
                    if v.depth() != at {
                        ctx.fail(&own, || format!("{done}: depth {}, expected {at}", v.depth()));
                        return;
                    }
                }
                4 | 5 => {
                    let r = if c[0] == 4 { v.wd(at) } else { v.anc(at) };
                    let what = if c[0] == 4 { "with_depth" } else { "ancestor" };
                    match (r, x) {
                        (Out::Ok(u), 0..) => {
                            done += &format!(", {what}({at})");
                            own = vec!["C06"];
                            v = u;
                        }
                        (Out::None, -1) => {}
                        (r, _) => {
                            ctx.fail(&["C06"], || format!("{done}: {what}({at}) gives {}", r.tag()));
                            return;
                        }
                    }
                }
                _ => {
                    let r = v.cnv_own(if c[0] == 6 { K::S } else { K::F });
                    if !matches!(r, Out::Err(m) if m as i64 == x) {
                        ctx.fail(&["C09", "C02"], || format!("{done}: conversion to {} storage gives {} instead of the error with limit {x}", if c[0] == 6 { "static" } else { "fixed" }, r.tag()));
                    }
                    break;
                }
            }
        }
    }

    pub fn run<A: Ix>(&self, t: &Tpl) -> u64 {
        let ctx = self.ctx;
        let d = A::DIM;
        let k = K::parse(&t.k);
        let mut rng = Rng::new(seed_of(&[ctx.seed, t.id as u64, A::W as u64, A::T.len() as u64]));
        let own = prop_of(&t.op);
        let mut cases = 0u64;
        let rounds = ctx.rounds;
        let st = ctx.wants("C16") || ctx.wants("C02");
        match t.op.as_str() {
            "new" => {
                let m = t.a[0] as usize;
                for args in vals_for(t, &mut rng, m, d, rounds) {
                    cases += 1;
                    let want = subst(t, &[], &args);
                    let how = || format!("{} from slice {}", k.s().to_owned() + &format!("{}D<{}>", d, A::T), short(&args));
                    self.check(&mut rng.clone(), t, k, &A::build(k, &args), &want, &how);
                    if let Some(r) = A::build_arr(k, &args) {
                        let how = || format!("{}{}D<{}> from array {}", k.s(), d, A::T, short(&args));
                        self.check(&mut rng.clone(), t, k, &r, &want, &how);
                    }
                    if st {
                        self.st_check::<A>(t, k, A::st(k, &args, StOp::New), &want, &how);
                        self.st_check::<A>(t, k, A::st(k, &args, StOp::NewArr), &want, &how);
                    }
                }
            }
            "def" => {
                cases += 1;
                let want = subst(t, &[], &[]);
                let how = || format!("default {}{}D<{}>", k.s(), d, A::T);
                self.check(&mut rng, t, k, &guard(|| Out::Ok(A::default(k))), &want, &how);
                self.st_check::<A>(t, k, A::st(k, &[], StOp::Def), &want, &how);
            }
            "hg" => cases += self.huge::<A>(t),
            "max" => {
                cases += 1;
                let want = if t.out == "ok" { Some(t.r[0] as usize) } else { None };
                match A::st(k, &[], StOp::Def) {
                    Some(Out::Ok(s)) if s.max_depth == want => {}
                    x => ctx.fail(&["C02"], || format!("max_depth of {}{}D<{}>: {:?}, expected {:?}", k.s(), d, A::T, x.map(|x| x.map(|s| s.max_depth)), want)),
                }
                for m in A::max_levels(k) {
                    // zero: unlimited
                    if m != want.unwrap_or(0) {
                        ctx.fail(&["C02"], || format!("MAX_LEVELS of {}{}D<{}>: {}, expected {:?}", k.s(), d, A::T, m, want));
                    }
                }
            }
            "zer" => {
                cases += 1;
                let m = t.a[0] as usize;
                if let Some(r) = A::zeroed(k, m) {
                    let want = subst(t, &[], &[]);
                    self.check(&mut rng, t, k, &r, &want, &|| format!("zeroed {}{}D<{}> of depth {}", k.s(), d, A::T, m));
                }
            }
            "fg" | "ff" => {
                let n = t.a[0];
                let mut grids: Vec<Grid> = vec![[0; 3], [usize::MAX; 3]];
                for a in 0..d {
                    let mut g = [0; 3];
                    g[a] = usize::MAX;
                    grids.push(g);
                    for b in 0..64 {
                        let mut g = [0; 3];
                        g[a] = 1usize << b;
                        grids.push(g);
                        if b % 3 == 0 {
                            let mut g = [usize::MAX; 3];
                            g[a] = !(1usize << b);
                            grids.push(g);
                        }
                    }
                }
                let nn = if n < 0 { 8 } else { (n as usize).min(64) };
                let mask = if nn >= 64 { usize::MAX } else { (1usize << nn) - 1 };
                for x in 0..8 {
                    grids.push([x, x >> 1, x << 1]);
                    grids.push([mask, mask - x.min(mask), x]);
                }
                for _ in 0..(4 * rounds) {
                    grids.push(rnd_grid(&mut rng, nn));
                    grids.push(rnd_grid(&mut rng, 64));
                    grids.push([rng.next() as usize, rng.next() as usize, rng.next() as usize]);
                    grids.push([rng.next() as usize & mask, rng.next() as usize & mask, rng.next() as usize & mask]);
                }
                let ns: Vec<usize> = if n < 0 { HUGE.to_vec() } else { vec![n as usize] };
                if t.out != "ok" {
                    grids.truncate(3);
                }
                for n in ns {
                    for g in &grids {
                        cases += 1;
                        let want = cells_of_bits(&t.r, d, g);
                        let how = || format!("{}{}D<{}>::{}({:?}, {}, {})", k.s(), d, A::T, if t.op == "ff" { "from_grid_index_fast" } else { "from_grid_index" }, &g[..d], n, t.s);
                        if t.op == "fg" {
                            self.check(&mut rng, t, k, &A::from_grid(k, g, n, &t.s), &want, &how);
                        } else {
                            let r = guard(|| opt(A::fast(g, &t.s)));
                            if !matches!(r, Out::None) {
                                self.check(&mut rng, t, k, &r, &want, &how);
                                if let (Out::Ok(a), Out::Ok(b)) = (&r, &A::from_grid(k, g, n, &t.s)) {
                                    if !a.same(b).0 {
                                        ctx.fail(&["C05"], || format!("{}: differs from from_grid_index", how()));
                                    }
                                }
                            }
                        }
                    }
                }
            }
            "cmp" => {
                let (n1, n2, p) = (t.a[0] as usize, t.a[1] as usize, t.a[2] as usize);
                let want = match t.out.as_str() {
                    "lt" => Ordering::Less,
                    "gt" => Ordering::Greater,
                    _ => Ordering::Equal,
                };
                let tp = top(d);
                let all: Vec<usize> = match t.far {
                    true if n1 > 5000 => vec![t.id % 3],
                    true => vec![0, 1, 2],
                    _ => (0..3 + rounds).collect(),
                };
                for i in all {
                    cases += 1;
                    let pre = match i {
                        0 => vec![tp; p],
                        1 => vec![0; p],
                        _ => rnd_cells(&mut rng, p, d),
                    };
                    let mut a = pre.clone();
                    let mut b = pre;
                    if t.s != "px" {
                        let lo = if i == 0 { 0 } else if i == 1 { tp - 1 } else { rng.below(tp as usize) as u8 };
                        let hi = if i == 0 { tp } else { lo + 1 + rng.below((tp - lo) as usize) as u8 };
                        let (x, y) = if t.s == "lt" { (lo, hi) } else { (hi, lo) };
                        a.push(x);
                        b.push(y);
                    }
                    for (v, n, s) in [(&mut a, n1, 0), (&mut b, n2, 1)] {
                        let m = n - v.len();
                        // on even rounds the smaller side has the larger tail
                        let tail = match i % 3 {
                            0 => vec![if (t.s == "lt") == (s == 0) { tp } else { 0 }; m],
                            1 => vec![if (t.s == "lt") == (s == 0) { 0 } else { tp }; m],
                            _ => rnd_cells(&mut rng, m, d),
                        };
                        v.extend(tail);
                    }
                    let (va, _) = match self.base::<A>(&mut rng, k, &a) {
                        Some(x) => x,
                        None => continue,
                    };
                    let (vb, _) = match self.base::<A>(&mut rng, k, &b) {
                        Some(x) => x,
                        None => continue,
                    };
                    let r = guard(|| Out::Ok((va.cmp(&vb), vb.cmp(&va), va.same(&vb), vb.same(&va), va.hash64() == vb.hash64())));
                    let rel = |w: Ordering| (w, Some(w), [w == Ordering::Less, w != Ordering::Greater, w == Ordering::Greater, w != Ordering::Less, true]);
                    let eq = want == Ordering::Equal;
                    match r {
                        Out::Ok((f, b2, s1, s2, h)) => {
                            if f != rel(want) || b2 != rel(want.reverse()) {
                                ctx.fail(&["C07"], || format!("comparing {} with {}: {:?} and back {:?}, expected {:?}; {}", desc_index::<A>(k, &a), desc_index::<A>(k, &b), f, b2, want, t.show()));
                            }
                            if s1 != (eq, !eq) || s2 != (eq, !eq) || (eq && !h) {
                                ctx.fail(&["C07", "C08"], || format!("equality of {} and {}: {:?} {:?} hashes equal {}, expected {}", desc_index::<A>(k, &a), desc_index::<A>(k, &b), s1, s2, h, eq));
                            }
                        }
                        x => ctx.fail(&["C07"], || format!("comparing {} with {}: {:?}", desc_index::<A>(k, &a), desc_index::<A>(k, &b), x)),
                    }
                    if ctx.wants("C16") || ctx.wants("C07") {
                        match guard(|| Out::Ok(A::st_cmp(k, &a, &b))) {
                            Out::Ok(Some((c, pc, e, h, num))) => {
                                if c != want || pc != Some(want) || e != eq || (eq && !h) {
                                    ctx.fail(&["C07"], || format!("storage: comparing {} with {}: {:?} {:?} eq {} hash {}", desc_index::<A>(k, &a), desc_index::<A>(k, &b), c, pc, e, h));
                                }
                                if n1 == n2 && k != K::D && num != want {
                                    ctx.fail(&["C16"], || format!("packed words of {} and {} compare {:?}, tree order is {:?}", desc_index::<A>(k, &a), desc_index::<A>(k, &b), num, want));
                                }
                            }
                            Out::Ok(None) => {}
                            x => ctx.fail(&["C07"], || format!("storage: comparing {} with {}: {:?}", desc_index::<A>(k, &a), desc_index::<A>(k, &b), x)),
                        }
                    }
                }
            }
            "zc" => {
                let (n, p) = (t.a[0] as usize, t.a[1] as usize);
                let want = if t.out == "lt" { Ordering::Less } else { Ordering::Greater };
                let tp = top(d) as usize;
                for i in 0..3 + rounds {
                    cases += 1;
                    let lo = if i == 0 { 0 } else { rng.below(tp) };
                    let hi = if i == 0 { tp } else { lo + 1 + rng.below(tp - lo) };
                    let (x, y) = if t.out == "lt" { (lo, hi) } else { (hi, lo) };
                    let pre = rnd_cells(&mut rng, p, d);
                    let side = |rng: &mut Rng, c: usize, small: bool| -> Grid {
                        let mut v = pre.clone();
                        v.push(c as u8);
                        match i % 3 {
                            0 => v.resize(n, if small { tp as u8 } else { 0 }),
                            1 => v.resize(n, if small { 0 } else { tp as u8 }),
                            _ => v.extend(rnd_cells(rng, n - p - 1, d)),
                        }
                        grid_of(&t.r, d, n, &v)
                    };
                    let ga = side(&mut rng, x, want == Ordering::Less);
                    let gb = side(&mut rng, y, want == Ordering::Greater);
                    let r = match (A::from_grid(k, &ga, n, &t.s), A::from_grid(k, &gb, n, &t.s)) {
                        (Out::Ok(a), Out::Ok(b)) => guard(|| Out::Ok((a.cmp(&b).0, b.cmp(&a).0, a.same(&b).0))),
                        _ => Out::None,
                    };
                    if r != Out::Ok((want, want.reverse(), false)) {
                        ctx.fail(&["C17"], || format!("{}{}D<{}> from positions {:?} and {:?} (depth {}, {}) compare {:?}, expected {:?}", k.s(), d, A::T, &ga[..d], &gb[..d], n, t.s, r, want));
                    }
                }
            }
            "dsp" => {
                let i = NAMINGS.iter().position(|x| *x == t.s).unwrap();
                let total: usize = t.a.iter().map(|x| *x as usize).sum();
                for base in vals(&mut rng, total, d, rounds) {
                    cases += 1;
                    let mut l: Vec<A> = vec![];
                    let mut at = 0;
                    for n in &t.a {
                        let c = &base[at..at + *n as usize];
                        at += *n as usize;
                        if let Some((v, _)) = self.base::<A>(&mut rng, k, c) {
                            l.push(v);
                        }
                    }
                    if l.len() != t.a.len() {
                        continue;
                    }
                    let want = text(&t.r, &base);
                    let r = guard(|| Out::Ok(A::display(&l, i)));
                    let ok = matches!(&r, Out::Ok(v) if !v.is_empty() && v.iter().all(|s| *s == want));
                    if !ok {
                        ctx.fail(&["C10"], || format!("display of a slice of {}{}D<{}> of depths {:?}, cells {}, naming '{}': {:?}, expected {}", k.s(), d, A::T, t.a, short(&base), t.s, r, want));
                    }
                    if ctx.enough() {
                        return cases;
                    }
                }
            }
            _ => {
                // operations on an index of depth n
                let m = match t.op.as_str() {
                    "set" | "chd" => 1,
                    "desc" => t.a[0] as usize,
                    "nst" => t.a[1] as usize,
                    _ => 0,
                };
                for v in vals_for(t, &mut rng, t.n + m, d, rounds) {
                    let (base, args) = v.split_at(t.n);
                    let (src, via) = match self.base::<A>(&mut rng, k, base) {
                        Some(x) => x,
                        None => continue,
                    };
                    let before = src.clone();
                    let id = || format!("{} ({})", desc_index::<A>(k, base), via);
                    let huge = !t.a.is_empty() && t.a[0] < 0;
                    let lv: Vec<usize> = if huge {
                        HUGE.iter().cloned().filter(|x| *x > t.n).collect()
                    } else if t.a.is_empty() {
                        vec![0]
                    } else {
                        vec![t.a[0] as usize]
                    };
                    for a0 in lv {
                        cases += 1;
                        let want = if matches!(t.op.as_str(), "tg" | "raw" | "nam" | "nst") { vec![] } else { subst(t, base, args) };
                        match t.op.as_str() {
                            "set" => {
                                let mut w = src.clone();
                                let r = w.set(a0, args[0]);
                                let how = || format!("{}.set_cell_at_level({}, {})", id(), a0, args[0]);
                                if r.tag() != t.out {
                                    ctx.fail(&["C02", "C03"], || format!("{}: {:?}, expected {}", how(), r, t.out));
                                }
                                if t.out == "ok" {
                                    if r.tag() == "ok" {
                                        self.check(&mut rng, t, k, &Out::Ok(w.clone()), &want, &how);
                                    }
                                    let mut w2 = src.clone();
                                    let r = w2.set_unchecked(a0, args[0]).map(|_| w2.clone());
                                    self.check(&mut rng, t, k, &r, &want, &|| format!("unchecked {}", how()));
                                    if st {
                                        self.st_check::<A>(t, k, A::st(k, base, StOp::Set(a0, args[0])), &want, &how);
                                    }
                                } else if let Err(e) = observe(&w, k, base) {
                                    ctx.fail(&["C02", "C03"], || format!("{} left {}", how(), e));
                                } else if !w.same(&before).0 || w.hash64() != before.hash64() {
                                    ctx.fail(&["C02", "C03"], || format!("{} changed the index", how()));
                                }
                            }
                            "get" => {
                                let r = src.get(a0);
                                let how = || format!("{}.get_cell_at_level({})", id(), a0);
                                let ok = match (&r, t.out.as_str()) {
                                    (Out::Ok(c), "ok") => *c == want[0],
                                    (r, o) => r.tag() == o,
                                };
                                if !ok {
                                    ctx.fail(&["C01", "C02"], || format!("{}: {:?}, expected {} {:?}", how(), r, t.out, want));
                                }
                                if t.out == "ok" {
                                    let r = src.get_unchecked(a0);
                                    if r != Out::Ok(want[0]) {
                                        ctx.fail(&["C01"], || format!("unchecked {}: {:?}, expected {:?}", how(), r, want));
                                    }
                                }
                            }
                            "it" => {
                                let (p, q) = (t.a[0] as usize, t.a[2] as usize);
                                let js: Vec<usize> = if t.a[1] < 0 { vec![usize::MAX - p, usize::MAX, 1 << 16, (1 << 32) - p, 1 << 32] } else { vec![t.a[1] as usize] };
                                for storage in [false, true] {
                                    for way in 0..4 {
                                        if ctx.enough() {
                                            return cases;
                                        }
                                        for &j in &js {
                                            let s = ItScript { way, p, f: &t.s, j };
                                            let r = src.it(storage, &s);
                                            let good = match &r {
                                                Out::Ok(o) => {
                                                    o.fused
                                                        && o.y == want
                                                        && match t.s.as_str() {
                                                            "next" | "nth" => o.rest == base[q..],
                                                            "hint" => o.rest == base[q..] && o.lo <= t.n - p && o.hi.map_or(true, |h| h >= t.n - p),
                                                            "count" => o.lo == q - p,
                                                            _ => true,
                                                        }
                                                }
                                                _ => false,
                                            };
                                            if !good {
                                                ctx.fail(&["C01"], || format!("iterating {} (storage: {}), {:?}: {:?}, expected {} then position {}", id(), storage, s, r, short(&want), q));
                                            }
                                        }
                                    }
                                }
                            }
                            "anc" => {
                                let r = src.anc(a0);
                                let how = || format!("{}.ancestor({})", id(), a0);
                                self.check(&mut rng, t, k, &r, &want, &how);
                                if st || ctx.wants("C06") {
                                    self.st_check::<A>(t, k, A::st(k, base, StOp::Anc(a0)), &want, &how);
                                }
                            }
                            "par" => self.check(&mut rng, t, k, &src.par(), &want, &|| format!("{}.parent()", id())),
                            "wd" => self.check(&mut rng, t, k, &src.wd(a0), &want, &|| format!("{}.with_depth({})", id(), a0)),
                            "desc" => {
                                let r = src.desc(args);
                                let how = || format!("{}.descendant({})", id(), short(args));
                                self.check(&mut rng, t, k, &r, &want, &how);
                                if st || ctx.wants("C06") {
                                    self.st_check::<A>(t, k, A::st(k, base, StOp::Desc(args)), &want, &how);
                                }
                                if let (Out::Ok(x), "ok", "C06") = (&r, t.out.as_str(), own) {
                                    // down and up again
                                    if m > 0 {
                                        let back = x.anc(m);
                                        match &back {
                                            Out::Ok(y) if y.same(&before).0 => {}
                                            y => ctx.fail(&["C06"], || format!("{} and back up {}: {:?}", how(), m, y.clone().map(|z| z.obs()))),
                                        }
                                    }
                                }
                            }
                            "chd" => {
                                let r = src.chd(args[0]);
                                self.check(&mut rng, t, k, &r, &want, &|| format!("{}.child({})", id(), args[0]));
                                if let Out::Ok(x) = &r {
                                    match x.par() {
                                        Out::Ok(y) if y.same(&before).0 => {}
                                        y => ctx.fail(&["C06"], || format!("{}.child({}).parent(): {:?}", id(), args[0], y.map(|z| z.obs()))),
                                    }
                                }
                            }
                            "inv" => {
                                let r = guard(|| Out::Ok(src.inv()));
                                self.check(&mut rng, t, k, &r, &want, &|| format!("{}.inverted()", id()));
                                if let Out::Ok(x) = &r {
                                    match guard(|| Out::Ok(x.inv())) {
                                        Out::Ok(y) if y.same(&before).0 => {}
                                        y => ctx.fail(&["C11"], || format!("{} inverted twice: {:?}", id(), y.map(|z| z.obs()))),
                                    }
                                }
                                if ctx.wants("C08") {
                                    self.routes::<A>(&mut rng, k, base);
                                }
                            }
                            "cnv" => {
                                let k2 = K::parse(&t.k2);
                                let r = src.cnv(k2);
                                self.check(&mut rng, t, k2, &r, &want, &|| format!("{} converted to {}", id(), t.k2));
                                if let Out::Ok(x) = &r {
                                    // there and back (zero-padded through fixed depth)
                                    let w2 = if k == K::F { pad(base, A::cap(K::F)) } else { want.clone() };
                                    let back = x.cnv(k);
                                    let exp = if k == K::F || k2 == K::F { w2 } else { base.to_vec() };
                                    match &back {
                                        Out::Ok(y) if observe(y, k, &exp).is_ok() => {}
                                        y => ctx.fail(&["C09"], || format!("{} converted to {} and back: {:?}, expected {}", id(), t.k2, y.clone().map(|z| z.obs()), short(&exp))),
                                    }
                                }
                            }
                            "tg" => {
                                let want = grid_of(&t.r, d, t.n, base);
                                let r = guard(|| Out::Ok(src.to_grid(&t.s)));
                                if r != Out::Ok(want) {
                                    ctx.fail(&["C04"], || format!("{}.to_grid_index({}): {:?}, expected {:?}", id(), t.s, r, &want[..d]));
                                }
                                if k != K::D || t.n <= 32 {
                                    let r = A::from_grid(k, &want, t.n, &t.s);
                                    match &r {
                                        Out::Ok(y) if observe(y, k, base).is_ok() => {}
                                        y => ctx.fail(&["C05"], || format!("{} from its grid position {:?} ({}): {:?}", desc_index::<A>(k, base), &want[..d], t.s, y.clone().map(|z| z.obs()))),
                                    }
                                }
                            }
                            "nst" => {
                                let r: Vec<i64> = t.r.iter().map(|b| if *b / 4 > 1000 { *b - 4000 + 4 * t.n as i64 } else { *b }).collect();
                                let want = grid_of(&r, d, t.n - a0 + m, &v);
                                let mut x = src.clone();
                                let mut way = "";
                                let mut go = || -> Option<Grid> {
                                    if a0 > 0 {
                                        x = match rng.below(2) {
                                            0 => { way = "ancestor"; x.anc(a0) }
                                            _ => { way = "with_depth"; x.wd(t.n - a0) }
                                        }.ok()?;
                                    }
                                    if m > 0 {
                                        x = if m == 1 && rng.chance(1, 2) { x.chd(args[0]) } else { x.desc(args) }.ok()?;
                                    }
                                    Some(x.to_grid(&t.s))
                                };
                                let r = guard(|| match go() { Some(g) => Out::Ok(g), None => Out::None });
                                if r != Out::Ok(want) {
                                    ctx.fail(&["C17"], || format!("position ({}) of {}, {} up ({}) and down {}: {:?}, expected {:?}", t.s, id(), a0, way, short(args), r, &want[..d]));
                                }
                            }
                            "nam" => {
                                let i = NAMINGS.iter().position(|x| *x == t.s).unwrap();
                                let want = text(&t.r, base);
                                let r = guard(|| Out::Ok(src.name(i)));
                                if r != Out::Ok(want.clone()) {
                                    ctx.fail(&["C10"], || format!("name '{}' of {}: {:?}, expected {}", t.s, id(), r, want));
                                }
                            }
                            "raw" => {
                                let mut bits = 0u128;
                                for (i, tok) in t.r.iter().enumerate() {
                                    bits |= (bit_of(*tok, base, &[0; 3]) as u128) << i;
                                }
                                let how = || format!("packed word of {}", id());
                                match A::st(k, base, StOp::New) {
                                    Some(Out::Ok(s)) if s.bits == Some(bits) && s.depth == t.n => {}
                                    x => ctx.fail(&["C16"], || format!("{}: {:?}, expected {:#x}", how(), x, bits)),
                                }
                                let r = guard(|| opt(A::from_raw(k, bits, t.n)));
                                if !matches!(r, Out::None) {
                                    match &r {
                                        Out::Ok(v) => match observe(v, k, base) {
                                            Err(e) => ctx.fail(&["C16"], || format!("from raw {:#x}: {}", bits, e)),
                                            Ok(()) => {
                                                let e = guard(|| Out::Ok((v.same(&before), before.same(v), v.hash64() == before.hash64(), v.cmp(&before).0)));
                                                if e != Out::Ok(((true, false), (true, false), true, Ordering::Equal)) {
                                                    ctx.fail(&["C16", "C08"], || format!("from raw {:#x} against {}: {:?}", bits, id(), e));
                                                }
                                            }
                                        },
                                        x => ctx.fail(&["C16"], || format!("from raw {:#x}: {:?}", bits, x.clone().map(|v| v.obs()))),
                                    }
                                }
                            }
                            op => panic!("unknown template op {op}"),
                        }
                        // the argument index is as before
                        if let Err(e) = observe(&src, k, base) {
                            ctx.fail(&["C03", own], || format!("{} changed its argument {}: {}", t.op, id(), e));
                        } else if ctx.wants("C03") && (!src.same(&before).0 || src.hash64() != before.hash64()) {
                            ctx.fail(&["C03"], || format!("{} changed its argument {}", t.op, id()));
                        }
                    }
                    if ctx.enough() {
                        return cases;
                    }
                }
            }
        }
        cases
    }

    /// All ways of arriving at one node give indistinguishable indices.
    fn routes<A: Ix>(&self, rng: &mut Rng, k: K, cells: &[u8]) {
        let ctx = self.ctx;
        for how in 0..ROUTES {
            if let Some((name, prop, r)) = route::<A>(rng, how, k, cells) {
                if route_na(how, &r) {
                    continue;
                }
                match &r {
                    Out::Ok(v) => match observe(v, k, cells) {
                        Err(e) => {
                            ctx.fail(&[prop], || format!("{} reached by '{}': {}", desc_index::<A>(k, cells), name, e));
                            self.identity(rng, v, k, &|| format!("index reached by '{}'", name));
                        }
                        Ok(()) => self.identity(rng, v, k, &|| format!("{} reached by '{}'", desc_index::<A>(k, cells), name)),
                    },
                    x => ctx.fail(&[prop], || format!("{} reached by '{}': {:?}", desc_index::<A>(k, cells), name, x.clone().map(|v| v.obs()))),
                }
            }
        }
    }
}

pub fn pad(c: &[u8], n: usize) -> Vec<u8> {
    let mut v = c.to_vec();
    if v.len() < n {
        v.resize(n, 0);
    }
    v
}

static HUGE_LOCK: std::sync::Mutex<()> = std::sync::Mutex::new(());
static HUGE_SPENT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// Whether an index of 2^24 levels is made, read, written and cut as fast as
/// is to be expected of one whose zeroes are not touched one by one.
fn huge_is_cheap<A: Ix>() -> bool {
    static CHEAP: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *CHEAP.get_or_init(|| {
        (0..3).any(|_| {
            let t0 = std::time::Instant::now();
            let r = guard(|| {
                let mut v = match A::zeroed(K::D, 1 << 24) {
                    Some(Out::Ok(v)) => v,
                    _ => return Out::None,
                };
                v.set(1 << 23, 1);
                v.get(1 << 22);
                v.wd(70);
                v.anc((1 << 24) - 5);
                v.cnv_own(K::S);
                if let Some(Out::Ok(v)) = A::zeroed(K::D, 1 << 24) {
                    v.cnv_own(K::F);
                }
                Out::Ok(())
            });
            matches!(r, Out::Ok(())) && t0.elapsed().as_millis() < 25
        })
    })
}

pub fn for_family<A: Ix>(t: &Tpl) -> bool {
    if t.d != A::DIM {
        return false;
    }
    if t.k == "D" {
        if t.op == "cnv" {
            t.w2 == A::W
        } else {
            A::T == "u64"
        }
    } else {
        t.w == A::W
    }
}

pub fn run_family<A: Ix>(ctx: &Ctx, prog: &Progress, slot: usize, part: usize, parts: usize, tpls: &[Tpl]) {
    let mut pack = HashMap::new();
    let mut grid = HashMap::new();
    for t in tpls {
        if t.d == A::DIM && t.op == "raw" {
            pack.insert((t.w, t.k.clone(), t.n), t);
        }
        if t.d == A::DIM && t.op == "tg" {
            grid.insert((t.w, t.n, t.s.clone()), t);
        }
    }
    let f = Fam { ctx, prog, slot, pack, grid };
    let mut per: HashMap<&str, (u64, u64)> = HashMap::new();
    for t in tpls.iter().filter(|t| t.id % parts == part && for_family::<A>(t)) {
        prog.at(slot, format!("{}D<{}> {}", A::DIM, A::T, t.show()));
        let c = match guard(|| Out::Ok(f.run::<A>(t))) {
            Out::Ok(c) => c,
            x => {
                ctx.fail(&[&ctx.prop], || format!("{}D<{}>: {:?} while replaying {}", A::DIM, A::T, x, t.show()));
                0
            }
        };
        let e = per.entry(t.op.as_str()).or_insert((0, 0));
        e.0 += 1;
        e.1 += c;
        if ctx.enough() {
            break;
        }
    }
    for (op, (a, b)) in per {
        ctx.count(op, a, b);
    }
    prog.done(slot);
}
