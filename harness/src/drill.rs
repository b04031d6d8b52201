//! Clusters of calls whose arguments differ in as little as one cell, the
//! ordering or the flavour: what hidden memory would confuse.  Every cluster
//! is executed call by call on fresh threads, in several orders on one
//! thread, by many threads at once, and as the first thing a process does;
//! IndepTrace.tla compares the executions.  Building a cluster calls nothing
//! of the library.
use crate::bits::{bits_of, bits_of_vec, vec_of, word_of};
use crate::fam::{self, d2, d3, guard, orderings, Grid, Ix, Out, StOp, K};
use crate::tmpl::{rnd_cells, rnd_grid, top};
use crate::util::*;
use morton_index::align::Alignable;
use morton_index::dimensions::*;
use morton_index::number::*;
use std::convert::TryFrom;
use std::fmt::Debug;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex};

type Call = Box<dyn FnMut() -> String>;
/// the arguments (plain data), and what prepares a call with them
pub struct Variant {
    pub prepare: Box<dyn Fn() -> Call + Send + Sync>,
}
pub struct Cluster {
    pub name: String,
    pub calls: Vec<Variant>,
}

fn short(s: String) -> String {
    if s.len() < 64 {
        return s;
    }
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    format!("{}..{:016x}", s.chars().take(40).collect::<String>(), h)
}
fn out<T: Debug>(f: impl FnMut() -> T + 'static) -> Call {
    let mut f = f;
    Box::new(move || match guard(|| Out::Ok(f())) {
        Out::Ok(v) => short(format!("{v:?}")),
        x => x.tag().into(),
    })
}
fn show<A: Ix>(r: Out<A>) -> String {
    match &r {
        Out::Ok(v) => format!("{:?} {:?} {:?} {:x}", v.kind(), v.obs(), v.cells(), v.hash64()),
        x => format!("{} {:?}", x.tag(), if let Out::Err(m) = x { *m } else { 0 }),
    }
}

#[derive(Clone)]
struct Arg {
    k: K,
    c: Vec<u8>,
    // another index of the same flavour
    c2: Vec<u8>,
    p: Vec<u8>,
    g: Grid,
    n: usize,
    o: &'static str,
    nm: usize,
    k2: K,
}

pub const OPS: [&str; 24] = [
    "new", "arr", "zer", "fg", "fg", "ff", "tg", "tg", "cells", "set", "anc", "wd", "desc", "chd", "inv", "cnv", "cmp", "hash", "name", "list",
    "sort", "raw", "copy", "up",
];

fn prepare<A: Ix + 'static>(op: &'static str, a: &Arg) -> Call {
    let a = a.clone();
    match op {
        "new" => return out(move || show(A::build(a.k, &a.c))),
        "arr" => return out(move || A::build_arr(a.k, &a.c).map(show)),
        "zer" => return out(move || A::zeroed(a.k, a.n).map(show)),
        "fg" => return out(move || show(A::from_grid(a.k, &a.g, a.n, a.o))),
        "ff" => return out(move || A::fast(&a.g, a.o).map(|x| show(Out::Ok(x)))),
        "raw" => return out(move || format!("{:?}", A::st(a.k, &a.c, StOp::New))),
        _ => {}
    }
    let Out::Ok(x) = A::build(a.k, &a.c) else { return out(|| "-") };
    let Out::Ok(y) = A::build(a.k, &a.c2) else { return out(|| "-") };
    let n = x.depth();
    match op {
        "tg" => out(move || if n <= 64 { x.to_grid(a.o) } else { [0; 3] }),
        "cells" => out(move || (x.cells(), x.obs(), x.get(a.n))),
        "set" => out(move || {
            let mut y = x.clone();
            let r = y.set(a.n, a.p[0]);
            (r, y.obs(), x.obs())
        }),
        "anc" if a.k != K::F => out(move || show(x.anc(a.n + 1))),
        "wd" if a.k != K::F => out(move || show(x.wd(a.n))),
        "desc" if a.k != K::F => out(move || show(x.desc(&a.p))),
        "chd" if a.k != K::F => out(move || show(x.chd(a.p[0]))),
        "up" if a.k != K::F => out(move || (show(x.par()), x.anc(a.n + 1).map(|p| show(p.desc(&a.p))))),
        "inv" => out(move || show(Out::Ok(x.inv()))),
        "cnv" if a.k != a.k2 => out(move || show(x.cnv(a.k2))),
        "cmp" => out(move || (x.cmp(&y), y.cmp(&x), x.same(&y))),
        "hash" => out(move || x.hash64()),
        "name" => out(move || if n <= 64 || a.nm < 2 { x.name(a.nm) } else { String::new() }),
        "list" => out(move || A::display(&[x.clone(), y.clone(), x.clone()], a.nm.min(1))),
        "sort" => out(move || A::sorted(&[y.clone(), x.clone(), y.clone()], a.nm).iter().map(|z| z.cells()).collect::<Vec<_>>()),
        "copy" => out(move || {
            let mut z = y.clone();
            z.copy_from(&x);
            (show(Out::Ok(z)), show(Out::Ok(y.clone())))
        }),
        _ => out(|| "-"),
    }
}

fn cluster<A: Ix + 'static>(seed: u64, f: usize, i: usize) -> Cluster {
    let d = A::DIM;
    let cap = A::W / d;
    let mut rng = Rng::new(seed_of(&[seed, 4242, f as u64, i as u64]));
    let op = OPS[i % OPS.len()];
    let ords = orderings(d);
    let kinds = [K::F, K::S, K::D];
    let k = kinds[(i / OPS.len() + f) % 3];
    let n = match (k, rng.below(6)) {
        (K::D, 0) => rng.below(12),
        (K::D, 1) => 12 + rng.below(24),
        (K::D, 2) if op != "tg" => 65 + rng.below(80),
        (K::D, 3) => 64 - rng.below(3),
        (K::D, _) => 33 + rng.below(32),
        (_, 0) => rng.below(cap + 1),
        (_, 1) => cap - rng.below(2.min(cap)),
        _ => cap - rng.below(cap / 2 + 1),
    };
    let c = if rng.chance(1, 2) { rnd_cells(&mut rng, n, d) } else { (0..n).map(|_| rng.below(1 << d) as u8).collect() };
    let bump = |c: &[u8], j: usize, by: u8| -> Vec<u8> {
        let mut v = c.to_vec();
        if j < v.len() {
            v[j] = (v[j] + by) & top(d);
        }
        v
    };
    let gn = if k == K::D { rng.below(33) } else { rng.below(cap.min(64) + 1) };
    let base = Arg {
        k,
        c2: if rng.chance(1, 3) { c.clone() } else { bump(&c, rng.below(n + 1), 1) },
        p: (0..1 + rng.below(6)).map(|_| rng.below(1 << d) as u8).collect(),
        g: rnd_grid(&mut rng, gn),
        n: if matches!(op, "fg" | "zer") { gn } else { rng.below(n + 1) },
        o: *rng.pick(ords),
        nm: rng.below(3),
        k2: kinds[rng.below(3)],
        c: c.clone(),
    };
    let mut l = vec![base.clone()];
    let by = 1 + rng.below(top(d) as usize) as u8;
    if matches!(op, "fg" | "ff") {
        for j in 0..d {
            for b in [0, gn / 2, gn.saturating_sub(1)] {
                let mut a = base.clone();
                a.g[j] ^= 1 << b;
                l.push(a);
            }
        }
        let mut a = base.clone();
        a.g.swap(0, 1);
        l.push(a);
        for m in [gn.saturating_sub(1), gn + 1] {
            let mut a = base.clone();
            a.n = m;
            l.push(a);
        }
        let mut a = base.clone();
        a.g[0] |= 1 << 63;
        l.push(a);
    } else {
        for j in [0, n / 2, n.saturating_sub(1), rng.below(n + 1)] {
            let mut a = base.clone();
            a.c = bump(&c, j, by);
            l.push(a);
        }
        let mut a = base.clone();
        a.c.reverse();
        l.push(a);
        let mut a = base.clone();
        a.c.pop();
        l.push(a);
        let mut a = base.clone();
        a.c.push(by);
        l.push(a);
        let mut a = base.clone();
        a.c = c.iter().map(|x| top(d) - x).collect();
        l.push(a);
        for m in [base.n + 1, base.n.saturating_sub(1)] {
            let mut a = base.clone();
            a.n = m;
            l.push(a);
        }
        let mut a = base.clone();
        a.p[0] ^= 1;
        l.push(a);
        let mut a = base.clone();
        a.p.push(0);
        l.push(a);
        let mut a = base.clone();
        std::mem::swap(&mut a.c, &mut a.c2);
        l.push(a);
    }
    for o in ords {
        let mut a = base.clone();
        a.o = o;
        l.push(a);
    }
    for kk in kinds {
        let mut a = base.clone();
        a.k = kk;
        l.push(a.clone());
        a = base.clone();
        a.k2 = kk;
        l.push(a);
    }
    for nm in 0..3 {
        let mut a = base.clone();
        a.nm = nm;
        l.push(a);
    }
    Cluster {
        name: format!("{op} {d}D<{}> {k:?} {n}", A::T),
        calls: l.into_iter().map(|a| Variant { prepare: Box::new(move || prepare::<A>(op, &a)) }).collect(),
    }
}

// ---- words, vectors, spreading, aligning, cells
fn word_calls<T: Bits + Clone + 'static>(l: &mut Vec<Variant>, rng: &mut Rng, w: usize, tb: fn(&T) -> Vec<u8>, fb: fn(&[u8]) -> T) {
    let len = if w > 0 { w } else { 8 * (1 + rng.below(24)) };
    let v: Vec<u8> = (0..len).map(|_| (rng.next() & 1) as u8).collect();
    let (a, b) = (rng.below(len), rng.below(len));
    let (s, e) = (a.min(b), a.max(b) + 1);
    let args: Vec<(Vec<u8>, usize, usize)> = vec![
        (v.clone(), s, e),
        (v.iter().map(|x| 1 - x).collect(), s, e),
        ({ let mut u = v.clone(); u[0] ^= 1; u }, s, e),
        ({ let mut u = v.clone(); u[len - 1] ^= 1; u }, s, e),
        (v.clone(), s.saturating_sub(1), e),
        (v.clone(), s, (e + 1).min(len)),
        (v.clone(), 0, len),
        (v.clone(), 0, 8),
        (v.clone(), len - 8, len),
    ];
    for op in 0..5 {
        for (u, s, e) in args.clone() {
            l.push(Variant {
                prepare: Box::new(move || {
                    let x = fb(&u);
                    let u = u.clone();
                    match op {
                        0 => out(move || tb(&unsafe { x.get_bits(s..e) })),
                        1 => out(move || if e - s <= 64 { unsafe { x.get_bits_as_usize(s..e) } } else { 0 }),
                        2 => out(move || {
                            let mut y = x.clone();
                            let mut z = u[..e - s].to_vec();
                            z.resize(if w > 0 { w } else { (e - s + 7) / 8 * 8 }, 0);
                            unsafe { y.set_bits(s..e, fb(&z)) };
                            tb(&y)
                        }),
                        3 => out(move || {
                            let mut y = x.clone();
                            let m = (e - s).min(64);
                            unsafe { y.set_bits_from_usize(s..s + m, word_of(&u[..m]) as usize) };
                            tb(&y)
                        }),
                        _ => out(move || (unsafe { x.as_u8_slice() }.to_vec(), tb(&unsafe { T::from_u8_slice(x.as_u8_slice(), Endianness::BigEndian) }), x.size())),
                    }
                }),
            });
        }
    }
}
fn leaf_cluster(seed: u64, i: usize) -> Cluster {
    let mut rng = Rng::new(seed_of(&[seed, 4243, i as u64]));
    let mut l: Vec<Variant> = vec![];
    let r = &mut rng;
    macro_rules! word {
        ($t:ty, $w:literal) => {
            word_calls::<$t>(&mut l, r, $w, |x| bits_of(*x as u128, $w), |b| word_of(b) as $t)
        };
    }
    macro_rules! call {
        ($e:expr) => {
            l.push(Variant { prepare: Box::new(move || out(move || $e)) })
        };
    }
    macro_rules! align {
        ($($t:ty),*) => {
            $( for _ in 0..4 {
                let (a, b) = (r.next() as $t >> r.below(<$t>::BITS as usize), (r.next() as $t >> r.below(<$t>::BITS as usize)) | 1);
                for (a, b) in [(a, b), (a, a | 1), (b, b), (a | 1, b), (a, b >> 1 | 1)] {
                    call!(a.align_to(b));
                }
            } )*
        };
    }
    let name = match i % 10 {
        0 => { word!(u8, 8); "u8" }
        1 => { word!(u16, 16); "u16" }
        2 => { word!(u32, 32); "u32" }
        3 => { word!(u64, 64); "u64" }
        4 => { word!(u128, 128); "u128" }
        5 => { word!(usize, 64); "usize" }
        6 => {
            word_calls::<Vec<u8>>(&mut l, r, 0, |x| bits_of_vec(x), |b| vec_of(b));
            "vec"
        }
        7 => {
            for _ in 0..8 {
                let x = r.next() as u32;
                for x in [x, x ^ 1, x ^ 0x80, x ^ 0x8000, x ^ 0x200000, !x, x >> 8, x >> 16] {
                    call!(add_zero_before_every_bit_u8(x as u8));
                    call!(add_zero_behind_every_bit_u8(x as u8));
                    call!(add_zero_before_every_bit_u16(x as u16));
                    call!(add_two_zeroes_before_every_bit_u8(x as u8));
                    call!(add_two_zeroes_before_every_bit_u32(x));
                }
            }
            "spread"
        }
        8 => {
            align!(u8, u16, u32, u64, u128, usize);
            "align"
        }
        _ => {
            for x in 0..10usize {
                for x in [x, x + 256, x + (1 << 32)] {
                    call!(fam::res(Quadrant::try_from(x)).map(|q| q.index()));
                    call!(fam::res(Octant::try_from(x)).map(|q| q.index()));
                }
                for o in orderings(3) {
                    call!(fam::res(Octant::try_from(x)).map(|q| { let v = fam::oord(o).to_index(q); [v.x, v.y, v.z] }));
                }
                for o in orderings(2) {
                    call!(fam::res(Quadrant::try_from(x)).map(|q| { let v = fam::qord(o).to_index(q); [v.x, v.y] }));
                }
            }
            "cells"
        }
    };
    Cluster { name: name.into(), calls: l }
}

/// cluster i of n; families in turn, leaves among them
pub fn nth(seed: u64, i: usize) -> Cluster {
    let f = i % 13;
    let j = i / 13;
    if f < 12 {
        family_call!(f, self::cluster, seed, f, j)
    } else {
        leaf_cluster(seed, j)
    }
}

fn fresh<R: Send>(f: impl FnOnce() -> R + Send) -> Option<R> {
    std::thread::scope(|s| s.spawn(f).join().ok())
}

/// Executes clusters and returns, for each, its executions.
pub fn run(ctx: &Ctx, prog: &Progress, clusters: usize, threads: usize, reps: usize) -> Vec<(String, Vec<Vec<String>>)> {
    let list: Vec<Cluster> = (0..clusters).map(|i| nth(ctx.seed, i)).collect();
    let mut all: Vec<Vec<Vec<String>>> = vec![];
    for (i, c) in list.iter().enumerate() {
        prog.at(0, format!("cluster {i}: {}", c.name));
        let mut runs: Vec<Vec<String>> = vec![];
        let n = c.calls.len();
        // each call on a thread of its own
        runs.push(c.calls.iter().map(|v| fresh(|| (v.prepare)()()).unwrap_or("died".into())).collect());
        // one after the other, there and back, and at random
        let mut rng = Rng::new(seed_of(&[ctx.seed, 4244, i as u64]));
        let mut orders: Vec<Vec<usize>> = vec![(0..n).collect(), (0..n).rev().collect()];
        for _ in 0..2 {
            let mut o: Vec<usize> = (0..n).collect();
            for j in (1..n).rev() {
                o.swap(j, rng.below(j + 1));
            }
            orders.push(o);
        }
        // the first call before each of the others
        orders.push((1..n).flat_map(|j| [0, j]).collect());
        for o in orders {
            let prepared = rng.chance(1, 2);
            let r = fresh(|| {
                let mut got: Vec<Option<String>> = vec![None; n];
                let mut cs: Vec<Option<Call>> = (0..n).map(|j| prepared.then(|| (c.calls[j].prepare)())).collect();
                for j in o {
                    let mut f = cs[j].take().unwrap_or_else(|| (c.calls[j].prepare)());
                    let s = f();
                    match &got[j] {
                        Some(t) if *t == s => {}
                        Some(t) => got[j] = Some(format!("{t} then {s}")),
                        None => got[j] = Some(s),
                    }
                }
                got.into_iter().map(|g| g.unwrap_or_default()).collect()
            });
            runs.push(r.unwrap_or(vec!["died".into()]));
        }
        ctx.count("drill", 1, 7 * n as u64);
        all.push(runs);
    }
    // the calls of one cluster by all threads at once, again and again
    let got: Vec<Mutex<Vec<Vec<String>>>> = (0..clusters).map(|_| Mutex::new(vec![])).collect();
    let gate = Barrier::new(threads);
    let at = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (list, got, gate, at, all) = (&list, &got, &gate, &at, &all);
            s.spawn(move || {
                for (i, c) in list.iter().enumerate() {
                    prog.at(t, format!("duel on cluster {i}: {}", c.name));
                    let n = c.calls.len();
                    let mine: Vec<usize> = (0..n).filter(|j| (j + i) % threads == t || *j == 0).collect();
                    gate.wait();
                    at.fetch_add(1, SeqCst);
                    while at.load(SeqCst) < (i + 1) * threads {
                        std::hint::spin_loop();
                    }
                    let mut row: Vec<String> = all[i][0].clone();
                    for _ in 0..reps {
                        for &j in &mine {
                            let s = (c.calls[j].prepare)()();
                            if s != row[j] {
                                // logged; the specification judges it
                                row[j] = s;
                            }
                        }
                    }
                    ctx.count("duel", 0, (reps * mine.len()) as u64);
                    got[i].lock().unwrap().push(row);
                }
                prog.done(t);
            });
        }
    });
    let mut res = vec![];
    for (i, (c, mut r)) in list.iter().zip(all).enumerate() {
        let mut duels = got[i].lock().unwrap().clone();
        duels.sort();
        duels.dedup();
        r.extend(duels);
        res.push((c.name.clone(), r));
    }
    res
}

/// In a process that did nothing yet: one cluster by all threads at once.
pub fn cold(seed: u64, i: usize, threads: usize, prepared: bool) {
    let c = Arc::new(nth(seed, i));
    let at = Arc::new(AtomicUsize::new(0));
    let n = c.calls.len();
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let (c, at) = (c.clone(), at.clone());
            std::thread::spawn(move || {
                let mut cs: Vec<Option<Call>> = (0..n).map(|j| prepared.then(|| (c.calls[j].prepare)())).collect();
                at.fetch_add(1, SeqCst);
                while at.load(SeqCst) < threads {
                    std::hint::spin_loop();
                }
                let mut row = vec![String::new(); n];
                for x in 0..n {
                    // half of the threads start with the same call
                    let j = if t % 2 == 0 { x } else { (x + t) % n };
                    let mut f = cs[j].take().unwrap_or_else(|| (c.calls[j].prepare)());
                    row[j] = f();
                }
                row
            })
        })
        .collect();
    for h in hs {
        match h.join() {
            Ok(r) => println!("ROW\t{}", r.iter().map(|s| s.replace('\t', " ").replace('\n', " ")).collect::<Vec<_>>().join("\t")),
            Err(_) => println!("ROW\tdied"),
        }
    }
}

// ---- endurance: the same few calls more often than a 16-bit counter counts
fn few<A: Ix + 'static>(seed: u64, op: &'static str, k: K, n: usize) -> Vec<Call> {
    let d = A::DIM;
    let cap = if k == K::D { 8 } else { A::W / d };
    let ords = orderings(d);
    let kinds = [K::F, K::S, K::D];
    let mut rng = Rng::new(seed);
    (0..n)
        .map(|_| {
            let m = rng.below(5).min(cap);
            let gn = rng.below(cap.min(4) + 1);
            let mut a = Arg {
                k,
                c: rnd_cells(&mut rng, m, d),
                c2: rnd_cells(&mut rng, m, d),
                p: (0..1 + rng.below(2)).map(|_| rng.below(1 << d) as u8).collect(),
                g: rnd_grid(&mut rng, gn),
                n: if matches!(op, "fg" | "zer") { gn } else { rng.below(m + 1) },
                o: *rng.pick(ords),
                nm: rng.below(3),
                k2: kinds[rng.below(3)],
            };
            if a.k2 == k {
                a.k2 = if k == K::S { K::D } else { K::S };
            }
            prepare::<A>(op, &a)
        })
        .collect()
}
fn endured(make: impl Fn() -> Vec<Call>, rounds: usize, at: impl Fn(usize)) -> Vec<String> {
    let mut cs = make();
    let mut first: Vec<String> = vec![];
    let mut odd = String::new();
    for r in 0..rounds {
        at(r * cs.len());
        for (j, f) in cs.iter_mut().enumerate() {
            let s = f();
            if r == 0 {
                first.push(s);
            } else if s != first[j] && odd.is_empty() {
                odd = format!("call {} returns {} but call {j} alike returned {}", r * first.len() + j, s, first[j]);
            }
        }
    }
    first.push(odd);
    first
}
pub fn endurance(ctx: &Ctx, prog: &Progress, threads: usize, calls: usize) -> Vec<(String, Vec<Vec<String>>)> {
    let mut ops = OPS.to_vec();
    ops.dedup();
    // families 0..6 are 2D, 6..12 are 3D; which of the words takes turns
    let mut jobs: Vec<(usize, &'static str, K)> = vec![];
    for (i, op) in ops.iter().enumerate() {
        for (j, k) in [K::F, K::S, K::D].into_iter().enumerate() {
            for d in 0..2 {
                jobs.push((6 * d + (ctx.seed as usize + i + j) % 6, op, k));
            }
        }
    }
    for i in 0..10 {
        jobs.push((12 + i, "", K::F));
    }
    const N: usize = 64;
    let next = AtomicUsize::new(0);
    let res = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (jobs, next, res) = (&jobs, &next, &res);
            s.spawn(move || loop {
                let j = next.fetch_add(1, SeqCst);
                if j >= jobs.len() {
                    return prog.done(t);
                }
                let (f, op, k) = jobs[j];
                let seed = seed_of(&[ctx.seed, 4245, j as u64]);
                let make = || {
                    if f < 12 {
                        family_call!(f, self::few, seed, op, k, N)
                    } else {
                        leaf_cluster(ctx.seed, f - 12).calls.iter().map(|v| (v.prepare)()).collect()
                    }
                };
                let name = if f < 12 { format!("{op} family {f} {k:?}") } else { format!("leaves {}", f - 12) };
                let n = make().len();
                // the leaves are up to six functions each
                let rounds = calls * if f < 12 { 1 } else { 6 } / n + 1;
                let rows: Vec<Vec<String>> = [2, rounds]
                    .iter()
                    .map(|&r| fresh(|| endured(make, r, |x| prog.at(t, format!("endurance of {name}: {x} calls")))).unwrap_or(vec!["died".into()]))
                    .collect();
                ctx.count("endurance", 1, (rounds * n) as u64);
                res.lock().unwrap().push((j, name, rows));
            });
        }
    });
    let mut l = res.into_inner().unwrap();
    l.sort_by_key(|x| x.0);
    l.into_iter().map(|x| (format!("endurance {}", x.1), x.2)).collect()
}
