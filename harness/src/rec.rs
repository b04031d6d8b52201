//! Records histories of the real code for Trace.tla.  The recorder chooses
//! calls at random and logs what it observes; it has no expectations.
use crate::fam::*;
use crate::tmpl::{rnd_cells, rnd_grid, top};
use crate::util::*;
use std::cmp::Ordering;
use std::io::Write;

const BIG: usize = 999_999_999;

fn jl<T: std::fmt::Display>(l: impl IntoIterator<Item = T>) -> String {
    let v: Vec<String> = l.into_iter().map(|x| x.to_string()).collect();
    format!("[{}]", v.join(","))
}
fn cap_big(x: usize) -> usize {
    x.min(BIG)
}
/// bits of a coordinate, most significant first, no leading zeros
fn gbits(x: usize) -> String {
    let n = 64 - x.leading_zeros() as usize;
    jl((0..n).rev().map(|i| (x >> i) & 1))
}
fn gridj(g: &Grid, d: usize) -> String {
    jl(g[..d].iter().map(|x| gbits(*x)))
}
fn os(o: Ordering) -> &'static str {
    match o {
        Ordering::Less => "lt",
        Ordering::Greater => "gt",
        Ordering::Equal => "eq",
    }
}
fn see<A: Ix>(r: &Option<A>) -> String {
    match r {
        None => "{\"k\":\"-\",\"n\":0,\"c\":[],\"it\":true}".into(),
        Some(v) => match v.obs() {
            Out::Ok(o) => {
                let it = guard(|| Out::Ok(v.cells())) == Out::Ok(o.cells.clone());
                format!("{{\"k\":\"{}\",\"n\":{},\"c\":{},\"it\":{}}}", v.kind().s(), cap_big(o.depth), jl(o.cells), it)
            }
            _ => format!("{{\"k\":\"{}\",\"n\":-1,\"c\":[],\"it\":false}}", v.kind().s()),
        },
    }
}

fn cells_of<A: Ix>(v: &A) -> Vec<u8> {
    guard(|| Out::Ok(v.cells())).ok().unwrap_or_default()
}

fn plan_ops(plan: &str) -> &'static [&'static str] {
    match plan {
        "C01" => &["new", "new", "def", "zer", "get", "get", "it", "it", "it"],
        "C02" => &["new", "zer", "fg", "desc", "chd", "set", "get", "cnv"],
        "C03" => &["set", "set", "set", "copy", "inv", "cnv", "anc", "desc"],
        "C04" => &["tg"],
        "C05" => &["fg", "fg", "tg", "ff"],
        "C06" => &["anc", "desc", "par", "chd", "wd"],
        "C07" => &["cmp", "cmp", "sort"],
        "C08" => &["cmp", "cmp", "cmp", "set", "anc", "zer", "cnv"],
        "C09" => &["cnv"],
        "C10" => &["nam", "nam", "dsp", "dsp", "cml"],
        "C11" => &["inv"],
        "C16" => &["raw", "frw"],
        "C17" => &["nst", "nst", "zc", "fg"],
        _ => &["new", "set", "anc"],
    }
}
const ALL: [&str; 27] = [
    "new", "def", "zer", "set", "get", "anc", "par", "wd", "desc", "chd", "inv", "cnv", "copy", "fg", "ff", "tg", "cmp", "cmp", "sort",
    "nam", "dsp", "raw", "frw", "it", "cml", "nst", "zc",
];

pub fn record<A: Ix>(ctx: &Ctx, prog: &Progress, slot: usize, part: usize, out: &str, f: usize, events: usize, plan: &str) {
    let mut ev: Vec<String> = vec![];
    if let Out::Panic(_) = guard(|| {
        history::<A>(ctx, prog, slot, part, f, events, plan, &mut ev);
        Out::Ok(())
    }) {
        // reading an index must not panic
        let none = see::<A>(&None);
        ev.push(format!("{{\"op\":\"crash\",\"out\":\"panic\",\"regs\":[{none},{none},{none}]}}"));
    }
    ctx.count("trace", 1, ev.len() as u64);
    let line = format!("{{\"d\":{},\"w\":{},\"t\":\"{}\",\"ev\":[{}]}}\n", A::DIM, A::W, A::T, ev.join(","));
    let mut f = std::fs::File::create(format!("{out}/trace-{f}-{part}.json")).unwrap();
    f.write_all(line.as_bytes()).unwrap();
}

fn history<A: Ix>(ctx: &Ctx, prog: &Progress, slot: usize, part: usize, f: usize, events: usize, plan: &str, ev: &mut Vec<String>) -> Vec<Option<A>> {
    let d = A::DIM;
    let w = A::W;
    let cap = w / d;
    let mut rng = Rng::new(seed_of(&[ctx.seed, 991, f as u64, part as u64]));
    prog.at(slot, format!("recording trace {part} of {d}D<{}>", A::T));
    let nregs = 3;
    let mut regs: Vec<Option<A>> = (0..nregs).map(|_| None).collect();
    let alphabet: Vec<u8> = match rng.below(4) {
        0 => vec![0, top(d)],
        1 => vec![0, 1 + rng.below(top(d) as usize) as u8],
        _ => (0..=top(d)).collect(),
    };
    let scale = match rng.below(4) {
        0 => 3,
        1 => 9,
        2 => cap + 2,
        _ => 40,
    };
    let kinds = [K::F, K::S, K::D];
    let ords = orderings(d);
    let mut last_cells: Vec<u8> = vec![];
    while ev.len() < events {
        noise();
        let live: Vec<usize> = (0..nregs).filter(|i| regs[*i].is_some()).collect();
        let op = if live.len() < 2 {
            "new"
        } else if rng.chance(1, 2) {
            *rng.pick(plan_ops(plan))
        } else {
            *rng.pick(&ALL)
        };
        let dst = rng.below(nregs);
        let s = if live.is_empty() { 0 } else { *rng.pick(&live) };
        let k = *rng.pick(&kinds);
        let cells = |rng: &mut Rng, n: usize| -> Vec<u8> {
            if rng.chance(1, 3) {
                rnd_cells(rng, n, d)
            } else {
                (0..n).map(|_| *rng.pick(&alphabet)).collect()
            }
        };
        let len = |rng: &mut Rng, k: K| -> usize {
            match rng.below(12) {
                0 if k != K::D => cap + 1 + rng.below(3),
                1 | 2 if k != K::D => cap - rng.below(2.min(cap)),
                3 => rng.below(3),
                4 if k == K::D => rng.below(70),
                5 if k == K::D && scale == 40 => 250 + rng.below(12),
                _ => rng.below((if k == K::D { scale.max(8) } else { scale.min(cap) }) + 1),
            }
        };
        let (depth, kind) = match &regs[s] {
            Some(v) => (v.depth(), v.kind()),
            None => (0, K::F),
        };
        if depth > 600 {
            regs[s] = None;
            continue;
        }
        let huge = *rng.pick(&HUGE);
        // what is logged: arguments and result, after "op"
        let mut put: Option<A> = None;
        let mut store = |v: Out<A>, args: String| -> String {
            let m = if let Out::Err(m) = &v { cap_big(*m) } else { 0 };
            let tag = v.tag();
            if let Out::Ok(v) = v {
                put = Some(v);
            }
            format!("\"dst\":{},\"out\":\"{}\",\"max\":{}{}", dst + 1, tag, m, args)
        };
        let body: String = match op {
            "new" => {
                let c = if rng.chance(1, 4) {
                    // the same node again, or a neighbour of it
                    match &regs[s] {
                        Some(v) => {
                            let mut c = cells_of(v);
                            match rng.below(4) {
                                0 if !c.is_empty() => {
                                    c.pop();
                                }
                                1 => c.push(*rng.pick(&alphabet)),
                                _ => {}
                            }
                            c
                        }
                        None => vec![],
                    }
                } else {
                    let n = len(&mut rng, k);
                    cells(&mut rng, n)
                };
                let arr = if rng.chance(1, 3) { A::build_arr(k, &c) } else { None };
                let r = match arr {
                    Some(r) => r,
                    None => A::build(k, &c),
                };
                store(r, format!(",\"k\":\"{}\",\"c\":{}", k.s(), jl(&c)))
            }
            "def" => store(guard(|| Out::Ok(A::default(k))), format!(",\"k\":\"{}\"", k.s())),
            "zer" => {
                let n = len(&mut rng, k);
                match A::zeroed(k, n) {
                    None => continue,
                    Some(r) => store(r, format!(",\"k\":\"{}\",\"n\":{}", k.s(), n)),
                }
            }
            "copy" => {
                let v = match regs[dst].clone() {
                    Some(mut o) if o.kind() == kind && rng.chance(1, 2) => {
                        let src = regs[s].as_ref().unwrap();
                        guard(|| {
                            o.copy_from(src);
                            Out::Ok(o.clone())
                        })
                    }
                    _ => guard(|| Out::Ok(regs[s].clone().unwrap())),
                };
                store(v, format!(",\"src\":{}", s + 1))
            }
            "set" => {
                let l = if depth > 0 && rng.chance(7, 8) { rng.below(depth) } else { *rng.pick(&[depth, depth + 1, depth + 7, huge]) };
                let x = *rng.pick(&alphabet);
                let v = regs[s].as_mut().unwrap();
                let r = if l < depth && rng.chance(1, 4) { v.set_unchecked(l, x) } else { v.set(l, x) };
                format!("\"src\":{},\"l\":{},\"x\":{},\"out\":\"{}\"", s + 1, cap_big(l), x, r.tag())
            }
            "get" => {
                let l = if depth > 0 && rng.chance(7, 8) { rng.below(depth) } else { *rng.pick(&[depth, depth + 1, depth + 7, huge]) };
                let r = regs[s].as_ref().unwrap().get(l);
                let tag = r.tag();
                format!("\"src\":{},\"l\":{},\"out\":\"{}\",\"v\":{}", s + 1, cap_big(l), tag, r.ok().unwrap_or(0))
            }
            "anc" | "par" | "wd" | "desc" | "chd" => {
                if kind == K::F {
                    continue;
                }
                let v = regs[s].as_ref().unwrap();
                match op {
                    "anc" => {
                        let g = if rng.chance(7, 8) { 1 + rng.below(depth + 1) } else { *rng.pick(&[depth + 1, depth + 2, huge]) };
                        store(v.anc(g), format!(",\"src\":{},\"g\":{}", s + 1, cap_big(g)))
                    }
                    "par" => store(v.par(), format!(",\"src\":{}", s + 1)),
                    "wd" => {
                        let n = if rng.chance(7, 8) { rng.below(depth + 1) } else { *rng.pick(&[depth + 1, depth + 2, huge]) };
                        store(v.wd(n), format!(",\"src\":{},\"n\":{}", s + 1, cap_big(n)))
                    }
                    "desc" => {
                        let n = match rng.below(8) {
                            0 => (cap + 1).saturating_sub(depth),
                            1 => cap.saturating_sub(depth),
                            2 => rng.below(20),
                            _ => rng.below(5),
                        };
                        let p = cells(&mut rng, n);
                        store(v.desc(&p), format!(",\"src\":{},\"p\":{}", s + 1, jl(&p)))
                    }
                    _ => {
                        let x = *rng.pick(&alphabet);
                        store(v.chd(x), format!(",\"src\":{},\"x\":{}", s + 1, x))
                    }
                }
            }
            "inv" => {
                let v = regs[s].as_ref().unwrap();
                store(guard(|| Out::Ok(v.inv())), format!(",\"src\":{}", s + 1))
            }
            "cnv" => {
                if k == kind {
                    continue;
                }
                let v = regs[s].as_ref().unwrap();
                store(v.cnv(k), format!(",\"src\":{},\"k\":\"{}\"", s + 1, k.s()))
            }
            "fg" | "ff" => {
                let o = *rng.pick(ords);
                let n = match k {
                    K::D => rng.below(33),
                    K::S if rng.chance(1, 8) => *rng.pick(&[cap + 1, cap + 2, 64, 65, 255, 256, 257, 1000, huge]),
                    _ => rng.below(cap + 1),
                };
                let sh = rng.below(64);
                let g = match rng.below(3) {
                    0 => rnd_grid(&mut rng, 64),
                    1 => rnd_grid(&mut rng, n),
                    _ => [rng.next() as usize >> sh, rng.next() as usize >> rng.below(64), rng.next() as usize >> sh],
                };
                if op == "ff" {
                    let r = guard(|| opt(A::fast(&g, o)));
                    if matches!(r, Out::None) {
                        continue;
                    }
                    store(r, format!(",\"g\":{},\"o\":\"{}\"", gridj(&g, d), o))
                } else {
                    store(A::from_grid(k, &g, n, o), format!(",\"k\":\"{}\",\"g\":{},\"n\":{},\"o\":\"{}\"", k.s(), gridj(&g, d), cap_big(n), o))
                }
            }
            "tg" => {
                if depth > 64 {
                    continue;
                }
                let o = *rng.pick(ords);
                let v = regs[s].as_ref().unwrap();
                let r = guard(|| Out::Ok(v.to_grid(o)));
                let tag = r.tag();
                format!("\"src\":{},\"o\":\"{}\",\"out\":\"{}\",\"g\":{}", s + 1, o, tag, gridj(&r.ok().unwrap_or([0; 3]), d))
            }
            "nst" => {
                if kind == K::F {
                    continue;
                }
                let o = *rng.pick(ords);
                let g = rng.below(depth + 1);
                let room = if kind == K::S { cap - (depth - g) } else { 6 };
                if depth - g > 64 {
                    continue;
                }
                let n = rng.below(room.min(6).min(64 - (depth - g)) + 1);
                let p = cells(&mut rng, n);
                let v = regs[s].as_ref().unwrap();
                let chd = rng.chance(1, 2);
                let go = || -> Option<Grid> {
                    let mut x = v.clone();
                    if g > 0 {
                        x = if chd { x.anc(g) } else { x.wd(depth - g) }.ok()?;
                    }
                    if !p.is_empty() {
                        x = if p.len() == 1 && chd { x.chd(p[0]) } else { x.desc(&p) }.ok()?;
                    }
                    Some(x.to_grid(o))
                };
                let r = guard(|| match go() {
                    Some(x) => Out::Ok(x),
                    None => Out::None,
                });
                let tag = r.tag();
                format!("\"src\":{},\"g\":{},\"p\":{},\"o\":\"{}\",\"out\":\"{}\",\"pos\":{}", s + 1, g, jl(&p), o, tag, gridj(&r.ok().unwrap_or([0; 3]), d))
            }
            "zc" => {
                // two nodes of one depth, by position
                if depth > 64 || (kind == K::D && depth > 32) {
                    continue;
                }
                let t = *rng.pick(&live);
                let (a, b) = (regs[s].as_ref().unwrap(), regs[t].as_ref().unwrap());
                if a.kind() != b.kind() || a.depth() != b.depth() {
                    continue;
                }
                let o = *rng.pick(ords);
                let r = guard(|| Out::Ok((a.to_grid(o), b.to_grid(o), os(a.cmp(b).0))));
                let tag = r.tag();
                let (x, y, c) = r.ok().unwrap_or(([0; 3], [0; 3], "-"));
                format!("\"a\":{},\"b\":{},\"o\":\"{}\",\"out\":\"{}\",\"x\":{},\"y\":{},\"c\":\"{}\",\"n\":{}", s + 1, t + 1, o, tag, gridj(&x, d), gridj(&y, d), c, depth)
            }
            "cmp" => {
                let t = *rng.pick(&live);
                let (a, b) = (regs[s].as_ref().unwrap(), regs[t].as_ref().unwrap());
                if a.kind() != b.kind() {
                    continue;
                }
                let r = guard(|| {
                    let (o, p, rel) = a.cmp(b);
                    let (eq, ne) = a.same(b);
                    Out::Ok(format!(
                        "\"o\":\"{}\",\"p\":\"{}\",\"rel\":{},\"eq\":{},\"ne\":{},\"heq\":{}",
                        os(o),
                        p.map(os).unwrap_or("-"),
                        jl(rel),
                        eq,
                        ne,
                        a.hash64() == b.hash64()
                    ))
                });
                let tag = r.tag();
                let none = "\"o\":\"-\",\"p\":\"-\",\"rel\":[false,false,false,false,false],\"eq\":false,\"ne\":false,\"heq\":false";
                format!("\"a\":{},\"b\":{},\"out\":\"{}\",{}", s + 1, t + 1, tag, r.ok().unwrap_or(none.into()))
            }
            "sort" => {
                let n = 2 + rng.below(7);
                let mut l: Vec<A> = vec![];
                let mut pre = vec![];
                for _ in 0..n {
                    let m = match k {
                        K::F => cap,
                        _ => rng.below(scale.min(cap) + 1),
                    };
                    // share prefixes with earlier members
                    let mut c: Vec<u8> = if rng.chance(2, 3) { last_cells[..rng.below(last_cells.len() + 1)].to_vec() } else { vec![] };
                    c.truncate(m);
                    let more = m - c.len();
                    c.extend(cells(&mut rng, more));
                    if let Out::Ok(v) = A::build(k, &c) {
                        pre.push(jl(cells_of(&v)));
                        l.push(v);
                        last_cells = c;
                    }
                }
                let how = rng.below(4);
                let r = guard(|| Out::Ok(A::sorted(&l, how).iter().map(|v| jl(cells_of(v))).collect::<Vec<_>>()));
                let tag = r.tag();
                format!("\"in\":{},\"out\":\"{}\",\"res\":{}", jl(pre), tag, jl(r.ok().unwrap_or_default()))
            }
            "nam" => {
                let i = rng.below(3);
                if i == 2 && depth > 64 {
                    continue;
                }
                let v = regs[s].as_ref().unwrap();
                let r = guard(|| Out::Ok(v.name(i)));
                let tag = r.tag();
                format!("\"src\":{},\"nm\":\"{}\",\"out\":\"{}\",\"s\":\"{}\"", s + 1, NAMINGS[i], tag, r.ok().unwrap_or_default())
            }
            "dsp" => {
                let i = rng.below(3);
                let pick: Vec<usize> = live.iter().cloned().filter(|x| regs[*x].as_ref().unwrap().kind() == kind).filter(|x| i < 2 || regs[*x].as_ref().unwrap().depth() <= 64).collect();
                let mut ids = vec![];
                if !pick.is_empty() {
                    for _ in 0..rng.below(5) {
                        ids.push(*rng.pick(&pick));
                    }
                }
                let l: Vec<A> = ids.iter().map(|x| regs[*x].clone().unwrap()).collect();
                let r = guard(|| {
                    let v = A::display(&l, i);
                    Out::Ok(v)
                });
                let tag = r.tag();
                let all = r.ok().unwrap_or_default();
                format!("\"srcs\":{},\"nm\":\"{}\",\"out\":\"{}\",\"s\":{}", jl(ids.iter().map(|x| x + 1)), NAMINGS[i], tag, jl(all.iter().map(|s| format!("\"{s}\""))))
            }
            "cml" => {
                let pick: Vec<usize> = live.iter().cloned().filter(|x| regs[*x].as_ref().unwrap().kind() == kind).collect();
                let mut ids: [Vec<usize>; 2] = [vec![], vec![]];
                for l in ids.iter_mut() {
                    for _ in 0..rng.below(4) {
                        l.push(*rng.pick(&pick));
                    }
                }
                if rng.chance(1, 2) {
                    // a common head
                    let n = rng.below(ids[0].len() + 1);
                    let mut l = ids[0][..n].to_vec();
                    l.extend(&ids[1]);
                    ids[1] = l;
                }
                let l = |i: usize| -> Vec<A> { ids[i].iter().map(|x| regs[*x].clone().unwrap()).collect() };
                let (a, b) = (l(0), l(1));
                let nm = rng.below(3);
                let r = guard(|| Out::Ok(A::cmp_lists(&a, &b, nm)));
                let tag = r.tag();
                let (o, p, rel, eq, ne) = r.ok().unwrap_or((Ordering::Equal, None, [false; 5], false, false));
                format!(
                    "\"as\":{},\"bs\":{},\"out\":\"{}\",\"o\":\"{}\",\"p\":\"{}\",\"rel\":{},\"eq\":{},\"ne\":{}",
                    jl(ids[0].iter().map(|x| x + 1)),
                    jl(ids[1].iter().map(|x| x + 1)),
                    tag,
                    os(o),
                    p.map(os).unwrap_or("-"),
                    jl(rel),
                    eq,
                    ne
                )
            }
            "it" => {
                let f = *rng.pick(&["next", "nth", "nth", "last", "every", "rest", "skip", "count", "hint"]);
                let p = match rng.below(4) {
                    0 => 0,
                    1 => depth.saturating_sub(rng.below(3)),
                    2 => depth + rng.below(3),
                    _ => rng.below(depth + 1),
                };
                let j = match rng.below(6) {
                    0 => depth,
                    1 => depth + 1 + rng.below(3),
                    2 if f == "nth" => *rng.pick(&[255, 256, 65536, BIG]),
                    3 => depth.saturating_sub(p).saturating_sub(rng.below(2)),
                    _ => rng.below(4),
                };
                let sc = ItScript { way: rng.below(4), p, f, j };
                let storage = rng.chance(1, 3);
                let r = regs[s].as_ref().unwrap().it(storage, &sc);
                let tag = r.tag();
                let o = r.ok().unwrap_or_default();
                format!(
                    "\"src\":{},\"storage\":{},\"way\":{},\"n\":{},\"f\":\"{}\",\"j\":{},\"out\":\"{}\",\"y\":{},\"lo\":{},\"hi\":{},\"rest\":{},\"fused\":{}",
                    s + 1, storage, sc.way, p, f, j, tag, jl(o.y), cap_big(o.lo),
                    o.hi.map(|h| cap_big(h) as i64).unwrap_or(-1), jl(o.rest), o.fused
                )
            }
            "raw" => {
                if kind == K::D {
                    continue;
                }
                let c = cells_of(regs[s].as_ref().unwrap());
                match A::st(kind, &c, StOp::New) {
                    Some(Out::Ok(st)) => {
                        let b = st.bits.unwrap();
                        format!("\"src\":{},\"out\":\"ok\",\"bits\":{}", s + 1, jl((0..w).rev().map(|i| (b >> i) & 1)))
                    }
                    x => format!("\"src\":{},\"out\":\"{}\",\"bits\":[]", s + 1, x.map(|x| x.tag()).unwrap_or("-")),
                }
            }
            "frw" => {
                if d == 2 || k == K::D {
                    continue;
                }
                let n = if k == K::F { cap } else { rng.below(cap + 1) };
                let mut b = rng.u128();
                if rng.chance(1, 4) {
                    b &= rng.u128();
                }
                // canonical: only the top n cells are used
                b &= if n == 0 { 0 } else { ((!0u128) >> (128 - d * n)) << (w - d * n) };
                let r = guard(|| opt(A::from_raw(k, b, n)));
                store(r, format!(",\"k\":\"{}\",\"n\":{},\"bits\":{}", k.s(), n, jl((0..w).rev().map(|i| (b >> i) & 1))))
            }
            _ => unreachable!(),
        };
        if let Some(v) = put {
            regs[dst] = Some(v);
        }
        let after: Vec<String> = regs.iter().map(see).collect();
        ev.push(format!("{{\"op\":\"{}\",{},\"regs\":[{}]}}", op, body, after.join(",")));
        prog.at(slot, format!("recording trace {part} of {d}D<{}>, event {}", A::T, ev.len()));
    }
    regs
}

/// What one reader sees of two indices of one flavour; results as text.
fn probe<A: Ix>(x: &A, y: &A, rng: &mut Rng) -> String {
    let d = A::DIM;
    let o = *rng.pick(orderings(d));
    let n = x.depth();
    let kinds = [K::F, K::S, K::D];
    let obs = |r: Out<A>| format!("{:?}", r.map(|v| (v.kind(), v.obs(), v.hash64())));
    let p: Vec<u8> = (0..rng.below(4)).map(|_| rng.below(1 << d) as u8).collect();
    let g = 1 + rng.below(n + 2);
    match rng.below(14) {
        0 => format!("grid {o} {:?}", if n <= 64 { guard(|| Out::Ok(x.to_grid(o))) } else { Out::None }),
        1 => format!("name {:?}", guard(|| Out::Ok((x.name(0), x.name(1), if n <= 64 { x.name(2) } else { String::new() })))),
        2 => format!("cells {:?}", guard(|| Out::Ok(x.cells()))),
        3 => format!("cmp {:?}", guard(|| Out::Ok((x.cmp(y), y.cmp(x), x.same(y))))),
        4 => format!("inv {}", obs(guard(|| Out::Ok(x.inv())))),
        5 => {
            let k = *rng.pick(&kinds);
            format!("cnv {:?} {}", k, if k == x.kind() { String::new() } else { obs(x.cnv(k)) })
        }
        6 => format!("get {g} {:?}", x.get(g)),
        7 => format!("hash {:?}", guard(|| Out::Ok(x.hash64()))),
        8 => format!("copy {}", obs(guard(|| Out::Ok(x.clone())))),
        9 => format!("list {:?}", guard(|| Out::Ok(A::display(&[x.clone(), y.clone()], rng.clone().below(2))))),
        _ if x.kind() == K::F => "-".into(),
        10 => format!("anc {g} {}", obs(x.anc(g))),
        11 => format!("wd {g} {}", obs(x.wd(g))),
        12 => format!("desc {:?} {}", p, obs(x.desc(&p))),
        _ => format!("chd {}", obs(x.chd(o.len() as u8 % (1 << d)))),
    }
}
struct Shared<'a, A>(&'a [A]);
unsafe impl<'a, A> Sync for Shared<'a, A> {}
unsafe impl<'a, A> Send for Shared<'a, A> {}

/// One execution of a script: a history of its own, then readers of the
/// indices it ended with, one after the other or (storm) at once.
pub fn script<A: Ix>(ctx: &Ctx, prog: &Progress, slot: usize, part: usize, f: usize, events: usize, plan: &str, storm: bool) -> Vec<String> {
    let mut ev: Vec<String> = vec![];
    let regs = match shield(|| Out::Ok(history::<A>(ctx, prog, slot, part, f, events, plan, &mut ev))) {
        Out::Ok(r) => r,
        x => {
            ev.push(format!("crash {}", x.tag()));
            return ev;
        }
    };
    let pool: Vec<A> = regs.into_iter().flatten().collect();
    let reader = |s: &Shared<A>, i: usize| -> Vec<String> {
        let l = s.0;
        let mut rng = Rng::new(seed_of(&[ctx.seed, 77, f as u64, part as u64, i as u64]));
        (0..events / 4)
            .map(|_| {
                noise();
                let x = rng.pick(l);
                let same: Vec<&A> = l.iter().filter(|y| y.kind() == x.kind()).collect();
                let y = *rng.pick(&same);
                match shield(|| Out::Ok(probe(x, y, &mut rng))) {
                    Out::Ok(s) => s,
                    r => format!("probe {}", r.tag()),
                }
            })
            .collect()
    };
    let sh = Shared(&pool);
    let all: Vec<Vec<String>> = if storm {
        std::thread::scope(|sc| {
            let hs: Vec<_> = (0..4).map(|i| { let (sh, reader) = (&sh, Share(&reader)); sc.spawn(move || reader.get()(sh, i)) }).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| vec!["reader died".into()])).collect()
        })
    } else {
        (0..4).map(|i| reader(&sh, i)).collect()
    };
    for l in all {
        ev.extend(l);
    }
    ev
}
struct Share<T>(T);
unsafe impl<T> Send for Share<T> {}
impl<T: Copy> Share<T> {
    fn get(&self) -> T {
        self.0
    }
}
