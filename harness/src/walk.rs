//! Random walks through the transition relation TLC printed: a heap of
//! registers is kept both abstractly (flavour and cells, moved along by the
//! templates) and as real indices; after every step every register must
//! still show its abstract value, and only the target may have changed.
use crate::fam::*;
use crate::tmpl::*;
use crate::util::*;
use std::collections::HashMap;

struct Reg<A> {
    k: K,
    c: Vec<u8>,
    v: A,
    snap: A,
    hash: u64,
}

const TYPE_OPS: [&str; 4] = ["new", "def", "zer", "fg"];
const INDEX_OPS: [&str; 8] = ["set", "anc", "par", "wd", "desc", "chd", "inv", "cnv"];
const READ_OPS: [&str; 2] = ["get", "tg"];

pub fn run_walks<A: Ix>(ctx: &Ctx, prog: &Progress, slot: usize, part: usize, parts: usize, tpls: &[Tpl], walks: usize, steps: usize) {
    let fam = Fam { ctx, prog, slot, pack: HashMap::new(), grid: HashMap::new() };
    // the transition relation of this family
    let mut starts: HashMap<(&str, &str), Vec<&Tpl>> = HashMap::new();
    let mut nexts: HashMap<(&str, usize), Vec<(&str, Vec<&Tpl>)>> = HashMap::new();
    for t in tpls.iter().filter(|t| t.d == A::DIM) {
        let mine = if t.k == "D" { t.op != "cnv" || t.w2 == A::W } else { t.w == A::W };
        if !mine || t.far {
            continue;
        }
        if TYPE_OPS.contains(&t.op.as_str()) {
            starts.entry((&t.k, &t.op)).or_default().push(t);
        } else if INDEX_OPS.contains(&t.op.as_str()) || READ_OPS.contains(&t.op.as_str()) {
            let l = nexts.entry((&t.k, t.n)).or_default();
            match l.iter_mut().find(|x| x.0 == t.op) {
                Some(x) => x.1.push(t),
                None => l.push((&t.op, vec![t])),
            }
        }
    }
    let mut kinds: Vec<(&str, &str)> = starts.keys().cloned().collect();
    kinds.sort();
    if kinds.is_empty() {
        return;
    }
    let d = A::DIM;
    let nregs = 5;
    let mut nsteps = 0u64;
    let mut per: HashMap<&str, u64> = HashMap::new();
    for wk in 0..walks {
        let mut rng = Rng::new(seed_of(&[ctx.seed, 77, wk as u64, part as u64, A::W as u64, A::T.len() as u64, d as u64]));
        let mut regs: Vec<Option<Reg<A>>> = (0..nregs).map(|_| None).collect();
        let mut log: Vec<String> = vec![];
        // some walks stay shallow and use few cell values, so that registers meet
        let shallow = rng.below(3);
        let alphabet: Vec<u8> = match rng.below(3) {
            0 => vec![0, top(d)],
            1 => vec![0, 1 + rng.below(top(d) as usize) as u8],
            _ => (0..=top(d)).collect(),
        };
        let maxn = match shallow {
            0 => 4,
            1 => 12,
            _ => usize::MAX,
        };
        let cell = |rng: &mut Rng| *rng.pick(&alphabet);
        'walk: for _ in 0..steps {
            nsteps += 1;
            let live: Vec<usize> = (0..nregs).filter(|i| regs[*i].is_some()).collect();
            let dst = rng.below(nregs);
            let mut changed: Option<usize> = None;
            // result: (description, own property, outcome tag wanted, wanted, got)
            let done: Option<(String, &'static str, &str, K, Vec<u8>, Out<A>)>;
            if live.is_empty() || rng.chance(1, 6) {
                let (k, op) = *rng.pick(&kinds);
                let list = &starts[&(k, op)];
                let mut t = *rng.pick(list);
                for _ in 0..50 {
                    if t.a.first().map_or(true, |a| (*a as usize) <= maxn) {
                        break;
                    }
                    t = *rng.pick(list);
                }
                let kk = K::parse(k);
                *per.entry(t.op.as_str()).or_insert(0) += 1;
                let m = t.a.first().cloned().unwrap_or(0);
                let m = if m < 0 { *rng.pick(&HUGE) } else { m as usize };
                match op {
                    "new" => {
                        let a: Vec<u8> = (0..m).map(|_| cell(&mut rng)).collect();
                        let got = match if rng.chance(1, 2) { A::build_arr(kk, &a) } else { None } {
                            Some(r) => r,
                            None => A::build(kk, &a),
                        };
                        done = Some((format!("new {k} {:?}", a), "C01", &t.out, kk, subst(t, &[], &a), got));
                    }
                    "def" => done = Some((format!("default {k}"), "C01", &t.out, kk, subst(t, &[], &[]), guard(|| Out::Ok(A::default(kk))))),
                    "zer" => match A::zeroed(kk, m) {
                        None => continue,
                        Some(got) => done = Some((format!("zeroed {k} {m}"), "C01", &t.out, kk, subst(t, &[], &[]), got)),
                    },
                    _ => {
                        let mask = if shallow == 0 { 3 } else { usize::MAX };
                        let g = [rng.next() as usize & mask, rng.next() as usize & mask, rng.next() as usize & mask];
                        let want: Vec<u8> = t.r.chunks(d).map(|c| c.iter().enumerate().map(|(b, x)| (bit_of(*x, &[], &g) << b) as u8).sum()).collect();
                        done = Some((format!("grid {k} {:?} {m} {}", &g[..d], t.s), "C05", &t.out, kk, want, A::from_grid(kk, &g, m, &t.s)));
                    }
                }
            } else if rng.chance(1, 8) {
                let s = *rng.pick(&live);
                let r = regs[s].as_ref().unwrap();
                *per.entry("copy").or_insert(0) += 1;
                let over = rng.below(nregs);
                let got = match &regs[over] {
                    Some(o) if o.k == r.k && rng.chance(1, 2) => {
                        let mut v = o.v.clone();
                        guard(|| {
                            v.copy_from(&r.v);
                            Out::Ok(v.clone())
                        })
                    }
                    _ => guard(|| Out::Ok(r.v.clone())),
                };
                done = Some((format!("copy r{s}"), "C03", "ok", r.k, r.c.clone(), got));
            } else {
                let s = *rng.pick(&live);
                let (k, n) = (regs[s].as_ref().unwrap().k, regs[s].as_ref().unwrap().c.len());
                let l = match nexts.get(&(k.s(), n)) {
                    None => {
                        regs[s] = None;
                        continue;
                    }
                    Some(l) => l,
                };
                // read-only calls are rarer than the others
                let mut grp = &l[rng.below(l.len())];
                if READ_OPS.contains(&grp.0) {
                    grp = &l[rng.below(l.len())];
                }
                let t = *rng.pick(&grp.1);
                *per.entry(t.op.as_str()).or_insert(0) += 1;
                let a0 = t.a.first().cloned().unwrap_or(0);
                let a0 = if a0 < 0 {
                    // "far beyond the depth"
                    let far: Vec<usize> = HUGE.iter().cloned().filter(|x| *x > n + 1).collect();
                    *rng.pick(&far)
                } else {
                    a0 as usize
                };
                if t.op == "desc" && a0 > 70 && t.out == "ok" && rng.chance(3, 4) {
                    continue;
                }
                let m = match t.op.as_str() {
                    "desc" => a0,
                    "set" | "chd" => 1,
                    _ => 0,
                };
                let args: Vec<u8> = (0..m).map(|_| cell(&mut rng)).collect();
                let own = prop_of(&t.op);
                let c = regs[s].as_ref().unwrap().c.clone();
                let want = if t.op == "tg" { vec![] } else { subst(t, &c, &args) };
                match t.op.as_str() {
                    "set" => {
                        let r = regs[s].as_mut().unwrap();
                        let unchecked = t.out == "ok" && rng.chance(1, 3);
                        let got = if unchecked { r.v.set_unchecked(a0, args[0]) } else { r.v.set(a0, args[0]) };
                        log.push(format!("r{s}.set({a0},{}) -> {}", args[0], got.tag()));
                        if got.tag() != t.out {
                            ctx.fail(&["C02", "C03"], || format!("{} D{}: walk {}: outcome {:?}, expected {}", A::T, d, log.join("; "), got, t.out));
                            break 'walk;
                        }
                        if t.out == "ok" {
                            r.c = want;
                            r.snap = r.v.clone();
                            r.hash = r.v.hash64();
                            changed = Some(s);
                        }
                        done = None;
                    }
                    "get" => {
                        let got = regs[s].as_ref().unwrap().v.get(a0);
                        let ok = got.tag() == t.out && (t.out != "ok" || got == Out::Ok(want[0]));
                        log.push(format!("r{s}.get({a0})"));
                        if !ok {
                            ctx.fail(&["C01", "C02"], || format!("{} D{}: walk {}: {:?}, expected {} {:?}", A::T, d, log.join("; "), got, t.out, want));
                            break 'walk;
                        }
                        done = None;
                    }
                    "tg" => {
                        let v = &regs[s].as_ref().unwrap().v;
                        let got = guard(|| Out::Ok(v.to_grid(&t.s)));
                        let want = grid_of(&t.r, d, t.n, &c);
                        log.push(format!("r{s}.to_grid({})", t.s));
                        if got != Out::Ok(want) {
                            ctx.fail(&["C04"], || format!("{} D{}: walk {}: {:?}, expected {:?}", A::T, d, log.join("; "), got, want));
                            break 'walk;
                        }
                        done = None;
                    }
                    _ => {
                        let v = &regs[s].as_ref().unwrap().v;
                        let (got, kk, what) = match t.op.as_str() {
                            "anc" => (v.anc(a0), k, format!("r{s}.ancestor({a0})")),
                            "par" => (v.par(), k, format!("r{s}.parent()")),
                            "wd" => (v.wd(a0), k, format!("r{s}.with_depth({a0})")),
                            "desc" => (v.desc(&args), k, format!("r{s}.descendant({:?})", args)),
                            "chd" => (v.chd(args[0]), k, format!("r{s}.child({})", args[0])),
                            "inv" => (guard(|| Out::Ok(v.inv())), k, format!("r{s}.inverted()")),
                            _ => {
                                let k2 = K::parse(&t.k2);
                                (v.cnv(k2), k2, format!("r{s}.into({})", t.k2))
                            }
                        };
                        done = Some((what, own, &t.out, kk, want, got));
                    }
                }
            }
            if let Some((what, own, out, kk, want, got)) = done {
                let both = [own, "C02"];
                log.push(format!("r{dst} = {what} -> {}", got.tag()));
                if got.tag() != out {
                    ctx.fail(if own != "C11" && (own != "C06" || what.contains(".descendant") || what.contains(".child")) { &both } else { &both[..1] }, || format!("{} D{}: walk {}: {:?}, expected {}", A::T, d, log.join("; "), got.clone().map(|v| v.obs()), out));
                    break 'walk;
                }
                if let Out::Ok(v) = got {
                    if let Err(e) = observe(&v, kk, &want) {
                        ctx.fail(&[own], || format!("{} D{}: walk {}: {}", A::T, d, log.join("; "), e));
                        fam.identity(&mut rng, &v, kk, &|| format!("{} D{}: walk {}", A::T, d, log.join("; ")));
                        break 'walk;
                    }
                    changed = Some(dst);
                    let hash = v.hash64();
                    regs[dst] = Some(Reg { k: kk, c: want, snap: v.clone(), v, hash });
                }
            }
            // every register shows its abstract value; only the target changed
            for i in 0..nregs {
                if let Some(r) = &regs[i] {
                    let p: &[&str] = &["C03"];
                    if let Err(e) = observe(&r.v, r.k, &r.c) {
                        ctx.fail(p, || format!("{} D{}: walk {}: afterwards r{i} ({}): {}", A::T, d, log.join("; "), r.k.s(), e));
                        break 'walk;
                    }
                    if changed != Some(i) && (!r.v.same(&r.snap).0 || r.v.hash64() != r.hash) {
                        ctx.fail(&["C03"], || format!("{} D{}: walk {}: changed r{i}", A::T, d, log.join("; ")));
                        break 'walk;
                    }
                }
            }
            // the changed register against all others, and against a fresh index
            if let (Some(i), true) = (changed, ctx.wants("C08") || ctx.wants("C07")) {
                let a = regs[i].as_ref().unwrap();
                for j in 0..nregs {
                    if let Some(b) = regs[j].as_ref().filter(|b| b.k == a.k) {
                        let want = a.c == b.c;
                        let r = guard(|| Out::Ok((a.v.same(&b.v), b.v.same(&a.v), a.v.cmp(&b.v).0, a.v.hash64() == b.v.hash64())));
                        let good = match &r {
                            Out::Ok((s1, s2, o, h)) => {
                                s1.0 == want && s1.1 != want && s2.0 == want && s2.1 != want && (*o == std::cmp::Ordering::Equal) == want && (!want || *h)
                            }
                            _ => false,
                        };
                        if !good {
                            ctx.fail(&["C08"], || format!("{} D{}: walk {}: r{i} {:?} against r{j} {:?}: {:?}", A::T, d, log.join("; "), a.c, b.c, r));
                            break 'walk;
                        }
                    }
                }
                if rng.chance(1, 3) {
                    fam.identity(&mut rng, &a.v, a.k, &|| format!("{} D{}: walk {}", A::T, d, log.join("; ")));
                }
            }
            if ctx.enough() {
                return;
            }
        }
        prog.at(slot, format!("walk {wk} of {}D<{}> done: {}", A::DIM, A::T, log.join("; ")));
    }
    let _ = parts;
    let mut first = true;
    for (op, n) in per {
        ctx.count(&format!("walk:{op}"), 0, n);
        first = false;
    }
    let _ = (first, nsteps);
    ctx.count("walk", walks as u64, 0);
}
