//! Executes scripts of calls several times - alone, among unrelated calls, in
//! many threads at once - and records every execution for IndepTrace.tla.
use crate::fam::{self, d2, d3};
use crate::util::*;
use crate::{brec, rec};
use morton_index::dimensions::*;
use morton_index::*;
use std::io::Write;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Barrier, Mutex};

const PLANS: [&str; 8] = ["C03", "C04", "C05", "C06", "C08", "C10", "C17", "mix"];

/// families 0..12 are indices, the others words and byte vectors
const SCRIPTS: usize = 12 + 7;

fn one(ctx: &Ctx, prog: &Progress, slot: usize, f: usize, part: usize, events: usize, storm: bool) -> Vec<String> {
    let plan = PLANS[(f + part) % PLANS.len()];
    if f < 12 {
        family_call!(f, rec::script, ctx, prog, slot, part, f, events, plan, storm)
    } else {
        brec::script(ctx, prog, slot, f - 12, part, events, ["C12", "C13", "C14", "C15"][part % 4]).2
    }
}

/// Unrelated calls: the start of some script, often of the same one.
fn noise_for(ctx: &Arc<Ctx>, prog: &Arc<Progress>, slot: usize, f: usize, part: usize, parts: usize, salt: u64) -> Box<dyn FnMut()> {
    let (ctx, prog) = (ctx.clone(), prog.clone());
    let mut rng = Rng::new(seed_of(&[ctx.seed, 5, f as u64, part as u64, salt]));
    Box::new(move || {
        if rng.chance(1, 3) {
            return;
        }
        let g = if rng.chance(1, 2) { f } else { rng.below(SCRIPTS) };
        let p = if rng.chance(1, 2) { part } else { rng.below(parts) };
        let n = 3 + rng.below(10);
        one(&ctx, &prog, slot, g, p, n, false);
    })
}

// whether a type may move to, and be shared with, other threads
#[allow(dead_code)]
trait No {
    const YES: bool = false;
}
impl<T: ?Sized> No for T {}
struct Both<T: ?Sized>(PhantomData<T>);
impl<T: ?Sized + Send + Sync> Both<T> {
    const YES: bool = true;
}
macro_rules! both {
    ($l:ident, $($t:ty),* $(,)?) => { $( $l.push((stringify!($t), <Both<$t>>::YES)); )* };
}
macro_rules! both_words {
    ($l:ident, $($w:ty),*) => { $( both!($l,
        MortonIndex2D<FixedDepthStorage2D<$w>>, MortonIndex2D<StaticStorage2D<$w>>,
        MortonIndex3D<FixedDepthStorage3D<$w>>, MortonIndex3D<StaticStorage3D<$w>>); )* };
}
fn thread_safe() -> Vec<(&'static str, bool)> {
    let mut l = vec![];
    both_words!(l, u8, u16, u32, u64, u128, usize);
    both!(l, DynamicMortonIndex2D, DynamicMortonIndex3D, Quadrant, Octant, QuadrantOrdering, OctantOrdering, Error);
    l
}

/// whether every public type may be used by several threads: if not, nothing
/// else can be tried
pub fn send_sync(ctx: &Ctx) -> bool {
    let l = thread_safe();
    for (t, yes) in &l {
        if !yes {
            ctx.fail(&["C18"], || format!("{t} cannot be sent to and shared between threads"));
        }
    }
    l.iter().all(|x| x.1)
}

fn log(path: String, title: &str, runs: &[Vec<String>]) {
    let esc = |s: &String| format!("\"{}\"", s.replace('\\', "/").replace('"', "'").replace('\n', " ").replace('\t', " "));
    let rs: Vec<String> = runs.iter().map(|r| format!("[{}]", r.iter().map(esc).collect::<Vec<_>>().join(","))).collect();
    let line = format!("{{\"t\":\"{title}\",\"runs\":[{}]}}\n", rs.join(","));
    let mut o = std::fs::File::create(path).unwrap();
    o.write_all(line.as_bytes()).unwrap();
}

/// Clusters of similar calls, in this process and first thing in others.
pub fn drills(ctx: &Arc<Ctx>, prog: &Arc<Progress>, out: &str, clusters: usize, threads: usize, reps: usize, cold: usize, calls: usize) {
    for (i, (name, runs)) in crate::drill::endurance(ctx, prog, threads, calls).iter().enumerate() {
        log(format!("{out}/endurance-{i}.json"), name, runs);
    }
    let mut l = crate::drill::run(ctx, prog, clusters, threads, reps);
    let me = std::env::current_exe().unwrap();
    for i in 0..clusters.min(cold) {
        for j in 0..6 {
            prog.at(0, format!("cold start with cluster {i}: {}", l[i].0));
            let r = std::process::Command::new(&me)
                .args(["cold", "--seed", &ctx.seed.to_string(), "--cluster", &i.to_string(), "--threads", &threads.to_string()])
                .args(["--prepared", if j % 2 == 0 { "yes" } else { "no" }])
                .stdin(std::process::Stdio::null())
                .output();
            let text = match &r {
                Ok(o) => String::from_utf8_lossy(&o.stdout).into_owned(),
                Err(_) => String::new(),
            };
            let mut rows: Vec<Vec<String>> =
                text.lines().filter_map(|x| x.strip_prefix("ROW\t")).map(|x| x.split('\t').map(|s| s.to_string()).collect()).collect();
            while rows.len() < threads {
                rows.push(vec!["died".into()]);
            }
            ctx.count("cold", 1, (rows.len() * rows[0].len()) as u64);
            rows.sort();
            rows.dedup();
            for r in rows {
                if !l[i].1.contains(&r) || j == 0 {
                    l[i].1.push(r);
                }
            }
        }
    }
    prog.done(0);
    for (i, (name, runs)) in l.iter().enumerate() {
        log(format!("{out}/drill-{i}.json"), &format!("cluster {i} {name}"), runs);
    }
}

pub fn run(ctx: &Arc<Ctx>, prog: &Arc<Progress>, out: &str, parts: usize, events: usize, threads: usize) {
    let all: Vec<(usize, usize)> = (0..SCRIPTS).flat_map(|f| (0..parts).map(move |p| (f, p))).collect();
    let runs: Arc<Mutex<Vec<Vec<Vec<String>>>>> = Arc::new(Mutex::new(vec![vec![]; all.len()]));
    // alone on a fresh thread, then once more there among unrelated calls
    for (i, (f, p)) in all.iter().cloned().enumerate() {
        let (c, g, r) = (ctx.clone(), prog.clone(), runs.clone());
        let h = std::thread::spawn(move || {
            let a = one(&c, &g, 0, f, p, events, false);
            set_noise(Some(noise_for(&c, &g, 0, f, p, parts, 1)));
            let b = one(&c, &g, 0, f, p, events, false);
            set_noise(None);
            c.count("script", 1, (a.len() + b.len()) as u64);
            let mut r = r.lock().unwrap();
            r[i].push(a);
            r[i].push(b);
        });
        if h.join().is_err() {
            runs.lock().unwrap()[i].push(vec!["the thread died".into()]);
        }
    }
    prog.done(0);
    // everything at once, every script on two threads
    let jobs: Vec<usize> = (0..all.len()).flat_map(|i| [i, i]).collect();
    let next = Arc::new(AtomicUsize::new(0));
    let gate = Arc::new(Barrier::new(threads));
    let (jobs, all) = (Arc::new(jobs), Arc::new(all));
    let hs: Vec<_> = (0..threads)
        .map(|slot| {
            let (c, g, r, next, gate, jobs, all) = (ctx.clone(), prog.clone(), runs.clone(), next.clone(), gate.clone(), jobs.clone(), all.clone());
            std::thread::spawn(move || {
                gate.wait();
                loop {
                    let j = next.fetch_add(1, Relaxed);
                    if j >= jobs.len() {
                        g.done(slot);
                        return;
                    }
                    let i = jobs[j];
                    let (f, p) = all[i];
                    if j % 4 == 3 {
                        set_noise(Some(noise_for(&c, &g, slot, f, p, parts, 2)));
                    }
                    let a = match fam::guard(|| fam::Out::Ok(one(&c, &g, slot, f, p, events, true))) {
                        fam::Out::Ok(a) => a,
                        x => vec![format!("script {}", x.tag())],
                    };
                    set_noise(None);
                    c.count("storm", 1, a.len() as u64);
                    r.lock().unwrap()[i].push(a);
                }
            })
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    let runs = runs.lock().unwrap();
    for (i, (f, p)) in all.iter().enumerate() {
        log(format!("{out}/script-{f}-{p}.json"), &format!("script {f}.{p}"), &runs[i]);
    }
}
