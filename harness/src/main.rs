// one call per index family
macro_rules! family_call {
    ($f:expr, $m:ident :: $fun:ident, $($a:expr),*) => {
        match $f {
            0 => $m::$fun::<d2::Any<u8>>($($a),*),
            1 => $m::$fun::<d2::Any<u16>>($($a),*),
            2 => $m::$fun::<d2::Any<u32>>($($a),*),
            3 => $m::$fun::<d2::Any<u64>>($($a),*),
            4 => $m::$fun::<d2::Any<u128>>($($a),*),
            5 => $m::$fun::<d2::Any<usize>>($($a),*),
            6 => $m::$fun::<d3::Any<u8>>($($a),*),
            7 => $m::$fun::<d3::Any<u16>>($($a),*),
            8 => $m::$fun::<d3::Any<u32>>($($a),*),
            9 => $m::$fun::<d3::Any<u64>>($($a),*),
            10 => $m::$fun::<d3::Any<u128>>($($a),*),
            #[cfg(feature = "own")]
            12 => $m::$fun::<d2::Any<crate::own::Own<5>>>($($a),*),
            #[cfg(feature = "own")]
            13 => $m::$fun::<d3::Any<crate::own::Own<5>>>($($a),*),
            #[cfg(feature = "own")]
            14 => $m::$fun::<d2::Any<crate::own::Own<3>>>($($a),*),
            #[cfg(feature = "own")]
            15 => $m::$fun::<d3::Any<crate::own::Own<3>>>($($a),*),
            #[cfg(feature = "own")]
            16 => $m::$fun::<d2::Any<crate::own::Own<12>>>($($a),*),
            #[cfg(feature = "own")]
            17 => $m::$fun::<d3::Any<crate::own::Own<12>>>($($a),*),
            _ => $m::$fun::<d3::Any<usize>>($($a),*),
        }
    };
}

mod bits;
mod indep;
mod brec;
mod drill;
mod fam;
mod heap;
mod memory;
#[cfg(feature = "own")]
mod own;
mod rec;
mod tmpl;
mod util;
mod walk;

use fam::{d2, d3};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};
use std::sync::Arc;
use util::*;

/// Families 12.. are those of a caller's own words.
const OWN: usize = if cfg!(feature = "own") { 6 } else { 0 };
const BITS: usize = 99;
#[global_allocator]
static MEMORY: heap::Guarded = heap::Guarded;

fn report(ctx: &Ctx, extra: &str) {
    let out = std::io::stdout();
    let mut out = out.lock();
    for f in ctx.fails.lock().unwrap().iter() {
        let _ = writeln!(out, "FAIL\t{}", f.replace('\n', " "));
    }
    let per: Vec<String> =
        ctx.per_op.lock().unwrap().iter().map(|(k, v)| format!("\"{}\":[{},{}]", k, v.0, v.1)).collect();
    let _ = writeln!(
        out,
        "STAT\t{{\"templates\":{},\"cases\":{},\"failures\":{},\"per_op\":{{{}}}{}}}",
        ctx.templates.load(Relaxed),
        ctx.cases.load(Relaxed),
        ctx.nfails.load(Relaxed),
        per.join(","),
        extra
    );
    let _ = out.flush();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut opt: HashMap<String, String> = HashMap::new();
    let mut i = 2;
    while i + 1 < args.len() {
        opt.insert(args[i].trim_start_matches("--").to_string(), args[i + 1].clone());
        i += 2;
    }
    let get = |k: &str, d: &str| opt.get(k).cloned().unwrap_or_else(|| d.to_string());
    let num = |k: &str, d: usize| opt.get(k).map(|v| v.parse().expect("number")).unwrap_or(d);
    let mode = args.get(1).cloned().unwrap_or_default();
    let seed = num("seed", 1) as u64;
    let ctx = Arc::new(Ctx::new(&get("prop", "all"), seed, num("rounds", 3)));
    let threads = num("threads", 8);
    let hang = num("hang", 90);
    if get("verbose", "") == "" {
        std::panic::set_hook(Box::new(|_| {}));
    }

    if mode == "cold" {
        drill::cold(seed, num("cluster", 0), threads, get("prepared", "no") == "yes");
        return;
    }

    // templates
    let mut tpls: Vec<Tpl> = vec![];
    for path in get("templates", "").split(',').filter(|p| !p.is_empty()) {
        let f = std::io::BufReader::new(std::fs::File::open(path).expect("templates"));
        for l in f.lines() {
            let l = l.unwrap();
            if let Some(t) = parse_tpl(&l, 0) {
                tpls.push(t);
            }
        }
    }
    // TLC prints in no fixed order: number them by content
    tpls.sort_by(|a, b| a.key().cmp(&b.key()));
    tpls.dedup_by(|a, b| a.key() == b.key());
    for (i, t) in tpls.iter_mut().enumerate() {
        t.id = i;
    }
    let tpls = Arc::new(tpls);

    // tasks: (family or bits, part)
    let parts = num("parts", 3);
    let mut tasks: Vec<(usize, usize)> = vec![];
    for p in 0..parts {
        // wide words first, they take longest
        tasks.extend((0..OWN.min(num("own", OWN))).map(|f| (12 + f, p)));
        for f in [10, 4, 11, 9, 5, 3, 8, 2, 7, 1, 6, 0] {
            tasks.push((f, p));
        }
    }
    let bit_tpls: Vec<Tpl> = tpls.iter().filter(|t| bits::is_bit_op(&t.op)).cloned().collect();
    let idx_tpls: Vec<Tpl> = tpls.iter().filter(|t| !bits::is_bit_op(&t.op)).cloned().collect();
    if mode == "replay" {
        if idx_tpls.is_empty() {
            tasks.clear();
        }
        if !bit_tpls.is_empty() {
            for p in 0..(4 * parts) {
                tasks.push((BITS, p));
            }
        }
    }
    let bit_tpls = Arc::new(bit_tpls);
    let idx_tpls = Arc::new(idx_tpls);
    let prog = Arc::new(Progress::new(threads, opt.get("progress").map(|s| s.as_str())));
    let next = Arc::new(AtomicUsize::new(0));
    let finished = Arc::new(AtomicBool::new(false));
    let only = opt.get("family").map(|v| v.parse::<usize>().unwrap());
    let tasks = Arc::new(tasks.into_iter().filter(|t| only.map_or(true, |f| f == t.0)).collect::<Vec<_>>());

    // a call that never returns is a failure, not a tool error
    {
        let (prog, ctx, finished) = (prog.clone(), ctx.clone(), finished.clone());
        std::thread::spawn(move || {
            let mut last: Vec<(u64, usize)> = vec![(0, 0); prog.beats.len()];
            loop {
                std::thread::sleep(std::time::Duration::from_secs(1));
                if finished.load(Relaxed) {
                    return;
                }
                for s in 0..last.len() {
                    let b = prog.beats[s].load(Relaxed);
                    if prog.slots[s].load(Relaxed) == 1 && b == last[s].0 {
                        last[s].1 += 1;
                        if last[s].1 >= hang {
                            let what = prog.notes[s].lock().unwrap().clone();
                            ctx.nfails.fetch_add(1, Relaxed);
                            ctx.fails.lock().unwrap().push(format!("{}\tno answer after {hang} s: {what}", ctx.prop));
                            report(&ctx, "");
                            std::process::exit(0);
                        }
                    } else {
                        last[s] = (b, 0);
                    }
                }
            }
        });
    }

    let outdir = get("out", "");
    if mode == "indep" {
        let ok = indep::send_sync(&ctx);
        if ok {
            indep::run(&ctx, &prog, &outdir, parts, num("events", 60), threads);
            indep::drills(&ctx, &prog, &outdir, num("clusters", 600), threads, num("reps", 20), num("cold", 160), num("calls", 66_600));
        }
        finished.store(true, Relaxed);
        report(&ctx, "");
        return;
    }
    if mode == "memory" {
        memory::run(&ctx, &prog, &outdir, parts, num("events", 60), num("clusters", 400), threads);
        finished.store(true, Relaxed);
        report(&ctx, "");
        return;
    }
    // replay in guarded memory
    let guarded = get("guarded", "no") == "yes";
    if guarded {
        heap::start();
    }
    let mut hs = vec![];
    for slot in 0..threads {
        let (ctx, prog, next, tasks, bit_tpls, idx_tpls) =
            (ctx.clone(), prog.clone(), next.clone(), tasks.clone(), bit_tpls.clone(), idx_tpls.clone());
        let (mode, outdir) = (mode.clone(), outdir.clone());
        let (walks, steps, events) = (num("walks", 100), num("steps", 40), num("events", 60));
        let plan = get("plan", "mix");
        hs.push(std::thread::Builder::new().stack_size(16 << 20).spawn(move || loop {
            if guarded {
                heap::guard_this_thread();
            }
            let i = next.fetch_add(1, Relaxed);
            if i >= tasks.len() || ctx.enough() {
                prog.done(slot);
                return;
            }
            let (f, p) = tasks[i];
            let r = fam::shield(|| fam::Out::Ok(match mode.as_str() {
                "replay" if f == BITS => bits::run_bits(&ctx, &prog, slot, p, 4 * parts, &bit_tpls),
                "replay" => family_call!(f, tmpl::run_family, &ctx, &prog, slot, p, parts, &idx_tpls),
                "walk" => family_call!(f, walk::run_walks, &ctx, &prog, slot, p, parts, &idx_tpls, walks, steps),
                "brecord" => brec::record(&ctx, &prog, slot, f, p, &outdir, events, &plan),
                "record" => family_call!(f, rec::record, &ctx, &prog, slot, p, &outdir, f, events, &plan),
                m => panic!("unknown mode {m}"),
            }));
            if let fam::Out::Panic(m) = r {
                let at = prog.notes[slot].lock().unwrap().clone();
                ctx.fail(&[&ctx.prop], || format!("unexpected panic: {m}; {at}"));
            }
        }).unwrap());
    }
    let mut bad = false;
    for h in hs {
        bad |= h.join().is_err();
    }
    finished.store(true, Relaxed);
    if guarded {
        ctx.count("guarded allocations", 0, heap::GUARDED.load(Relaxed));
        if heap::wrong() > 0 {
            ctx.fail(&["C19"], || format!("memory written outside of what was allocated, or released wrongly, {} times", heap::wrong()));
        }
    }
    report(&ctx, "");
    if bad {
        eprintln!("a harness thread panicked");
        std::process::exit(3);
    }
}
