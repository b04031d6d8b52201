//! Histories and clusters of calls in guarded memory (heap.rs), with what is
//! freshly allocated filled in different ways.  HeapTrace.tla compares their
//! outcomes and judges their allocations.
use crate::fam::{self, d2, d3};
use crate::heap;
use crate::util::*;
use crate::{brec, drill, rec};
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

const PLANS: [&str; 9] = ["C03", "C04", "C05", "C06", "C08", "C09", "C10", "C17", "mix"];

fn script(ctx: &Ctx, prog: &Progress, slot: usize, f: usize, part: usize, events: usize) -> Vec<String> {
    let plan = PLANS[(f + part) % PLANS.len()];
    if f < 12 {
        family_call!(f, rec::script, ctx, prog, slot, part, f, events, plan, false)
    } else {
        brec::script(ctx, prog, slot, f - 12, part, events, ["C12", "C13", "C14", "C15"][part % 4]).2
    }
}
fn calls(seed: u64, i: usize) -> Vec<String> {
    drill::nth(seed, i).calls.iter().map(|v| { let mut f = (v.prepare)(); let a = f(); a + &f() }).collect()
}

fn record(ctx: &Ctx, path: String, title: &str, f: impl Fn() -> Vec<String> + Sync) {
    // a thread of its own: what the runtime allocates once per thread is no leak
    let (runs, heap) = std::thread::scope(|s| {
        let h = s.spawn(|| {
            let plain = f();
            heap::on(|| f());
            let mut runs = vec![plain];
            let mut ev = vec![];
            for p in [0xA5u8, 0xFF, 0x01] {
                let (r, l) = heap::logged(p, || match fam::shield(|| fam::Out::Ok(f())) {
                    fam::Out::Ok(r) => r,
                    x => vec![format!("history {}", x.tag())],
                });
                assert!(!l.lost, "log of allocations too short");
                runs.push(r);
                ev.extend(l.ev.iter().map(|e| format!("[{},{},{}]", e.id, e.size, e.align)));
                ev.push("[0,0,0]".into());
            }
            (runs, ev)
        });
        h.join().unwrap_or_else(|_| (vec![vec!["the thread died".into()], vec![]], vec![]))
    });
    ctx.count(title.split(' ').next().unwrap(), 1, runs.iter().map(|r| r.len() as u64).sum());
    ctx.count("allocations and releases", 0, heap.len() as u64);
    let esc = |s: &String| format!("\"{}\"", s.replace('\\', "/").replace('"', "'").replace('\n', " ").replace('\t', " "));
    let rs: Vec<String> = runs.iter().map(|r| format!("[{}]", r.iter().map(esc).collect::<Vec<_>>().join(","))).collect();
    let line = format!("{{\"t\":\"{title}\",\"runs\":[{}],\"heap\":[{}]}}\n", rs.join(","), heap.join(","));
    std::fs::File::create(path).unwrap().write_all(line.as_bytes()).unwrap();
}

pub fn run(ctx: &Ctx, prog: &Progress, out: &str, parts: usize, events: usize, clusters: usize, threads: usize) {
    heap::start();
    let n = 19 * parts + clusters;
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for t in 0..threads {
            let next = &next;
            s.spawn(move || loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= n {
                    return prog.done(t);
                }
                if i < 19 * parts {
                    let (f, p) = (i % 19, i / 19);
                    prog.at(t, format!("history {f}.{p} in guarded memory"));
                    record(ctx, format!("{out}/script-{f}-{p}.json"), &format!("history {f}.{p}"), || script(ctx, prog, t, f, p, events));
                } else {
                    let j = i - 19 * parts;
                    let name = drill::nth(ctx.seed, j).name;
                    prog.at(t, format!("cluster {j} in guarded memory: {name}"));
                    record(ctx, format!("{out}/calls-{j}.json"), &format!("calls {j} {name}"), || calls(ctx.seed, j));
                }
            });
        }
    });
}
