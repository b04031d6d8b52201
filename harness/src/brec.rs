//! Records histories of the bit-level leaves for BitTrace.tla: one storage
//! word that is read, written and replaced, with spreading, aligning and cell
//! calls in between.  The recorder chooses calls at random and logs what it
//! observes; it has no expectations.
use crate::bits::{bits_of, bits_of_vec, vec_of, word_of};
use crate::fam::*;
use crate::util::*;
use morton_index::align::Alignable;
use morton_index::dimensions::*;
use morton_index::number::*;
use std::cmp::Ordering;
use std::convert::TryFrom;
use std::io::Write;

fn jb(b: &[u8]) -> String {
    let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
    format!("[{}]", v.join(","))
}
fn os(o: Ordering) -> &'static str {
    match o {
        Ordering::Less => "lt",
        Ordering::Greater => "gt",
        Ordering::Equal => "eq",
    }
}
fn rnd_bits(rng: &mut Rng, n: usize) -> Vec<u8> {
    match rng.below(5) {
        0 => vec![1; n],
        1 => {
            let mut v = vec![0; n];
            if n > 0 {
                let i = rng.below(n);
                v[i] = 1;
            }
            v
        }
        2 => {
            let k = rng.below(n + 1);
            (0..n).map(|i| if i < k { (rng.next() & 1) as u8 } else { 0 }).collect()
        }
        _ => (0..n).map(|_| (rng.next() & 1) as u8).collect(),
    }
}

/// Calls on the stored word.
fn word_event<T: Bits + Clone>(rng: &mut Rng, x: &mut T, w: usize, tb: fn(&T) -> Vec<u8>, fb: fn(&[u8]) -> T, fresh: bool) -> Option<String> {
    let len = tb(x).len();
    let op = if fresh { "init" } else { *rng.pick(&["get", "get", "set", "set", "set", "getu", "setu", "setu", "as", "from", "slice", "view", "init"]) };
    let edge = |rng: &mut Rng| -> usize {
        if rng.chance(1, 2) {
            8 * rng.below(len / 8 + 1)
        } else {
            rng.below(len + 1)
        }
    };
    let range = |rng: &mut Rng, max: usize| -> Option<(usize, usize)> {
        let (a, b) = (edge(rng), edge(rng));
        let (s, e) = (a.min(b), a.max(b));
        if s == e || e - s > max {
            None
        } else {
            Some((s, e))
        }
    };
    let pow = [8, 16, 32, 64, 128];
    let mut ret: Out<Vec<u8>> = Out::Ok(vec![]);
    let args = match op {
        "init" => {
            let n = if w > 0 { w } else { 8 * (1 + rng.below(12)) };
            let v = rnd_bits(rng, n);
            *x = fb(&v);
            format!(",\"v\":{}", jb(&v))
        }
        "get" => {
            let (s, e) = range(rng, len)?;
            ret = guard(|| Out::Ok(tb(&unsafe { x.get_bits(s..e) })));
            format!(",\"s\":{s},\"e\":{e}")
        }
        "getu" => {
            let (s, e) = range(rng, 64)?;
            ret = guard(|| Out::Ok(bits_of(unsafe { x.get_bits_as_usize(s..e) } as u128, 64)));
            format!(",\"s\":{s},\"e\":{e}")
        }
        "set" => {
            let (s, e) = range(rng, len)?;
            let v = rnd_bits(rng, e - s);
            let mut p = v.clone();
            p.resize(if w > 0 { w } else { (v.len() + 7) / 8 * 8 + 8 * rng.below(2) }, 0);
            let nv = fb(&p);
            ret = guard(|| {
                unsafe { x.set_bits(s..e, nv) };
                Out::Ok(vec![])
            });
            format!(",\"s\":{s},\"e\":{e},\"v\":{}", jb(&v))
        }
        "setu" => {
            let (s, e) = range(rng, 64)?;
            let v = rnd_bits(rng, e - s);
            ret = guard(|| {
                unsafe { x.set_bits_from_usize(s..e, word_of(&v) as usize) };
                Out::Ok(vec![])
            });
            format!(",\"s\":{s},\"e\":{e},\"v\":{}", jb(&v))
        }
        "as" => {
            // a vector converts to the word of its own size (or its first byte)
            let u = if w > 0 { *rng.pick(&pow) } else if pow.contains(&len) && rng.chance(1, 2) { len } else { 8 };
            let how = rng.below(2);
            let y = x.clone();
            ret = guard(|| {
                Out::Ok(bits_of(
                    unsafe {
                        match (u, how) {
                            (8, _) => y.as_u8() as u128,
                            (16, _) => y.as_u16() as u128,
                            (32, _) => y.as_u32() as u128,
                            (64, 0) => y.as_u64() as u128,
                            (64, _) => y.as_usize() as u128,
                            _ => y.as_u128(),
                        }
                    },
                    u,
                ))
            });
            format!(",\"u\":{u}")
        }
        "from" => {
            let u = *rng.pick(&pow);
            let b = rnd_bits(rng, u);
            let v = word_of(&b);
            let how = rng.below(2);
            let r = guard(|| {
                Out::Ok(unsafe {
                    match (u, how) {
                        (8, _) => T::from_u8(v as u8),
                        (16, _) => T::from_u16(v as u16),
                        (32, _) => T::from_u32(v as u32),
                        (64, 0) => T::from_u64(v as u64),
                        (64, _) => T::from_usize(v as usize),
                        _ => T::from_u128(v),
                    }
                })
            });
            ret = match r {
                Out::Ok(y) => {
                    *x = y;
                    Out::Ok(vec![])
                }
                o => o.map(|_| vec![]),
            };
            format!(",\"u\":{u},\"v\":{}", jb(&b))
        }
        "slice" => {
            let n = if w > 0 { rng.below(w / 8 + 3) } else { 1 + rng.below(12) };
            let be = rng.chance(1, 2);
            let b = rnd_bits(rng, 8 * n);
            let bytes = vec_of(&b);
            let r = guard(|| Out::Ok(unsafe { T::from_u8_slice(&bytes, if be { Endianness::BigEndian } else { Endianness::LittleEndian }) }));
            ret = match r {
                Out::Ok(y) => {
                    *x = y;
                    Out::Ok(vec![])
                }
                o => o.map(|_| vec![]),
            };
            format!(",\"be\":{be},\"v\":{}", jb(&b))
        }
        _ => {
            let m = rng.chance(1, 2);
            ret = guard(|| {
                Out::Ok(if m {
                    bits_of_vec(unsafe { x.as_u8_slice_mut() })
                } else {
                    bits_of_vec(unsafe { x.as_u8_slice() })
                })
            });
            String::new()
        }
    };
    let out = ret.tag();
    Some(format!("{{\"op\":\"{op}\"{args},\"out\":\"{out}\",\"r\":{},\"x\":{}}}", jb(&ret.ok().unwrap_or_default()), jb(&tb(x))))
}

fn spread_event(rng: &mut Rng) -> String {
    let f = *rng.pick(&["before8", "behind8", "before16", "two8", "two32"]);
    let (n, m) = match f {
        "before16" => (16, 16),
        "two8" => (8, 32),
        "two32" => (32, 64),
        _ => (8, 8),
    };
    let v = rnd_bits(rng, n);
    let x = word_of(&v) as u64;
    let r = guard(|| {
        Out::Ok(match f {
            "before8" => add_zero_before_every_bit_u8(x as u8) as u64,
            "behind8" => add_zero_behind_every_bit_u8(x as u8) as u64,
            "before16" => add_zero_before_every_bit_u16(x as u16) as u64,
            "two8" => add_two_zeroes_before_every_bit_u8(x as u8) as u64,
            _ => add_two_zeroes_before_every_bit_u32(x as u32),
        })
    });
    let out = r.tag();
    format!("{{\"op\":\"spread\",\"f\":\"{f}\",\"v\":{},\"out\":\"{out}\",\"r\":{}}}", jb(&v), jb(&bits_of(r.ok().unwrap_or(0) as u128, m)))
}

fn align_event(rng: &mut Rng) -> String {
    let ty = rng.below(6);
    let w = [8, 16, 32, 64, 128, 64][ty];
    let n = if rng.chance(1, 3) { w } else { rng.below(w + 1) };
    let v = rnd_bits(rng, n);
    let a = match rng.below(8) {
        0 => vec![],
        1 => {
            // a power of two
            let mut a = vec![0; rng.below(w)];
            a.push(1);
            a
        }
        2 => v.clone(),
        3 => rnd_bits(rng, w),
        _ => {
            let m = if rng.chance(1, 2) { w } else { 8 };
            let n = 1 + rng.below(m);
            rnd_bits(rng, n)
        }
    };
    let (x, y) = (word_of(&v), word_of(&a));
    let r = guard(|| {
        Out::Ok(match ty {
            0 => (x as u8).align_to(y as u8) as u128,
            1 => (x as u16).align_to(y as u16) as u128,
            2 => (x as u32).align_to(y as u32) as u128,
            3 => (x as u64).align_to(y as u64) as u128,
            4 => x.align_to(y),
            _ => (x as usize).align_to(y as usize) as u128,
        })
    });
    let out = r.tag();
    format!("{{\"op\":\"align\",\"w\":{w},\"v\":{},\"a\":{},\"out\":\"{out}\",\"r\":{}}}", jb(&v), jb(&a), jb(&bits_of(r.ok().unwrap_or(0), w)))
}

fn cell_event(rng: &mut Rng) -> String {
    let d = 2 + rng.below(2);
    let ord = *rng.pick(orderings(d));
    match rng.below(6) {
        0 | 1 => {
            let n = if rng.chance(1, 2) { rng.below(5) } else { rng.below(65) };
            let mut v = rnd_bits(rng, n);
            if rng.chance(1, 4) {
                // small number plus one high bit
                v.truncate(d);
                v.resize(rng.below(63).max(v.len()), 0);
                v.push(1);
                v.truncate(64);
            }
            let x = word_of(&v) as usize;
            let r = guard(|| {
                if d == 2 {
                    match Quadrant::try_from(x) {
                        Ok(c) => Out::Ok(vec![qn(c) as usize, c.index(), c.into(), (&c).into()]),
                        Err(morton_index::Error::CellIndexOutOfRange) => Out::Err(0),
                        Err(_) => Out::ErrOther,
                    }
                } else {
                    match Octant::try_from(x) {
                        Ok(c) => Out::Ok(vec![on(c) as usize, c.index(), c.into(), (&c).into()]),
                        Err(morton_index::Error::CellIndexOutOfRange) => Out::Err(0),
                        Err(_) => Out::ErrOther,
                    }
                }
            });
            let out = r.tag();
            let trim = |x: usize| jb(&bits_of(x as u128, 64 - x.leading_zeros() as usize));
            let l: Vec<String> = r.ok().unwrap_or_default().into_iter().map(trim).collect();
            format!("{{\"op\":\"cell\",\"d\":{d},\"v\":{},\"out\":\"{out}\",\"r\":[{}]}}", jb(&v), l.join(","))
        }
        2 | 3 => {
            let c = rng.below(1 << d) as u8;
            let r = guard(|| {
                Out::Ok(if d == 2 {
                    qord(ord).to_index(q(c)).iter().map(|x| *x as u8).collect::<Vec<_>>()
                } else {
                    oord(ord).to_index(o(c)).iter().map(|x| *x as u8).collect::<Vec<_>>()
                })
            });
            let out = r.tag();
            format!("{{\"op\":\"corner\",\"d\":{d},\"o\":\"{ord}\",\"c\":{c},\"out\":\"{out}\",\"r\":{}}}", jb(&r.ok().unwrap_or_default()))
        }
        4 => {
            let ord = *rng.pick(orderings(3));
            let r = guard(|| {
                let (x, y, z) = oord(ord).get_bit_shifts_for_xyz();
                Out::Ok(vec![x as u8, y as u8, z as u8])
            });
            let out = r.tag();
            format!("{{\"op\":\"shifts\",\"d\":3,\"o\":\"{ord}\",\"out\":\"{out}\",\"r\":{}}}", jb(&r.ok().unwrap_or_default()))
        }
        _ => {
            let (a, b) = (rng.below(1 << d) as u8, rng.below(1 << d) as u8);
            let r = guard(|| {
                Out::Ok(if d == 2 {
                    (q(a).cmp(&q(b)), q(a).partial_cmp(&q(b)), q(a) == q(b))
                } else {
                    (o(a).cmp(&o(b)), o(a).partial_cmp(&o(b)), o(a) == o(b))
                })
            });
            let out = r.tag();
            let (c, p, e) = r.ok().unwrap_or((Ordering::Equal, None, false));
            format!("{{\"op\":\"ccmp\",\"d\":{d},\"a\":{a},\"b\":{b},\"out\":\"{out}\",\"o\":\"{}\",\"p\":\"{}\",\"eq\":{e}}}", os(c), p.map(os).unwrap_or("-"))
        }
    }
}

fn history<T: Bits + Clone>(ctx: &Ctx, prog: &Progress, slot: usize, rng: &mut Rng, events: usize, plan: &str, mut x: T, w: usize, tb: fn(&T) -> Vec<u8>, fb: fn(&[u8]) -> T) -> Vec<String> {
    let mut ev: Vec<String> = vec![];
    while ev.len() < events {
        crate::util::noise();
        let own = rng.chance(2, 3);
        let kind = match plan {
            "C12" if own => 0,
            "C13" if own => 1,
            "C14" if own => 2,
            "C15" if own => 3,
            _ => rng.below(4),
        };
        let fresh = !ev.iter().any(|e| e.starts_with("{\"op\":\"init\""));
        match kind {
            0 => ev.extend(word_event(rng, &mut x, w, tb, fb, fresh)),
            1 => ev.push(spread_event(rng)),
            2 => ev.push(align_event(rng)),
            _ => ev.push(cell_event(rng)),
        }
        prog.at(slot, format!("recording bit history, event {}", ev.len()));
    }
    let _ = ctx;
    ev
}

fn wb<B: Word>(x: &B) -> Vec<u8> {
    bits_of(x.to(), B::N)
}
fn bw<B: Word>(b: &[u8]) -> B {
    B::of(word_of(b))
}
fn vb(x: &Vec<u8>) -> Vec<u8> {
    bits_of_vec(x)
}
fn bv(b: &[u8]) -> Vec<u8> {
    vec_of(b)
}

pub fn script(ctx: &Ctx, prog: &Progress, slot: usize, f: usize, part: usize, events: usize, plan: &str) -> (&'static str, usize, Vec<String>) {
    let mut rng = Rng::new(seed_of(&[ctx.seed, 443, f as u64, part as u64]));
    let r = &mut rng;
    let (t, w, ev) = match f % 7 {
        0 => ("u8", 8, history(ctx, prog, slot, r, events, plan, 0u8, 8, wb::<u8>, bw::<u8>)),
        1 => ("u16", 16, history(ctx, prog, slot, r, events, plan, 0u16, 16, wb::<u16>, bw::<u16>)),
        2 => ("u32", 32, history(ctx, prog, slot, r, events, plan, 0u32, 32, wb::<u32>, bw::<u32>)),
        3 => ("u64", 64, history(ctx, prog, slot, r, events, plan, 0u64, 64, wb::<u64>, bw::<u64>)),
        4 => ("u128", 128, history(ctx, prog, slot, r, events, plan, 0u128, 128, wb::<u128>, bw::<u128>)),
        5 => ("usize", 64, history(ctx, prog, slot, r, events, plan, 0usize, 64, wb::<usize>, bw::<usize>)),
        _ => ("vec", 0, history(ctx, prog, slot, r, events, plan, vec![0u8], 0, vb, bv)),
    };
    (t, w, ev)
}
pub fn record(ctx: &Ctx, prog: &Progress, slot: usize, f: usize, part: usize, out: &str, events: usize, plan: &str) {
    let (t, w, ev) = script(ctx, prog, slot, f, part, events, plan);
    ctx.count("trace", 1, ev.len() as u64);
    let line = format!("{{\"d\":0,\"w\":{w},\"t\":\"{t}\",\"ev\":[{}]}}\n", ev.join(","));
    let mut f = std::fs::File::create(format!("{out}/bits-{f}-{part}.json")).unwrap();
    f.write_all(line.as_bytes()).unwrap();
}
