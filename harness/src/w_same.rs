//! The same bytes give the same result, wherever and whenever they are parsed.

use crate::ctx::*;
use crate::enc::encode;
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use crate::val;
use crate::w_class::{kitchen_sink, mutate, random_class};
use crate::w_nest;
use jbcrs::basic as jb;
use std::collections::HashMap;

/// everything a parse reports, in one string or hash
#[derive(Clone, PartialEq, Debug)]
pub enum Res {
    Ok(u64, u16),
    Err(String),
    Panic,
}

pub fn result(b: &[u8]) -> Res {
    match guard(|| match jb::parse(b) {
        Ok((p, k)) => Res::Ok(val::j_all(&p, &k).hash(), p.len()),
        Err(e) => Res::Err(val::err(&e)),
    }) {
        Ok(r) => r,
        Err(_) => Res::Panic,
    }
}

/// an input of any kind: valid, damaged, cut, deep, nonsense
fn input(c: &Ctx, r: &mut Rng) -> Vec<u8> {
    let mut b = match r.below(12) {
        0 => {
            let f = r.below(w_nest::FAMILIES);
            let d = *r.pick(&[1usize, 8, 30, 32, 33, 64, 65, 70, 300]);
            w_nest::family(r, f, d)
        }
        1 => encode(&kitchen_sink(r)),
        2 if !c.jdk.is_empty() => {
            let n = c.jdk.len();
            let b = c.jdk[r.below(n)].to_vec();
            if b.len() > 20_000 {
                encode(&kitchen_sink(r))
            } else {
                b
            }
        }
        3 => (0..r.below(60)).map(|_| r.u8()).collect(),
        4 | 5 => {
            // switches, the contents of which depend on the alignment of the code
            let mut g = G::new(r, Cfg::only(&["Code"]));
            let mut at = 0;
            let mut insns = vec![];
            for _ in 0..6 {
                let op = *g.r.pick(&[0xAAu8, 0xAB, 0x00, 0x10, 0xC4]);
                let i = g.insn_of(op, at);
                let n = crate::enc::insn_len(&i) as u32;
                insns.push(MInsn { at, i });
                at += n;
            }
            if at > 60_000 {
                insns.truncate(1);
            }
            let name = g.text("Code");
            let code = MCode { max_stack: 1, max_locals: 1, insns, exc: vec![], attrs: vec![] };
            let k = g.wrap(2, vec![MAttr { name, body: MBody::Code(Box::new(code)) }]);
            encode(&k)
        }
        _ => {
            let mut cfg = Cfg::all();
            cfg.list = 3;
            let mut g = G::new(r, cfg);
            g.budget = 600;
            let k = g.class();
            encode(&k)
        }
    };
    match r.below(5) {
        0 => {
            mutate(r, &mut b, 0);
        }
        1 if !b.is_empty() => {
            let n = r.below(b.len());
            b.truncate(n);
        }
        _ => {}
    }
    b
}

fn differs(c: &mut Ctx, b: &[u8], what: &str, first: &Res, now: &Res) -> bool {
    if first == now {
        return false;
    }
    c.violate(&format!("{}: first {:?}, then {:?}", what, first, now), b);
    true
}

/// again and again, between other inputs
pub fn again(c: &mut Ctx) {
    let mut r = c.rng();
    let set: Vec<Vec<u8>> = (0..12).map(|_| input(c, &mut r)).collect();
    let mut first: Vec<Option<Res>> = vec![None; set.len()];
    for round in 0..4 {
        let mut order: Vec<usize> = (0..set.len()).collect();
        r.shuffle(&mut order);
        for i in order {
            let b = &set[i];
            c.inflight(b);
            let now = watched(b.len(), || result(b));
            c.count("parses", 1);
            match &first[i] {
                None => first[i] = Some(now),
                Some(f) => {
                    c.eval(bytes_hash(b) ^ round, true);
                    if differs(c, b, "parsed again after other inputs", f, &now) {
                        return;
                    }
                }
            }
        }
    }
    // and what it has to be in the first place, which no earlier input may have changed
    for (b, f) in set.iter().zip(&first) {
        if let (crate::refp::Verdict::Accept(a), Some(f)) = (crate::refp::decide(b), f) {
            let want = Res::Ok(val::m_all(&a.class).hash(), a.class.pool.count() as u16);
            c.count("results equal to those of the reference decoder", u64::from(want == *f));
        }
    }
    tally(c, &first.into_iter().flatten().collect::<Vec<_>>());
    c.sample(|| format!("12 inputs of {:?} bytes, 4 rounds", set.iter().map(|b| b.len()).collect::<Vec<_>>()));
}

fn tally(c: &mut Ctx, v: &[Res]) {
    for x in v {
        c.count(
            match x {
                Res::Ok(..) => "inputs accepted",
                Res::Err(_) => "inputs rejected",
                Res::Panic => "inputs that panic",
            },
            1,
        );
    }
}

/// at every alignment, at the ends of buffers, and with other bytes around
pub fn places(c: &mut Ctx) {
    let mut r = c.rng();
    let b = input(c, &mut r);
    c.inflight(&b);
    let first = watched(b.len(), || result(&b));
    tally(c, &[first.clone()]);
    let mut buf = vec![0u8; b.len() + 64];
    for off in 0..17usize {
        let fill = r.u8();
        buf.iter_mut().for_each(|x| *x = fill);
        buf[off..off + b.len()].copy_from_slice(&b);
        let now = watched(b.len(), || result(&buf[off..off + b.len()]));
        c.count("parses at another address", 1);
        c.eval(bytes_hash(&b) ^ off as u64, true);
        if differs(c, &b, &format!("parsed at offset {} of a buffer of {:#x}", off, fill), &first, &now) {
            return;
        }
    }
    // an exact heap block
    let exact: Box<[u8]> = b.clone().into_boxed_slice();
    let now = watched(b.len(), || result(&exact));
    if differs(c, &b, "parsed in a block of its own", &first, &now) {
        return;
    }
    c.sample(|| format!("{} bytes at 17 offsets: {}", b.len(), hex(&b)));
}

/// bytes that follow
pub fn trailing(c: &mut Ctx) {
    let mut r = c.rng();
    let b = loop {
        let k = random_class("C28", &mut r);
        let b = encode(&k);
        if b.len() < 60_000 {
            break b;
        }
    };
    c.inflight(&b);
    let first = watched(b.len(), || result(&b));
    tally(c, &[first.clone()]);
    if !matches!(first, Res::Ok(..)) {
        return;
    }
    for t in 0..8 {
        let tail: Vec<u8> = match t {
            0 => vec![0],
            1 => vec![0xFF; 9],
            2 => b.clone(),
            3 => vec![0; 4096],
            4 => vec![0xCA, 0xFE, 0xBA, 0xBE],
            _ => (0..r.range(1, 50)).map(|_| r.u8()).collect(),
        };
        let mut x = b.clone();
        x.extend_from_slice(&tail);
        let now = watched(x.len(), || result(&x));
        c.count("parses with bytes behind", 1);
        c.eval(bytes_hash(&x), true);
        match now {
            Res::Ok(..) => {
                c.count("accepted with bytes behind", 1);
                if differs(c, &x, "parsed with bytes behind", &first, &now) {
                    return;
                }
            }
            _ => c.count("rejected with bytes behind", 1),
        }
    }
    c.sample(|| format!("{} bytes with 8 tails", b.len()));
}

/// several threads at once
pub fn threads(c: &mut Ctx) {
    let mut r = c.rng();
    let set: Vec<Vec<u8>> = (0..10).map(|_| input(c, &mut r)).collect();
    c.inflight(&set.concat());
    let first: Vec<Res> = watched(100_000, || set.iter().map(|b| result(b)).collect());
    tally(c, &first);
    let n = 4;
    let seeds: Vec<Rng> = (0..n).map(|k| Rng::new(c.seed, "threads", c.idx * 16 + k)).collect();
    let set_ref = &set;
    let first_ref = &first;
    let barrier = std::sync::Barrier::new(n as usize);
    let bar = &barrier;
    let bad: Vec<(usize, Res)> = watched(10_000_000, || {
        std::thread::scope(|s| {
            let hs: Vec<_> = seeds
                .into_iter()
                .map(|mut r| {
                    std::thread::Builder::new()
                        .stack_size(8 << 20)
                        .spawn_scoped(s, move || {
                            bar.wait();
                            let mut bad = vec![];
                            for _ in 0..3 {
                                let mut order: Vec<usize> = (0..set_ref.len()).collect();
                                r.shuffle(&mut order);
                                for i in order {
                                    let now = result(&set_ref[i]);
                                    if now != first_ref[i] {
                                        bad.push((i, now));
                                    }
                                }
                            }
                            bad
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
        })
    });
    c.count("parses on other threads", n * 30);
    for b in &set {
        c.eval(bytes_hash(b), true);
    }
    if let Some((i, now)) = bad.first() {
        differs(c, &set[*i], "parsed on one of four threads", &first[*i], now);
    }
    c.sample(|| format!("10 inputs on 4 threads at once: {:?} bytes", set.iter().map(|b| b.len()).collect::<Vec<_>>()));
}

/// two threads, small inputs
pub fn threads_small(c: &mut Ctx) {
    let mut r = c.rng();
    let set: Vec<Vec<u8>> = (0..3)
        .map(|_| {
            let mut b = input(c, &mut r);
            b.truncate(1200);
            b
        })
        .collect();
    let set = &set;
    std::thread::scope(|s| {
        for _ in 0..2 {
            s.spawn(move || {
                for b in set {
                    result(b);
                }
            });
        }
    });
    for b in set {
        c.eval(bytes_hash(b), true);
    }
    c.sample(|| "3 inputs on 2 threads at once".to_string());
}

/// a long history in one process: the same inputs come back after thousands of others
pub fn history(c: &mut Ctx) {
    let mut r = c.rng();
    let mut seen: HashMap<u64, (Vec<u8>, Res)> = HashMap::new();
    let keep: Vec<Vec<u8>> = (0..20).map(|_| input(c, &mut r)).collect();
    for b in &keep {
        let f = watched(b.len(), || result(b));
        seen.insert(bytes_hash(b), (b.clone(), f));
    }
    for i in 0..400 {
        let b = input(c, &mut r);
        c.inflight(&b);
        watched(b.len(), || result(&b));
        c.count("parses of other inputs", 1);
        if i % 40 == 39 {
            for b in &keep {
                let now = watched(b.len(), || result(b));
                let f = seen[&bytes_hash(b)].1.clone();
                c.eval(bytes_hash(b) ^ i, true);
                if differs(c, b, &format!("parsed again after {} other inputs", i + 1), &f, &now) {
                    return;
                }
            }
        }
    }
    c.sample(|| "20 inputs, each parsed again after 40, 80, ... 400 others".to_string());
}

/// one input very often, on a thread of its own, and what others give before and after
pub fn repeated(c: &mut Ctx) {
    let mut r = c.rng();
    let x = loop {
        let b = match r.below(4) {
            // one that fails somewhere inside, most of the time deep inside
            0 => {
                let f = r.below(w_nest::FAMILIES);
                let d = *r.pick(&[2usize, 5, 20, 31]);
                let mut b = w_nest::family(&mut r, f, d);
                let n = b.len();
                match r.below(3) {
                    0 => b.truncate(n - 1 - r.below(n.min(24))),
                    1 => {
                        let at = n - 1 - r.below(n.min(24));
                        b[at] = r.u8();
                    }
                    _ => {}
                }
                b
            }
            1 => {
                let (mut b, sites) = crate::enc::encode_sites(&kitchen_sink(&mut r));
                let s = r.pick(&sites).off;
                if s < b.len() {
                    b[s] = *r.pick(&[0u8, 0xFF, 0x80, 0xC0]);
                }
                b
            }
            2 => {
                let mut b = encode(&kitchen_sink(&mut r));
                let n = r.below(b.len());
                b.truncate(n);
                b
            }
            _ => input(c, &mut r),
        };
        if b.len() < 4000 {
            break b;
        }
    };
    let mut probes: Vec<Vec<u8>> = (0..4).map(|_| input(c, &mut r)).collect();
    probes.push(encode(&kitchen_sink(&mut r)));
    for f in 0..w_nest::FAMILIES {
        probes.push(w_nest::family(&mut r, f, 3));
        probes.push(w_nest::family(&mut r, f, 30));
    }
    let n = if r.one_in(10) { 3000 } else { 400 };
    c.inflight(&x);
    let (x, probes) = (&x, &probes);
    let (first, bad, after) = watched(10_000_000, || {
        std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(s, move || {
                    let first: Vec<Res> = probes.iter().map(|b| result(b)).collect();
                    let one = result(x);
                    let bad = (1..n).map(|i| (i, result(x))).find(|y| y.1 != one).map(|y| (y.0, one.clone(), y.1));
                    (first, bad, probes.iter().map(|b| result(b)).collect::<Vec<Res>>())
                })
                .unwrap()
                .join()
                .unwrap()
        })
    });
    c.count("parses of one input again", n as u64);
    c.eval(bytes_hash(x), true);
    if let Some((i, one, now)) = bad {
        differs(c, x, &format!("parsed for the {}. time on one thread", i + 1), &one, &now);
        return;
    }
    for ((b, f), a) in probes.iter().zip(&first).zip(&after) {
        c.eval(bytes_hash(b), true);
        if differs(c, b, &format!("parsed again after another input was parsed {} times", n), f, a) {
            return;
        }
    }
    tally(c, &first);
    c.sample(|| format!("{} bytes {} times, between {} others", x.len(), n, probes.len()));
}

// ---------------------------------------------------------------- coverage guided

/// keeps what reaches new code or a new number of passes through it, and mutates that
pub fn evolve(c: &mut Ctx) {
    let mut r = c.rng();
    let n = regions();
    if n == 0 {
        return;
    }
    let mut best = std::mem::take(&mut c.buckets);
    let mut corpus = std::mem::take(&mut c.corpus);
    best.resize(n, 0);
    if corpus.is_empty() {
        let mut k = Rng::new(c.seed, "kitchen sink", 0);
        corpus.push(encode(&kitchen_sink(&mut k)));
        corpus.push(vec![]);
    }
    let mut before: Vec<u64> = vec![0; n];
    for _ in 0..400 {
        let i = if r.bool() { corpus.len() - 1 - r.below(corpus.len().min(20)) } else { r.below(corpus.len()) };
        let mut b = corpus[i].clone();
        if r.one_in(10) {
            // crossing two
            let o = &corpus[r.below(corpus.len())];
            let (x, y) = (r.below(b.len() + 1), r.below(o.len() + 1));
            b.truncate(x);
            b.extend_from_slice(&o[y..]);
        }
        for _ in 0..r.range(1, 4) {
            mutate(&mut r, &mut b, 0);
        }
        if b.len() > 4000 {
            continue;
        }
        for (k, x) in before.iter_mut().enumerate() {
            *x = region(k);
        }
        c.eval(bytes_hash(&b), b.len() > 10);
        let viols = c.viols;
        let run = c.run(&b);
        let mut new = false;
        for k in 0..n {
            let d = region(k).wrapping_sub(before[k]);
            let bit = match d {
                0 => continue,
                1 => 1,
                2 => 2,
                3..=4 => 4,
                5..=8 => 8,
                9..=16 => 16,
                17..=64 => 32,
                65..=512 => 64,
                _ => 128u8,
            };
            if best[k] & bit == 0 {
                best[k] |= bit;
                new = true;
            }
        }
        if let Out::Panic(m) = &run.out {
            c.violate(&format!("panic: {}", m), &b);
        }
        if new && c.viols == viols {
            c.count("inputs kept for reaching something new", 1);
            corpus.push(b);
        }
    }
    c.max("corpus of one worker", corpus.len() as u64);
    c.max("coverage buckets of one worker", best.iter().map(|b| u64::from(b.count_ones())).sum());
    c.sample(|| hex(corpus.last().unwrap()));
    c.buckets = best;
    c.corpus = corpus;
}
