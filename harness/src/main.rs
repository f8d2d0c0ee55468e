//! Runs jbcrs under monitors; see /verif/DESIGN.md.

mod alloc;
mod ctx;
mod enc;
mod gen;
mod linear;
mod model;
mod mutf8;
mod optab;
mod refp;
mod registry;
mod rng;
mod val;
mod w_class;
mod w_desc;
mod w_nest;
mod w_pool;
mod w_same;
mod w_sweep;

use ctx::Ctx;
use std::io::{Read, Write};
use std::sync::Arc;
use std::time::Instant;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

/// JDK classes: u32 length and bytes, over and over
fn read_jdk(path: &str) -> Vec<Arc<Vec<u8>>> {
    let mut v = vec![];
    let mut all = vec![];
    if path == "-" || std::fs::File::open(path).and_then(|mut f| f.read_to_end(&mut all)).is_err() {
        return v;
    }
    let mut i = 0;
    while i + 4 <= all.len() {
        let n = u32::from_be_bytes([all[i], all[i + 1], all[i + 2], all[i + 3]]) as usize;
        v.push(Arc::new(all[i + 4..i + 4 + n].to_vec()));
        i += 4 + n;
    }
    v
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7F => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn map_json(m: &std::collections::BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect();
    format!("{{{}}}", v.join(","))
}

/// one case; a panic that no oracle was waiting for but comes from jbcrs is a violation as well
fn run_case(w: &registry::W, c: &mut Ctx) {
    if let Err(p) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (w.f)(c))) {
        let (message, foreign) = ctx::last_panic();
        if !foreign {
            // a mistake of the harness
            std::panic::resume_unwind(p);
        }
        c.violate(&format!("panic outside of a parse: {}", message), &[]);
    }
}

/// work <prop> <shard> <shards> <quick|thorough> <seed> <out_dir> <jdk> <seconds> [scale%] [workload]
fn work(a: &[String]) {
    let (shard, shards): (u64, u64) = (a[1].parse().unwrap(), a[2].parse().unwrap());
    let thorough = a[3] == "thorough";
    let secs: u64 = a[7].parse().unwrap();
    let scale: u64 = a.get(8).map_or(100, |s| s.parse().unwrap());
    let only = a.get(9).cloned();
    let mut c = Ctx::new(&a[0], a[4].parse().unwrap(), thorough, &a[5], &a[1]);
    c.scopes = registry::scopes(&a[0]);
    let works = registry::works(&a[0]);
    // "C29m": the property C29 with fewer cases
    c.prop = a[0].trim_end_matches('m').to_string();
    c.tiny = a[0].ends_with('m');
    if works.is_empty() {
        eprintln!("no such property");
        std::process::exit(2);
    }
    if works.iter().any(|w| w.jdk) {
        c.jdk = read_jdk(&a[6]);
    }
    ctx::install_panic_hook();
    if !cfg!(miri) {
        ctx::start_watchdog(120);
    }
    let start = Instant::now();
    let mut timings = std::collections::BTreeMap::new();
    let mut late = 0;
    for w in works {
        if only.as_ref().map_or(false, |o| o != w.name) {
            continue;
        }
        let t = Instant::now();
        c.workload = w.name.into();
        let full = if thorough { w.thorough } else { w.quick };
        let n = if w.fixed { full } else { (full * scale).div_ceil(100) };
        let mut i = shard;
        let viols = c.viols;
        while i < n {
            c.idx = i;
            run_case(&w, &mut c);
            i += shards;
            if c.viols >= c.max_viols || c.viols > viols + 1 {
                break;
            }
            if start.elapsed().as_secs() >= secs {
                late += n.saturating_sub(i).div_ceil(shards);
                break;
            }
        }
        timings.insert(format!("{}", w.name), t.elapsed().as_millis() as u64);
    }
    let mut hit = vec![];
    for k in 0..ctx::regions() {
        if ctx::region(k) != 0 {
            hit.push(k.to_string());
        }
    }
    c.count("code regions entered by jbcrs", ctx::steps());
    let mut f = std::fs::File::create(format!("{}/hashes.{}", a[5], a[1])).unwrap();
    let mut buf = Vec::with_capacity(c.distinct.len() * 8);
    for h in &c.distinct {
        buf.extend_from_slice(&h.to_le_bytes());
    }
    f.write_all(&buf).unwrap();
    let samples: Vec<String> = c.samples.iter().map(|s| json_str(s)).collect();
    let out = format!(
        "{{\"evals\":{},\"distinct\":{},\"viols\":{},\"skipped\":{},\"stats\":{},\"maxs\":{},\"ms\":{},\"samples\":[{}],\"regions\":{},\"hit\":[{}]}}",
        c.evals,
        c.distinct.len(),
        c.viols,
        late,
        map_json(&c.stats),
        map_json(&c.maxs),
        map_json(&timings),
        samples.join(","),
        ctx::regions(),
        hit.join(",")
    );
    std::fs::write(format!("{}/result.{}", a[5], a[1]), out).unwrap();
}

/// union <dir> <shards>: how many different hashes the workers saw
fn union(a: &[String]) {
    let mut set: std::collections::HashSet<u64> = Default::default();
    for s in 0..a[1].parse::<u64>().unwrap() {
        if let Ok(b) = std::fs::read(format!("{}/hashes.{}", a[0], s)) {
            set.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
    }
    println!("{}", set.len());
}

/// replay <prop> <seed> <tier> <workload> <idx> <jdk>: one case again
fn replay(a: &[String]) {
    let mut c = Ctx::new(&a[0], a[1].parse().unwrap(), a[2] == "thorough", "", "0");
    c.scopes = registry::scopes(&a[0]);
    c.jdk = read_jdk(a.get(5).map_or("-", |s| s));
    ctx::install_panic_hook();
    for w in registry::works(&a[0]) {
        if w.name == a[3] {
            c.workload = w.name.into();
            c.idx = a[4].parse().unwrap();
            run_case(&w, &mut c);
        }
    }
    println!("{} evaluations, {} violations", c.evals, c.viols);
    std::process::exit(i32::from(c.viols > 0));
}

/// bytes <file>: what jbcrs and the reference decoder say about a file
fn bytes(a: &[String]) {
    let b = std::fs::read(&a[0]).unwrap();
    let mut c = Ctx::new("C00", 0, false, "", "0");
    c.scopes = !0;
    ctx::install_panic_hook();
    let r = c.run(&b);
    println!("jbcrs: {} (peak {} bytes, {} regions)", r.show(), r.peak, r.steps);
    match refp::decide(&b) {
        refp::Verdict::Accept(a) => println!("reference: accepted, {} of {} bytes, depth {}", a.consumed, b.len(), a.depth),
        refp::Verdict::Reject(e) => println!("reference: {:?}", e),
        refp::Verdict::Open(o) => println!("reference: open ({})", o),
    }
    c.judge(&b);
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.first().map(|s| s.as_str()) {
        Some("work") => work(&a[1..]),
        Some("union") => union(&a[1..]),
        Some("replay") => replay(&a[1..]),
        Some("bytes") => bytes(&a[1..]),
        Some("linear") => linear::main(&a[1..]),
        _ => {
            eprintln!("usage: jbmon work|union|replay|bytes|linear ...");
            std::process::exit(2);
        }
    }
}
