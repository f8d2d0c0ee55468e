//! Running jbcrs under the monitors, judging what it did, and recording both.

use crate::alloc;
use crate::model::*;
use crate::refp::{self, RErr, Verdict};
use crate::rng::{hash_bytes, Rng};
use crate::val;
use jbcrs::basic as jb;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

// ---------------------------------------------------------------- step counters

#[cfg(jbcov)]
mod cov {
    extern "C" {
        fn __llvm_profile_begin_counters() -> *const u64;
        fn __llvm_profile_end_counters() -> *const u64;
    }
    fn bounds() -> (*const u64, usize) {
        unsafe {
            let (a, b) = (__llvm_profile_begin_counters(), __llvm_profile_end_counters());
            (a, (b as usize - a as usize) / 8)
        }
    }
    pub fn len() -> usize {
        bounds().1
    }
    pub fn get(i: usize) -> u64 {
        let (p, n) = bounds();
        assert!(i < n);
        unsafe { std::ptr::read_volatile(p.add(i)) }
    }
}
#[cfg(not(jbcov))]
mod cov {
    pub fn len() -> usize {
        0
    }
    pub fn get(_: usize) -> u64 {
        0
    }
}

/// number of regions of jbcrs' code that are counted
pub fn regions() -> usize {
    cov::len()
}
pub fn region(i: usize) -> u64 {
    cov::get(i)
}
/// regions of jbcrs' code entered so far
pub fn steps() -> u64 {
    let mut s = 0u64;
    for i in 0..cov::len() {
        s = s.wrapping_add(cov::get(i));
    }
    s
}

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static FOREIGN: RefCell<bool> = const { RefCell::new(false) };
    static GUARDED: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let (at, line) = i.location().map_or(("", 0), |l| (l.file(), l.line()));
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}:{}", m, at, line));
        if !GUARDED.with(|g| *g.borrow()) {
            old(i);
            let foreign = !cfg!(miri) && in_jbcrs(&std::backtrace::Backtrace::force_capture().to_string());
            FOREIGN.with(|p| *p.borrow_mut() = foreign);
        }
    }));
}

/// whether the code that panicked belongs to jbcrs, or to the harness
fn in_jbcrs(trace: &str) -> bool {
    let from = trace.find("begin_panic_handler").or_else(|| trace.find("rust_begin_unwind")).unwrap_or(0);
    let t = &trace[from..];
    match (t.find("jbcrs::"), t.find("jbmon::")) {
        (Some(a), Some(b)) => a < b,
        (a, _) => a.is_some(),
    }
}

/// the last panic nobody waited for: its message, and whether jbcrs raised it
pub fn last_panic() -> (String, bool) {
    (LAST_PANIC.with(|p| p.borrow().clone()), FOREIGN.with(|p| *p.borrow()))
}

/// calls into jbcrs; a panic becomes an Err with its message
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDED.with(|g| *g.borrow_mut() = true);
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| *g.borrow_mut() = false);
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

// ---------------------------------------------------------------- watchdog

static CASE_START: AtomicU64 = AtomicU64::new(0);
static CASE_LIMIT: AtomicU64 = AtomicU64::new(0);
static CASE_NO: AtomicU64 = AtomicU64::new(0);

/// exit status of a worker whose case ran for more steps than it is allowed to
pub const EXIT_STEPS: i32 = 77;
/// exit status of a worker stuck for a long time without many steps: no verdict
pub const EXIT_STUCK: i32 = 78;

/// a case that takes more steps than this is taken to be without end
pub fn step_limit(n: usize) -> u64 {
    300_000_000 + 20_000 * n as u64
}

pub fn start_watchdog(stuck_s: u64) {
    std::thread::spawn(move || {
        let mut last = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(100));
            let no = CASE_NO.load(Ordering::Relaxed);
            let limit = CASE_LIMIT.load(Ordering::Relaxed);
            if limit == 0 {
                last = (no, 0);
                continue;
            }
            if cov::len() > 0 && steps().wrapping_sub(CASE_START.load(Ordering::Relaxed)) > limit && no == CASE_NO.load(Ordering::Relaxed) {
                eprintln!("case exceeded its step limit of {}", limit);
                std::process::exit(EXIT_STEPS);
            }
            if last.0 == no {
                last.1 += 1;
                if last.1 > stuck_s * 10 {
                    eprintln!("no progress for {} s", stuck_s);
                    std::process::exit(EXIT_STUCK);
                }
            } else {
                last = (no, 0);
            }
        }
    });
}

pub fn watched<T>(n: usize, f: impl FnOnce() -> T) -> T {
    CASE_NO.fetch_add(1, Ordering::Relaxed);
    CASE_START.store(steps(), Ordering::Relaxed);
    CASE_LIMIT.store(step_limit(n), Ordering::Relaxed);
    let r = f();
    CASE_LIMIT.store(0, Ordering::Relaxed);
    r
}

// ---------------------------------------------------------------- context

pub enum Out {
    Ok(jb::Pool, jb::Class),
    Err(jbcrs::Error),
    Panic(String),
}

pub struct Run {
    pub out: Out,
    pub peak: i64,
    pub before: i64,
    pub after: i64,
    pub steps: u64,
    pub allocs: u64,
}

impl Run {
    pub fn show(&self) -> String {
        match &self.out {
            Out::Ok(p, _) => format!("accepted (pool of {})", p.len()),
            Out::Err(e) => format!("error {}", val::err(e)),
            Out::Panic(m) => format!("panic: {}", m),
        }
    }
}

pub const MEM_CAP: i64 = 1 << 30;

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    /// for an interpreter: small cases only
    pub tiny: bool,
    pub scopes: u32,
    pub stats: BTreeMap<String, u64>,
    pub maxs: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub evals: u64,
    pub samples: Vec<String>,
    pub viols: u64,
    pub workload: String,
    pub idx: u64,
    pub out_dir: String,
    pub shard: String,
    pub inflight: Option<std::fs::File>,
    pub jdk: Vec<std::sync::Arc<Vec<u8>>>,
    /// only this many violations are written out
    pub max_viols: u64,
    pub corpus: Vec<Vec<u8>>,
    pub buckets: Vec<u8>,
    sample_every: u64,
}

impl Ctx {
    pub fn new(prop: &str, seed: u64, thorough: bool, out_dir: &str, shard: &str) -> Ctx {
        Ctx {
            prop: prop.into(),
            seed,
            thorough,
            tiny: false,
            scopes: 0,
            stats: BTreeMap::new(),
            maxs: BTreeMap::new(),
            distinct: HashSet::new(),
            evals: 0,
            samples: vec![],
            viols: 0,
            workload: String::new(),
            idx: 0,
            out_dir: out_dir.into(),
            shard: shard.into(),
            inflight: if out_dir.is_empty() { None } else { Some(std::fs::File::create(format!("{}/inflight.{}", out_dir, shard)).unwrap()) },
            jdk: vec![],
            max_viols: 5,
            corpus: vec![],
            buckets: vec![],
            sample_every: 1,
        }
    }

    pub fn rng(&self) -> Rng {
        Rng::new(self.seed, &format!("{}/{}", self.prop, self.workload), self.idx)
    }

    pub fn count(&mut self, key: &str, n: u64) {
        if let Some(x) = self.stats.get_mut(key) {
            *x += n;
        } else {
            self.stats.insert(key.to_string(), n);
        }
    }
    pub fn max(&mut self, key: &str, n: u64) {
        let e = self.maxs.entry(key.to_string()).or_insert(0);
        *e = (*e).max(n);
    }

    /// one oracle evaluation of a case identified by `h`
    pub fn eval(&mut self, h: u64, nontrivial: bool) {
        self.evals += 1;
        if nontrivial && self.distinct.len() < 6_000_000 {
            self.distinct.insert(h);
        }
    }

    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        // the 1st, 2nd, 4th, ... so that samples come from everywhere
        if self.samples.len() < 40 && self.evals >= self.sample_every {
            self.sample_every = self.evals * 2 + 1;
            let mut s = f();
            if s.len() > 600 {
                let mut k = 600;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            self.samples.push(format!("[{} {}] {}", self.workload, self.idx, s));
        }
    }

    /// tells the supervisor what is about to run, in case it does not come back
    pub fn inflight(&mut self, bytes: &[u8]) {
        if let Some(f) = &self.inflight {
            let head = format!("{} {} {}\n", self.workload, self.idx, bytes.len());
            let mut h = [b' '; 64];
            h[..head.len().min(64)].copy_from_slice(&head.as_bytes()[..head.len().min(64)]);
            let _ = f.write_at(&h, 0);
            let _ = f.write_at(&bytes[..bytes.len().min(1 << 22)], 64);
        }
    }

    pub fn violate(&mut self, msg: &str, bytes: &[u8]) {
        self.viols += 1;
        if self.viols > self.max_viols {
            return;
        }
        let mut msg = msg.replace('\n', " ");
        if msg.len() > 1500 {
            let mut k = 1500;
            while !msg.is_char_boundary(k) {
                k -= 1;
            }
            msg.truncate(k);
        }
        if self.out_dir.is_empty() {
            println!("VIOLATED {} {} {}: {}", self.prop, self.workload, self.idx, msg);
            return;
        }
        let p = format!("{}/viol.{}.{}", self.out_dir, self.shard, self.viols);
        let mut f = std::fs::File::create(p).unwrap();
        writeln!(f, "{}\n{}\n{}", self.workload, self.idx, msg).unwrap();
        f.write_all(bytes).unwrap();
    }

    /// parses under all monitors
    pub fn run(&mut self, bytes: &[u8]) -> Run {
        self.inflight(bytes);
        // a block of exactly this size, so that any step over its end is one into foreign memory
        let exact: Box<[u8]>;
        let bytes = if self.prop == "C29" {
            exact = bytes.into();
            &exact[..]
        } else {
            bytes
        };
        let s0 = steps();
        let a0 = alloc::count();
        let before = alloc::start(MEM_CAP);
        let r = watched(bytes.len(), || guard(|| jb::parse(bytes)));
        let peak = alloc::peak() - before;
        alloc::no_cap();
        let after = alloc::live();
        let out = match r {
            Ok(Ok((p, c))) => Out::Ok(p, c),
            Ok(Err(e)) => Out::Err(e),
            Err(m) => Out::Panic(m),
        };
        let key = match &out {
            Out::Ok(..) => "observed accept",
            Out::Err(_) => "observed error",
            Out::Panic(_) => "observed panic",
        };
        self.count(key, 1);
        Run { out, peak, before, after, steps: steps().wrapping_sub(s0), allocs: alloc::count() - a0 }
    }

    /// what the result has to be for a class made by the generator
    pub fn judge_model(&mut self, c: &MClass, bytes: &[u8]) -> bool {
        let want = val::m_all(c);
        self.judge_value(&want, bytes)
    }

    pub fn judge_value(&mut self, want: &val::V, bytes: &[u8]) -> bool {
        let r = self.run(bytes);
        match &r.out {
            Out::Ok(p, k) => {
                let got = match guard(|| val::j_all(p, k)) {
                    Ok(v) => v,
                    Err(m) => {
                        self.violate(&format!("panic while inspecting the result: {}", m), bytes);
                        return false;
                    }
                };
                self.count("leaves compared", want.leaves());
                self.compare(want, &got, bytes)
            }
            _ => {
                let m = format!("a valid class file was not accepted: {}", r.show());
                self.violate(&m, bytes);
                false
            }
        }
    }

    fn compare(&mut self, want: &val::V, got: &val::V, bytes: &[u8]) -> bool {
        if want == got {
            return true;
        }
        let d = val::diff(want, got);
        let mut ok = true;
        for m in d {
            if m.scope & self.scopes != 0 {
                ok = false;
                self.violate(
                    &format!("decoded wrongly ({}): at {}: expected {}, got {}", val::sc::names(m.scope), m.path, m.want, m.got),
                    bytes,
                );
                break;
            }
            self.count("mismatches outside of this property", 1);
        }
        ok
    }

    /// judges arbitrary bytes by the reference decoder; returns whether jbcrs accepted
    pub fn judge(&mut self, bytes: &[u8]) -> bool {
        let v = refp::decide(bytes);
        self.judge_as(v, bytes, false)
    }

    pub fn judge_as(&mut self, v: Verdict, bytes: &[u8], kind_matters: bool) -> bool {
        let r = self.run(bytes);
        if let Out::Panic(m) = &r.out {
            let m = format!("panic: {}", m);
            self.violate(&m, bytes);
            return false;
        }
        match (v, &r.out) {
            (Verdict::Accept(a), Out::Ok(p, k)) => {
                self.count("verdict accept", 1);
                let want = val::m_all(&a.class);
                let got = match guard(|| val::j_all(p, k)) {
                    Ok(v) => v,
                    Err(m) => {
                        self.violate(&format!("panic while inspecting the result: {}", m), bytes);
                        return true;
                    }
                };
                self.count("leaves compared", want.leaves());
                self.compare(&want, &got, bytes);
                true
            }
            (Verdict::Accept(_), Out::Err(e)) => {
                self.violate(&format!("a valid class file was rejected: {}", val::err(e)), bytes);
                false
            }
            (Verdict::Reject(w), Out::Ok(..)) => {
                self.violate(&format!("an invalid class file was accepted, defect: {:?}", w), bytes);
                true
            }
            (Verdict::Reject(w), Out::Err(e)) => {
                self.count(&format!("verdict reject {}", rname(&w)), 1);
                if kind_matters {
                    if let Some(want) = expected(&w) {
                        if want != val::err(e) {
                            self.violate(&format!("wrong error: expected {}, got {}", want, val::err(e)), bytes);
                        }
                    }
                }
                false
            }
            (Verdict::Open(w), o) => {
                self.count(&format!("open: {}", w), 1);
                matches!(o, Out::Ok(..))
            }
            (_, Out::Panic(_)) => unreachable!(),
        }
    }
}

fn rname(e: &RErr) -> &'static str {
    match e {
        RErr::Eof => "end of input",
        RErr::NotAClass => "magic",
        RErr::BadCp(_) => "constant",
        RErr::BadUtf8 => "utf8",
        RErr::BadInsn(..) => "instruction",
        RErr::BadFrame(_) => "frame type",
        RErr::BadVt(_) => "verification type",
        RErr::BadEv(_) => "element tag",
        RErr::BadTarget => "target type",
        RErr::BadPath => "type path",
        RErr::Length => "attribute length",
        RErr::Other => "other",
        RErr::Deep => "deep",
    }
}

/// the error that describes the defect, where the property says which one it is
pub fn expected(e: &RErr) -> Option<String> {
    Some(match e {
        RErr::Eof => "LimitExceeded".into(),
        RErr::NotAClass => "NotAClass".into(),
        RErr::BadCp(i) => format!("InvalidCPItem({})", i),
        RErr::BadUtf8 => "InvalidUTF8".into(),
        RErr::BadInsn(o, a) => format!("InvalidInstruction({:#04x},{})", o, a),
        RErr::BadFrame(t) => format!("ReservedStackMapFrame({})", t),
        RErr::BadVt(t) => format!("InvalidVerificationType({})", t),
        RErr::BadEv(t) => format!("InvalidElementValue({})", t),
        RErr::BadTarget => "InvalidTargetType".into(),
        RErr::BadPath => "InvalidTypePath".into(),
        RErr::Length | RErr::Other | RErr::Deep => return None,
    })
}

pub fn bytes_hash(b: &[u8]) -> u64 {
    hash_bytes(b)
}

pub fn hex(b: &[u8]) -> String {
    let n = b.len().min(120);
    let s: String = b[..n].iter().map(|x| format!("{:02x}", x)).collect();
    if n < b.len() {
        format!("{}... ({} bytes)", s, b.len())
    } else {
        s
    }
}
