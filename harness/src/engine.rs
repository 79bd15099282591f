//! Choice-sequence property-testing engine: generation, execution in worker processes,
//! crash attribution, shrinking, replay files and evidence.

use crate::json::J;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::panic::{self, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- random numbers
#[derive(Clone)]
pub struct Rng(u64, u64);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    let mut h2 = h;
    splitmix(&mut h2)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed;
        let a = splitmix(&mut s);
        let b = splitmix(&mut s) | 1;
        Rng(a, b)
    }
    pub fn next(&mut self) -> u64 {
        // xoroshiro128+
        let (s0, mut s1) = (self.0, self.1);
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0 = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.1 = s1.rotate_left(37);
        r
    }
    pub fn upto(&mut self, max: u64) -> u64 {
        if max == u64::MAX {
            self.next()
        } else {
            ((self.next() as u128 * (max as u128 + 1)) >> 64) as u64
        }
    }
}

// ---------------------------------------------------------------- choice source
pub struct Src {
    rng: Option<Rng>,
    replay: Vec<u64>,
    pub rec: Vec<u64>,
}

pub const MAX_CHOICES: usize = 200_000;

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { rng: Some(Rng::new(seed)), replay: vec![], rec: vec![] }
    }
    pub fn replay(choices: Vec<u64>) -> Src {
        Src { rng: None, replay: choices, rec: vec![] }
    }
    fn raw(&mut self, max: u64, gen: impl FnOnce(&mut Rng) -> u64) -> u64 {
        let v = match self.rng {
            Some(ref mut r) if self.rec.len() < MAX_CHOICES => gen(r).min(max),
            Some(_) => 0,
            None => self.replay.get(self.rec.len()).copied().unwrap_or(0).min(max),
        };
        self.rec.push(v);
        v
    }
    /// uniform in 0..=max
    pub fn upto(&mut self, max: u64) -> u64 {
        self.raw(max, |r| r.upto(max))
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.upto((hi - lo) as u64) as usize
    }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.raw(1, |r| (r.upto(den - 1) < num) as u64) == 1
    }
    pub fn coin(&mut self) -> bool {
        self.chance(1, 2)
    }
    /// index drawn with the given weights; shrinks to 0
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        self.raw(w.len() as u64 - 1, |r| {
            let mut x = r.upto(total - 1);
            for (i, v) in w.iter().enumerate() {
                if x < *v as u64 {
                    return i as u64;
                }
                x -= *v as u64;
            }
            0
        }) as usize
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.upto(xs.len() as u64 - 1) as usize]
    }
    /// small length, geometric-ish, at most max
    pub fn len(&mut self, max: usize) -> usize {
        self.raw(max as u64, |r| {
            let k = r.upto(3);
            match k {
                0 => r.upto((max as u64).min(2)),
                1 | 2 => r.upto((max as u64).min(6)),
                _ => r.upto(max as u64),
            }
        }) as usize
    }
    /// unsigned integer of `bits` bits, biased to boundaries
    pub fn bits(&mut self, bits: u32) -> u128 {
        let mask = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
        match self.weighted(&[3, 3, 3, 3]) {
            0 => self.upto(16.min(mask as u64)) as u128,
            1 => {
                let sh = self.upto(bits as u64 - 1) as u32;
                let base = 1u128 << sh;
                let d = self.upto(4) as i128 - 2;
                (base as i128).wrapping_add(d) as u128 & mask
            }
            2 => mask - (self.upto(16.min(mask as u64)) as u128),
            _ => {
                let lo = self.upto(u64::MAX) as u128;
                let hi = if bits > 64 { self.upto(u64::MAX) as u128 } else { 0 };
                (hi << 64 | lo) & mask
            }
        }
    }
}

// ---------------------------------------------------------------- cases
#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}

pub type Res = Result<(), Fail>;

pub fn fail<T>(sig: &str, msg: String) -> Result<T, Fail> {
    Err(Fail { sig: sig.to_string(), msg })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) { return $crate::engine::fail($sig, format!($($arg)*)); }
    };
}

#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub desc: String,
    pub want_desc: bool,
    pub key: Option<u64>,
}

impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l)
    }
    /// text of the case: used for distinctness and for samples
    pub fn case(&mut self, f: impl FnOnce() -> String) {
        let s = f();
        self.key = Some(fnv(s.as_bytes()));
        self.desc = s;
    }
}

pub type CaseFn = fn(&mut Src, &mut Ctx) -> Res;

#[derive(Clone, Copy)]
pub struct Arm {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// the single choice is the case index itself: the arm enumerates 0..n
    pub exhaustive: bool,
    pub f: CaseFn,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub arms: Vec<Arm>,
}

thread_local! {
    static PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

/// Runs code under test; a panic becomes Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    panic::catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    guarded(f).map_err(|m| Fail { sig: format!("panic/{}", what), msg: format!("{} panicked: {}", what, m) })
}

pub fn run_case(arm: &Arm, src: &mut Src) -> (Ctx, Res) {
    let mut ctx = Ctx::default();
    let r = panic::catch_unwind(AssertUnwindSafe(|| (arm.f)(src, &mut ctx)));
    let res = match r {
        Ok(r) => r,
        Err(_) => {
            let m = last_panic();
            if m.contains("harness bug") || m.contains("/verif/harness/") || m.contains(" at src/") && is_own_file(&m) {
                Err(Fail { sig: "HARNESS".into(), msg: m })
            } else {
                Err(Fail { sig: "panic".into(), msg: m })
            }
        }
    };
    (ctx, res)
}

fn is_own_file(m: &str) -> bool {
    // a path dependency's panics carry absolute paths (/repo/src/..); ours are relative (src/..)
    m.rsplit(" at ").next().map(|l| l.starts_with("src/")).unwrap_or(false)
}

pub fn case_seed(seed: u64, id: &str, arm: &str, i: u64) -> u64 {
    fnv(format!("{}|{}|{}|{}", seed, id, arm, i).as_bytes())
}

fn src_for(arm: &Arm, seed: u64, id: &str, i: u64) -> Src {
    if arm.exhaustive {
        Src::replay(vec![i])
    } else {
        Src::random(case_seed(seed, id, arm.name, i))
    }
}

// ---------------------------------------------------------------- known findings
#[derive(Clone, Debug)]
pub struct Known {
    pub sig: String,
    pub note: String,
}

pub fn known_findings(id: &str) -> Vec<Known> {
    let p = verif_dir().join("known_findings.json");
    let text = match fs::read_to_string(&p) {
        Ok(t) => t,
        Err(_) => return vec![],
    };
    let j = crate::json::parse(&text).expect("harness bug: known_findings.json is not valid JSON");
    let mut out = vec![];
    if let Some(J::Arr(a)) = j.get("findings") {
        for e in a {
            if e.str("property") == Some(id) {
                out.push(Known {
                    sig: e.str("signature").unwrap_or("").to_string(),
                    note: e.str("what").unwrap_or("").to_string(),
                });
            }
        }
    }
    out
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

// ---------------------------------------------------------------- worker
const NWORKERS: u64 = 8;
const CASE_TIMEOUT: u64 = 60;

fn scratch(id: &str) -> PathBuf {
    let d = std::env::temp_dir().join(format!("cathlamet-pbt-{}-{}", id, std::process::id()));
    fs::create_dir_all(&d).unwrap();
    d
}

struct Progress {
    ptr: *mut u64,
}

impl Progress {
    fn open(path: &Path) -> Progress {
        use std::os::unix::io::AsRawFd;
        let f = fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
        f.set_len(64).unwrap();
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), 64, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(p != libc::MAP_FAILED);
        Progress { ptr: p as *mut u64 }
    }
    fn set(&self, arm: u64, idx: u64) {
        unsafe {
            std::ptr::write_volatile(self.ptr, arm);
            std::ptr::write_volatile(self.ptr.add(1), idx);
            let n = std::ptr::read_volatile(self.ptr.add(2));
            std::ptr::write_volatile(self.ptr.add(2), n + 1);
        }
    }
    fn get(&self) -> (u64, u64, u64) {
        unsafe {
            (
                std::ptr::read_volatile(self.ptr),
                std::ptr::read_volatile(self.ptr.add(1)),
                std::ptr::read_volatile(self.ptr.add(2)),
            )
        }
    }
}

fn tier_cases(arm: &Arm, thorough: bool, scale: f64) -> u64 {
    let n = if thorough { arm.thorough } else { arm.quick };
    if arm.exhaustive {
        n
    } else {
        ((n as f64) * scale).max(1.0) as u64
    }
}

fn scale() -> f64 {
    std::env::var("PBT_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0)
}

pub fn limits() {
    unsafe {
        let r = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 24 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &r);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

/// Runs the cases of one worker; writes `w<k>.json` when done, `w<k>.keys` with case keys.
pub fn worker(p: &Property, seed: u64, thorough: bool, k: u64, dir: &Path) {
    limits();
    let prog = Progress::open(&dir.join(format!("w{}.prog", k)));
    let known = known_findings(p.id);
    let mut evals = 0u64;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<J> = vec![];
    let mut keys: HashSet<u64> = HashSet::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut failure: Option<(u64, u64, Fail)> = None;
    'arms: for (ai, arm) in p.arms.iter().enumerate() {
        let n = tier_cases(arm, thorough, scale());
        let mut i = k;
        let mut taken = 0;
        while i < n {
            // PBT_SCALE below one (used for mutation testing) samples large enumerations
            if arm.exhaustive && n > 2000 && scale() < 1.0 && (fnv(&i.to_le_bytes()) % 1000) as f64 >= 1000.0 * scale() {
                i += NWORKERS;
                continue;
            }
            prog.set(ai as u64, i);
            let mut src = src_for(arm, seed, p.id, i);
            let (ctx, res) = run_case(arm, &mut src);
            evals += 1;
            *labels.entry(format!("arm:{}", arm.name)).or_default() += 1;
            for l in &ctx.labels {
                *labels.entry(l.to_string()).or_default() += 1;
            }
            if ctx.nontrivial {
                let key = ctx.key.unwrap_or_else(|| fnv(format!("{:?}", src.rec).as_bytes()));
                if keys.insert(fnv(format!("{}|{}", arm.name, key).as_bytes())) && taken < 2 && k < 2 && ctx.desc.len() < 3000 {
                    taken += 1;
                    samples.push(J::Obj(vec![
                        ("arm".into(), J::s(arm.name)),
                        ("case".into(), J::n(i)),
                        ("input".into(), J::s(&ctx.desc)),
                    ]));
                }
            }
            if let Err(f) = res {
                if known.iter().any(|x| x.sig == f.sig) {
                    *known_hits.entry(f.sig).or_default() += 1;
                } else {
                    failure = Some((ai as u64, i, f));
                    break 'arms;
                }
            }
            i += NWORKERS;
        }
    }
    let mut kb = Vec::with_capacity(keys.len() * 8);
    for x in &keys {
        kb.extend_from_slice(&x.to_le_bytes());
    }
    fs::write(dir.join(format!("w{}.keys", k)), kb).unwrap();
    let mut o = vec![
        ("evals".to_string(), J::n(evals)),
        ("labels".to_string(), J::Obj(labels.into_iter().map(|(a, b)| (a, J::n(b))).collect())),
        ("known".to_string(), J::Obj(known_hits.into_iter().map(|(a, b)| (a, J::n(b))).collect())),
        ("samples".to_string(), J::Arr(samples)),
    ];
    if let Some((ai, i, f)) = failure {
        o.push(("fail".into(), J::Arr(vec![J::n(ai), J::n(i), J::s(&f.sig), J::s(&f.msg)])));
    }
    let tmp = dir.join(format!("w{}.tmp", k));
    fs::write(&tmp, J::Obj(o).to_string()).unwrap();
    fs::rename(&tmp, dir.join(format!("w{}.json", k))).unwrap();
}

// ---------------------------------------------------------------- shrinking
/// Candidate edits of a choice sequence, tried until none keeps failing.
fn shrink_loop(start: Vec<u64>, deadline: Instant, mut try_: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let mut best = start;
    let mut improved = true;
    while improved && Instant::now() < deadline {
        improved = false;
        // truncate
        let mut cut = best.len();
        while cut > 0 && Instant::now() < deadline {
            if best.len() >= cut {
                let mut c = best.clone();
                let keep = c.len() - cut;
                c.truncate(keep);
                if let Some(b) = try_(&c) {
                    if smaller(&b, &best) {
                        best = b;
                        improved = true;
                    }
                }
            }
            cut /= 2;
        }
        // delete spans
        let mut span = 64usize.min(best.len().max(1));
        while span >= 1 {
            let mut i = 0;
            while i < best.len() && Instant::now() < deadline {
                let mut c = best.clone();
                let e = (i + span).min(c.len());
                c.drain(i..e);
                match try_(&c) {
                    Some(b) if smaller(&b, &best) => {
                        best = b;
                        improved = true;
                    }
                    _ => i += span.max(1),
                }
            }
            span /= 2;
        }
        // zero spans, then minimise single values
        let mut span = 16usize;
        while span >= 1 {
            let mut i = 0;
            while i < best.len() && Instant::now() < deadline {
                let e = (i + span).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[i..e] {
                        *x = 0;
                    }
                    if let Some(b) = try_(&c) {
                        if smaller(&b, &best) {
                            best = b;
                            improved = true;
                        }
                    }
                }
                i += span;
            }
            span /= 2;
        }
        let mut i = 0;
        while i < best.len() && Instant::now() < deadline {
            // binary search towards zero
            let mut lo = 0u64;
            while i < best.len() && best[i] > lo && Instant::now() < deadline {
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                match try_(&c) {
                    Some(b) if smaller(&b, &best) => {
                        best = b;
                        improved = true;
                    }
                    _ => lo = mid + 1,
                }
            }
            // decrement a length together with deleting one following choice
            if i < best.len() && best[i] > 0 {
                for gap in 1..4 {
                    if i + gap < best.len() {
                        let mut c = best.clone();
                        c[i] -= 1;
                        c.remove(i + gap);
                        if let Some(b) = try_(&c) {
                            if smaller(&b, &best) {
                                best = b;
                                improved = true;
                                break;
                            }
                        }
                    }
                }
            }
            i += 1;
        }
    }
    best
}

fn smaller(a: &[u64], b: &[u64]) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a < b)
}

/// In-process shrink (runs in its own process; writes the best so far to `out`).
pub fn shrink_proc(p: &Property, arm: usize, choices: Vec<u64>, sig: &str, secs: u64, out: &Path) {
    limits();
    let arm = &p.arms[arm];
    let deadline = Instant::now() + Duration::from_secs(secs);
    let best = shrink_loop(choices, deadline, |c| {
        let mut s = Src::replay(c.to_vec());
        let (_, r) = run_case(arm, &mut s);
        match r {
            Err(f) if f.sig == sig => {
                let mut rec = s.rec;
                rec.truncate(rec.len().min(MAX_CHOICES));
                while rec.last() == Some(&0) {
                    rec.pop();
                }
                fs::write(out, encode_choices(&rec)).ok();
                Some(rec)
            }
            _ => None,
        }
    });
    fs::write(out, encode_choices(&best)).unwrap();
}

pub fn encode_choices(c: &[u64]) -> String {
    c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
}
pub fn decode_choices(s: &str) -> Vec<u64> {
    s.split_whitespace().map(|x| x.parse().unwrap()).collect()
}

#[derive(Debug)]
enum ExecOut {
    Pass,
    Fail(Fail),
    Crash(String),
    Hang,
    Killed,
}

/// Runs one case in a subprocess.
fn exec_case(id: &str, arm: usize, choices: &[u64], dir: &Path, timeout: u64) -> ExecOut {
    let cf = dir.join("exec.choices");
    let of = dir.join("exec.out");
    fs::write(&cf, encode_choices(choices)).unwrap();
    let _ = fs::remove_file(&of);
    let mut ch = Command::new(std::env::current_exe().unwrap())
        .args(["exec", id, &arm.to_string()])
        .arg(&cf)
        .arg(&of)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let t0 = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            return classify(st, &of);
        }
        if t0.elapsed() > Duration::from_secs(timeout) {
            let _ = ch.kill();
            let _ = ch.wait();
            return ExecOut::Hang;
        }
        std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 200 { 1 } else { 20 }));
    }
}

/// arms of this name run real threads: a case may need several runs to fail
const THREADS: &str = "threads";

fn exec_until(id: &str, arm: usize, choices: &[u64], dir: &Path, tries: u32) -> ExecOut {
    for _ in 1..tries {
        match exec_case(id, arm, choices, dir, CASE_TIMEOUT) {
            ExecOut::Pass => (),
            r => return r,
        }
    }
    exec_case(id, arm, choices, dir, CASE_TIMEOUT)
}

fn signal_of(st: std::process::ExitStatus) -> Option<i32> {
    use std::os::unix::process::ExitStatusExt;
    st.signal()
}

fn classify(st: std::process::ExitStatus, of: &Path) -> ExecOut {
    if let Some(s) = signal_of(st) {
        if s == libc::SIGKILL || s == libc::SIGTERM || s == libc::SIGINT {
            return ExecOut::Killed;
        }
        return ExecOut::Crash(format!("process ended by signal {}", s));
    }
    match st.code() {
        Some(0) => ExecOut::Pass,
        Some(10) => {
            let t = fs::read_to_string(of).unwrap_or_default();
            let mut it = t.splitn(2, '\n');
            ExecOut::Fail(Fail { sig: it.next().unwrap_or("").into(), msg: it.next().unwrap_or("").into() })
        }
        c => ExecOut::Crash(format!("process ended with exit code {:?}", c)),
    }
}

pub fn exec_main(p: &Property, arm: usize, cf: &Path, of: &Path) -> i32 {
    limits();
    let choices = decode_choices(&fs::read_to_string(cf).unwrap());
    let mut s = Src::replay(choices);
    let (_, r) = run_case(&p.arms[arm], &mut s);
    match r {
        Ok(()) => 0,
        Err(f) => {
            fs::write(of, format!("{}\n{}", f.sig, f.msg)).unwrap();
            10
        }
    }
}

fn choices_of(arm: &Arm, seed: u64, id: &str, i: u64) -> Vec<u64> {
    // re-record without running the property body is impossible in general, so the recording
    // of a random case is rebuilt by the `record` subcommand in a subprocess
    let _ = (arm, seed, id, i);
    vec![]
}

/// Worker-side: run case and save its recording progressively? We store the recording after
/// generation by re-running; for crashing cases the recording is streamed to a file.
pub fn record_main(p: &Property, arm: usize, seed: u64, i: u64, out: &Path) -> i32 {
    limits();
    let a = &p.arms[arm];
    let mut s = src_for(a, seed, p.id, i);
    if a.exhaustive {
        fs::write(out, format!("{}", i)).unwrap();
    } else {
        // a SIGABRT/SIGSEGV handler dumps what has been recorded so far
        unsafe {
            DUMP = Some((out.to_path_buf(), &s.rec as *const Vec<u64>));
            for sg in [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGTRAP, libc::SIGFPE, libc::SIGALRM] {
                libc::signal(sg, dump_handler as *const () as usize);
            }
            libc::alarm(CASE_TIMEOUT as u32);
        }
    }
    let (_, r) = run_case(a, &mut s);
    if !a.exhaustive {
        fs::write(out, encode_choices(&s.rec)).unwrap();
    }
    match r {
        Ok(()) => 0,
        Err(f) => {
            fs::write(out.with_extension("fail"), format!("{}\n{}", f.sig, f.msg)).unwrap();
            10
        }
    }
}

static mut DUMP: Option<(PathBuf, *const Vec<u64>)> = None;

extern "C" fn dump_handler(sig: i32) {
    unsafe {
        #[allow(static_mut_refs)]
        if let Some((ref p, rec)) = DUMP {
            let _ = fs::write(p, encode_choices(&*rec));
        }
        libc::signal(sig, libc::SIG_DFL);
        libc::_exit(77);
    }
}

// ---------------------------------------------------------------- parent
pub struct Outcome {
    pub code: i32,
}

fn my_exe() -> PathBuf {
    std::env::current_exe().unwrap()
}

pub fn run(p: &Property, seed: u64, thorough: bool) -> Outcome {
    let t0 = Instant::now();
    let dir = scratch(p.id);
    let out = run_in(p, seed, thorough, &dir, t0);
    let _ = fs::remove_dir_all(&dir);
    out
}

fn run_in(p: &Property, seed: u64, thorough: bool, dir: &Path, t0: Instant) -> Outcome {
    let tier = if thorough { "thorough" } else { "quick" };
    let mut kids = vec![];
    for k in 0..NWORKERS {
        let c = Command::new(my_exe())
            .args(["worker", p.id, &seed.to_string(), tier, &k.to_string()])
            .arg(dir)
            .stdout(Stdio::null())
            .stderr(fs::File::create(dir.join(format!("w{}.err", k))).unwrap())
            .spawn()
            .unwrap();
        kids.push((c, Progress::open(&dir.join(format!("w{}.prog", k))), 0u64, Instant::now(), false));
    }
    // (arm, index, how)
    let mut incident: Option<(u64, u64, String)> = None;
    let mut observed: Option<Fail> = None;
    let mut error: Option<String> = None;
    loop {
        let mut running = 0;
        for (k, (c, prog, last, since, done)) in kids.iter_mut().enumerate() {
            if *done {
                continue;
            }
            match c.try_wait().unwrap() {
                Some(st) => {
                    *done = true;
                    let jf = dir.join(format!("w{}.json", k));
                    if st.success() && jf.exists() {
                        let j = crate::json::parse(&fs::read_to_string(&jf).unwrap()).unwrap();
                        if let Some(J::Arr(a)) = j.get("fail") {
                            let cand = (a[0].u64().unwrap(), a[1].u64().unwrap(), "fail".to_string());
                            if incident.as_ref().map(|x| (cand.0, cand.1) < (x.0, x.1)).unwrap_or(true) {
                                incident = Some(cand);
                                if let (J::Str(sig), J::Str(msg)) = (&a[2], &a[3]) {
                                    observed = Some(Fail { sig: sig.clone(), msg: msg.clone() });
                                }
                            }
                        }
                    } else {
                        let (arm, idx, _) = prog.get();
                        if let Some(s) = signal_of(st) {
                            if s == libc::SIGKILL || s == libc::SIGTERM || s == libc::SIGINT {
                                error = Some(format!("worker {} was killed by signal {}", k, s));
                                continue;
                            }
                        }
                        if incident.is_none() {
                            incident = Some((arm, idx, "crash".into()));
                        }
                    }
                }
                None => {
                    running += 1;
                    let (_, _, n) = prog.get();
                    if n != *last {
                        *last = n;
                        *since = Instant::now();
                    } else if since.elapsed() > Duration::from_secs(CASE_TIMEOUT) {
                        let (arm, idx, _) = prog.get();
                        let _ = c.kill();
                        let _ = c.wait();
                        *done = true;
                        if incident.is_none() {
                            incident = Some((arm, idx, "hang".into()));
                        }
                    }
                }
            }
        }
        if incident.is_some() || error.is_some() {
            // give the others a moment to report an earlier case, then stop them
            std::thread::sleep(Duration::from_millis(50));
            for (k, (c, _, _, _, done)) in kids.iter_mut().enumerate() {
                if !*done {
                    let _ = c.kill();
                    let _ = c.wait();
                    *done = true;
                }
                let _ = k;
            }
            break;
        }
        if running == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    if incident.is_none() {
        if let Some(e) = error {
            eprintln!("ERROR {}", e);
            return Outcome { code: 2 };
        }
    }
    // merge
    let mut evals = 0;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let mut keys: HashSet<u64> = HashSet::new();
    for k in 0..NWORKERS {
        if let Ok(t) = fs::read_to_string(dir.join(format!("w{}.json", k))) {
            let j = crate::json::parse(&t).unwrap();
            evals += j.get("evals").and_then(|x| x.u64()).unwrap_or(0);
            for (m, name) in [(&mut labels, "labels"), (&mut known_hits, "known")] {
                if let Some(J::Obj(o)) = j.get(name) {
                    for (a, b) in o {
                        *m.entry(a.clone()).or_default() += b.u64().unwrap();
                    }
                }
            }
            if let Some(J::Arr(a)) = j.get("samples") {
                samples.extend(a.iter().cloned());
            }
        }
        if let Ok(b) = fs::read(dir.join(format!("w{}.keys", k))) {
            for c in b.chunks_exact(8) {
                keys.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    samples.truncate(12);
    let mut code = 0;
    let mut violations = 0;
    let mut vio_note = None;
    if let Some((ai, idx, how)) = incident {
        let observed = if how == "fail" { observed } else { None };
        match confirm_and_shrink(p, seed, ai as usize, idx, &how, observed, dir) {
            Ok(Some((choices, f))) => {
                violations = 1;
                code = 1;
                let rep = verif_dir().join("replays");
                fs::create_dir_all(&rep).unwrap();
                let path = rep.join(format!("{}.json", p.id));
                let arm = &p.arms[ai as usize];
                let desc = if how == "crash" || how == "hang" {
                    String::new()
                } else {
                    describe(arm, &choices)
                };
                let j = J::Obj(vec![
                    ("property".into(), J::s(p.id)),
                    ("arm".into(), J::s(arm.name)),
                    ("signature".into(), J::s(&f.sig)),
                    ("message".into(), J::s(&f.msg)),
                    ("input".into(), J::s(&desc)),
                    ("seed".into(), J::n(seed)),
                    ("case".into(), J::n(idx)),
                    ("choices".into(), J::s(&encode_choices(&choices))),
                ]);
                fs::write(&path, j.to_string() + "\n").unwrap();
                eprintln!("[{}] {} (arm {}, case {}): {}", p.id, f.sig, arm.name, idx, truncate(&f.msg, 1500));
                if !desc.is_empty() {
                    eprintln!("minimal input: {}", truncate(&desc, 1500));
                }
                println!("VIOLATION property={} replay={}", p.id, path.display());
                vio_note = Some(f.sig);
            }
            Ok(None) => {}
            Err(e) => {
                eprintln!("ERROR [{}] {}", p.id, e);
                code = 2;
            }
        }
    }
    for k in known_findings(p.id) {
        // printed for every listed finding of the property, with what this run saw of it
        println!(
            "KNOWN-FINDING: property={} {} (signature {}, seen {} times in this run)",
            p.id,
            k.note,
            k.sig,
            known_hits.get(&k.sig).copied().unwrap_or(0)
        );
    }
    let exhaustive: Vec<J> = p.arms.iter().filter(|a| a.exhaustive).map(|a| J::s(&format!("{}: {} cases, complete", a.name, tier_cases(a, thorough, 1.0)))).collect();
    let cov = vec![
        ("evaluations".to_string(), J::n(evals)),
        ("distinct_nontrivial".to_string(), J::n(keys.len() as u64)),
        ("rule".to_string(), J::s(p.rule)),
        ("samples".to_string(), J::Arr(samples)),
        ("labels".to_string(), J::Obj(labels.into_iter().map(|(a, b)| (a, J::n(b))).collect())),
        ("enumerated_completely".to_string(), J::Arr(exhaustive)),
    ];
    let mut ev = vec![
        ("property".to_string(), J::s(p.id)),
        ("tier".to_string(), J::s(tier)),
        ("seed".to_string(), J::n(seed)),
        ("level".to_string(), J::s("exploration")),
        ("coverage".to_string(), J::Obj(cov)),
        ("assumptions".to_string(), J::Arr(p.assumptions.iter().map(|s| J::s(s)).collect())),
        ("wall_s".to_string(), J::Num(format!("{:.2}", t0.elapsed().as_secs_f64()))),
        ("violations".to_string(), J::n(violations)),
    ];
    if let Some(s) = vio_note {
        ev.push(("violation_signature".into(), J::s(&s)));
    }
    let evd = verif_dir().join("evidence");
    fs::create_dir_all(&evd).unwrap();
    let mut f = fs::File::create(evd.join(format!("{}.json", p.id))).unwrap();
    writeln!(f, "{}", J::Obj(ev)).unwrap();
    eprintln!("[{}] {} cases, {} distinct non-trivial, {:.1}s, exit {}", p.id, evals, keys.len(), t0.elapsed().as_secs_f64(), code);
    Outcome { code }
}

fn truncate(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}...", &s[..e])
    }
}

fn describe(arm: &Arm, choices: &[u64]) -> String {
    let mut s = Src::replay(choices.to_vec());
    let (ctx, _) = run_case(arm, &mut s);
    ctx.desc
}

/// Re-records the failing case, confirms it, shrinks it.
fn confirm_and_shrink(p: &Property, seed: u64, ai: usize, idx: u64, how: &str, observed: Option<Fail>, dir: &Path) -> Result<Option<(Vec<u64>, Fail)>, String> {
    let _ = choices_of;
    let rf = dir.join("record.choices");
    let st = run_timeout(
        Command::new(my_exe()).args(["record", p.id, &ai.to_string(), &seed.to_string(), &idx.to_string()]).arg(&rf).stdout(Stdio::null()).stderr(Stdio::null()),
        CASE_TIMEOUT + 20,
    );
    let choices = match fs::read_to_string(&rf) {
        Ok(t) => decode_choices(&t),
        Err(_) => return Err(format!("could not re-record case {} of arm {} ({}; {:?})", idx, p.arms[ai].name, how, st)),
    };
    let shrink_secs = std::env::var("PBT_SHRINK_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(25u64);
    match exec_until(p.id, ai, &choices, dir, if p.arms[ai].name == THREADS { 40 } else { 3 }) {
        ExecOut::Fail(f) => {
            if f.sig == "HARNESS" {
                return Err(format!("the harness itself failed: {}", f.msg));
            }
            let of = dir.join("shrunk.choices");
            fs::write(&of, encode_choices(&choices)).unwrap();
            let cf = dir.join("shrink.in");
            fs::write(&cf, encode_choices(&choices)).unwrap();
            run_timeout(
                Command::new(my_exe())
                    .args(["shrink", p.id, &ai.to_string(), &f.sig, &shrink_secs.to_string()])
                    .arg(&cf)
                    .arg(&of)
                    .stdout(Stdio::null())
                    .stderr(Stdio::null()),
                shrink_secs + 20,
            );
            let small = decode_choices(&fs::read_to_string(&of).unwrap_or_default());
            match exec_case(p.id, ai, &small, dir, CASE_TIMEOUT) {
                ExecOut::Fail(g) if g.sig == f.sig => Ok(Some((small, g))),
                _ => Ok(Some((choices, f))),
            }
        }
        ExecOut::Crash(m) => {
            let f = Fail { sig: "crash".into(), msg: format!("the code under test crashed the process: {}", m) };
            let deadline = Instant::now() + Duration::from_secs(shrink_secs);
            let small = shrink_loop(choices, deadline, |c| match exec_case(p.id, ai, c, dir, 10) {
                ExecOut::Crash(_) => {
                    let mut v = c.to_vec();
                    while v.last() == Some(&0) {
                        v.pop();
                    }
                    Some(v)
                }
                _ => None,
            });
            Ok(Some((small, f)))
        }
        ExecOut::Hang => Ok(Some((
            choices,
            Fail { sig: "hang".into(), msg: format!("one case did not finish within {} s (other cases take milliseconds)", CASE_TIMEOUT) },
        ))),
        ExecOut::Killed => Err("the confirming process was killed".into()),
        ExecOut::Pass => match observed {
            // the code is not deterministic (threads, uninitialised memory, random hashing), but what was
            // seen was seen; only what rests on time has to be seen again
            Some(f) if f.sig != "HARNESS" && f.sig != "stuck" => {
                let msg = format!("{} (seen once; it depends on more than the input)", f.msg);
                Ok(Some((choices, Fail { sig: f.sig, msg })))
            }
            _ => Err(format!("case {} of arm {} ({}) did not fail again when run alone", idx, p.arms[ai].name, how)),
        },
    }
}

fn run_timeout(c: &mut Command, secs: u64) -> Option<std::process::ExitStatus> {
    let mut ch = c.spawn().unwrap();
    let t0 = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            return Some(st);
        }
        if t0.elapsed() > Duration::from_secs(secs) {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

/// `replay FILE`: exit 1 with the VIOLATION line when the recorded case still fails.
pub fn replay(props: &[Property], file: &Path) -> i32 {
    let j = crate::json::parse(&fs::read_to_string(file).expect("cannot read replay file")).expect("replay file");
    let id = j.str("property").unwrap().to_string();
    let armn = j.str("arm").unwrap().to_string();
    let choices = decode_choices(j.str("choices").unwrap());
    let p = props.iter().find(|p| p.id == id).expect("unknown property");
    let ai = p.arms.iter().position(|a| a.name == armn).expect("unknown arm");
    let dir = scratch("replay");
    let r = exec_until(&id, ai, &choices, &dir, if armn == THREADS { 200 } else { 3 });
    let _ = fs::remove_dir_all(&dir);
    match r {
        ExecOut::Pass => {
            println!("replay passes");
            0
        }
        ExecOut::Fail(f) => {
            println!("{}: {}", f.sig, f.msg);
            println!("input: {}", describe(&p.arms[ai], &choices));
            println!("VIOLATION property={} replay={}", id, file.display());
            1
        }
        ExecOut::Crash(m) => {
            println!("crash: {}", m);
            println!("VIOLATION property={} replay={}", id, file.display());
            1
        }
        ExecOut::Hang => {
            println!("hang");
            println!("VIOLATION property={} replay={}", id, file.display());
            1
        }
        ExecOut::Killed => 2,
    }
}
