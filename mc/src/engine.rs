use std::collections::{HashMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicPtr, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn dup2(a: i32, b: i32) -> i32;
    fn open(p: *const i8, flags: i32, ...) -> i32;
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

/// seed of the hash maps of the code under test (part of the explored configuration)
pub static HASH_SEED: AtomicU64 = AtomicU64::new(0x5eed);

/// std draws the keys of its hash maps from here: deterministic executions
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let s = HASH_SEED.load(Ordering::Relaxed);
    for i in 0..len {
        let v = (s.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add((i as u64).wrapping_mul(0xBF58476D1CE4E5B9))) >> 29;
        unsafe { *buf.add(i) = v as u8; }
    }
    len as isize
}

static PROGRESS: AtomicU64 = AtomicU64::new(0);
static CRUMB: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
const CRUMB_LEN: usize = 1 << 14;

/// remember what is executed right now (survives a crash of the process)
pub fn crumb(s: &str) {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
    let p = CRUMB.load(Ordering::Relaxed);
    if p.is_null() { return; }
    let b = s.as_bytes();
    let n = b.len().min(CRUMB_LEN - 1);
    unsafe {
        std::ptr::copy_nonoverlapping(b.as_ptr(), p, n);
        *p.add(n) = 0;
    }
}
pub fn alive() { PROGRESS.fetch_add(1, Ordering::Relaxed); }

#[derive(Clone, Debug)]
pub struct Violation { pub key: String, pub text: String }

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub shard: u64,
    pub nshards: u64,
    pub next_case: u64,
    pub evaluations: u64,
    pub transitions: u64,
    pub traces: u64,
    pub states: HashSet<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub notes: HashMap<String, u64>,
    pub capped: bool,
    pub only: Option<String>,
    viol_per_key: HashMap<String, u32>,
}

pub fn hash(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.as_bytes() { h ^= *b as u64; h = h.wrapping_mul(0x100000001b3); }
    h ^ (h >> 31)
}

impl Ctx {
    /// is the next case (of the global enumeration) assigned to this process?
    pub fn mine(&mut self) -> bool {
        let c = self.next_case;
        self.next_case += 1;
        c % self.nshards == self.shard
    }
    pub fn state(&mut self, s: &str) { self.states.insert(hash(s)); }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 3 { let v = s(); self.samples.push(v); }
    }
    pub fn note(&mut self, k: &str, n: u64) { *self.notes.entry(k.to_string()).or_insert(0) += n; }
    /// enough violations collected?
    pub fn stop(&self) -> bool { self.violations.len() >= 12 }
    pub fn violate(&mut self, key: &str, text: String) {
        let n = self.viol_per_key.entry(key.to_string()).or_insert(0);
        *n += 1;
        if *n <= 3 && self.violations.len() < 40 {
            self.violations.push(Violation{key: key.to_string(), text});
        }
    }
    /// evaluates one case: f returns Err(text) if the property is violated; panics are violations
    pub fn case(&mut self, key: &str, desc: impl Fn() -> String, f: impl FnOnce(&mut Ctx) -> Result<(), String>) {
        if self.stop() { return; }
        let d = desc();
        crumb(&d);
        self.evaluations += 1;
        self.transitions += 1;
        self.states.insert(hash(&d));
        let r = catch_unwind(AssertUnwindSafe(|| f(self)));
        match r {
            Ok(Ok(())) => { self.traces += 1; self.sample(|| d.clone()); },
            Ok(Err(e)) => self.violate(key, format!("{}\n  {}", d, e)),
            Err(e) => {
                let m = vpmc::world::panic_msg(&*e);
                self.violate(key, format!("{}\n  the implementation panicked: {}", d, m));
            }
        }
    }
}

/// comparison of floats of the implementation against the reference
pub fn near(a: f64, b: f64) -> bool {
    if a.is_nan() || b.is_nan() { return false; }
    (a - b).abs() <= 1e-6 * (1.0 + a.abs().max(b.abs()))
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\r' => o += "\\r", '\t' => o += "\\t",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn enc(s: &str) -> String { s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r") }
fn dec(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' { match it.next() { Some('n') => o.push('\n'), Some('t') => o.push('\t'), Some('r') => o.push('\r'), Some(x) => o.push(x), None => {} } }
        else { o.push(c) }
    }
    o
}

pub struct Check { pub id: &'static str, pub rule: &'static str, pub assumptions: &'static [&'static str], pub run: fn(&mut Ctx) }

fn verif_dir() -> String { std::env::var("VP_VERIF").unwrap_or("/verif".to_string()) }

fn child(chk: &Check, thorough: bool, shard: u64, n: u64, out: &str) {
    // the checks with whole processes let them run on all processors
    if !matches!(chk.id, "C20" | "C21") { pin(shard); }
    unsafe {
        let crumbf = format!("{}.crumb\0", out);
        let fd = open(crumbf.as_ptr() as *const i8, 0o102 /*O_RDWR|O_CREAT*/, 0o644);
        let f = std::fs::OpenOptions::new().write(true).open(&crumbf[..crumbf.len()-1]).unwrap();
        f.set_len(CRUMB_LEN as u64).unwrap();
        let p = mmap(std::ptr::null_mut(), CRUMB_LEN, 3, 1, fd, 0);
        if p as isize != -1 { CRUMB.store(p, Ordering::Relaxed); }
        let nul = open(b"/dev/null\0".as_ptr() as *const i8, 1);
        dup2(nul, 1);
        let nulr = open(b"/dev/null\0".as_ptr() as *const i8, 0);
        dup2(nulr, 0);
    }
    std::panic::set_hook(Box::new(|_| {}));
    // watchdog
    let out2 = out.to_string();
    std::thread::spawn(move || {
        let mut last = u64::MAX;
        let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let p = PROGRESS.load(Ordering::Relaxed) + vpmc::world::STEPS.load(Ordering::Relaxed);
            if p != last { last = p; since = Instant::now(); }
            else if since.elapsed() > Duration::from_secs(120) {
                let _ = std::fs::write(format!("{}.hang", out2), "hang");
                unsafe { _exit(77); }
            }
        }
    });
    let mut ctx = Ctx{id: chk.id.to_string(), thorough, shard, nshards: n, next_case: 0, evaluations: 0, transitions: 0, traces: 0, states: HashSet::new(),
        samples: vec![], violations: vec![], notes: HashMap::new(), capped: false, only: std::env::var("VP_ONLY").ok(), viol_per_key: HashMap::new()};
    let r = catch_unwind(AssertUnwindSafe(|| (chk.run)(&mut ctx)));
    if let Err(e) = r {
        let m = vpmc::world::panic_msg(&*e);
        ctx.violate("harness", format!("panic outside of a case: {}", m));
    }
    let mut s = String::new();
    s += &format!("evaluations\t{}\ntransitions\t{}\ntraces\t{}\ncapped\t{}\n", ctx.evaluations, ctx.transitions, ctx.traces, ctx.capped as u32);
    for v in &ctx.samples { s += &format!("sample\t{}\n", enc(v)); }
    for (k, v) in &ctx.notes { s += &format!("note\t{}\t{}\n", enc(k), v); }
    for v in &ctx.violations { s += &format!("violation\t{}\t{}\n", enc(&v.key), enc(&v.text)); }
    let mut b: Vec<u8> = vec![];
    for h in &ctx.states { b.extend_from_slice(&h.to_le_bytes()); }
    std::fs::write(format!("{}.states", out), b).unwrap();
    std::fs::write(out, s).unwrap();
    std::io::stdout().flush().ok();
    unsafe { _exit(0); }
}

extern "C" {
    fn sched_getaffinity(pid: i32, n: usize, mask: *mut u64) -> i32;
    fn sched_setaffinity(pid: i32, n: usize, mask: *const u64) -> i32;
}
/// the threads of a execution run one after the other: keep all of them on the same processor
fn pin(shard: u64) {
    let mut m = [0u64; 16];
    unsafe {
        if sched_getaffinity(0, 128, m.as_mut_ptr()) < 0 { return; }
        let cpus: Vec<usize> = (0..1024).filter(|i| m[i / 64] >> (i % 64) & 1 == 1).collect();
        if cpus.is_empty() { return; }
        let c = cpus[shard as usize % cpus.len()];
        let mut k = [0u64; 16];
        k[c / 64] = 1 << (c % 64);
        sched_setaffinity(0, 128, k.as_ptr());
    }
}

/// main of a check binary: `bin <property> <tier>`
pub fn main_of(checks: &[Check]) {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 { eprintln!("usage: {} <property> <quick|thorough>", args[0]); std::process::exit(2); }
    let chk = match checks.iter().find(|c| c.id == args[1]) { Some(c) => c, None => { eprintln!("no check {}", args[1]); std::process::exit(2); } };
    let thorough = args[2] == "thorough";
    if args.len() == 6 {
        child(chk, thorough, args[3].parse().unwrap(), args[4].parse().unwrap(), &args[5]);
        return;
    }
    let t0 = Instant::now();
    let ev = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(format!("{}/replay", ev));
    let scratch = format!("{}/tmp.{}.{}", ev, chk.id, std::process::id());
    let _ = std::fs::create_dir_all(&scratch);
    let n: u64 = std::env::var("VP_SHARDS").ok().and_then(|v| v.parse().ok()).unwrap_or(8);
    let limit = Duration::from_secs(std::env::var("VP_LIMIT").ok().and_then(|v| v.parse().ok()).unwrap_or(if thorough { 7200 } else { 800 }));
    let exe = std::env::current_exe().unwrap();
    let mut kids = vec![];
    for i in 0..n {
        let out = format!("{}/{}", scratch, i);
        let c = std::process::Command::new(&exe).arg(&args[1]).arg(&args[2]).arg(i.to_string()).arg(n.to_string()).arg(&out)
            .stdin(std::process::Stdio::null()).spawn().expect("spawn shard");
        kids.push((c, out, None::<std::process::ExitStatus>));
    }
    let mut timed_out = false;
    loop {
        let mut open = 0;
        for (c, _, st) in kids.iter_mut() {
            if st.is_none() { match c.try_wait() { Ok(Some(s)) => *st = Some(s), _ => open += 1 } }
        }
        if open == 0 { break; }
        if t0.elapsed() > limit {
            timed_out = true;
            for (c, _, st) in kids.iter_mut() { if st.is_none() { let _ = c.kill(); let _ = c.wait(); } }
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let mut states: HashSet<u64> = HashSet::new();
    let (mut evals, mut trans, mut traces, mut capped) = (0u64, 0u64, 0u64, false);
    let mut samples: Vec<String> = vec![];
    let mut notes: std::collections::BTreeMap<String, u64> = Default::default();
    let mut viols: Vec<Violation> = vec![];
    for (i, (_, out, st)) in kids.iter().enumerate() {
        let ok = st.map(|s| s.success()).unwrap_or(false);
        if !ok {
            let c = std::fs::read(format!("{}.crumb", out)).unwrap_or_default();
            let c = String::from_utf8_lossy(&c).split('\0').next().unwrap_or("").to_string();
            let why = if std::path::Path::new(&format!("{}.hang", out)).exists() { "the implementation made no progress for 120 s" }
                else if st.is_none() { "the check ran out of time" } else { "the process of the implementation was aborted" };
            if st.is_none() && timed_out { eprintln!("shard {} ran out of time in: {}", i, c); continue; }
            viols.push(Violation{key: "crash".into(), text: format!("{}\n  {}", c, why)});
            continue;
        }
        let txt = std::fs::read_to_string(out).unwrap_or_default();
        for l in txt.lines() {
            let p: Vec<&str> = l.split('\t').collect();
            match p[0] {
                "evaluations" => evals += p[1].parse::<u64>().unwrap(),
                "transitions" => trans += p[1].parse::<u64>().unwrap(),
                "traces" => traces += p[1].parse::<u64>().unwrap(),
                "capped" => capped |= p[1] == "1",
                "sample" => samples.push(dec(p[1])),
                "note" => *notes.entry(dec(p[1])).or_insert(0) += p[2].parse::<u64>().unwrap(),
                "violation" => viols.push(Violation{key: dec(p[1]), text: dec(p[2])}),
                _ => {}
            }
        }
        if let Ok(b) = std::fs::read(format!("{}.states", out)) {
            for c in b.chunks_exact(8) { states.insert(u64::from_le_bytes(c.try_into().unwrap())); }
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);
    // known findings
    let kf = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())).unwrap_or_default();
    let mut known: HashMap<String, String> = HashMap::new();
    for l in kf.lines() {
        if let Some(r) = l.strip_prefix("finding: ") {
            let mut it = r.splitn(3, ' ');
            if let (Some(p), Some(k), Some(d)) = (it.next(), it.next(), it.next()) {
                if p == format!("property={}", chk.id) { if let Some(k) = k.strip_prefix("key=") { known.insert(k.to_string(), d.to_string()); } }
            }
        }
    }
    let (kn, un): (Vec<Violation>, Vec<Violation>) = viols.into_iter().partition(|v| known.contains_key(&v.key));
    let mut seen: HashSet<String> = HashSet::new();
    for v in &kn { if seen.insert(v.key.clone()) { println!("KNOWN-FINDING: property={} {}", chk.id, known[&v.key]); } }
    let wall = t0.elapsed().as_secs_f64();
    // spread the samples over the shards
    let stride = (samples.len() / 6).max(1);
    let samples: Vec<String> = samples.into_iter().step_by(stride).take(6).collect();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
    let mut j = String::from("{\n");
    j += &format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n", esc(chk.id), esc(if thorough {"thorough"} else {"quick"}), seed);
    j += &format!(" \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n  \"rule\": {},\n", states.len(), trans, traces, !capped && !timed_out && un.is_empty(), esc(chk.rule));
    for (k, v) in &notes { j += &format!("  {}: {},\n", esc(k), v); }
    j += &format!("  \"samples\": [{}]\n }},\n", samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "));
    j += &format!(" \"assumptions\": [{}],\n", chk.assumptions.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "));
    j += &format!(" \"violations\": {},\n \"wall_s\": {:.2}\n}}\n", un.len(), wall);
    std::fs::write(format!("{}/{}.json", ev, chk.id), j).expect("evidence");
    eprintln!("{} {}: {} evaluations, {} states, {} transitions, {} traces, notes {:?}, {:.1} s, {} violations", chk.id, args[2], evals, states.len(), trans, traces, notes, wall, un.len());
    if !un.is_empty() {
        let rp = format!("{}/replay/{}.txt", ev, chk.id);
        let mut t = String::new();
        for v in &un { t += &format!("[{}] {}\n\n", v.key, v.text); }
        std::fs::write(&rp, &t).ok();
        eprintln!("{}", t.chars().take(6000).collect::<String>());
        println!("VIOLATION property={} replay={}", chk.id, rp);
        std::process::exit(1);
    }
    if timed_out { eprintln!("ran out of time"); std::process::exit(3); }
}
