//! Runs the cases of a property in worker processes, watches them, and writes the evidence.
use crate::rng::{hash, Rng};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

pub type Case = fn(&mut Ctx, &mut Rng) -> Result<(), String>;
pub type Fixed = fn(&mut Ctx) -> Result<(), String>;

pub struct Prop {
    pub id: &'static str,
    ///how cases are made and when one is non-trivial
    pub rule: &'static str,
    ///number of random cases: quick, thorough
    pub cases: (usize, usize),
    pub case: Case,
    ///cases that are always tried first
    pub fixed: &'static [(&'static str, Fixed)],
    ///stack of the thread the cases run in
    pub stack: usize,
    ///One in so many random cases is generated with strings of many thousands of bytes (0: none)
    pub long: usize,
    pub assumptions: &'static [&'static str],
    ///known findings: (slug, what fails, does it still?)
    pub probes: &'static [(&'static str, &'static str, fn() -> bool)],
    ///an additional part, run once by the main process: returns a violation
    pub extra: Option<fn(&mut Ctx) -> Result<(), String>>,
    ///workers are watched by a sanitizer: only what that reports counts, not how they end otherwise
    pub sanitized: bool,
}

pub struct Ctx {
    pub tier: String, pub seed: u64, pub index: usize, pub verbose: bool, pub dir: PathBuf,
    counts: BTreeMap<String, u64>, digests: HashSet<u64>, samples: Vec<String>, evaluations: u64,
    ///description of the input of the current case, for reports
    pub input: String,
}

impl Ctx {
    fn new(tier: &str, seed: u64, dir: &Path) -> Ctx { Ctx { tier: tier.into(), seed, index: 0, verbose: false, dir: dir.into(), counts: BTreeMap::new(), digests: HashSet::new(), samples: vec![], evaluations: 0, input: String::new() } }
    ///One for somewhere else, of which nothing is kept
    pub fn like(&self) -> Ctx { Ctx::new(&self.tier, self.seed, &self.dir) }
    pub fn bare() -> Ctx { Ctx::new("quick", 1, &std::env::temp_dir()) }
    pub fn thorough(&self) -> bool { self.tier == "thorough" }
    ///Counts something that was observed
    pub fn count(&mut self, what: &str, n: usize) { *self.counts.entry(what.to_string()).or_insert(0) += n as u64; }
    ///One evaluation of the oracle; if it was not trivial, identified by the given digest
    pub fn eval(&mut self, digest: Option<u64>) {
        self.evaluations += 1;
        if let Some(d) = digest { if self.digests.len() < 2_000_000 { self.digests.insert(d); } }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let s = f();
            if s.len() > 40 { self.samples.push(clip(&s, 1500)); }
        }
    }
    pub fn input(&mut self, s: &str) { if self.verbose { eprintln!("--- input\n{}\n---", clip(s, 20000)); } self.input = clip(s, 6000); }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n { return s.to_string(); }
    let mut e = n;
    while !s.is_char_boundary(e) { e -= 1; }
    format!("{}... ({} bytes)", &s[..e], s.len())
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"), c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}

pub fn silence_panics() {
    std::panic::set_hook(Box::new(|info| { LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{}", info).replace('\n', " "))); }));
}
thread_local! { static LAST_PANIC: std::cell::RefCell<Option<String>> = std::cell::RefCell::new(None); }

///Runs f, turning a panic into an error
pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default())),
    }
}

fn run_case(prop: &Prop, ctx: &mut Ctx, index: usize) -> Result<(), String> {
    ctx.index = index;
    ctx.input.clear();
    if index < prop.fixed.len() {
        let (name, f) = prop.fixed[index];
        ctx.count("fixed cases", 1);
        guarded(|| f(ctx)).map_err(|e| format!("[{}] {}", name, e))
    } else {
        let mut rng = Rng::new(ctx.seed, hash(prop.id).wrapping_add(index as u64));
        ctx.count("random cases", 1);
        if prop.long > 0 && index % prop.long == prop.long / 2 {
            rng.1 = [3, 10, 30][index / prop.long % 3];
            ctx.count("random cases with long strings", 1);
        }
        guarded(|| (prop.case)(ctx, &mut rng))
    }
}

fn cpu_ticks(pid: u32) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

pub fn worker(prop: &'static Prop, tier: &str, seed: u64, k: usize, n: usize, dir: &Path) -> i32 {
    let (tier, dir) = (tier.to_string(), dir.to_path_buf());
    silence_panics();
    let h = std::thread::Builder::new().stack_size(prop.stack).spawn(move || {
        silence_panics();
        let mut ctx = Ctx::new(&tier, seed, &dir);
        let total = prop.fixed.len() + if tier == "thorough" { prop.cases.1 } else { prop.cases.0 };
        let progress = std::fs::File::create(dir.join(format!("{}.progress", k))).expect("progress");
        use std::os::unix::fs::FileExt;
        let limit = Duration::from_secs(std::env::var("MONITOR_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 1800 } else { 240 }));
        let start = Instant::now();
        let mut i = k;
        let mut rc = 0;
        while i < total {
            progress.write_all_at(&(i as u64 + 1).to_le_bytes(), 0).expect("progress");
            if let Err(e) = run_case(prop, &mut ctx, i) {
                std::fs::write(dir.join(format!("{}.violation", k)), format!("{}\n{}\n--- input\n{}", i, e, ctx.input)).expect("violation");
                rc = 1;
                break;
            }
            if start.elapsed() > limit { ctx.count("workers stopped by time limit", 1); break; }
            i += n;
        }
        let mut out = format!("E {}\n", ctx.evaluations);
        for (k, v) in ctx.counts.iter() { out.push_str(&format!("C {} {}\n", v, k)); }
        for s in ctx.samples.iter() { out.push_str(&format!("S {}\n", json(s))); }
        out.push_str("D");
        for d in ctx.digests.iter() { out.push_str(&format!(" {:x}", d)); }
        out.push('\n');
        std::fs::write(dir.join(format!("{}.stats", k)), out).expect("stats");
        rc
    }).expect("thread");
    h.join().unwrap_or(1)
}

pub struct Report { pub violations: Vec<(usize, String)>, pub evaluations: u64, pub counts: BTreeMap<String, u64>, pub samples: Vec<String>, pub digests: HashSet<u64> }

const CASE_CPU: u64 = 90; //seconds of CPU time for a single case before we call it endless

fn spawn_all(prop: &Prop, tier: &str, seed: u64, dir: &Path) -> Report {
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8).max(2);
    let exe = std::env::current_exe().expect("exe");
    let mut kids: Vec<(usize, std::process::Child, u64, u64, bool)> = vec![];
    for k in 0..n {
        let mut c = std::process::Command::new(&exe);
        c.args(["worker", prop.id, tier, &seed.to_string(), &k.to_string(), &n.to_string()]).arg(dir);
        c.stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null());
        if prop.sanitized { c.stderr(std::fs::File::create(dir.join(format!("{}.stderr", k))).expect("stderr")); } else { c.stderr(std::process::Stdio::null()); }
        let sanitized = prop.sanitized;
        unsafe { c.pre_exec(move || {
            let l = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
            if !sanitized { libc::setrlimit(libc::RLIMIT_AS, &l); }
            let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &c);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        }); }
        kids.push((k, c.spawn().expect("worker"), 0, 0, false));
    }
    let hz = 100;
    let read_progress = |k: usize| -> u64 { std::fs::read(dir.join(format!("{}.progress", k))).ok().and_then(|b| b.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap()))).unwrap_or(0) };
    let mut rep = Report { violations: vec![], evaluations: 0, counts: BTreeMap::new(), samples: vec![], digests: HashSet::new() };
    let mut running = n;
    while running > 0 {
        std::thread::sleep(Duration::from_millis(40));
        for (k, child, last, since, done) in kids.iter_mut() {
            if *done { continue; }
            match child.try_wait().expect("wait") {
                Some(status) => {
                    *done = true;
                    running -= 1;
                    let at = read_progress(*k);
                    let vfile = dir.join(format!("{}.violation", k));
                    if let Ok(v) = std::fs::read_to_string(&vfile) {
                        let (i, m) = v.split_once('\n').unwrap_or(("0", &v));
                        rep.violations.push((i.parse().unwrap_or(0), m.to_string()));
                    } else if !status.success() {
                        if at == 0 { eprintln!("worker {} failed to start: {:?}", k, status); }
                        let why = match status.signal() { Some(libc::SIGABRT) => "process aborted (stack overflow, out of memory or abort)".to_string(), Some(libc::SIGSEGV) => "segmentation fault (or stack overflow)".to_string(), Some(s) => format!("process ended by signal {}", s), None => format!("process ended with status {:?}", status.code()) };
                        if prop.sanitized {
                            let err = std::fs::read(dir.join(format!("{}.stderr", k))).unwrap_or_default();
                            match memory_error(&String::from_utf8_lossy(&err)) {
                                Some(e) => rep.violations.push(((at.max(1) - 1) as usize, format!("{}\n{}", why, e))),
                                None => *rep.counts.entry(format!("workers ended without a memory error: {}", why)).or_insert(0) += 1,
                            }
                            continue;
                        }
                        rep.violations.push(((at.max(1) - 1) as usize, why));
                    }
                }
                None => {
                    let at = read_progress(*k);
                    let cpu = cpu_ticks(child.id()).unwrap_or(0);
                    if at != *last { *last = at; *since = cpu; }
                    else if at > 0 && cpu.saturating_sub(*since) > CASE_CPU * hz {
                        let _ = child.kill();
                        let _ = child.wait();
                        *done = true;
                        running -= 1;
                        if prop.sanitized { *rep.counts.entry("workers that did not end".into()).or_insert(0) += 1; continue; }
                        rep.violations.push(((at - 1) as usize, format!("does not terminate: no result after {} s of CPU time", CASE_CPU)));
                    }
                }
            }
        }
        if !rep.violations.is_empty() && running > 0 && std::env::var("MONITOR_ALL").is_err() {
            //one violation settles it; give the others a moment, then stop
            for (_, child, _, _, done) in kids.iter_mut() { if !*done { let _ = child.kill(); let _ = child.wait(); *done = true; running -= 1; } }
        }
    }
    for k in 0..n {
        if let Ok(s) = std::fs::read_to_string(dir.join(format!("{}.stats", k))) {
            for line in s.lines() {
                let (t, r) = line.split_at(1);
                let r = r.trim_start();
                match t {
                    "E" => rep.evaluations += r.parse::<u64>().unwrap_or(0),
                    "C" => if let Some((v, k)) = r.split_once(' ') { *rep.counts.entry(k.to_string()).or_insert(0) += v.parse::<u64>().unwrap_or(0) },
                    "S" => rep.samples.push(r.to_string()),
                    _ => for d in r.split(' ') { if let Ok(d) = u64::from_str_radix(d, 16) { rep.digests.insert(d); } },
                }
            }
        }
    }
    rep
}

///What a sanitizer, interpreter or the checks of the standard library say of a memory error, if they do
pub fn memory_error(err: &str) -> Option<String> {
    for (i, line) in err.lines().enumerate() {
        let asan = line.contains("ERROR: AddressSanitizer") && !line.contains("stack-overflow") && !line.contains("out-of-memory") && !line.contains("out of memory") && !line.contains("allocation-size-too-big") && !line.contains("failed to allocate") && !line.contains("ABRT");
        if asan || line.contains("WARNING: MemorySanitizer") || line.contains("unsafe precondition(s) violated") || line.contains("error: Undefined Behavior") || line.contains("misaligned pointer dereference") || line.contains("null pointer dereference occurred") || line.contains("trying to construct an enum from an invalid value") {
            return Some(err.lines().skip(i).take(25).collect::<Vec<_>>().join("\n"));
        }
    }
    None
}

///A scratch directory, removed when done
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(name: &str) -> Scratch {
        let p = std::env::temp_dir().join(format!("folia-monitor-{}-{}", name, std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
}
impl Drop for Scratch { fn drop(&mut self) { if std::env::var_os("MONITOR_KEEP").is_some() { return; } let _ = std::fs::remove_dir_all(&self.0); } }

pub fn check(prop: &'static Prop, tier: &str, seed: u64, root: &Path) -> i32 {
    let start = Instant::now();
    let scratch = Scratch::new(prop.id);
    silence_panics();
    let mut rep = spawn_all(prop, tier, seed, &scratch.0);
    //known findings
    let known = std::fs::read_to_string(root.join("known-findings.txt")).unwrap_or_default();
    for (slug, what, f) in prop.probes {
        let again = guarded(|| Ok(f())).unwrap_or(true);
        let listed = known.lines().any(|l| l.starts_with(&format!("finding: property={} id={} ", prop.id, slug)));
        if again && listed { println!("KNOWN-FINDING: property={} {}", prop.id, what); }
        else if again { rep.violations.push((usize::MAX, format!("[{}] {}", slug, what))); }
        *rep.counts.entry("known findings probed".into()).or_insert(0) += 1;
    }
    if let Some(f) = prop.extra {
        if rep.violations.is_empty() {
            let mut ctx = Ctx::new(tier, seed, &scratch.0);
            if let Err(e) = guarded(|| f(&mut ctx)) { rep.violations.push((usize::MAX - 1, format!("{}\n--- input\n{}", e, ctx.input))); }
            rep.evaluations += ctx.evaluations;
            for (k, v) in ctx.counts { *rep.counts.entry(k).or_insert(0) += v; }
            rep.digests.extend(ctx.digests);
            for s in ctx.samples { rep.samples.insert(0, json(&s)); }
        }
    }
    rep.violations.sort();
    let wall = start.elapsed().as_secs_f64();
    //evidence
    let counts: Vec<String> = rep.counts.iter().map(|(k, v)| format!("{}: {}", json(k), v)).collect();
    let samples: Vec<String> = rep.samples.iter().take(3).cloned().collect();
    let assumptions: Vec<String> = prop.assumptions.iter().map(|s| json(s)).collect();
    let ev = format!("{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\", \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": [{}], \"observed\": {{{}}}}}, \"assumptions\": [{}], \"wall_s\": {:.2}, \"violations\": {}}}\n",
        json(prop.id), json(tier), seed, rep.evaluations, rep.digests.len(), json(prop.rule), samples.join(", "), counts.join(", "), assumptions.join(", "), wall, rep.violations.len());
    let evdir = root.join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    if let Err(e) = std::fs::File::create(evdir.join(format!("{}.json", prop.id))).and_then(|mut f| f.write_all(ev.as_bytes())) { eprintln!("can not write evidence: {}", e); }
    println!("{}: {} evaluations, {} distinct non-trivial, {:.1} s", prop.id, rep.evaluations, rep.digests.len(), wall);
    for (k, v) in rep.counts.iter() { println!("    {}: {}", k, v); }
    if let Some((index, msg)) = rep.violations.first() {
        let rdir = root.join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{}-{}-{}-{}.json", prop.id, tier, seed, index));
        let _ = std::fs::write(&path, format!("{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"index\": {}, \"message\": {}}}\n", json(prop.id), json(tier), seed, index, json(msg)));
        println!("{}", clip(msg, 4000));
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        return 1;
    }
    0
}

///Runs the case of a replay file again
pub fn replay(prop: &'static Prop, path: &str) -> i32 {
    let s = match std::fs::read_to_string(path) { Ok(s) => s, Err(e) => { eprintln!("{}", e); return 2; } };
    let num = |k: &str| -> u64 { s.split(&format!("\"{}\": ", k)).nth(1).map(|r| r.chars().take_while(|c| c.is_ascii_digit()).collect::<String>()).and_then(|d| d.parse().ok()).unwrap_or(0) };
    let tier = if s.contains("\"tier\": \"thorough\"") { "thorough" } else { "quick" };
    one(prop, tier, num("seed"), num("index") as usize)
}

pub fn one(prop: &'static Prop, tier: &str, seed: u64, index: usize) -> i32 {
    let scratch = Scratch::new("replay");
    let (tier, dir) = (tier.to_string(), scratch.0.clone());
    let h = std::thread::Builder::new().stack_size(prop.stack).spawn(move || {
        silence_panics();
        let mut ctx = Ctx::new(&tier, seed, &dir);
        ctx.verbose = true;
        if index >= usize::MAX - 1 { println!("this one belongs to the part of the check that is not split in cases; run the whole check"); return 2; }
        match run_case(prop, &mut ctx, index) { Ok(()) => { println!("case {} of {}: no violation", index, prop.id); 0 } Err(e) => { println!("case {} of {}: {}", index, prop.id, e); 1 } }
    }).expect("thread");
    h.join().unwrap_or(1)
}
