//! C26: documents do not influence each other, and nothing depends on anything but the input
use super::*;
use crate::gen::*;
use crate::hist::*;
use crate::rng::hash;
use crate::run::guarded;
use crate::view::View;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};

///Something to be done with a document of its own, step by step, that leaves a trace of all that was seen of it
#[derive(Clone, Debug)]
pub struct Plan26 { pub start: u64, pub steps: u64, pub n: usize, pub reads: bool, pub damaged: bool }

pub struct Job { plan: Plan26, h: Option<Hist>, rng: Rng, at: usize, pub trace: Vec<u64>, pub notes: Vec<String>, ctx: Ctx, seen: usize }

fn mix(a: u64, b: u64) -> u64 { (a ^ b.rotate_left(31)).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(17) }

///Everything there is to see of a document
fn contents(doc: &Document) -> String {
    let mut s = match snap::doc(doc) { Ok(s) => format!("{:?}{:?}{:?}", s.evs, s.links, s.header), Err(e) => e };
    for k in 0..snap::doc_len(doc) {
        if let Some(e) = doc.get_element(k as ElementKey) {
            s += &format!("|{:?}{:?}{:?}{:?}{:?}{:?}", e.parent_key(), e.declaration_key(), e.class_key(), e.subset_key(), e.processor_key(), e.attribs());
        }
    }
    s += &format!("{:?}{:?}", doc.filename, doc.declarations().map(|d| d.is_some()).collect::<Vec<_>>());
    s
}
///As text, with what comes in arbitrary order (metadata fields) sorted
fn lines(doc: &Document) -> String {
    match doc.xml(0, 2) {
        Ok(x) => { let x = String::from_utf8_lossy(&x).to_string(); let mut l: Vec<&str> = x.lines().collect(); l.sort(); l.join("\n") }
        Err(e) => format!("{:?}", e),
    }
}
///Reads of all kinds, with their results
fn reads(h: &Hist, rng: &mut Rng) -> (String, usize) {
    let doc = &h.doc;
    let mut s = String::new();
    let mut n = 0;
    let v = match View::of(doc) { Ok(v) => v, Err(e) => return (e, 0) };
    for _ in 0..4 {
        let q = super::reads::query(rng, &v, &h.sets, &h.classes, &h.subsets);
        match Selector::from_query(doc, &q) {
            Ok(sel) => { let r: Vec<ElementKey> = doc.select_by_key(0, sel, Recursion::Always, true, true).filter_map(|x| x.element.key()).collect(); n += r.len(); s += &format!("q{:?}", r); }
            Err(e) => s += &format!("q{:?}", e),
        }
        let i = rng.below(v.n.len()) as ElementKey;
        if let Some(e) = doc.get_element(i) {
            for class in ["current", "original"] { for retain in [true, false] { let t = e.text(&TextParameters::new().textclass(class).retaintokenisation(retain)); n += t.as_ref().map_or(0, |t| t.len()); s += &format!("t{:?}", t); } }
            s += &format!("f{:?}", e.get_features(Cmp::Any).map(|x| x.key()).collect::<Vec<_>>());
            s += &format!("d{:?}", e.get_textdelimiter(rng.p(1, 2)).map(|x| x.to_string()));
            if let Some(at) = e.elementtype().annotationtype() { s += &format!("l{:?}{:?}", doc.get_layer_key(i, at, None).ok(), doc.get_default_set(at)); }
        }
        let a: Vec<_> = doc.ancestors_by_key(i, Selector::elements()).map(|x| x.key()).collect();
        s += &format!("a{:?}", a);
        let j = rng.below(v.n.len()) as ElementKey;
        s += &format!("c{:?}", doc.common_ancestors(Selector::elements(), &[i, j]));
        let k = rng.below(v.n.len()) as ElementKey;
        if let Some(id) = doc.get_element(k).and_then(|e| e.id().map(|x| x.to_string())) { s += &format!("i{:?}", doc.get_element_key_by_id(&id)); }
        s += &format!("i{:?}", doc.get_element_key_by_id("nothing like this"));
        n += 6;
    }
    (s, n)
}

impl Job {
    pub fn new(plan: &Plan26, ctx: Ctx) -> Job { Job { plan: plan.clone(), h: None, rng: Rng::new(plan.steps, 261), at: 0, trace: vec![], notes: vec![], ctx, seen: 0 } }
    fn put(&mut self, what: &str, s: &str) { self.seen += 1; self.trace.push(mix(hash(what), hash(s))); self.notes.push(format!("{}: {}", what, crate::run::clip(s, 400))); }
    pub fn more(&self) -> bool { self.at <= self.plan.n }
    pub fn step(&mut self) {
        let at = self.at;
        self.at += 1;
        if at == 0 {
            let mut rng = Rng::new(self.plan.start, 260);
            let mut o = Opts::new(&mut rng);
            o.size = o.size.min(30);
            match guarded(|| Hist::start(&mut rng, o)) { Ok(h) => self.h = Some(h), Err(e) => { self.put("can not start", &e); self.at = usize::MAX; return; } }
        } else if self.plan.damaged && at % 3 == 1 {
            //a document of no further use: only what is said of it counts
            let mut o = Opts::new(&mut self.rng);
            o.size = o.size.min(12);
            let m = Gen::new(&mut self.rng, o).doc();
            let x = super::c05::mutate(&mut self.rng, &crate::model::plain(&m));
            if let Ok(x) = String::from_utf8(x) {
                let r = guarded(|| Ok(match crate::api::parse(&x) { Ok(d) => contents(&d), Err(e) => format!("{:?}", e) })).unwrap_or_else(|e| e);
                self.put("another document", &r);
            }
        } else {
            let (h, rng) = (self.h.as_mut().unwrap(), &mut self.rng);
            let r = match guarded(|| h.step(rng, &Weights::ALL)) { Ok(Outcome::Added(i)) => format!("added {}", i), Ok(Outcome::Done) => "done".into(), Ok(Outcome::Refused) => "refused".into(), Err(e) => e };
            let op = self.h.as_ref().unwrap().log.last().cloned().unwrap_or_default();
            self.put(&format!("operation {}", crate::run::clip(&op, 200)), &r);
            if !["added", "done", "refused"].iter().any(|w| r.starts_with(w)) { self.at = usize::MAX; return; } //something else is wrong: not our business here, as long as it always is
        }
        let c = guarded(|| Ok(contents(&self.h.as_ref().unwrap().doc))).unwrap_or_else(|e| e);
        self.put("contents", &c);
        let last = at == self.plan.n;
        if self.plan.reads || last {
            let (h, rng) = (self.h.as_ref().unwrap(), &mut self.rng);
            let (s, n) = guarded(|| Ok(reads(h, rng))).unwrap_or_else(|e| (e, 0));
            self.seen += n;
            self.put("reads", &s);
            let x = guarded(|| Ok(lines(&self.h.as_ref().unwrap().doc))).unwrap_or_else(|e| e);
            self.put("xml", &x);
            if last { let (h, rng, ctx) = (self.h.as_ref().unwrap(), &mut self.rng, &mut self.ctx); let _ = guarded(|| { super::c05::exercise(&h.doc, rng, ctx); Ok(()) }); }
            //and nothing of all that has changed it
            let d = guarded(|| Ok(contents(&self.h.as_ref().unwrap().doc))).unwrap_or_else(|e| e);
            self.put(if c == d { "unchanged" } else { "CHANGED by reading" }, &d);
        }
    }
    pub fn changed(&self) -> Option<&String> { self.notes.iter().find(|n| n.starts_with("CHANGED")) }
}

///Runs the jobs one after another
fn alone(plans: &[Plan26], ctx: &Ctx) -> Vec<Job> {
    plans.iter().map(|p| { let mut j = Job::new(p, ctx.like()); while j.more() { j.step(); } j.h = None; j }).collect()
}

fn differ(how: &str, want: &[Job], got: &[Job]) -> Result<(), String> {
    for (i, (a, b)) in want.iter().zip(got.iter()).enumerate() {
        if a.trace == b.trace { continue; }
        let at = a.trace.iter().zip(b.trace.iter()).position(|(x, y)| x != y).unwrap_or(a.trace.len().min(b.trace.len()));
        let show = |j: &Job| j.notes.get(at).cloned().unwrap_or("(nothing)".into());
        return Err(format!("history {} of {} ({:?}) gives something else {} than alone, at step {}:\n  alone: {}\n  then: {}", i, want.len(), a.plan, how, at, show(a), show(b)));
    }
    Ok(())
}

fn interleaved(plans: &[Plan26], rng: &mut Rng, ctx: &Ctx) -> (Vec<Job>, u64, usize) {
    let mut jobs: Vec<Job> = plans.iter().map(|p| Job::new(p, ctx.like())).collect();
    let mut order = 0;
    let mut switches = 0;
    let mut last = usize::MAX;
    loop {
        let open: Vec<usize> = (0..jobs.len()).filter(|i| jobs[*i].more()).collect();
        if open.is_empty() { break; }
        let i = *rng.pick(&open);
        if i != last { switches += 1; last = i; }
        order = mix(order, i as u64 + 1);
        jobs[i].step();
        if !jobs[i].more() && rng.p(1, 2) { jobs[i].h = None; }
    }
    (jobs, order, switches)
}

///All at the same time, with random delays; the order in which steps began is recorded
fn parallel(plans: &[Plan26], rng: &mut Rng, ctx: &Ctx) -> Result<(Vec<Job>, u64, usize), String> {
    let barrier = Arc::new(Barrier::new(plans.len()));
    let log = Arc::new(Mutex::new(vec![]));
    let clock = Arc::new(AtomicU64::new(0));
    let mut handles = vec![];
    for (i, p) in plans.iter().enumerate() {
        let (p, barrier, log, clock) = (p.clone(), barrier.clone(), log.clone(), clock.clone());
        let mut d = Rng::new(rng.next(), i as u64);
        let style = d.below(3);
        let c = ctx.like();
        handles.push(std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
            let mut j = Job::new(&p, c);
            barrier.wait();
            let mut mine = vec![];
            while j.more() {
                match (style, d.below(6)) {
                    (0, _) => {}
                    (1, 0..=2) => std::thread::yield_now(),
                    (_, 0) => std::thread::sleep(std::time::Duration::from_micros(d.below(120) as u64)),
                    (_, 1) => for _ in 0..d.below(3000) { std::hint::spin_loop(); },
                    _ => {}
                }
                mine.push((clock.fetch_add(1, Ordering::Relaxed), i));
                j.step();
            }
            j.h = None;
            log.lock().unwrap().extend(mine);
            j
        }).map_err(|e| e.to_string())?);
    }
    let mut jobs = vec![];
    for h in handles { jobs.push(h.join().map_err(|_| "a thread panicked".to_string())?); }
    let mut l = log.lock().unwrap().clone();
    l.sort();
    let order = l.iter().fold(0, |a, x| mix(a, x.1 as u64 + 1));
    let switches = l.windows(2).filter(|w| w[0].1 != w[1].1).count();
    Ok((jobs, order, switches))
}

pub fn plans(rng: &mut Rng) -> Vec<Plan26> {
    let n = rng.range(2, 6);
    let shared = rng.next();
    //many share where they start from, or also what they do: what one has left behind would be found by another
    let mut v: Vec<Plan26> = (0..n).map(|_| Plan26 { start: if rng.p(1, 2) { shared } else { rng.next() }, steps: rng.next(), n: rng.range(2, 14), reads: rng.p(1, 2), damaged: rng.p(1, 3) }).collect();
    if rng.p(1, 3) { let mut c = v[rng.below(n)].clone(); c.n = rng.range(2, 14); v.push(c); }
    v
}

fn case(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    let plans = plans(rng);
    ctx.input(&format!("{:?}", plans));
    let first = alone(&plans, ctx);
    for j in first.iter() {
        if let Some(n) = j.changed() { return Err(format!("{} of {:?}", n, j.plan)); }
        ctx.count("things seen of documents", j.seen);
        ctx.count("histories", 1);
        ctx.eval(if j.trace.len() > 3 { Some(j.trace.iter().fold(0, |a, x| mix(a, *x))) } else { None });
    }
    //backwards: each after others than before
    let rev: Vec<Plan26> = plans.iter().rev().cloned().collect();
    let mut again = alone(&rev, ctx);
    again.reverse();
    differ("in another order", &first, &again)?;
    for _ in 0..2 {
        let (got, order, switches) = interleaved(&plans, rng, ctx);
        differ("interleaved with others", &first, &got)?;
        ctx.eval(Some(order));
        ctx.count("switches between documents in one thread", switches);
    }
    for _ in 0..2 {
        let (got, order, switches) = parallel(&plans, rng, ctx)?;
        differ("in parallel with others", &first, &got)?;
        ctx.eval(Some(order));
        ctx.count("switches between documents in different threads", switches);
    }
    ctx.sample(|| first[0].notes.iter().take(6).map(|n| crate::run::clip(n, 200)).collect::<Vec<_>>().join("\n"));
    //in a process that has seen nothing else
    if rng.p(1, 6) {
        for (p, want) in plans.iter().zip(first.iter()) {
            let exe = std::env::current_exe().map_err(|e| e.to_string())?;
            let out = std::process::Command::new(exe).args(["sub", "c26", &p.start.to_string(), &p.steps.to_string(), &p.n.to_string(), &p.reads.to_string(), &p.damaged.to_string()]).output().map_err(|e| e.to_string())?;
            let got = String::from_utf8_lossy(&out.stdout).trim().to_string();
            let w = want.trace.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(" ");
            if got != w { return Err(format!("history {:?} gives something else in a process of its own: {} and {}", p, crate::run::clip(&got, 300), crate::run::clip(&w, 300))); }
            ctx.count("histories in a process of their own", 1);
        }
    }
    Ok(())
}

pub fn sub(args: &[String]) -> i32 {
    let p = Plan26 { start: args[0].parse().unwrap(), steps: args[1].parse().unwrap(), n: args[2].parse().unwrap(), reads: args[3] == "true", damaged: args[4] == "true" };
    let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || { let mut j = Job::new(&p, Ctx::bare()); while j.more() { j.step(); } println!("{}", j.trace.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(" ")); }).expect("thread");
    h.join().is_err() as i32
}

///Histories in parallel, for a build that watches for races
pub fn sub_races(args: &[String]) -> i32 {
    if args[0] == "probe" { return 0; }
    let (seed, n): (u64, usize) = (args[0].parse().unwrap(), args[1].parse().unwrap());
    let ctx = Ctx::bare();
    let (mut steps, mut switches) = (0, 0);
    for i in 0..n {
        let mut rng = Rng::new(seed, 2600 + i as u64);
        let plans = plans(&mut rng);
        match parallel(&plans, &mut rng, &ctx) { Ok((jobs, _, s)) => { switches += s; steps += jobs.iter().map(|j| j.trace.len()).sum::<usize>(); } Err(e) => { eprintln!("{}", e); return 1; } }
    }
    println!("{} {}", steps, switches);
    0
}

///The same under ThreadSanitizer
fn races(ctx: &mut Ctx) -> Result<(), String> {
    let exe = match std::env::var_os("MONITOR_TSAN") { Some(e) => std::path::PathBuf::from(e), None => { ctx.count("race detector: not built", 1); return Ok(()); } };
    let run = |args: &[String]| std::process::Command::new(&exe).args(["sub", "c26t"]).args(args).env("TSAN_OPTIONS", "halt_on_error=1 exitcode=66").env("RUST_BACKTRACE", "0").stdin(std::process::Stdio::null()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped()).spawn();
    match run(&["probe".into()]).and_then(|c| c.wait_with_output()) { Ok(o) if o.status.success() => {} _ => { ctx.count("race detector: can not be used here", 1); return Ok(()); } }
    let n = if ctx.thorough() { 600 } else { 40 };
    let kids: Vec<_> = (0..6u64).map(|i| run(&[(ctx.seed * 100 + i).to_string(), n.to_string()])).collect();
    for c in kids {
        let o = c.and_then(|c| c.wait_with_output()).map_err(|e| e.to_string())?;
        let err = String::from_utf8_lossy(&o.stderr).to_string();
        if err.contains("WARNING: ThreadSanitizer") { return Err(format!("data race: {}", crate::run::clip(&err, 3000))); }
        if !o.status.success() { ctx.count("race detector: runs not completed", 1); continue; }
        let v: Vec<usize> = String::from_utf8_lossy(&o.stdout).split_whitespace().filter_map(|x| x.parse().ok()).collect();
        ctx.count("race detector: sets of histories", n);
        if v.len() == 2 { ctx.count("race detector: things seen", v[0]); ctx.count("race detector: switches between documents", v[1]); }
    }
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C26",
    rule: "Sets of 2 to 7 histories (parsing, operations that succeed and fail, reads, documents that do not parse), many with a common start or the same operations, are run one after another, in the opposite order, interleaved in one thread, in parallel threads with random delays, and some in a process of their own; every result and the complete contents after every step have to be the same. Contents are compared before and after all reads. The parallel part also runs under ThreadSanitizer. Distinct by trace of a history, or by the order of the steps of all histories.",
    cases: (2000, 40000), case, long: 151,
    extra: Some(races),
    ..BASE
};
