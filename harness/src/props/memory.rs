//! C25: memory errors and undefined behaviour, looked for by sanitizers, an interpreter and valgrind
use super::*;
use crate::gen::*;
use crate::hist::*;
use crate::model::*;
use crate::run::guarded;
use crate::snap::Data;

fn utf8(s: &str, what: &str) -> Result<usize, String> {
    //looking at the bytes one by one, whatever the type promises
    let b: Vec<u8> = s.bytes().collect();
    std::str::from_utf8(std::hint::black_box(&b)).map(|_| 1).map_err(|e| format!("invalid string ({}) in {}: {:?}", e, what, b))
}

///All strings there are in a document
pub fn strings(doc: &Document) -> Result<usize, String> {
    let mut n = 0;
    for k in 0..snap::doc_len(doc) {
        let e = match doc.get_element(k as ElementKey) { Some(e) => e, None => continue };
        for (what, s) in [("class", e.class()), ("set", e.set()), ("subset", e.subset()), ("processor", e.processor()), ("identifier", e.id())] { if let Some(s) = s { n += utf8(s, what)?; } }
        for a in e.attribs().iter() { if let Some((k, v)) = snap::attr(a) { n += utf8(&k, "name of attribute")? + utf8(&v, "attribute")?; } }
        for i in 0.. { match e.elementdata_pub().get_data_at(i) { Some(DataType::Text(t)) => n += utf8(t, "text")?, Some(DataType::Comment(t)) => n += utf8(t, "comment")?, Some(_) => {} None => break } }
        if k < 40 { if let Ok(t) = e.text(&TextParameters::new()) { n += utf8(&t, "text content")?; } }
    }
    n += utf8(doc.id(), "identifier of the document")?;
    Ok(n)
}

///One small workload: made, parsed, damaged, changed, read
pub fn workload(rng: &mut Rng, ctx: &mut Ctx, size: usize) -> Result<(), String> {
    let mut o = Opts::new(rng);
    o.size = o.size.min(size);
    match rng.below(3) {
        0 => {
            let mut h = match guarded(|| Hist::start(rng, o)) { Ok(h) => h, Err(_) => return Ok(()) };
            for _ in 0..rng.range(2, size.min(20)) { if guarded(|| h.step(rng, &Weights::ALL)).is_err() { break; } ctx.count("operations", 1); }
            let n = strings(&h.doc)?;
            ctx.count("strings examined", n);
            let _ = guarded(|| { super::c05::exercise(&h.doc, rng, ctx); Ok(()) });
        }
        1 => {
            let m = Gen::new(rng, o).doc();
            let x = if rng.p(1, 2) { plain(&m) } else { write(&m, Style::random(rng)) };
            let d = match guarded(|| parse(&x)) { Ok(d) => d, Err(_) => return Ok(()) };
            ctx.count("documents parsed", 1);
            let n = strings(&d)?;
            ctx.count("strings examined", n);
            let _ = guarded(|| { super::c05::exercise(&d, rng, ctx); Ok(()) });
        }
        _ => {
            let m = Gen::new(rng, o).doc();
            let x = super::c05::mutate(rng, &plain(&m));
            let p = ctx.dir.join(format!("c25-{}.xml", std::process::id()));
            let file = std::str::from_utf8(&x).is_err() || rng.p(1, 4);
            let d = guarded(|| {
                if file {
                    std::fs::write(&p, &x).map_err(|e| format!("{}", e))?;
                    let r = Document::from_file(p.to_str().unwrap(), DocumentProperties::default());
                    let _ = std::fs::remove_file(&p);
                    r.map_err(|e| format!("{}", e))
                } else { crate::api::parse(std::str::from_utf8(&x).unwrap()).map_err(|e| format!("{}", e)) }
            });
            ctx.count("damaged documents", 1);
            match d {
                Ok(d) => { let n = strings(&d)?; ctx.count("strings examined", n); let _ = guarded(|| { super::c05::exercise(&d, rng, ctx); Ok(()) }); }
                Err(e) => { utf8(&e, "error message")?; }
            }
        }
    }
    Ok(())
}

///Little, but of everything: for the interpreter, which is slow. The seed decides what is done to the document.
fn light(x: &[u8], path: &str, rng: &mut Rng) -> Result<usize, String> {
    let mut n = 0;
    let d = match std::str::from_utf8(x) {
        Ok(s) if rng.p(3, 4) => crate::api::parse(s),
        _ => Document::from_file(path, DocumentProperties::default()),
    };
    let mut doc = match d { Ok(d) => d, Err(e) => return utf8(&format!("{} {:?}", e, e), "error message") };
    n += strings(&doc)?;
    let total = snap::doc_len(&doc);
    //changes
    for _ in 0..4 {
        let k = rng.below(total.max(1)) as ElementKey;
        let j = rng.below(total.max(1)) as ElementKey;
        let id = doc.get_element(j).and_then(|e| e.id().map(|s| s.to_string())).unwrap_or("none".into());
        let fresh = format!("new{}", rng.below(6));
        let ok = match rng.below(10) {
            0 => doc.add_element_to(k, ElementData::new(ElementType::Word).with_attrib(Attribute::Id(fresh)).with_text("x é".into())).is_ok(),
            1 => doc.annotate(k, ElementData::new(ElementType::PosAnnotation).with_attrib(Attribute::Class("c".into())).with_attrib(Attribute::Set(fresh))).is_ok(),
            2 => doc.annotate_span(ElementData::new(ElementType::Entity).with_attrib(Attribute::Class("c".into())).with_attrib(Attribute::Set("s".into())).with_span(&[&id])).is_ok(),
            3 => doc.attach_element(k, j).is_ok(),
            4 => doc.detach_element(k).is_ok(),
            5 => doc.declare(AnnotationType::POS, &Some(fresh), &None, &None).is_ok(),
            6 => doc.add_element(ElementData::new(ElementType::Sentence).with(DataType::AddElement(ElementData::new(ElementType::Word).with_attrib(Attribute::Id(fresh))))).is_ok(),
            7 => doc.add_processor(Processor::new(fresh.clone()).with_id(fresh)).is_ok(),
            8 => doc.add_element_to(k, ElementData::new(ElementType::Word).with_attrib(Attribute::Id(id))).is_ok(),
            _ => doc.add_element_to(999_999, ElementData::new(ElementType::Word)).is_ok(),
        };
        n += ok as usize;
    }
    //reads
    for (sel, inclusive, spans) in [(Selector::all_data(), true, true), (Selector::elements(), false, false)] { n += doc.select_data_by_key(0, sel, Recursion::Always, inclusive, spans).take(2000).count(); }
    for q in [Query::select().element(Cmp::Is(ElementType::Word)), Query::select().set(Cmp::Is("s".into())).class(Cmp::Any), Query::select().elementgroup(Cmp::Is(ElementGroup::Span)).class(Cmp::Is("c".into()))] {
        if let Ok(sel) = Selector::from_query(&doc, &q) { n += doc.select_by_key(0, sel, Recursion::Always, true, true).take(2000).count(); }
    }
    for _ in 0..3 {
        let k = rng.below(snap::doc_len(&doc)) as ElementKey;
        if let Some(e) = doc.get_element(k) {
            if let Ok(t) = e.text(&TextParameters::new()) { n += utf8(&t, "text content")?; }
            let _ = e.get_textdelimiter(false);
            n += e.get_features(Cmp::Any).count();
            if let Some(at) = e.elementtype().annotationtype() { let _ = doc.get_layer_key(k, at, e.set()); }
        }
        n += doc.ancestors_by_key(k, Selector::elements()).count();
        let _ = doc.common_ancestors(Selector::elements(), &[k, 0]);
    }
    if let Ok(x) = doc.xml(0, rng.below(3)) { std::str::from_utf8(&x).map_err(|e| format!("serialised as invalid UTF-8: {}", e))?; n += 1; }
    Ok(n)
}

///For the interpreter: the files prepared in a directory, one after another, as long as there is time
pub fn sub(args: &[String]) -> i32 {
    if args[0] == "probe" { return 0; }
    let (dir, k, step, secs): (&str, usize, usize, u64) = (&args[0], args[1].parse().unwrap(), args[2].parse().unwrap(), args[3].parse().unwrap());
    let start = std::time::Instant::now();
    let mut i = k;
    while let Ok(x) = std::fs::read(format!("{}/{}.xml", dir, i)) {
        println!("file {}", i);
        let mut rng = Rng::new(i as u64, 25);
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| light(&x, &format!("{}/{}.xml", dir, i), &mut rng))) { Ok(Ok(n)) => println!("done {}", n), Ok(Err(e)) => { println!("INVALID {}", e); return 1; } Err(_) => println!("done 0") }
        if start.elapsed().as_secs() > secs { break; }
        i += step;
    }
    0
}

///Small documents, some of them damaged
fn prepare(dir: &std::path::Path, seed: u64, n: usize) -> Result<(), String> {
    for i in 0..n {
        let mut rng = Rng::new(seed, 250_000 + i as u64);
        let mut o = Opts::new(&mut rng);
        o.size = o.size.min(6 + i / 16);
        let m = Gen::new(&mut rng, o).doc();
        let x = if rng.p(2, 3) { plain(&m) } else { write(&m, Style::random(&mut rng)) };
        let x = if rng.p(1, 3) { super::c05::mutate(&mut rng, &x) } else { x.into_bytes() };
        std::fs::write(dir.join(format!("{}.xml", i)), x).map_err(|e| e.to_string())?;
    }
    Ok(())
}

pub fn sub_prepare(args: &[String]) -> i32 { prepare(std::path::Path::new(&args[0]), args[1].parse().unwrap(), args[2].parse().unwrap()).is_err() as i32 }

///Workloads without more, for a build that watches for uninitialised memory
pub fn sub_plain(args: &[String]) -> i32 {
    if args[0] == "probe" { return 0; }
    let (seed, n, secs): (u64, u64, u64) = (args[0].parse().unwrap(), args[1].parse().unwrap(), args[2].parse().unwrap());
    let start = std::time::Instant::now();
    let mut ctx = Ctx::bare();
    let mut done = 0;
    crate::run::silence_panics();
    for i in 0..n {
        let mut rng = Rng::new(seed, 2_500_000 + i);
        match guarded(|| workload(&mut rng, &mut ctx, 40)) { Err(e) if !e.starts_with("panic") => { println!("INVALID {}", e); return 1; } _ => done += 1 }
        if start.elapsed().as_secs() > secs { break; }
    }
    println!("done {}", done);
    0
}

fn case(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    //what the other checks do; how it ends is their business
    if rng.p(1, 2) {
        let p = *rng.pick(super::ALL);
        if ["C22", "C23", "C24", "C25"].contains(&p.id) { return Ok(()); }
        if p.id == "C26" && rng.p(3, 4) { return Ok(()); }
        let mut c = ctx.like();
        c.index = ctx.index;
        if ctx.thorough() && rng.p(1, 100) && !p.fixed.is_empty() && p.id != "C05" { let f = *rng.pick(p.fixed); let _ = guarded(|| f.1(&mut c)); ctx.count("fixed cases of other checks", 1); }
        else { let _ = guarded(|| (p.case)(&mut c, rng)); ctx.count("cases of other checks", 1); }
        ctx.eval(Some(rng.next()));
        return Ok(());
    }
    let size = if rng.p(1, 10) { 200 } else { 40 };
    match guarded(|| workload(rng, ctx, size)) { Err(e) if !e.starts_with("panic") => return Err(e), _ => {} }
    ctx.eval(Some(rng.next()));
    ctx.count(if cfg!(sanitize_address) { "workloads under AddressSanitizer" } else { "workloads without AddressSanitizer" }, 1);
    Ok(())
}

type Child = std::io::Result<std::process::Child>;
fn spawn(c: &mut std::process::Command, dir: &std::path::Path, name: &str) -> Child {
    use std::os::unix::process::CommandExt;
    let f = |x: &str| std::fs::File::create(dir.join(format!("{}.{}", name, x)));
    unsafe { c.pre_exec(|| { libc::setpgid(0, 0); libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); Ok(()) }); }
    c.env("RUST_BACKTRACE", "0").stdin(std::process::Stdio::null()).stdout(f("out")?).stderr(f("err")?).spawn()
}
///Waits for it; gives output, errors and status, or nothing if it took too long or could not be started
fn finish(c: Child, secs: u64, dir: &std::path::Path, name: &str) -> Option<(String, String, std::process::ExitStatus)> {
    let mut c = c.ok()?;
    let start = std::time::Instant::now();
    let status = loop {
        match c.try_wait() { Ok(Some(s)) => break s, Ok(None) => {} Err(_) => return None }
        if start.elapsed().as_secs() > secs { unsafe { libc::kill(-(c.id() as i32), libc::SIGKILL); } let _ = c.kill(); let _ = c.wait(); return None; }
        std::thread::sleep(std::time::Duration::from_millis(10));
    };
    let read = |x: &str| String::from_utf8_lossy(&std::fs::read(dir.join(format!("{}.{}", name, x))).unwrap_or_default()).to_string();
    Some((read("out"), read("err"), status))
}

fn instruments(ctx: &mut Ctx) -> Result<(), String> {
    let secs = if ctx.thorough() { 1200 } else { 50 };
    let dir = ctx.dir.join("c25");
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    prepare(&dir, ctx.seed, if ctx.thorough() { 4000 } else { 400 })?;
    let file = |i: usize| dir.join(format!("{}.xml", i)).to_str().unwrap().to_string();
    //valgrind, on the tools as they are
    let bins = super::lint::tool("");
    let vg = |tool: &str, args: &[String], name: &str| spawn(std::process::Command::new("valgrind").args(["-q", "--error-exitcode=97", "--leak-check=no"]).arg(bins.join(tool)).args(args), &dir, name);
    let mut runs = vec![];
    for (i, t) in ["parse", "serialise", "select", "parse,serialise,select,unknown"].iter().enumerate() {
        //the measuring tool gives up on what does not parse
        let good = dir.join(format!("good{}.xml", i));
        std::fs::write(&good, plain(&Gen::new(&mut Rng::new(ctx.seed, i as u64), Opts::new(&mut Rng::new(ctx.seed, i as u64))).doc())).map_err(|e| e.to_string())?;
        runs.push(("foliabenchmarkr", vec!["-t".to_string(), t.to_string(), good.to_str().unwrap().to_string()]));
    }
    for k in 0..if ctx.thorough() { 40 } else { 4 } { let mut a: Vec<String> = (0..12).map(|i| file(k * 12 + i)).collect(); a.push("/nonexistent".into()); runs.push(("folialintr", a)); }
    for (b, part) in runs.chunks(8).enumerate() {
        let kids: Vec<(String, Child)> = part.iter().enumerate().map(|(i, (t, a))| { let n = format!("vg{}-{}", b, i); let c = vg(t, a, &n); (n, c) }).collect();
        for (n, c) in kids {
            match finish(c, 300, &dir, &n) {
                Some((_, err, st)) => { if st.code() == Some(97) { return Err(format!("valgrind reports an error: {}", crate::run::clip(&err, 3000))); } ctx.count("runs of the tools under valgrind", 1); ctx.eval(Some(crate::rng::hash(&n))); }
                None => ctx.count("runs under valgrind not completed", 1),
            }
        }
    }
    //uninitialised memory
    match std::env::var_os("MONITOR_MSAN") {
        None => ctx.count("MemorySanitizer: not built", 1),
        Some(exe) => {
            let kids: Vec<(String, Child)> = (0..8u64).map(|i| { let n = format!("ms{}", i); let c = spawn(std::process::Command::new(&exe).args(["sub", "c25m", &(ctx.seed * 10 + i).to_string(), "1000000", &(secs / 3).to_string()]), &dir, &n); (n, c) }).collect();
            for (n, c) in kids {
                match finish(c, secs + 300, &dir, &n) {
                    Some((out, err, st)) => {
                        if let Some(e) = crate::run::memory_error(&err) { return Err(e); }
                        if out.contains("INVALID") { return Err(out); }
                        if st.success() { let k: usize = out.trim().rsplit(' ').next().and_then(|x| x.parse().ok()).unwrap_or(0); ctx.count("workloads under MemorySanitizer", k); ctx.eval(Some(crate::rng::hash(&n))); } else { ctx.count("MemorySanitizer: runs not completed", 1); }
                    }
                    None => ctx.count("MemorySanitizer: runs not completed", 1),
                }
            }
        }
    }
    //the interpreter
    let root = match std::env::var("MONITOR_MIRI") { Ok(r) => r, Err(_) => { ctx.count("Miri: not built", 1); return Ok(()); } };
    let miri = |krate: &str, flags: &str, args: &[String], env: &[(&str, &str)], name: &str| {
        let mut c = std::process::Command::new("cargo");
        c.args(["miri", "run", "--offline", "--quiet", "--manifest-path", &format!("{}/{}/Cargo.toml", root, krate), "--"]).args(args);
        c.env("RUSTUP_TOOLCHAIN", "nightly-x86_64-unknown-linux-gnu").env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-ignore-leaks {}", flags)).env("CARGO_TARGET_DIR", format!("{}/target/miri", root));
        for (k, v) in env { c.env(k, v); }
        spawn(&mut c, &dir, name)
    };
    let mut kids: Vec<(String, Child)> = vec![];
    for i in 0..6usize { let n = format!("mi{}", i); let c = miri("harness", if i % 2 == 0 { "" } else { "-Zmiri-tree-borrows" }, &["sub".into(), "c25".into(), dir.to_str().unwrap().into(), i.to_string(), "6".into(), secs.to_string()], &[], &n); kids.push((n, c)); }
    for (i, fail) in [false, true].iter().enumerate() {
        let n = format!("bench{}", i);
        let env: Vec<(&str, &str)> = if *fail { vec![("FAIL_GETRUSAGE", "1")] } else { vec![] };
        let good = dir.join("tiny.xml");
        std::fs::write(&good, wrap("", "", "<s xml:id=\"s\"><w xml:id=\"w\"><t>x</t></w></s>")).map_err(|e| e.to_string())?;
        let c = miri("bench", "", &["-t".into(), "parse,serialise,select".into(), good.to_str().unwrap().into()], &env, &n);
        kids.push((n, c));
    }
    for (n, c) in kids {
        match finish(c, secs + 300, &dir, &n) {
            Some((out, err, st)) => {
                if let Some(e) = crate::run::memory_error(&err) { return Err(format!("{}\nlast: {}", e, out.lines().last().unwrap_or(""))); }
                if out.contains("INVALID") { return Err(out); }
                let k = out.lines().filter(|l| l.starts_with("done")).count();
                ctx.count("documents handled by Miri", k);
                for i in 0..k { ctx.eval(Some(crate::rng::hash(&format!("{}{}", n, i)))); }
                if n.starts_with("bench") { ctx.count("runs of the measuring tool in Miri", 1); }
                else if !st.success() { ctx.count("Miri: runs not completed", 1); }
            }
            None => ctx.count("Miri: runs not completed", 1),
        }
    }
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C25",
    rule: "Workloads (documents parsed, damaged, changed at random, read in all ways, and the cases of the other checks) run under AddressSanitizer with the checks of the standard library on, MemorySanitizer, and (small ones) in Miri; both tools run under valgrind, the measuring tool also in Miri with its system call stood in for, succeeding and failing. Every string seen is validated as UTF-8. Distinct by workload.",
    cases: (10000, 400000), case,
    extra: Some(instruments),
    sanitized: true,
    assumptions: &["Panics, overflow of the stack and exhaustion of memory are not memory errors; C05 and C23 watch for those.", "Where the nightly compiler can not be used the check falls back on the stable one, without sanitizers, and the evidence says so."],
    ..BASE
};
