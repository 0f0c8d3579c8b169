//! C24: the lint tool itself, on batches of files
use super::*;
use crate::gen::*;
use crate::model::*;
use crate::shadow::Shadow;
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

///What there is to know of a file before the tool sees it
struct Input { name: OsString, kind: &'static str, doc: Option<Snap> }

pub fn tool(name: &str) -> PathBuf {
    let dir = std::env::var_os("MONITOR_BINS").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif/target/bins/debug"));
    dir.join(name)
}

pub struct Ran { pub out: Vec<u8>, pub err: Vec<u8>, pub status: std::process::ExitStatus }

///Runs a tool in the directory, with its output to files; ends it if it takes too long
pub fn run(tool: &Path, dir: &Path, args: &[OsString], nobody: bool) -> Result<Ran, String> {
    let (po, pe) = (dir.join(".out"), dir.join(".err"));
    let file = |p: &Path| std::fs::File::create(p).map_err(|e| format!("{}", e));
    let mut c = std::process::Command::new(tool);
    c.args(args).current_dir(dir).stdin(std::process::Stdio::null()).stdout(file(&po)?).stderr(file(&pe)?).env("RUST_BACKTRACE", "0");
    unsafe { c.pre_exec(move || {
        if nobody { libc::setgroups(0, std::ptr::null()); libc::setgid(65534); libc::setuid(65534); }
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        Ok(())
    }); }
    let mut child = c.spawn().map_err(|e| format!("{} can not be started: {}", tool.display(), e))?;
    let start = Instant::now();
    let status = loop {
        if let Some(s) = child.try_wait().map_err(|e| format!("{}", e))? { break s; }
        if start.elapsed() > Duration::from_secs(120) { let _ = child.kill(); let _ = child.wait(); return Err(format!("{} does not end", tool.display())); }
        std::thread::sleep(Duration::from_micros(300));
    };
    let read = |p: &Path| std::fs::read(p).map_err(|e| format!("{}", e));
    Ok(Ran { out: read(&po)?, err: read(&pe)?, status })
}

pub fn orderly(r: &Ran) -> Result<(), String> {
    let err = crate::run::clip(&String::from_utf8_lossy(&r.err), 1500);
    if let Some(s) = r.status.signal() { return Err(format!("the tool was ended by signal {}\n{}", s, err)); }
    match r.status.code() { Some(0) => Ok(()), Some(101) => Err(format!("the tool panicked\n{}", err)), c => Err(format!("the tool ended with status {:?}\n{}", c, err)) }
}

///Splits what was printed in documents
fn documents(out: &[u8]) -> Result<Vec<String>, String> {
    let s = std::str::from_utf8(out).map_err(|e| format!("printed something that is not UTF-8: {}", e))?;
    let mut v = vec![];
    let mut rest = s;
    while !rest.trim_matches(|c| c == ' ' || c == '\n').is_empty() {
        let mut at = 0;
        let mut last = String::from("no document at all");
        loop {
            match rest[at..].find("</FoLiA>") {
                None => return Err(format!("printed something that is not a complete document: {}\n{}", last, crate::run::clip(rest, 3000))),
                Some(i) => {
                    at += i + "</FoLiA>".len();
                    match crate::xml::parse(rest[..at].trim_start_matches(|c| c == ' ' || c == '\n')) { Ok(_) => break, Err(e) => last = e }
                }
            }
        }
        v.push(rest[..at].trim_start_matches(|c| c == ' ' || c == '\n').to_string());
        rest = &rest[at..];
    }
    Ok(v)
}

fn model(rng: &mut Rng) -> DocM {
    let mut o = Opts::new(rng);
    o.size = o.size.min(50);
    if rng.p(1, 8) { o.size *= 6; }
    Gen::new(rng, o).doc()
}

fn filename(rng: &mut Rng, n: usize) -> OsString {
    let odd = ["", " ", "  x", "é", "日本", "'", "\"", "*", "%s", "\\", ";", "&", "$(x)", "=", ",", "--", "{}", "\n", "😀", "</FoLiA>"];
    let odd = rng.pick(&odd).replace('/', "_");
    let ext = *rng.pick(&[".xml", ".folia.xml", "", ".xml.gz", ".txt"]);
    OsString::from(format!("f{}{}{}", n, odd, ext))
}

fn make(ctx: &mut Ctx, rng: &mut Rng, dir: &Path, n: usize) -> Result<Input, String> {
    let mut name = filename(rng, n);
    if rng.p(1, 40) { name = OsString::from_vec(vec![b'f', b'0' + (n % 10) as u8, 0xff, b'x']); }
    let path = dir.join(&name);
    let err = |e: std::io::Error| format!("{}", e);
    let mut doc = None;
    let kind = match rng.below(20) {
        0..=8 => {
            let m = model(rng);
            let x = if rng.p(1, 3) { plain(&m) } else { write(&m, Style::random(rng)) };
            std::fs::write(&path, x).map_err(err)?;
            let mut s = Shadow::parse(&m).doc();
            snap::drop_layout(&mut s);
            snap::effective(&mut s);
            doc = Some(s);
            "valid"
        }
        9..=12 => {
            let m = model(rng);
            let x = write(&m, Style::random(rng));
            std::fs::write(&path, super::c05::mutate(rng, &x)).map_err(err)?;
            "damaged"
        }
        13 => { let x = plain(&model(rng)); let k = rng.below(x.len()); std::fs::write(&path, &x.as_bytes()[..k]).map_err(err)?; "cut off" }
        14 => { "missing" }
        15 => { std::fs::create_dir(&path).map_err(err)?; "directory" }
        16 => { std::fs::write(&path, b"").map_err(err)?; "empty" }
        17 => { std::fs::write(&path, [&plain(&model(rng)).into_bytes()[..], &[0xc3, 0x28]].concat()).map_err(err)?; "not UTF-8" }
        18 => {
            match rng.below(3) {
                0 => { std::os::unix::fs::symlink(&name, &path).map_err(err)?; "link to itself" }
                1 => { std::os::unix::fs::symlink("nowhere", &path).map_err(err)?; "link to nothing" }
                _ => { std::fs::write(&path, plain(&model(rng))).map_err(err)?; let mut q = path.clone().into_os_string(); q.push("/x"); name.push("/x"); let _ = q; "in a file" }
            }
        }
        _ => {
            use std::os::unix::fs::PermissionsExt;
            std::fs::write(&path, plain(&model(rng))).map_err(err)?;
            std::fs::set_permissions(&path, std::fs::Permissions::from_mode(0)).map_err(err)?;
            "no permission"
        }
    };
    if rng.p(1, 10) { let mut q = OsString::from("./"); q.push(&name); name = q; }
    else if rng.p(1, 10) { name = dir.join(&name).into_os_string(); }
    ctx.count(kind, 1);
    Ok(Input { name, kind, doc })
}

fn case(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    let scratch = crate::run::Scratch::new(&format!("lint-{}", ctx.index));
    let dir = &scratch.0;
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(dir, std::fs::Permissions::from_mode(0o755)).map_err(|e| format!("{}", e))?;
    //a file without permission is a test of something only for someone else than root
    let nobody = rng.p(1, 2) && NOBODY.with(|n| *n);
    let tool = if nobody { let t = dir.join(".tool"); std::fs::copy(super::lint::tool("folialintr"), &t).map_err(|e| format!("{}", e))?; t } else { super::lint::tool("folialintr") };
    if nobody { ctx.count("batches run as another user", 1); }
    let n = match rng.below(6) { 0 => 1, 1 => 2, 2 => 20, _ => rng.range(3, 9) };
    let mut inputs = vec![];
    for i in 0..n { inputs.push(make(ctx, rng, dir, i)?); }
    //the order, with some named more than once
    let mut order: Vec<usize> = (0..n).collect();
    rng.shuffle(&mut order);
    for _ in 0..rng.below(3) { let i = rng.below(n); order.insert(rng.below(order.len() + 1), i); }
    let shown: Vec<String> = order.iter().map(|i| format!("{:?} ({})", inputs[*i].name, inputs[*i].kind)).collect();
    ctx.input(&format!("folialintr {}", shown.join(" ")));
    ctx.sample(|| shown.join(" "));
    //each alone
    let mut alone: Vec<(Option<(Snap, String)>, Vec<u8>)> = vec![];
    for input in inputs.iter() {
        let r = run(&tool, dir, &[input.name.clone()], nobody)?;
        let about = |e: String| {
            let content = std::fs::read(dir.join(&input.name)).unwrap_or_default();
            format!("{} [{:?}, {}]\nwhich contains\n{}", e, input.name, input.kind, crate::run::clip(&String::from_utf8_lossy(&content), 200000))
        };
        orderly(&r).map_err(about)?;
        let mut docs = documents(&r.out).map_err(about)?;
        //what the library makes of it
        let readable = !(nobody && input.kind == "no permission") && input.name.to_str().is_some();
        let path = dir.join(&input.name);
        let lib = match path.to_str() { Some(p) if readable => Document::from_file(p, DocumentProperties::default()).ok(), _ => None };
        let printable = match &lib { Some(d) => d.xml(0, 4).is_ok(), None => false };
        ctx.eval(Some(crate::rng::hash(&format!("{:?}", r.out)) ^ input.name.as_bytes().len() as u64));
        match (printable, docs.len()) {
            (false, 0) => {
                if r.err.iter().all(|b| b.is_ascii_whitespace()) { return Err(about("neither a document nor an error message".into())); }
                ctx.count("files reported", 1);
                alone.push((None, r.err));
            }
            (true, 1) => {
                if !r.err.is_empty() && input.kind == "valid" { return Err(about(format!("a document and an error message as well: {}", String::from_utf8_lossy(&r.err)))); }
                let x = docs.remove(0);
                //of a damaged file what the library makes of it counts, references to processors that
                //do not exist left out (a known finding of C03)
                let lib = lib.as_ref().unwrap();
                let want = if input.kind == "valid" { normal(lib)? } else { normal(&parse(&xml(lib, 0, 0)?)?)? };
                let got = normal(&parse(&x).map_err(|e| about(format!("what was printed {}\n{}", e, x)))?)?;
                want.same_content(&got).map_err(|e| about(format!("what was printed has not the content of the file: {}\n{}", e, x)))?;
                if let Some(m) = input.doc.as_ref() { m.same_content(&got).map_err(|e| about(format!("what was printed has not the content of what was written: {}\n{}", e, x)))?; ctx.count("printed documents compared with a model", 1); }
                ctx.count("files printed", 1);
                alone.push((Some((got, x)), r.err));
            }
            (p, d) => return Err(about(format!("{} documents printed, should be {}\n{}", d, p as usize, String::from_utf8_lossy(&r.err)))),
        }
        let should = match input.kind { "valid" => Some(input.name.to_str().is_some()), "missing" | "directory" | "empty" | "cut off" | "link to itself" | "link to nothing" | "in a file" => Some(false), "no permission" if nobody => Some(false), _ => None };
        if let Some(s) = should { if s != printable { return Err(about(format!("printed: {}, should be {}", printable, s))); } }
    }
    //and all together
    let args: Vec<OsString> = order.iter().map(|i| inputs[*i].name.clone()).collect();
    let r = run(&tool, dir, &args, nobody)?;
    orderly(&r)?;
    let docs = documents(&r.out)?;
    let expected: Vec<&(Snap, String)> = order.iter().filter_map(|i| alone[*i].0.as_ref()).collect();
    if docs.len() != expected.len() { return Err(format!("{} documents printed, should be {}\n{}", docs.len(), expected.len(), crate::run::clip(&String::from_utf8_lossy(&r.err), 1000))); }
    for (i, (got, want)) in docs.iter().zip(expected.iter()).enumerate() {
        if *got == want.1 { ctx.count("documents of batches the same byte for byte", 1); continue; }
        let got = normal(&parse(got)?)?;
        want.0.same_content(&got).map_err(|e| format!("document {} printed is not that of its file: {}", i, e))?;
        ctx.count("documents of batches compared", 1);
    }
    let errors: Vec<u8> = order.iter().flat_map(|i| alone[*i].1.iter().copied()).collect();
    if r.err != errors { return Err(format!("on standard error\n{}\nshould be\n{}", String::from_utf8_lossy(&r.err), String::from_utf8_lossy(&errors))); }
    ctx.count("batches", 1);
    ctx.count("files in batches", order.len());
    Ok(())
}

thread_local! {
    ///can we run something as another user, who can read our files?
    static NOBODY: bool = {
        let s = crate::run::Scratch::new("nobody");
        use std::os::unix::fs::PermissionsExt;
        let f = |p: &Path, m: u32| std::fs::set_permissions(p, std::fs::Permissions::from_mode(m)).is_ok();
        let (a, b) = (s.0.join("a"), s.0.join("b"));
        let sh = |p: &Path| run(Path::new("/bin/cat"), &s.0, &[p.as_os_str().to_owned()], true).map_or(false, |r| r.status.success());
        std::fs::write(&a, "a").is_ok() && std::fs::write(&b, "b").is_ok() && f(&s.0, 0o755) && f(&a, 0o644) && f(&b, 0) && sh(&a) && !sh(&b)
    };
}

pub static PROP: Prop = Prop {
    id: "C24",
    rule: "Batches of 1 to 23 files (valid, damaged, cut off, missing, directories, empty, not UTF-8, links that lead nowhere, without permission; odd names, names more than once) are given to the real tool: each alone and all together. Printed documents are separated by an independent XML parser and compared in content with the file as read by the library, and with the model it was written from; error messages of the batch are those of its files, in order; the tool ends with status 0. Distinct by what is printed for a file.",
    cases: (1200, 12000), case, long: 97,
    assumptions: &["The tool is built in the debug profile from the working tree, by cargo and as part of its own package."],
    ..BASE
};
