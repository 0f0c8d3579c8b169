//! C15: metadata, submetadata and provenance
use super::*;
use crate::gen::*;
use crate::model::*;
use crate::shadow::Shadow;
use crate::snap::{self, Header, MetaSnap, ProcSnap};
use std::collections::HashSet;

///A model with a large header and little else
fn model(rng: &mut Rng) -> DocM {
    let mut o = Opts::new(rng);
    o.header = true;
    o.wild = rng.p(2, 3);
    o.size = rng.range(1, 8);
    let mut g = Gen::new(rng, o);
    let mut d = DocM::new();
    d.id = g.newid();
    d.meta = g.meta();
    let mut keys: Vec<String> = vec!["title".into(), "language".into()];
    for _ in 0..3 { let k = g.string(); keys.push(k); }
    let shared = |g: &mut Gen, m: &mut Vec<(String, String)>, keys: &[String]| {
        //the same keys in many places, so that anything that ends up in the wrong place shows
        for k in keys { if g.rng.p(1, 2) && !m.iter().any(|x| x.0 == *k) { let v = g.string(); m.push((k.clone(), v)); } }
    };
    shared(&mut g, &mut d.meta.data, &keys);
    for _ in 0..g.rng.below(5) {
        let id = g.newid();
        let mut m = g.meta();
        shared(&mut g, &mut m.data, &keys);
        d.submeta.push((id, m));
    }
    let n = if g.rng.p(1, 20) { g.rng.range(20, 80) } else { g.rng.below(9) };
    let deep = g.rng.p(1, 4);
    let mut flat: Vec<(Option<usize>, ProcM)> = vec![];
    for i in 0..n {
        let id = g.newid();
        let mut p = g.procm(&id);
        if g.rng.p(1, 2) { shared(&mut g, &mut p.meta, &keys); }
        let parent = if i == 0 || g.rng.p(1, 4) && !deep { None } else if deep { Some(i - 1) } else { Some(g.rng.below(i)) };
        flat.push((parent, p));
    }
    for i in (0..flat.len()).rev() {
        let (parent, p) = flat.pop().unwrap();
        match parent { Some(q) => flat[q].1.children.insert(0, p), None => d.procs.insert(0, p) }
        let _ = i;
    }
    //an element for each block of metadata
    for (id, _) in d.submeta.iter() { d.body.push(El::new(ElementType::Division).with("metadata", id)); }
    d
}

fn numbers(ctx: &mut Ctx, h: &Header) {
    fn procs(p: &ProcSnap) -> (usize, usize, usize) { let mut r = (1, p.fields.len(), p.meta.len()); for c in p.children.iter() { let x = procs(c); r = (r.0 + x.0, r.1 + x.1, r.2 + x.2) } r }
    for p in h.procs.iter() { let x = procs(p); ctx.count("processors compared", x.0); ctx.count("processor fields compared", x.1); ctx.count("processor metadata compared", x.2); }
    ctx.count("metadata fields compared", h.meta.data.len());
    ctx.count("submetadata blocks compared", h.submeta.len());
    for s in h.submeta.iter() { ctx.count("submetadata fields compared", s.1.data.len()); }
}

///Reads it all back, then again after serialising, twice
fn settle(ctx: &mut Ctx, rng: &mut Rng, doc: &Document, want: &Header) -> Result<(), String> {
    let h = snap::header(doc)?;
    want.same(&h).map_err(|e| format!("as given, then as it is: {}", e))?;
    numbers(ctx, &h);
    let i = rng.below(6);
    let x = xml(doc, 0, i)?;
    let back = parse(&x).map_err(|e| format!("serialised (indent {}) {}\n{}", i, e, x))?;
    want.same(&snap::header(&back)?).map_err(|e| format!("after a round trip (indent {}): {}\n{}", i, e, x))?;
    let y = xml(&back, 0, 0)?;
    want.same(&snap::header(&parse(&y)?)?).map_err(|e| format!("after two round trips: {}\n{}", e, y))?;
    if rng.p(1, 4) {
        let path = ctx.dir.join(format!("c15-{}.xml", ctx.index));
        std::fs::write(&path, &x).map_err(|e| e.to_string())?;
        let doc = Document::from_file(path.to_str().unwrap(), DocumentProperties::default()).map_err(|e| format!("from file: {:?}", e));
        let _ = std::fs::remove_file(&path);
        want.same(&snap::header(&doc?)?).map_err(|e| format!("from a file: {}", e))?;
        ctx.count("read from files", 1);
    }
    ctx.eval(if h.procs.is_empty() && h.meta.data.is_empty() && h.submeta.is_empty() { None } else { Some(crate::rng::hash(&format!("{:?}", h))) });
    Ok(())
}

fn case(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    let m = model(rng);
    let mut want = Shadow::parse(&m).header();
    match rng.below(3) {
        0 => {
            let st = if rng.p(1, 3) { Style::plain() } else { Style::random(rng) };
            let x = write(&m, st);
            ctx.input(&x);
            ctx.count("headers parsed", 1);
            let doc = parse(&x)?;
            if rng.p(1, 40) { ctx.sample(|| x.clone()); }
            settle(ctx, rng, &doc, &want)
        }
        1 => {
            ctx.input(&plain(&m));
            ctx.count("headers built", 1);
            let doc = super::c01::build_doc(&m)?;
            settle(ctx, rng, &doc, &want)
        }
        _ => {
            //a history of operations on the provenance chain
            let mut start = m.clone();
            start.procs.clear();
            let mut doc = super::c01::build_doc(&start)?;
            let mut p = Prov { doc: &mut doc, n: vec![], chain: vec![], log: String::new() };
            let r = p.history(rng, &m);
            let log = p.log.clone();
            want.procs = p.snap();
            ctx.input(&format!("{}\n{}", plain(&m), log));
            r?;
            ctx.count("provenance histories", 1);
            ctx.count("operations on the provenance chain", log.lines().count());
            settle(ctx, rng, &doc, &want)
        }
    }
}

struct PNode { m: ProcM, parent: Option<usize>, children: Vec<usize> }
struct Prov<'a> { doc: &'a mut Document, n: Vec<PNode>, chain: Vec<usize>, log: String }

impl<'a> Prov<'a> {
    fn new_nodes(&mut self, p: &ProcM, parent: Option<usize>, key: ProcKey) -> Result<(), String> {
        let i = self.n.len();
        let got = self.doc.get_processor_key_by_id(p.id()).ok_or(format!("{:?} was not added", p.id()))?;
        eq("key", got as usize, i)?;
        if parent.is_none() { eq("returned key", key as usize, i)?; }
        let mut m = p.clone();
        m.children.clear();
        self.n.push(PNode { m, parent, children: vec![] });
        match parent { Some(q) => self.n[q].children.push(i), None => self.chain.push(i) }
        for c in p.children.iter() { self.new_nodes(c, Some(i), key)?; }
        Ok(())
    }
    fn below(&self, i: usize, top: usize) -> bool { i == top || self.n[i].parent.map_or(false, |p| self.below(p, top)) }
    fn history(&mut self, rng: &mut Rng, m: &DocM) -> Result<(), String> {
        let e = |e: FoliaError| format!("refused: {:?}", e);
        let mut todo: Vec<ProcM> = m.procs.clone();
        todo.reverse();
        let mut steps = 0;
        while !todo.is_empty() || steps < 12 {
            steps += 1;
            match rng.below(8) {
                5 => if !self.n.is_empty() { if let Some(mut p) = todo.pop() {
                    //by itself first, in the chain when attached
                    p.children.clear();
                    let q = rng.below(self.n.len());
                    self.log += &format!("add_provenance {:?}\n", p);
                    let k = self.doc.add_provenance(crate::api::processor(&p)).map_err(e)?;
                    let h = snap::header(self.doc)?;
                    eq("provenance, with a processor outside of it", h.procs, self.snap())?;
                    self.log += &format!("attach_processor {} {}\n", q, k);
                    self.doc.attach_processor(q as ProcKey, k).map_err(e)?;
                    self.new_nodes(&p, Some(q), k)?;
                } },
                6 => if !self.n.is_empty() {
                    //what there is not
                    let n = self.n.len();
                    self.log += "missing processors\n";
                    let some = rng.below(n) as ProcKey;
                    if self.doc.attach_processor(some, n as ProcKey).is_ok() || self.doc.attach_processor(n as ProcKey, some).is_ok() { return Err("a processor that does not exist was attached".into()); }
                    if self.doc.add_subprocessor(n as ProcKey, Processor::new("x".into()).with_id("nowhere".into())).is_ok() { return Err("added under a processor that does not exist".into()); }
                    if self.doc.add_processor(Processor::new("x".into()).with_id("nowhere".into()).with_existing_subprocessor(n as ProcKey)).is_ok() { return Err("added with a processor that does not exist".into()); }
                    if self.doc.get_processor_key_by_id("nowhere").is_some() || self.doc.get_processor(n as ProcKey).is_some() { return Err("a processor that was refused is there".into()); }
                },
                0 | 1 => if let Some(p) = todo.pop() {
                    if self.n.is_empty() || rng.p(1, 2) {
                        self.log += &format!("add_processor {:?}\n", p);
                        let k = self.doc.add_processor(crate::api::processor(&p)).map_err(e)?;
                        self.new_nodes(&p, None, k)?;
                    } else {
                        let q = rng.below(self.n.len());
                        self.log += &format!("add_subprocessor {} {:?}\n", q, p);
                        let k = self.doc.add_subprocessor(q as ProcKey, crate::api::processor(&p)).map_err(e)?;
                        let i = self.n.len();
                        eq("returned key", k as usize, i)?;
                        self.new_nodes(&p, Some(q), k)?;
                    }
                },
                2 => if !todo.is_empty() && !self.n.is_empty() {
                    //with an existing processor under it
                    let mut p = todo.pop().unwrap();
                    p.children.clear();
                    let under = if rng.p(1, 2) { Some(rng.below(self.n.len())) } else { None };
                    let mut cs: Vec<usize> = vec![];
                    for _ in 0..rng.range(1, 4) {
                        let c = rng.below(self.n.len());
                        if !cs.contains(&c) && under.map_or(true, |q| !self.below(q, c)) { cs.push(c); }
                    }
                    self.log += &format!("add processor {:?} under {:?} with existing {:?}\n", p, under, cs);
                    let mut new = crate::api::processor(&p);
                    for c in cs.iter() { new = new.with_existing_subprocessor(*c as ProcKey); }
                    let k = match under { None => self.doc.add_processor(new), Some(q) => self.doc.add_subprocessor(q as ProcKey, new) }.map_err(e)?;
                    self.new_nodes(&p, under, k)?;
                    for c in cs { self.moved(c, k as usize); }
                },
                3 => if self.n.len() > 1 {
                    let (p, c) = (rng.below(self.n.len()), rng.below(self.n.len()));
                    self.log += &format!("attach_processor {} {}\n", p, c);
                    let r = self.doc.attach_processor(p as ProcKey, c as ProcKey);
                    if self.below(p, c) { if r.is_ok() { return Err(format!("processor {} could be attached to {}, which is under it", c, p)); } } else { r.map_err(e)?; self.moved(c, p); }
                },
                4 => if !self.n.is_empty() {
                    let i = rng.below(self.n.len());
                    let mut o = Opts::new(rng);
                    o.wild = true;
                    let id = self.n[i].m.id().to_string();
                    let new = Gen::new(rng, o).procm(&id);
                    self.log += &format!("change {} to {:?}\n", i, new);
                    let q = crate::api::processor(&new);
                    let p = if rng.p(1, 2) { self.doc.get_mut_processor(i as ProcKey) } else { self.doc.get_mut_processor_by_id(&id) }.ok_or("gone")?;
                    p.name = q.name; p.processortype = q.processortype; p.version = q.version; p.folia_version = q.folia_version; p.document_version = q.document_version; p.command = q.command; p.host = q.host; p.user = q.user;
                    p.begindatetime = q.begindatetime; p.enddatetime = q.enddatetime; p.src = q.src; p.format = q.format; p.resourcelink = q.resourcelink; p.metadata = q.metadata;
                    self.n[i].m = new;
                },
                _ => if !self.n.is_empty() {
                    //one that is there already
                    let i = rng.below(self.n.len());
                    self.log += &format!("add_processor again {}\n", i);
                    let k = self.doc.add_processor(Processor::new("again".into()).with_id(self.n[i].m.id().to_string())).map_err(e)?;
                    eq("key of a processor that was there", k as usize, i)?;
                },
            }
            let h = snap::header(self.doc)?;
            eq("provenance", h.procs, self.snap()).map_err(|e| format!("after {}: {}", self.log.lines().last().unwrap_or(""), e))?;
        }
        Ok(())
    }
    fn moved(&mut self, c: usize, p: usize) {
        match self.n[c].parent { Some(q) => self.n[q].children.retain(|x| *x != c), None => self.chain.retain(|x| *x != c) }
        self.n[c].parent = Some(p);
        self.n[p].children.push(c);
    }
    fn tree(&self, i: usize) -> ProcM { let mut m = self.n[i].m.clone(); m.children = self.n[i].children.iter().map(|c| self.tree(*c)).collect(); m }
    fn snap(&self) -> Vec<ProcSnap> {
        let mut d = DocM::new();
        d.procs = self.chain.iter().map(|i| self.tree(*i)).collect();
        Shadow::parse(&d).header().procs
    }
}

fn f_autofill(ctx: &mut Ctx) -> Result<(), String> {
    let before = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_err(|e| e.to_string())?.as_secs() as i64;
    let mut doc = Document::new("d", DocumentProperties::default()).map_err(|e| format!("{:?}", e))?;
    std::env::set_var("HOST", "host <&> \"here\"");
    std::env::set_var("USER", "me & myself");
    let k = doc.add_processor(Processor::new("tool \"x\" <&>".into()).autofill()).map_err(|e| format!("{:?}", e))?;
    let p = doc.get_processor(k).ok_or("gone")?;
    let t = p.begindatetime.ok_or("no time")?.timestamp();
    if t < before || t > before + 60 { return Err(format!("begins at {}, it is {}", t, before)); }
    eq("version of the format", p.folia_version.as_str(), FOLIAVERSION)?;
    eq("command", p.command.clone(), std::env::args().collect::<Vec<_>>().join(" "))?;
    eq("host and user", (p.host.as_str(), p.user.as_str()), ("host <&> \"here\"", "me & myself"))?;
    eq("fields that were not given", (p.version.as_str(), p.document_version.as_str(), p.src.as_str(), p.format.as_str(), p.resourcelink.as_str(), p.enddatetime, p.metadata.data.len(), p.parent), ("", "", "", "", "", None, 0, None))?;
    eq("subprocessors", p.processors.len(), 1)?;
    let l = doc.get_processor(p.processors[0]).ok_or("gone")?;
    eq("name", l.name.as_str(), "folia-rust")?;
    eq("type", l.processortype, ProcessorType::Generator)?;
    eq("parent", l.parent, Some(k))?;
    let n = Processor::new("x".into());
    eq("fields of a new processor", (n.version.as_str(), n.document_version.as_str(), n.folia_version.as_str(), n.command.as_str(), n.host.as_str(), n.user.as_str(), n.src.as_str(), n.format.as_str(), n.resourcelink.as_str()), ("", "", "", "", "", "", "", "", ""))?;
    eq("fields of a new processor", (n.begindatetime, n.enddatetime, n.metadata.data.len(), n.parent, n.processors.len(), n.processortype), (None, None, 0, None, 0, ProcessorType::Auto))?;
    let h = snap::header(&doc)?;
    for i in 0..5 { h.same(&snap::header(&parse(&xml(&doc, 0, i)?)?)?)?; }
    //identifiers are different each time
    let ids: HashSet<String> = (0..200).flat_map(|_| vec![Processor::new("x".into()).id, Processor::this_library().id]).collect();
    eq("different identifiers", ids.len(), 400)?;
    ctx.eval(Some(1));
    Ok(())
}
fn f_active(ctx: &mut Ctx) -> Result<(), String> {
    //the processor given with the properties of a document
    for parsed in [false, true] {
        let p = Processor::new("me".into()).with_id("me".into()).with_type(ProcessorType::Manual).with_enddatetime(crate::api::date("2021-02-03T04:05:06"));
        let props = DocumentProperties::default().with_processor(p);
        let doc = if parsed { Document::from_str(&wrap("<pos-annotation><annotator processor=\"a\"/></pos-annotation>", "<provenance><processor xml:id=\"a\" name=\"n\"><processor xml:id=\"b\" name=\"m\"/></processor></provenance>", ""), props) } else { Document::new("d", props) }.map_err(|e| format!("{:?}", e))?;
        let k = doc.get_processor_key_by_id("me").ok_or("processor is missing")?;
        eq("active processor", doc.active_processor, Some(k))?;
        let names: Vec<String> = snap::header(&doc)?.procs.iter().map(|p| p.fields.iter().find(|f| f.0 == "name").unwrap().1.clone()).collect();
        eq("chain", names, if parsed { vec!["n".to_string(), "me".into()] } else { vec!["me".into()] })?;
        let h = snap::header(&doc)?;
        h.same(&snap::header(&parse(&xml(&doc, 0, 2)?)?)?)?;
        ctx.eval(Some(2 + parsed as u64));
    }
    Ok(())
}
///Every field on its own, and every pair of fields
fn f_fields(ctx: &mut Ctx) -> Result<(), String> {
    let names = ["type", "version", "folia_version", "document_version", "command", "host", "user", "begindatetime", "enddatetime", "src", "format", "resourcelink"];
    let value = |k: &str| match k { "type" => "datasource".to_string(), "begindatetime" => "2001-02-03T04:05:06".into(), "enddatetime" => "1999-12-31T23:59:59".into(), k => format!("the {} <\"&'>", k) };
    for a in names {
        for b in names {
            let mut m = DocM::new();
            let mut p = ProcM { fields: vec![("xml:id".into(), "p".into()), ("name".into(), "n".into()), (a.into(), value(a))], meta: vec![("k".into(), "v".into())], children: vec![] };
            if a != b { p.fields.push((b.into(), value(b))); }
            //around it processors with nothing
            let bare = |id: &str| ProcM { fields: vec![("xml:id".into(), id.into()), ("name".into(), "n".into())], meta: vec![], children: vec![] };
            p.children.push(bare("c"));
            let mut q = bare("q");
            q.children.push(p.clone());
            q.children.push(bare("r"));
            m.procs = vec![bare("o"), q, bare("z")];
            let want = Shadow::parse(&m).header();
            ctx.input(&plain(&m));
            for doc in [parse(&plain(&m))?, super::c01::build_doc(&m)?] {
                want.same(&snap::header(&doc)?)?;
                want.same(&snap::header(&parse(&xml(&doc, 0, 0)?)?)?)?;
            }
            ctx.eval(Some(crate::rng::hash(&format!("{}{}", a, b))));
        }
    }
    Ok(())
}
///Every combination of type, source and fields for the document and for a block of metadata
fn f_meta(ctx: &mut Ctx) -> Result<(), String> {
    let opt = |i: usize, s: &str| match i { 0 => None, 1 => Some(String::new()), _ => Some(s.to_string()) };
    let data = |i: usize, s: &str| match i { 0 => vec![], 1 => vec![("k".to_string(), s.to_string())], _ => vec![("k".to_string(), s.to_string()), ("only in ".to_string() + s, String::new())] };
    for n in 0..27 * 27 {
        let f = |n: usize, s: &str| MetaM { mtype: opt(n % 3, &format!("type of {}", s)), src: opt(n / 3 % 3, &format!("source of {}", s)), data: data(n / 9 % 3, s) };
        let mut m = DocM::new();
        m.meta = f(n % 27, "document");
        m.submeta = vec![("a".into(), f(n / 27, "first")), ("b".into(), MetaM::default()), ("c".into(), f(n * 7 % 27, "last"))];
        let want = Shadow::parse(&m).header();
        ctx.input(&plain(&m));
        for doc in [parse(&plain(&m))?, super::c01::build_doc(&m)?] {
            want.same(&snap::header(&doc)?)?;
            want.same(&snap::header(&parse(&xml(&doc, 0, n % 4)?)?)?)?;
        }
        ctx.eval(Some(crate::rng::hash(&format!("meta{}", n))));
    }
    Ok(())
}
///Long chains, deep nesting, many fields, long values
fn f_large(ctx: &mut Ctx) -> Result<(), String> {
    let fields = |n: usize, s: &str| -> Vec<(String, String)> { (0..n).map(|i| (format!("{} field {}", s, i), format!("{}{}", s, "v".repeat(i)))).collect() };
    for (wide, deep) in [(300usize, 1usize), (3, 200), (70, 5), (1, 1)] {
        let mut m = DocM::new();
        m.meta = MetaM { mtype: Some("native".into()), src: None, data: fields(300, "document") };
        m.submeta = (0..300).map(|i| (format!("sub{}", i), MetaM { mtype: Some(format!("type{}", i)), src: if i % 2 == 0 { None } else { Some("x".repeat(i * 10)) }, data: fields(i % 7, &format!("s{}", i)) })).collect();
        for i in 0..wide {
            let mut p: Option<ProcM> = None;
            for d in (0..deep).rev() {
                let id = format!("p{}.{}", i, d);
                let f = |k: &str, v: String| (k.to_string(), v);
                p = Some(ProcM { fields: vec![f("xml:id", id.clone()), f("name", format!("name of {}", id)), f("version", format!("{}", d)), f("user", "u".repeat(d + i))], meta: fields(d % 4, &id), children: p.into_iter().collect() });
            }
            m.procs.extend(p);
        }
        let want = Shadow::parse(&m).header();
        ctx.input(&format!("{} chains of {} processors", wide, deep));
        for doc in [parse(&plain(&m))?, super::c01::build_doc(&m)?] {
            want.same(&snap::header(&doc)?)?;
            want.same(&snap::header(&parse(&xml(&doc, 0, if deep > 100 { 0 } else { 2 })?)?)?)?;
            let mut n = 0;
            for i in 0..wide { for d in 0..deep {
                let p = doc.get_processor_by_id(&format!("p{}.{}", i, d)).ok_or("processor is gone")?;
                eq("name", p.name.clone(), format!("name of p{}.{}", i, d))?;
                eq("nested in", p.parent.and_then(|q| doc.get_processor(q)).map(|q| q.id.clone()), if d == 0 { None } else { Some(format!("p{}.{}", i, d - 1)) })?;
                n += 1;
            } }
            ctx.count("processors in large headers", n);
            numbers(ctx, &snap::header(&doc)?);
        }
        ctx.eval(Some(crate::rng::hash(&format!("large {} {}", wide, deep))));
    }
    Ok(())
}
///Dates the format can hold
fn f_dates(ctx: &mut Ctx) -> Result<(), String> {
    for d in ["0001-01-01T00:00:00", "1582-10-10T12:00:00", "1969-12-31T23:59:59", "1970-01-01T00:00:00", "2000-02-29T00:00:01", "2016-12-31T23:59:59", "2038-01-19T03:14:08", "9999-12-31T23:59:59"] {
        for k in ["begindatetime", "enddatetime"] {
            let x = wrap("", &format!("<provenance><processor xml:id=\"p\" name=\"n\" {}=\"{}\"/></provenance>", k, d), "");
            ctx.input(&x);
            let doc = parse(&x)?;
            let p = doc.get_processor_by_id("p").ok_or("gone")?;
            let (a, b) = if k == "begindatetime" { (p.begindatetime, p.enddatetime) } else { (p.enddatetime, p.begindatetime) };
            eq(k, a, Some(crate::api::date(d)))?;
            eq("other date", b, None)?;
            let y = xml(&doc, 0, 0)?;
            if !y.contains(&format!("{}=\"{}\"", k, d)) { return Err(format!("{} {} is serialised differently: {}", k, d, y)); }
            ctx.eval(Some(crate::rng::hash(&x)));
        }
    }
    for d in ["", "2000-01-01", "2000-13-01T00:00:00", "2001-02-29T00:00:00", "2000-01-01T24:00:00", "2000-01-01T00:60:00", "now", "2000-01-01T00:00:00Z", "2000-01-01T00:00:00 "] {
        let x = wrap("", &format!("<provenance><processor xml:id=\"p\" name=\"n\" begindatetime=\"{}\"/></provenance>", d), "");
        ctx.input(&x);
        if let Ok(doc) = crate::api::parse(&x) { return Err(format!("begindatetime {:?} was accepted as {:?}", d, doc.get_processor_by_id("p").and_then(|p| p.begindatetime))); }
        ctx.count("dates refused", 1);
    }
    Ok(())
}
fn f_types(ctx: &mut Ctx) -> Result<(), String> {
    for (t, want) in [("auto", Some(ProcessorType::Auto)), ("manual", Some(ProcessorType::Manual)), ("generator", Some(ProcessorType::Generator)), ("datasource", Some(ProcessorType::DataSource)), ("Auto", None), ("", None), ("human", None), ("auto ", None)] {
        let x = wrap("", &format!("<provenance><processor xml:id=\"p\" name=\"n\" type=\"{}\"/></provenance>", t), "");
        ctx.input(&x);
        match (crate::api::parse(&x), want) {
            (Ok(doc), Some(w)) => eq("type", doc.get_processor_by_id("p").map(|p| p.processortype), Some(w))?,
            (Err(_), None) => {}
            (Ok(_), None) => return Err(format!("processor type {:?} was accepted", t)),
            (Err(e), Some(_)) => return Err(format!("processor type {:?} refused: {:?}", t, e)),
        }
        ctx.eval(Some(crate::rng::hash(&x)));
    }
    Ok(())
}
fn f_broken(ctx: &mut Ctx) -> Result<(), String> {
    for (what, h) in [("duplicate submetadata", "<submetadata xml:id=\"a\"/><submetadata xml:id=\"a\"/>"), ("submetadata without identifier", "<submetadata/>"), ("duplicate processor", "<provenance><processor xml:id=\"p\" name=\"a\"/><processor xml:id=\"p\" name=\"b\"/></provenance>"), ("duplicate processor, nested", "<provenance><processor xml:id=\"p\" name=\"a\"><processor xml:id=\"p\" name=\"b\"/></processor></provenance>")] {
        let x = wrap("", h, "");
        ctx.input(&x);
        if crate::api::parse(&x).is_ok() { return Err(format!("{} was accepted", what)); }
        ctx.eval(Some(crate::rng::hash(&x)));
    }
    //a value without a key belongs to nothing, least of all to the key before it
    for h in ["<meta id=\"a\">b</meta><meta>c</meta>", "<meta id=\"a\">b</meta><submetadata xml:id=\"s\"><meta>c</meta></submetadata>", "<submetadata xml:id=\"s\"><meta id=\"a\">c</meta></submetadata><meta>x</meta><meta id=\"a\">b</meta>", "<provenance><processor xml:id=\"p\" name=\"n\"><meta id=\"a\">c</meta><meta>d</meta></processor></provenance><meta>x</meta><meta id=\"a\">b</meta><meta/>"] {
        let x = wrap("", h, "");
        ctx.input(&x);
        if let Ok(doc) = crate::api::parse(&x) {
            let h = snap::header(&doc)?;
            eq("metadata", h.meta.data, vec![("a".to_string(), "b".to_string())])?;
            for s in h.submeta.iter() { if s.1.data.iter().any(|d| d.0 != "a" || d.1 != "c") { return Err(format!("submetadata: {:?}", s.1.data)); } }
            for p in h.procs.iter() { eq("metadata of processor", p.meta.clone(), vec![("a".to_string(), "c".to_string())])?; }
        }
        ctx.eval(Some(crate::rng::hash(&x)));
    }
    Ok(())
}
fn f_layout(ctx: &mut Ctx) -> Result<(), String> {
    //text of metadata is kept as it is, white space included; nothing is taken from what surrounds it
    let x = wrap("", "\n <meta id=\"a\"> x\n y </meta>\n<provenance>\n <processor xml:id=\"p\" name=\"n\"> <meta id=\"a\">p</meta> <!-- c --> <processor xml:id=\"q\" name=\"m\"> <meta id=\"a\"/> </processor> <meta id=\"b\"><![CDATA[<b>]]>&amp;</meta> </processor> </provenance> <meta id=\"b\"/> <submetadata xml:id=\"s\"> <meta id=\"a\">s</meta> </submetadata> <meta id=\"c\">c</meta> ", "");
    ctx.input(&x);
    let doc = parse(&x)?;
    let pairs = |v: &[(&str, &str)]| -> Vec<(String, String)> { v.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect() };
    for d in [&doc, &parse(&xml(&doc, 0, 0)?)?, &parse(&xml(&doc, 0, 4)?)?] {
        let h = snap::header(d)?;
        eq("metadata", h.meta.data, pairs(&[("a", " x\n y "), ("b", ""), ("c", "c")]))?;
        eq("submetadata", h.submeta, vec![("s".to_string(), MetaSnap { mtype: None, src: None, data: pairs(&[("a", "s")]) })])?;
        eq("processors", h.procs.len(), 1)?;
        eq("metadata of processor", h.procs[0].meta.clone(), pairs(&[("a", "p"), ("b", "<b>&")]))?;
        eq("metadata of subprocessor", h.procs[0].children[0].meta.clone(), pairs(&[("a", "")]))?;
    }
    ctx.eval(Some(9));
    Ok(())
}

pub static C15: Prop = Prop {
    id: "C15",
    rule: "A random header (metadata, blocks of submetadata, a tree of processors with any of their fields and metadata, sharing keys so that a value in the wrong place shows) is parsed from XML in random spelling, or set through the API, or made by a history of operations on the provenance chain (add, add under another, move, change fields, add again); what can be read back is compared field by field with the model, then again after one and two round trips, some through files. Systematically: all pairs of processor fields, all combinations of type, source and fields in metadata, dates, types. Non-trivial: some metadata or processor; distinct by digest of the whole header.",
    cases: (48000, 1600000), case,
    fixed: &[("white space and nesting in the header", f_layout), ("dates", f_dates), ("types of processors", f_types), ("headers that are refused", f_broken), ("all pairs of fields", f_fields), ("all kinds of metadata", f_meta), ("large headers", f_large), ("autofill", f_autofill), ("active processor", f_active)],
    assumptions: &["The order of metadata fields within a block has no meaning.", "A processor field that is empty is the same as one that is absent."],
    ..BASE
};
