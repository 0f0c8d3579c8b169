use super::*;
use crate::gen::*;
use crate::hist::*;
use crate::model::*;
use crate::snap::{Ev, Header, MetaSnap, Node, ProcSnap};
use crate::spec;
use crate::xml::{self as reader, XEv};
use std::collections::HashMap;

type Attrs = Vec<(String, String)>;

struct R<'a> { evs: &'a [XEv], i: usize }
impl<'a> R<'a> {
    fn peek(&self) -> Option<&'a XEv> { self.evs.get(self.i) }
    fn skip(&mut self) { while let Some(XEv::Text(t)) = self.peek() { if blank(t) { self.i += 1 } else { break } } }
    fn open(&mut self, what: &str) -> Result<(String, &'a Attrs), String> {
        self.skip();
        match self.peek() {
            Some(XEv::Open { ns, name, attrs }) => {
                if ns.as_deref() != Some(NS) { return Err(format!("<{}> is in namespace {:?}", name, ns)); }
                self.i += 1;
                Ok((name.clone(), attrs))
            }
            o => Err(format!("{}: start of an element expected, found {:?}", what, o)),
        }
    }
    fn close(&mut self) -> Result<(), String> { self.skip(); match self.peek() { Some(XEv::Close) => { self.i += 1; Ok(()) } o => Err(format!("end of element expected, found {:?}", o)) } }
    fn more(&mut self) -> bool { self.skip(); matches!(self.peek(), Some(XEv::Open { .. })) }
    fn text(&mut self) -> Result<String, String> {
        let mut s = String::new();
        while let Some(XEv::Text(t)) = self.peek() { s.push_str(t); self.i += 1; }
        match self.peek() { Some(XEv::Close) => { self.i += 1; Ok(s) } o => Err(format!("end of element expected, found {:?}", o)) }
    }
}
fn get<'a>(a: &'a Attrs, k: &str) -> Option<&'a str> { a.iter().find(|x| x.0 == k).map(|x| x.1.as_str()) }

fn proc(r: &mut R, attrs: &Attrs) -> Result<ProcSnap, String> {
    let mut p = ProcSnap { fields: attrs.iter().map(|(k, v)| (k.clone(), snap::canon(k, v))).collect(), meta: vec![], children: vec![] };
    p.fields.sort();
    while r.more() {
        let (n, a) = r.open("processor")?;
        match n.as_str() { "meta" => { let t = r.text()?; p.meta.push((get(a, "id").ok_or("meta without id")?.into(), t)); } "processor" => p.children.push(proc(r, a)?), n => return Err(format!("<{}> in processor", n)) }
    }
    p.meta.sort();
    r.close()?;
    Ok(p)
}

///Reads the header back
fn header(r: &mut R, id: &str) -> Result<Header, String> {
    let (n, a) = r.open("metadata")?;
    eq("first element", n.as_str(), "metadata")?;
    let mut h = Header { id: id.to_string(), meta: MetaSnap { mtype: get(a, "type").map(|s| s.into()), src: get(a, "src").map(|s| s.into()), data: vec![] }, ..Header::default() };
    while r.more() {
        let (n, a) = r.open("header")?;
        match n.as_str() {
            "annotations" => {
                while r.more() {
                    let (n, a) = r.open("annotations")?;
                    let at = spec::ATYPES.iter().find(|x| crate::model::decl_tag(x.0) == n).ok_or(format!("unknown declaration {}", n))?.0;
                    let mut ann = vec![];
                    while r.more() { let (n, a) = r.open("declaration")?; eq("in declaration", n.as_str(), "annotator")?; ann.push(get(a, "processor").ok_or("annotator without processor")?.to_string()); r.close()?; }
                    r.close()?;
                    ann.sort();
                    h.decls.push((format!("{:?}", at), get(a, "set").map(|s| s.into()), get(a, "alias").map(|s| s.into()), get(a, "format").map(|s| s.into()), ann));
                }
                r.close()?;
            }
            "provenance" => { while r.more() { let (n, a) = r.open("provenance")?; eq("in provenance", n.as_str(), "processor")?; h.procs.push(proc(r, a)?); } r.close()?; }
            "meta" => { let t = r.text()?; h.meta.data.push((get(a, "id").ok_or("meta without id")?.into(), t)); }
            "submetadata" => {
                let mut m = MetaSnap { mtype: get(a, "type").map(|s| s.into()), src: get(a, "src").map(|s| s.into()), data: vec![] };
                while r.more() { let (n, a) = r.open("submetadata")?; eq("in submetadata", n.as_str(), "meta")?; let t = r.text()?; m.data.push((get(a, "id").ok_or("meta without id")?.into(), t)); }
                r.close()?;
                m.data.sort();
                h.submeta.push((get(a, "xml:id").ok_or("submetadata without id")?.into(), m));
            }
            n => return Err(format!("<{}> in metadata", n)),
        }
    }
    r.close()?;
    h.meta.data.sort();
    h.submeta.sort_by(|a, b| a.0.cmp(&b.0));
    h.decls.sort();
    Ok(h)
}

///The element as written, compared with the one in memory
fn element(n: &Node, ns: &Option<String>, name: &str, attrs: &Attrs, decls: &HashMap<String, Vec<(Option<String>, Vec<String>)>>) -> Result<(), String> {
    if ns.as_deref() != Some(NS) { return Err(format!("<{}> is in namespace {:?}", name, ns)); }
    if name != spec::tag(n.et) { return Err(format!("<{}> written for {:?}", name, n)); }
    let mut plain: Attrs = vec![];
    let (mut set, mut class, mut subset, mut processor) = (None, None, None, None);
    for (k, v) in attrs {
        match k.as_str() { "set" => set = Some(v.clone()), "class" => class = Some(v.clone()), "subset" => subset = Some(v.clone()), "processor" => processor = Some(v.clone()), _ => plain.push((k.clone(), snap::canon(k, v))) }
    }
    plain.sort();
    eq("attributes", &plain, &n.attrs)?;
    eq("class", &class, &n.class)?;
    eq("subset", &subset, &n.subset)?;
    if n.et == ElementType::Feature { return Ok(()); } //set and processor are those of its parent
    let known = n.decl.as_ref().and_then(|d| decls.get(&format!("{:?}", d.0)));
    let want = n.decl.as_ref().and_then(|d| d.1.clone());
    if set.is_some() { eq("set", &set, &want)?; }
    else if want.is_some() {
        let ok = class.is_some() && known.map_or(false, |k| k.len() == 1 && k[0].0 == want);
        if !ok { return Err(format!("set {:?} is not written and can not be inferred: {:?}", want, n)); }
    }
    if processor.is_some() { eq("processor", &processor, &n.proc)?; }
    else if n.proc.is_some() {
        let sole = known.and_then(|k| k.iter().find(|d| d.0 == want)).map_or(false, |d| d.1.len() == 1 && Some(&d.1[0]) == n.proc.as_ref());
        if !sole || (class.is_none() && set.is_none()) { return Err(format!("processor {:?} is not written and can not be inferred: {:?}", n.proc, n)); }
    }
    Ok(())
}

pub fn check(doc: &Document, root: ElementKey, indent: usize) -> Result<usize, String> {
    let x = xml(doc, root, indent)?;
    inner(doc, root, &x).map_err(|e| format!("(element {}, indent {}) {}\nwritten as:\n{}", root, indent, e, x))
}
fn inner(doc: &Document, root: ElementKey, x: &str) -> Result<usize, String> {
    let evs = reader::parse(x).map_err(|e| format!("not well-formed: {}", e))?;
    let mut r = R { evs: &evs, i: 0 };
    let (n, a) = r.open("root")?;
    eq("root", n.as_str(), "FoLiA")?;
    let id = get(a, "xml:id").ok_or("root without xml:id")?.to_string();
    let version: Vec<&str> = get(a, "version").ok_or("root without version")?.split('.').collect();
    if version.len() != 3 || version.iter().any(|v| v.is_empty() || !v.bytes().all(|b| b.is_ascii_digit())) { return Err(format!("version {:?}", version)); }
    let h = header(&mut r, &id)?;
    let want = snap::header(doc)?;
    want.same(&h).map_err(|e| format!("(first in memory, then as written) {}", e))?;
    let mut decls: HashMap<String, Vec<(Option<String>, Vec<String>)>> = HashMap::new();
    for d in h.decls.iter() { decls.entry(d.0.clone()).or_default().push((d.1.clone(), d.4.clone())); }
    let n = body(&mut r, doc, root, &decls)?;
    //the element written by itself, as is to be embedded in a document
    if root != 0 {
        let e = doc.get_element(root).ok_or("element is gone")?;
        let part = e.xml(if x.len() % 3 == 0 { 0 } else { x.len() % 4 }).map_err(|e| format!("the element by itself is not serialised: {:?}", e))?;
        let whole = format!("<FoLiA xmlns=\"{}\" xmlns:xlink=\"{}\">{}</FoLiA>", NS, crate::model::XLINK, part);
        (|| {
            let evs = reader::parse(&whole).map_err(|e| format!("not well-formed: {}", e))?;
            let mut r = R { evs: &evs, i: 0 };
            r.open("root")?;
            let m = body(&mut r, doc, root, &decls)?;
            eq("elements", m, n)
        })().map_err(|e: String| format!("by itself: {}\n{}", e, part))?;
    }
    Ok(n)
}
fn body(r: &mut R, doc: &Document, root: ElementKey, decls: &HashMap<String, Vec<(Option<String>, Vec<String>)>>) -> Result<usize, String> {
    let mut s = snap::tree(doc, root)?;
    snap::drop_layout(&mut s);
    r.skip();
    let mut stack: Vec<bool> = vec![];
    let mut want = s.evs.iter();
    let mut pending: Option<String> = None;
    let mut n = 0;
    let flush = |pending: &mut Option<String>, want: &mut std::slice::Iter<Ev>| -> Result<(), String> {
        if let Some(t) = pending.take() { match want.next() { Some(Ev::Text(w)) if *w == t => {} o => return Err(format!("text {:?} written for {:?}", t, o)) } }
        Ok(())
    };
    while n == 0 || !stack.is_empty() {
        let e = r.peek().ok_or("premature end")?;
        r.i += 1;
        match e {
            XEv::Text(t) => {
                if stack.last() == Some(&false) && blank(t) && pending.is_none() {
                    //layout, unless it is part of text
                    if !matches!(want.clone().next(), Some(Ev::Text(_))) { continue; }
                    let next_is_text = matches!(r.peek(), Some(XEv::Text(_)));
                    if !next_is_text { continue; }
                }
                pending.get_or_insert_with(String::new).push_str(t);
            }
            XEv::Open { ns, name, attrs } => {
                flush(&mut pending, &mut want)?;
                match want.next() {
                    Some(Ev::Open(node)) => { element(node, ns, name, attrs, decls)?; let sp = spec::spec(node.et); stack.push(sp.textcontainer || sp.phoncontainer); n += 1; }
                    o => return Err(format!("<{}> written for {:?}", name, o)),
                }
            }
            XEv::Close => { flush(&mut pending, &mut want)?; match want.next() { Some(Ev::Close) => { stack.pop(); } o => return Err(format!("end of element written for {:?}", o)) } }
            XEv::Comment(c) => { flush(&mut pending, &mut want)?; match want.next() { Some(Ev::Comment(w)) if w == c => {} o => return Err(format!("comment {:?} written for {:?}", c, o)) } }
        }
    }
    if let Some(w) = want.next() { return Err(format!("not written: {:?}", w)); }
    r.close()?;
    r.skip();
    if let Some(e) = r.peek() { return Err(format!("after the root: {:?}", e)); }
    Ok(n)
}

fn case(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    let doc = match rng.below(3) {
        0 => { let m = if rng.p(1, 150) { large_doc(rng, true) } else { random_doc(rng) }; let x = plain(&m); ctx.input(&x); parse(&x)? }
        1 => { let m = buildable_doc(rng); ctx.input(&plain(&m)); super::c01::build_doc(&m)? }
        _ => {
            let mut o = Opts::new(rng);
            o.size = o.size.min(40);
            let mut h = Hist::start(rng, o)?;
            for _ in 0..rng.range(1, 30) { if let Err(e) = h.step(rng, &Weights::ALL) { ctx.input(&h.describe()); return Err(e); } }
            ctx.input(&h.describe());
            h.doc
        }
    };
    let total = snap::doc_len(&doc);
    for i in if ctx.thorough() { vec![0, 1, 2, 4, 8] } else { vec![0, rng.range(1, 4)] } {
        let n = check(&doc, 0, i)?;
        ctx.count("elements compared", n);
        ctx.eval(if n > 3 { Some(snap::tree(&doc, 0)?.digest()) } else { None });
        if n > 10 { let i = ctx.input.clone(); ctx.sample(|| i); }
    }
    //any element by itself
    let roots: Vec<usize> = if total < 25 { (1..total).collect() } else { (0..12).map(|_| rng.below(total)).collect() };
    for k in roots {
        let indent = rng.below(5);
        let n = check(&doc, k as ElementKey, indent)?;
        ctx.count("elements serialised by themselves", 1);
        ctx.eval(if n > 1 { Some(crate::rng::hash(&format!("{} {}", k, total)) ^ snap::tree(&doc, k as ElementKey)?.digest()) } else { None });
    }
    Ok(())
}

///What XML can not represent is refused
fn f_refused(ctx: &mut Ctx) -> Result<(), String> {
    for bad in ["\u{0}", "a\u{1}b", "\u{b}", "\u{c}", "\u{1f}", "\u{fffe}", "x\u{ffff}", "\u{8}"] {
        for place in 0..8 {
            let mut doc = Document::new("doc", DocumentProperties::default()).map_err(|e| format!("{:?}", e))?;
            let s = bad.to_string();
            let r = match place {
                0 => doc.add_element_to(0, ElementData::new(ElementType::TextContent).with_text(s)).map(|_| ()),
                1 => doc.add_element_to(0, ElementData::new(ElementType::Paragraph).with_attrib(Attribute::N(s))).map(|_| ()),
                2 => doc.add_element_to(0, ElementData::new(ElementType::Paragraph).with_attrib(Attribute::Set(s)).with_attrib(Attribute::Class("c".into()))).map(|_| ()),
                3 => doc.add_element_to(0, ElementData::new(ElementType::Paragraph).with_attrib(Attribute::Class(s))).map(|_| ()),
                4 => doc.add_element_to(0, ElementData::new(ElementType::Paragraph).with(DataType::Comment(s))).map(|_| ()),
                5 => { doc.metadata.data.insert("k".into(), s); Ok(()) }
                6 => { doc.metadata.data.insert(s, "v".into()); Ok(()) }
                _ => doc.add_processor(Processor::new("x".into()).with_id("p".into()).with_host(s)).map(|_| ()),
            };
            if r.is_err() { continue; }
            ctx.eval(Some(crate::rng::hash(&format!("{} {}", bad, place))));
            if let Ok(x) = doc.xml(0, 0) { return Err(format!("character {:?} at place {} is written as {:?}", bad, place, String::from_utf8_lossy(&x))); }
        }
    }
    for bad in ["a--b", "-", "a-", "--", "-->", "a\rb"] {
        let mut doc = Document::new("doc", DocumentProperties::default()).map_err(|e| format!("{:?}", e))?;
        doc.add_element_to(0, ElementData::new(ElementType::Paragraph).with(DataType::Comment(bad.to_string()))).map_err(|e| format!("{:?}", e))?;
        ctx.eval(Some(crate::rng::hash(bad)));
        if let Ok(x) = doc.xml(0, 0) { return Err(format!("comment {:?} is written as {:?}", bad, String::from_utf8_lossy(&x))); }
    }
    Ok(())
}
fn f_escapes(ctx: &mut Ctx) -> Result<(), String> {
    for s in ["<", ">", "&", "\"", "'", "]]>", "&amp;", "&#65;", "\r", "\n", "\t", "a\r\nb", "<![CDATA[x]]>", "<!-- x -->", "<?x?>", "%x;", "\u{85}", "\u{2028}", "\u{7f}", "\u{80}", "\u{10ffff}", "\u{fffd}"] {
        let mut doc = Document::new("doc", DocumentProperties::default()).map_err(|e| format!("{:?}", e))?;
        doc.metadata.data.insert(s.into(), s.into());
        doc.add_processor(Processor::new(s.into()).with_id("p".into()).with_host(s.into())).map_err(|e| format!("{:?}", e))?;
        doc.add_element_to(0, ElementData::new(ElementType::Paragraph).with_attrib(Attribute::N(s.into())).with_attrib(Attribute::Set(s.into())).with_attrib(Attribute::Class(s.into())).with_attrib(Attribute::Processor("p".into())).with(DataType::AddElement(ElementData::new(ElementType::TextContent).with_text(s.into())))).map_err(|e| format!("{:?}", e))?;
        ctx.input(s);
        ctx.eval(Some(crate::rng::hash(s)));
        for i in 0..4 { check(&doc, 0, i)?; }
    }
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C02",
    rule: "Documents (parsed, built, or left by a history of operations) and single elements of them are serialised at several indentations; an independent, strict, namespace-aware XML reader reads the result and its events are compared one by one with the tree in memory (attributes, set, class, processor, text, comments), the header included. Content XML can not represent has to be refused. Non-trivial: more than three elements (one for single elements); distinct by digest.",
    cases: (20000, 800000), case,
    fixed: &[("refused characters", f_refused), ("escapes", f_escapes)],
    ..BASE
};
