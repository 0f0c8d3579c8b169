//! Snapshots: the content of a document as its users read it, through the public API only.
use crate::spec::*;
use folia::*;

#[derive(Clone, PartialEq)]
pub struct Node {
    pub et: ElementType,
    pub decl: Option<(AnnotationType, Option<String>)>,
    pub class: Option<String>,
    pub subset: Option<String>,
    pub proc: Option<String>,
    ///(name, canonical value), sorted
    pub attrs: Vec<(String, String)>,
}

impl std::fmt::Debug for Node {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "<{}", tag(self.et))?;
        for (k, v) in self.attrs.iter() { write!(f, " {}={:?}", k, v)?; }
        if let Some(d) = &self.decl { write!(f, " [decl {:?} {:?}]", d.0, d.1)?; }
        if let Some(c) = &self.class { write!(f, " [class {:?}]", c)?; }
        if let Some(c) = &self.subset { write!(f, " [subset {:?}]", c)?; }
        if let Some(c) = &self.proc { write!(f, " [processor {:?}]", c)?; }
        write!(f, ">")
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Ev { Open(Node), Close, Text(String), Comment(String) }

#[derive(Clone, PartialEq, Debug, Default)]
pub struct ProcSnap { pub fields: Vec<(String, String)>, pub meta: Vec<(String, String)>, pub children: Vec<ProcSnap> }

#[derive(Clone, PartialEq, Debug, Default)]
pub struct MetaSnap { pub mtype: Option<String>, pub src: Option<String>, pub data: Vec<(String, String)> }

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Header {
    pub id: String,
    pub meta: MetaSnap,
    pub submeta: Vec<(String, MetaSnap)>,
    pub procs: Vec<ProcSnap>,
    ///(type, set, alias, format, annotators)
    pub decls: Vec<(String, Option<String>, Option<String>, Option<String>, Vec<String>)>,
}

#[derive(Clone, Debug, Default)]
pub struct Snap {
    pub evs: Vec<Ev>,
    ///keys of the nodes, in document order
    pub keys: Vec<ElementKey>,
    ///(position of the element, position of the span element that refers to it; usize::MAX if outside), sorted
    pub links: Vec<(usize, usize)>,
    pub header: Header,
}

impl Snap {
    pub fn elements(&self) -> usize { self.keys.len() }
    pub fn same_content(&self, o: &Snap) -> Result<(), String> { self.same_tree(o)?; self.header.same(&o.header) }
    pub fn same_tree(&self, o: &Snap) -> Result<(), String> {
        for i in 0..self.evs.len().max(o.evs.len()) {
            let (a, b) = (self.evs.get(i), o.evs.get(i));
            if a != b { return Err(format!("content differs at item {}:\n  {:?}\n  {:?}\n  (preceded by {:?})", i, a, b, if i > 0 { self.evs.get(i - 1) } else { None })); }
        }
        if self.links != o.links { return Err(format!("links from elements to span annotations differ:\n  {:?}\n  {:?}", self.links, o.links)); }
        Ok(())
    }
    pub fn digest(&self) -> u64 { crate::rng::hash(&format!("{:?}{:?}{:?}", self.evs, self.links, self.header)) }
}

impl Header {
    pub fn same(&self, o: &Header) -> Result<(), String> {
        if self == o { return Ok(()); }
        if self.id != o.id { return Err(format!("document ID differs: {:?} {:?}", self.id, o.id)); }
        if self.meta != o.meta { return Err(format!("metadata differs:\n  {:?}\n  {:?}", self.meta, o.meta)); }
        if self.submeta != o.submeta { return Err(format!("submetadata differs:\n  {:?}\n  {:?}", self.submeta, o.submeta)); }
        if self.procs != o.procs { return Err(format!("provenance differs:\n  {:?}\n  {:?}", self.procs, o.procs)); }
        for i in 0..self.decls.len().max(o.decls.len()) {
            if self.decls.get(i) != o.decls.get(i) { return Err(format!("declarations differ:\n  {:?}\n  {:?}", self.decls.get(i), o.decls.get(i))); }
        }
        Err("headers differ".into())
    }
}

///Date-time in an unambiguous form, computed from its fields
pub fn dt(d: &chrono::NaiveDateTime) -> String {
    use chrono::{Datelike, Timelike};
    format!("{}-{}-{} {}:{}:{}+{}", d.year(), d.month(), d.day(), d.hour(), d.minute(), d.second(), d.nanosecond())
}

pub fn bits(f: f64) -> String { format!("f{:016x}", if f == 0.0 { 0.0f64.to_bits() } else { f.to_bits() }) }

pub fn ptype(t: ProcessorType) -> &'static str {
    match t { ProcessorType::Auto => "auto", ProcessorType::Manual => "manual", ProcessorType::Generator => "generator", ProcessorType::DataSource => "datasource" }
}

///Name and canonical value of an attribute; None for those that have no value of their own (encoded or ignored)
pub fn attr(a: &Attribute) -> Option<(String, String)> {
    let yn = |b: &bool| if *b { "yes" } else { "no" }.to_string();
    let (k, v) = match a {
        Attribute::Ignore | Attribute::DeclarationRef(_) | Attribute::ClassRef(_) | Attribute::ProcessorRef(_) | Attribute::SubsetRef(_) => return None,
        Attribute::Id(s) => ("xml:id", s.clone()),
        Attribute::Set(s) => ("set", s.clone()),
        Attribute::Class(s) => ("class", s.clone()),
        Attribute::Annotator(s) => ("annotator", s.clone()),
        Attribute::AnnotatorType(t) => ("annotatortype", ptype(*t).to_string()),
        Attribute::Confidence(f) => ("confidence", bits(*f)),
        Attribute::N(s) => ("n", s.clone()),
        Attribute::DateTime(d) => ("datetime", dt(d)),
        Attribute::BeginTime(s) => ("begintime", s.clone()),
        Attribute::EndTime(s) => ("endtime", s.clone()),
        Attribute::Src(s) => ("src", s.clone()),
        Attribute::Speaker(s) => ("speaker", s.clone()),
        Attribute::Textclass(s) => ("textclass", s.clone()),
        Attribute::Metadata(s) => ("metadata", s.clone()),
        Attribute::Idref(s) => ("id", s.clone()),
        Attribute::Space(b) => ("space", yn(b)),
        Attribute::Text(s) => ("t", s.clone()),
        Attribute::Type(s) => ("type", s.clone()),
        Attribute::Auth(s) => ("auth", s.clone()),
        Attribute::Offset(n) => ("offset", format!("{}", n)),
        Attribute::Ref(s) => ("ref", s.clone()),
        Attribute::Original(s) => ("original", s.clone()),
        Attribute::LineNr(n) => ("linenr", format!("{}", n)),
        Attribute::PageNr(s) => ("pagenr", s.clone()),
        Attribute::NewPage(b) => ("newpage", yn(b)),
        Attribute::XLinkType(s) => ("xlink:type", s.clone()),
        Attribute::Tag(s) => ("tag", s.clone()),
        Attribute::Processor(s) => ("processor", s.clone()),
        Attribute::Href(s) => ("xlink:href", s.clone()),
        Attribute::Format(s) => ("format", s.clone()),
        Attribute::Subset(s) => ("subset", s.clone()),
    };
    Some((k.to_string(), v))
}

///Canonical form of the value of an attribute as written in XML
pub fn canon(k: &str, v: &str) -> String {
    match k {
        "confidence" => bits(v.parse::<f64>().expect("confidence in model")),
        "datetime" | "begindatetime" | "enddatetime" => {
            let n = |a: usize, b: usize| v[a..b].parse::<u32>().expect("datetime in model");
            format!("{}-{}-{} {}:{}:{}+0", n(0, 4), n(5, 7), n(8, 10), n(11, 13), n(14, 16), n(17, 19))
        }
        "space" | "newpage" => if v == "yes" || v == "true" { "yes".into() } else { "no".into() },
        "offset" | "linenr" => format!("{}", v.parse::<u32>().expect("number in model")),
        _ => v.to_string(),
    }
}

pub const PLAINS: &[&str] = &["xml:id", "set", "class", "processor", "subset", "annotator", "annotatortype", "confidence", "n", "datetime", "begintime", "endtime", "src", "speaker", "textclass", "metadata", "id", "space", "t", "type", "auth", "offset", "ref", "original", "linenr", "pagenr", "newpage", "xlink:type", "xlink:href", "tag", "format"];

pub fn node(doc: &Document, key: ElementKey) -> Result<Node, String> {
    let e = doc.get_element(key).ok_or(format!("element {} does not exist", key))?;
    let mut attrs: Vec<(String, String)> = e.attribs().iter().filter_map(attr).collect();
    attrs.sort();
    let decl = e.get_declaration().map(|d| (d.annotationtype, d.set.clone()));
    if e.declaration_key().is_some() && decl.is_none() { return Err(format!("element {} has a declaration key that does not exist", key)); }
    let set = decl.as_ref().and_then(|d| d.1.clone());
    if e.set().map(|s| s.to_string()) != set { return Err(format!("element {}: set() {:?} is not that of its declaration {:?}", key, e.set(), set)); }
    Ok(Node { et: e.elementtype(), decl, class: e.class().map(|s| s.to_string()), subset: e.subset().map(|s| s.to_string()), proc: e.processor().map(|s| s.to_string()), attrs })
}

///The tree under (and including) the given element
pub fn tree(doc: &Document, root: ElementKey) -> Result<Snap, String> {
    let mut snap = Snap::default();
    let mut rawlinks: Vec<(usize, ElementKey)> = vec![];
    let mut pos: std::collections::HashMap<ElementKey, usize> = Default::default();
    let mut stack: Vec<(ElementKey, usize, usize, bool)> = vec![];
    let total = doc_len(doc);
    let open = |key: ElementKey, snap: &mut Snap, pos: &mut std::collections::HashMap<ElementKey, usize>| -> Result<(usize, bool), String> {
        let n = node(doc, key)?;
        let container = { let s = spec(n.et); s.textcontainer || s.phoncontainer };
        snap.evs.push(Ev::Open(n));
        let p = snap.keys.len();
        snap.keys.push(key);
        if pos.insert(key, p).is_some() { return Err(format!("element {} occurs more than once in the tree", key)); }
        if p > total { return Err("more elements in the tree than in the document".into()); }
        Ok((p, container))
    };
    let (p, c) = open(root, &mut snap, &mut pos)?;
    stack.push((root, 0, p, c));
    while let Some((key, cursor, p, container)) = stack.pop() {
        let e = doc.get_element(key).ok_or("gone")?;
        match e.elementdata_pub().get_data_at(cursor) {
            None => snap.evs.push(Ev::Close),
            Some(item) => {
                stack.push((key, cursor + 1, p, container));
                match item {
                    DataType::Element(child) => {
                        let (p, c) = open(*child, &mut snap, &mut pos)?;
                        stack.push((*child, 0, p, c));
                    }
                    DataType::Text(t) => {
                        if let Some(Ev::Text(prev)) = snap.evs.last_mut() { prev.push_str(t) } else if !t.is_empty() { snap.evs.push(Ev::Text(t.clone())) }
                    }
                    DataType::Comment(t) => snap.evs.push(Ev::Comment(t.clone())),
                    DataType::SpanReference(k) => rawlinks.push((p, *k)),
                    DataType::AddElement(_) => return Err(format!("element {} holds an element that was never added", key)),
                }
            }
        }
    }
    let mut links: Vec<(usize, usize)> = rawlinks.iter().map(|(p, k)| (*p, pos.get(k).copied().unwrap_or(usize::MAX))).collect();
    links.sort();
    snap.links = links;
    Ok(snap)
}

pub trait Data { fn elementdata_pub(&self) -> &ElementData; }
impl<'a> Data for Element<'a> { fn elementdata_pub(&self) -> &ElementData { ReadElement::elementdata(self) } }

///Number of elements in the document
pub fn doc_len(doc: &Document) -> usize { <Document as Store<ElementData, ElementKey>>::len(doc) }

fn meta(m: &Metadata) -> MetaSnap {
    let mut data: Vec<(String, String)> = m.data.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    data.sort();
    MetaSnap { mtype: m.metadatatype.clone(), src: m.src.clone(), data }
}

fn proc(doc: &Document, key: ProcKey, parent: Option<ProcKey>, depth: usize) -> Result<ProcSnap, String> {
    let p = doc.get_processor(key).ok_or(format!("processor {} does not exist", key))?;
    if depth > 200 { return Err("provenance chain too deep".into()); }
    if p.parent != parent { return Err(format!("processor {} ({:?}) is listed under {:?} but its parent is {:?}", key, p.id, parent, p.parent)); }
    let mut fields: Vec<(String, String)> = vec![("xml:id".into(), p.id.clone()), ("name".into(), p.name.clone()), ("type".into(), ptype(p.processortype).into())];
    for (k, v) in [("version", &p.version), ("folia_version", &p.folia_version), ("document_version", &p.document_version), ("command", &p.command), ("host", &p.host), ("user", &p.user), ("src", &p.src), ("format", &p.format), ("resourcelink", &p.resourcelink)] {
        if !v.is_empty() { fields.push((k.into(), v.clone())); }
    }
    if let Some(d) = &p.begindatetime { fields.push(("begindatetime".into(), dt(d))); }
    if let Some(d) = &p.enddatetime { fields.push(("enddatetime".into(), dt(d))); }
    fields.sort();
    let mut children = vec![];
    for c in p.processors.iter() { children.push(proc(doc, *c, Some(key), depth + 1)?); }
    Ok(ProcSnap { fields, meta: meta(&p.metadata).data, children })
}

pub fn header(doc: &Document) -> Result<Header, String> {
    let mut h = Header { id: doc.id().to_string(), meta: meta(&doc.metadata), ..Header::default() };
    h.submeta = doc.submetadata.iter().map(|(k, m)| (k.clone(), meta(m))).collect();
    h.submeta.sort_by(|a, b| a.0.cmp(&b.0));
    for key in doc.provenancestore.chain.iter() { h.procs.push(proc(doc, *key, None, 0)?); }
    for d in doc.declarations() {
        let d = d.as_ref().ok_or("removed declaration")?;
        let mut ann = vec![];
        for p in d.processors.iter() { ann.push(doc.get_processor(*p).ok_or("annotator of declaration does not exist")?.id.clone()); }
        ann.sort();
        h.decls.push((format!("{:?}", d.annotationtype), d.set.clone(), d.alias.clone(), d.format.clone(), ann));
    }
    h.decls.sort();
    Ok(h)
}

///The content of a whole document
pub fn doc(doc: &Document) -> Result<Snap, String> {
    let mut s = tree(doc, 0)?;
    s.header = header(doc)?;
    Ok(s)
}

///Processors as the format expresses them: annotations in a declaration with a single processor belong to that one
pub fn effective(s: &mut Snap) {
    //a layer that was added without a set gets the set of the spans in it, as the format can not express anything else
    let mut open: Vec<usize> = vec![];
    let mut infer: Vec<(usize, (AnnotationType, Option<String>))> = vec![];
    for (i, ev) in s.evs.iter().enumerate() {
        match ev {
            Ev::Open(n) => {
                if let (true, Some(d)) = (in_group(ElementGroup::Span, n.et), &n.decl) {
                    for l in open.iter().rev() {
                        if let Ev::Open(ln) = &s.evs[*l] {
                            if in_group(ElementGroup::Layer, ln.et) {
                                //(only the closest layer of the type)
                                if spec(ln.et).at == Some(d.0) {
                                    if ln.decl.as_ref().map_or(true, |x| x.1.is_none() && ln.class.is_none() && ln.proc.is_none()) && !infer.iter().any(|x| x.0 == *l) { infer.push((*l, d.clone())); }
                                    break;
                                }
                            }
                        }
                    }
                }
                open.push(i);
            }
            Ev::Close => { open.pop(); }
            _ => {}
        }
    }
    for (i, d) in infer { if let Ev::Open(n) = &mut s.evs[i] { n.decl = Some(d); } }
    let sole: std::collections::HashMap<(String, Option<String>), String> = s.header.decls.iter().filter(|d| d.4.len() == 1).map(|d| ((d.0.clone(), d.1.clone()), d.4[0].clone())).collect();
    for ev in s.evs.iter_mut() {
        if let Ev::Open(n) = ev {
            if n.proc.is_none() && n.et != ElementType::Feature {
                if let Some(d) = &n.decl { n.proc = sole.get(&(format!("{:?}", d.0), d.1.clone())).cloned(); }
            }
        }
    }
}

///Layout (white space between elements) is not content
pub fn drop_layout(s: &mut Snap) {
    let mut out: Vec<Ev> = vec![];
    let mut stack: Vec<bool> = vec![];
    for ev in s.evs.drain(..) {
        match &ev {
            Ev::Open(n) => { let sp = spec(n.et); stack.push(sp.textcontainer || sp.phoncontainer); }
            Ev::Close => { stack.pop(); }
            Ev::Text(t) => if !stack.last().copied().unwrap_or(false) && t.chars().all(|c| matches!(c, ' ' | '\t' | '\n' | '\r')) { continue; },
            _ => {}
        }
        if let (Ev::Text(t), Some(Ev::Text(p))) = (&ev, out.last_mut()) { p.push_str(t); continue; }
        out.push(ev);
    }
    s.evs = out;
}
