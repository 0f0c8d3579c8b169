//! Histories of operations on a real document and its shadow, side by side.
use crate::api;
use crate::gen::{Gen, Opts};
use crate::model::*;
use crate::rng::Rng;
use crate::shadow::*;
use crate::spec::*;
use crate::view::*;
use folia::*;

///How often each kind of operation is tried
#[derive(Clone)]
pub struct Weights { pub add: usize, pub orphan: usize, pub annotate: usize, pub span: usize, pub attach: usize, pub detach: usize, pub declare: usize, pub processor: usize, pub activate: usize, pub feature: usize, pub bad: usize, pub existing: usize, pub edit: usize }

impl Weights {
    pub const ALL: Weights = Weights { add: 6, orphan: 1, annotate: 5, span: 5, attach: 4, detach: 2, declare: 2, processor: 1, activate: 1, feature: 2, bad: 4, existing: 1, edit: 2 };
}

///What about the elements is compared
pub const TREE: u32 = 1;
pub const IDS: u32 = 2;
pub const VOCAB: u32 = 4;
pub const PROC: u32 = 8;
pub const ATTRS: u32 = 16;
pub const LINKS: u32 = 32;
pub const HEADER: u32 = 64;
pub const ALL: u32 = 127;

pub struct Hist {
    pub doc: Document, pub sh: Shadow, pub log: Vec<String>,
    pub sets: Vec<String>, pub classes: Vec<String>, pub subsets: Vec<String>, pub n: usize,
    pub wild: bool, pub ops: usize, pub failed: usize, pub moved: usize, pub layers: usize,
    ///compare everything after every operation (rather than at the end)
    pub strict: bool,
    ///every identifier any operation mentioned
    pub tried: std::collections::BTreeSet<String>,
}

pub enum Outcome { Added(usize), Done, Refused }

fn key(i: usize) -> ElementKey { i as ElementKey }

///Properties to create or parse a document with
fn properties(rng: &mut Rng, sets: &[String]) -> (Vec<(AnnotationType, Option<String>)>, Option<ProcM>) {
    let mut declare = vec![];
    if rng.p(1, 4) { for _ in 0..rng.range(1, 4) { let at = if rng.p(1, 2) { *rng.pick(&[AnnotationType::TOKEN, AnnotationType::POS, AnnotationType::ENTITY, AnnotationType::TEXT, AnnotationType::SENTENCE]) } else { rng.pick(ATYPES).0 }; declare.push((at, if rng.p(1, 5) { None } else { Some(rng.pick(sets).clone()) })); } }
    let processor = if rng.p(1, 4) { let mut g = Gen::new(rng, Opts { size: 1, free: false, header: false, spans: false, feats: false, shorthand: false, comments: false, wild: false, attrs: false, forward: false, depth: 1 }); Some(g.procm("own")) } else { None };
    (declare, processor)
}
fn with_properties(declare: &[(AnnotationType, Option<String>)], processor: &Option<ProcM>) -> DocumentProperties {
    let mut p = DocumentProperties::default();
    if let Some(x) = processor { p = p.with_processor(api::processor(x)); }
    for (at, set) in declare { p = p.with_declaration(*at, set.clone()); }
    p
}

impl Hist {
    ///Starts from a document as generated, parsed
    pub fn parsed(rng: &mut Rng, o: Opts) -> Result<Hist, String> {
        let wild = o.wild;
        let mut g = Gen::new(rng, o);
        let m = g.doc();
        let (sets, classes, subsets, n) = (g.sets.clone(), g.classes.clone(), g.subsets.clone(), g.n);
        let xml = plain(&m);
        let (declare, processor) = properties(rng, &sets);
        let doc = Document::from_str(&xml, with_properties(&declare, &processor)).map_err(|e| format!("does not parse: {:?}\n{}", e, xml))?;
        Ok(Hist { doc, sh: Shadow::parse_with(&m, &declare, processor.as_ref()), log: vec![format!("parsed with declarations {:?} processor {:?}: {}", declare, processor, xml)], sets, classes, subsets, n, wild, ops: 0, failed: 0, moved: 0, layers: 0, strict: true, tried: Default::default() })
    }
    ///Starts from a new document
    pub fn created(rng: &mut Rng, o: Opts) -> Result<Hist, String> {
        let wild = o.wild;
        let g = Gen::new(rng, Opts { header: false, ..o });
        let (sets, classes, subsets) = (g.sets.clone(), g.classes.clone(), g.subsets.clone());
        let (declare, processor) = properties(rng, &sets);
        let speech = rng.p(1, 5);
        let doc = Document::new("doc", with_properties(&declare, &processor).with_bodytype(if speech { BodyType::Speech } else { BodyType::Text })).map_err(|e| format!("can not create document: {:?}", e))?;
        Ok(Hist { doc, sh: Shadow::create_with("doc", if speech { ElementType::Speech } else { ElementType::Text }, &declare, processor.as_ref()), log: vec![format!("new document with declarations {:?} processor {:?}", declare, processor)], sets, classes, subsets, n: 0, wild, ops: 0, failed: 0, moved: 0, layers: 0, strict: true, tried: Default::default() })
    }
    pub fn start(rng: &mut Rng, o: Opts) -> Result<Hist, String> { if rng.p(1, 2) { Hist::parsed(rng, o) } else { Hist::created(rng, o) } }

    pub fn describe(&self) -> String { let n = self.log.len(); let skip = if n > 60 { n - 60 } else { 0 }; format!("{}{}", if skip > 0 { format!("({} operations before)\n", skip) } else { String::new() }, self.log[skip..].join("\n")) }

    ///Elements that spans may refer to: attached, with an identifier, not in a layer
    pub fn words(&self) -> Vec<String> {
        let mut out: Vec<(usize, String)> = self.sh.ids.iter().filter(|(_, i)| spec(self.sh.nodes[**i].et).wrefable && { let a = self.sh.ancestors(**i); a.last() == Some(&0) && !a.iter().any(|x| in_group(ElementGroup::Layer, self.sh.nodes[*x].et)) }).map(|(k, i)| (*i, k.clone())).collect();
        out.sort();
        out.into_iter().map(|x| x.1).collect()
    }
    pub fn gen<T>(&mut self, rng: &mut Rng, size: usize, f: impl FnOnce(&mut Gen) -> T) -> T {
        let o = Opts { size, free: rng.p(1, 6), header: false, spans: true, feats: rng.p(2, 3), shorthand: false, comments: rng.p(1, 4), wild: self.wild, attrs: rng.p(1, 2), forward: false, depth: 6 };
        let words = self.words();
        let mut g = Gen::new(rng, o);
        g.sets = self.sets.clone();
        g.classes = self.classes.clone();
        g.subsets = self.subsets.clone();
        g.n = self.n;
        g.words = words;
        g.procs = self.sh.procs.iter().map(|p| p.m.id().to_string()).collect();
        g.ids = { let mut v: Vec<String> = self.sh.ids.keys().cloned().collect(); v.sort(); v };
        let r = f(&mut g);
        self.n = g.n;
        r
    }
    fn any(&self, rng: &mut Rng) -> usize { rng.below(self.sh.nodes.len()) }
    fn attached(&self, rng: &mut Rng, f: impl Fn(ElementType) -> bool) -> usize {
        let v: Vec<usize> = (0..self.sh.nodes.len()).filter(|i| f(self.sh.nodes[*i].et) && (*i == 0 || self.sh.ancestors(*i).last() == Some(&0))).collect();
        if v.is_empty() { 0 } else { *rng.pick(&v) }
    }
    ///A type the given parent accepts
    fn child_type(&self, rng: &mut Rng, parent: ElementType) -> Option<ElementType> {
        let mut v: Vec<ElementType> = vec![];
        for s in SPEC {
            if !accepts(parent, s.et) || matches!(s.et, ElementType::ForeignData | ElementType::WordReference | ElementType::Feature) { continue; }
            let w = if in_group(ElementGroup::Structure, s.et) || s.et == ElementType::TextContent { 3 } else { 1 };
            for _ in 0..w { v.push(s.et); }
        }
        if v.is_empty() { None } else { Some(*rng.pick(&v)) }
    }

    // ------------------------------------------------------------ operations, each on both

    fn note(&mut self, e: &El) { if let Some(id) = e.get("xml:id") { self.tried.insert(id.to_string()); } for c in e.children() { self.note(c); } }
    fn added(&mut self, what: &str, got: Result<ElementKey, FoliaError>, expected: Option<usize>) -> Result<Outcome, String> {
        self.ops += 1;
        match (got, expected) {
            (Ok(k), Some(i)) => if k == key(i) { Ok(Outcome::Added(i)) } else { Err(format!("{}: key {} returned, {} expected", what, k, i)) },
            (Ok(k), None) => Err(format!("{}: accepted (key {}), it should be refused", what, k)),
            (Err(_), None) => { self.failed += 1; Ok(Outcome::Refused) }
            (Err(e), Some(_)) => Err(format!("{}: refused: {:?}", what, e)),
        }
    }
    fn done(&mut self, what: &str, got: Result<(), FoliaError>, expected: bool) -> Result<Outcome, String> {
        self.ops += 1;
        match (got, expected) {
            (Ok(()), true) => Ok(Outcome::Done),
            (Err(_), false) => { self.failed += 1; Ok(Outcome::Refused) }
            (Ok(()), false) => Err(format!("{}: accepted, it should be refused", what)),
            (Err(e), true) => Err(format!("{}: refused: {:?}", what, e)),
        }
    }
    pub fn add(&mut self, parent: Option<usize>, e: &El) -> Result<Outcome, String> {
        self.note(e);
        let what = format!("add to {:?}: {:?}", parent, e);
        self.log.push(what.clone());
        let ok = self.sh.check(parent, e).is_ok();
        let expected = if ok { Some(self.sh.nodes.len()) } else { None };
        let got = match parent { Some(p) => self.doc.add_element_to(key(p), api::build(e)), None => self.doc.add_element(api::build(e)) };
        if ok { self.sh.add_tree(parent, e); }
        self.added(&what, got, expected)
    }
    pub fn annotate(&mut self, parent: usize, e: &El) -> Result<Outcome, String> {
        self.note(e);
        let what = format!("annotate {} ({}): {:?}", parent, self.sh.nodes.get(parent).map_or("", |n| tag(n.et)), e);
        self.log.push(what.clone());
        let r = self.sh.annotate(parent, e);
        let got = self.doc.annotate(key(parent), api::build(e));
        if let Ok((_, Some(_))) = &r { self.layers += 1; }
        self.added(&what, got, r.ok().map(|x| x.0))
    }
    pub fn annotate_span(&mut self, e: &El) -> Result<Outcome, String> {
        self.note(e);
        let what = format!("annotate span: {:?}", e);
        self.log.push(what.clone());
        let r = self.sh.annotate_span(e);
        let got = self.doc.annotate_span(api::build(e));
        if let Ok((_, Some(_))) = &r { self.layers += 1; }
        self.added(&what, got, r.ok().map(|x| x.0))
    }
    pub fn attach(&mut self, parent: usize, child: usize) -> Result<Outcome, String> {
        let what = format!("attach {} to {}", child, parent);
        self.log.push(what.clone());
        let ok = self.sh.attach(parent, child).is_ok();
        if ok { self.moved += 1; }
        let got = self.doc.attach_element(key(parent), key(child));
        self.done(&what, got, ok)
    }
    pub fn detach(&mut self, child: usize) -> Result<Outcome, String> {
        let what = format!("detach {}", child);
        self.log.push(what.clone());
        let ok = self.sh.detach(child).is_ok();
        let got = self.doc.detach_element(key(child));
        self.done(&what, got, ok)
    }
    pub fn declare(&mut self, at: AnnotationType, set: Option<&str>) -> Result<usize, String> {
        let what = format!("declare {:?} {:?}", at, set);
        self.log.push(what.clone());
        let d = self.sh.declare(at, set);
        let got = self.doc.declare(at, &set.map(|s| s.to_string()), &None, &None).map_err(|e| format!("{}: refused: {:?}", what, e))?;
        self.ops += 1;
        if got as usize != d { return Err(format!("{}: key {} returned, {} expected", what, got, d)); }
        Ok(d)
    }
    pub fn add_processor(&mut self, p: &ProcM, parent: Option<usize>) -> Result<usize, String> {
        let what = format!("add processor {:?} under {:?}", p, parent);
        self.log.push(what.clone());
        let i = self.sh.add_proc(p, parent);
        let got = match parent { None => self.doc.add_processor(api::processor(p)), Some(q) => self.doc.add_subprocessor(q as ProcKey, api::processor(p)) }.map_err(|e| format!("{}: refused: {:?}", what, e))?;
        self.ops += 1;
        if got as usize != i { return Err(format!("{}: key {} returned, {} expected", what, got, i)); }
        Ok(i)
    }
    pub fn activate(&mut self, p: usize) {
        self.log.push(format!("activate processor {}", p));
        self.doc.activate_processor(p as ProcKey);
        self.sh.active = Some(self.sh.procs[p].m.id().to_string());
        self.ops += 1;
    }

    // ------------------------------------------------------------ random operations

    pub fn tree(&mut self, rng: &mut Rng, et: ElementType, size: usize) -> El { self.gen(rng, size, |g| g.tree(et, 1)) }

    ///A span annotation over some words
    pub fn span(&mut self, rng: &mut Rng) -> Option<El> {
        let words = self.words();
        if words.is_empty() { return None; }
        const T: &[ElementType] = &[ElementType::Entity, ElementType::Chunk, ElementType::Entity, ElementType::Dependency, ElementType::CoreferenceChain, ElementType::SemanticRole, ElementType::Predicate, ElementType::Sentiment, ElementType::Statement, ElementType::Observation, ElementType::SyntacticUnit, ElementType::TimeSegment, ElementType::Modality, ElementType::SpanRelation, ElementType::CoreferenceLink];
        let et = *rng.pick(T);
        let set = if rng.p(5, 6) { Some(rng.pick(&self.sets).clone()) } else { None };
        let mut e = self.gen(rng, 4, |g| { let mut e = g.el(et); e.del("set"); e.del("class"); if let Some(s) = set { e.set("set", &s); } if g.rng.p(5, 6) { let c = g.class(); e.set("class", &c); } e });
        let n = rng.range(0, 4);
        let mut seen = std::collections::HashSet::new();
        let at = rng.below(words.len());
        let mut refs = vec![];
        for i in 0..n {
            let w = if rng.p(3, 4) { &words[(at + i) % words.len()] } else { rng.pick(&words) };
            if seen.insert(w.clone()) { refs.push(El::new(ElementType::WordReference).with("id", w)); }
        }
        let roles: Vec<ElementType> = SPEC.iter().filter(|s| accepts(et, s.et) && in_group(ElementGroup::SpanRole, s.et) && accepts(s.et, ElementType::WordReference)).map(|s| s.et).collect();
        for r in refs {
            if !roles.is_empty() && rng.p(2, 5) {
                let role = *rng.pick(&roles);
                e.push(El::new(role).el(r));
            } else if accepts(et, ElementType::WordReference) { e.push(r); }
            else if !roles.is_empty() { let role = *rng.pick(&roles); e.push(El::new(role).el(r)); }
            else { e.push(r); }
        }
        Some(e)
    }

    pub fn step(&mut self, rng: &mut Rng, w: &Weights) -> Result<Outcome, String> {
        let ws = [w.add, w.orphan, w.annotate, w.span, w.attach, w.detach, w.declare, w.processor, w.activate, w.feature, w.bad, w.existing, w.edit];
        let mut x = rng.below(ws.iter().sum());
        let mut op = 0;
        while x >= ws[op] { x -= ws[op]; op += 1; }
        let grow = |rng: &mut Rng| if rng.p(1, 2) { 1 } else { rng.range(1, 8) };
        match op {
            0 | 2 => {
                let p = if rng.p(4, 5) { self.attached(rng, |et| !spec(et).textcontainer || true) } else { self.any(rng) };
                let pet = self.sh.nodes[p].et;
                let et = if op == 0 || rng.p(4, 5) { self.child_type(rng, pet) } else { Some(rng.pick(SPEC).et) };
                let et = match et { Some(et) if !matches!(et, ElementType::ForeignData | ElementType::WordReference | ElementType::Feature) => et, _ => return Ok(Outcome::Done) };
                let n = grow(rng);
                let e = self.tree(rng, et, n);
                if op == 0 { self.add(Some(p), &e) } else { self.annotate(p, &e) }
            }
            1 => { let et = *rng.pick(&[ElementType::Word, ElementType::Sentence, ElementType::Paragraph, ElementType::Note, ElementType::PosAnnotation, ElementType::Description]); let n = grow(rng); let e = self.gen(rng, n, |g| { g.o.spans = false; g.words.clear(); g.tree(et, 1) }); self.add(None, &e) }
            3 => {
                let e = match self.span(rng) { Some(e) => e, None => return Ok(Outcome::Done) };
                match rng.below(4) {
                    0 => { let p = self.attached(rng, |et| in_group(ElementGroup::Structure, et)); self.annotate(p, &e) }
                    1 => { let p = self.attached(rng, |et| spec(et).wrefable); self.annotate(p, &e) }
                    _ => self.annotate_span(&e),
                }
            }
            4 => {
                let c = self.any(rng);
                let p = match (rng.below(6), self.sh.nodes[c].parent) { (0, Some(p)) => p, (1, Some(p)) => self.sh.nodes[p].parent.unwrap_or(p), (2, Some(p)) => *rng.pick(&self.sh.children(p)), _ => self.any(rng) };
                self.attach(p, c)
            }
            5 => { let c = if rng.p(9, 10) && self.sh.nodes.len() > 1 { rng.range(1, self.sh.nodes.len() - 1) } else { 0 }; self.detach(c) }
            6 => {
                let at = if rng.p(1, 2) && !self.sh.decls.is_empty() { self.sh.decls[rng.below(self.sh.decls.len())].at } else { rng.pick(ATYPES).0 };
                let set = if rng.p(1, 4) { None } else { Some(rng.pick(&self.sets).clone()) };
                self.declare(at, set.as_deref()).map(|_| Outcome::Done)
            }
            7 => {
                let n = self.sh.procs.len();
                if n > 12 { return Ok(Outcome::Done); }
                let deep = rng.p(1, 3);
                let p = self.gen(rng, 1, |g| { let mut p = g.procm(&format!("p.{}", n)); if deep { let mut q = g.procm(&format!("p.{}", n + 1)); if g.rng.p(1, 2) { q.children.push(g.procm(&format!("p.{}", n + 2))); } p.children.push(q); } p });
                let parent = if n > 0 && rng.p(1, 3) { Some(rng.below(n)) } else { None };
                self.add_processor(&p, parent).map(|_| Outcome::Done)
            }
            8 => { if !self.sh.procs.is_empty() { let p = rng.below(self.sh.procs.len()); self.activate(p); } Ok(Outcome::Done) }
            9 => {
                let v: Vec<usize> = (0..self.sh.nodes.len()).filter(|i| self.sh.nodes[*i].decl.is_some() && self.sh.nodes[*i].et != ElementType::Feature && accepts(self.sh.nodes[*i].et, ElementType::Feature)).collect();
                if v.is_empty() { return Ok(Outcome::Done); }
                let p = *rng.pick(&v);
                let f = self.gen(rng, 1, |g| g.feat());
                if rng.p(1, 2) { self.add(Some(p), &f) } else { self.annotate(p, &f) }
            }
            11 => {
                //an element that brings existing elements along
                let c = self.any(rng);
                let p = self.any(rng);
                let mut e = self.gen(rng, 1, |g| g.el(ElementType::Division));
                e.items.clear();
                self.add_existing(p, &e, c)
            }
            12 => self.edit(rng),
            _ => self.bad(rng),
        }
    }

    ///Changes the attributes and the text of an element, in place
    pub fn edit(&mut self, rng: &mut Rng) -> Result<Outcome, String> {
        let i = self.any(rng);
        let et = self.sh.nodes[i].et;
        let like = self.gen(rng, 1, |g| g.el(if et == ElementType::Feature || et == ElementType::WordReference { ElementType::Word } else { et }));
        let mut set: Vec<(String, String)> = like.attrs.iter().filter(|a| !["xml:id", "id", "set", "class", "subset", "processor"].contains(&a.0.as_str()) && crate::snap::PLAINS.contains(&a.0.as_str())).cloned().collect();
        if set.is_empty() || rng.p(1, 3) { set.push(("n".into(), rng.word())); }
        let del: Vec<String> = self.sh.nodes[i].attrs.iter().map(|a| a.0.clone()).filter(|k| k != "xml:id" && k != "id").filter(|_| rng.p(1, 4)).collect();
        let text = if spec(et).textcontainer && rng.p(1, 2) { Some(rng.word()) } else { None };
        let comment = if rng.p(1, 4) && et != ElementType::ForeignData { Some(rng.word()) } else { None };
        self.log.push(format!("edit {}: set {:?} delete {:?} text {:?} comment {:?}", i, set, del, text, comment));
        self.ops += 1;
        let d = <Document as Store<ElementData, ElementKey>>::get_mut(&mut self.doc, key(i)).ok_or(format!("no mutable element {}", i))?;
        let n = &mut self.sh.nodes[i];
        for (k, v) in set.iter() {
            d.set_attrib(api::attribute(k, v));
            n.attrs.retain(|a| a.0 != *k);
            n.attrs.push((k.clone(), crate::snap::canon(k, v)));
        }
        n.attrs.sort();
        for k in del.iter() {
            let v = n.attrs.iter().find(|a| a.0 == *k).map(|a| a.1.clone());
            let t = d.attribs().iter().find(|a| crate::snap::attr(a).map_or(false, |x| x.0 == *k)).map(|a| a.attribtype()).ok_or(format!("element {} has no attribute {}", i, k))?;
            if !d.has_attrib(t) { return Err(format!("element {} has attribute {}, has_attrib() denies it", i, k)); }
            let gone = d.del_attrib(t).and_then(|a| crate::snap::attr(&a));
            if gone.as_ref().map(|a| &a.1) != v.as_ref() { return Err(format!("attribute {} deleted from element {}: {:?}, its value was {:?}", k, i, gone, v)); }
            if d.has_attrib(t) || d.attrib(t).is_some() { return Err(format!("attribute {} of element {} is not deleted", k, i)); }
            n.attrs.retain(|a| a.0 != *k);
        }
        let len = d.len();
        if let Some(t) = text { d.push(DataType::Text(t.clone())); n.items.push(SItem::Text(t)); }
        if let Some(t) = comment { d.push(DataType::Comment(t.clone())); n.items.push(SItem::Comment(t)); if d.len() != len + 1 && d.len() != len + 2 { return Err("length".into()); } }
        Ok(Outcome::Done)
    }

    ///Adds a new element that takes an existing one as its child
    pub fn add_existing(&mut self, p: usize, e: &El, c: usize) -> Result<Outcome, String> {
        self.note(e);
        let what = format!("add to {} with existing {}: {:?}", p, c, e);
        self.log.push(what.clone());
        let ok = self.sh.check(Some(p), e).is_ok() && c < self.sh.nodes.len() && c != p && !self.sh.ancestors(p).contains(&c);
        let got = self.doc.add_element_to(key(p), api::build(e).with(DataType::Element(key(c))));
        let expected = if ok { let i = self.sh.add_tree(Some(p), e); self.sh.attach(i, c).map_err(|e| format!("shadow: {}", e))?; Some(i) } else { None };
        self.added(&what, got, expected)
    }

    ///Something that has to be refused (mostly)
    pub fn bad(&mut self, rng: &mut Rng) -> Result<Outcome, String> {
        let n = self.sh.nodes.len();
        match rng.below(9) {
            0 => {
                //an identifier that is in use, perhaps deep inside what is added
                let ids = { let mut v: Vec<String> = self.sh.ids.keys().cloned().collect(); v.sort(); v };
                if ids.is_empty() { return Ok(Outcome::Done); }
                let id = rng.pick(&ids).clone();
                let p = self.attached(rng, |et| in_group(ElementGroup::Structure, et));
                let size = rng.range(1, 6);
                let mut e = self.tree(rng, ElementType::Paragraph, size);
                plant(rng, &mut e, &mut |x| x.set("xml:id", &id));
                if rng.p(1, 2) { self.add(Some(p), &e) } else { self.annotate(p, &e) }
            }
            1 => {
                //twice the same new identifier within what is added
                let p = self.attached(rng, |et| in_group(ElementGroup::Structure, et));
                self.n += 1;
                let id = format!("twice{}", self.n);
                let mut e = El::new(ElementType::Sentence).with("xml:id", &id).el(El::new(ElementType::Word).text("x")).el(El::new(ElementType::Word).with("xml:id", &id));
                if rng.p(1, 2) { e.set("set", "a-new-set"); }
                if rng.p(1, 2) { self.add(Some(p), &e) } else { self.annotate(p, &e) }
            }
            2 => {
                //a reference to nothing
                let mut e = match self.span(rng) { Some(e) => e, None => El::new(ElementType::Entity).with("set", "s").with("class", "c") };
                e.push(El::new(ElementType::WordReference).with("id", "no-such-word"));
                match rng.below(3) { 0 => { let p = self.attached(rng, |et| in_group(ElementGroup::Layer, et)); self.add(Some(p), &e) } 1 => self.annotate_span(&e), _ => { let p = self.attached(rng, |et| in_group(ElementGroup::Structure, et)); self.annotate(p, &e) } }
            }
            3 => { let p = n + rng.below(5); let e = self.tree(rng, ElementType::Sentence, 2); if rng.p(1, 2) { self.add(Some(p), &e) } else { self.annotate(p, &e) } }
            4 => { let (a, b) = (self.any(rng), n + rng.below(3)); if rng.p(1, 2) { self.attach(a, b) } else { self.attach(b, a) } }
            5 => self.detach(n + rng.below(4)),
            6 => {
                //under its own descendant
                let c = self.any(rng);
                let d = self.sh.order(c);
                let p = *rng.pick(&d);
                self.attach(p, c)
            }
            7 => {
                //not accepted there
                let p = self.any(rng);
                let et = rng.pick(SPEC).et;
                if matches!(et, ElementType::ForeignData | ElementType::Feature | ElementType::WordReference) { return Ok(Outcome::Done); }
                let e = self.tree(rng, et, 3);
                self.annotate(p, &e)
            }
            _ => {
                //a reference outside a span
                let words = self.words();
                let p = self.attached(rng, |et| in_group(ElementGroup::Structure, et));
                if std::iter::once(p).chain(self.sh.ancestors(p)).any(|a| in_group(ElementGroup::Span, self.sh.nodes[a].et)) { return Ok(Outcome::Done); }
                let e = El::new(ElementType::Division).el(El::new(ElementType::WordReference).with("id", &words.first().cloned().unwrap_or("x".into())));
                self.add(Some(p), &e)
            }
        }
    }

    // ------------------------------------------------------------ comparison

    ///Everything about every element, as compared to the shadow
    pub fn compare(&self, what: u32) -> Result<View, String> {
        let v = View::of(&self.doc)?;
        v.check_forest()?;
        compare_nodes(&self.sh, &v, what)?;
        if what & IDS != 0 { self.compare_ids()?; }
        if what & HEADER != 0 { crate::snap::header(&self.doc)?.same(&self.sh.header())?; }
        Ok(v)
    }
    pub fn compare_ids(&self) -> Result<(), String> {
        for (id, i) in self.sh.ids.iter() {
            if self.doc.get_element_key_by_id(id) != Some(key(*i)) { return Err(format!("identifier {:?} resolves to {:?}, it is that of element {}", id, self.doc.get_element_key_by_id(id), i)); }
        }
        Ok(())
    }
}

fn plant(rng: &mut Rng, e: &mut El, f: &mut dyn FnMut(&mut El)) {
    let n = e.children().count();
    if n == 0 || rng.p(1, 3) { f(e); return; }
    let mut k = rng.below(n);
    for item in e.items.iter_mut() { if let Item::El(c) = item { if k == 0 { plant(rng, c, f); return; } k -= 1; } }
}

pub fn compare_nodes(sh: &Shadow, v: &View, what: u32) -> Result<(), String> {
    if v.n.len() != sh.nodes.len() { return Err(format!("the document has {} elements, it should have {}", v.n.len(), sh.nodes.len())); }
    for (i, (n, s)) in v.n.iter().zip(sh.nodes.iter()).enumerate() {
        let decl = s.decl.map(|d| (sh.decls[d].at, sh.decls[d].set.clone()));
        let bad = |what: &str, a: String, b: String| -> Result<(), String> { Err(format!("element {} <{}>: {} is {}, should be {}", i, tag(s.et), what, a, b)) };
        if n.et != s.et { return bad("type", tag(n.et).into(), tag(s.et).into()); }
        if what & TREE != 0 && n.parent != s.parent { return bad("parent", format!("{:?}", n.parent), format!("{:?}", s.parent)); }
        if what & IDS != 0 && n.id != s.id { return bad("identifier", format!("{:?}", n.id), format!("{:?}", s.id)); }
        if what & ATTRS != 0 && n.attrs != s.attrs { return bad("attributes", format!("{:?}", n.attrs), format!("{:?}", s.attrs)); }
        if what & VOCAB != 0 && n.decl != decl { return bad("declaration", format!("{:?}", n.decl), format!("{:?}", decl)); }
        if what & VOCAB != 0 && n.class != s.class { return bad("class", format!("{:?}", n.class), format!("{:?}", s.class)); }
        if what & VOCAB != 0 && n.subset != s.subset { return bad("subset", format!("{:?}", n.subset), format!("{:?}", s.subset)); }
        if what & PROC != 0 && n.proc != s.proc { return bad("processor", format!("{:?}", n.proc), format!("{:?}", s.proc)); }
        //content in order; links to spans (anywhere among it)
        let mut a: Vec<VItem> = vec![];
        let mut b: Vec<VItem> = vec![];
        let (mut la, mut lb) = (vec![], vec![]);
        let text = |v: &mut Vec<VItem>, t: &String| if let Some(VItem::Text(p)) = v.last_mut() { p.push_str(t) } else if !t.is_empty() { v.push(VItem::Text(t.clone())) };
        for item in n.items.iter() { match item { VItem::Span(k) => la.push(*k), VItem::Text(t) => text(&mut a, t), x => a.push(x.clone()) } }
        for item in s.items.iter() { match item { SItem::Span(k) => lb.push(*k), SItem::Text(t) => text(&mut b, t), SItem::El(k) => b.push(VItem::El(*k)), SItem::Comment(c) => b.push(VItem::Comment(c.clone())) } }
        if what & TREE != 0 && a != b { return bad("content", format!("{:?}", a), format!("{:?}", b)); }
        la.sort(); lb.sort();
        if what & LINKS != 0 && la != lb { return bad("set of links to spans", format!("{:?}", la), format!("{:?}", lb)); }
    }
    Ok(())
}

///What a property asks of a history of operations
pub struct Plan {
    pub weights: Weights, pub aspects: u32, pub steps: (usize, usize),
    pub opts: fn(&mut Opts),
    ///after every operation
    pub extra: fn(&mut crate::run::Ctx, &Hist, &View, &mut Rng) -> Result<(), String>,
    ///at the end: compare the document as serialised and parsed
    pub roundtrip: bool,
}
pub fn no_extra(_: &mut crate::run::Ctx, _: &Hist, _: &View, _: &mut Rng) -> Result<(), String> { Ok(()) }

pub fn run(ctx: &mut crate::run::Ctx, rng: &mut Rng, plan: &Plan) -> Result<(), String> {
    let mut o = Opts::new(rng);
    o.size = o.size.min(if ctx.thorough() { 80 } else { 40 });
    (plan.opts)(&mut o);
    let mut h = Hist::start(rng, o)?;
    let r = run_on(ctx, rng, plan, &mut h);
    let d = h.describe();
    if r.is_ok() && h.ops > 5 && d.len() < 3000 { ctx.sample(|| d.clone()); }
    ctx.input(&d);
    ctx.count("operations", h.ops);
    ctx.count("operations refused", h.failed);
    ctx.count("elements moved", h.moved);
    ctx.count("layers made", h.layers);
    r
}

fn run_on(ctx: &mut crate::run::Ctx, rng: &mut Rng, plan: &Plan, h: &mut Hist) -> Result<(), String> {
    let v = h.compare(plan.aspects).map_err(|e| format!("at the start: {}", e))?;
    (plan.extra)(ctx, h, &v, rng).map_err(|e| format!("at the start: {}", e))?;
    let n = rng.range(plan.steps.0, plan.steps.1);
    for i in 0..n {
        h.step(rng, &plan.weights).map_err(|e| format!("operation {}: {}", i, e))?;
        let v = h.compare(plan.aspects).map_err(|e| format!("after operation {}: {}", i, e))?;
        (plan.extra)(ctx, h, &v, rng).map_err(|e| format!("after operation {}: {}", i, e))?;
        ctx.count("states compared", 1);
    }
    ctx.eval(if h.ops > 2 { Some(crate::rng::hash(&h.log.join("\n"))) } else { None });
    if plan.roundtrip {
        let indent = rng.below(5);
        crate::props::same_after_roundtrip(&h.doc, indent)?;
        ctx.count("round trips", 1);
    }
    Ok(())
}
