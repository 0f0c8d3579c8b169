//! Generators of FoLiA documents.
use crate::model::*;
use crate::rng::Rng;
use crate::spec::*;
use folia::{AnnotationType, ElementGroup, ElementType};
use std::collections::HashSet;

#[derive(Clone)]
pub struct Opts {
    ///number of elements aimed for
    pub size: usize,
    ///elements where the specification does not expect them (the parser does not validate)
    pub free: bool,
    pub header: bool,
    pub spans: bool,
    pub feats: bool,
    pub shorthand: bool,
    pub comments: bool,
    ///arbitrary characters, rather than plain words
    pub wild: bool,
    ///attributes other than xml:id, set, class, processor
    pub attrs: bool,
    ///span annotations may precede the words they refer to
    pub forward: bool,
    pub depth: usize,
}

impl Opts {
    pub fn new(rng: &mut Rng) -> Opts {
        let size = match rng.below(12) { 0 => rng.range(1, 4), 1..=7 => rng.range(5, 40), 8..=10 => rng.range(40, 90), _ => rng.range(100, 250) };
        Opts { size, free: rng.p(1, 4), header: rng.p(5, 6), spans: rng.p(5, 6), feats: rng.p(4, 5), shorthand: rng.p(1, 2), comments: rng.p(1, 2), wild: rng.p(2, 3), attrs: rng.p(5, 6), forward: rng.p(1, 4), depth: if rng.p(1, 12) { 40 } else { 9 } }
    }
}

pub struct Gen<'a> {
    pub rng: &'a mut Rng, pub o: Opts,
    pub sets: Vec<String>, pub classes: Vec<String>, pub subsets: Vec<String>, pub procs: Vec<String>,
    ///next number for an identifier
    pub n: usize,
    ///identifiers of wrefable elements so far, and all identifiers
    pub words: Vec<String>, pub ids: Vec<String>,
    taken: HashSet<String>,
    pub left: isize,
    ///words the current span refers to already (innermost last)
    spans: Vec<HashSet<String>>,
    ///inside layers of span annotation; words there are not referred to
    layers: usize,
}

pub const FEATTYPES: &[(ElementType, &str)] = &[
    (ElementType::ActorFeature, "actor"), (ElementType::BegindatetimeFeature, "begindatetime"), (ElementType::EnddatetimeFeature, "enddatetime"), (ElementType::FunctionFeature, "function"),
    (ElementType::HeadFeature, "head"), (ElementType::LevelFeature, "level"), (ElementType::ModalityFeature, "mod"), (ElementType::PolarityFeature, "polarity"), (ElementType::StrengthFeature, "strength"),
    (ElementType::StyleFeature, "style"), (ElementType::SynsetFeature, "synset"), (ElementType::TimeFeature, "time"), (ElementType::ValueFeature, "value"), (ElementType::FontFeature, "font"), (ElementType::SizeFeature, "size"),
];

///The subsets that may be given as attributes on this element type
pub fn shorthands(et: ElementType) -> Vec<&'static str> {
    FEATTYPES.iter().filter(|f| spec(et).acc_types.contains(&f.0)).map(|f| f.1).collect()
}

///Does a model element become encoded (and declared) when added?
pub fn encoded(e: &El) -> bool { e.get("set").is_some() || e.get("class").is_some() || e.get("processor").is_some() }

pub fn blank(s: &str) -> bool { s.chars().all(|c| matches!(c, ' ' | '\t' | '\n' | '\r')) }

const INLINE: &[ElementType] = &[ElementType::PosAnnotation, ElementType::LemmaAnnotation, ElementType::SenseAnnotation, ElementType::DomainAnnotation, ElementType::SubjectivityAnnotation, ElementType::LangAnnotation, ElementType::ErrorDetection];

impl<'a> Gen<'a> {
    pub fn new(rng: &'a mut Rng, o: Opts) -> Gen<'a> {
        let mut g = Gen { rng, o, sets: vec![], classes: vec![], subsets: vec![], procs: vec![], n: 0, words: vec![], ids: vec![], taken: HashSet::new(), left: 0, spans: vec![], layers: 0 };
        g.left = g.o.size as isize;
        for i in 0..g.rng.range(1, 4) {
            let s = if g.o.wild && g.rng.p(1, 4) { let mut t = g.rng.text(); if blank(&t) || t.is_empty() { t = "s".into() } format!("{}{}", t, i) } else { format!("https://example.org/set/{}", (b'a' + i as u8) as char) };
            g.sets.push(s);
        }
        if g.rng.p(1, 6) { g.sets.push("undefined".into()); }
        for _ in 0..g.rng.range(2, 6) { let c = if g.o.wild { g.rng.attr() } else { g.rng.word() }; g.classes.push(c); }
        g.classes.push("current".into());
        if g.rng.p(1, 2) { g.classes.push("original".into()); }
        for _ in 0..g.rng.range(1, 4) { let c = if g.o.wild { g.rng.attr() } else { g.rng.word() }; g.subsets.push(c); }
        g.subsets.push("head".into());
        if g.o.header { for i in 0..g.rng.below(5) { let id = format!("proc{}", i); g.procs.push(id); } }
        //strings that are easily confused
        if g.rng.p(1, 2) { for _ in 0..g.rng.range(1, 2) { let s = g.rng.pick(&g.sets).clone(); let s = g.rng.near(&s); if !s.is_empty() && !blank(&s) && !g.sets.contains(&s) { g.sets.push(s); } } }
        if g.rng.p(1, 2) { for _ in 0..g.rng.range(1, 3) { let s = g.rng.pick(&g.classes).clone(); let s = g.rng.near(&s); g.classes.push(s); } }
        if g.rng.p(1, 2) { for _ in 0..g.rng.range(1, 2) { let s = g.rng.pick(&g.subsets).clone(); let s = g.rng.near(&s); g.subsets.push(s); } }
        if !g.procs.is_empty() && g.rng.p(1, 3) { let s = g.rng.pick(&g.procs).clone(); let s = g.rng.near(&s); if !s.is_empty() && !g.procs.contains(&s) { g.procs.push(s); } }
        g.rng.shuffle(&mut g.sets);
        g.rng.shuffle(&mut g.classes);
        g
    }
    pub fn class(&mut self) -> String { self.rng.pick(&self.classes).clone() }
    pub fn value(&mut self) -> String { if self.o.wild { self.rng.attr() } else { self.rng.word() } }
    pub fn string(&mut self) -> String { if self.o.wild { self.rng.text() } else { let mut s = self.rng.word(); for _ in 0..self.rng.below(4) { s.push(' '); s.push_str(&self.rng.word()); } s } }
    ///Text that is not only white space
    pub fn solid(&mut self) -> String { let s = self.string(); if blank(&s) { format!("{}x", s) } else { s } }
    pub fn newid(&mut self) -> String {
        loop {
            self.n += 1;
            let mut id = self.rng.ncname(self.n);
            if self.o.wild && !self.ids.is_empty() && self.rng.p(1, 10) { let s = self.rng.pick(&self.ids).clone(); id = self.rng.near(&s); }
            if !id.is_empty() && self.taken.insert(id.clone()) && !self.ids.contains(&id) { return id; }
        }
    }

    pub fn el(&mut self, et: ElementType) -> El {
        self.left -= 1;
        let mut e = El::new(et);
        let sp = spec(et);
        let structural = in_group(ElementGroup::Structure, et);
        let (num, den) = if sp.wrefable { (5, 6) } else if structural { (1, 2) } else { (1, 5) };
        if self.rng.p(num, den) {
            let id = self.newid();
            e.set("xml:id", &id);
            self.ids.push(id.clone());
            if sp.wrefable && self.layers == 0 { self.words.push(id); }
        }
        if sp.at.is_some() {
            let layer = in_group(ElementGroup::Layer, et);
            if self.rng.p(if layer { 1 } else { 2 }, 5) { let s = self.rng.pick(&self.sets).clone(); e.set("set", &s); }
            let (num, den) = if structural || layer { (1, 5) } else if in_group(ElementGroup::Inline, et) { (9, 10) } else { (2, 3) };
            if self.rng.p(num, den) { let c = self.class(); e.set("class", &c); }
        }
        if !self.procs.is_empty() && self.rng.p(1, 8) { let p = self.rng.pick(&self.procs).clone(); e.set("processor", &p); }
        if sp.space && self.rng.p(1, 8) { e.set("space", if self.rng.p(3, 4) { "no" } else { "yes" }); }
        if self.o.attrs && self.rng.p(1, 3) { for _ in 0..self.rng.range(1, 4) { self.attr(&mut e); } }
        if self.rng.p(1, 2) { let mut a = std::mem::replace(&mut e.attrs, vec![]); self.rng.shuffle(&mut a); e.attrs = a; }
        e
    }

    ///Gives the element one more attribute
    pub fn attr(&mut self, e: &mut El) {
        const K: &[&str] = &["annotator", "annotatortype", "confidence", "n", "datetime", "begintime", "endtime", "src", "speaker", "textclass", "metadata", "space", "t", "type", "auth", "offset", "ref", "original", "linenr", "pagenr", "newpage", "xlink:type", "xlink:href", "tag", "format", "space", "confidence", "datetime", "annotatortype"];
        let k = *self.rng.pick(K);
        if e.get(k).is_some() { return; }
        let v = match k {
            "annotatortype" => self.rng.pick(&["auto", "manual", "generator", "datasource"]).to_string(),
            "confidence" => self.rng.confidence(),
            "datetime" => self.rng.datetime(),
            "space" | "newpage" => self.rng.pick(&["yes", "no", "true", "false"]).to_string(),
            "offset" | "linenr" => self.rng.pick(&["0", "1", "7", "255", "65535", "65536", "4294967295", "12345"]).to_string(),
            _ => self.value(),
        };
        e.set(k, &v);
    }

    ///Element types that may go into the given one (each as often as it is likely)
    fn candidates(&mut self, et: ElementType, depth: usize) -> Vec<ElementType> {
        let mut out = vec![];
        for s in SPEC {
            if !accepts(et, s.et) { continue; }
            let w = match s.et {
                ElementType::ForeignData | ElementType::WordReference | ElementType::Feature => 0,
                ElementType::TextContent => 4,
                ElementType::Sentence | ElementType::Word | ElementType::Paragraph => 6,
                _ if in_group(ElementGroup::Feature, s.et) => 1,
                _ if in_group(ElementGroup::Structure, s.et) => 2,
                _ if in_group(ElementGroup::Inline, s.et) => 2,
                _ if in_group(ElementGroup::TextMarkup, s.et) => 3,
                _ if in_group(ElementGroup::Span, s.et) || in_group(ElementGroup::SpanRole, s.et) => if self.o.spans { 6 } else { 0 },
                _ if in_group(ElementGroup::Layer, s.et) => if self.o.spans { 1 } else { 0 },
                _ => 1,
            };
            if depth >= self.o.depth && (in_group(ElementGroup::Structure, s.et) || s.et == ElementType::Correction || s.et == ElementType::Alternative) { continue; }
            for _ in 0..w { out.push(s.et); }
        }
        out
    }

    fn comment(&mut self, e: &mut El) {
        if self.o.comments && self.rng.p(1, 10) { let c = if self.o.wild { self.rng.comment() } else { " remark ".into() }; e.items.push(Item::Comment(c)); }
    }

    ///Text and markup
    fn inline(&mut self, e: &mut El, depth: usize) {
        let n = match self.rng.below(8) { 0 => 0, 1..=4 => 1, 5 => 2, _ => self.rng.range(2, 5) };
        for _ in 0..n {
            self.comment(e);
            if self.rng.p(2, 3) || depth > self.o.depth || self.left < 0 || !spec(e.et).textcontainer {
                let t = if self.rng.p(1, 10) { " ".into() } else { self.string() };
                e.push_text(&t);
            } else {
                let c = self.candidates(e.et, depth);
                let et = *self.rng.pick(&c);
                let c = self.tree(et, depth + 1);
                e.push(c);
            }
        }
        self.comment(e);
    }

    fn text(&mut self, class: Option<&str>) -> El {
        let mut t = self.el(ElementType::TextContent);
        if let Some(c) = class { t.set("class", c); }
        if self.rng.p(2, 3) { let s = self.solid(); t.push_text(&s); } else { self.inline(&mut t, 0); }
        t
    }

    fn feats(&mut self, e: &mut El, depth: usize) {
        if self.o.feats && encoded(e) && spec(e.et).at.is_some() && accepts(e.et, ElementType::Feature) && self.rng.p(1, 3) {
            for _ in 0..self.rng.range(1, 3) {
                let mut f = self.feat();
                if self.rng.p(1, 6) { let s = self.solid(); f.push_text(&s); }
                if self.rng.p(1, 8) && depth < self.o.depth { let d = self.tree(ElementType::Description, depth + 1); f.push(d); }
                e.push(f);
            }
        }
        if self.o.shorthand && encoded(e) && spec(e.et).at.is_some() {
            let s = shorthands(e.et);
            if !s.is_empty() && self.rng.p(1, 3) {
                //mostly one, at times several
                for _ in 0..if self.rng.p(1, 3) { 3 } else { 1 } { let k = *self.rng.pick(&s); let mut v = self.class(); if blank(&v) { v = "v".into(); } e.set(k, &v); }
            }
        }
    }
    pub fn feat(&mut self) -> El {
        self.left -= 1;
        let mut f = El::new(ElementType::Feature);
        let s = self.rng.pick(&self.subsets).clone();
        if !self.rng.p(1, 12) { f.set("subset", &s); }
        if f.get("subset").is_none() || self.rng.p(9, 10) { let c = self.class(); f.set("class", &c); }
        if self.rng.p(1, 10) { let id = self.newid(); self.ids.push(id.clone()); f.set("xml:id", &id); }
        if self.o.attrs && self.rng.p(1, 10) { self.attr(&mut f); }
        f
    }

    ///References to words
    fn wrefs(&mut self, e: &mut El, max: usize) {
        if self.words.is_empty() || self.spans.is_empty() { return; }
        for _ in 0..self.rng.range(1, max) {
            //mostly nearby words
            let n = self.words.len();
            let w = if self.rng.p(3, 4) { self.words[n - 1 - self.rng.below(n.min(6))].clone() } else { self.rng.pick(&self.words).clone() };
            if !self.spans.last_mut().unwrap().insert(w.clone()) { continue; }
            self.left -= 1;
            let mut r = El::new(ElementType::WordReference).with("id", &w);
            if self.rng.p(1, 4) { let t = self.value(); r.set("t", &t); }
            e.push(r);
        }
    }

    pub fn tree(&mut self, et: ElementType, depth: usize) -> El {
        let mut e = self.el(et);
        let sp = spec(et);
        self.feats(&mut e, depth);
        if sp.textcontainer || sp.phoncontainer { self.inline(&mut e, depth); return e; }
        match et {
            ElementType::Description | ElementType::Comment | ElementType::Content => {
                if self.rng.p(5, 6) { let s = self.solid(); e.push_text(&s); }
                if self.rng.p(1, 8) && depth < self.o.depth { let c = self.tree(ElementType::Comment, depth + 1); e.push(c); if self.rng.p(1, 2) { let s = self.solid(); e.push_text(&s); } }
                return e;
            }
            _ => {}
        }
        let span = in_group(ElementGroup::Span, et);
        if span { self.spans.push(HashSet::new()); }
        let layer = in_group(ElementGroup::Layer, et) && et != ElementType::MorphologyLayer && et != ElementType::PhonologyLayer;
        if layer { self.layers += 1; }
        let role = in_group(ElementGroup::SpanRole, et);
        if self.o.spans && (span || role) && accepts(et, ElementType::WordReference) && self.rng.p(5, 6) { self.wrefs(&mut e, 3); }
        if et == ElementType::LinkReference {
            if let Some(id) = if self.ids.is_empty() { None } else { Some(self.rng.pick(&self.ids).clone()) } { e.set("id", &id); }
        }
        if et == ElementType::Word || et == ElementType::Hiddenword {
            let t = self.text(None);
            if self.rng.p(4, 5) { e.push(t); }
            if self.rng.p(1, 3) { for _ in 0..self.rng.range(1, 2) { let t = *self.rng.pick(INLINE); let c = self.tree(t, depth + 1); e.push(c); } }
        }
        let mut n = match self.rng.below(10) { 0 | 1 => 0, 2..=5 => self.rng.range(1, 2), 6..=8 => self.rng.range(2, 5), _ => self.rng.range(4, 9) };
        if depth == 0 { n += 2; }
        if in_group(ElementGroup::Inline, et) || et == ElementType::Word { n = n.min(self.rng.below(3)); }
        if et == ElementType::Sentence && self.rng.p(1, 2) {
            for _ in 0..self.rng.range(1, 5) { if self.left > 0 { let w = self.tree(ElementType::Word, depth + 1); e.push(w); } }
            if self.o.spans && self.rng.p(1, 2) && self.left > 0 { let l = *self.rng.pick(&[ElementType::EntitiesLayer, ElementType::ChunkingLayer, ElementType::DependenciesLayer, ElementType::CoreferenceLayer, ElementType::SemanticRolesLayer]); let l = self.tree(l, depth + 1); e.push(l); }
        }
        let cands = self.candidates(et, depth);
        let all: Vec<ElementType> = if self.o.free && !span && !role && !in_group(ElementGroup::Layer, et) { SPEC.iter().map(|s| s.et).filter(|t| !matches!(t, ElementType::ForeignData | ElementType::WordReference | ElementType::Feature)).collect() } else { vec![] };
        for _ in 0..n {
            if self.left <= 0 || depth > self.o.depth + 3 { break; }
            self.comment(&mut e);
            if !all.is_empty() && depth < self.o.depth && self.rng.p(1, 10) {
                let t = *self.rng.pick(&all);
                let c = self.tree(t, depth + 1);
                e.push(c);
                continue;
            }
            if cands.is_empty() { break; }
            let t = *self.rng.pick(&cands);
            let c = self.tree(t, depth + 1);
            e.push(c);
            if (span || role) && self.rng.p(1, 3) && accepts(et, ElementType::WordReference) { self.wrefs(&mut e, 2); }
        }
        self.comment(&mut e);
        //mixed content outside text
        if self.o.free && self.rng.p(1, 30) { let s = self.solid(); e.push_text(&s); }
        if span { self.spans.pop(); }
        if layer { self.layers -= 1; }
        e
    }

    pub fn meta(&mut self) -> MetaM {
        let mut m = MetaM::default();
        if self.rng.p(2, 3) { m.mtype = Some(if self.rng.p(2, 3) { "native".into() } else { self.value() }); }
        if self.rng.p(1, 4) { m.src = Some(self.value()); }
        let mut seen = HashSet::new();
        for _ in 0..self.rng.below(5) {
            let k = if self.o.wild && self.rng.p(1, 4) { self.string() } else { self.rng.word() };
            let v = if self.rng.p(1, 8) { String::new() } else { self.string() };
            if seen.insert(k.clone()) { m.data.push((k, v)); }
        }
        m
    }

    pub fn procm(&mut self, id: &str) -> ProcM {
        let mut p = ProcM::default();
        p.fields.push(("xml:id".into(), id.into()));
        let name = self.value();
        p.fields.push(("name".into(), name));
        for k in ["type", "version", "folia_version", "document_version", "command", "host", "user", "begindatetime", "enddatetime", "src", "format", "resourcelink"] {
            if self.rng.p(2, 3) { continue; }
            let v = match k { "type" => self.rng.pick(&["auto", "manual", "generator", "datasource"]).to_string(), "begindatetime" | "enddatetime" => self.rng.datetime(), _ => { let s = self.value(); if s.is_empty() { "x".into() } else { s } } };
            p.fields.push((k.into(), v));
        }
        if self.rng.p(1, 3) { p.meta = self.meta().data; }
        p
    }

    fn nest(&mut self, ids: &[String], depth: usize) -> Vec<ProcM> {
        let mut out = vec![];
        let mut i = 0;
        while i < ids.len() {
            let mut p = self.procm(&ids[i].clone());
            i += 1;
            if i < ids.len() && depth < 4 && self.rng.p(1, 2) {
                let n = self.rng.range(1, ids.len() - i);
                p.children = self.nest(&ids[i..i + n], depth + 1);
                i += n;
            }
            out.push(p);
        }
        out
    }

    ///Pairs of annotation type and set used in the tree
    pub fn used(e: &El, out: &mut Vec<(AnnotationType, Option<String>)>) {
        if let (Some(at), true) = (spec(e.et).at, encoded(e)) {
            let k = (at, e.get("set").map(|s| s.to_string()));
            if !out.contains(&k) { out.push(k); }
        }
        for c in e.children() { Gen::used(c, out) }
    }

    pub fn doc(&mut self) -> DocM {
        let mut d = DocM::new();
        d.id = self.newid();
        if self.o.header {
            d.meta = self.meta();
            for _ in 0..self.rng.below(3) { let id = self.newid(); let m = self.meta(); d.submeta.push((id, m)); }
            let ids = self.procs.clone();
            d.procs = self.nest(&ids, 0);
        }
        let root = if self.rng.p(1, 12) { ElementType::Speech } else { ElementType::Text };
        d.body = self.tree(root, 0);
        while self.left > 0 {
            let before = self.left;
            let c = self.candidates(root, 0);
            let et = *self.rng.pick(&c);
            let c = self.tree(et, 1);
            d.body.push(c);
            if self.left >= before { break; }
        }
        for k in ["set", "class"] { d.body.del(k); }
        if self.o.spans {
            //words that were given up on are not referred to
            let mut have = HashSet::new();
            present(&d.body, &mut have);
            prune(&mut d.body, &have);
            let w: Vec<String> = self.words.iter().filter(|w| have.contains(*w)).cloned().collect();
            if self.o.forward && !w.is_empty() { retarget(self.rng, &mut d.body, &mut HashSet::new(), &w); }
        }
        if self.o.header { self.decls(&mut d); }
        d
    }

    ///Declares some of what is used, and some more
    pub fn decls(&mut self, d: &mut DocM) {
        let mut used = vec![];
        Gen::used(&d.body, &mut used);
        let all = self.rng.p(1, 3);
        let mut pairs: Vec<(AnnotationType, Option<String>)> = used.into_iter().filter(|_| all || self.rng.p(1, 2)).collect();
        for _ in 0..self.rng.below(5) {
            let at = self.rng.pick(ATYPES).0;
            let set = if self.rng.p(1, 5) { None } else { Some(self.rng.pick(&self.sets).clone()) };
            if !pairs.contains(&(at, set.clone())) { pairs.push((at, set)); }
        }
        self.rng.shuffle(&mut pairs);
        for (at, set) in pairs {
            let alias = if self.rng.p(1, 8) { Some(self.value()) } else { None };
            let format = if self.rng.p(1, 8) { Some(self.value()) } else { None };
            let mut annotators = vec![];
            if self.rng.p(1, 2) { for p in self.procs.clone() { if self.rng.p(1, 3) { annotators.push(p); } } }
            self.rng.shuffle(&mut annotators);
            d.decls.push(DeclM { at, set, alias, format, annotators });
        }
    }
}

fn present(e: &El, out: &mut HashSet<String>) { out.extend(e.get("xml:id").map(|s| s.to_string())); for c in e.children() { present(c, out) } }
fn prune(e: &mut El, have: &HashSet<String>) {
    e.items.retain(|i| match i { Item::El(c) => c.et != ElementType::WordReference || c.get("id").map_or(false, |w| have.contains(w)), _ => true });
    for i in e.items.iter_mut() { if let Item::El(c) = i { prune(c, have); } }
}
///Lets references refer to any word, possibly a later one
fn retarget(rng: &mut Rng, e: &mut El, seen: &mut HashSet<String>, words: &[String]) {
    fn refs(e: &El, out: &mut HashSet<String>) { for c in e.children() { if c.et == ElementType::WordReference { out.extend(c.get("id").map(|s| s.to_string())); } else if !in_group(ElementGroup::Span, c.et) { refs(c, out); } } }
    for i in e.items.iter_mut() {
        if let Item::El(c) = i {
            if c.et == ElementType::WordReference {
                let w = rng.pick(words).clone();
                if rng.p(1, 2) && seen.insert(w.clone()) { c.set("id", &w); }
            } else if in_group(ElementGroup::Span, c.et) {
                let mut own = HashSet::new();
                refs(c, &mut own);
                retarget(rng, c, &mut own, words);
            } else { retarget(rng, c, seen, words); }
        }
    }
}

///A document that can be built element by element
pub fn buildable_doc(rng: &mut Rng) -> DocM {
    let mut o = Opts::new(rng);
    o.forward = false;
    Gen::new(rng, o).doc()
}

pub fn random_doc(rng: &mut Rng) -> DocM {
    let o = Opts::new(rng);
    Gen::new(rng, o).doc()
}

///A document of thousands of elements, with hundreds of sets, classes, subsets and processors
pub fn large_doc(rng: &mut Rng, forward: bool) -> DocM {
    let mut o = Opts::new(rng);
    o.size = rng.range(1500, 4000);
    o.forward &= forward;
    o.free &= rng.p(1, 4);
    o.spans = true;
    o.header = true;
    let mut g = Gen::new(rng, o);
    let n = g.rng.range(100, 700);
    for i in 0..n {
        g.classes.push(format!("class-{}", i));
        if i % 2 == 0 { g.subsets.push(format!("subset-{}", i)); }
        if i % 3 == 0 { g.sets.push(format!("https://example.org/set/{}", i)); }
        if i % 5 != 0 { g.procs.push(format!("processor.{}", i)); }
    }
    g.doc()
}
