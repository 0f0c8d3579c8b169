//! What a document should contain after parsing and after each operation on it.
use crate::gen::blank;
use crate::model::*;
use crate::snap::{self, Ev, Header, MetaSnap, Node, ProcSnap, Snap};
use crate::spec::*;
use folia::{AnnotationType, ElementGroup, ElementType};
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum SItem { El(usize), Text(String), Comment(String), Span(usize) }

#[derive(Clone, Debug)]
pub struct SNode { pub et: ElementType, pub attrs: Vec<(String, String)>, pub decl: Option<usize>, pub class: Option<String>, pub subset: Option<String>, pub proc: Option<String>, pub items: Vec<SItem>, pub parent: Option<usize>, pub id: Option<String> }

#[derive(Clone, Debug)]
pub struct SDecl { pub at: AnnotationType, pub set: Option<String>, pub alias: Option<String>, pub format: Option<String>, pub procs: Vec<String> }

#[derive(Clone, Debug)]
pub struct SProc { pub m: ProcM, pub parent: Option<usize>, pub children: Vec<usize> }

#[derive(Clone, Default, Debug)]
pub struct Shadow { pub nodes: Vec<SNode>, pub decls: Vec<SDecl>, pub procs: Vec<SProc>, pub chain: Vec<usize>, pub active: Option<String>, pub pending: Vec<usize>, pub ids: HashMap<String, usize>, pub meta: MetaM, pub submeta: Vec<(String, MetaM)>, pub id: String }

pub const TEXTSET: &str = "https://raw.githubusercontent.com/proycon/folia/master/setdefinitions/text.foliaset.ttl";

///Attributes that are kept as such
const PLAIN: &[&str] = &["xml:id", "annotator", "annotatortype", "confidence", "n", "datetime", "begintime", "endtime", "src", "speaker", "textclass", "metadata", "id", "space", "t", "type", "auth", "offset", "ref", "original", "linenr", "pagenr", "newpage", "xlink:type", "xlink:href", "tag", "format"];

impl Shadow {
    pub fn new(id: &str, root: ElementType) -> Shadow {
        let mut s = Shadow { id: id.to_string(), ..Shadow::default() };
        s.add_node(&El::new(root), None);
        s
    }
    pub fn declare(&mut self, at: AnnotationType, set: Option<&str>) -> usize {
        let exact = self.decls.iter().position(|d| d.at == at && d.set.as_deref() == set);
        let i = match exact {
            Some(i) => i,
            None => {
                let of: Vec<usize> = (0..self.decls.len()).filter(|i| self.decls[*i].at == at).collect();
                if set.is_none() && of.len() == 1 { of[0] } else {
                    self.decls.push(SDecl { at, set: set.map(|s| s.to_string()), alias: None, format: None, procs: vec![] });
                    self.decls.len() - 1
                }
            }
        };
        if let Some(p) = self.active.clone() { if !self.decls[i].procs.contains(&p) { self.decls[i].procs.push(p); } }
        i
    }
    pub fn has_proc(&self, id: &str) -> bool { self.procs.iter().any(|p| p.m.id() == id) }

    ///Adds an element (not its content), not attached to anything yet
    pub fn add_node(&mut self, e: &El, context: Option<usize>) -> usize {
        let (set, class, subset, procid) = (e.get("set"), e.get("class"), e.get("subset"), e.get("processor"));
        let mut n = SNode { et: e.et, attrs: vec![], decl: None, class: None, subset: None, proc: None, items: vec![], parent: None, id: e.get("xml:id").map(|s| s.to_string()) };
        for (k, v) in e.attrs.iter() { if PLAIN.contains(&k.as_str()) { n.attrs.push((k.clone(), snap::canon(k, v))); } }
        n.attrs.sort();
        let sp = spec(e.et);
        if set.is_some() || class.is_some() || subset.is_some() || procid.is_some() {
            if let Some(at) = sp.at {
                let d = self.declare(at, set);
                n.decl = Some(d);
                n.class = class.map(|s| s.to_string());
                if self.decls[d].procs.len() == 1 { n.proc = Some(self.decls[d].procs[0].clone()); }
                else if let Some(p) = self.active.clone() { n.proc = Some(p); }
            } else if e.et == ElementType::Feature {
                let (pdecl, pat) = { let p = &self.nodes[context.expect("context of feature")]; (p.decl, spec(p.et).at) };
                n.decl = match (set, pdecl, pat) { (None, Some(d), _) => Some(d), (set, _, Some(at)) => Some(self.declare(at, set)), _ => None };
                if n.decl.is_some() { n.class = class.map(|s| s.to_string()); n.subset = subset.map(|s| s.to_string()); }
            }
            if let Some(p) = procid {
                if self.has_proc(p) {
                    n.proc = Some(p.to_string());
                    if let Some(d) = n.decl { if !self.decls[d].procs.iter().any(|x| x == p) { self.decls[d].procs.push(p.to_string()); } }
                }
            }
        }
        let i = self.nodes.len();
        if let Some(id) = &n.id { self.ids.insert(id.clone(), i); }
        self.nodes.push(n);
        i
    }
    pub fn link(&mut self, parent: usize, child: usize) { self.nodes[child].parent = Some(parent); self.nodes[parent].items.push(SItem::El(child)); }

    pub fn ancestors(&self, i: usize) -> Vec<usize> {
        let mut out = vec![];
        let mut cur = self.nodes[i].parent;
        while let Some(p) = cur { out.push(p); cur = self.nodes[p].parent; }
        out
    }
    pub fn children(&self, i: usize) -> Vec<usize> { self.nodes[i].items.iter().filter_map(|x| if let SItem::El(c) = x { Some(*c) } else { None }).collect() }

    ///Shorthand features of an element, in the order of their subsets (that of attributes is not significant)
    fn shorthand(e: &El) -> Vec<El> {
        let known = crate::gen::shorthands(e.et);
        let mut given: Vec<(&str, &str)> = e.attrs.iter().filter(|(k, _)| known.contains(&k.as_str()) && !PLAIN.contains(&k.as_str())).map(|(k, v)| (k.as_str(), v.as_str())).collect();
        given.sort();
        given.into_iter().map(|(k, v)| El::new(ElementType::Feature).with("subset", k).with("class", v).text(v)).collect()
    }

    ///What happens once the content of an element is complete
    fn complete(&mut self, i: usize) {
        let et = self.nodes[i].et;
        if et == ElementType::WordReference {
            let idref = self.nodes[i].attrs.iter().find(|a| a.0 == "id").map(|a| a.1.clone());
            let span = self.ancestors(i).into_iter().find(|a| in_group(ElementGroup::Span, self.nodes[*a].et));
            if let (Some(t), Some(span)) = (idref.and_then(|x| self.ids.get(&x).copied()), span) { self.nodes[t].items.push(SItem::Span(span)); }
        } else if in_group(ElementGroup::Layer, et) && self.nodes[i].decl.is_none() {
            let at = spec(et).at;
            //the first annotation in it that has a declaration of this type
            for c in self.descendants(i) {
                let n = &self.nodes[c];
                if in_group(ElementGroup::Span, n.et) && spec(n.et).at == at && n.decl.is_some() && self.ancestors(c).into_iter().find(|a| in_group(ElementGroup::Layer, self.nodes[*a].et) && spec(self.nodes[*a].et).at == at) == Some(i) { self.nodes[i].decl = n.decl; break; }
            }
        }
    }
    pub fn descendants(&self, i: usize) -> Vec<usize> {
        let mut out = vec![];
        let mut stack: Vec<usize> = self.children(i).into_iter().rev().collect();
        while let Some(c) = stack.pop() { out.push(c); stack.extend(self.children(c).into_iter().rev()); }
        out
    }

    ///Adds an element with everything in it, as read from XML
    fn parse_el(&mut self, e: &El, parent: usize) -> usize {
        let i = self.add_node(e, Some(parent));
        //children come in order, whether attached when opened or when closed
        self.link(parent, i);
        for f in Shadow::shorthand(e) {
            let k = self.add_node(&f, Some(i));
            self.link(i, k);
            for it in f.items.iter() { if let Item::Text(t) = it { self.nodes[k].items.push(SItem::Text(t.clone())); } }
        }
        self.parse_items(e, i);
        if e.et == ElementType::WordReference { self.pending.push(i); } else { self.complete(i); }
        i
    }
    fn parse_items(&mut self, e: &El, i: usize) {
        for it in e.items.iter() {
            match it {
                Item::El(c) => { self.parse_el(c, i); }
                Item::Text(t) => if e.container() || !blank(t) { self.nodes[i].items.push(SItem::Text(t.clone())) },
                Item::Comment(t) => self.nodes[i].items.push(SItem::Comment(t.clone())),
            }
        }
    }
    fn default_declare(&mut self) { self.declare(AnnotationType::TEXT, Some(TEXTSET)); }

    ///The result of parsing the document (with the default properties)
    pub fn parse(m: &DocM) -> Shadow { Shadow::parse_with(m, &[], None) }
    ///The result of parsing with these declarations (besides the default) and this processor as properties
    pub fn parse_with(m: &DocM, declare: &[(AnnotationType, Option<String>)], processor: Option<&ProcM>) -> Shadow {
        let mut s = Shadow { id: m.id.clone(), meta: m.meta.clone(), submeta: m.submeta.clone(), ..Shadow::default() };
        fn walk(s: &mut Shadow, p: &ProcM, parent: Option<usize>) {
            let i = s.procs.len();
            s.procs.push(SProc { m: ProcM { children: vec![], ..p.clone() }, parent, children: vec![] });
            match parent { Some(q) => s.procs[q].children.push(i), None => s.chain.push(i) }
            for c in p.children.iter() { walk(s, c, Some(i)) }
        }
        for p in m.procs.iter() { walk(&mut s, p, None) }
        for d in m.decls.iter() { s.decls.push(SDecl { at: d.at, set: d.set.clone(), alias: d.alias.clone(), format: d.format.clone(), procs: d.annotators.iter().filter(|a| s.procs.iter().any(|p| p.m.id() == a.as_str())).cloned().collect() }); }
        s.add_node(&m.body, None);
        let declared: Vec<AnnotationType> = s.decls.iter().map(|d| d.at).collect();
        let mut all = vec![(AnnotationType::TEXT, Some(TEXTSET.to_string()))];
        all.extend(declare.iter().cloned());
        for (at, set) in all.iter() { if !declared.contains(at) { s.declare(*at, set.as_deref()); } }
        s.parse_items(&m.body, 0);
        for i in std::mem::take(&mut s.pending) { s.complete(i); }
        for (at, set) in all.iter() { if declared.contains(at) { s.declare(*at, set.as_deref()); } }
        if let Some(p) = processor { s.add_proc(p, None); s.active = Some(p.id().to_string()); }
        s
    }
    ///The result of creating a new document with default properties
    pub fn create(id: &str, root: ElementType) -> Shadow { Shadow::create_with(id, root, &[], None) }
    ///The result of creating one with more declarations, and a processor
    pub fn create_with(id: &str, root: ElementType, declare: &[(AnnotationType, Option<String>)], processor: Option<&ProcM>) -> Shadow {
        let mut s = Shadow::new(id, root);
        if let Some(p) = processor { s.add_proc(p, None); s.active = Some(p.id().to_string()); }
        s.default_declare();
        for (at, set) in declare { s.declare(*at, set.as_deref()); }
        s
    }

    // ------------------------------------------------------------ operations

    ///May the element be added here? (None: as an orphan)
    pub fn check(&self, parent: Option<usize>, e: &El) -> Result<(), String> {
        if let Some(p) = parent { if p >= self.nodes.len() { return Err("no such parent".into()); } }
        let in_span = parent.map_or(false, |p| in_group(ElementGroup::Span, self.nodes[p].et) || self.ancestors(p).iter().any(|a| in_group(ElementGroup::Span, self.nodes[*a].et)));
        let mut ids = vec![];
        self.check_el(e, in_span, parent.is_some(), &mut ids)
    }
    fn check_el(&self, e: &El, in_span: bool, has_parent: bool, ids: &mut Vec<String>) -> Result<(), String> {
        if let Some(id) = e.get("xml:id") {
            if self.ids.contains_key(id) || ids.iter().any(|x| x == id) { return Err(format!("duplicate id {}", id)); }
            ids.push(id.to_string());
        }
        if e.et == ElementType::Feature && !has_parent && (e.get("set").is_some() || e.get("class").is_some() || e.get("subset").is_some() || e.get("processor").is_some()) { return Err("feature without context".into()); }
        if e.et == ElementType::WordReference && has_parent {
            if !in_span { return Err("wref outside span".into()); }
            match e.get("id") { None => return Err("wref without reference".into()), Some(r) => if !self.ids.contains_key(r) && !ids.iter().any(|x| x == r) { return Err("dangling wref".into()); } }
        }
        let in_span = in_span || in_group(ElementGroup::Span, e.et);
        for c in e.children() { self.check_el(c, in_span, true, ids)?; }
        Ok(())
    }
    ///Adds an element with everything in it through the API. It must have been checked.
    pub fn add_tree(&mut self, parent: Option<usize>, e: &El) -> usize {
        let i = self.add_node(e, parent);
        if let Some(p) = parent { self.link(p, i); }
        for it in e.items.iter() {
            match it {
                Item::El(c) => { self.add_tree(Some(i), c); }
                Item::Text(t) => self.nodes[i].items.push(SItem::Text(t.clone())),
                Item::Comment(t) => self.nodes[i].items.push(SItem::Comment(t.clone())),
            }
        }
        if parent.is_some() { self.complete(i); }
        i
    }
    pub fn attach(&mut self, parent: usize, child: usize) -> Result<(), String> {
        if parent >= self.nodes.len() || child >= self.nodes.len() { return Err("no such element".into()); }
        if parent == child || self.ancestors(parent).contains(&child) { return Err("cycle".into()); }
        self.detach(child)?;
        self.link(parent, child);
        Ok(())
    }
    pub fn detach(&mut self, child: usize) -> Result<(), String> {
        if child >= self.nodes.len() { return Err("no such element".into()); }
        if let Some(p) = self.nodes[child].parent.take() { self.nodes[p].items.retain(|x| *x != SItem::El(child)); }
        Ok(())
    }
    pub fn spanned(&self, e: &El) -> Vec<usize> {
        let mut out = vec![];
        for c in e.children() {
            if c.et == ElementType::WordReference { if let Some(i) = c.get("id").and_then(|x| self.ids.get(x)) { out.push(*i); } } else { out.extend(self.spanned(c)); }
        }
        out
    }
    pub fn layer(&self, at: AnnotationType, set: &str, holder: usize) -> Option<usize> {
        let lt = layertype(at)?;
        self.children(holder).into_iter().find(|c| self.nodes[*c].et == lt && self.nodes[*c].decl.map_or(false, |d| self.decls[d].set.as_deref() == Some(set)))
    }
    pub fn common(&self, keys: &[usize]) -> Vec<usize> {
        let mut it = keys.iter();
        let first = match it.next() { Some(k) => self.ancestors(*k), None => return vec![] };
        let rest: Vec<Vec<usize>> = it.map(|k| self.ancestors(*k)).collect();
        first.into_iter().filter(|a| rest.iter().all(|r| r.contains(a))).collect()
    }
    ///Where ``annotate`` puts the element: (parent, whether a layer of this set has to be made first)
    pub fn place(&self, parent: usize, e: &El) -> Result<(usize, Option<String>), String> {
        if parent >= self.nodes.len() { return Err("no such parent".into()); }
        self.check(Some(parent), e)?;
        let pet = self.nodes[parent].et;
        let normal = |p: usize| if accepts(self.nodes[p].et, e.et) { Ok((p, None)) } else { Err("not accepted".to_string()) };
        if !in_group(ElementGroup::Span, e.et) || !(spec(pet).wrefable || in_group(ElementGroup::Structure, pet)) { return normal(parent); }
        let at = spec(e.et).at.unwrap();
        let lt = layertype(at).ok_or("no layer type")?;
        let set = match e.get("set") {
            Some(s) => s.to_string(),
            None => { let of: Vec<&SDecl> = self.decls.iter().filter(|d| d.at == at).collect(); if of.len() == 1 { of[0].set.clone().ok_or("no set")? } else { return Err("no set".into()); } }
        };
        let holds_layers = |i: usize| accepts(self.nodes[i].et, lt);
        let holder = if spec(pet).wrefable {
            let keys = self.spanned(e);
            if keys.is_empty() { return Err("empty span".into()); }
            self.common(&keys).into_iter().find(|a| in_group(ElementGroup::Structure, self.nodes[*a].et) && holds_layers(*a)).ok_or("no place for a layer")?
        } else { parent };
        if let Some(l) = self.layer(at, &set, holder) { return if accepts(self.nodes[l].et, e.et) { Ok((l, None)) } else { Err("layer does not accept".into()) }; }
        if !holds_layers(holder) || !accepts(lt, e.et) { return Err("not accepted".into()); }
        Ok((holder, Some(set)))
    }
    ///Returns the new element, and the layer that was made for it (if any)
    pub fn annotate(&mut self, parent: usize, e: &El) -> Result<(usize, Option<usize>), String> {
        let (mut p, set) = self.place(parent, e)?;
        let mut made = None;
        if let Some(set) = set {
            let l = El::new(layertype(spec(e.et).at.unwrap()).unwrap()).with("set", &set);
            p = self.add_tree(Some(p), &l);
            made = Some(p);
        }
        Ok((self.add_tree(Some(p), e), made))
    }
    pub fn annotate_span(&mut self, e: &El) -> Result<(usize, Option<usize>), String> {
        if !in_group(ElementGroup::Span, e.et) { return Err("not a span".into()); }
        let keys = self.spanned(e);
        if keys.is_empty() { return Err("empty span".into()); }
        self.annotate(keys[0], e)
    }
    ///Adds a processor with everything in it; false if it is there already (then nothing is to be added)
    pub fn add_proc(&mut self, p: &ProcM, parent: Option<usize>) -> usize {
        let i = self.procs.len();
        self.procs.push(SProc { m: ProcM { children: vec![], ..p.clone() }, parent, children: vec![] });
        match parent { Some(q) => self.procs[q].children.push(i), None => self.chain.push(i) }
        for c in p.children.iter() { self.add_proc(c, Some(i)); }
        i
    }

    // ------------------------------------------------------------ comparison

    fn node(&self, i: usize) -> Node {
        let n = &self.nodes[i];
        Node { et: n.et, decl: n.decl.map(|d| (self.decls[d].at, self.decls[d].set.clone())), class: n.class.clone(), subset: n.subset.clone(), proc: n.proc.clone(), attrs: n.attrs.clone() }
    }
    ///Nodes of the tree under root, in document order
    pub fn order(&self, root: usize) -> Vec<usize> { let mut v = vec![root]; v.extend(self.descendants(root)); v }
    pub fn tree(&self, root: usize) -> Snap {
        let mut s = Snap::default();
        let mut pos: HashMap<usize, usize> = HashMap::new();
        let mut raw = vec![];
        let mut stack = vec![(root, 0usize)];
        let enter = |i: usize, s: &mut Snap, pos: &mut HashMap<usize, usize>| { s.evs.push(Ev::Open(self.node(i))); pos.insert(i, s.keys.len()); s.keys.push(i as folia::ElementKey); };
        enter(root, &mut s, &mut pos);
        while let Some((i, c)) = stack.pop() {
            match self.nodes[i].items.get(c) {
                None => s.evs.push(Ev::Close),
                Some(item) => {
                    stack.push((i, c + 1));
                    match item {
                        SItem::El(k) => { enter(*k, &mut s, &mut pos); stack.push((*k, 0)); }
                        SItem::Text(t) => if let Some(Ev::Text(p)) = s.evs.last_mut() { p.push_str(t) } else if !t.is_empty() { s.evs.push(Ev::Text(t.clone())) },
                        SItem::Comment(t) => s.evs.push(Ev::Comment(t.clone())),
                        SItem::Span(k) => raw.push((i, *k)),
                    }
                }
            }
        }
        s.links = raw.iter().map(|(a, b)| (pos[a], pos.get(b).copied().unwrap_or(usize::MAX))).collect();
        s.links.sort();
        s
    }
    pub fn header(&self) -> Header {
        let meta = |m: &MetaM| { let mut data = m.data.clone(); data.sort(); MetaSnap { mtype: m.mtype.clone(), src: m.src.clone(), data } };
        let mut h = Header { id: self.id.clone(), meta: meta(&self.meta), ..Header::default() };
        h.submeta = self.submeta.iter().map(|(k, m)| (k.clone(), meta(m))).collect();
        h.submeta.sort_by(|a, b| a.0.cmp(&b.0));
        h.procs = self.chain.iter().map(|p| self.procsnap(*p)).collect();
        for d in self.decls.iter() {
            let mut ann = d.procs.clone();
            ann.sort();
            h.decls.push((format!("{:?}", d.at), d.set.clone(), d.alias.clone(), d.format.clone(), ann));
        }
        h.decls.sort();
        h
    }
    fn procsnap(&self, i: usize) -> ProcSnap {
        let p = &self.procs[i];
        let mut fields: Vec<(String, String)> = p.m.fields.iter().filter(|f| f.0 == "name" || f.0 == "xml:id" || !f.1.is_empty()).map(|(k, v)| (k.clone(), snap::canon(k, v))).collect();
        if p.m.get("name").is_none() { fields.push(("name".into(), String::new())); }
        if p.m.get("type").is_none() { fields.push(("type".into(), "auto".into())); }
        fields.sort();
        let mut meta = p.m.meta.clone();
        meta.sort();
        ProcSnap { fields, meta, children: p.children.iter().map(|c| self.procsnap(*c)).collect() }
    }
    pub fn doc(&self) -> Snap { let mut s = self.tree(0); s.header = self.header(); s }
}
