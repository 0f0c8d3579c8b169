//! The document as a plain tree (read item by item through the API), and reference
//! implementations, over that tree, of what the library computes.
use crate::snap;
use crate::snap::Data;
use crate::spec::*;
use folia::*;
use std::collections::{HashMap, HashSet};

#[derive(Clone, Debug, PartialEq)]
pub enum VItem { El(usize), Text(String), Comment(String), Span(usize) }

#[derive(Clone, Debug)]
pub struct VNode { pub et: ElementType, pub id: Option<String>, pub attrs: Vec<(String, String)>, pub decl: Option<(AnnotationType, Option<String>)>, pub class: Option<String>, pub subset: Option<String>, pub proc: Option<String>, pub items: Vec<VItem>, pub parent: Option<usize> }

///All elements of a document; index = key
pub struct View { pub n: Vec<VNode>, pub ids: HashMap<String, usize>, pub procs: HashMap<String, (String, ProcessorType)> }

thread_local! { static DEEP: std::cell::Cell<bool> = std::cell::Cell::new(false); }
thread_local! { static STEPS: std::cell::Cell<usize> = std::cell::Cell::new(usize::max_value()); }

impl View {
    pub fn of(doc: &Document) -> Result<View, String> {
        let total = snap::doc_len(doc);
        let mut v = View { n: Vec::with_capacity(total), ids: HashMap::new(), procs: HashMap::new() };
        for key in 0..total {
            let e = doc.get_element(key as ElementKey).ok_or(format!("element {} is gone", key))?;
            let node = snap::node(doc, key as ElementKey)?;
            let mut items = vec![];
            let mut i = 0;
            while let Some(item) = e.elementdata_pub().get_data_at(i) {
                items.push(match item {
                    DataType::Element(k) => VItem::El(*k as usize),
                    DataType::Text(t) => VItem::Text(t.clone()),
                    DataType::Comment(t) => VItem::Comment(t.clone()),
                    DataType::SpanReference(k) => VItem::Span(*k as usize),
                    DataType::AddElement(_) => return Err("element that was never added".into()),
                });
                i += 1;
            }
            let id = e.id().map(|s| s.to_string());
            if let Some(id) = &id { v.ids.insert(id.clone(), key); }
            v.n.push(VNode { et: node.et, id, attrs: node.attrs, decl: node.decl, class: node.class, subset: node.subset, proc: node.proc, items, parent: e.parent_key().map(|k| k as usize) });
        }
        for node in v.n.iter() {
            if let Some(p) = &node.proc {
                let p2 = doc.get_processor_by_id(p).ok_or(format!("processor {} of an element does not exist", p))?;
                v.procs.insert(p.clone(), (p2.name.clone(), p2.processortype));
            }
        }
        Ok(v)
    }
    pub fn attr(&self, i: usize, k: &str) -> Option<&str> { self.n[i].attrs.iter().find(|a| a.0 == k).map(|a| a.1.as_str()) }
    pub fn set(&self, i: usize) -> Option<&str> { self.n[i].decl.as_ref().and_then(|d| d.1.as_deref()) }
    pub fn children(&self, i: usize) -> Vec<usize> { self.n[i].items.iter().filter_map(|x| if let VItem::El(c) = x { Some(*c) } else { None }).collect() }
    pub fn ancestors(&self, i: usize) -> Vec<usize> {
        let mut out = vec![];
        let mut cur = self.n[i].parent;
        while let Some(p) = cur { out.push(p); if out.len() > self.n.len() { panic!("cycle") } cur = self.n[p].parent; }
        out
    }

    // ------------------------------------------------------------ text

    ///The text of an element; None if it has none, or if it takes more than 256 levels to get it
    pub fn text(&self, i: usize, set: &str, class: &str, retain: bool) -> Option<String> {
        DEEP.with(|d| d.set(false));
        self.text_in(i, set, class, retain, &mut vec![]).filter(|_| !DEEP.with(|d| d.get()))
    }
    ///As text(), but None if it takes too many steps (references can multiply)
    pub fn text_bounded(&self, i: usize, set: &str, class: &str, retain: bool, steps: usize) -> Option<Option<String>> {
        STEPS.with(|s| s.set(steps));
        let t = self.text(i, set, class, retain);
        let left = STEPS.with(|s| s.replace(usize::max_value()));
        if left == 0 { None } else { Some(t) }
    }
    fn text_in(&self, i: usize, set: &str, class: &str, retain: bool, path: &mut Vec<usize>) -> Option<String> {
        if path.len() >= 256 { DEEP.with(|d| d.set(true)); }
        if DEEP.with(|d| d.get()) { return None; }
        let left = STEPS.with(|s| s.get());
        if left == 0 { return None; }
        STEPS.with(|s| s.set(left - 1));
        path.push(i);
        let r = self.text_node(i, set, class, retain, path);
        path.pop();
        r
    }
    fn text_node(&self, i: usize, set: &str, class: &str, retain: bool, path: &mut Vec<usize>) -> Option<String> {
        let sp = spec(self.n[i].et);
        let mut out = String::new();
        if sp.textcontainer {
            for item in self.n[i].items.iter() {
                match item {
                    VItem::Text(t) => out.push_str(t),
                    VItem::El(c) => {
                        let sc = spec(self.n[*c].et);
                        if !sc.printable { continue; }
                        if !out.is_empty() { out.push_str(sc.delimiter.unwrap_or("")); }
                        match self.text_in(*c, set, class, retain, path) { Some(t) => out.push_str(&t), None => if sc.textcontainer { return None } }
                    }
                    _ => {}
                }
            }
            return Some(out);
        }
        if !sp.printable || sp.hidden { return None; }
        let mut pending = String::new();
        let mut own: Option<usize> = None;
        for c in self.children(i) {
            let et = self.n[c].et;
            let part = if in_group(ElementGroup::Structure, et) || in_group(ElementGroup::Span, et) || in_group(ElementGroup::SpanRole, et) || matches!(et, ElementType::Correction | ElementType::New | ElementType::Current) { Some(c) }
                else if et == ElementType::WordReference { self.attr(c, "id").and_then(|id| self.ids.get(id)).copied().filter(|t| !path.contains(t)) }
                else { if et == ElementType::TextContent && self.of_textclass(c, set, class) { own = Some(c); } None };
            if let Some(p) = part {
                if let Some(t) = self.text_in(p, set, class, retain, path) {
                    out.push_str(&pending);
                    out.push_str(&t);
                    pending = self.delimiter(p, retain);
                }
            }
        }
        if out.is_empty() { if let Some(t) = own { out = self.text_in(t, set, class, retain, path).unwrap_or_default(); } }
        if out.is_empty() { None } else { Some(out) }
    }
    pub fn of_textclass(&self, t: usize, set: &str, class: &str) -> bool {
        let own = self.set(t);
        (own.is_none() || own == Some(set)) && self.n[t].class.as_deref().unwrap_or("current") == class
    }
    pub fn delimiter(&self, i: usize, retain: bool) -> String {
        let mut i = i;
        let mut referred = false;
        loop {
            let sp = spec(self.n[i].et);
            if let Some(d) = sp.delimiter {
                return if sp.space && !retain && self.attr(i, "space") == Some("no") { String::new() } else { d.to_string() };
            }
            if self.n[i].et == ElementType::WordReference && !referred {
                //as the word, but only one reference is followed
                referred = true;
                if let Some(t) = self.attr(i, "id").and_then(|id| self.ids.get(id)) { i = *t; continue; }
            }
            match self.children(i).last() { Some(c) => i = *c, None => return String::new() }
        }
    }

    // ------------------------------------------------------------ traversal

    ///(item's owner, position in owner, depth) of everything the traversal visits
    pub fn walk(&self, root: usize, rec: &Recursion) -> Vec<(usize, usize, usize)> {
        let mut out = vec![];
        let mut stack = vec![(root, 0usize)];
        while let Some((i, c)) = stack.pop() {
            if c >= self.n[i].items.len() { continue; }
            stack.push((i, c + 1));
            out.push((i, c, stack.len()));
            let et = self.n[i].et;
            let listed = |v: &Vec<AcceptedData>| v.iter().any(|a| match a { AcceptedData::AcceptElementType(t) => *t == et, AcceptedData::AcceptElementGroup(g) => in_group(*g, et) });
            let enter = match rec { Recursion::No => false, Recursion::Always => true, Recursion::LimitedTo(v) => listed(v), Recursion::ExceptFor(v) => !listed(v) };
            if let (true, VItem::El(k)) = (enter, &self.n[i].items[c]) { stack.push((*k, 0)); }
        }
        out
    }

    // ------------------------------------------------------------ queries

    pub fn matches(&self, i: usize, q: &Query) -> bool {
        let n = &self.n[i];
        fn cmp<T: PartialEq + std::fmt::Debug>(c: &Cmp<T>, v: Option<&T>) -> bool {
            match c { Cmp::Any => true, Cmp::Is(x) => v == Some(x), Cmp::Some => v.is_some(), Cmp::None => v.is_none(), Cmp::Unmatchable => false }
        }
        let proc = n.proc.as_ref().and_then(|p| self.procs.get(p));
        let annotator = proc.map(|p| p.0.clone()).or(self.attr(i, "annotator").map(|s| s.to_string()));
        let atype = proc.map(|p| snap::ptype(p.1).to_string()).or(self.attr(i, "annotatortype").map(|s| s.to_string()));
        let qatype = match &q.annotatortype { Cmp::Is(t) => Cmp::Is(snap::ptype(*t).to_string()), Cmp::Any => Cmp::Any, Cmp::Some => Cmp::Some, Cmp::None => Cmp::None, Cmp::Unmatchable => Cmp::Unmatchable };
        let conf = self.attr(i, "confidence").map(|s| s.to_string());
        let qconf = match &q.confidence { Cmp::Is(f) => Cmp::Is(snap::bits(*f)), Cmp::Any => Cmp::Any, Cmp::Some => Cmp::Some, Cmp::None => Cmp::None, Cmp::Unmatchable => Cmp::Unmatchable };
        let group = match &q.elementgroup { Cmp::Any | Cmp::Some => true, Cmp::Is(g) => in_group(*g, n.et), _ => return false };
        //the set is one of the annotation type that the query is about
        if let (Cmp::Is(_) | Cmp::None, Cmp::Is(c)) = (&q.set, if matches!(q.subset, Cmp::Is(_) | Cmp::Some) || q.elementtype == Cmp::Is(ElementType::Feature) { &q.contexttype } else { &q.elementtype }) { if n.decl.is_none() || n.decl.as_ref().map(|d| d.0) != spec(*c).at { return false; } }
        let set = match &q.set { Cmp::None => n.decl.as_ref().map_or(false, |d| d.1.is_none()), c => cmp(c, n.decl.as_ref().and_then(|d| d.1.as_ref())) };
        cmp(&q.elementtype, Some(&n.et)) && group && set && cmp(&q.class, n.class.as_ref()) && cmp(&q.subset, n.subset.as_ref()) && cmp(&q.processor, n.proc.as_ref())
            && cmp(&q.annotator, annotator.as_ref()) && cmp(&qatype, atype.as_ref()) && cmp(&qconf, conf.as_ref())
    }

    ///Is it a tree (forest): parents and children agree, nothing is listed twice, no cycles
    pub fn check_forest(&self) -> Result<(), String> {
        let mut seen = HashSet::new();
        for (i, n) in self.n.iter().enumerate() {
            for item in n.items.iter() {
                match item {
                    VItem::El(c) => {
                        if *c >= self.n.len() { return Err(format!("element {} lists a child {} that does not exist", i, c)); }
                        if !seen.insert(*c) { return Err(format!("element {} is listed as a child more than once", c)); }
                        if self.n[*c].parent != Some(i) { return Err(format!("element {} lists {} as child, whose parent is {:?}", i, c, self.n[*c].parent)); }
                    }
                    VItem::Span(k) => if *k >= self.n.len() || !in_group(ElementGroup::Span, self.n[*k].et) { return Err(format!("element {} links to span {} that does not exist", i, k)); },
                    _ => {}
                }
            }
        }
        for (i, n) in self.n.iter().enumerate() {
            if n.parent.is_some() && !seen.contains(&i) { return Err(format!("element {} has parent {:?} that does not list it", i, n.parent)); }
            let mut cur = n.parent;
            let mut steps = 0;
            while let Some(p) = cur { if p == i || steps > self.n.len() { return Err(format!("element {} is its own ancestor", i)); } steps += 1; cur = self.n[p].parent; }
        }
        Ok(())
    }
}
