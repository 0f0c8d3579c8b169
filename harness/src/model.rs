//! The reference document: what a generated FoLiA document contains, independent of the code under test;
//! and a writer that spells it as XML in many equivalent ways.
use crate::rng::Rng;
use crate::spec::*;
use folia::{AnnotationType, ElementType};

#[derive(Clone, Debug, PartialEq)]
pub enum Item { El(El), Text(String), Comment(String) }

#[derive(Clone, PartialEq)]
pub struct El { pub et: ElementType, pub attrs: Vec<(String, String)>, pub items: Vec<Item> }

impl std::fmt::Debug for El {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", element_xml(self)) }
}

impl El {
    pub fn new(et: ElementType) -> El { El { et, attrs: vec![], items: vec![] } }
    pub fn with(mut self, k: &str, v: &str) -> El { self.set(k, v); self }
    pub fn set(&mut self, k: &str, v: &str) {
        if let Some(a) = self.attrs.iter_mut().find(|a| a.0 == k) { a.1 = v.to_string() } else { self.attrs.push((k.to_string(), v.to_string())) }
    }
    pub fn get(&self, k: &str) -> Option<&str> { self.attrs.iter().find(|a| a.0 == k).map(|a| a.1.as_str()) }
    pub fn del(&mut self, k: &str) { self.attrs.retain(|a| a.0 != k) }
    pub fn text(mut self, t: &str) -> El { self.push_text(t); self }
    pub fn push_text(&mut self, t: &str) {
        if t.is_empty() { return; }
        if let Some(Item::Text(p)) = self.items.last_mut() { p.push_str(t) } else { self.items.push(Item::Text(t.to_string())) }
    }
    pub fn el(mut self, e: El) -> El { self.items.push(Item::El(e)); self }
    pub fn push(&mut self, e: El) { self.items.push(Item::El(e)) }
    pub fn children(&self) -> impl Iterator<Item = &El> { self.items.iter().filter_map(|i| if let Item::El(e) = i { Some(e) } else { None }) }
    pub fn count(&self) -> usize { 1 + self.children().map(|c| c.count()).sum::<usize>() }
    pub fn container(&self) -> bool { let s = spec(self.et); s.textcontainer || s.phoncontainer }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct MetaM { pub mtype: Option<String>, pub src: Option<String>, pub data: Vec<(String, String)> }

#[derive(Clone, Debug, PartialEq)]
pub struct DeclM { pub at: AnnotationType, pub set: Option<String>, pub alias: Option<String>, pub format: Option<String>, pub annotators: Vec<String> }

///A processor, fields by XML attribute name (always including xml:id and name)
#[derive(Clone, Debug, Default, PartialEq)]
pub struct ProcM { pub fields: Vec<(String, String)>, pub meta: Vec<(String, String)>, pub children: Vec<ProcM> }

impl ProcM {
    pub fn get(&self, k: &str) -> Option<&str> { self.fields.iter().find(|a| a.0 == k).map(|a| a.1.as_str()) }
    pub fn id(&self) -> &str { self.get("xml:id").unwrap_or("") }
}

#[derive(Clone, Debug, PartialEq)]
pub struct DocM { pub id: String, pub meta: MetaM, pub submeta: Vec<(String, MetaM)>, pub decls: Vec<DeclM>, pub procs: Vec<ProcM>, pub body: El }

impl DocM {
    pub fn new() -> DocM { DocM { id: "doc".into(), meta: MetaM::default(), submeta: vec![], decls: vec![], procs: vec![], body: El::new(ElementType::Text) } }
    pub fn all_procs(&self) -> Vec<&ProcM> {
        fn walk<'a>(p: &'a ProcM, out: &mut Vec<&'a ProcM>) { out.push(p); for c in p.children.iter() { walk(c, out) } }
        let mut out = vec![];
        for p in self.procs.iter() { walk(p, &mut out) }
        out
    }
}

pub fn decl_tag(at: AnnotationType) -> String { format!("{}-annotation", format!("{:?}", at).to_lowercase()) }

// ---------------------------------------------------------------- writing

pub const NS: &str = "http://ilk.uvt.nl/folia";
pub const XLINK: &str = "http://www.w3.org/1999/xlink";

///A way of spelling a document. With ``rng`` None the plainest spelling is used.
#[derive(Clone)]
pub struct Style {
    pub rng: Option<Rng>,
    pub quotes: bool, pub attr_order: bool, pub tag_space: bool, pub empty: bool, pub charrefs: bool, pub cdata: bool,
    pub prefix: bool, pub xmldecl: bool, pub pis: bool, pub layout: bool, pub crlf: bool, pub header_order: bool,
    pub header_comments: bool, pub nsdecl: bool, pub alien: bool, pub bom: bool,
}

impl Style {
    pub fn plain() -> Style {
        Style { rng: None, quotes: false, attr_order: false, tag_space: false, empty: false, charrefs: false, cdata: false, prefix: false, xmldecl: false, pis: false, layout: false, crlf: false, header_order: false, header_comments: false, nsdecl: false, alien: false, bom: false }
    }
    ///A random mix of spellings
    pub fn random(rng: &mut Rng) -> Style {
        let mut s = Style::plain();
        let mut r = Rng(rng.next(), 0);
        s.quotes = r.p(1, 2); s.attr_order = r.p(1, 2); s.tag_space = r.p(1, 2); s.empty = r.p(1, 2); s.charrefs = r.p(1, 2); s.cdata = r.p(1, 2);
        s.prefix = r.p(1, 3); s.xmldecl = r.p(1, 2); s.pis = r.p(1, 2); s.layout = r.p(1, 2); s.crlf = r.p(1, 3); s.header_order = r.p(1, 2);
        s.header_comments = r.p(1, 3); s.alien = r.p(1, 4); s.nsdecl = r.p(1, 4);
        s.rng = Some(r);
        s
    }
    fn p(&mut self, on: bool, num: usize, den: usize) -> bool { on && self.rng.as_mut().map_or(false, |r| r.p(num, den)) }
    fn below(&mut self, n: usize) -> usize { self.rng.as_mut().map_or(0, |r| r.below(n)) }
}

pub struct Writer { pub out: String, pub st: Style, pfx: &'static str, open: Vec<&'static str> }

impl Writer {
    fn escape_char(&mut self, c: char, quote: Option<char>, prev: &str) {
        let st = &mut self.st;
        let named = |c: char| match c { '<' => Some("&lt;"), '>' => Some("&gt;"), '&' => Some("&amp;"), '"' => Some("&quot;"), '\'' => Some("&apos;"), _ => None };
        let must = match c {
            '<' | '&' => true,
            '>' => quote.is_none() && prev.ends_with("]]"),
            '\r' => true,
            '\n' | '\t' => quote.is_some(),
            c => Some(c) == quote,
        };
        let maybe = st.p(st.charrefs, 1, 6);
        if !must && !maybe {
            if c == '\n' && quote.is_none() {
                match if st.crlf { st.below(3) } else { 0 } { 0 => self.out.push('\n'), 1 => self.out.push_str("\r\n"), _ => self.out.push('\r') }
            } else { self.out.push(c) }
            return;
        }
        match (named(c), st.below(4)) {
            (Some(n), 0) | (Some(n), 1) => self.out.push_str(n),
            (_, 2) => self.out.push_str(&format!("&#x{:x};", c as u32)),
            (_, 3) => self.out.push_str(&format!("&#x{:04X};", c as u32)),
            _ => self.out.push_str(&format!("&#{};", c as u32)),
        }
    }
    fn quoted(&mut self, v: &str) {
        let q = if self.st.p(self.st.quotes, 1, 2) { '\'' } else { '"' };
        self.out.push(q);
        for c in v.chars() {
            //white space of a value may be spelled as line break or tab as well
            if c == ' ' && self.st.p(self.st.tag_space, 1, 12) {
                self.out.push_str(["\n", "\t", "\r\n"][self.st.below(3)]);
            } else {
                let done = String::new();
                self.escape_char(c, Some(q), &done);
            }
        }
        self.out.push(q);
    }
    fn sp(&mut self) {
        let n = if self.st.p(self.st.tag_space, 1, 2) { self.st.below(4) } else { 0 };
        self.out.push_str(match n { 1 => "  ", 2 => "\n\t", 3 => "\r\n ", _ => " " });
    }
    fn maybe_sp(&mut self) { if self.st.p(self.st.tag_space, 1, 4) { self.sp() } }
    pub fn open(&mut self, name: &str, attrs: &[(String, String)], empty: bool) {
        let mut attrs: Vec<(String, String)> = attrs.to_vec();
        //namespaces may be declared anywhere
        let mut pfx = self.pfx;
        if name != "FoLiA" && self.st.p(self.st.nsdecl, 1, 10) {
            let (k, v) = match self.st.below(4) {
                0 => ("xmlns:yy", "http://example.org/yy"),
                1 if pfx.is_empty() => ("xmlns", NS),
                1 => ("xmlns", "http://example.org/default"),
                2 => ("xmlns:fo2", NS),
                _ => { pfx = "loc:"; ("xmlns:loc", NS) }
            };
            attrs.push((k.into(), v.into()));
        }
        if !empty { self.open.push(pfx); }
        self.out.push('<');
        self.out.push_str(pfx);
        self.out.push_str(name);
        if self.st.attr_order { if let Some(r) = self.st.rng.as_mut() { r.shuffle(&mut attrs) } }
        if self.st.p(self.st.alien, 1, 10) { attrs.push(("zz:whatever".into(), "x<y".into())); }
        if self.st.p(self.st.alien, 1, 10) { attrs.push(("typegroup".into(), "inline".into())); }
        for (k, v) in attrs.iter() {
            self.sp();
            self.out.push_str(k);
            self.maybe_sp();
            self.out.push('=');
            self.maybe_sp();
            let c = self.st.charrefs;
            if k.starts_with("xmlns") { self.st.charrefs = false; } //namespaces with character references are beyond the XML library
            self.quoted(v);
            self.st.charrefs = c;
        }
        self.maybe_sp();
        self.out.push_str(if empty { "/>" } else { ">" });
    }
    pub fn close(&mut self, name: &str) {
        self.out.push_str("</");
        let pfx = self.open.pop().unwrap_or(self.pfx);
        self.out.push_str(pfx);
        self.out.push_str(name);
        self.maybe_sp();
        self.out.push('>');
    }
    pub fn text(&mut self, t: &str) {
        let chars: Vec<char> = t.chars().collect();
        let mut i = 0;
        let mut done = String::new();
        while i < chars.len() {
            if self.st.p(self.st.cdata, 1, 4) {
                let n = (1 + self.st.below(6)).min(chars.len() - i);
                let part: String = chars[i..i + n].iter().collect();
                if !part.contains("]]>") && !part.contains('\r') && !part.ends_with(']') {
                    self.out.push_str("<![CDATA[");
                    self.out.push_str(&part);
                    self.out.push_str("]]>");
                    i += n;
                    done.clear();
                    continue;
                }
            }
            if self.st.p(self.st.cdata, 1, 20) { self.out.push_str("<![CDATA[]]>"); done.clear(); }
            if self.st.p(self.st.pis, 1, 20) { self.out.push_str("<?pi in text?>"); done.clear(); }
            let c = chars[i];
            //a line feed must not follow on a literal CR
            self.escape_char_checked(c, &done);
            done.push(c);
            i += 1;
        }
    }
    fn escape_char_checked(&mut self, c: char, done: &str) {
        if c == '\n' && self.out.ends_with('\r') { self.out.push_str("&#10;"); return; }
        self.escape_char(c, None, done);
    }
    fn layout(&mut self) {
        if self.st.layout {
            let n = self.st.below(6);
            self.out.push_str(match n { 0 => "", 1 => "\n", 2 => "\n    ", 3 => "\t ", 4 => " ", _ => if self.st.crlf { "\r\n  " } else { "\n\n" } });
        }
        if self.st.p(self.st.pis, 1, 12) { self.out.push_str("<?target some <instruction/ here?>"); }
    }
    fn header_layout(&mut self) {
        self.layout();
        if self.st.p(self.st.header_comments, 1, 4) { self.out.push_str("<!-- <meta id=\"no\">comment</meta> -->"); self.layout(); }
    }
    pub fn element(&mut self, e: &El) {
        //layout is only insignificant where there is no text
        let ws = !e.container() && !e.items.iter().any(|i| matches!(i, Item::Text(_)));
        let name = tag(e.et);
        if e.items.is_empty() && !self.st.p(self.st.empty, 1, 2) {
            self.open(name, &e.attrs, true);
            return;
        }
        self.open(name, &e.attrs, false);
        if e.items.is_empty() {
            if ws { self.layout(); }
        } else {
            for item in e.items.iter() {
                if ws { self.layout(); }
                match item {
                    Item::El(c) => self.element(c),
                    Item::Text(t) => self.text(t),
                    Item::Comment(c) => {
                        self.out.push_str("<!--");
                        let c = if self.st.crlf && self.st.p(true, 1, 2) { c.replace('\n', "\r\n") } else { c.clone() };
                        self.out.push_str(&c);
                        self.out.push_str("-->");
                    }
                }
            }
            if ws { self.layout(); }
        }
        self.close(name);
    }
    fn meta(&mut self, m: &[(String, String)]) {
        for (k, v) in m {
            self.header_layout();
            if v.is_empty() && self.st.p(self.st.empty, 1, 2) { self.open("meta", &[("id".into(), k.clone())], true); continue; }
            self.open("meta", &[("id".into(), k.clone())], false);
            self.text(v);
            self.close("meta");
        }
    }
    fn proc(&mut self, p: &ProcM) {
        self.header_layout();
        if p.meta.is_empty() && p.children.is_empty() && !self.st.p(self.st.empty, 1, 2) {
            self.open("processor", &p.fields, true);
            return;
        }
        self.open("processor", &p.fields, false);
        self.meta(&p.meta);
        for c in p.children.iter() { self.proc(c) }
        self.header_layout();
        self.close("processor");
    }
    fn annotations(&mut self, d: &DocM) {
        self.header_layout();
        if d.decls.is_empty() && self.st.p(self.st.empty, 1, 2) { self.open("annotations", &[], true); return; }
        self.open("annotations", &[], false);
        for decl in d.decls.iter() {
            self.header_layout();
            let mut attrs = vec![];
            if let Some(s) = &decl.set { attrs.push(("set".to_string(), s.clone())); }
            if let Some(s) = &decl.alias { attrs.push(("alias".to_string(), s.clone())); }
            if let Some(s) = &decl.format { attrs.push(("format".to_string(), s.clone())); }
            let name = decl_tag(decl.at);
            if decl.annotators.is_empty() && !self.st.p(self.st.empty, 1, 2) {
                self.open(&name, &attrs, true);
            } else {
                self.open(&name, &attrs, false);
                for a in decl.annotators.iter() {
                    self.header_layout();
                    let at = [("processor".to_string(), a.clone())];
                    if self.st.p(self.st.empty, 1, 2) { self.open("annotator", &at, false); self.layout(); self.close("annotator"); } else { self.open("annotator", &at, true); }
                }
                self.header_layout();
                self.close(&name);
            }
        }
        self.header_layout();
        self.close("annotations");
    }
    fn provenance(&mut self, d: &DocM) {
        self.header_layout();
        if d.procs.is_empty() { if self.st.p(self.st.empty, 1, 2) { return; } else { self.open("provenance", &[], true); return; } }
        self.open("provenance", &[], false);
        for p in d.procs.iter() { self.proc(p) }
        self.header_layout();
        self.close("provenance");
    }
    fn submeta(&mut self, d: &DocM) {
        for (id, m) in d.submeta.iter() {
            self.header_layout();
            let mut attrs = vec![("xml:id".to_string(), id.clone())];
            if let Some(s) = &m.mtype { attrs.push(("type".to_string(), s.clone())); }
            if let Some(s) = &m.src { attrs.push(("src".to_string(), s.clone())); }
            if m.data.is_empty() && !self.st.p(self.st.empty, 1, 2) { self.open("submetadata", &attrs, true); continue; }
            self.open("submetadata", &attrs, false);
            self.meta(&m.data);
            self.header_layout();
            self.close("submetadata");
        }
    }
    pub fn header(&mut self, d: &DocM) {
        let mut attrs = vec![];
        if let Some(s) = &d.meta.mtype { attrs.push(("type".to_string(), s.clone())); }
        if let Some(s) = &d.meta.src { attrs.push(("src".to_string(), s.clone())); }
        self.header_layout();
        self.open("metadata", &attrs, false);
        let order = if self.st.header_order { self.st.below(4) } else { 0 };
        match order {
            0 => { self.annotations(d); self.provenance(d); self.meta(&d.meta.data); self.submeta(d); }
            1 => { self.provenance(d); self.annotations(d); self.submeta(d); self.meta(&d.meta.data); }
            2 => { self.meta(&d.meta.data); self.annotations(d); self.submeta(d); self.provenance(d); }
            _ => { self.submeta(d); self.meta(&d.meta.data); self.provenance(d); self.annotations(d); }
        }
        self.header_layout();
        self.close("metadata");
    }
    pub fn root_open(&mut self, d: &DocM) {
        if self.st.bom { self.out.push('\u{feff}'); }
        if self.st.p(self.st.xmldecl, 2, 3) {
            self.out.push_str(["<?xml version=\"1.0\" encoding=\"UTF-8\"?>", "<?xml version='1.0' encoding='utf-8' standalone=\"yes\" ?>", "<?xml version=\"1.0\"?>"][self.st.below(3)]);
        }
        if self.st.layout { self.layout(); }
        if self.st.p(self.st.header_comments, 1, 2) { self.out.push_str("<!-- <FoLiA> before the root -->\n"); }
        let prefix = self.st.prefix;
        self.pfx = if prefix { "fo:" } else { "" };
        let mut attrs = vec![(if prefix { "xmlns:fo" } else { "xmlns" }.to_string(), NS.to_string()), ("xmlns:xlink".to_string(), XLINK.to_string()), ("xml:id".to_string(), d.id.clone()), ("version".to_string(), "2.1.0".to_string())];
        if self.st.alien { attrs.push(("xmlns:zz".into(), "http://example.org/zz".into())); }
        let (o, a, c) = (self.st.attr_order, self.st.alien, self.st.charrefs);
        self.st.alien = false;
        self.st.charrefs = false; //namespaces with character references are beyond the XML library
        self.open("FoLiA", &attrs, false);
        self.st.charrefs = c;
        self.st.attr_order = o;
        self.st.alien = a;
    }
    pub fn doc(&mut self, d: &DocM) {
        self.root_open(d);
        let a = self.st.alien;
        self.st.alien = false; //the header does not allow other attributes everywhere
        self.header(d);
        self.st.alien = a;
        self.header_layout();
        self.element(&d.body);
        self.header_layout();
        self.close("FoLiA");
        self.layout();
        if self.st.p(self.st.header_comments, 1, 2) { self.out.push_str("<!-- after the root -->"); }
    }
    pub fn new(st: Style) -> Writer { Writer { out: String::new(), st, pfx: "", open: vec![] } }
}

pub fn write(d: &DocM, st: Style) -> String {
    let mut w = Writer::new(st);
    w.doc(d);
    w.out
}

pub fn plain(d: &DocM) -> String { write(d, Style::plain()) }

pub fn element_xml(e: &El) -> String {
    let mut w = Writer::new(Style::plain());
    w.element(e);
    w.out
}
