//! An independent, strict, namespace-aware XML reader (small subset of XML 1.0: no DTD).
use crate::rng::is_xmlchar;

#[derive(Clone, Debug, PartialEq)]
pub enum XEv {
    Open { ns: Option<String>, name: String, attrs: Vec<(String, String)> },
    Close,
    Text(String),
    Comment(String),
}

fn is_name_start(c: char) -> bool { c.is_alphabetic() || c == '_' || c == ':' || (c as u32) > 0x7f }
fn is_name_char(c: char) -> bool { is_name_start(c) || c.is_ascii_digit() || c == '-' || c == '.' }

struct P<'a> { s: &'a str, i: usize }

impl<'a> P<'a> {
    fn rest(&self) -> &'a str { &self.s[self.i..] }
    fn eof(&self) -> bool { self.i >= self.s.len() }
    fn starts(&self, t: &str) -> bool { self.rest().starts_with(t) }
    fn until(&mut self, t: &str) -> Result<&'a str, String> {
        match self.rest().find(t) {
            Some(n) => { let r = &self.s[self.i..self.i + n]; self.i += n + t.len(); Ok(r) }
            None => Err(format!("expected {:?} after byte {}", t, self.i)),
        }
    }
    fn ws(&mut self) -> bool {
        let n = self.rest().len() - self.rest().trim_start_matches(|c| c == ' ' || c == '\t' || c == '\n' || c == '\r').len();
        self.i += n;
        n > 0
    }
    fn name(&mut self) -> Result<&'a str, String> {
        let r = self.rest();
        match r.chars().next() { Some(c) if is_name_start(c) => {}, c => return Err(format!("expected a name at byte {}, got {:?}", self.i, c)) }
        let n = r.find(|c| !is_name_char(c)).unwrap_or(r.len());
        self.i += n;
        Ok(&r[..n])
    }
}

fn check_chars(s: &str) -> Result<(), String> {
    match s.chars().find(|c| !is_xmlchar(*c)) { Some(c) => Err(format!("character not allowed in XML: {:?}", c)), None => Ok(()) }
}

fn eol(s: &str) -> String { s.replace("\r\n", "\n").replace('\r', "\n") }

fn unescape(s: &str, attribute: bool) -> Result<String, String> {
    let s = eol(s);
    let mut out = String::with_capacity(s.len());
    let mut rest: &str = &s;
    while let Some(c) = rest.chars().next() {
        if c == '&' {
            let end = rest.find(';').ok_or("unterminated reference")?;
            let e = &rest[1..end];
            let r = match e {
                "lt" => '<', "gt" => '>', "amp" => '&', "apos" => '\'', "quot" => '"',
                _ => {
                    let n = if let Some(h) = e.strip_prefix("#x") { u32::from_str_radix(h, 16) } else if let Some(d) = e.strip_prefix('#') { d.parse() } else { return Err(format!("unknown entity {:?}", e)) };
                    let c = n.ok().and_then(char::from_u32).ok_or(format!("bad character reference {:?}", e))?;
                    if !is_xmlchar(c) { return Err(format!("character reference to a character not allowed {:?}", e)); }
                    c
                }
            };
            out.push(r);
            rest = &rest[end + 1..];
        } else {
            if c == '<' { return Err("literal < in value".into()); }
            if attribute && (c == '\n' || c == '\t') { out.push(' ') } else { out.push(c) }
            rest = &rest[c.len_utf8()..];
        }
    }
    if !attribute && s.contains("]]>") { return Err("literal ]]> in text".into()); }
    Ok(out)
}

///Parses a document (or a single element) into a flat list of events; adjacent character data is merged
pub fn parse(input: &str) -> Result<Vec<XEv>, String> {
    parse_ns(input, &[])
}

pub fn parse_ns(input: &str, bound: &[(&str, &str)]) -> Result<Vec<XEv>, String> {
    check_chars(input)?;
    let mut p = P { s: input, i: 0 };
    if p.starts("<?xml ") { p.until("?>")?; }
    let mut out: Vec<XEv> = vec![];
    let mut stack: Vec<(String, usize)> = vec![];
    let mut ns: Vec<(String, String)> = bound.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    ns.push(("xml".into(), "http://www.w3.org/XML/1998/namespace".into()));
    let mut seen_root = false;
    let text = |out: &mut Vec<XEv>, t: String| {
        if t.is_empty() { return; }
        if let Some(XEv::Text(prev)) = out.last_mut() { prev.push_str(&t) } else { out.push(XEv::Text(t)) }
    };
    while !p.eof() {
        if p.starts("<!--") {
            p.i += 4;
            let c = p.until("-->")?;
            if c.contains("--") || c.ends_with('-') { return Err("-- in comment".into()); }
            if !stack.is_empty() { out.push(XEv::Comment(eol(c))); }
        } else if p.starts("<![CDATA[") {
            p.i += 9;
            let c = p.until("]]>")?;
            if stack.is_empty() { return Err("CDATA outside root".into()); }
            text(&mut out, eol(c));
        } else if p.starts("<?") {
            let pi = p.until("?>")?;
            if pi[2..].trim_start().to_lowercase().starts_with("xml ") { return Err("misplaced XML declaration".into()); }
        } else if p.starts("<!") {
            return Err("DTD not supported".into());
        } else if p.starts("</") {
            p.i += 2;
            let n = p.name()?;
            p.ws();
            if !p.starts(">") { return Err(format!("malformed end tag at {}", p.i)); }
            p.i += 1;
            match stack.pop() {
                Some((open, nslen)) => {
                    if open != n { return Err(format!("end tag {} does not match {}", n, open)); }
                    ns.truncate(nslen);
                    out.push(XEv::Close);
                }
                None => return Err(format!("end tag {} without start", n)),
            }
        } else if p.starts("<") {
            p.i += 1;
            if stack.is_empty() && seen_root { return Err("more than one root".into()); }
            seen_root = true;
            let n = p.name()?.to_string();
            let nslen = ns.len();
            let mut raw: Vec<(String, String)> = vec![];
            let empty;
            loop {
                let w = p.ws();
                if p.starts("/>") { p.i += 2; empty = true; break; }
                if p.starts(">") { p.i += 1; empty = false; break; }
                if !w { return Err(format!("white space required before attribute at {}", p.i)); }
                let a = p.name()?.to_string();
                p.ws();
                if !p.starts("=") { return Err(format!("= expected at {}", p.i)); }
                p.i += 1;
                p.ws();
                let q = if p.starts("\"") { "\"" } else if p.starts("'") { "'" } else { return Err(format!("quote expected at {}", p.i)) };
                p.i += 1;
                let v = unescape(p.until(q)?, true)?;
                if raw.iter().any(|(k, _)| *k == a) { return Err(format!("duplicate attribute {}", a)); }
                raw.push((a, v));
            }
            let mut attrs = vec![];
            for (k, v) in raw {
                if k == "xmlns" { ns.push((String::new(), v)); }
                else if let Some(pf) = k.strip_prefix("xmlns:") { ns.push((pf.to_string(), v)); }
                else { attrs.push((k, v)); }
            }
            for (k, _) in attrs.iter() {
                if let Some((pf, local)) = k.split_once(':') {
                    if local.contains(':') || !ns.iter().any(|(p, _)| p == pf) { return Err(format!("undeclared prefix in attribute {}", k)); }
                }
            }
            let (pf, local) = match n.split_once(':') { Some((a, b)) => (a.to_string(), b.to_string()), None => (String::new(), n.clone()) };
            let uri = ns.iter().rev().find(|(p, _)| *p == pf).map(|(_, u)| u.clone());
            if uri.is_none() && !pf.is_empty() { return Err(format!("undeclared prefix {}", pf)); }
            out.push(XEv::Open { ns: uri.filter(|u| !u.is_empty()), name: local, attrs });
            if empty { out.push(XEv::Close); ns.truncate(nslen); } else { stack.push((n, nslen)); }
        } else {
            let n = p.rest().find('<').unwrap_or(p.rest().len());
            let t = &p.s[p.i..p.i + n];
            p.i += n;
            if stack.is_empty() {
                if !t.trim_matches(|c| c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\u{feff}').is_empty() { return Err("text outside root".into()); }
            } else {
                text(&mut out, unescape(t, false)?);
            }
        }
    }
    if !stack.is_empty() { return Err(format!("unclosed element {}", stack.last().unwrap().0)); }
    if !seen_root { return Err("no root element".into()); }
    Ok(out)
}
