use super::*;
use crate::gen::*;
use crate::model::*;
use crate::spec;

///Positions of the tags in a plainly written document: (start, end, name, 's'tart 'e'nd 'x'empty)
pub fn tags(x: &str) -> Vec<(usize, usize, String, char)> {
    let b = x.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'<' { i += 1; continue; }
        if x[i..].starts_with("<!--") { i += x[i..].find("-->").map_or(4, |n| n + 3); continue; }
        if x[i..].starts_with("<?") || x[i..].starts_with("<!") { i += x[i..].find('>').map_or(2, |n| n + 1); continue; }
        let start = i;
        let mut q = 0u8;
        i += 1;
        while i < b.len() { if q != 0 { if b[i] == q { q = 0 } } else if b[i] == b'"' || b[i] == b'\'' { q = b[i] } else if b[i] == b'>' { break } i += 1; }
        let end = (i + 1).min(b.len());
        let inner = x.get(start + 1..end - 1).unwrap_or("");
        if inner.is_empty() { i = end; continue; }
        let kind = if inner.starts_with('/') { 'e' } else if inner.ends_with('/') { 'x' } else { 's' };
        let name: String = inner.trim_start_matches('/').chars().take_while(|c| !c.is_whitespace() && *c != '/').collect();
        out.push((start, end, name, kind));
        i = end;
    }
    out
}

///The same from a file
fn from_file(ctx: &mut Ctx, x: &[u8]) -> Option<Document> {
    ctx.count("damaged files", 1);
    let p = ctx.dir.join(format!("damaged-{}.xml", std::process::id()));
    std::fs::write(&p, x).expect("scratch file");
    let r = Document::from_file(p.to_str().expect("path"), DocumentProperties::default());
    let _ = std::fs::remove_file(&p);
    r.ok()
}

fn refused(ctx: &mut Ctx, what: &str, x: &str) -> Result<(), String> {
    ctx.count("faults tried", 1);
    ctx.count(what, 1);
    ctx.eval(Some(crate::rng::hash(x)));
    if crate::rng::hash(x) % 8 == 0 {
        if let Some(d) = from_file(ctx, x.as_bytes()) { ctx.input(x); return Err(format!("accepted from a file, with {} elements, although: {}\n{}", snap::doc_len(&d), what, crate::run::clip(x, 3000))); }
    }
    match crate::api::parse(x) {
        Err(_) => Ok(()),
        Ok(d) => { ctx.input(x); Err(format!("accepted, with {} elements, although: {}\n{}", snap::doc_len(&d), what, crate::run::clip(x, 3000))) }
    }
}

fn descend<'a>(rng: &mut Rng, e: &'a mut El) -> &'a mut El {
    //a random element of the tree, by number
    fn nth<'a>(e: &'a mut El, n: &mut usize) -> Option<&'a mut El> {
        if *n == 0 { return Some(e); }
        *n -= 1;
        for i in e.items.iter_mut() { if let Item::El(c) = i { let k = c.count(); if *n < k { return nth(c, n); } *n -= k; } }
        None
    }
    let mut n = rng.below(e.count());
    nth(e, &mut n).expect("element")
}

fn truncations(ctx: &mut Ctx, x: &str, step: usize) -> Result<(), String> {
    let end = x.rfind("</").expect("end tag") + 1;
    let full = x.trim_end().len();
    let mut i = 0;
    while i < full {
        if i > end - 3 || i % step == 0 {
            if i > end - 3 || i % (step * 16) == 0 || !x.is_char_boundary(i) {
                if let Some(d) = from_file(ctx, &x.as_bytes()[..i]) { ctx.input(x); return Err(format!("accepted from a file (with {} elements) although cut off at byte {} of {}:\n{}", snap::doc_len(&d), i, full, crate::run::clip(x, 3000))); }
            }
            if x.is_char_boundary(i) {
                ctx.count("truncations tried", 1);
                ctx.eval(Some(crate::rng::hash(&x[..i])));
                if let Ok(d) = crate::api::parse(&x[..i]) { ctx.input(&x[..i]); return Err(format!("accepted (with {} elements) although cut off at byte {} of {}:\n{}", snap::doc_len(&d), i, full, crate::run::clip(&x[..i], 3000))); }
            }
        }
        i += 1;
    }
    Ok(())
}

fn case(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    let mut o = Opts::new(rng);
    o.size = o.size.min(40);
    let m = Gen::new(rng, o).doc();
    let x = plain(&m);
    ctx.input(&x);
    parse(&x)?;
    let mut st = Style::random(rng);
    st.bom = false;
    st.header_comments = false;
    let y = { let mut w = Writer::new(st); w.doc(&m); w.out };
    let step = if ctx.thorough() { 1 } else { 1 + x.len() / 400 };
    if rng.p(1, 2) { truncations(ctx, &x, step)?; } else if let Some(p) = y.rfind("</") { let p = p + y[p..].find('>').unwrap_or(0) + 1; truncations(ctx, &y[..p], step)?; }
    let t = tags(&x);
    let close: Vec<&(usize, usize, String, char)> = t.iter().filter(|t| t.3 == 'e').collect();
    let opens: Vec<&(usize, usize, String, char)> = t.iter().filter(|t| t.3 == 's').collect();
    for _ in 0..if ctx.thorough() { 12 } else { 5 } {
        //an end tag is missing
        let c = close[rng.below(close.len())];
        refused(ctx, "an end tag is missing", &format!("{}{}", &x[..c.0], &x[c.1..]))?;
        refused(ctx, "an end tag has another name", &format!("{}</{}x>{}", &x[..c.0], c.2, &x[c.1..]))?;
        let other = rng.pick(&["w", "s", "p", "t", "metadata", "annotations", "text", "FoLiA"]).to_string();
        if other != c.2 { refused(ctx, "an end tag has another name", &format!("{}</{}>{}", &x[..c.0], other, &x[c.1..]))?; }
        refused(ctx, "an end tag occurs twice", &format!("{}{}", &x[..c.1], &x[c.0..]))?;
        let o = opens[rng.below(opens.len())];
        refused(ctx, "a start tag is missing", &format!("{}{}", &x[..o.0], &x[o.1..]))?;
        //two end tags in the wrong order
        let i = rng.below(close.len());
        if let Some(d) = close.get(i + 1) { let c = close[i]; if c.1 == d.0 && c.2 != d.2 { refused(ctx, "end tags in the wrong order", &format!("{}{}{}{}", &x[..c.0], &x[d.0..d.1], &x[c.0..c.1], &x[d.1..]))?; } }
    }
    //the root
    refused(ctx, "the root has no namespace", &x.replacen(" xmlns=\"http://ilk.uvt.nl/folia\"", "", 1))?;
    refused(ctx, "the root has another namespace", &x.replacen("\"http://ilk.uvt.nl/folia\"", "\"http://example.org/folia\"", 1))?;
    refused(ctx, "the root is another element", &x.replacen("<FoLiA ", "<Folia ", 1).replace("</FoLiA>", "</Folia>"))?;
    //single faults in an element
    for _ in 0..if ctx.thorough() { 20 } else { 8 } {
        let mut n = m.clone();
        let e = descend(rng, &mut n.body);
        let what = match rng.below(8) {
            0 => {
                let k = unknown_attribute(rng);
                let v = if rng.p(1, 2) { "x" } else { "" };
                e.set(&k, v);
                "an attribute does not exist"
            }
            1 => { let v = *rng.pick(&["abc", "0,5", "", "1.0.0", "50%", "0x1", "1 2"]); e.set("confidence", v); "the confidence is not a number" }
            2 => { let v = *rng.pick(&["yesterday", "2011-02-30T00:00:00", "2011-13-01T00:00:00", "2011-01-01T25:00:00", "2011-01-01", "2011-01-01 00:00:00", "", "2011-01-01T00:00", "T00:00:00"]); e.set("datetime", v); "the date is not one" }
            3 => { let k = *rng.pick(&["space", "newpage"]); let v = *rng.pick(&["maybe", "", "1", "YES", "ja", "nope"]); e.set(k, v); "the value is neither yes nor no" }
            4 => { let k = *rng.pick(&["offset", "linenr"]); let v = *rng.pick(&["-1", "x", "", "1.5", "4294967296", "99999999999999999999", "0x10", "1e3"]); e.set(k, v); "the value is not a number" }
            5 => { let v = *rng.pick(&["robot", "", "Auto", "human", "automatic"]); e.set("annotatortype", v); "the annotator type does not exist" }
            6 => {
                //an identifier that is in use elsewhere
                let mut ids = vec![];
                fn all(e: &El, v: &mut Vec<String>) { if let Some(i) = e.get("xml:id") { v.push(i.to_string()); } for c in e.children() { all(c, v) } }
                all(&m.body, &mut ids);
                ids.retain(|i| Some(i.as_str()) != e.get("xml:id"));
                if ids.is_empty() { continue; }
                let i = rng.pick(&ids).clone();
                e.set("xml:id", &i);
                "an identifier occurs twice"
            }
            _ => {
                let r = descend_wref(rng, &mut n.body);
                match r { Some(r) => { if rng.p(1, 3) { r.del("id"); "a reference refers to nothing" } else { r.set("id", "no-such-element"); "a reference refers to an element that does not exist" } } None => continue }
            }
        };
        refused(ctx, what, &plain(&n))?;
    }
    //elements that do not exist or are not FoLiA
    let body: Vec<&(usize, usize, String, char)> = { let at = x.find("</metadata>").unwrap_or(0); t.iter().filter(|t| t.0 > at && t.3 == 'x').collect() };
    if !body.is_empty() {
        for _ in 0..3 {
            let e = body[rng.below(body.len())];
            let inner = &x[e.0 + 1 + e.2.len()..e.1];
            let name = *rng.pick(&["zork", "word", "W", "sentence", "t-bold", "annotation", "xml", "FoLiA", "metadata"]);
            refused(ctx, "an element does not exist", &format!("{}<{}{}{}", &x[..e.0], name, inner, &x[e.1..]))?;
            refused(ctx, "an element is in another namespace", &format!("{}<{} xmlns=\"http://example.org/\"{}{}", &x[..e.0], e.2, inner, &x[e.1..]))?;
            refused(ctx, "an element is in another namespace", &format!("{}<zz:{} xmlns:zz=\"http://example.org/\"{}{}", &x[..e.0], e.2, inner, &x[e.1..]))?;
            refused(ctx, "an element is in no namespace", &format!("{}<{} xmlns=\"\"{}{}", &x[..e.0], e.2, inner, &x[e.1..]))?;
            refused(ctx, "the prefix of an element is not bound", &format!("{}<zz:{}{}{}", &x[..e.0], e.2, inner, &x[e.1..]))?;
        }
    }
    //any element, with what is in it
    for _ in 0..if ctx.thorough() { 12 } else { 5 } {
        let i = rng.below(t.len());
        let e = &t[i];
        if e.3 == 'e' || e.2 == "FoLiA" { continue; }
        let ctxt = |w: &str| format!("{} (any element)", w);
        //its end tag
        let end = if e.3 == 'x' { None } else {
            let mut depth = 0;
            t[i..].iter().find(|u| { match u.3 { 's' => depth += 1, 'e' => depth -= 1, _ => {} } depth == 0 })
        };
        let put = |pfx: &str, extra: &str| match end {
            None => format!("{}<{}{}{}{}", &x[..e.0], pfx, e.2, extra, &x[e.0 + 1 + e.2.len()..]),
            Some(z) => format!("{}<{}{}{}{}</{}{}>{}", &x[..e.0], pfx, e.2, extra, &x[e.0 + 1 + e.2.len()..z.0], pfx, e.2, &x[z.1..]),
        };
        refused(ctx, &ctxt("an element is in another namespace"), &put("zz:", " xmlns:zz=\"http://example.org/\""))?;
        refused(ctx, &ctxt("an element is in another namespace"), &put("zz:", " xmlns:zz=\"http://ilk.uvt.nl/FoLiA\""))?;
        refused(ctx, &ctxt("an element and what is in it is in another namespace"), &put("", " xmlns=\"http://example.org/folia\""))?;
        refused(ctx, &ctxt("an element and what is in it is in no namespace"), &put("", " xmlns=\"\""))?;
        refused(ctx, &ctxt("the prefix of an element is not bound"), &put("zz:", ""))?;
        parse(&put("zz:", " xmlns:zz=\"http://ilk.uvt.nl/folia\""))?;
        //another name that resembles its own
        for _ in 0..3 {
            let name = near_tag(rng, &e.2);
            let x = match end {
                None => format!("{}<{}{}", &x[..e.0], name, &x[e.0 + 1 + e.2.len()..]),
                Some(z) => format!("{}<{}{}</{}>{}", &x[..e.0], name, &x[e.0 + 1 + e.2.len()..z.0], name, &x[z.1..]),
            };
            refused(ctx, &ctxt("an element does not exist"), &x).map_err(|m| format!("<{}> (was <{}>): {}", name, e.2, m))?;
        }
        if let Some(z) = end {
            //something that does not exist, in an element of the header or the body; last, or first
            let name = *rng.pick(&["zork", "Meta", "processors", "sentence", "annotators", "word", "zork-annotation", "html"]);
            let at = if rng.p(1, 2) { e.1 } else { z.0 };
            let inside = if e.2 == "meta" || e.2 == "foreign-data" || rng.p(1, 2) { format!("<{}/>", name) } else { format!("<{} xml:id=\"zork\">zork</{}>", name, name) };
            if e.2 != "foreign-data" { refused(ctx, &ctxt("an element does not exist"), &format!("{}{}{}", &x[..at], inside, &x[at..]))?; }
        }
    }
    malformed(ctx, rng, &x, &t)?;
    //after the document
    for extra in ["x", "<![CDATA[x]]>", "<![CDATA[]]>", "&#65;", "</FoLiA>", "<p/>", "<p></p>", "<FoLiA xmlns=\"http://ilk.uvt.nl/folia\" xml:id=\"more\" version=\"2.0\"><metadata/><text/></FoLiA>"] { refused(ctx, "there is something after the end of the document", &format!("{}{}", x.trim_end(), extra))?; }
    parse(&format!("{}\n <!-- x -->\n<?a b?>\n", x))?;
    //after the body
    let end = x.rfind("</FoLiA>").unwrap();
    for extra in ["<text/>", "<text></text>", "<p/>", "<speech/>", "<text xml:id=\"more\"><p><t>x</t></p></text>", "<w/>"] { refused(ctx, "there are elements after the body", &format!("{}{}{}", &x[..end], extra, &x[end..]))?; }
    if m.body.count() > 5 { ctx.sample(|| x.clone()); }
    //declarations and processors
    let d = x.find("<annotations").map(|i| i + x[i..].find('>').unwrap() + 1);
    if let (Some(d), true) = (d, x.contains("</annotations>")) {
        refused(ctx, "a declaration is of a type that does not exist", &format!("{}<zork-annotation set=\"x\"/>{}", &x[..d], &x[d..]))?;
    }
    if let Some(i) = x.find("<provenance>") {
        let i = i + "<provenance>".len();
        refused(ctx, "a processor type does not exist", &format!("{}<processor xml:id=\"new\" name=\"x\" type=\"robot\"/>{}", &x[..i], &x[i..]))?;
        refused(ctx, "a processor has a date that is not one", &format!("{}<processor xml:id=\"new\" name=\"x\" begindatetime=\"now\"/>{}", &x[..i], &x[i..]))?;
        refused(ctx, "a processor has a date that is not one", &format!("{}<processor xml:id=\"new\" name=\"x\" enddatetime=\"2011-02-30T00:00:00\"/>{}", &x[..i], &x[i..]))?;
        if let Some(p) = m.procs.first() { refused(ctx, "a processor occurs twice", &format!("{}<processor xml:id=\"{}\" name=\"x\"/>{}", &x[..i], p.id(), &x[i..]))?; }
    }
    misplaced(ctx, rng, &x, &t)?;
    let _ = spec::SPEC;
    Ok(())
}

///Elements of the header in places where they do not belong, and text where there can be none
fn misplaced(ctx: &mut Ctx, rng: &mut Rng, x: &str, t: &[(usize, usize, String, char)]) -> Result<(), String> {
    //all positions between tags up to the body, and after it, with the element they are in
    let mut places: Vec<(usize, String)> = vec![];
    let mut open: Vec<&str> = vec![];
    let mut body = false;
    for (i, e) in t.iter().enumerate() {
        match e.3 { 's' => open.push(e.2.as_str()), 'e' => { open.pop(); }, _ => {} }
        if e.3 == 's' && (e.2 == "text" || e.2 == "speech") && open.len() == 2 { body = true; }
        if e.3 == 'e' && open.len() == 1 && (e.2 == "text" || e.2 == "speech") { body = false; }
        if e.3 == 'x' && open.len() == 1 && (e.2 == "text" || e.2 == "speech") { places.push((e.1, "end".to_string())); continue; }
        if body || i + 1 == t.len() { continue; }
        let after = open.contains(&"FoLiA") && e.3 == 'e' && (e.2 == "text" || e.2 == "speech") && open.len() == 1;
        places.push((e.1, if after { "end".to_string() } else { open.last().unwrap_or(&"").to_string() }));
    }
    let first = t.iter().find(|e| e.2 == "FoLiA").map_or(0, |e| e.0);
    places.push((first, "start".to_string()));
    let header = |e: &str| ["annotations", "provenance", "submetadata", "meta", "metadata", "processor", "annotator"].contains(&e);
    for _ in 0..if ctx.thorough() { 40 } else { 14 } {
        let (at, parent) = &places[rng.below(places.len())];
        let put = |s: &str| format!("{}{}{}", &x[..*at], s, &x[*at..]);
        if *parent != "meta" {
            refused(ctx, "there is text where there can be none", &put(rng.pick(&["x", "stray text", "&amp;", "<![CDATA[x]]>", "\u{e9}", "\n x \n", "]]", "0", "\""])))?;
            parse(&put(rng.pick(&["\n", "  ", "<!-- x -->", "<?x y?>", "\n<!-- x -->\t"])))?;
        }
        if ["end", "start"].contains(&parent.as_str()) { continue; }
        let (name, inside) = match rng.below(9) {
            0 => ("processor", "<processor xml:id=\"extra\" name=\"x\"/>"),
            1 => ("annotator", "<annotator processor=\"extra\"/>"),
            2 => ("meta", "<meta id=\"extra\">x</meta>"),
            3 => ("submetadata", "<submetadata xml:id=\"extra\" type=\"native\"></submetadata>"),
            4 => ("annotations", "<annotations></annotations>"),
            5 => ("provenance", "<provenance/>"),
            6 => ("metadata", "<metadata type=\"native\"></metadata>"),
            7 => ("declaration", "<zork-annotation/>"),
            _ => ("declaration", "<pos-annotation set=\"extra\"/>"),
        };
        let inside = if inside.contains("zork") { "<event-annotation set=\"extra\"></event-annotation>" } else { inside };
        let fine = match name {
            "processor" => parent == "provenance" || parent == "processor",
            "annotator" => parent != "FoLiA" && !header(parent),
            "meta" => ["metadata", "submetadata", "processor"].contains(&parent.as_str()),
            "submetadata" | "annotations" | "provenance" => parent == "metadata",
            "metadata" => false,
            _ => parent == "annotations",
        };
        if fine {
            ctx.count("elements of the header that are fine", 1);
            parse(&put(inside))?;
        } else {
            refused(ctx, "an element of the header is where it does not belong", &put(inside)).map_err(|e| format!("<{}> in <{}>: {}", name, parent, e))?;
        }
    }
    if let Some((at, _)) = places.iter().find(|p| p.1 == "metadata") {
        refused(ctx, "a metadata field has no name", &format!("{}<meta>x</meta>{}", &x[..*at], &x[*at..]))?;
    }
    if let Some((at, _)) = places.iter().find(|p| p.1 != "FoLiA" && p.1 != "start" && p.1 != "end" && !header(&p.1)) {
        refused(ctx, "an annotator has no processor", &format!("{}<annotator/>{}", &x[..*at], &x[*at..]))?;
    }
    Ok(())
}

///Tags and text that are not well-formed
fn malformed(ctx: &mut Ctx, rng: &mut Rng, x: &str, t: &[(usize, usize, String, char)]) -> Result<(), String> {
    let body = x.find("</metadata>").unwrap_or(0);
    for _ in 0..if ctx.thorough() { 15 } else { 6 } {
        let e = &t[rng.below(t.len())];
        if e.3 != 'e' {
            let first = e.0 + 1 + e.2.len();
            let last = if e.3 == 'x' { e.1 - 2 } else { e.1 - 1 };
            let put = |at: usize, s: &str| format!("{}{}{}", &x[..at], s, &x[at..]);
            for at in [first, last] {
                refused(ctx, "an attribute has no value", &put(at, rng.pick(&[" xml:lang", " xml:lang=", " n", " xml:lang ", " n = "])))?;
                refused(ctx, "there is no space between attributes", &put(at, " xml:lang=\"a\"xml:space=\"b\""))?;
                refused(ctx, "the value of an attribute has no quotes", &put(at, rng.pick(&[" xml:lang=a", " n=1 "])))?;
                refused(ctx, "an attribute occurs twice", &put(at, " xml:lang=\"a\" xml:lang=\"a\""))?;
                refused(ctx, "there is something in a tag", &put(at, rng.pick(&[" \"x\"", " ?", " ,", " =\"x\""])))?;
                let fine = *rng.pick(&[" xml:lang=\"a\" xml:space='b' ", "\n\txml:lang = \"a\"\n xml:space\n=\n'b'", " ", "\n"]);
                parse(&put(at, if e.2 == "processor" { " \n" } else { fine }))?;
            }
            //two attributes without space, an attribute twice, a reference that means nothing
            let inner = &x[first..last];
            let mut ends: Vec<usize> = vec![];
            let mut open = false;
            for (i, c) in inner.char_indices() { if c == '"' { if open { ends.push(first + i); } open = !open; } }
            if ends.len() > 1 { let k = ends[rng.below(ends.len() - 1)] + 1; refused(ctx, "there is no space between attributes", &format!("{}{}", &x[..k], x[k..].trim_start()))?; }
            if e.2 != "FoLiA" && !ends.is_empty() {
                let k = rng.below(ends.len());
                let start = if k == 0 { first } else { ends[k - 1] + 1 };
                if !x[start..ends[k]].contains(':') || x[start..].trim_start().starts_with("xml:id") {
                    refused(ctx, "an attribute occurs twice", &format!("{}{}{}", &x[..last], &x[start..ends[k] + 1], &x[last..]))?;
                    for r in ["&nosuch;", "& ", "&", "&#xD800;", "&#x110000;", "&#0;", "&;"] { if rng.p(1, 3) { refused(ctx, "a reference means nothing", &put(ends[k], r))?; } }
                }
            }
        }
        //in the text, or where text might have been
        if e.0 > body && e.1 < x.rfind("</FoLiA>").unwrap() - 8 && e.2 != "text" && e.2 != "speech" {
            for r in ["&nosuch;", "& ", "&", "&#xD800;", "&#x110000;", "&#0;", "&;", "<", "<!", "<>", "</>", "<![CDATA[", "<!--", "<?"] {
                //(what is closed further on, or completed by what follows, is well-formed, or taken to be)
                let rest = &x[e.1..];
                if match r { "<!--" => rest.contains("-->"), "<?" => rest.contains("?>"), "<![CDATA[" => rest.contains("]]>"), "&" | "<" | "<!" => !rest.starts_with("<w") && !rest.starts_with("</"), _ => false } { continue; }
                if rng.p(1, 4) { refused(ctx, "the text is not well-formed", &format!("{}{}{}", &x[..e.1], r, rest))?; }
            }
        }
    }
    Ok(())
}

///The name of an attribute that FoLiA does not define on any element
///A name that is not one of FoLiA, but resembles the given one
fn near_tag(rng: &mut Rng, tag: &str) -> String {
    let (stem, suffix) = match tag.find('-') { Some(i) => (&tag[..i], &tag[i..]), None => (tag, "") };
    loop {
        let other = crate::spec::SPEC[rng.below(crate::spec::SPEC.len())].tag;
        let name = match rng.below(20) {
            0 => format!("{}{}", tag, rng.pick(&["s", "x", "1", "_", "-", ".", "\u{e9}", "-x", ".x", "-annotation", "annotation", "-layer", "-feat"])),
            1 => format!("{}{}", rng.pick(&["x", "_", "a", "\u{e9}", "x-", "folia-", "x.", "f."]), tag),
            2 => tag.to_uppercase(),
            3 => { let mut c = tag.chars(); c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default() }
            4 => tag[..tag.len() - 1].to_string(),
            5 => tag[1..].to_string(),
            6 => format!("{}{}", tag, tag),
            7 => format!("{}-{}", stem, rng.pick(&["layer", "annotations", "annotatio", "Annotation", "ANNOTATION", "annotation-", "annotation-x", "annotation-annotation", "x-annotation", "declaration", "set", ""])),
            8 => format!("{}{}", stem, rng.pick(&["_annotation", ".annotation", "annotation", "--annotation", "-.annotation", "s-annotation", "x-annotation", "_x-annotation"])),
            9 => format!("{}{}", stem.to_uppercase(), suffix),
            10 => format!("{}{}", &stem[..stem.len() - 1], suffix),
            11 => format!("{}{}", other, suffix),
            12 => format!("{}-{}", tag, other),
            13 => format!("{}{}", tag, other),
            14 => tag.replace('-', "_"),
            15 => tag.replace('-', ""),
            16 => tag.replace('-', "."),
            17 => { let c: Vec<char> = tag.chars().collect(); let i = rng.below(c.len()); c.iter().enumerate().filter(|x| x.0 != i).map(|x| *x.1).collect() }
            18 => tag.chars().rev().collect(),
            _ => { let mut c: Vec<char> = tag.chars().collect(); let i = rng.below(c.len()); c[i] = char::from(b'a' + rng.below(26) as u8); c.into_iter().collect() }
        };
        let known = ["FoLiA", "metadata", "annotations", "provenance", "submetadata", "meta", "processor", "annotator"].contains(&name.as_str()) || crate::spec::SPEC.iter().any(|s| s.tag == name) || crate::spec::ATYPES.iter().any(|a| decl_tag(a.0) == name);
        if known || !name.starts_with(|c: char| c.is_alphabetic() || c == '_') { continue; }
        return name;
    }
}

fn unknown_attribute(rng: &mut Rng) -> String {
    const KNOWN: &[&str] = &["set", "class", "processor", "subset", "annotator", "annotatortype", "confidence", "n", "datetime", "begintime", "endtime", "src", "speaker", "textclass", "metadata", "id", "space", "t", "type", "auth", "offset", "ref", "original", "linenr", "pagenr", "newpage", "tag", "format"];
    loop {
        let k = rng.pick(KNOWN).to_string();
        let name = match rng.below(16) {
            0 => rng.pick(&["bogus", "Class", "ID", "idref", "conf", "pos", "lemma", "xmlid", "xml", "xmlID", "xml.id", "xml-id", "xlink", "href", "lang", "version", "generator", "namespace", "url", "value", "data"]).to_string(),
            1 => { let a = rng.word(); format!("a{}", a.chars().filter(|c| c.is_alphanumeric()).collect::<String>()) }
            2 => format!("{}.{}", k, rng.below(3)),
            3 => format!("{}-{}", k, rng.pick(&["x", "data", "1", "id"])),
            4 => format!("{}_", k),
            5 => format!("_{}", k),
            6 => format!("data-{}", k),
            7 => format!("x.{}", k),
            8 => format!("{}{}", k, rng.below(10)),
            9 => k.to_uppercase(),
            10 => { let mut c = k.chars(); c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default() }
            11 => format!("{}s", k),
            12 => k[..k.len() - 1].to_string(),
            13 => format!("{}{}", k, rng.pick(KNOWN)),
            14 => format!("{}\u{e9}", k),
            _ => rng.pick(&["\u{e9}", "\u{6f22}\u{5b57}", "_", "a.b.c", "a-b", "A", "z", "x1", "folia", "folia.class", "_class", "class.", "class-", "xml_id", "annotation", "Set", "setname", "sets", "classes"]).to_string(),
        };
        if name.is_empty() || KNOWN.contains(&name.as_str()) || crate::gen::FEATTYPES.iter().any(|f| f.1 == name) || name.starts_with(|c: char| c.is_ascii_digit() || c == '-' || c == '.') { continue; }
        return name;
    }
}

fn descend_wref<'a>(rng: &mut Rng, e: &'a mut El) -> Option<&'a mut El> {
    fn count(e: &El) -> usize { (e.et == ElementType::WordReference) as usize + e.children().map(count).sum::<usize>() }
    fn nth<'a>(e: &'a mut El, n: &mut usize) -> Option<&'a mut El> {
        if e.et == ElementType::WordReference { if *n == 0 { return Some(e); } *n -= 1; }
        for i in e.items.iter_mut() { if let Item::El(c) = i { let k = count(c); if *n < k { return nth(c, n); } *n -= k; } }
        None
    }
    let k = count(e);
    if k == 0 { return None; }
    let mut n = rng.below(k);
    nth(e, &mut n)
}

const SMALL: &str = "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<FoLiA xmlns=\"http://ilk.uvt.nl/folia\" xmlns:xlink=\"http://www.w3.org/1999/xlink\" xml:id=\"doc\" version=\"2.1.0\">\n<metadata type=\"native\"><annotations><token-annotation set=\"s\"><annotator processor=\"p\"/></token-annotation></annotations><provenance><processor xml:id=\"p\" name=\"n\"><meta id=\"a\">b</meta></processor></provenance><meta id=\"k\">v</meta><submetadata xml:id=\"m\"><meta id=\"k\">v</meta></submetadata></metadata>\n<text xml:id=\"t\"><!-- c --><p xml:id=\"p1\"><s><w xml:id=\"w1\" class=\"c\"><t>a&amp;<![CDATA[b]]></t></w><entities><entity class=\"x\" set=\"y\"><wref id=\"w1\"/></entity></entities></s></p></text></FoLiA>";

fn f_every(ctx: &mut Ctx) -> Result<(), String> { parse(SMALL)?; truncations(ctx, SMALL, 1) }
fn f_empty(ctx: &mut Ctx) -> Result<(), String> {
    for x in ["", " ", "\n", "<", "<?xml version=\"1.0\"?>", "text", "<FoLiA/>", "<html/>", "<html></html>", "<!-- -->", "<FoLiA xmlns=\"http://ilk.uvt.nl/folia\"", "<FoLiA xmlns=\"http://ilk.uvt.nl/folia\" xml:id=\"x\">", "{\"a\": 1}"] { refused(ctx, "there is no document", x)?; }
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C06",
    rule: "Random valid documents are damaged: cut off at (nearly) every character, start or end tags removed, duplicated, renamed or swapped, and single faults of every listed kind planted at random places; each has to be refused. Distinct by the damaged text.",
    cases: (1500, 12000), case,
    fixed: &[("small document cut off everywhere", f_every), ("no document", f_empty)],
    ..BASE
};
