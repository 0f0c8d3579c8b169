use super::*;
use crate::gen::*;
use crate::model::*;
use crate::spec;

///Uses everything there is to read. Returns how much was seen.
pub fn exercise(doc: &Document, rng: &mut Rng, ctx: &mut Ctx) {
    let total = snap::doc_len(doc);
    let n = total.min(60);
    let some: Vec<ElementKey> = if total <= 60 { (0..total).map(|k| k as ElementKey).collect() } else { (0..n).map(|_| rng.below(total) as ElementKey).collect() };
    let mut seen = 0usize;
    for rec in [Recursion::Always, Recursion::No, Recursion::LimitedTo(vec![AcceptedData::AcceptElementGroup(ElementGroup::Structure)]), Recursion::ExceptFor(vec![AcceptedData::AcceptElementType(ElementType::Word)])] {
        for (sel, inclusive, spans) in [(Selector::all_data(), true, true), (Selector::elements(), false, true), (Selector::default(), true, false)] {
            if total > 0 { seen += doc.select_data_by_key(0, sel, rec.clone(), inclusive, spans).take(200_000).count(); }
        }
    }
    for k in some.iter() {
        let e = match doc.get_element(*k) { Some(e) => e, None => continue };
        for class in ["current", "original", "x"] { for retain in [false, true] { seen += e.text(&TextParameters::new().textclass(class).retaintokenisation(retain)).map_or(0, |t| t.len()); } }
        let _ = e.get_textdelimiter(false);
        let _ = (e.class().map(|s| s.len()), e.set().map(|s| s.len()), e.subset().map(|s| s.len()), e.processor().map(|s| s.len()), e.id().map(|s| s.len()), e.parent_key());
        for a in e.attribs().iter().filter(|a| !a.decodable() && **a != Attribute::Ignore) { seen += format!("{}", a).len(); }
        seen += doc.ancestors_by_key(*k, Selector::elements()).count();
        let _ = e.get_ancestor(ElementType::Sentence, Cmp::Any).map(|x| x.key());
        if let Some(at) = e.elementtype().annotationtype() {
            let _ = doc.get_default_set(at);
            let _ = doc.get_layer_key(*k, at, e.set());
            seen += e.get_annotations(at, Cmp::Any, Recursion::Always).count();
            let q = Query::select().element(Cmp::Is(e.elementtype())).set(match e.set() { Some(s) => Cmp::Is(s.to_string()), None => Cmp::None }).class(match e.class() { Some(s) => Cmp::Is(s.to_string()), None => Cmp::Any });
            if let Ok(s) = Selector::from_query(doc, &q) { seen += doc.select_by_key(0, s, Recursion::Always, true, true).take(100_000).count(); }
        }
        seen += e.get_features(Cmp::Any).count() + e.get_ancestors_by_group(ElementGroup::Structure, Cmp::Any).count();
        if rng.p(1, 4) { let _ = doc.xml(*k, rng.below(4)); }
    }
    if some.len() > 1 { let _ = doc.common_ancestors(Selector::elements(), &some[..some.len().min(4)]); }
    for d in doc.declarations() { if let Some(d) = d { seen += d.processors.len(); let _ = doc.get_declaration_by_id(&format!("{}/{}", d.annotationtype.as_str(), d.set.as_deref().unwrap_or(""))); } }
    for i in [0, 1, 3] { if let Ok(x) = doc.xml(0, i) { seen += x.len(); let _ = std::str::from_utf8(&x).expect("serialised as UTF-8"); } }
    ctx.count("results of reads observed", seen);
    ctx.count("elements of accepted documents used", total);
}

const TOKENS: &[&str] = &["<", ">", "/>", "</", "<!--", "-->", "--", "<![CDATA[", "]]>", "<?", "?>", "<?xml version=\"1.0\" encoding=\"utf-16\"?>", "<!DOCTYPE FoLiA [<!ENTITY a \"b\">]>", "&a;", "&", "&#0;", "&#x110000;", "&#xD800;", "&#99999999999;", "&#x;", "&;", "&nbsp;", "\"", "'", "=", " ", "\u{0}", "\u{fffe}", "\u{feff}", "\r", "xmlns=\"\"", "xmlns:a=\"b\"", "xmlns:xml=\"x\"", "xml:id=\"\"", "xml:id=\"doc\"", " id=\"\"", "set=\"x\"", "class=\"\"", "processor=\"p\"",
    "<wref/>", "<wref id=\"x\"/>", "<entities>", "<entity>", "</entity>", "</entities>", "<t>", "</t>", "<feat subset=\"a\" class=\"b\"/>", "<feat/>", "<correction><new/><original/></correction>", "<foreign-data>", "</foreign-data>", "<x xmlns=\"y\"/>", "<text>", "</text>", "<metadata>", "</metadata>", "<annotations>", "</annotations>", "<provenance>", "</provenance>", "<processor/>", "<processor xml:id=\"\">", "</processor>", "<meta>", "</meta>", "<meta id=\"\"/>", "<submetadata>", "</submetadata>", "<pos-annotation/>", "<-annotation/>", "<annotator/>", "<annotator processor=\"\"/>", "</FoLiA>", "<FoLiA>", "<w/>", "<alt>", "<altlayers/>", "confidence=\"NaN\"", "confidence=\"inf\"", "datetime=\"x\"", "offset=\"-1\"", "space=\"\"", "<layer/>", "<t-str/>", "<br/>", "<ph>", "<comment>", "<suggestion/>", "<x:y/>", "<:/>", "<a:b:c/>", "< w/>", "<1/>", "<é/>"];

pub fn mutate(rng: &mut Rng, x: &str) -> Vec<u8> {
    let mut b = x.as_bytes().to_vec();
    for _ in 0..match rng.below(6) { 0..=2 => 1, 3 | 4 => rng.range(2, 4), _ => rng.range(5, 30) } {
        let n = b.len().max(1);
        let i = rng.below(n).min(b.len());
        match rng.below(10) {
            0 => { if i < b.len() { b[i] = rng.next() as u8; } }
            1 => { if i < b.len() { b[i] = *rng.pick(b"<>&\"'/=! ?-[]x0\n"); } }
            2 => { b.insert(i, rng.next() as u8); }
            3 | 4 => { let t = rng.pick(TOKENS).as_bytes().to_vec(); b.splice(i..i, t); }
            5 => { let j = (i + rng.range(1, 40)).min(b.len()); b.drain(i..j); }
            6 => { let j = (i + rng.range(1, 60)).min(b.len()); let part = b[i..j].to_vec(); let k = rng.below(n).min(b.len()); b.splice(k..k, part); }
            7 => {
                //work on whole tags
                if let Ok(s) = std::str::from_utf8(&b) {
                    let t = super::c06::tags(s);
                    if !t.is_empty() {
                        let a = t[rng.below(t.len())].clone();
                        let c = t[rng.below(t.len())].clone();
                        match rng.below(5) {
                            0 => { b.drain(a.0..a.1); }
                            1 => { let part = b[a.0..a.1].to_vec(); b.splice(c.0..c.0, part); }
                            2 => { let part = b[a.0..a.1].to_vec(); b.splice(c.0..c.1, part); }
                            3 => { let (p, q) = (a.0.min(c.0), a.0.max(c.0)); let part = b[p..q].to_vec(); if part.len() < 3000 { b.splice(p..p, part); } }
                            _ => { let (p, q) = (a.0.min(c.0), a.0.max(c.0)); b.drain(p..q); }
                        }
                    }
                }
            }
            8 => {
                //another name, anywhere
                if let Ok(s) = std::str::from_utf8(&b) {
                    let from = *rng.pick(&["w", "s", "p", "t", "pos", "entity", "wref", "correction", "head", "class", "set", "xml:id", "id", "processor"]);
                    let to = spec::tag(rng.pick(spec::SPEC).et);
                    let to = if rng.p(1, 2) { to } else { *rng.pick(&["class", "set", "xml:id", "id", "subset", "space", "confidence", "n", "t", "text", "metadata"]) };
                    let y = if rng.p(1, 2) { s.replace(&format!("<{} ", from), &format!("<{} ", to)).replace(&format!("</{}>", from), &format!("</{}>", to)) } else { s.replace(&format!(" {}=", from), &format!(" {}=", to)) };
                    b = y.into_bytes();
                }
            }
            _ => { b.truncate(i); }
        }
    }
    b
}

fn case(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    let base = match rng.below(5) {
        0 => wild(rng),
        _ => { let mut o = Opts::new(rng); o.size = o.size.min(60); let m = Gen::new(rng, o).doc(); let st = if rng.p(1, 2) { Style::plain() } else { Style::random(rng) }; write(&m, st) }
    };
    for _ in 0..8 {
        let b = mutate(rng, &base);
        try_bytes(ctx, rng, &b)?;
    }
    ctx.sample(|| base);
    Ok(())
}

pub fn try_bytes(ctx: &mut Ctx, rng: &mut Rng, b: &[u8]) -> Result<(), String> {
    let lossy = String::from_utf8_lossy(b).to_string();
    ctx.input = crate::run::clip(&lossy, 6000);
    if ctx.verbose { eprintln!("--- input\n{}", lossy); }
    let mut got: Vec<Option<Document>> = vec![];
    if let Ok(s) = std::str::from_utf8(b) { got.push(crate::api::parse(s).ok()); ctx.count("inputs parsed from memory", 1); }
    if got.is_empty() || rng.p(1, 8) {
        let p = ctx.dir.join(format!("c05-{}.xml", std::process::id()));
        std::fs::write(&p, b).map_err(|e| format!("{}", e))?;
        got.push(Document::from_file(p.to_str().unwrap(), DocumentProperties::default()).ok());
        ctx.count("inputs parsed from file", 1);
    }
    for d in got.iter() {
        ctx.eval(Some(crate::rng::hash(&lossy)));
        match d { Some(d) => { ctx.count("inputs accepted", 1); exercise(d, rng, ctx); } None => ctx.count("inputs refused", 1) }
    }
    Ok(())
}

///FoLiA without any sense: any element anywhere, with any attribute
fn wild(rng: &mut Rng) -> String {
    fn el(rng: &mut Rng, out: &mut String, depth: usize, n: &mut usize) {
        let t = if rng.p(1, 3) { *rng.pick(&["w", "s", "t", "entity", "entities", "wref", "feat", "correction", "new", "original", "current", "t-str", "pos", "alt"]) } else { spec::tag(rng.pick(spec::SPEC).et) };
        out.push_str(&format!("<{}", t));
        *n += 1;
        if rng.p(1, 2) { out.push_str(&format!(" xml:id=\"i{}\"", n)); }
        if rng.p(1, 2) { out.push_str(&format!(" class=\"{}\"", rng.pick(&["a", "b", "", "current", "original"]))); }
        if rng.p(1, 4) { out.push_str(&format!(" set=\"{}\"", rng.pick(&["a", "b", "", "undefined"]))); }
        if rng.p(1, 5) { out.push_str(&format!(" subset=\"{}\"", rng.pick(&["a", "head", ""]))); }
        if rng.p(1, 6) { out.push_str(&format!(" processor=\"{}\"", rng.pick(&["p", "q", ""]))); }
        if t == "wref" || rng.p(1, 8) { out.push_str(&format!(" id=\"i{}\"", rng.below(*n + 1))); }
        if rng.p(1, 4) { out.push_str(&format!(" {}=\"{}\"", rng.pick(&["head", "actor", "level", "begindatetime", "enddatetime", "time", "value", "polarity", "mod", "font", "size", "style", "synset", "function"]), rng.pick(&["x", "", "2011-01-01T00:00:00"]))); }
        out.push('>');
        if rng.p(1, 3) { out.push_str(rng.pick(&["x", " ", "&amp;", "<!--c-->", "é"])); }
        if depth < 12 { for _ in 0..rng.below(4) { if *n < 60 { el(rng, out, depth + 1, n); } } }
        out.push_str(&format!("</{}>", t));
    }
    let mut body = String::new();
    let mut n = 0;
    for _ in 0..rng.range(1, 5) { el(rng, &mut body, 0, &mut n); }
    wrap("<pos-annotation set=\"a\"/><entity-annotation set=\"a\"><annotator processor=\"p\"/></entity-annotation>", "<provenance><processor xml:id=\"p\" name=\"x\"><processor xml:id=\"q\" name=\"y\"/></processor></provenance>", &body)
}

fn f_corpus(ctx: &mut Ctx) -> Result<(), String> {
    let mut rng = Rng::new(5, 5);
    let deep = |o: &str, c: &str, n: usize| format!("{}{}", o.repeat(n), c.repeat(n));
    let head = "<FoLiA xmlns=\"http://ilk.uvt.nl/folia\" xml:id=\"d\">";
    let mut v: Vec<String> = vec![
        "".into(), "\u{feff}".into(), "<".into(), "<FoLiA".into(), "<FoLiA>".into(), "<FoLiA/>".into(), head.into(), format!("{}</FoLiA>", head), format!("{}<text/></FoLiA>", head), format!("{}<metadata/></FoLiA>", head),
        format!("{}<metadata>", head), format!("{}<metadata><annotations>", head), format!("{}<metadata><annotations></metadata><text/></FoLiA>", head), format!("{}<metadata><provenance><processor></provenance></metadata><text/></FoLiA>", head),
        format!("{}<metadata><meta/></metadata><text/></FoLiA>", head), format!("{}<metadata><meta id=\"x\"><meta id=\"y\"/></meta></metadata><text/></FoLiA>", head), format!("{}<metadata><submetadata><meta/></submetadata></metadata><text/></FoLiA>", head),
        format!("{}<metadata><annotations><annotator processor=\"x\"/></annotations></metadata><text/></FoLiA>", head), format!("{}<metadata><annotations><pos-annotation><annotator/></pos-annotation></annotations></metadata><text/></FoLiA>", head),
        wrap("", "", &deep("<div>", "</div>", 3000)), wrap("", "", &format!("<t>{}</t>", deep("<t-style>", "</t-style>", 3000))), wrap("", "", &deep("<correction><new>", "</new></correction>", 1000)), wrap("", &deep("<processor xml:id=\"p\" name=\"x\">", "</processor>", 300), ""),
        wrap("", &format!("<provenance>{}</provenance>", (0..300).map(|i| format!("<processor xml:id=\"p{}\" name=\"x\">", i)).collect::<String>() + &"</processor>".repeat(300)), ""),
        wrap("", "", "<s><w xml:id=\"w\"/><entities><entity xml:id=\"e\" class=\"c\" set=\"s\"><wref id=\"w\"/><wref id=\"e\"/></entity></entities></s>"),
        wrap("", "", "<s xml:id=\"s\"><entities><entity set=\"s\" class=\"x\"><wref id=\"s\"/></entity></entities><w><t>x</t></w></s>"),
        wrap("", "", "<s xml:id=\"s\"><w xml:id=\"w\"><entity xml:id=\"e1\" class=\"c\"><wref id=\"w\"/></entity></w></s>"),
        wrap("", "", "<feat subset=\"x\" class=\"y\"/><p><feat subset=\"x\" class=\"y\"/></p>"), wrap("", "", "<wref id=\"doc.text\"/>"), wrap("", "", "<p/><![CDATA[x]]>&#x41;"), format!("<!DOCTYPE x [<!ENTITY e \"&e;&e;\">]>{}", wrap("", "", "<t>&e;</t>")),
        wrap("<pos-annotation set=\"a\"/><pos-annotation set=\"a\"/>", "", "<w><pos class=\"x\"/></w>"),
    ];
    for s in spec::SPEC { for t in spec::SPEC.iter().step_by(7) { v.push(wrap("", "", &format!("<{0} class=\"a\"><{1} class=\"b\"><t>x</t></{1}><{1}/>y</{0}>", s.tag, t.tag))); } }
    for x in v { try_bytes(ctx, &mut rng, x.as_bytes())?; }
    for b in [&b"\xff\xfe<\0F\0"[..], b"\xff", b"<FoLiA xmlns=\"http://ilk.uvt.nl/folia\" xml:id=\"\xff\"><text/></FoLiA>", b"<FoLiA xmlns=\"http://ilk.uvt.nl/folia\" xml:id=\"d\"><text><t>\xc3\x28</t></text></FoLiA>", b"<FoLiA xmlns=\"http://ilk.uvt.nl/folia\" xml:id=\"d\"><text><\xc3/></text></FoLiA>", b"<FoLiA xmlns=\"http://ilk.uvt.nl/folia\" xml:id=\"d\"><!--\xc3--><text/></FoLiA>"] { try_bytes(ctx, &mut rng, b)?; }
    //files that can not be read
    for f in ["/nonexistent/file", "/", ""] { if Document::from_file(f, DocumentProperties::default()).is_ok() { return Err(format!("{:?} was read", f)); } }
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C05",
    rule: "Random documents, and senseless ones, are damaged by byte, token and tag level mutations, and parsed from memory or (also when not UTF-8) from file, in a separate process watched for crashes and for endless loops (by its CPU time); whatever is accepted is traversed, queried, asked for its text and serialised. Distinct by input.",
    cases: (48000, 1600000), case,
    fixed: &[("corpus", f_corpus)],
    stack: 8 << 20,
    ..BASE
};
