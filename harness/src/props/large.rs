//! C23: large documents under a small stack
use super::*;
fn k(i: usize) -> ElementKey { i as ElementKey }

const STACK: usize = 256 << 10;

///Runs in a thread with little stack; overflowing it ends the process, which is what is reported
fn small<T: Send + 'static>(f: impl FnOnce() -> Result<T, String> + Send + 'static) -> Result<T, String> {
    std::thread::Builder::new().stack_size(STACK).spawn(f).map_err(|e| e.to_string())?.join().map_err(|_| "panic in thread".to_string())?
}

///A document of which everything is known beforehand
struct Big {
    name: &'static str,
    xml: String,
    ///all elements, with the root
    elements: usize,
    words: usize,
    ///(identifier, number of ancestors) of some element
    deepest: (String, usize),
    ///number of spans that refer to the word "w0"
    referred: usize,
    ///number of references to other words
    others: usize,
    text: Option<String>,
    comments: usize,
    features: usize,
    shallow: bool,
}

fn big(shape: usize, n: usize) -> Big {
    use std::fmt::Write;
    let mut x = String::with_capacity(n * 50);
    let mut b = Big { name: "", xml: String::new(), elements: 1, words: 0, deepest: ("w0".into(), 0), referred: 0, others: 0, text: None, comments: 0, features: 0, shallow: true };
    match shape {
        0 => {
            b.name = "words in a sentence";
            x += "<s xml:id=\"s\">";
            for i in 0..n { write!(x, "<w xml:id=\"w{}\"><t>w{}</t></w>", i, i).unwrap(); }
            x += "</s>";
            b.elements += 1 + 2 * n;
            b.words = n;
            b.deepest = (format!("w{}", n - 1), 2);
            b.text = Some((0..n).map(|i| format!("w{}", i)).collect::<Vec<_>>().join(" "));
        }
        1 => {
            b.name = "comments";
            x += "<s xml:id=\"s\"><w xml:id=\"w0\"><t>x</t></w>";
            for _ in 0..n { x += "<!--c-->"; }
            x += "<w xml:id=\"w1\"><t>y</t></w></s>";
            b.elements += 5;
            b.words = 2;
            b.comments = n;
            b.deepest = ("w1".into(), 2);
            b.text = Some("x y".into());
        }
        2 => {
            b.name = "divisions in each other";
            for i in 0..n { write!(x, "<div xml:id=\"d{}\">", i).unwrap(); }
            x += "<s xml:id=\"s\"><w xml:id=\"w0\"><t>x</t></w></s>";
            for _ in 0..n { x += "</div>"; }
            b.elements += n + 3;
            b.words = 1;
            b.deepest = ("w0".into(), n + 2);
            b.shallow = false;
        }
        3 => {
            b.name = "spans over the same word";
            x += "<s xml:id=\"s\"><w xml:id=\"w0\"><t>x</t></w><w xml:id=\"w1\"><t>y</t></w><entities set=\"e\">";
            for i in 0..n { write!(x, "<entity xml:id=\"e{}\" set=\"e\" class=\"c\"><wref id=\"w0\"/></entity>", i).unwrap(); }
            x += "</entities></s>";
            b.elements += 6 + 2 * n;
            b.words = 2;
            b.referred = n;
            b.deepest = (format!("e{}", n - 1), 3);
            b.text = Some("x y".into());
        }
        4 => {
            b.name = "features of one annotation";
            x += "<s xml:id=\"s\"><w xml:id=\"w0\"><t>x</t><pos xml:id=\"p\" set=\"p\" class=\"N\">";
            for i in 0..n { write!(x, "<feat subset=\"s{}\" class=\"c{}\"/>", i % 10, i).unwrap(); }
            x += "</pos></w></s>";
            b.elements += 4 + n;
            b.words = 1;
            b.features = n;
            b.deepest = ("p".into(), 3);
            b.text = Some("x".into());
        }
        5 => {
            b.name = "divisions in each other, with words";
            for i in 0..n { write!(x, "<div xml:id=\"d{}\"><w><t>x</t></w><!--c-->", i).unwrap(); }
            x += "<w xml:id=\"w0\"><t>x</t></w>";
            for _ in 0..n { x += "<w><t>y</t></w></div>"; }
            b.elements += 5 * n + 2;
            b.words = 2 * n + 1;
            b.comments = n;
            b.deepest = ("w0".into(), n + 1);
            b.shallow = false;
        }
        6 => {
            b.name = "annotated words in paragraphs";
            let m = (n as f64).sqrt() as usize;
            for p in 0..m {
                write!(x, "<p xml:id=\"p{}\">", p).unwrap();
                for i in 0..m { write!(x, "<w xml:id=\"w{}\"><t>x</t><pos set=\"p\" class=\"c{}\"/><lemma set=\"l\" class=\"x\"/></w>", p * m + i, i % 50).unwrap(); }
                x += "</p>";
            }
            b.elements += m + 4 * m * m;
            b.words = m * m;
            b.deepest = (format!("w{}", m * m - 1), 2);
            b.text = Some(vec![vec!["x"; m].join(" "); m].join("\n\n"));
        }
        7 => {
            b.name = "markup in text";
            x += "<s xml:id=\"s\"><t xml:id=\"t\">";
            for _ in 0..n { x += "<t-style>a</t-style>b"; }
            x += "</t></s><w xml:id=\"w0\"/>";
            b.elements += 3 + n;
            b.words = 1;
            b.deepest = ("t".into(), 2);
            b.text = Some("ab".repeat(n));
        }
        8 => {
            b.name = "gaps and alternatives";
            x += "<s xml:id=\"s\"><w xml:id=\"w0\"><t>x</t>";
            for _ in 0..n { x += "<alt><pos set=\"p\" class=\"c\"/></alt>"; }
            x += "</w>";
            for _ in 0..n { x += "<gap/>"; }
            x += "</s>";
            b.elements += 3 + 3 * n;
            b.words = 1;
            b.deepest = ("w0".into(), 2);
            b.text = Some("x".into());
        }
        9 => {
            b.name = "empty layers and empty elements";
            x += "<s xml:id=\"s\"><w xml:id=\"w0\"><t>x</t></w>";
            for i in 0..n { x += ["<entities set=\"a\"/>", "<chunking set=\"b\"/>", "<br/>", "<note/>"][i % 4]; }
            x += "</s>";
            b.elements += 3 + n;
            b.words = 1;
            b.deepest = ("w0".into(), 2);
        }
        10 => {
            b.name = "corrections in each other";
            x += "<w xml:id=\"w0\">";
            for _ in 0..n { x += "<correction><new>"; }
            x += "<t xml:id=\"t\">x</t>";
            for _ in 0..n { x += "</new></correction>"; }
            x += "</w>";
            b.elements += 2 + 2 * n;
            b.words = 1;
            b.deepest = ("t".into(), 2 * n + 2);
            b.shallow = false;
        }
        12 => {
            b.name = "spans far apart";
            x += "<s xml:id=\"s\"><w xml:id=\"w0\"><t>x</t></w><w xml:id=\"w1\"><t>y</t></w><entities set=\"e\"><entity xml:id=\"e0\" set=\"e\" class=\"c\"><wref id=\"w0\"/></entity></entities></s>";
            for i in 0..n { x += ["<p/>", "<gap/>", "<div><p/></div>"][i % 3]; }
            x += "<s><entities set=\"e\"><entity xml:id=\"e1\" set=\"e\" class=\"c\"><wref id=\"w0\"/></entity></entities></s>";
            b.elements += 5 + 3 + n + n / 3 + 4;
            b.words = 2;
            b.referred = 2;
            b.deepest = ("e1".into(), 3);
            b.text = Some("x y".into());
        }
        13 => {
            b.name = "words far from their spans";
            x += "<s xml:id=\"s\"><w xml:id=\"w0\"><t>x</t></w><entities set=\"e\"><entity xml:id=\"e0\" set=\"e\" class=\"c\"><wref id=\"w0\"/></entity></entities></s>";
            for i in 0..n { write!(x, "<w xml:id=\"v{}\"/>", i).unwrap(); }
            x += "<s><entities set=\"e\">";
            for i in 0..n / 10 { write!(x, "<entity xml:id=\"f{}\" set=\"e\" class=\"c\"><wref id=\"v{}\"/></entity>", i, n - 1 - 7 * i).unwrap(); }
            x += "<entity xml:id=\"e1\" set=\"e\" class=\"c\"><wref id=\"w0\"/></entity></entities></s>";
            b.elements += 1 + 2 + 3 + n + 2 + 2 * (n / 10) + 2;
            b.words = 1 + n;
            b.referred = 2;
            b.others = n / 10;
            b.deepest = ("e1".into(), 3);
            b.text = Some("x".into());
        }
        _ => {
            b.name = "spans in each other";
            x += "<s xml:id=\"s\"><w xml:id=\"w0\"><t>x</t></w><syntax set=\"y\">";
            for i in 0..n { write!(x, "<su xml:id=\"u{}\" set=\"y\" class=\"c\">", i).unwrap(); }
            x += "<wref id=\"w0\"/>";
            for _ in 0..n { x += "</su>"; }
            x += "</syntax></s>";
            b.elements += 5 + n;
            b.words = 1;
            b.referred = 1;
            b.deepest = (format!("u{}", n - 1), n + 2);
            b.shallow = false;
        }
    }
    b.xml = wrap("", "", &x);
    b
}
const SHAPES: usize = 14;

///What is looked at, to be counted
#[derive(Default)]
struct Seen { items: usize, serialised: usize }

fn use_all(b: &Big, doc: &mut Document) -> Result<Seen, String> {
    let mut seen = Seen::default();
    let total = snap::doc_len(doc);
    eq("elements", total, b.elements)?;
    let all = Recursion::Always;
    //everything, and next to nothing
    for (what, sel, want) in [
        ("all elements and references to spans", Selector::elements(), b.elements + b.referred + b.others),
        ("words", Selector::elements().element(Cmp::Is(ElementType::Word)), b.words),
        ("nothing (type)", Selector::elements().element(Cmp::Is(ElementType::Quote)), 0),
        ("nothing (set)", Selector::from_query(doc, &Query::select().element(Cmp::Is(ElementType::Word)).set(Cmp::Is("unknown".to_string()))).unwrap_or(Selector::elements().element(Cmp::Is(ElementType::Quote))), 0),
        ("features", Selector::elements().element(Cmp::Is(ElementType::Feature)), b.features),
        ("events", Selector::elements().elementgroup(Cmp::Is(ElementGroup::Structure)).element(Cmp::Is(ElementType::Event)), 0),
    ] {
        for inclusive in [true, false] {
            let got = doc.select_by_key(0, sel.clone(), all.clone(), inclusive, false).count();
            let want = if !inclusive && what.starts_with("all elements") { want - 1 } else { want };
            eq(&format!("{} (inclusive {})", what, inclusive), got, want)?;
            seen.items += got;
        }
    }
    let n = doc.select_data_by_key(0, Selector::all_data(), all.clone(), true, false).filter(|i| matches!(i.data, DataType::Comment(_))).count();
    eq("comments", n, b.comments)?;
    seen.items += doc.select_data_by_key(0, Selector::all_data(), all.clone(), true, true).take(2_000_000).count();
    for rec in [Recursion::No, Recursion::ExceptFor(vec![AcceptedData::AcceptElementType(ElementType::Word)]), Recursion::LimitedTo(vec![AcceptedData::AcceptElementGroup(ElementGroup::Structure)])] {
        for sel in [Selector::elements().element(Cmp::Is(ElementType::Quote)), Selector::elements()] { seen.items += doc.select_by_key(0, sel, rec.clone(), false, true).count(); }
    }
    //upwards
    let e = doc.get_element_by_id(&b.deepest.0).ok_or("the deepest element is gone")?;
    let key = e.key().ok_or("no key")?;
    eq("ancestors", doc.ancestors_by_key(key, Selector::elements()).count(), b.deepest.1)?;
    eq("ancestors that do not exist", doc.ancestors_by_key(key, Selector::elements().element(Cmp::Is(ElementType::Quote))).count(), 0)?;
    if e.get_ancestor(ElementType::Quote, Cmp::Any).is_some() { return Err("there is a quote above it".into()); }
    eq("root", e.get_ancestor(ElementType::Text, Cmp::Any).and_then(|r| r.key()), Some(0))?;
    eq("common ancestors", doc.common_ancestors(Selector::elements(), &[key, key]).len().max(1) - 1 <= b.deepest.1, true)?;
    //from a word
    if let Some(w) = doc.get_element_by_id("w0") {
        eq("spans that refer to the word", w.get_annotations(AnnotationType::ENTITY, Cmp::Any, all.clone()).count() + w.get_annotations(AnnotationType::SYNTAX, Cmp::Any, all.clone()).count(), if b.name == "spans in each other" { 1 } else { b.referred })?;
        if let Some(p) = doc.get_element_by_id("p") {
            eq("features", p.get_features(Cmp::Any).count(), b.features)?;
            eq("features of a subset", p.get_features(Cmp::Is("s3".to_string())).count(), (b.features + 6) / 10)?;
            eq("features of no subset", p.get_features(Cmp::Is("other".to_string())).count(), 0)?;
        }
    }
    //text
    if b.shallow {
        if let Some(t) = &b.text {
            let got = doc.text(0, &TextParameters::default()).map_err(|e| format!("text: {:?}", e))?;
            if got != *t { return Err(format!("text is {} bytes, {:?}...; should be {} bytes", got.len(), got.chars().take(50).collect::<String>(), t.len())); }
        }
    }
    //and back
    for i in [0, 2] {
        if i > 0 && b.deepest.1 > 3000 { continue; } //lines would be as long as it is deep
        let x = xml(doc, 0, i)?;
        seen.serialised += x.len();
        let back = parse(&x)?;
        eq("elements after a round trip", snap::doc_len(&back), total)?;
        let got = back.select_by_key(0, Selector::elements().element(Cmp::Is(ElementType::Word)), all.clone(), true, false).count();
        eq("words after a round trip", got, b.words)?;
        if xml(&back, 0, i)? != x { return Err("serialised differently after a round trip".into()); }
    }
    //adding at the bottom and at the top
    let bottom = doc.get_element_key_by_id(&b.deepest.0).ok_or("gone")?;
    let before = snap::doc_len(doc);
    for (n, p) in [(0, bottom), (1, k(0))] {
        let d = doc.add_element_to(p, ElementData::new(ElementType::Comment).with(DataType::Text("added".into())).with_attrib(Attribute::Id(format!("new{}", n)))).map_err(|e| format!("add: {:?}", e))?;
        eq("key of a new element", d as usize, before + n)?;
        eq("ancestors of the new element", doc.ancestors_by_key(d, Selector::elements()).count(), if n == 0 { b.deepest.1 + 1 } else { 1 })?;
    }
    let w = doc.get_element_key_by_id("w0").ok_or("gone")?;
    doc.annotate(w, ElementData::new(ElementType::LemmaAnnotation).with_attrib(Attribute::Set("new".into())).with_attrib(Attribute::Class("c".into()))).map_err(|e| format!("annotate: {:?}", e))?;
    if b.shallow || b.name != "corrections in each other" {
        let s = doc.annotate_span(ElementData::new(ElementType::Chunk).with_attrib(Attribute::Set("new".into())).with_attrib(Attribute::Class("c".into())).with_span(&["w0"]));
        s.map_err(|e| format!("annotate span: {:?}", e))?;
    }
    Ok(seen)
}

fn shape(ctx: &mut Ctx, s: usize, n: usize) -> Result<(), String> {
    let b = big(s, n);
    let (name, elements) = (b.name, b.elements);
    ctx.input(&format!("{} times: {}\n{}...", n, name, b.xml.chars().take(400).collect::<String>()));
    let seen = small(move || { let mut doc = parse(&b.xml)?; use_all(&b, &mut doc) }).map_err(|e| format!("{} ({} times): {}", name, n, e))?;
    ctx.count("elements in documents", elements);
    ctx.count("items selected", seen.items);
    ctx.count("bytes serialised", seen.serialised);
    ctx.eval(Some(crate::rng::hash(&format!("{} {}", s, n))));
    ctx.sample(|| format!("{}: {} elements, {} items selected, {} bytes serialised", name, elements, seen.items, seen.serialised));
    Ok(())
}

///Made by adding one element after another
fn built(ctx: &mut Ctx, n: usize) -> Result<(), String> {
    ctx.input(&format!("{} words added one by one", n));
    small(move || {
        let e = |e: FoliaError| format!("{:?}", e);
        let mut doc = Document::new("d", DocumentProperties::default()).map_err(e)?;
        let s = doc.add_element_to(0, ElementData::new(ElementType::Sentence).with_attrib(Attribute::Id("s".into()))).map_err(e)?;
        for i in 0..n {
            let w = doc.annotate(s, ElementData::new(ElementType::Word).with_attrib(Attribute::Id(format!("w{}", i)))).map_err(e)?;
            if i % 2 == 0 { doc.add_element_to(w, ElementData::new(ElementType::TextContent).with(DataType::Text(format!("{}", i)))).map_err(e)?; } else { doc.annotate(w, ElementData::new(ElementType::PosAnnotation).with_attrib(Attribute::Set("p".into())).with_attrib(Attribute::Class(format!("c{}", i % 100)))).map_err(e)?; }
        }
        eq("elements", snap::doc_len(&doc), 2 + 2 * n)?;
        let sentence = doc.get_element(s).ok_or("gone")?;
        eq("words", sentence.get_elements(ElementType::Word, Cmp::Any, Recursion::No).count(), n)?;
        eq("annotations", sentence.get_annotations(AnnotationType::POS, Cmp::Is("p".to_string()), Recursion::Always).count(), n / 2)?;
        eq("no annotations", sentence.get_annotations(AnnotationType::LEMMA, Cmp::Any, Recursion::Always).count(), 0)?;
        let t = sentence.text(&TextParameters::default()).map_err(e)?;
        eq("text", t == (0..n).step_by(2).map(|i| i.to_string()).collect::<Vec<_>>().join(" "), true)?;
        //a chain of divisions, each added to the one before
        let mut p = 0;
        for i in 0..n / 20 { p = doc.annotate(p, ElementData::new(ElementType::Division).with_attrib(Attribute::Id(format!("d{}", i)))).map_err(e)?; }
        eq("ancestors", doc.ancestors_by_key(p, Selector::elements()).count(), n / 20)?;
        //moved to the bottom of it
        doc.attach_element(p, s).map_err(e)?;
        eq("ancestors of a word", doc.ancestors_by_key(doc.get_element_key_by_id("w0").ok_or("gone")?, Selector::elements()).count(), n / 20 + 2)?;
        let back = parse(&xml(&doc, 0, 0)?)?;
        eq("elements after a round trip", snap::doc_len(&back), 2 + 2 * n + n / 20)?;
        Ok(())
    })?;
    ctx.count("elements added one by one", 2 * n);
    ctx.eval(Some(n as u64));
    Ok(())
}

const WIDE: usize = 120_000;
const DEEP: usize = 40_000;
fn size(s: usize, thorough: bool) -> usize { let f = if thorough { 3 } else { 1 }; f * match s { 2 | 5 | 10 | 11 => DEEP, 3 | 4 | 8 => WIDE / 2, _ => WIDE } }
macro_rules! shapes { ($($f:ident $n:expr),*) => { $(fn $f(ctx: &mut Ctx) -> Result<(), String> { let n = size($n, ctx.thorough()); shape(ctx, $n, n) })* } }
shapes!(s0 0, s1 1, s2 2, s3 3, s4 4, s5 5, s6 6, s7 7, s8 8, s9 9, s10 10, s11 11, s12 12, s13 13);
fn f_built(ctx: &mut Ctx) -> Result<(), String> { let n = if ctx.thorough() { 100_000 } else { 30_000 }; built(ctx, n) }

fn case(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    let n = match rng.below(3) { 0 => rng.range(1, 40), 1 => rng.range(50, 3000), _ => rng.range(3000, 20000) };
    match rng.below(SHAPES + 1) { s if s < SHAPES => shape(ctx, s, n), _ => built(ctx, n) }
}

pub static C23: Prop = Prop {
    id: "C23",
    rule: "Documents of up to several hundred thousand elements in fourteen shapes (wide; nested; many comments, features, spans on one word, alternatives, empty elements, markup in text) are parsed, selected from (all, words, nothing), walked upwards, turned into text, serialised, parsed again, added to and annotated, in a thread with a stack of 256 KB and a library compiled without optimisation; all numbers are known from the way the document was made. Others are made by adding elements one at a time. An overflow ends the process, which is the violation, as is taking more than 90 s. Distinct: shape and size.",
    cases: (60, 600), case,
    fixed: &[("words", s0), ("comments", s1), ("nested", s2), ("spans", s3), ("features", s4), ("nested with words", s5), ("paragraphs", s6), ("markup", s7), ("alternatives", s8), ("empty", s9), ("corrections", s10), ("nested spans", s11), ("spans far apart", s12), ("spans far from words", s13), ("built", f_built)],
    assumptions: &["A depth of nesting that only text extraction or adding nested elements at once has to go through is not part of the property."],
    ..BASE
};
