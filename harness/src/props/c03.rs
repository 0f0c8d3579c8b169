use super::*;
use crate::gen::*;
use crate::hist::compare_nodes;
use crate::model::*;
use crate::shadow::Shadow;
use crate::view::View;

fn case(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    let m = if rng.p(1, 400) { large_doc(rng, true) } else { random_doc(rng) };
    let st = if rng.p(1, 2) { Style::plain() } else { Style::random(rng) };
    let x = write(&m, st);
    ctx.input(&x);
    let doc = parse(&x)?;
    let sh = Shadow::parse(&m);
    let v = View::of(&doc)?;
    compare_nodes(&sh, &v, crate::hist::ALL)?;
    v.check_forest()?;
    let s = snap::doc(&doc)?;
    sh.doc().same_content(&s).map_err(|e| format!("(first expected, then found) {}", e))?;
    for (id, i) in sh.ids.iter() { if doc.get_element_key_by_id(id) != Some(*i as ElementKey) { return Err(format!("identifier {:?} does not resolve to element {}", id, i)); } }
    let n = s.elements();
    ctx.count("elements compared", n);
    ctx.count("declarations compared", s.header.decls.len());
    ctx.count("links from words to spans compared", s.links.len());
    ctx.count("features from shorthand", sh.nodes.len() - m.body.count());
    ctx.eval(if n > 3 { Some(s.digest()) } else { None });
    if n > 10 { ctx.sample(|| x); }
    Ok(())
}

///Every element type, with every attribute it may have
fn f_types(ctx: &mut Ctx) -> Result<(), String> {
    for s in crate::spec::SPEC {
        if s.et == ElementType::ForeignData || s.et == ElementType::WordReference || s.et == ElementType::Feature || s.et == ElementType::Text || s.et == ElementType::Speech { continue; }
        let mut rng = Rng::new(7, s.et as u8 as u64);
        for round in 0..8 {
            let mut m = DocM::new();
            let mut e = El::new(s.et);
            if s.at.is_some() && round & 1 == 1 { e.set("class", "some class"); }
            if s.at.is_some() && round & 2 == 2 { e.set("set", "some/set"); }
            {
                let o = Opts { size: 1, free: false, header: false, spans: false, feats: false, shorthand: false, comments: false, wild: true, attrs: true, forward: false, depth: 1 };
                let mut g = Gen::new(&mut rng, o);
                for _ in 0..20 { g.attr(&mut e); }
                e.set("xml:id", "e");
            }
            if round & 4 == 4 { e.push_text("text"); }
            m.body.push(e);
            let x = plain(&m);
            ctx.input(&x);
            let doc = parse(&x)?;
            compare_nodes(&Shadow::parse(&m), &View::of(&doc)?, crate::hist::ALL)?;
            ctx.eval(Some(crate::rng::hash(&x)));
            ctx.count("element type and attribute combinations", 1);
        }
    }
    Ok(())
}
fn f_default_set(ctx: &mut Ctx) -> Result<(), String> {
    let x = wrap("<pos-annotation set=\"a\"/><lemma-annotation set=\"a\"/><lemma-annotation set=\"b\"/><sense-annotation/>", "", "<w><pos xml:id=\"p\" class=\"N\"/><lemma xml:id=\"l\" set=\"b\" class=\"x\"/><sense xml:id=\"s\" class=\"y\"/></w>");
    ctx.input(&x);
    let doc = parse(&x)?;
    eq("set of pos", doc.get_element_by_id("p").ok_or("gone")?.set(), Some("a"))?;
    eq("set of lemma", doc.get_element_by_id("l").ok_or("gone")?.set(), Some("b"))?;
    eq("set of sense", doc.get_element_by_id("s").ok_or("gone")?.set(), None)?;
    ctx.eval(Some(1));
    Ok(())
}
fn f_charrefs(ctx: &mut Ctx) -> Result<(), String> {
    let x = wrap("", "", "<p xml:id=\"p\" n=\"&#65;&#x42;&lt;&amp;amp;\"><t>&#x1F600;&amp;lt;&#10;<![CDATA[<&amp;>]]>&gt;</t></p>");
    ctx.input(&x);
    let doc = parse(&x)?;
    let p = doc.get_element_by_id("p").ok_or("gone")?;
    eq("text", p.text(&TextParameters::new()).ok(), Some("😀&lt;\n<&amp;>>".to_string()))?;
    eq("attribute", p.attrib(AttribType::N).map(|a| format!("{}", a)), Some("AB<&amp;".to_string()))?;
    ctx.eval(Some(2));
    Ok(())
}
fn f_forward(ctx: &mut Ctx) -> Result<(), String> {
    let x = wrap("", "", "<s><entities><entity xml:id=\"e\" class=\"c\"><wref id=\"w\"/><wref id=\"v\"/></entity></entities><w xml:id=\"v\"/><w xml:id=\"w\"/></s>");
    ctx.input(&x);
    let doc = parse(&x)?;
    let e = doc.get_element_key_by_id("e").ok_or("gone")?;
    for w in ["v", "w"] { let d = doc.get_element_by_id(w).ok_or("gone")?; eq("span of word", d.elementdata().get_data_at(0).cloned(), Some(DataType::SpanReference(e)))?; }
    ctx.eval(Some(4));
    Ok(())
}
fn f_tag(ctx: &mut Ctx) -> Result<(), String> {
    let x = wrap("", "", "<w xml:id=\"w\" tag=\"a b\" space=\"no\"/>");
    ctx.input(&x);
    let doc = parse(&x)?;
    let w = doc.get_element_by_id("w").ok_or("gone")?;
    eq("tag", w.attrib(AttribType::TAG).map(|a| format!("{}", a)), Some("a b".to_string()))?;
    eq("space", w.attrib(AttribType::SPACE).map(|a| format!("{}", a)), Some("no".to_string()))?;
    ctx.eval(Some(3));
    Ok(())
}

///The tables of types, groups and names
fn f_tables(ctx: &mut Ctx) -> Result<(), String> {
    use std::str::FromStr;
    let mut rng = Rng::new(3, 33);
    for s in crate::spec::SPEC {
        let into: &str = s.et.into();
        eq("tag", (s.et.as_str(), into, s.et.to_string()), (s.tag, s.tag, s.tag.to_string()))?;
        eq(&format!("type of <{}>", s.tag), ElementType::from_str(s.tag).ok(), Some(s.et))?;
        eq(&format!("annotation type of <{}>", s.tag), s.et.annotationtype(), s.at)?;
        for (g, members) in crate::spec::GROUPS {
            eq(&format!("<{}> in group {:?}", s.tag, g), (s.et.is_in_group(*g), g.contains(s.et)), (members.contains(&s.et), members.contains(&s.et)))?;
        }
        for _ in 0..60 {
            let t = rng.near(s.tag);
            let want = crate::spec::by_tag(&t).map(|s| s.et);
            eq(&format!("type of {:?}", t), ElementType::from_str(&t).ok(), want)?;
            ctx.count("names that are almost tags", 1);
        }
        ctx.count("element types", 1);
    }
    for (g, members) in crate::spec::GROUPS {
        let (mut a, mut b) = (g.elementtypes().to_vec(), members.to_vec());
        a.sort_by_key(|x| *x as u8); b.sort_by_key(|x| *x as u8);
        eq(&format!("members of {:?}", g), a, b)?;
    }
    for (at, tag) in crate::spec::ATYPES {
        let into: &str = (*at).into();
        let et: ElementType = (*at).into();
        eq("annotation type by name", AnnotationType::from_str(at.as_str()), Some(*at))?;
        eq("name of annotation type", (into, at.to_string()), (at.as_str(), at.as_str().to_string()))?;
        eq(&format!("element of {:?}", at), (at.elementtype(), et, at.as_element_str()), (crate::spec::by_tag(tag).unwrap().et, crate::spec::by_tag(tag).unwrap().et, *tag))?;
        eq(&format!("layer of {:?}", at), at.layertype(), crate::spec::layertype(*at))?;
        for _ in 0..20 {
            let t = rng.near(at.as_str());
            let want = crate::spec::ATYPES.iter().map(|x| x.0).find(|x| x.as_str() == t);
            eq(&format!("annotation type {:?}", t), AnnotationType::from_str(&t), want)?;
        }
        ctx.count("annotation types", 1);
    }
    let attributes: Vec<(Attribute, &str)> = vec![(Attribute::Id("v".into()), "xml:id"), (Attribute::Set("v".into()), "set"), (Attribute::Class("v".into()), "class"), (Attribute::Annotator("v".into()), "annotator"), (Attribute::AnnotatorType(ProcessorType::Manual), "annotatortype"), (Attribute::Confidence(0.5), "confidence"), (Attribute::N("v".into()), "n"), (Attribute::BeginTime("v".into()), "begintime"), (Attribute::EndTime("v".into()), "endtime"), (Attribute::Src("v".into()), "src"), (Attribute::Speaker("v".into()), "speaker"), (Attribute::Textclass("v".into()), "textclass"), (Attribute::Metadata("v".into()), "metadata"), (Attribute::Idref("v".into()), "id"), (Attribute::Space(false), "space"), (Attribute::Processor("v".into()), "processor"), (Attribute::Href("v".into()), "xlink:href"), (Attribute::Format("v".into()), "format"), (Attribute::XLinkType("v".into()), "xlink:type"), (Attribute::Subset("v".into()), "subset"), (Attribute::Text("v".into()), "t"), (Attribute::Type("v".into()), "type"), (Attribute::Offset(3), "offset"), (Attribute::Ref("v".into()), "ref"), (Attribute::Auth("v".into()), "auth"), (Attribute::Original("v".into()), "original"), (Attribute::LineNr(4), "linenr"), (Attribute::PageNr("v".into()), "pagenr"), (Attribute::NewPage(true), "newpage"), (Attribute::Tag("v".into()), "tag")];
    for (i, (a, name)) in attributes.iter().enumerate() {
        eq("name of attribute", a.attribtype().to_string(), name.to_string())?;
        let value = match a { Attribute::AnnotatorType(_) => "manual", Attribute::Confidence(_) => "0.5", Attribute::Space(_) => "no", Attribute::NewPage(_) => "yes", Attribute::Offset(_) => "3", Attribute::LineNr(_) => "4", _ => "v" };
        eq(&format!("value of {}", name), (a.to_string().ok(), format!("{}", a)), (Some(value.to_string()), value.to_string()))?;
        if let Ok(s) = a.as_str() { eq(&format!("value of {}", name), s, value)?; }
        for (j, (b, _)) in attributes.iter().enumerate() { eq(&format!("{:?} and {:?} of the same type", a, b), a.sametype(b), i == j)?; }
        eq("can be encoded", (a.encodable(), a.decodable()), (["set", "class", "processor", "subset"].contains(name), false))?;
        let mut e = ElementData::new(ElementType::Word).with_attribs(attributes.iter().map(|x| x.0.clone()).collect());
        eq(&format!("{} of an element", name), (e.has_attrib(a.attribtype()), e.attrib(a.attribtype()), e.clone().del_attrib(a.attribtype()).as_ref()), (true, Some(a), Some(a)))?;
        e.del_attrib(a.attribtype());
        eq(&format!("{} of an element without", name), (e.has_attrib(a.attribtype()), e.attrib(a.attribtype()), e.clone().del_attrib(a.attribtype())), (false, None, None))?;
        eq("other attributes", e.attribs().len(), attributes.len() - 1)?;
        e.set_attrib(a.clone());
        e.set_attrib(a.clone());
        eq("attributes", e.attribs().len(), attributes.len())?;
    }
    ctx.eval(Some(5));
    Ok(())
}

fn parses(x: &str) -> Option<Document> { parse(x).ok() }
fn lost_class() -> bool { parses(&wrap("", "", "<table><row class=\"c\" xml:id=\"r\"/></table>")).map_or(true, |d| d.get_element_by_id("r").map_or(true, |r| r.class().is_none())) }
fn lost_processor() -> bool { parses(&wrap("", "", "<s processor=\"nobody\" xml:id=\"r\"/>")).map_or(false, |d| d.get_element_by_id("r").map_or(true, |r| r.processor().is_none())) }
fn lost_foreign() -> bool { parses(&wrap("", "", "<foreign-data><x xmlns=\"urn:x\">text</x></foreign-data>")).map_or(false, |d| match xml(&d, 0, 0) { Ok(x) => !x.contains("text</x"), Err(_) => false }) }

pub static PROP: Prop = Prop {
    id: "C03",
    rule: "A random document model is written as XML (plainly or in a random spelling) and parsed; every element (key by key) and the whole document are compared with what a reference implementation of the format says the model contains. Non-trivial: more than three elements; distinct by digest of the content.",
    cases: (36000, 2000000), case,
    fixed: &[("every element type", f_types), ("default sets", f_default_set), ("character references", f_charrefs), ("tag", f_tag), ("references to later words", f_forward), ("tables", f_tables)],
    probes: &[
        ("class-without-annotation-type", "set and class of elements whose type has no annotation type (row, cell, caption, label, item, speech, ...) are dropped when parsing, e.g. <row class=\"c\"/>", lost_class),
        ("unknown-processor", "a processor attribute that refers to no processor in the provenance chain is dropped silently when parsing", lost_processor),
        ("gt-in-instruction", "a document with a processing instruction that contains a > is refused by the XML library", || parse(&wrap("", "", "<p/><?a b > c?>")).is_err()),
        ("references-in-namespace", "a document whose namespace is written with character references is refused, the XML library does not resolve them", || parse(&wrap("", "", "<p/>").replacen("http://ilk.uvt.nl/folia", "http:&#x2F;/ilk.uvt.nl/folia", 1)).is_err()),
        ("foreign-data", "the content of foreign-data is dropped when parsing", lost_foreign),
    ],
    ..BASE
};
