use super::*;
use crate::gen::*;
use crate::hist::*;
use crate::model::*;

fn case(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    let kind = rng.below(3);
    let doc = match kind {
        0 => { let m = if rng.p(1, 150) { large_doc(rng, true) } else { random_doc(rng) }; let x = plain(&m); ctx.input(&x); ctx.count("documents parsed", 1); parse(&x)? }
        1 => {
            //built through the API, element by element
            let m = if rng.p(1, 150) { large_doc(rng, false) } else { buildable_doc(rng) };
            ctx.input(&plain(&m));
            ctx.count("documents built", 1);
            build_doc(&m)?
        }
        _ => {
            let mut o = Opts::new(rng);
            o.size = o.size.min(40);
            let mut h = Hist::start(rng, o)?;
            let w = Weights { bad: 1, orphan: 0, detach: 0, attach: 0, existing: 0, ..Weights::ALL };
            for _ in 0..rng.range(1, 30) { if let Err(e) = h.step(rng, &w) { ctx.input(&h.describe()); return Err(e); } }
            ctx.input(&h.describe());
            ctx.count("documents from histories of operations", 1);
            h.doc
        }
    };
    let indents: &[usize] = if ctx.thorough() { &[0, 1, 2, 3, 4, 8] } else { &[0, 2, 4] };
    let mut n = 0;
    for i in indents {
        let s = same_after_roundtrip(&doc, *i)?;
        n = s.elements();
        ctx.count("elements compared", n);
        ctx.eval(if n > 3 { Some(s.digest()) } else { None });
    }
    if n > 10 { let i = ctx.input.clone(); ctx.sample(|| i); }
    //and once more: the text is a fixpoint in content
    let x = xml(&doc, 0, indents[rng.below(indents.len())])?;
    same_after_roundtrip(&parse(&x)?, 0).map_err(|e| format!("second round trip: {}", e))?;
    Ok(())
}

fn bodytype_is_speech(m: &DocM) -> bool { m.body.et == ElementType::Speech }
///Makes the document of a model through the API
pub fn build_doc(m: &DocM) -> Result<Document, String> {
    let e = |e: FoliaError| format!("can not build document: {:?}", e);
    let bodytype = if bodytype_is_speech(m) { BodyType::Speech } else { BodyType::Text };
    let mut doc = Document::new(&m.id, DocumentProperties::default().with_bodytype(bodytype)).map_err(e)?;
    if doc.get_element(0).map(|e| e.elementtype()) != Some(if bodytype_is_speech(m) { ElementType::Speech } else { ElementType::Text }) { return Err("a new document does not have the body that was asked for".to_string()); }
    for p in m.procs.iter() { doc.add_processor(crate::api::processor(p)).map_err(e)?; }
    for d in m.decls.iter() {
        let k = doc.declare(d.at, &d.set, &d.alias, &d.format).map_err(e)?;
        for a in d.annotators.iter() {
            let p = doc.get_processor_key_by_id(a).ok_or("annotator")?;
            let decl = doc.get_mut_declaration(k).ok_or("declaration")?;
            if !decl.processors.contains(&p) { decl.processors.push(p); }
        }
    }
    let meta = |m: &MetaM| { let mut x = Metadata::default(); x.metadatatype = m.mtype.clone(); x.src = m.src.clone(); for (k, v) in m.data.iter() { x.data.insert(k.clone(), v.clone()); } x };
    doc.metadata = meta(&m.meta);
    for (id, s) in m.submeta.iter() { doc.submetadata.insert(id.clone(), meta(s)); }
    for item in m.body.items.iter() {
        if let Item::El(c) = item { doc.add_element_to(0, crate::api::build(&sans_shorthand(c))).map_err(e)?; }
    }
    Ok(doc)
}

///Shorthand for features only exists in XML
fn sans_shorthand(e: &El) -> El {
    let s = shorthands(e.et);
    let mut c = El { et: e.et, attrs: e.attrs.iter().filter(|a| !s.contains(&a.0.as_str()) || crate::snap::PLAINS.contains(&a.0.as_str())).cloned().collect(), items: vec![] };
    for (k, v) in e.attrs.iter() { if !c.attrs.iter().any(|a| a.0 == *k) { c.push(El::new(ElementType::Feature).with("subset", k).with("class", v)); } }
    for i in e.items.iter() { c.items.push(match i { Item::El(x) => Item::El(sans_shorthand(x)), i => i.clone() }); }
    c
}

fn text_of(x: &str, id: &str) -> Result<String, String> {
    let doc = parse(x)?;
    let e = doc.get_element_by_id(id).ok_or(format!("{} is gone", id))?;
    e.text(&TextParameters::new()).map_err(|e| format!("no text: {:?}", e))
}

fn f_whitespace(ctx: &mut Ctx) -> Result<(), String> {
    for t in ["a b", " a ", "a\n b\t", "  ", "a&#13;b", "a&#xA0; ", "a<t-style>  </t-style> b", "<t-style>x</t-style> <t-style>y</t-style>", " <t-str> x </t-str> "] {
        let x = wrap("", "", &format!("<p xml:id=\"p\"><t>{}</t></p>", t));
        ctx.input(&x);
        let want = text_of(&x, "p")?;
        for i in 0..9 {
            let y = xml(&parse(&x)?, 0, i)?;
            eq(&format!("text at indent {}", i), text_of(&y, "p")?, want.clone())?;
            same_after_roundtrip(&parse(&x)?, i)?;
        }
        ctx.eval(Some(crate::rng::hash(t)));
    }
    Ok(())
}
fn f_comments(ctx: &mut Ctx) -> Result<(), String> {
    let x = wrap("", "", "<!-- a < b & c > d \" ' -->\n<p><!--x--><t>a<!-- & -->b</t><!----></p>");
    ctx.input(&x);
    for i in 0..5 { same_after_roundtrip(&parse(&x)?, i)?; }
    ctx.eval(Some(1));
    Ok(())
}
fn f_layers(ctx: &mut Ctx) -> Result<(), String> {
    let x = wrap("<entity-annotation set=\"a\"/><entity-annotation set=\"b\"/>", "", "<s><w xml:id=\"w1\"><t>x</t></w><entities xml:id=\"l\" n=\"3\" src=\"y\"><entity set=\"b\" class=\"c\"><wref id=\"w1\" t=\"x\"/></entity></entities></s>");
    ctx.input(&x);
    let doc = parse(&x)?;
    let l = doc.get_element_by_id("l").ok_or("layer is gone")?;
    eq("set of layer", l.set(), Some("b"))?;
    for i in 0..5 { same_after_roundtrip(&doc, i)?; }
    ctx.eval(Some(2));
    Ok(())
}
fn f_processors(ctx: &mut Ctx) -> Result<(), String> {
    //elements that have a set, or a processor, and nothing else
    let x = wrap("<pos-annotation set=\"a\"><annotator processor=\"p1\"/></pos-annotation><pos-annotation set=\"b\"><annotator processor=\"p1\"/><annotator processor=\"p2\"/></pos-annotation><sentence-annotation/>",
        "<provenance><processor xml:id=\"p1\" name=\"x\"/><processor xml:id=\"p2\" name=\"y\"/></provenance>",
        "<s processor=\"p1\"/><w><pos set=\"a\"/><pos set=\"a\" class=\"N\"/><pos set=\"b\"/><pos set=\"b\" class=\"N\" processor=\"p2\"/><pos set=\"b\" processor=\"p1\"/><pos set=\"a\" class=\"N\" processor=\"p2\"/><t processor=\"p1\">x</t></w><caption processor=\"p2\"/>");
    ctx.input(&x);
    for i in 0..5 { same_after_roundtrip(&parse(&x)?, i)?; }
    ctx.eval(Some(3));
    Ok(())
}
fn f_attributes(ctx: &mut Ctx) -> Result<(), String> {
    let x = wrap("", "", "<s xml:id=\"s\" n=\"&lt;&gt;&amp;&quot;&apos;&#10;&#13;&#9; x\" confidence=\"0.1\" datetime=\"2011-01-31T23:59:59\" begintime=\"a\" endtime=\"b\" src=\"c\" speaker=\"d\" textclass=\"e\" metadata=\"f\" annotator=\"g\" annotatortype=\"manual\"><w space=\"no\" tag=\"a b\"><t offset=\"4294967295\" ref=\"x\">x</t></w><br linenr=\"70000\" pagenr=\"iv\" newpage=\"yes\"/><ref id=\"s\" type=\"t\" format=\"x\"/></s>");
    ctx.input(&x);
    for i in 0..5 { same_after_roundtrip(&parse(&x)?, i)?; }
    ctx.eval(Some(4));
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C01",
    rule: "A document (parsed from random XML, built through the API from a random model, or the result of a random history of operations) is serialised at several indentations and parsed back; snapshots of both, taken item by item through the public API, are compared event by event. Non-trivial: more than three elements; distinct by digest of the whole content.",
    cases: (24000, 1200000), case,
    fixed: &[("white space in text", f_whitespace), ("comments", f_comments), ("layers without set", f_layers), ("processors and sets of elements without class", f_processors), ("attributes", f_attributes)],
    assumptions: &["White space outside text content is layout.", "Annotations without processor in a declaration with a single annotator are that annotator's."],
    ..BASE
};
