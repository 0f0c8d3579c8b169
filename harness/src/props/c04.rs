use super::*;
use crate::gen::*;
use crate::model::*;
use crate::xml as reader;

fn load(ctx: &mut Ctx, x: &str, file: bool) -> Result<Document, String> {
    if !file { return parse(x); }
    ctx.count("documents loaded from file", 1);
    let p = ctx.dir.join(format!("c04-{}.xml", std::process::id()));
    std::fs::write(&p, x).map_err(|e| format!("{}", e))?;
    let r = Document::from_file(p.to_str().unwrap(), DocumentProperties::default()).map_err(|e| format!("does not parse from file: {:?}", e));
    let _ = std::fs::remove_file(&p);
    if let Ok(d) = &r { eq("file of the document", d.filename(), p.to_str())?; }
    r
}

fn case(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    let m = if rng.p(1, 400) { large_doc(rng, true) } else { random_doc(rng) };
    let a = plain(&m);
    ctx.input(&a);
    let first = parse(&a)?;
    let mut want = snap::doc(&first)?;
    snap::drop_layout(&mut want);
    let n = want.elements();
    for _ in 0..if ctx.thorough() { 6 } else { 3 } {
        //one or two ways of spelling at a time, or anything at once
        let mut st = Style::random(rng);
        if rng.p(1, 3) {
            let mut one = Style::plain();
            one.rng = st.rng.clone();
            for _ in 0..rng.range(1, 2) {
                match rng.below(13) { 0 => one.quotes = true, 1 => one.attr_order = true, 2 => one.tag_space = true, 3 => one.empty = true, 4 => one.charrefs = true, 5 => one.cdata = true, 6 => one.prefix = true, 7 => one.xmldecl = true, 8 => one.pis = true, 9 => one.layout = true, 10 => one.header_order = true, 11 => one.header_comments = true, _ => { one.crlf = true; one.layout = true } }
            }
            st = one;
        }
        let b = write(&m, st);
        ctx.input(&format!("{}\n=== and\n{}", a, b));
        let file = rng.p(1, 4);
        let second = load(ctx, &b, file)?;
        let mut got = snap::doc(&second)?;
        snap::drop_layout(&mut got);
        want.same_content(&got)?;
        if want.keys != got.keys { return Err("elements have other keys".into()); }
        ctx.count("pairs of spellings compared", 1);
        ctx.eval(if n > 3 { Some(crate::rng::hash(&b)) } else { None });
        //the spelling is equivalent indeed
        if rng.p(1, 10) { let (x, y) = (reader::parse(&a), reader::parse(&b)); if x.is_err() || y.is_err() { return Err(format!("the spelling is not XML: {:?} {:?}", x.err(), y.err())); } }
    }
    if n > 10 { let i = ctx.input.clone(); ctx.sample(|| i); }
    Ok(())
}

fn same(ctx: &mut Ctx, a: &str, b: &str) -> Result<(), String> {
    ctx.input(&format!("{}\n=== and\n{}", a, b));
    let (mut x, mut y) = (snap::doc(&parse(a)?)?, snap::doc(&parse(b)?)?);
    snap::drop_layout(&mut x);
    snap::drop_layout(&mut y);
    ctx.eval(Some(crate::rng::hash(b)));
    x.same_content(&y)
}
fn f_header(ctx: &mut Ctx) -> Result<(), String> {
    let a = wrap("<pos-annotation set=\"a\"/><lemma-annotation set=\"b\"><annotator processor=\"p\"/></lemma-annotation>", "<provenance><processor xml:id=\"p\" name=\"n\"/><processor xml:id=\"q\" name=\"m\"><meta id=\"k\">v</meta></processor></provenance><meta id=\"x\">y</meta><meta id=\"e\"/><submetadata xml:id=\"sub\"/>", "<p/>");
    let b = wrap("<pos-annotation set=\"a\"></pos-annotation><lemma-annotation set=\"b\"><annotator processor=\"p\"></annotator></lemma-annotation>", "<provenance><processor xml:id=\"p\" name=\"n\"></processor><processor xml:id=\"q\" name=\"m\"><meta id=\"k\"><![CDATA[v]]></meta></processor></provenance><meta id=\"x\">&#121;</meta><meta id=\"e\"></meta><submetadata xml:id=\"sub\"></submetadata>", "<p></p>");
    same(ctx, &a, &b)
}
fn f_text(ctx: &mut Ctx) -> Result<(), String> {
    for (a, b) in [("a&lt;b", "a<![CDATA[<]]>b"), ("abc", "a<![CDATA[b]]>c"), ("a b", "a<![CDATA[ ]]>b"), ("a\nb", "a\r\nb"), ("a\nb", "a\rb"), (" a", "&#32;a"), (" ", "&#x20;"), (" ", "<![CDATA[ ]]>"), ("é", "&#xE9;"), ("a", "<![CDATA[]]>a"), ("ab", "a<?x y?>b"), ("\u{a0}", "&#160;"), ("]]&gt;", "<![CDATA[]]]]>&gt;")] {
        same(ctx, &wrap("", "", &format!("<p><t>{}</t></p>", a)), &wrap("", "", &format!("<p><t>{}</t></p>", b)))?;
        same(ctx, &wrap("", &format!("<meta id=\"k\">{}</meta>", a), "<p/>"), &wrap("", &format!("<meta id=\"k\">{}</meta>", b), "<p/>"))?;
    }
    for (a, b) in [("a b", "a\nb"), ("a b", "a\tb"), ("a b", "a\r\nb"), ("&amp;", "&#38;"), ("&#10;", "&#xA;"), ("é", "&#xe9;")] {
        same(ctx, &wrap("", "", &format!("<p n=\"{}\"/>", a)), &wrap("", "", &format!("<p n='{}' ></p>", b)))?;
    }
    Ok(())
}
fn f_blank(ctx: &mut Ctx) -> Result<(), String> {
    //only the blanks of XML are layout
    let a = wrap("", "", "<p><desc>&#xA0;</desc></p>");
    let b = wrap("", "", "<p><desc>\u{a0}</desc></p>");
    same(ctx, &a, &b)?;
    let doc = parse(&a)?;
    let s = snap::doc(&doc)?;
    if !s.evs.iter().any(|e| *e == snap::Ev::Text("\u{a0}".into())) { return Err("no-break space was lost".into()); }
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C04",
    rule: "A random document model is spelled in two or more ways that XML defines as equivalent (quotes, order of attributes, white space in tags, empty elements, character references, CDATA, processing instructions, prefixes, XML declaration, line ends, layout, order of the blocks of the header; from memory and from file); all have to parse to the same content with the same keys. Non-trivial: more than three elements; distinct by the alternative spelling.",
    cases: (20000, 800000), case,
    fixed: &[("header", f_header), ("text", f_text), ("blanks", f_blank)],
    assumptions: &["The order of the annotations, provenance and meta blocks within the metadata is not significant."],
    ..BASE
};
