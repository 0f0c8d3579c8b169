//! Properties checked along histories of operations: the tree, identifiers, span annotation,
//! vocabularies, declarations, attribution, failed operations and features.
use super::*;
use crate::api;
use crate::hist::*;
use crate::model::*;
use crate::snap::Data;
use crate::spec::*;
use crate::view::*;

fn plain(o: &mut crate::gen::Opts) { o.depth = o.depth.min(9); }
fn k(i: usize) -> ElementKey { i as ElementKey }
fn data<'a>(doc: &'a Document, i: usize) -> Result<&'a ElementData, String> { <Document as Store<ElementData, ElementKey>>::get(doc, k(i)).ok_or(format!("element {} is gone", i)) }
fn fe(e: FoliaError) -> String { format!("{:?}", e) }
fn el(t: ElementType) -> ElementData { ElementData::new(t) }
fn id(s: &str) -> Attribute { Attribute::Id(s.to_string()) }
fn st(s: &str) -> Attribute { Attribute::Set(s.to_string()) }
fn cl(s: &str) -> Attribute { Attribute::Class(s.to_string()) }
fn fresh() -> Result<Document, String> { Document::new("doc", DocumentProperties::default()).map_err(fe) }
fn kids(doc: &Document, key: ElementKey) -> Vec<ElementKey> { let d = data(doc, key as usize).expect("element"); (0..).map_while(|i| d.get_data_at(i)).filter_map(|d| if let DataType::Element(k) = d { Some(*k) } else { None }).collect() }

// ---------------------------------------------------------------- C07

fn tree_extra(ctx: &mut Ctx, h: &Hist, v: &View, rng: &mut Rng) -> Result<(), String> {
    //what elements say of themselves, and where they are
    for _ in 0..12 {
        let i = rng.below(v.n.len());
        let e = h.doc.get_element(k(i)).ok_or("gone")?;
        eq(&format!("key of element {}", i), e.key(), Some(k(i)))?;
        eq(&format!("parent of element {}", i), e.get_parent().and_then(|p| p.key()), v.n[i].parent.map(k))?;
        let at = v.n[i].parent.and_then(|p| v.n[p].items.iter().position(|x| *x == VItem::El(i)));
        eq(&format!("index of element {}", i), e.get_index(), at)?;
        //an element is itself, whichever way it was found
        let j = rng.below(v.n.len());
        eq(&format!("whether elements {} and {} are the same", i, j), e == h.doc.get_element(k(j)).ok_or("gone")?, i == j)?;
        if let Some(p) = e.get_parent() { eq("child by index", at.and_then(|at| data(&h.doc, p.key().unwrap_or(0) as usize).ok().and_then(|d| d.get_data_at(at).cloned())), Some(DataType::Element(k(i))))?; }
        ctx.count("positions checked", 1);
    }
    Ok(())
}
const TREE_PLAN: Plan = Plan { weights: Weights { attach: 18, detach: 6, bad: 6, existing: 4, orphan: 3, ..Weights::ALL }, aspects: TREE, steps: (5, 40), opts: plain, extra: tree_extra, roundtrip: false };
fn c07(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> { run(ctx, rng, &TREE_PLAN) }

fn forest(doc: &Document) -> Result<View, String> { let v = View::of(doc)?; v.check_forest()?; Ok(v) }

fn f_cycle(ctx: &mut Ctx) -> Result<(), String> {
    let mut doc = fresh()?;
    let a = doc.add_element_to(0, el(ElementType::Division).with_attrib(id("a"))).map_err(fe)?;
    let b = doc.add_element_to(a, el(ElementType::Paragraph).with_attrib(id("b"))).map_err(fe)?;
    let c = doc.add_element_to(b, el(ElementType::Sentence).with_attrib(id("c"))).map_err(fe)?;
    for (p, x) in [(a, a), (b, a), (c, a), (c, b), (0, 0), (a, 0), (c, 0)] {
        if doc.attach_element(p, x).is_ok() { return Err(format!("{} attached to {}, its own descendant", x, p)); }
        let v = forest(&doc)?;
        eq("parents", v.n.iter().map(|n| n.parent).collect::<Vec<_>>(), vec![None, Some(0), Some(a as usize), Some(b as usize)])?;
    }
    for (p, x) in [(999, a), (a, 999), (ElementKey::max_value(), a)] { if doc.attach_element(p, x).is_ok() { return Err("an element that does not exist was attached or attached to".into()); } forest(&doc)?; }
    if doc.detach_element(999).is_ok() { return Err("an element that does not exist was detached".into()); }
    if doc.add_element_to(c, el(ElementType::Division).with(DataType::Element(a))).is_ok() { return Err("an element was added between an element and its own descendant".into()); }
    forest(&doc)?;
    if doc.add_element_to(0, el(ElementType::Division).with(DataType::Element(c)).with(DataType::Element(c))).is_ok() { return Err("a child was listed twice".into()); }
    forest(&doc)?;
    ctx.eval(Some(1));
    Ok(())
}
fn f_move(ctx: &mut Ctx) -> Result<(), String> {
    //among a hundred siblings; attach to the same parent moves to the end
    let mut doc = fresh()?;
    let mut want = vec![];
    for i in 0..100 { want.push(doc.add_element_to(0, el(ElementType::Paragraph).with_attrib(id(&format!("p{}", i)))).map_err(fe)?); }
    for &i in [50usize, 0, 97, 3, 99, 98, 1].iter() {
        let x = want.remove(i);
        want.push(x);
        doc.attach_element(0, x).map_err(fe)?;
        eq("order", kids(&doc, 0), want.clone())?;
        forest(&doc)?;
    }
    //into a sibling and back
    let x = want.remove(20);
    let y = want[40];
    doc.attach_element(y, x).map_err(fe)?;
    eq("order", kids(&doc, 0), want.clone())?;
    eq("moved", kids(&doc, y), vec![x])?;
    forest(&doc)?;
    doc.detach_element(y).map_err(fe)?;
    want.remove(40);
    eq("order", kids(&doc, 0), want.clone())?;
    eq("with subtree", kids(&doc, y), vec![x])?;
    doc.attach_element(0, y).map_err(fe)?;
    want.push(y);
    eq("order", kids(&doc, 0), want.clone())?;
    forest(&doc)?;
    ctx.eval(Some(2));
    Ok(())
}
fn f_mixed(ctx: &mut Ctx) -> Result<(), String> {
    //moving an element out of mixed content leaves text, comments and links where they are
    let x = wrap("", "", "<p xml:id=\"p\"><t xml:id=\"t\">a<t-str xml:id=\"b\">b</t-str>c<!--d--><t-str xml:id=\"e\">e</t-str>f</t></p><p xml:id=\"q\"/>");
    let mut doc = parse(&x)?;
    let key = |d: &Document, s: &str| d.get_element_key_by_id(s).ok_or(format!("{} is gone", s));
    let (t, b, e, q) = (key(&doc, "t")?, key(&doc, "b")?, key(&doc, "e")?, key(&doc, "q")?);
    let items = |d: &Document| -> Vec<String> { let t = data(d, t as usize).unwrap(); (0..).map_while(|i| t.get_data_at(i)).map(|x| match x { DataType::Text(t) => t.clone(), DataType::Comment(c) => format!("!{}", c), DataType::Element(k) => format!("#{}", k), _ => "?".into() }).collect() };
    eq("before", items(&doc), vec!["a".into(), format!("#{}", b), "c".into(), "!d".into(), format!("#{}", e), "f".into()])?;
    doc.attach_element(q, b).map_err(fe)?;
    eq("after", items(&doc), vec!["a".into(), "c".into(), "!d".into(), format!("#{}", e), "f".into()])?;
    doc.attach_element(t, b).map_err(fe)?;
    eq("and back", items(&doc), vec!["a".into(), "c".into(), "!d".into(), format!("#{}", e), "f".into(), format!("#{}", b)])?;
    forest(&doc)?;
    ctx.eval(Some(3));
    Ok(())
}

pub static C07: Prop = Prop {
    id: "C07",
    rule: "Random histories (adding, annotating, spans, attaching, detaching, elements that bring existing ones along, and calls that have to be refused) on parsed and new documents. After every operation all elements are read through the API: they must form a forest, and types, parents and the order of all content must be those of an independent model of the history. Distinct by the history.",
    cases: (40000, 1600000), case: c07,
    fixed: &[("cycles and missing elements", f_cycle), ("moving among siblings", f_move), ("mixed content", f_mixed)],
    ..BASE
};

// ---------------------------------------------------------------- C08

fn id_extra(ctx: &mut Ctx, h: &Hist, v: &View, rng: &mut Rng) -> Result<(), String> {
    for id in h.tried.iter() {
        let want = h.sh.ids.get(id).map(|i| k(*i));
        eq(&format!("lookup of {:?}", id), h.doc.get_element_key_by_id(id), want)?;
        eq(&format!("element with id {:?}", id), h.doc.get_element_by_id(id).map(|e| (e.key(), e.id().map(|s| s.to_string()))), want.map(|w| (Some(w), Some(id.clone()))))?;
        ctx.count("identifiers looked up", 1);
    }
    let ids: Vec<&String> = { let mut v: Vec<&String> = h.sh.ids.keys().collect(); v.sort(); v };
    for _ in 0..12 {
        let s = if ids.is_empty() { "w".to_string() } else { let i = ids[rng.below(ids.len())]; rng.near(i) };
        if h.sh.ids.contains_key(&s) { continue; }
        eq(&format!("lookup of {:?}, which nothing has", s), h.doc.get_element_key_by_id(&s), None)?;
        if h.doc.get_element_by_id(&s).is_some() { return Err(format!("there is an element for {:?}, which nothing has", s)); }
        ctx.count("unknown identifiers looked up", 1);
    }
    if h.doc.get_element(k(v.n.len())).is_some() { return Err("there is an element with a key that was never given".into()); }
    for (i, n) in v.n.iter().enumerate() {
        if let Some(r) = v.attr(i, "id") {
            let e = h.doc.get_element(k(i)).ok_or("gone")?;
            eq(&format!("what element {} <{}> refers to with {:?}", i, tag(n.et), r), e.resolve().and_then(|e| e.key()), h.sh.ids.get(r).map(|i| k(*i)))?;
            ctx.count("references resolved", 1);
        }
    }
    for (i, p) in h.sh.procs.iter().enumerate() {
        eq(&format!("lookup of processor {:?}", p.m.id()), h.doc.get_processor_key_by_id(p.m.id()), Some(i as ProcKey))?;
        eq("processor by key", h.doc.get_processor(i as ProcKey).map(|p| p.id.clone()), Some(p.m.id().to_string()))?;
    }
    Ok(())
}
const ID_PLAN: Plan = Plan { weights: Weights { bad: 10, add: 8, annotate: 8, orphan: 3, span: 5, attach: 4, detach: 3, ..Weights::ALL }, aspects: IDS, steps: (5, 30), opts: plain, extra: id_extra, roundtrip: false };
fn c08(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> { run(ctx, rng, &ID_PLAN) }

fn f_bulk(ctx: &mut Ctx) -> Result<(), String> {
    let n = if ctx.thorough() { 400_000 } else { 70_000 };
    let mut doc = fresh()?;
    let mut keys = vec![];
    for i in 0..n {
        let p = if i % 7 == 0 || keys.is_empty() { 0 } else { keys[(i * 31) % keys.len()] };
        keys.push(doc.add_element_to(p, el(ElementType::Division).with_attrib(id(&format!("d{}", i)))).map_err(fe)?);
        if i % 1000 == 5 && doc.add_element_to(0, el(ElementType::Division).with_attrib(id(&format!("d{}", i / 2)))).is_ok() { return Err("an identifier was accepted twice".into()); }
    }
    for (i, key) in keys.iter().enumerate() {
        eq("key", *key as usize, i + 1)?;
        eq("lookup", doc.get_element_key_by_id(&format!("d{}", i)), Some(*key))?;
        eq("id", doc.get_element(*key).and_then(|e| e.id().map(|s| s.to_string())), Some(format!("d{}", i)))?;
    }
    eq("unknown", doc.get_element_key_by_id(&format!("d{}", n)), None)?;
    ctx.count("identifiers looked up", n);
    ctx.eval(Some(1));
    Ok(())
}
fn f_duplicate(ctx: &mut Ctx) -> Result<(), String> {
    let mut doc = parse(&wrap("", "", "<p xml:id=\"a\"><t>one</t></p><p xml:id=\"b\"/>"))?;
    let (a, b) = (doc.get_element_key_by_id("a"), doc.get_element_key_by_id("b"));
    let before = snap::doc(&doc)?;
    for parent in [0, b.unwrap()] {
        if doc.add_element_to(parent, el(ElementType::Sentence).with_attrib(id("a"))).is_ok() { return Err("accepted".into()); }
        if doc.annotate(parent, el(ElementType::Sentence).with_attrib(id("a"))).is_ok() { return Err("accepted".into()); }
        if doc.add_element(el(ElementType::Sentence).with_attrib(id("a"))).is_ok() { return Err("accepted".into()); }
        if doc.add_element_to(parent, el(ElementType::Sentence).add_element(el(ElementType::Word).with_attrib(id("a")))).is_ok() { return Err("accepted".into()); }
        if doc.add_element_to(parent, el(ElementType::Sentence).with_attrib(id("new")).add_element(el(ElementType::Word).with_attrib(id("new")))).is_ok() { return Err("accepted".into()); }
    }
    eq("a", doc.get_element_key_by_id("a"), a)?;
    eq("new", doc.get_element_key_by_id("new"), None)?;
    before.same_content(&snap::doc(&doc)?)?;
    //the identifier of the body, of the document, empty
    eq("document", doc.get_element_key_by_id("doc"), None)?;
    eq("body", doc.get_element_key_by_id("doc.text"), Some(0))?;
    eq("nothing", doc.get_element_key_by_id(""), None)?;
    //a detached element keeps its identifier
    doc.detach_element(a.unwrap()).map_err(fe)?;
    eq("detached", doc.get_element_key_by_id("a"), a)?;
    if doc.add_element_to(0, el(ElementType::Sentence).with_attrib(id("a"))).is_ok() { return Err("accepted while a detached element has it".into()); }
    ctx.eval(Some(2));
    Ok(())
}

pub static C08: Prop = Prop {
    id: "C08",
    rule: "Random histories with many attempts to use an identifier again; after every operation each identifier any operation mentioned (also the refused ones), near misses of existing identifiers, all references and all processors are looked up. Distinct by the history.",
    cases: (40000, 1600000), case: c08,
    fixed: &[("bulk", f_bulk), ("duplicates", f_duplicate)],
    ..BASE
};

// ---------------------------------------------------------------- C12

fn span_extra(ctx: &mut Ctx, h: &Hist, v: &View, rng: &mut Rng) -> Result<(), String> {
    for i in 0..v.n.len() {
        //links as they should be: the closest span above each reference (looking only at what is attached)
        let mut links: Vec<usize> = v.n[i].items.iter().filter_map(|x| if let VItem::Span(s) = x { Some(*s) } else { None }).collect();
        links.sort();
        let n = links.len();
        links.dedup();
        if links.len() != n { return Err(format!("element {} links to a span more than once", i)); }
        ctx.count("links", n);
    }
    for i in 0..v.n.len() {
        if v.n[i].et != ElementType::WordReference || v.n[i].parent.is_none() || h.moved > 0 { continue; }
        let span = match v.ancestors(i).into_iter().find(|a| in_group(ElementGroup::Span, v.n[*a].et)) { Some(s) => s, None => continue };
        let target = match v.attr(i, "id").and_then(|r| v.ids.get(r)) { Some(t) => *t, None => return Err(format!("reference {} to nothing", i)) };
        if !v.n[target].items.contains(&VItem::Span(span)) { return Err(format!("element {} has no link to span {} that refers to it", target, span)); }
    }
    //the layers one can ask for
    for _ in 0..3 {
        let holder = rng.below(v.n.len());
        let at = rng.pick(&[AnnotationType::ENTITY, AnnotationType::CHUNKING, AnnotationType::DEPENDENCY, AnnotationType::COREFERENCE, AnnotationType::SEMROLE, AnnotationType::SENTIMENT]).clone();
        let set = rng.pick(&h.sets).clone();
        let want = h.sh.layer(at, &set, holder).map(k);
        eq(&format!("layer of {:?} {:?} in {}", at, set, holder), h.doc.get_layer_key(k(holder), at, Some(&set)).map_err(fe)?, want)?;
        ctx.count("layers looked up", 1);
    }
    //the words of a span annotation yet to be added
    let words = h.words();
    if !words.is_empty() {
        let a = words[rng.below(words.len())].clone();
        let b = words[rng.below(words.len())].clone();
        let c = words[rng.below(words.len())].clone();
        let mut role = El::new(ElementType::Headspan);
        role.push(El::new(ElementType::WordReference).with("id", &b));
        let e = El::new(ElementType::Dependency).el(El::new(ElementType::WordReference).with("id", &a)).el(role).el(El::new(ElementType::DependencyDependent).el(El::new(ElementType::WordReference).with("id", &c)));
        let want: Vec<ElementKey> = h.sh.spanned(&e).into_iter().map(k).collect();
        eq("words of a span", h.doc.get_span_keys(&api::build(&e)), want)?;
    }
    Ok(())
}
fn spans(o: &mut crate::gen::Opts) { plain(o); o.spans = true; o.size = o.size.max(12); }
const SPAN_PLAN: Plan = Plan { weights: Weights { add: 3, annotate: 3, span: 24, orphan: 0, attach: 0, detach: 0, existing: 0, declare: 2, ..Weights::ALL }, aspects: TREE | VOCAB | LINKS, steps: (8, 40), opts: spans, extra: span_extra, roundtrip: true };
fn c12(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    if rng.p(1, 5) { return run(ctx, rng, &Plan { weights: Weights { orphan: 1, attach: 3, detach: 2, ..SPAN_PLAN.weights }, roundtrip: false, ..SPAN_PLAN }); }
    run(ctx, rng, &SPAN_PLAN)
}

fn sentence(words: usize) -> Result<Document, String> {
    let w: String = (0..words).map(|i| format!("<w xml:id=\"w{}\"><t>w{}</t></w>", i, i)).collect();
    parse(&wrap("", "", &format!("<p xml:id=\"p\"><s xml:id=\"s\">{}</s><s xml:id=\"s2\"><w xml:id=\"x0\"/><w xml:id=\"x1\"/></s></p>", w)))
}
fn f_manyspans(ctx: &mut Ctx) -> Result<(), String> {
    //hundreds of annotations in two sets, over changing words: one layer for each set
    let mut doc = sentence(9)?;
    let s = doc.get_element_key_by_id("s").unwrap();
    let n = 500;
    for i in 0..n {
        let set = if i % 3 == 0 { "x" } else { "y" };
        let (a, b) = (format!("w{}", i % 9), format!("w{}", (i * 5 + 1) % 9));
        let mut e = el(ElementType::Entity).with_attribs(vec![st(set), cl("c")]);
        e = if a == b { e.with_span(&[&a]) } else { e.with_span(&[&a, &b]) };
        if i % 2 == 0 { doc.annotate_span(e).map_err(fe)?; } else { let w = doc.get_element_key_by_id(&b).unwrap(); doc.annotate(w, e).map_err(fe)?; }
    }
    let v = View::of(&doc)?;
    let layers: Vec<usize> = v.children(s as usize).into_iter().filter(|c| v.n[*c].et == ElementType::EntitiesLayer).collect();
    eq("layers", layers.iter().map(|l| v.set(*l).unwrap_or("").to_string()).collect::<Vec<_>>(), vec!["x".to_string(), "y".to_string()])?;
    eq("annotations in x", v.children(layers[0]).len(), (n + 2) / 3)?;
    eq("annotations in y", v.children(layers[1]).len(), n - (n + 2) / 3)?;
    eq("layers in the document", v.n.iter().filter(|n| n.et == ElementType::EntitiesLayer).count(), 2)?;
    //across sentences: in the paragraph
    doc.annotate_span(el(ElementType::Entity).with_attribs(vec![st("x"), cl("c")]).with_span(&["w1", "x1"])).map_err(fe)?;
    doc.annotate_span(el(ElementType::Entity).with_attribs(vec![st("x"), cl("c")]).with_span(&["x0", "w2"])).map_err(fe)?;
    let v = View::of(&doc)?;
    let p = doc.get_element_key_by_id("p").unwrap() as usize;
    let l: Vec<usize> = v.children(p).into_iter().filter(|c| v.n[*c].et == ElementType::EntitiesLayer).collect();
    eq("layers in the paragraph", l.len(), 1)?;
    eq("annotations in it", v.children(l[0]).len(), 2)?;
    ctx.count("span annotations added", n + 2);
    ctx.eval(Some(1));
    Ok(())
}
///A span over hundreds of words, next to many words it does not cover
fn f_longspan(ctx: &mut Ctx) -> Result<(), String> {
    let mut doc = sentence(1200)?;
    let s = doc.get_element_key_by_id("s").unwrap();
    let pick: Vec<Vec<usize>> = vec![(0..700).map(|i| (i * 7 + 3) % 1200).collect(), (0..1200).rev().collect(), (250..262).collect(), vec![255, 256, 257, 511, 512, 1023, 1199]];
    let mut keys = vec![];
    for (i, words) in pick.iter().enumerate() {
        let ids: Vec<String> = words.iter().map(|w| format!("w{}", w)).collect();
        let ids: Vec<&str> = ids.iter().map(|s| s.as_str()).collect();
        let e = el(ElementType::Entity).with_attribs(vec![st("x"), cl("c"), Attribute::Id(format!("long{}", i))]).with_span(&ids);
        keys.push(if i % 2 == 0 { doc.annotate_span(e).map_err(fe)? } else { doc.annotate(s, e).map_err(fe)? });
    }
    for round in 0..2 {
        let v = View::of(&doc)?;
        for (i, words) in pick.iter().enumerate() {
            let e = v.ids[&format!("long{}", i)];
            if round == 0 { eq("key", e, keys[i] as usize)?; }
            //its words, in order, and what they refer back to
            let x = xml(&doc, e as ElementKey, 0)?;
            let got: Vec<String> = x.split("<wref ").skip(1).map(|r| r.split("id=\"").nth(1).unwrap_or("").split('"').next().unwrap().to_string()).collect();
            let mut want: Vec<String> = words.iter().map(|w| format!("w{}", w)).collect();
            let mut g = got.clone();
            g.sort(); want.sort();
            eq(&format!("words of span {} (round {})", i, round), g, want)?;
            for w in 0..1200 { eq(&format!("word {} refers to span {}", w, i), v.n[v.ids[&format!("w{}", w)]].items.iter().filter(|x| **x == VItem::Span(e)).count(), words.contains(&w) as usize)?; }
            ctx.count("words in long spans", words.len());
        }
        doc = parse(&xml(&doc, 0, 0)?)?;
    }
    ctx.eval(Some(5));
    Ok(())
}
fn f_roles(ctx: &mut Ctx) -> Result<(), String> {
    let mut doc = sentence(4)?;
    let d = el(ElementType::Dependency).with_attribs(vec![st("d"), cl("su")]).add_element(el(ElementType::Headspan).with_span(&["w1"])).add_element(el(ElementType::DependencyDependent).with_span(&["w2", "w3"]));
    let key = doc.annotate_span(d).map_err(fe)?;
    for round in 0..2 {
        let key = if round == 0 { key as usize } else { View::of(&doc)?.n.iter().position(|n| n.et == ElementType::Dependency).ok_or("gone")? };
        let v = View::of(&doc)?;
        for (w, want) in [("w0", vec![]), ("w1", vec![key]), ("w2", vec![key]), ("w3", vec![key])] {
            let i = v.ids[w];
            let got: Vec<usize> = v.n[i].items.iter().filter_map(|x| if let VItem::Span(s) = x { Some(*s) } else { None }).collect();
            eq(&format!("links of {} (round {})", w, round), got, want)?;
        }
        doc = parse(&xml(&doc, 0, 2)?)?;
    }
    ctx.eval(Some(2));
    Ok(())
}
fn f_refused(ctx: &mut Ctx) -> Result<(), String> {
    let mut doc = sentence(3)?;
    let n = snap::doc_len(&doc);
    let w = doc.get_element_key_by_id("w0").unwrap();
    for (what, e) in [("no words", el(ElementType::Entity).with_attrib(st("x"))), ("unknown word", el(ElementType::Entity).with_attrib(st("x")).with_span(&["nope"])), ("no set", el(ElementType::Entity).with_span(&["w1"]))] {
        if doc.annotate(w, e.clone()).is_ok() { return Err(format!("{}: accepted on a word", what)); }
        if doc.annotate_span(e).is_ok() { return Err(format!("{}: accepted", what)); }
        eq(what, snap::doc_len(&doc), n)?;
    }
    ctx.eval(Some(3));
    Ok(())
}
fn f_layerset(ctx: &mut Ctx) -> Result<(), String> {
    //a layer without set takes that of its spans and keeps everything else
    let mut doc = parse(&wrap("<entity-annotation set=\"a\"/><entity-annotation set=\"b\"/><chunking-annotation set=\"c\"/>", "", "<s xml:id=\"s\"><w xml:id=\"w1\"/><entities xml:id=\"l\" n=\"3\" src=\"y\" confidence=\"0.5\" datetime=\"2011-01-31T23:59:59\" metadata=\"m\"><desc>d</desc><entity set=\"b\" class=\"c\"><wref id=\"w1\"/></entity></entities></s>"))?;
    let l = doc.get_element_key_by_id("l").unwrap();
    let n = snap::node(&doc, l)?;
    eq("declaration", n.decl, Some((AnnotationType::ENTITY, Some("b".to_string()))))?;
    let names: Vec<String> = n.attrs.iter().map(|a| a.0.clone()).collect();
    eq("attributes", names.join(" ").as_str(), "confidence datetime metadata n src xml:id")?;
    let e = doc.annotate_span(el(ElementType::Entity).with_attribs(vec![st("b"), cl("d")]).with_span(&["w1"])).map_err(fe)?;
    eq("layer", doc.get_element(e).and_then(|e| e.parent_key()), Some(l))?;
    let s = doc.get_element_key_by_id("s").unwrap();
    eq("b", doc.get_layer_key(s, AnnotationType::ENTITY, Some("b")).map_err(fe)?, Some(l))?;
    eq("a", doc.get_layer_key(s, AnnotationType::ENTITY, Some("a")).map_err(fe)?, None)?;
    eq("unknown", doc.get_layer_key(s, AnnotationType::ENTITY, Some("zzz")).map_err(fe)?, None)?;
    eq("chunks", doc.get_layer_key(s, AnnotationType::CHUNKING, Some("c")).map_err(fe)?, None)?;
    //layers within layers
    let doc = parse(&wrap("", "", "<s><w xml:id=\"w1\"/><w xml:id=\"w2\"/><entities xml:id=\"l\"><correction set=\"c\"><new set=\"c\"><s><entities xml:id=\"m\"><entity set=\"b\" class=\"c\"><wref id=\"w1\"/></entity></entities></s></new></correction><entity set=\"a\" class=\"c\"><wref id=\"w2\"/></entity></entities></s>"))?;
    for (id, set) in [("l", "a"), ("m", "b")] { eq(id, snap::node(&doc, doc.get_element_key_by_id(id).unwrap())?.decl, Some((AnnotationType::ENTITY, Some(set.to_string()))))?; }
    ctx.eval(Some(4));
    Ok(())
}

pub static C12: Prop = Prop {
    id: "C12",
    rule: "Random histories that mostly add span annotations (over any words, from words, structure or without naming a place, in several sets, with and without span roles); after every operation tree, declarations and links of all elements are compared with an independent model, links are recomputed from the references, and layers and words of spans are looked up. Most end with a round trip that must give the same links. Distinct by the history.",
    cases: (40000, 1600000), case: c12,
    fixed: &[("hundreds of annotations", f_manyspans), ("hundreds of words", f_longspan), ("references in span roles", f_roles), ("spans that have to be refused", f_refused), ("layer without set", f_layerset)],
    ..BASE
};

// ---------------------------------------------------------------- C13

fn vocab_extra(ctx: &mut Ctx, h: &Hist, v: &View, _rng: &mut Rng) -> Result<(), String> {
    //keys and strings: one to one within a declaration
    let mut by_key: std::collections::HashMap<(DecKey, bool, Option<SubsetKey>, ClassKey), String> = Default::default();
    let mut by_class: std::collections::HashMap<(DecKey, bool, String), ClassKey> = Default::default();
    let mut subsets: std::collections::HashMap<(DecKey, SubsetKey), String> = Default::default();
    for i in 0..v.n.len() {
        let e = h.doc.get_element(k(i)).ok_or("gone")?;
        let d = match e.declaration_key() { Some(d) => d, None => continue };
        let dec = h.doc.get_declaration(d).ok_or("declaration is gone")?;
        let feat = e.subset_key().is_some();
        if let (Some(s), Some(name)) = (e.subset_key(), &v.n[i].subset) {
            if let Some(x) = subsets.insert((d, s), name.clone()) { eq(&format!("subset with key {} in {}", s, d), x, name.clone())?; }
            eq("subset by key", dec.get_subset(s), Some(name.as_str()))?;
        }
        if let (Some(c), Some(name)) = (e.class_key(), &v.n[i].class) {
            if let Some(x) = by_key.insert((d, feat, None, c), name.clone()) { eq(&format!("class with key {} in {}", c, d), x, name.clone())?; }
            if let Some(x) = by_class.insert((d, feat, name.clone()), c) { eq(&format!("key of class {:?} in {}", name, d), x, c)?; }
            if !feat {
                eq("key of class", h.doc.class_key(d, name).map_err(fe)?, c)?;
                eq("class of key", dec.get_class(c), Some(name.as_str()))?;
            }
            ctx.count("classes read back", 1);
        }
    }
    Ok(())
}
const VOCAB_PLAN: Plan = Plan { weights: Weights { add: 8, annotate: 8, span: 4, feature: 10, declare: 6, processor: 2, activate: 2, bad: 1, existing: 0, ..Weights::ALL }, aspects: VOCAB | PROC, steps: (5, 40), opts: plain, extra: vocab_extra, roundtrip: true };
fn c13(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    if rng.p(1, 4) { return run(ctx, rng, &Plan { roundtrip: false, ..VOCAB_PLAN }); }
    run(ctx, rng, &Plan { weights: Weights { orphan: 0, attach: 0, detach: 0, ..VOCAB_PLAN.weights }, ..VOCAB_PLAN })
}

fn f_manyclasses(ctx: &mut Ctx) -> Result<(), String> {
    //more classes than 16 bits, more subsets than 8, more sets than 8
    let n = if ctx.thorough() { 140_000 } else { 70_000 };
    let mut doc = fresh()?;
    let p = doc.add_element_to(0, el(ElementType::Paragraph)).map_err(fe)?;
    let mut keys = vec![];
    for i in 0..n { keys.push(doc.add_element_to(p, el(ElementType::Word).with_attribs(vec![st("big"), cl(&format!("c{}", i))])).map_err(fe)?); }
    let again = doc.add_element_to(p, el(ElementType::Word).with_attribs(vec![st("big"), cl("c65600")])).map_err(fe)?;
    for (i, key) in keys.iter().enumerate() {
        let e = doc.get_element(*key).ok_or("gone")?;
        eq("class", e.class(), Some(format!("c{}", i).as_str()))?;
    }
    eq("key", doc.get_element(again).and_then(|e| e.class_key()), doc.get_element(keys[65600]).and_then(|e| e.class_key()))?;
    ctx.count("classes read back", n);
    ctx.eval(Some(1));
    Ok(())
}
fn f_manysets(ctx: &mut Ctx) -> Result<(), String> {
    let n = 700;
    let mut doc = fresh()?;
    let mut procs = vec![];
    for i in 0..n { let mut p = Processor::new(format!("n{}", i)); p.id = format!("p{}", i); procs.push(doc.add_processor(p).map_err(fe)?); }
    let types = [ElementType::PosAnnotation, ElementType::LemmaAnnotation, ElementType::SenseAnnotation];
    let mut keys = vec![];
    let w = doc.add_element_to(0, el(ElementType::Word)).map_err(fe)?;
    for i in 0..n * 2 {
        let e = el(types[i % 3]).with_attribs(vec![st(&format!("s{}", i % n)), cl(&format!("c{}", i % 7)), Attribute::Processor(format!("p{}", (i * 3) % n))]);
        let key = doc.add_element_to(w, e).map_err(fe)?;
        for j in 0..2 { doc.add_element_to(key, el(ElementType::Feature).with_attribs(vec![Attribute::Subset(format!("sub{}", (i + j * 350) % n)), cl(&format!("v{}", i))])).map_err(fe)?; }
        keys.push(key);
    }
    for round in 0..2 {
        let v = View::of(&doc)?;
        let at: Vec<usize> = if round == 0 { keys.iter().map(|k| *k as usize).collect() } else { (0..v.n.len()).filter(|i| types.contains(&v.n[*i].et)).collect() };
        eq("annotations", at.len(), n * 2)?;
        for (i, key) in at.iter().enumerate() {
            let node = &v.n[*key];
            eq("set", node.decl.as_ref().and_then(|d| d.1.clone()), Some(format!("s{}", i % n)))?;
            eq("type", node.et, types[i % 3])?;
            eq("class", node.class.clone(), Some(format!("c{}", i % 7)))?;
            eq("processor", node.proc.clone(), Some(format!("p{}", (i * 3) % n)))?;
            for (j, f) in v.children(*key).into_iter().enumerate() {
                eq("subset", v.n[f].subset.clone(), Some(format!("sub{}", (i + j * 350) % n)))?;
                eq("class of feature", v.n[f].class.clone(), Some(format!("v{}", i)))?;
            }
        }
        doc = parse(&xml(&doc, 0, 0)?)?;
    }
    let _ = procs;
    ctx.count("annotations in many sets", n * 2);
    ctx.eval(Some(2));
    Ok(())
}
fn f_manysubsets(ctx: &mut Ctx) -> Result<(), String> {
    let mut doc = fresh()?;
    let w = doc.add_element_to(0, el(ElementType::Word)).map_err(fe)?;
    let pos = doc.add_element_to(w, el(ElementType::PosAnnotation).with_attribs(vec![st("s"), cl("c")])).map_err(fe)?;
    let n = 3000;
    let mut keys = vec![];
    for i in 0..n { keys.push(doc.add_element_to(pos, el(ElementType::Feature).with_attribs(vec![Attribute::Subset(format!("b{}", i)), cl(&format!("v{}", i % 11))])).map_err(fe)?); }
    for (i, key) in keys.iter().enumerate() {
        let e = doc.get_element(*key).ok_or("gone")?;
        eq("subset", e.subset(), Some(format!("b{}", i).as_str()))?;
        eq("class", e.class(), Some(format!("v{}", i % 11).as_str()))?;
    }
    //more than there are keys for: refused, not dropped
    let mut refused = 0;
    for i in n..66_000 {
        match doc.add_element_to(pos, el(ElementType::Feature).with_attribs(vec![Attribute::Subset(format!("b{}", i)), cl("v")])) {
            Ok(key) => { let e = doc.get_element(key).ok_or("gone")?; eq("subset", e.subset(), Some(format!("b{}", i).as_str()))?; eq("class", e.class(), Some("v"))?; }
            Err(_) => { refused += 1; if refused > 5 { break; } }
        }
    }
    ctx.count("subsets refused when keys ran out", refused);
    for (i, key) in keys.iter().enumerate().step_by(17) { eq("subset", doc.get_element(*key).and_then(|e| e.subset().map(|s| s.to_string())), Some(format!("b{}", i)))?; }
    let e = doc.get_element(pos).ok_or("gone")?;
    for i in [0, 255, 256, 2999, 40000] { eq("found by subset", e.get_features(Cmp::Is(format!("b{}", i))).count(), 1)?; }
    ctx.eval(Some(3));
    Ok(())
}
///Keys have a limited range; where it ends there is an error, never a wrong key
fn f_overflow(ctx: &mut Ctx) -> Result<(), String> {
    let mut doc = fresh()?;
    let mut last = None;
    for i in 0..66_000usize {
        match doc.declare(AnnotationType::POS, &Some(format!("s{}", i)), &None, &None) {
            Ok(key) => { eq("set of declaration", doc.get_declaration(key).and_then(|d| d.set.clone()), Some(format!("s{}", i)))?; last = Some(key); }
            Err(_) => { ctx.count("declarations refused when keys ran out", 1); break; }
        }
    }
    eq("last", last, last)?;
    eq("first", doc.get_declaration_key_by_id("pos/s0").is_some() || doc.get_declaration_key_by_id("POS/s0").is_some(), doc.get_declaration_by_id("pos/s0").is_some() || doc.get_declaration_by_id("POS/s0").is_some())?;
    let k0 = doc.declare(AnnotationType::POS, &Some("s0".into()), &None, &None).map_err(fe)?;
    eq("still there", doc.get_declaration(k0).and_then(|d| d.set.clone()), Some("s0".to_string()))?;
    ctx.eval(Some(4));
    Ok(())
}
fn f_interfere(ctx: &mut Ctx) -> Result<(), String> {
    //every type with a set, in the same sets with the same classes
    let mut doc = fresh()?;
    let mut all = vec![];
    let types: Vec<ElementType> = SPEC.iter().filter(|s| s.at.is_some()).map(|s| s.et).collect();
    for round in 0..4 {
        for t in types.iter() {
            let (s, c) = (["x", "y", "", "x/y"][round % 4], ["1", "x", "", "x/1"][(round * 7 + *t as usize) % 4]);
            let mut e = el(*t).with_attribs(vec![cl(c)]);
            e.set_attrib(st(s));
            let key = doc.add_element_to(0, e).map_err(fe)?;
            all.push((key, *t, s, c));
        }
    }
    for (key, t, s, c) in all.iter() {
        let n = snap::node(&doc, *key)?;
        eq(&format!("declaration of {:?}", t), n.decl, Some((spec(*t).at.unwrap(), Some(s.to_string()))))?;
        eq(&format!("class of {:?}", t), n.class, Some(c.to_string()))?;
    }
    for (a, t, s, c) in all.iter() {
        for (b, t2, s2, c2) in all.iter().step_by(13) {
            let (ea, eb) = (doc.get_element(*a).unwrap(), doc.get_element(*b).unwrap());
            let same = spec(*t).at == spec(*t2).at && s == s2 && c == c2;
            eq("same key", ea.declaration_key() == eb.declaration_key() && ea.class_key() == eb.class_key(), same)?;
        }
    }
    ctx.count("pairs of annotations", all.len() * all.len() / 13);
    ctx.eval(Some(5));
    Ok(())
}

pub static C13: Prop = Prop {
    id: "C13",
    rule: "Random histories that add annotations and features of all types in sets, classes and subsets drawn from small pools (so that they collide across types and sets); after every operation set, class, subset and processor of all elements are read back and compared with what they were given, and keys must correspond one to one with strings. Fixed cases go beyond 65536 classes, hundreds of sets, subsets and processors, and up to where keys run out. Distinct by the history.",
    cases: (2000, 40000), case: c13, long: 97,
    fixed: &[("many classes", f_manyclasses), ("many sets", f_manysets), ("many subsets", f_manysubsets), ("out of keys", f_overflow), ("all types at once", f_interfere)],
    ..BASE
};

// ---------------------------------------------------------------- C14

fn decl_extra(ctx: &mut Ctx, h: &Hist, v: &View, rng: &mut Rng) -> Result<(), String> {
    let mut seen = std::collections::HashSet::new();
    let mut n = 0;
    for (i, d) in h.doc.declarations().enumerate() {
        let d = d.as_ref().ok_or("a declaration is gone")?;
        n += 1;
        if !seen.insert((d.annotationtype, d.set.clone())) { return Err(format!("declared twice: {:?} {:?}", d.annotationtype, d.set)); }
        let want = h.sh.decls.get(i).ok_or(format!("declaration {:?} {:?} should not be there", d.annotationtype, d.set))?;
        eq(&format!("declaration {}", i), (d.annotationtype, d.set.clone()), (want.at, want.set.clone()))?;
        let ann: Vec<String> = d.processors.iter().map(|p| h.doc.get_processor(*p).map_or("?".into(), |p| p.id.clone())).collect();
        let (mut a, mut b) = (ann.clone(), want.procs.clone());
        a.sort(); b.sort();
        eq(&format!("annotators of declaration {} ({:?} {:?})", i, d.annotationtype, d.set), a, b)?;
    }
    eq("number of declarations", n, h.sh.decls.len())?;
    ctx.count("declarations compared", n);
    for (i, node) in v.n.iter().enumerate() {
        //everything with a class is declared, as its own type
        if let (Some(at), Some(d)) = (spec(node.et).at, &node.decl) { if d.0 != at { return Err(format!("element {} <{}> is declared as {:?}", i, tag(node.et), d.0)); } }
        if let (true, None, true) = (node.class.is_some(), &node.decl, spec(node.et).at.is_some()) { return Err(format!("element {} <{}> is not declared", i, tag(node.et))); }
    }
    for _ in 0..3 {
        let at = if rng.p(2, 3) && !h.sh.decls.is_empty() { h.sh.decls[rng.below(h.sh.decls.len())].at } else { rng.pick(ATYPES).0 };
        let of: Vec<&crate::shadow::SDecl> = h.sh.decls.iter().filter(|d| d.at == at).collect();
        let want = if of.len() == 1 { of[0].set.clone() } else { None };
        eq(&format!("default set of {:?} ({} declarations)", at, of.len()), h.doc.get_default_set(at).map(|s| s.to_string()), want)?;
        ctx.count("default sets asked", 1);
    }
    Ok(())
}
const DECL_PLAN: Plan = Plan { weights: Weights { add: 4, annotate: 4, span: 2, declare: 24, processor: 3, activate: 3, bad: 2, attach: 0, detach: 0, existing: 0, orphan: 0, ..Weights::ALL }, aspects: VOCAB | HEADER, steps: (5, 40), opts: plain, extra: decl_extra, roundtrip: true };
fn c14(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    if rng.p(1, 3) { return decls_given(ctx, rng); }
    run(ctx, rng, &DECL_PLAN)
}
///Declarations with alias and format, used or not, through the API or parsed
fn decls_given(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    let n = rng.range(1, 25);
    let mut want: Vec<(AnnotationType, Option<String>, Option<String>, Option<String>)> = vec![];
    let mut doc = fresh()?;
    want.push((AnnotationType::TEXT, Some(crate::shadow::TEXTSET.to_string()), None, None));
    let mut keys = vec![doc.declare(AnnotationType::TEXT, &want[0].1, &None, &None).map_err(fe)?];
    let pool: Vec<AnnotationType> = (0..rng.range(1, 6)).map(|_| rng.pick(ATYPES).0).collect();
    let sets: Vec<String> = (0..rng.range(1, 6)).map(|_| rng.attr()).collect();
    for _ in 0..n {
        let at = *rng.pick(&pool);
        let set = if rng.p(1, 4) { None } else { Some(rng.pick(&sets).clone()) };
        let (alias, format) = (if rng.p(1, 2) { Some(rng.attr()) } else { None }, if rng.p(1, 2) { Some(rng.attr()) } else { None });
        let key = doc.declare(at, &set, &alias, &format).map_err(fe)?;
        let exact = want.iter().position(|w| w.0 == at && w.1 == set);
        let of: Vec<usize> = (0..want.len()).filter(|i| want[*i].0 == at).collect();
        match exact.or(if set.is_none() && of.len() == 1 { Some(of[0]) } else { None }) {
            Some(i) => eq(&format!("key of {:?} {:?}, declared before", at, set), key, keys[i])?,
            None => { if keys.contains(&key) { return Err(format!("key {} of {:?} {:?} is in use", key, at, set)); } keys.push(key); want.push((at, set, alias, format)); }
        }
        for (w, key) in want.iter().zip(keys.iter()) {
            let d = doc.get_declaration(*key).ok_or("gone")?;
            eq("declaration", (d.annotationtype, d.set.clone(), d.alias.clone(), d.format.clone()), w.clone())?;
        }
        eq("number", doc.declarations().count(), want.len())?;
    }
    ctx.input(&format!("{:?}", want));
    ctx.count("declarations given", want.len());
    let back = parse(&xml(&doc, 0, rng.below(3))?)?;
    let mut got: Vec<(AnnotationType, Option<String>, Option<String>, Option<String>)> = back.declarations().map(|d| { let d = d.as_ref().unwrap(); (d.annotationtype, d.set.clone(), d.alias.clone(), d.format.clone()) }).collect();
    eq("declarations after a round trip", { got.sort_by_key(|x| format!("{:?}", x)); got }, { want.sort_by_key(|x| format!("{:?}", x)); want.clone() })?;
    ctx.eval(Some(crate::rng::hash(&format!("{:?}", want))));
    Ok(())
}
fn f_defaults(ctx: &mut Ctx) -> Result<(), String> {
    let mut doc = fresh()?;
    eq("none", doc.get_default_set(AnnotationType::POS), None)?;
    let a = doc.declare(AnnotationType::POS, &Some("a".into()), &None, &None).map_err(fe)?;
    eq("one", doc.get_default_set(AnnotationType::POS), Some("a"))?;
    eq("without set", doc.declare(AnnotationType::POS, &None, &None, &None).map_err(fe)?, a)?;
    let b = doc.declare(AnnotationType::POS, &Some("b".into()), &None, &None).map_err(fe)?;
    eq("two", doc.get_default_set(AnnotationType::POS), None)?;
    let c = doc.declare(AnnotationType::POS, &None, &None, &None).map_err(fe)?;
    if c == a || c == b { return Err("declared without set, when there are two sets, as one of these".into()); }
    eq("again", doc.declare(AnnotationType::POS, &None, &None, &None).map_err(fe)?, c)?;
    eq("a", doc.declare(AnnotationType::POS, &Some("a".into()), &None, &None).map_err(fe)?, a)?;
    eq("three", doc.get_default_set(AnnotationType::POS), None)?;
    eq("other type", doc.get_default_set(AnnotationType::LEMMA), None)?;
    let l = doc.declare(AnnotationType::LEMMA, &None, &None, &None).map_err(fe)?;
    eq("without set", doc.get_default_set(AnnotationType::LEMMA), None)?;
    let m = doc.declare(AnnotationType::LEMMA, &Some("m".into()), &None, &None).map_err(fe)?;
    if l == m { return Err("a declaration without set was reused for a set".into()); }
    eq("set", doc.get_declaration(l).and_then(|d| d.set.clone()), None)?;
    ctx.eval(Some(1));
    Ok(())
}
///Hundreds of annotators of one declaration, hundreds of declarations of one type
fn f_many(ctx: &mut Ctx) -> Result<(), String> {
    let n = 400;
    let mut doc = fresh()?;
    let w = doc.add_element_to(0, el(ElementType::Word)).map_err(fe)?;
    let procs: Vec<ProcKey> = (0..n).map(|i| processor(&mut doc, &format!("p{}", i))).collect::<Result<_, _>>()?;
    let mut decls = vec![];
    for i in 0..n { decls.push(doc.declare(AnnotationType::LEMMA, &Some(format!("l{}", (i * 7) % n)), &Some(format!("alias{}", i)), &if i % 3 == 0 { Some(format!("format{}", i)) } else { None }).map_err(fe)?); }
    for i in 0..n {
        doc.activate_processor(procs[(i * 3 + 1) % n]);
        doc.add_element_to(w, el(ElementType::PosAnnotation).with_attribs(vec![st("s"), cl("c")])).map_err(fe)?;
        if i % 2 == 0 { doc.add_element_to(w, el(ElementType::LemmaAnnotation).with_attribs(vec![st(&format!("l{}", i)), cl("c"), Attribute::Processor(format!("p{}", n - 1 - i))])).map_err(fe)?; }
    }
    for round in 0..2 {
        let of = |at: AnnotationType, set: &str| -> Result<&Declaration, String> {
            let all: Vec<&Declaration> = doc.declarations().flatten().map(|d| d.as_ref()).filter(|d| d.annotationtype == at && d.set.as_deref() == Some(set)).collect();
            eq(&format!("declarations of {:?} {}", at, set), all.len(), 1)?;
            Ok(all[0])
        };
        let names = |d: &Declaration| -> Vec<String> { let mut v: Vec<String> = d.processors.iter().map(|p| doc.get_processor(*p).map_or("?".into(), |p| p.id.clone())).collect(); v.sort(); v };
        let mut want: Vec<String> = (0..n).map(|i| format!("p{}", i)).collect();
        want.sort();
        eq("annotators", names(of(AnnotationType::POS, "s")?), want)?;
        for i in 0..n {
            let set = (i * 7) % n;
            let d = of(AnnotationType::LEMMA, &format!("l{}", set))?;
            if round == 0 { eq("key", doc.get_declaration(decls[i]).map(|d| d.set.clone()), Some(d.set.clone()))?; }
            eq("alias and format", (d.alias.clone(), d.format.clone()), (Some(format!("alias{}", i)), if i % 3 == 0 { Some(format!("format{}", i)) } else { None }))?;
            eq(&format!("annotators of l{}", set), names(d), if set % 2 == 0 { let mut v = vec![format!("p{}", n - 1 - set), format!("p{}", (set * 3 + 1) % n)]; v.sort(); v.dedup(); v } else { vec![] })?;
            let key = doc.get_declaration_key_by_id(&Declaration::index_id(AnnotationType::LEMMA, &Some(&format!("l{}", set)))).ok_or("not found")?;
            eq("found", doc.get_declaration(key).and_then(|d| d.set.clone()), Some(format!("l{}", set)))?;
        }
        eq("default set", doc.get_default_set(AnnotationType::LEMMA), None)?;
        eq("default set", doc.get_default_set(AnnotationType::POS), Some("s"))?;
        doc = parse(&xml(&doc, 0, 0)?)?;
    }
    ctx.count("annotators and declarations", 2 * n);
    ctx.eval(Some(3));
    Ok(())
}
fn f_unused(ctx: &mut Ctx) -> Result<(), String> {
    let all: String = ATYPES.iter().enumerate().map(|(i, a)| format!("<{} set=\"s{}\" alias=\"a{}\" format=\"f{}\"/>", decl_tag(a.0), i, i, i)).collect();
    let x = wrap(&all, "", "");
    ctx.input(&x);
    let mut doc = parse(&x)?;
    for _ in 0..2 {
        for (i, a) in ATYPES.iter().enumerate() {
            let d = doc.declarations().flatten().find(|d| d.annotationtype == a.0 && d.set.as_deref() == Some(format!("s{}", i).as_str())).ok_or(format!("declaration of {:?} is gone", a.0))?;
            eq("alias", d.alias.clone(), Some(format!("a{}", i)))?;
            eq("format", d.format.clone(), Some(format!("f{}", i)))?;
        }
        doc = parse(&xml(&doc, 0, 1)?)?;
    }
    ctx.eval(Some(2));
    Ok(())
}

pub static C14: Prop = Prop {
    id: "C14",
    rule: "Random histories that mostly declare (types and sets from small pools, with and without set) between adding annotations; after every operation all declarations, their keys and annotators, the declarations of all elements and default sets are compared with an independent model. A third declares with alias and format only. All end with a round trip. Distinct by the history.",
    cases: (40000, 1600000), case: c14,
    fixed: &[("defaults", f_defaults), ("unused declarations of every type", f_unused), ("many", f_many)],
    ..BASE
};

// ---------------------------------------------------------------- C19

fn proc_extra(ctx: &mut Ctx, h: &Hist, v: &View, _rng: &mut Rng) -> Result<(), String> {
    ctx.count("attributed elements", v.n.iter().filter(|n| n.proc.is_some()).count());
    for n in v.n.iter() {
        //its declaration lists the processor
        if let (Some(p), Some(d)) = (&n.proc, &n.decl) {
            let d = h.doc.declarations().flatten().find(|x| x.annotationtype == d.0 && x.set == d.1).ok_or("declaration is gone")?;
            if !d.processors.iter().any(|x| h.doc.get_processor(*x).map_or(false, |x| x.id == *p)) && n.et != ElementType::Feature { return Err(format!("the declaration of {:?} {:?} does not list {:?}", d.annotationtype, d.set, p)); }
        }
    }
    Ok(())
}
const PROC_PLAN: Plan = Plan { weights: Weights { add: 7, annotate: 7, span: 4, declare: 5, processor: 4, activate: 8, feature: 2, bad: 1, attach: 0, detach: 0, existing: 0, orphan: 0, edit: 1 }, aspects: PROC | HEADER, steps: (6, 40), opts: plain, extra: proc_extra, roundtrip: true };
fn c19(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> { run(ctx, rng, &PROC_PLAN) }

fn processor(doc: &mut Document, name: &str) -> Result<ProcKey, String> { let mut p = Processor::new(name.to_string()); p.id = name.to_string(); doc.add_processor(p).map_err(fe) }
fn proc_of(doc: &Document, key: ElementKey) -> Option<String> { doc.get_element(key).and_then(|e| e.processor().map(|s| s.to_string())) }
fn f_active(ctx: &mut Ctx) -> Result<(), String> {
    for loaded in [false, true] {
        let mut doc = if loaded { parse(&wrap("<pos-annotation set=\"s\"/><lemma-annotation set=\"l\"><annotator processor=\"a\"/></lemma-annotation>", "<provenance><processor xml:id=\"a\" name=\"a\"/></provenance>", "<w xml:id=\"w\"><pos xml:id=\"old\" class=\"x\"/><lemma xml:id=\"oldl\" class=\"y\"/></w>"))? } else { let mut d = fresh()?; d.add_element_to(0, el(ElementType::Word).with_attrib(id("w"))).map_err(fe)?; processor(&mut d, "a")?; d };
        let w = doc.get_element_key_by_id("w").unwrap();
        let b = processor(&mut doc, "b")?;
        let c = processor(&mut doc, "c")?;
        let pos = |doc: &mut Document, extra: Option<&str>| { let mut e = el(ElementType::PosAnnotation).with_attribs(vec![st("s"), cl("n")]); if let Some(p) = extra { e.set_attrib(Attribute::Processor(p.into())); } doc.annotate(w, e).map_err(fe) };
        doc.activate_processor(b);
        let e1 = pos(&mut doc, None)?;
        doc.activate_processor(c);
        let e2 = pos(&mut doc, Some("a"))?;
        eq("explicit", proc_of(&doc, e2), Some("a".to_string()))?;
        eq("first", proc_of(&doc, e1), Some("b".to_string()))?;
        let e3 = pos(&mut doc, None)?;
        eq("after switching", proc_of(&doc, e3), Some("c".to_string()))?;
        eq("first, still", proc_of(&doc, e1), Some("b".to_string()))?;
        let d = doc.declarations().flatten().find(|d| d.annotationtype == AnnotationType::POS).ok_or("declaration")?;
        for p in [b, c, doc.get_processor_key_by_id("a").unwrap()] { if !d.processors.contains(&p) { return Err(format!("processor {} is not in the declaration", p)); } }
        if loaded {
            eq("old", doc.get_element_by_id("old").and_then(|e| e.processor().map(|s| s.to_string())), None)?;
            eq("old lemma", doc.get_element_by_id("oldl").and_then(|e| e.processor().map(|s| s.to_string())), Some("a".into()))?;
        }
        let k = doc.declare(AnnotationType::SENSE, &Some("q".into()), &None, &None).map_err(fe)?;
        eq("declared", doc.get_declaration(k).map(|d| d.processors.clone()), Some(vec![c]))?;
        same_after_roundtrip(&doc, 0)?;
    }
    //a processor from the properties
    let mut p = Processor::new("x".into());
    p.id = "x".into();
    let mut doc = Document::new("d", DocumentProperties::default().with_processor(p)).map_err(fe)?;
    let w = doc.add_element_to(0, el(ElementType::Word)).map_err(fe)?;
    let e = doc.annotate(w, el(ElementType::PosAnnotation).with_attribs(vec![st("s"), cl("n")])).map_err(fe)?;
    eq("from properties", proc_of(&doc, e), Some("x".to_string()))?;
    ctx.eval(Some(1));
    Ok(())
}
///Switching many times; everything keeps what it had, also after a round trip
///As many processors as there are keys for: each stays what it is
fn f_manyprocs(ctx: &mut Ctx) -> Result<(), String> {
    let mut doc = fresh()?;
    let w = doc.add_element_to(0, el(ElementType::Word)).map_err(fe)?;
    let mut n = 0usize;
    let mut keys = vec![];
    while n < 66_000 {
        let mut p = Processor::new(format!("name {}", n));
        p.id = format!("p{}", n);
        match doc.add_processor(p) { Ok(k) => keys.push(k), Err(_) => { ctx.count("processors refused when keys ran out", 1); break; } }
        n += 1;
    }
    for (i, key) in keys.iter().enumerate() {
        eq("processor", doc.get_processor(*key).map(|p| (p.id.clone(), p.name.clone())), Some((format!("p{}", i), format!("name {}", i))))?;
        if i % 7 == 0 { eq("key", doc.get_processor_key_by_id(&format!("p{}", i)), Some(*key))?; }
    }
    eq("in the chain", doc.provenancestore.chain.len(), n)?;
    for i in [0usize, 255, 256, 257, 32767, 32768, n - 1] {
        doc.activate_processor(keys[i]);
        let e = doc.add_element_to(w, el(ElementType::PosAnnotation).with_attribs(vec![st("s"), cl("c")])).map_err(fe)?;
        eq("processor of annotation", proc_of(&doc, e), Some(format!("p{}", i)))?;
        let e = doc.add_element_to(w, el(ElementType::LemmaAnnotation).with_attribs(vec![st("s"), cl("c"), Attribute::Processor(format!("p{}", n - 1 - i))])).map_err(fe)?;
        eq("processor of annotation", proc_of(&doc, e), Some(format!("p{}", n - 1 - i)))?;
    }
    ctx.count("processors", n);
    ctx.eval(Some(3));
    Ok(())
}
fn f_switching(ctx: &mut Ctx) -> Result<(), String> {
    let mut doc = fresh()?;
    let w = doc.add_element_to(0, el(ElementType::Word)).map_err(fe)?;
    let procs: Vec<ProcKey> = (0..9).map(|i| processor(&mut doc, &format!("p{}", i))).collect::<Result<_, _>>()?;
    let mut want: Vec<Option<String>> = vec![];
    for i in 0..300usize {
        let p = (i / 4 * 5) % 9;
        doc.activate_processor(procs[p]);
        let mut e = el([ElementType::PosAnnotation, ElementType::LemmaAnnotation, ElementType::SenseAnnotation][i % 3]).with_attribs(vec![st(["a", "b"][i % 2]), cl("c")]);
        let x = if i % 5 == 0 { let q = (p + 1 + i) % 9; e.set_attrib(Attribute::Processor(format!("p{}", q))); q } else { p };
        doc.add_element_to(w, e).map_err(fe)?;
        want.push(Some(format!("p{}", x)));
    }
    //the very first ones of each declaration get the sole processor of that declaration
    for round in 0..2 {
        let v = View::of(&doc)?;
        let got: Vec<Option<String>> = v.n.iter().filter(|n| in_group(ElementGroup::Inline, n.et)).map(|n| n.proc.clone()).collect();
        for (i, (g, w)) in got.iter().zip(want.iter()).enumerate() { eq(&format!("processor of annotation {} (round {})", i, round), g, w)?; }
        eq("number", got.len(), want.len())?;
        doc = parse(&xml(&doc, 0, 0)?)?;
    }
    ctx.eval(Some(2));
    Ok(())
}
pub static C19: Prop = Prop {
    id: "C19",
    rule: "Random histories on new and loaded documents in which processors are added and activated between adding annotations, with and without explicit processor, and declaring; after every operation the processor of every element and the annotators of every declaration are compared with an independent model. All end with a round trip. Distinct by the history.",
    cases: (24000, 960000), case: c19,
    fixed: &[("active processor", f_active), ("switching", f_switching), ("many processors", f_manyprocs)],
    ..BASE
};

// ---------------------------------------------------------------- C20

fn c20(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    let mut o = crate::gen::Opts::new(rng);
    o.size = o.size.min(if ctx.thorough() { 80 } else { 40 });
    let mut h = Hist::start(rng, o)?;
    let w = Weights { bad: 26, span: 6, ..Weights::ALL };
    let r = (|| -> Result<(), String> {
        let mut before = everything(&h.doc)?;
        for i in 0..rng.range(8, 30) {
            let refused = matches!(h.step(rng, &w).map_err(|e| format!("operation {}: {}", i, e))?, Outcome::Refused);
            let after = everything(&h.doc)?;
            if refused {
                before.same(&after).map_err(|e| format!("operation {} was refused, but: {}", i, e))?;
                ctx.count("refused operations compared", 1);
                ctx.eval(Some(crate::rng::hash(h.log.last().map_or("", |s| s)).wrapping_add(before.total as u64)));
            }
            before = after;
        }
        //and as if the failed calls had not been made
        h.compare(crate::hist::ALL)?;
        Ok(())
    })();
    ctx.input(&h.describe());
    let d = h.describe();
    ctx.sample(|| d);
    r
}
///Everything one can read, also what is not attached
struct Everything { total: usize, view: View, header: snap::Header, chain: Vec<ProcKey>, procs: usize, active: Option<ProcKey>, snap: Snap, xml: Vec<u8> }
fn everything(doc: &Document) -> Result<Everything, String> {
    let view = View::of(doc)?;
    Ok(Everything { total: view.n.len(), view, header: snap::header(doc)?, chain: doc.provenancestore.chain.clone(), procs: <Document as Store<Processor, ProcKey>>::len(doc), active: doc.active_processor, snap: snap::doc(doc)?, xml: doc.xml(0, 0).unwrap_or_default() })
}
impl Everything {
    fn same(&self, o: &Everything) -> Result<(), String> {
        eq("number of elements", o.total, self.total)?;
        self.snap.same_content(&o.snap)?;
        self.header.same(&o.header)?;
        for (i, (a, b)) in self.view.n.iter().zip(o.view.n.iter()).enumerate() {
            eq(&format!("content of {}", i), &b.items, &a.items)?;
            eq(&format!("parent of {}", i), b.parent, a.parent)?;
            eq(&format!("attributes of {}", i), &b.attrs, &a.attrs)?;
        }
        eq("identifiers", o.view.ids.len(), self.view.ids.len())?;
        eq("provenance chain", &o.chain, &self.chain)?;
        eq("number of processors", o.procs, self.procs)?;
        eq("active processor", o.active, self.active)?;
        //metadata is in no particular order
        if o.xml.len() != self.xml.len() { return Err("serialises differently".into()); }
        Ok(())
    }
}
fn refused(doc: &mut Document, what: &str, f: impl FnOnce(&mut Document) -> bool) -> Result<(), String> {
    let before = everything(doc)?;
    if f(doc) { return Err(format!("{}: accepted", what)); }
    before.same(&everything(doc)?).map_err(|e| format!("{}: refused, but: {}", what, e))
}
fn f_layerfails(ctx: &mut Ctx) -> Result<(), String> {
    //span annotation for which a layer would have been made, but that can not be added
    let mut doc = sentence(4)?;
    let (s, w) = (doc.get_element_key_by_id("s").unwrap(), doc.get_element_key_by_id("w0").unwrap());
    let ent = || el(ElementType::Entity).with_attribs(vec![st("new-set"), cl("new-class")]);
    refused(&mut doc, "unknown word last", |d| d.annotate_span(ent().with_span(&["w0", "w1", "nope"])).is_ok())?;
    refused(&mut doc, "identifier in use", |d| d.annotate_span(ent().with_attrib(id("w1")).with_span(&["w0", "w1"])).is_ok())?;
    refused(&mut doc, "identifier in use inside", |d| d.annotate_span(ent().with_span(&["w0", "w1"]).add_element(el(ElementType::Description).with_attrib(id("w1")))).is_ok())?;
    refused(&mut doc, "same identifier twice", |d| d.annotate(s, ent().with_attrib(id("n")).with_span(&["w0"]).add_element(el(ElementType::Description).with_attrib(id("n")))).is_ok())?;
    refused(&mut doc, "from structure, unknown word", |d| d.annotate(s, ent().with_span(&["nope"])).is_ok())?;
    refused(&mut doc, "from a word, no words", |d| d.annotate(w, ent()).is_ok())?;
    refused(&mut doc, "not a span", |d| d.annotate_span(el(ElementType::PosAnnotation).with_attribs(vec![st("new-set"), cl("c")])).is_ok())?;
    refused(&mut doc, "words without shared structure", |d| { d.annotate_span(ent().with_span(&["w0", "orphan"])).is_ok() })?;
    refused(&mut doc, "role of another type", |d| d.annotate(w, el(ElementType::Headspan).with_span(&["w1"])).is_ok())?;
    //the names of the failed calls can be used later
    doc.annotate_span(ent().with_attrib(id("n")).with_span(&["w0", "w1"])).map_err(fe)?;
    ctx.count("refused operations compared", 9);
    ctx.eval(Some(1));
    Ok(())
}
fn f_deepfails(ctx: &mut Ctx) -> Result<(), String> {
    let mut doc = sentence(4)?;
    let p = doc.get_element_key_by_id("p").unwrap();
    //the fault is in the last of many descendants
    let big = |bad: ElementData| { let mut s = el(ElementType::Sentence).with_attribs(vec![id("big"), st("new"), cl("new")]); for i in 0..20 { s = s.add_element(el(ElementType::Word).with_attribs(vec![id(&format!("big{}", i)), cl("new")]).add_element(el(ElementType::PosAnnotation).with_attribs(vec![st("newpos"), cl("x")]))); } s.add_element(el(ElementType::Word).add_element(bad)) };
    for (what, bad) in [("identifier", el(ElementType::LemmaAnnotation).with_attrib(id("w0"))), ("identifier used above", el(ElementType::LemmaAnnotation).with_attrib(id("big3"))), ("reference outside a span", el(ElementType::WordReference).with_attrib(Attribute::Idref("w0".into()))), ("reference to nothing", el(ElementType::EntitiesLayer).add_element(el(ElementType::Entity).with_span(&["nope"]))), ("reference without a name", el(ElementType::EntitiesLayer).add_element(el(ElementType::Entity).add_element(el(ElementType::WordReference)))), ("an existing element that does not exist", el(ElementType::Division).with(DataType::Element(99999))), ("an ancestor", el(ElementType::Division).with(DataType::Element(p)))] {
        refused(&mut doc, what, |d| d.add_element_to(p, big(bad.clone())).is_ok())?;
        refused(&mut doc, what, |d| d.annotate(p, big(bad.clone())).is_ok())?;
        if what.starts_with("ident") { refused(&mut doc, what, |d| d.add_element(big(bad.clone())).is_ok())?; }
    }
    refused(&mut doc, "no such parent", |d| d.add_element_to(99999, big(el(ElementType::Description))).is_ok())?;
    refused(&mut doc, "no such parent", |d| d.annotate(99999, big(el(ElementType::Description))).is_ok())?;
    refused(&mut doc, "not accepted", |d| d.annotate(p, el(ElementType::ListItem).with_attribs(vec![id("n"), st("new"), cl("new")])).is_ok())?;
    refused(&mut doc, "attach to nothing", |d| d.attach_element(99999, p).is_ok())?;
    refused(&mut doc, "attach nothing", |d| d.attach_element(p, 99999).is_ok())?;
    refused(&mut doc, "attach to itself", |d| d.attach_element(p, p).is_ok())?;
    let w = doc.get_element_key_by_id("w0").unwrap();
    refused(&mut doc, "attach to a descendant", |d| d.attach_element(w, p).is_ok())?;
    refused(&mut doc, "detach nothing", |d| d.detach_element(99999).is_ok())?;
    doc.add_element_to(p, big(el(ElementType::Description))).map_err(fe)?;
    ctx.count("refused operations compared", 22);
    ctx.eval(Some(2));
    Ok(())
}
///Annotations given by the keys of their vocabulary, as they are kept, rather than by name
fn f_encoded(ctx: &mut Ctx) -> Result<(), String> {
    let mut doc = sentence(4)?;
    let w = doc.get_element_key_by_id("w1").unwrap();
    let s = doc.get_element_key_by_id("s").unwrap();
    let dec = doc.declare(AnnotationType::POS, &Some("some-set".into()), &None, &None).map_err(fe)?;
    let proc = doc.add_processor(Processor::new("someone".to_string()).with_id("someone".to_string())).map_err(fe)?;
    doc.active_processor = None;
    let given = doc.annotate(w, el(ElementType::PosAnnotation).with_attribs(vec![st("some-set"), cl("N")])).map_err(fe)?;
    let class = doc.get_element(given).and_then(|e| e.class_key()).ok_or("annotation without class")?;
    let (d, c, p) = (Attribute::DeclarationRef(dec), Attribute::ClassRef(class), Attribute::ProcessorRef(proc));
    let pos = |a: Vec<Attribute>| el(ElementType::PosAnnotation).with_attribs(a);
    let mut n = 0;
    let bad: Vec<(&str, Vec<Attribute>)> = vec![
        ("a declaration that does not exist", vec![Attribute::DeclarationRef(dec + 7)]),
        ("a declaration that does not exist, with a class", vec![Attribute::DeclarationRef(dec + 7), c.clone()]),
        ("a processor that does not exist", vec![d.clone(), Attribute::ProcessorRef(proc + 5)]),
        ("a processor that does not exist, last", vec![d.clone(), c.clone(), Attribute::ProcessorRef(proc + 5)]),
        ("a processor that does not exist, alone", vec![Attribute::ProcessorRef(proc + 5)]),
        ("a set and a class key", vec![st("fresh-set"), c.clone()]),
        ("a class and a declaration key", vec![cl("fresh-class"), d.clone()]),
        ("a declaration key and a class", vec![d.clone(), cl("fresh-class")]),
        ("a class and a processor key", vec![cl("fresh-class"), p.clone()]),
        ("a processor and a class key", vec![Attribute::Processor("someone".into()), c.clone()]),
        ("keys and a processor", vec![d.clone(), c.clone(), Attribute::Processor("someone".into())]),
        ("a subset and a processor key", vec![Attribute::Subset("x".into()), p.clone()]),
        ("a set and a subset key", vec![st("fresh-set"), Attribute::SubsetRef(0)]),
    ];
    for (what, attrs) in bad.iter() {
        refused(&mut doc, what, |d| d.add_element_to(w, pos(attrs.clone())).is_ok())?;
        refused(&mut doc, what, |d| d.annotate(w, pos(attrs.clone())).is_ok())?;
        refused(&mut doc, what, |d| d.add_element(pos(attrs.clone())).is_ok())?;
        refused(&mut doc, what, |d| d.add_element_to(s, el(ElementType::Word).with_attribs(vec![id("deep"), cl("deep")]).add_element(pos(attrs.clone()))).is_ok())?;
        refused(&mut doc, what, |d| d.annotate_span(el(ElementType::Entity).with_attribs(attrs.clone()).with_span(&["w0", "w1"])).is_ok())?;
        n += 5;
    }
    //and by keys that do exist
    doc.annotate(w, pos(vec![d.clone(), c.clone(), Attribute::N("1".into())])).map_err(fe)?;
    doc.add_element_to(w, pos(vec![p.clone(), c.clone(), d.clone(), Attribute::N("2".into())])).map_err(fe)?;
    doc.annotate(w, pos(vec![d.clone()])).map_err(fe)?;
    doc.add_element_to(s, el(ElementType::Word).with_attribs(vec![id("deep"), cl("deep")]).add_element(pos(vec![Attribute::N("3".into()), d.clone(), c.clone(), p.clone()]))).map_err(fe)?;
    for _ in 0..2 {
        let v = View::of(&doc)?;
        let got: Vec<(Option<String>, Option<String>, Option<String>, Option<String>)> = (0..v.n.len()).filter(|i| v.n[*i].et == ElementType::PosAnnotation).map(|i| (v.attr(i, "n").map(|s| s.to_string()), v.n[i].decl.as_ref().and_then(|d| d.1.clone()), v.n[i].class.clone(), v.n[i].proc.clone())).collect();
        let s = |x: &str| if x.is_empty() { None } else { Some(x.to_string()) };
        let want: Vec<_> = [("", "N"), ("1", "N"), ("2", "N"), ("", ""), ("3", "N")].iter().map(|(n, c)| (s(n), s("some-set"), s(c))).collect();
        eq("annotations by key", got.iter().map(|g| (g.0.clone(), g.1.clone(), g.2.clone())).collect::<Vec<_>>(), want)?;
        for g in got.iter() { if g.0 == s("2") || g.0 == s("3") { eq("processor by key", g.3.clone(), s("someone"))?; } }
        ctx.count("annotations by key read back", 5);
        doc = parse(&xml(&doc, 0, 0)?)?;
    }
    ctx.count("refused operations compared", n);
    ctx.eval(Some(3));
    Ok(())
}
///Whether the annotation stays when the last of its features can not be added for want of a key
fn partial() -> bool {
    let f = |b: String| el(ElementType::Feature).with_attribs(vec![Attribute::Subset(b), cl("v")]);
    let mut doc = match fresh() { Ok(d) => d, Err(_) => return false };
    let w = match doc.add_element_to(0, el(ElementType::Word)) { Ok(w) => w, Err(_) => return false };
    let pos = |n: usize| el(ElementType::PosAnnotation).with_attribs(vec![st("s"), cl(&format!("c{}", n))]);
    let first = match doc.add_element_to(w, pos(0)) { Ok(w) => w, Err(_) => return false };
    for i in 0..66_000 { if doc.add_element_to(first, f(format!("b{}", i))).is_err() { break; } }
    let before = snap::doc_len(&doc);
    doc.add_element_to(w, pos(1).add_element(f("b0".into())).add_element(f("another".into()))).is_err() && snap::doc_len(&doc) != before
}

pub static C20: Prop = Prop {
    id: "C20",
    rule: "Random histories with many operations that have to be refused (identifiers in use deep inside what is added, references to nothing, missing parents, cycles, elements that are not accepted, spans for which a layer would have to be made first). Everything readable is captured before and after each refused call and compared; at the end the document must be that of the history without the refused calls. Distinct by the refused operation and the size of the document.",
    cases: (24000, 960000), case: c20,
    fixed: &[("layers for spans that can not be added", f_layerfails), ("faults deep inside", f_deepfails), ("keys that are not there", f_encoded)],
    probes: &[("out-of-keys-deep-inside", "an annotation added with features of its own stays behind when one of these is refused because its declaration has 65536 subsets already", partial)],
    ..BASE
};

// ---------------------------------------------------------------- C21

fn feat_extra(ctx: &mut Ctx, h: &Hist, v: &View, rng: &mut Rng) -> Result<(), String> {
    let all: Vec<usize> = (0..v.n.len()).filter(|i| v.n[*i].decl.is_some() && v.n[*i].et != ElementType::Feature).collect();
    if all.is_empty() { return Ok(()); }
    let mut some: Vec<usize> = all.iter().copied().filter(|i| v.children(*i).iter().any(|c| v.n[*c].et == ElementType::Feature)).collect();
    for _ in 0..2 { some.push(*rng.pick(&all)); }
    for i in some { features(ctx, &h.doc, v, i, &h.subsets)?; }
    Ok(())
}
///Everything one can ask about the features of an element
fn features(ctx: &mut Ctx, doc: &Document, v: &View, i: usize, subsets: &[String]) -> Result<(), String> {
    let e = doc.get_element(k(i)).ok_or("gone")?;
    let feats: Vec<usize> = v.children(i).into_iter().filter(|c| v.n[*c].et == ElementType::Feature).collect();
    let keys = |c: Cmp<String>| -> Vec<usize> { e.get_features(c).filter_map(|f| f.element.key()).map(|k| k as usize).collect() };
    let mut asked: Vec<String> = subsets.to_vec();
    asked.extend(feats.iter().filter_map(|f| v.n[*f].subset.clone()));
    asked.push("no such subset".into());
    asked.sort();
    asked.dedup();
    for s in asked {
        let want: Vec<usize> = feats.iter().copied().filter(|f| v.n[*f].subset.as_deref() == Some(s.as_str())).collect();
        let what = format!("features of element {} <{}> with subset {:?}", i, tag(v.n[i].et), s);
        eq(&what, keys(Cmp::Is(s.clone())), want.clone())?;
        eq(&what, e.get_feature(Cmp::Is(s.clone())).and_then(|f| f.key()).map(|k| k as usize), want.first().copied())?;
        if let Some(f) = want.first() { eq("class of the feature", e.get_feature(Cmp::Is(s)).and_then(|f| f.class().map(|s| s.to_string())), v.n[*f].class.clone())?; }
        ctx.count("features asked", 1);
    }
    let with: Vec<usize> = feats.iter().copied().filter(|f| v.n[*f].subset.is_some()).collect();
    eq(&format!("features of element {} with any subset", i), keys(Cmp::Some), with)?;
    eq(&format!("all features of element {}", i), keys(Cmp::Any), feats.clone())?;
    Ok(())
}
fn feats(o: &mut crate::gen::Opts) { plain(o); o.feats = true; o.shorthand = true; }
const FEAT_PLAN: Plan = Plan { weights: Weights { add: 6, annotate: 6, span: 3, feature: 24, declare: 5, bad: 1, attach: 0, detach: 0, existing: 0, orphan: 0, ..Weights::ALL }, aspects: TREE | VOCAB, steps: (6, 40), opts: feats, extra: feat_extra, roundtrip: true };
fn c21(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> { run(ctx, rng, &FEAT_PLAN) }
fn f_shorthand(ctx: &mut Ctx) -> Result<(), String> {
    //every shorthand of every element
    for s in SPEC.iter().filter(|s| s.at.is_some()) {
        for name in crate::gen::shorthands(s.et) {
            if snap::PLAINS.contains(&name) { continue; }
            let x = wrap("", "", &format!("<{} xml:id=\"e\" set=\"s\" class=\"c\" {}=\"val ue\"/><{} xml:id=\"f\" set=\"s\" class=\"c\"/>", s.tag, name, s.tag));
            ctx.input(&x);
            let mut doc = parse(&x)?;
            for _ in 0..2 {
                let e = doc.get_element_by_id("e").ok_or("gone")?;
                eq(&format!("{} of <{}>", name, s.tag), e.get_feature(Cmp::Is(name.to_string())).and_then(|f| f.class().map(|s| s.to_string())), Some("val ue".to_string()))?;
                eq("number", e.get_features(Cmp::Any).count(), 1)?;
                eq("the other", doc.get_element_by_id("f").map(|e| e.get_features(Cmp::Any).count()), Some(0))?;
                eq("the other", doc.get_element_by_id("f").and_then(|e| e.get_feature(Cmp::Is(name.to_string())).map(|_| ())), None)?;
                doc = parse(&xml(&doc, 0, 1)?)?;
            }
            ctx.count("shorthands", 1);
        }
        //and all of them together, in any order
        let all: Vec<&str> = crate::gen::shorthands(s.et).into_iter().filter(|n| !snap::PLAINS.contains(n)).collect();
        if all.len() < 2 { continue; }
        for way in 0..4 {
            let mut order = all.clone();
            if way & 1 == 1 { order.reverse(); }
            let attrs: String = order.iter().map(|n| format!(" {}=\"{}!\"", n, n)).collect();
            let x = wrap("", "", &if way & 2 == 2 { format!("<{} xml:id=\"e\" set=\"s\" class=\"c\"{}></{}>", s.tag, attrs, s.tag) } else { format!("<{} {} xml:id=\"e\" set=\"s\" class=\"c\"/>", s.tag, attrs) });
            ctx.input(&x);
            let mut doc = parse(&x)?;
            for _ in 0..2 {
                let e = doc.get_element_by_id("e").ok_or("gone")?;
                for name in all.iter() { eq(&format!("{} of <{}>", name, s.tag), e.get_feature(Cmp::Is(name.to_string())).and_then(|f| f.class().map(|s| s.to_string())), Some(format!("{}!", name)))?; }
                eq("number", e.get_features(Cmp::Any).count(), all.len())?;
                doc = parse(&xml(&doc, 0, 1)?)?;
            }
            ctx.count("shorthands together", 1);
        }
    }
    ctx.eval(Some(1));
    Ok(())
}
fn f_sets(ctx: &mut Ctx) -> Result<(), String> {
    //features of annotations in several sets of one type, with and without a set
    let mut doc = fresh()?;
    let w = doc.add_element_to(0, el(ElementType::Word)).map_err(fe)?;
    let mut keys = vec![];
    for i in 0..30usize {
        let mut e = el(if i % 2 == 0 { ElementType::PosAnnotation } else { ElementType::SenseAnnotation }).with_attrib(cl("c"));
        if i % 5 != 4 { e.set_attrib(st(["a", "b", "c", "d"][i % 4])); }
        let key = if i % 3 == 0 { doc.annotate(w, e.add_element(el(ElementType::Feature).with_attribs(vec![Attribute::Subset("number".into()), cl(&format!("n{}", i))]))).map_err(fe)? } else { let key = doc.annotate(w, e).map_err(fe)?; doc.annotate(key, el(ElementType::Feature).with_attribs(vec![Attribute::Subset("number".into()), cl(&format!("n{}", i))])).map_err(fe)?; key };
        if i % 4 == 1 { doc.add_element_to(key, el(ElementType::Feature).with_attribs(vec![Attribute::Subset("gender".into()), cl(&format!("g{}", i))])).map_err(fe)?; }
        keys.push(key);
    }
    for round in 0..2 {
        for (i, key) in keys.iter().enumerate() {
            let e = doc.get_element(*key).ok_or("gone")?;
            let class = |s: &str| e.get_feature(Cmp::Is(s.to_string())).and_then(|f| f.class().map(|s| s.to_string()));
            eq(&format!("number of {} (round {})", i, round), class("number"), Some(format!("n{}", i)))?;
            eq(&format!("gender of {} (round {})", i, round), class("gender"), if i % 4 == 1 { Some(format!("g{}", i)) } else { None })?;
            eq("unknown", class("case"), None)?;
            eq("count", e.get_features(Cmp::Any).count(), if i % 4 == 1 { 2 } else { 1 })?;
        }
        doc = parse(&xml(&doc, 0, 0)?)?;
        let v = View::of(&doc)?;
        keys = (0..v.n.len()).filter(|i| matches!(v.n[*i].et, ElementType::PosAnnotation | ElementType::SenseAnnotation)).map(k).collect();
    }
    ctx.eval(Some(2));
    Ok(())
}
fn f_no_subset(ctx: &mut Ctx) -> Result<(), String> {
    //the class of a feature without subset is its own, also when subclasses and classes are in different places
    for n in 0..5usize {
        let mut x = String::new();
        for i in 0..n { x += &format!("<pos class=\"p{}\"><feat subset=\"s\" class=\"f{}\"/></pos>", i, (i + 1) % n); }
        let x = wrap("<pos-annotation set=\"s\"/>", "", &format!("<w xml:id=\"w\">{}<pos class=\"x\"><feat class=\"f0\"/><feat class=\"y\"/><feat subset=\"s\" class=\"y\"/><feat class=\"p0\"/></pos></w>", x));
        ctx.input(&x);
        let mut doc = parse(&x)?;
        for _ in 0..2 {
            let v = View::of(&doc)?;
            let got: Vec<(Option<String>, Option<String>)> = v.n.iter().filter(|n| n.et == ElementType::Feature).map(|n| (n.subset.clone(), n.class.clone())).collect();
            let mut want: Vec<(Option<String>, Option<String>)> = (0..n).map(|i| (Some("s".into()), Some(format!("f{}", (i + 1) % n)))).collect();
            for (s, c) in [(None, "f0"), (None, "y"), (Some("s"), "y"), (None, "p0")] { want.push((s.map(|s: &str| s.to_string()), Some(c.to_string()))); }
            eq("features", got, want)?;
            let pos = doc.get_element((0..v.n.len()).rev().find(|i| v.n[*i].et == ElementType::PosAnnotation).map(k).ok_or("gone")?).ok_or("gone")?;
            eq("features of any subset", pos.get_features(Cmp::Any).count(), 4)?;
            eq("features without subset", pos.get_features(Cmp::None).count(), 3)?;
            for (c, want) in [("f0", 1), ("y", 2), ("p0", 1), ("x", 0)] {
                let q = Query::select().element(Cmp::Is(ElementType::Feature)).contexttype(Cmp::Is(ElementType::PosAnnotation)).set(Cmp::Is("s".into())).class(Cmp::Is(c.into()));
                eq(&format!("features with class {}", c), pos.select(Selector::from_query(&doc, &q).map_err(fe)?, Recursion::No).count(), want)?;
            }
            doc = parse(&xml(&doc, 0, 0)?)?;
        }
    }
    ctx.eval(Some(3));
    Ok(())
}
fn f_undeclared(ctx: &mut Ctx) -> Result<(), String> {
    //features of an annotation that has no set, class or processor of its own, amidst other content
    for before in 0..4usize {
        for after in 0..2usize {
            let mut doc = fresh()?;
            let p = doc.add_element_to(0, el(ElementType::Paragraph)).map_err(fe)?;
            let w = doc.add_element_to(p, el(ElementType::Word).with_attrib(id("w"))).map_err(fe)?;
            let other = |doc: &mut Document, name: &str, n: usize| -> Result<(), String> {
                for i in 0..n { doc.annotate(w, if i % 2 == 0 { el(ElementType::PosAnnotation).with_attribs(vec![st("pos-set"), cl("N")]).add_element(el(ElementType::Feature).with_attribs(vec![Attribute::Subset("number".into()), cl("of pos")])) } else { el(ElementType::Comment).with_attrib(id(&format!("{}{}", name, i))) }).map_err(fe)?; }
                Ok(())
            };
            other(&mut doc, "before", before)?;
            doc.annotate(w, el(ElementType::Feature).with_attribs(vec![Attribute::Subset("number".into()), cl("plural")])).map_err(fe)?;
            doc.annotate(w, el(ElementType::Feature).with_attribs(vec![Attribute::Subset("gender".into()), cl("f")])).map_err(fe)?;
            if after > 0 { other(&mut doc, "after", 3)?; }
            for round in 0..2 {
                let e = doc.get_element_by_id("w").ok_or("gone")?;
                let class = |s: &str| e.get_feature(Cmp::Is(s.to_string())).and_then(|f| f.class().map(|s| s.to_string()));
                let what = format!("{} annotations before, {} after, round {}", before, after, round);
                eq(&format!("number; {}", what), class("number"), Some("plural".to_string()))?;
                eq(&format!("gender; {}", what), class("gender"), Some("f".to_string()))?;
                eq(&format!("unknown; {}", what), class("case"), None)?;
                eq(&format!("count; {}", what), e.get_features(Cmp::Any).count(), 2)?;
                ctx.count("features asked for", 4);
                doc = parse(&xml(&doc, 0, round)?)?;
            }
        }
    }
    ctx.eval(Some(4));
    Ok(())
}
pub static C21: Prop = Prop {
    id: "C21",
    rule: "Random histories that mostly add features to annotations in several sets (also without set); after every operation the features of annotations are asked by every subset in use, by subsets they do not have, and all at once, and compared with the tree as read item by item; sets, classes and subsets are compared with an independent model. All end with a round trip. Distinct by the history.",
    cases: (32000, 1280000), case: c21,
    fixed: &[("features of annotations without a set", f_undeclared), ("shorthand", f_shorthand), ("several sets", f_sets), ("no subset", f_no_subset)],
    ..BASE
};
