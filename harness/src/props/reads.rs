//! Properties of reading: traversal, queries, ancestors. All results are compared with those of
//! independent implementations over the tree as read item by item.
use super::*;
use crate::gen::Opts;
use crate::hist::*;
use crate::model::El;
use crate::snap::Data;
use crate::spec::*;
use crate::view::*;
use std::collections::HashSet;

fn k(i: usize) -> ElementKey { i as ElementKey }
fn fe(e: FoliaError) -> String { format!("{:?}", e) }
fn plain(o: &mut Opts) { o.depth = o.depth.min(12); }

// ---------------------------------------------------------------- selectors

#[derive(Clone)]
pub enum Part { All, Default, TypeOrData(Cmp<ElementType>), Elements, Text, Comments, TypeOrText(Cmp<ElementType>), Q(Query) }
fn show(q: &Query) -> String { format!("[element {:?} group {:?} context {:?} set {:?} class {:?} subset {:?} processor {:?} annotator {:?} annotatortype {:?} confidence {:?}]", q.elementtype, q.elementgroup, q.contexttype, q.set, q.class, q.subset, q.processor, q.annotator, q.annotatortype, q.confidence) }
fn show_part(p: &Part) -> String { match p { Part::All => "all data".into(), Part::Default => "anything (no kind of data stated)".into(), Part::TypeOrData(c) => format!("anything, elements only if {:?}", c), Part::Elements => "elements".into(), Part::Text => "text".into(), Part::Comments => "comments".into(), Part::TypeOrText(c) => format!("text or element {:?}", c), Part::Q(q) => show(q) } }
fn show_parts(p: &[Part]) -> String { p.iter().map(show_part).collect::<Vec<_>>().join(" and ") }
fn selector(doc: &Document, parts: &[Part]) -> Result<Selector, String> {
    let mut out: Option<Selector> = None;
    for p in parts {
        let s = match p {
            Part::All => Selector::all_data(),
            Part::Default => Selector::default(),
            Part::TypeOrData(c) => Selector::default().element(c.clone()),
            Part::Elements => Selector::elements(),
            Part::Text => Selector::default().with_text(),
            Part::Comments => Selector::default().with_comments(),
            Part::TypeOrText(c) => Selector::elements().element(c.clone()).with_text(),
            Part::Q(q) => Selector::from_query(doc, q).map_err(|e| format!("the query {} is refused: {:?}", show(q), e))?,
        };
        out = Some(match out { None => s, Some(o) => o.and(s) });
    }
    Ok(out.unwrap())
}
fn typ(c: &Cmp<ElementType>, et: ElementType) -> bool { match c { Cmp::Any | Cmp::Some => true, Cmp::Is(t) => *t == et, Cmp::None | Cmp::Unmatchable => false } }
fn accepts_el(v: &View, i: usize, parts: &[Part]) -> bool {
    parts.iter().any(|p| match p { Part::All | Part::Default | Part::Elements => true, Part::Text | Part::Comments => false, Part::TypeOrText(c) | Part::TypeOrData(c) => typ(c, v.n[i].et), Part::Q(q) => v.matches(i, q) })
}
fn accepts_item(v: &View, item: &VItem, parts: &[Part]) -> bool {
    match item {
        VItem::El(i) | VItem::Span(i) => accepts_el(v, *i, parts),
        VItem::Text(_) => parts.iter().any(|p| matches!(p, Part::All | Part::Default | Part::TypeOrData(_) | Part::Text | Part::TypeOrText(_))),
        VItem::Comment(_) => parts.iter().any(|p| matches!(p, Part::All | Part::Default | Part::TypeOrData(_) | Part::Comments)),
    }
}

fn pick_cmp<T: Clone + std::fmt::Debug>(rng: &mut Rng, own: Option<&T>, others: &[T], strange: T) -> Cmp<T> {
    match rng.below(12) {
        0..=5 => match own { Some(o) => Cmp::Is(o.clone()), None => if others.is_empty() || rng.p(1, 2) { Cmp::None } else { Cmp::Is(rng.pick(others).clone()) } },
        6 | 7 => if others.is_empty() { Cmp::Is(strange) } else { Cmp::Is(rng.pick(others).clone()) },
        8 => Cmp::Is(strange),
        9 => Cmp::Some,
        10 => Cmp::None,
        _ => if rng.p(1, 4) { Cmp::Unmatchable } else { Cmp::Any },
    }
}

///Queries as a user would make them: more or less about one of the elements in the document
pub fn query(rng: &mut Rng, v: &View, sets: &[String], classes: &[String], subsets: &[String]) -> Query {
    let i = rng.below(v.n.len());
    let n = &v.n[i];
    let mut q = Query::select();
    let feature = n.et == ElementType::Feature && rng.p(3, 4);
    let mut et = None;
    if feature || rng.p(3, 4) {
        let t = if feature || rng.p(5, 6) { n.et } else { rng.pick(SPEC).et };
        et = Some(t);
        q = q.element(Cmp::Is(t));
    } else if rng.p(1, 6) { q = q.element(match rng.below(3) { 0 => Cmp::Some, 1 => Cmp::None, _ => Cmp::Unmatchable }); }
    if rng.p(1, 4) {
        let g = if rng.p(1, 2) { rng.pick(GROUPS).0 } else { GROUPS.iter().find(|g| in_group(g.0, n.et)).map(|g| g.0).unwrap_or(ElementGroup::Structure) };
        q = q.elementgroup(if rng.p(1, 12) { Cmp::Some } else if rng.p(1, 12) { Cmp::None } else { Cmp::Is(g) });
    }
    //what the set is about
    let ctx = if et == Some(ElementType::Feature) { n.parent.map(|p| v.n[p].et) } else { et };
    let mut is_set = false;
    if ctx.is_some() && rng.p(if feature { 4 } else { 1 }, if feature { 5 } else { 2 }) {
        if et == Some(ElementType::Feature) { q = q.contexttype(Cmp::Is(ctx.unwrap())); }
        let own = n.decl.as_ref().and_then(|d| d.1.clone());
        let c = pick_cmp(rng, own.as_ref(), sets, "https://example.org/no/such/set".to_string());
        is_set = matches!(c, Cmp::Is(_) | Cmp::None);
        q = q.set(c);
    } else if rng.p(1, 8) { q = q.set(rng.pick(&[Cmp::Some, Cmp::Any]).clone()); }
    if et == Some(ElementType::Feature) && rng.p(4, 5) {
        let mut c = pick_cmp(rng, n.subset.as_ref(), subsets, "no such subset".to_string());
        if !is_set && matches!(c, Cmp::Is(_)) { c = Cmp::Some; }
        q = q.subset(c);
    }
    if rng.p(1, 2) {
        let mut c = pick_cmp(rng, n.class.as_ref(), classes, "no such class".to_string());
        if !is_set && matches!(c, Cmp::Is(_)) { c = if rng.p(1, 2) { Cmp::Some } else { Cmp::None }; }
        q = q.class(c);
    }
    let procs: Vec<String> = { let mut p: Vec<String> = v.procs.keys().cloned().collect(); p.sort(); p };
    let names: Vec<String> = { let mut p: Vec<String> = v.procs.values().map(|x| x.0.clone()).collect(); p.sort(); p };
    if rng.p(1, 5) { let c = pick_cmp(rng, n.proc.as_ref(), &procs, "no such processor".to_string()); q = q.processor(c); }
    if rng.p(1, 6) {
        let own = n.proc.as_ref().and_then(|p| v.procs.get(p)).map(|p| p.0.clone()).or(v.attr(i, "annotator").map(|s| s.to_string()));
        let c = pick_cmp(rng, own.as_ref(), &names, "nobody".to_string());
        q = q.annotator(c);
    }
    if rng.p(1, 6) {
        let strange = *rng.pick(&[ProcessorType::Generator, ProcessorType::DataSource]);
        let c = pick_cmp(rng, n.proc.as_ref().and_then(|p| v.procs.get(p)).map(|p| p.1).as_ref(), &[ProcessorType::Auto, ProcessorType::Manual], strange);
        q = q.annotatortype(c);
    }
    if rng.p(1, 6) {
        let c = pick_cmp(rng, v.attr(i, "confidence").and_then(|s| u64::from_str_radix(s.trim_start_matches("0x"), 16).ok()).map(f64::from_bits).as_ref(), &[0.5, 1.0], 0.123456789);
        q.confidence = c;
    }
    q
}
fn recursion(rng: &mut Rng, v: &View) -> Recursion {
    fn list(rng: &mut Rng, v: &View) -> Vec<AcceptedData> {
        (0..rng.below(5)).map(|_| if rng.p(1, 3) { AcceptedData::AcceptElementGroup(rng.pick(GROUPS).0) } else { AcceptedData::AcceptElementType(if rng.p(5, 6) { v.n[rng.below(v.n.len())].et } else { rng.pick(SPEC).et }) }).collect()
    }
    match rng.below(8) { 0 => Recursion::No, 1 | 2 => Recursion::LimitedTo(list(rng, v)), 3 | 4 => Recursion::ExceptFor(list(rng, v)), _ => Recursion::Always }
}
fn show_rec(r: &Recursion) -> String { format!("{:?}", r) }

// ---------------------------------------------------------------- C09

///What has to be yielded: (what, parent, position, depth)
fn expected(v: &View, root: usize, parts: &[Part], rec: &Recursion, inclusive: bool, spans: bool) -> Vec<(VItem, usize, usize, usize)> {
    let mut out = vec![];
    let mut seen = HashSet::new();
    if inclusive && accepts_el(v, root, parts) { out.push((VItem::El(root), v.n[root].parent.unwrap_or(root), 0, 0)); }
    for (owner, pos, depth) in v.walk(root, rec) {
        let item = &v.n[owner].items[pos];
        if !accepts_item(v, item, parts) { continue; }
        if spans {
            let span = match item { VItem::Span(s) => Some(*s), VItem::El(e) if in_group(ElementGroup::Span, v.n[*e].et) => Some(*e), _ => None };
            if let Some(s) = span { if !seen.insert(s) { continue; } }
        }
        out.push((item.clone(), owner, pos, depth));
    }
    out
}
fn got(it: SelectIterator) -> Vec<(VItem, usize, usize, usize)> {
    it.map(|x| (match x.data { DataType::Element(e) => VItem::El(*e as usize), DataType::Text(t) => VItem::Text(t.clone()), DataType::Comment(t) => VItem::Comment(t.clone()), DataType::SpanReference(s) => VItem::Span(*s as usize), DataType::AddElement(_) => VItem::Comment("???".into()) }, x.parent_key as usize, x.cursor, x.depth)).collect()
}
fn keys(items: &[(VItem, usize, usize, usize)]) -> Vec<usize> { items.iter().filter_map(|x| match x.0 { VItem::El(i) | VItem::Span(i) => Some(i), _ => None }).collect() }
fn same<T: PartialEq + std::fmt::Debug>(what: &dyn Fn() -> String, got: Vec<T>, want: Vec<T>) -> Result<(), String> {
    if got == want { return Ok(()); }
    let at = got.iter().zip(want.iter()).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    Err(format!("{}: {} items, should be {}; number {} is {:?}, should be {:?}", what(), got.len(), want.len(), at, got.get(at), want.get(at)))
}

fn walk_extra(ctx: &mut Ctx, h: &Hist, v: &View, rng: &mut Rng) -> Result<(), String> {
    for round in 0..6 {
        let root = if rng.p(1, 4) { 0 } else { rng.below(v.n.len()) };
        let parts: Vec<Part> = (0..if rng.p(1, 3) { rng.range(2, 3) } else { 1 }).map(|_| match rng.below(12) {
            0 | 1 => Part::All, 10 => Part::Default, 11 => Part::TypeOrData(Cmp::Is(v.n[rng.below(v.n.len())].et)), 2 => Part::Elements, 3 => Part::Text, 4 => Part::Comments,
            5 => Part::TypeOrText(Cmp::Is(v.n[rng.below(v.n.len())].et)),
            6 => Part::Q(Query::select().elementgroup(Cmp::Is(*rng.pick(&[ElementGroup::Span, ElementGroup::Structure, ElementGroup::Layer, ElementGroup::Inline])))),
            _ => Part::Q(Query::select().element(Cmp::Is(v.n[rng.below(v.n.len())].et))),
        }).collect();
        let rec = recursion(rng, v);
        let (inclusive, spans) = (rng.p(1, 2), rng.p(2, 3));
        let what = || format!("from element {} <{}>, {}, recursion {}, inclusive {}, span references {}", root, tag(v.n[root].et), show_parts(&parts), show_rec(&rec), inclusive, spans);
        let want = expected(v, root, &parts, &rec, inclusive, spans);
        let sel = selector(&h.doc, &parts)?;
        let items = got(h.doc.select_data_by_key(k(root), sel.clone(), rec.clone(), inclusive, spans));
        ctx.count("items yielded", items.len());
        if items.len() > 3 { ctx.count("traversals of more than three items", 1); }
        same(&what, items, want.clone())?;
        ctx.count("traversals", 1);
        //elements only, through the document and through the element
        let e = h.doc.get_element(k(root)).ok_or("gone")?;
        let els: Vec<usize> = h.doc.select_by_key(k(root), sel.clone(), rec.clone(), inclusive, spans).map(|e| e.key().unwrap() as usize).collect();
        same(&|| format!("elements {}", what()), els, keys(&want))?;
        match round % 6 {
            0 => {
                let els: Vec<usize> = e.select(sel.clone(), rec.clone()).map(|e| e.key().unwrap() as usize).collect();
                same(&|| format!("select on the element {}", what()), els, keys(&expected(v, root, &parts, &rec, false, true)))?;
            }
            1 => same(&|| format!("select_data on the element {}", what()), got(e.select_data(sel.clone(), rec.clone(), spans)), expected(v, root, &parts, &rec, false, spans))?,
            2 => same(&|| format!("select_data on the document {}", what()), got(h.doc.select_data(sel.clone(), rec.clone(), spans)), expected(v, 0, &parts, &rec, false, spans))?,
            3 => {
                let els: Vec<usize> = h.doc.select(sel.clone(), rec.clone()).map(|e| e.key().unwrap() as usize).collect();
                same(&|| format!("select on the document {}", what()), els, keys(&expected(v, 0, &parts, &rec, false, true)))?;
            }
            4 => same(&|| format!("select_data_by_key on an element {}", what()), got(e.select_data_by_key(k(root), sel.clone(), rec.clone(), inclusive, spans)), want.clone())?,
            _ => {
                let els: Vec<usize> = e.select_by_key(k(root), sel.clone(), rec.clone(), inclusive, spans).map(|e| e.key().unwrap() as usize).collect();
                same(&|| format!("select_by_key on an element {}", what()), els, keys(&want))?;
            }
        }
    }
    Ok(())
}
const WALK_PLAN: Plan = Plan { weights: Weights { span: 8, attach: 5, ..Weights::ALL }, aspects: 0, steps: (2, 14), opts: plain, extra: walk_extra, roundtrip: false };
fn c09(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> { run(ctx, rng, &WALK_PLAN) }

fn tree_doc(n: usize) -> String {
    let mut x = String::new();
    for p in 0..n {
        x += &format!("<p xml:id=\"p{}\">", p);
        for s in 0..3 {
            x += &format!("<s xml:id=\"p{}.s{}\">", p, s);
            for w in 0..4 { x += &format!("<w xml:id=\"p{}.s{}.w{}\"><t>x<!--c-->y</t><pos class=\"c\"/></w>", p, s, w); }
            x += "<entities>";
            for e in 0..3 { x += &format!("<entity xml:id=\"p{}.s{}.e{}\" class=\"e\"><wref id=\"p{}.s{}.w{}\"/><wref id=\"p{}.s{}.w{}\"/></entity>", p, s, e, p, s, e, p, s, e + 1); }
            x += "</entities></s>";
        }
        x += "</p>";
    }
    wrap("", "", &x)
}
///All roots, recursion modes and a list of selectors on one document
fn f_all(ctx: &mut Ctx) -> Result<(), String> {
    let doc = parse(&tree_doc(3))?;
    let v = View::of(&doc)?;
    let ty = |t| Part::Q(Query::select().element(Cmp::Is(t)));
    let gr = |t| Part::Q(Query::select().elementgroup(Cmp::Is(t)));
    let sels: Vec<Vec<Part>> = vec![vec![Part::All], vec![Part::Default], vec![Part::TypeOrData(Cmp::Is(ElementType::Word))], vec![Part::Elements], vec![Part::Text], vec![Part::Comments], vec![Part::Text, Part::Comments], vec![ty(ElementType::Word)], vec![ty(ElementType::Entity)], vec![gr(ElementGroup::Span)], vec![gr(ElementGroup::Structure)], vec![ty(ElementType::Word), ty(ElementType::Entity), Part::Text], vec![Part::Q(Query::select().element(Cmp::Is(ElementType::Entity)).set(Cmp::Is("zzz".into())))], vec![Part::Q(Query::select().element(Cmp::Is(ElementType::Entity)).set(Cmp::Is("zzz".into()))), ty(ElementType::Sentence)], vec![Part::TypeOrText(Cmp::Is(ElementType::PosAnnotation))]];
    let t = |x| AcceptedData::AcceptElementType(x);
    let g = |x| AcceptedData::AcceptElementGroup(x);
    let recs = vec![Recursion::Always, Recursion::No, Recursion::LimitedTo(vec![]), Recursion::ExceptFor(vec![]), Recursion::LimitedTo(vec![t(ElementType::Text), t(ElementType::Paragraph)]), Recursion::LimitedTo(vec![g(ElementGroup::Structure)]), Recursion::ExceptFor(vec![t(ElementType::Sentence)]), Recursion::ExceptFor(vec![g(ElementGroup::Layer), t(ElementType::Word)]), Recursion::ExceptFor(vec![g(ElementGroup::Structure)])];
    for root in 0..v.n.len() {
        for parts in &sels {
            let sel = selector(&doc, parts)?;
            for rec in &recs {
                for (inclusive, spans) in [(false, false), (true, false), (false, true), (true, true)] {
                    same(&|| format!("from element {} <{}>, {}, recursion {}, inclusive {}, span references {}", root, tag(v.n[root].et), show_parts(parts), show_rec(rec), inclusive, spans), got(doc.select_data_by_key(k(root), sel.clone(), rec.clone(), inclusive, spans)), expected(&v, root, parts, rec, inclusive, spans))?;
                    ctx.count("traversals", 1);
                }
            }
        }
    }
    ctx.eval(Some(1));
    Ok(())
}
///Spans are yielded at the first word they cover, also if their keys are far apart and in any order
fn f_spans(ctx: &mut Ctx) -> Result<(), String> {
    let n = 400;
    let mut x = String::from("<s xml:id=\"s\">");
    for i in 0..n { x += &format!("<w xml:id=\"w{}\"/>", i); }
    x += "<entities set=\"e\">";
    for i in 0..n { x += &format!("<entity set=\"e\" xml:id=\"e{}\"><wref id=\"w{}\"/><wref id=\"w{}\"/></entity>", i, (i * 37) % n, (i * 91 + 5) % n); }
    x += "</entities></s>";
    let doc = parse(&wrap("", "", &x))?;
    let v = View::of(&doc)?;
    let parts = vec![Part::Q(Query::select().elementgroup(Cmp::Is(ElementGroup::Span)))];
    let sel = selector(&doc, &parts)?;
    for root in [0usize, v.ids["s"]] {
        let want = expected(&v, root, &parts, &Recursion::Always, false, true);
        eq("number of spans", want.len(), n)?;
        let items = got(doc.select_data_by_key(k(root), sel.clone(), Recursion::Always, false, true));
        if items.iter().any(|x| !matches!(x.0, VItem::Span(_))) { return Err("a span is not yielded at its first word".into()); }
        same(&|| "spans".to_string(), items, want)?;
        //each position is that of the first word
        let els: Vec<usize> = doc.select_by_key(k(root), sel.clone(), Recursion::Always, false, true).map(|e| e.key().unwrap() as usize).collect();
        eq("distinct", els.iter().collect::<HashSet<_>>().len(), n)?;
    }
    for i in 0..n {
        //from one word: the spans that cover it
        let w = v.ids[&format!("w{}", i)];
        let els: Vec<usize> = doc.select_by_key(k(w), sel.clone(), Recursion::Always, false, true).map(|e| e.key().unwrap() as usize).collect();
        let want: Vec<usize> = (0..n).filter(|e| (e * 37) % n == i || (e * 91 + 5) % n == i).map(|e| v.ids[&format!("e{}", e)]).collect();
        let mut got = els.clone();
        got.sort();
        eq("spans of a word", got, want)?;
        ctx.count("words", 1);
    }
    ctx.eval(Some(2));
    Ok(())
}
///More children than fit in 16 bits, more levels than fit in 8
fn f_large(ctx: &mut Ctx) -> Result<(), String> {
    let wide = 70_000;
    let mut x = String::from("<p xml:id=\"wide\">");
    for i in 0..wide { x += match i % 7 { 0 => "<s/>", 1 => "<!--c-->", 2 => "<gap/>", 3 => "<w><t>x</t></w>", _ => "<w/>" }; }
    x += "</p>";
    for d in [300, 3000] {
        x += &"<div><!--c-->".repeat(d);
        x += "<p><w xml:id=\"w\"/></p>".replace("\"w\"", &format!("\"w{}\"", d)).as_str();
        x += &"<w/></div>".repeat(d);
    }
    let doc = parse(&wrap("", "", &x))?;
    let v = View::of(&doc)?;
    for parts in [vec![Part::All], vec![Part::Q(Query::select().element(Cmp::Is(ElementType::Word)))], vec![Part::Comments], vec![Part::Q(Query::select().element(Cmp::Is(ElementType::Quote)))]] {
        let sel = selector(&doc, &parts)?;
        for root in [0, v.ids["wide"]] {
            for rec in [Recursion::Always, Recursion::No, Recursion::ExceptFor(vec![AcceptedData::AcceptElementType(ElementType::Word)])] {
                for spans in [false, true] {
                    let want = expected(&v, root, &parts, &rec, true, spans);
                    ctx.count("items", want.len());
                    same(&|| format!("from element {}, {}, recursion {}, span references {}", root, show_parts(&parts), show_rec(&rec), spans), got(doc.select_data_by_key(k(root), sel.clone(), rec.clone(), true, spans)), want)?;
                }
            }
        }
    }
    ctx.eval(Some(4));
    Ok(())
}
///Ancestors in deep trees, in common of many
fn f_deep(ctx: &mut Ctx) -> Result<(), String> {
    let mut x = String::new();
    for i in 0..3000 { x += &format!("<div xml:id=\"d{}\"{}>", i, if i % 5 == 0 { " class=\"five\" set=\"s\"" } else { "" }); if i % 10 == 3 { x += &format!("<p xml:id=\"p{}\"><w/><w/></p>", i); } }
    for _ in 0..3000 { x += "</div>"; }
    let doc = parse(&wrap("", "", &x))?;
    let v = View::of(&doc)?;
    let all: Vec<usize> = (0..300).map(|i| v.ids[&format!("p{}", i * 10 + 3)]).collect();
    for parts in [vec![Part::Elements], vec![Part::Q(Query::select().element(Cmp::Is(ElementType::Division)).set(Cmp::Is("s".into())).class(Cmp::Is("five".into())))], vec![Part::Q(Query::select().element(Cmp::Is(ElementType::Paragraph)))]] {
        let sel = selector(&doc, &parts)?;
        for i in [0, 1, 25, 26, 27, 128, 257, 299] {
            let mut group: Vec<usize> = all.iter().copied().skip(i).step_by(1 + i % 3).collect();
            if i % 2 == 1 { group.reverse(); }
            let ancs: Vec<Vec<usize>> = group.iter().map(|g| v.ancestors(*g)).collect();
            let want: Vec<usize> = ancs[0].iter().copied().filter(|a| accepts_el(&v, *a, &parts)).collect();
            ctx.count("ancestors", want.len());
            same(&|| format!("ancestors of {} with {}", group[0], show_parts(&parts)), doc.ancestors_by_key(k(group[0]), sel.clone()).map(|e| e.element.key().unwrap() as usize).collect(), want)?;
            let min: HashSet<usize> = ancs.iter().skip(1).fold(ancs[0].iter().copied().collect(), |a: HashSet<usize>, b| { let b: HashSet<usize> = b.iter().copied().collect(); a.intersection(&b).copied().collect() });
            let want: Vec<usize> = ancs[0].iter().copied().filter(|a| min.contains(a) && accepts_el(&v, *a, &parts)).collect();
            let keys: Vec<ElementKey> = group.iter().map(|g| k(*g)).collect();
            same(&|| format!("ancestors in common of {} elements with {}", group.len(), show_parts(&parts)), doc.common_ancestors(sel.clone(), &keys).into_iter().map(|k| k as usize).collect(), want)?;
            ctx.count("groups", 1);
        }
    }
    ctx.eval(Some(2));
    Ok(())
}
///Long texts: of one element, of many, of spans over many
fn f_long(ctx: &mut Ctx) -> Result<(), String> {
    let long: String = (0..70_000u64).map(|i| char::from_u32(0x61 + (i * i % 26) as u32).unwrap()).collect();
    let mut x = format!("<s xml:id=\"s\"><w xml:id=\"long\"><t>{}</t></w>", long);
    let mut want = long.clone();
    let n = 3000;
    for i in 0..n { x += &format!("<w xml:id=\"w{}\"{}><t>t{}</t></w>", i, if i % 9 == 4 { " space=\"no\"" } else { "" }, i); }
    for i in 0..n { want += if i > 0 && (i - 1) % 9 == 4 { "" } else { " " }; want += &format!("t{}", i); }
    x += "<entities><entity xml:id=\"e\" class=\"c\">";
    let mut span = String::new();
    for i in 0..500 { x += &format!("<wref id=\"w{}\"/>", i * 5); span += &format!("{}t{}", if i > 0 && ((i - 1) * 5) % 9 != 4 { " " } else { "" }, i * 5); }
    x += "</entity></entities></s>";
    x += "<p xml:id=\"m\"><t>";
    let mut marked = String::new();
    for i in 0..2000 { x += &format!("<t-style>s{}</t-style>-", i); marked += &format!("s{}-", i); }
    x += "</t></p>";
    let mut doc = parse(&wrap("", "", &x))?;
    for round in 0..2 {
        for (id, want) in [("long", long.clone()), ("s", want.clone()), ("e", span.clone()), ("m", marked.clone())] {
            let got = doc.text(doc.get_element_key_by_id(id).ok_or("gone")?, &TextParameters::default()).map_err(fe)?;
            if got != want { let at = got.chars().zip(want.chars()).position(|(a, b)| a != b); return Err(format!("long text of {} (round {}) is something else: {} bytes instead of {}, first difference at {:?}", id, round, got.len(), want.len(), at)); }
            ctx.count("bytes of text", got.len());
        }
        let all = doc.text(0, &TextParameters::default()).map_err(fe)?;
        eq("length of the text of the document", all.len(), want.len() + 1 + marked.len())?;
        doc = parse(&xml(&doc, 0, 0)?)?;
    }
    ctx.eval(Some(4));
    Ok(())
}
///Iterators can be interleaved and stopped half way
fn f_interleaved(ctx: &mut Ctx) -> Result<(), String> {
    let doc = parse(&tree_doc(4))?;
    let v = View::of(&doc)?;
    let parts = vec![Part::All];
    let mut its: Vec<(SelectIterator, Vec<(VItem, usize, usize, usize)>, usize)> = (0..20).map(|i| (doc.select_data_by_key(k(i * 5), Selector::all_data(), Recursion::Always, i % 2 == 0, i % 3 == 0), expected(&v, i * 5, &parts, &Recursion::Always, i % 2 == 0, i % 3 == 0), 0)).collect();
    let mut left = its.len();
    let mut turn = 0;
    while left > 0 {
        turn += 1;
        for (it, want, at) in its.iter_mut() {
            if *at > want.len() || turn % 3 == 0 && *at % 2 == 0 { if *at <= want.len() { } else { continue } }
            let x: Vec<_> = got1(it.next());
            match (x.first(), want.get(*at)) { (Some(a), Some(b)) if a == b => {}, (None, None) => { left -= 1; }, (a, b) => return Err(format!("interleaved: {:?}, should be {:?}", a, b)) }
            *at += 1;
        }
    }
    for (it, _, _) in its.iter_mut() { if it.next().is_some() { return Err("an iterator goes on after its end".into()); } }
    ctx.eval(Some(3));
    Ok(())
}
fn got1(x: Option<SelectItem>) -> Vec<(VItem, usize, usize, usize)> {
    x.into_iter().map(|x| (match x.data { DataType::Element(e) => VItem::El(*e as usize), DataType::Text(t) => VItem::Text(t.clone()), DataType::Comment(t) => VItem::Comment(t.clone()), DataType::SpanReference(s) => VItem::Span(*s as usize), DataType::AddElement(_) => VItem::Comment("???".into()) }, x.parent_key as usize, x.cursor, x.depth)).collect()
}

pub static C09: Prop = Prop {
    id: "C09",
    rule: "On the documents of random histories (also detached parts and orphans), traversals from random elements with random selectors, recursion modes and options: every item with its parent, position and depth is compared with an independent walk over the tree. One document is traversed from all its elements, in 468 ways each. Distinct by the history.",
    cases: (40000, 1600000), case: c09,
    fixed: &[("all roots and modes", f_all), ("spans", f_spans), ("interleaved", f_interleaved), ("wide and deep", f_large)],
    ..BASE
};

// ---------------------------------------------------------------- C10

fn query_extra(ctx: &mut Ctx, h: &Hist, v: &View, rng: &mut Rng) -> Result<(), String> {
    for _ in 0..8 {
        let parts: Vec<Part> = (0..if rng.p(1, 4) { rng.range(2, 4) } else { 1 }).map(|_| Part::Q(query(rng, v, &h.sets, &h.classes, &h.subsets))).collect();
        let root = if rng.p(2, 3) { 0 } else { rng.below(v.n.len()) };
        let what = || format!("from element {} <{}>, {}", root, tag(v.n[root].et), show_parts(&parts));
        let sel = selector(&h.doc, &parts)?;
        let want: Vec<usize> = v.walk(root, &Recursion::Always).into_iter().filter_map(|(o, p, _)| if let VItem::El(e) = v.n[o].items[p] { Some(e) } else { None }).filter(|e| accepts_el(v, *e, &parts)).collect();
        let els: Vec<usize> = h.doc.select_data_by_key(k(root), sel.clone(), Recursion::Always, false, false).filter_map(|x| if let DataType::Element(e) = *x { Some(e as usize) } else { None }).collect();
        if !els.is_empty() { ctx.count("queries with results", 1); }
        ctx.count("queries", 1);
        ctx.count("results", els.len());
        if els != want {
            let extra: Vec<&usize> = els.iter().filter(|e| !want.contains(e)).collect();
            let missing: Vec<&usize> = want.iter().filter(|e| !els.contains(e)).collect();
            let d = |e: Option<&&usize>| e.map(|e| format!("{} <{}> {:?} class {:?} subset {:?} processor {:?} {:?}", e, tag(v.n[**e].et), v.n[**e].decl, v.n[**e].class, v.n[**e].subset, v.n[**e].proc, v.n[**e].attrs));
            return Err(format!("{}: selects {} elements, should be {}; wrongly selected: {:?}; missing: {:?}", what(), els.len(), want.len(), d(extra.first()), d(missing.first())));
        }
        //on single elements, attached or not
        for _ in 0..6 {
            let i = rng.below(v.n.len());
            let want = accepts_el(v, i, &parts);
            eq(&format!("{} matches element {} <{}>", show_parts(&parts), i, tag(v.n[i].et)), sel.matches(&h.doc, &DataType::Element(k(i))), want)?;
            if want && !sel.matchable() { return Err(format!("{} is said to match nothing, but matches element {}", show_parts(&parts), i)); }
            ctx.count("elements matched", 1);
        }
    }
    //shortcuts
    for _ in 0..4 {
        let i = rng.below(v.n.len());
        let below = v.walk(i, &Recursion::Always).into_iter().filter_map(|(o, p, _)| if let VItem::El(e) | VItem::Span(e) = v.n[o].items[p] { Some(e) } else { None }).collect::<Vec<_>>();
        let et = if below.is_empty() { rng.pick(SPEC).et } else { v.n[below[rng.below(below.len())]].et };
        let set = match rng.below(4) { 0 => Cmp::Any, 1 => Cmp::Some, 2 if spec(et).at.is_some() => Cmp::None, _ if spec(et).at.is_some() => Cmp::Is(rng.pick(&h.sets).clone()), _ => Cmp::Any };
        let rec = recursion(rng, v);
        let q = Query::select().element(Cmp::Is(et)).set(set.clone());
        let want = keys(&expected(v, i, &[Part::Q(q)], &rec, false, true));
        let what = || format!("<{}> {:?} in element {} (recursion {})", tag(et), set, i, show_rec(&rec));
        let e = h.doc.get_element(k(i)).ok_or("gone")?;
        same(&|| format!("get_elements {}", what()), e.get_elements(et, set.clone(), rec.clone()).map(|e| e.key().unwrap() as usize).collect(), want.clone())?;
        eq(&format!("get_element {}", what()), e.get_element(et, set.clone(), rec.clone()).and_then(|e| e.key()).map(|k| k as usize), want.first().copied())?;
        if let Some(at) = spec(et).at {
            if at.elementtype() == et {
                same(&|| format!("get_annotations {}", what()), e.get_annotations(at, set.clone(), rec.clone()).map(|e| e.key().unwrap() as usize).collect(), want.clone())?;
                eq(&format!("get_annotation {}", what()), e.get_annotation(at, set.clone(), rec.clone()).and_then(|e| e.key()).map(|k| k as usize), want.first().copied())?;
                ctx.count("annotation shortcuts", 1);
            }
        }
        if !want.is_empty() { ctx.count("shortcuts with results", 1); }
        ctx.count("shortcuts", 1);
    }
    Ok(())
}
const QUERY_PLAN: Plan = Plan { weights: Weights { feature: 5, declare: 4, activate: 3, ..Weights::ALL }, aspects: 0, steps: (2, 14), opts: plain, extra: query_extra, roundtrip: false };
fn c10(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> { run(ctx, rng, &QUERY_PLAN) }

///Every value of every criterion, alone and with an element type, on a document with everything
fn f_criteria(ctx: &mut Ctx) -> Result<(), String> {
    let mut x = String::new();
    let (sets, classes) = (["a", "b", ""], ["a", "b", "c", "noun"]);
    let mut i = 0;
    for set in sets { for class in classes { for proc in ["p1", "p2", "p3", ""] {
        i += 1;
        let at = |k: &str, v: &str| if v.is_empty() { String::new() } else { format!(" {}=\"{}\"", k, v) };
        x += &format!("<w xml:id=\"w{}\" class=\"{}\"><pos xml:id=\"x{}\"{}{}{}{}{}><feat subset=\"a\" class=\"{}\"/><feat class=\"{}\"/></pos><lemma{} class=\"{}\"{}/></w>", i, class, i, at("set", set), at("class", if i % 7 == 0 { "" } else { class }), at("processor", proc), at("confidence", ["", "0.5", "1.0", "0", "1e-3"][i % 5]), at("annotator", ["", "", "p1", "someone"][i % 4]), class, set.to_string() + "z", at("set", if set.is_empty() { "a" } else { "" }), classes[i % 4], at("processor", ["", "p1"][i % 2]));
    } } }
    let doc = parse(&wrap("<pos-annotation/><pos-annotation set=\"a\"/><pos-annotation set=\"b\"/><lemma-annotation/><lemma-annotation set=\"a\"/>", "<provenance><processor xml:id=\"p1\" name=\"one\" type=\"auto\"/><processor xml:id=\"p2\" name=\"two\" type=\"manual\"><processor xml:id=\"p3\" name=\"one\" type=\"generator\"/></processor></provenance>", &x))?;
    let v = View::of(&doc)?;
    let s = |x: &str| x.to_string();
    let strs = |xs: &[&str]| -> Vec<Cmp<String>> { let mut v = vec![Cmp::Any, Cmp::Some, Cmp::None, Cmp::Unmatchable]; v.extend(xs.iter().map(|x| Cmp::Is(s(x)))); v };
    let mut qs = vec![];
    for et in [Cmp::Is(ElementType::PosAnnotation), Cmp::Is(ElementType::LemmaAnnotation), Cmp::Is(ElementType::Word), Cmp::Is(ElementType::SenseAnnotation), Cmp::Any] {
        let typed = et != Cmp::Any;
        for set in strs(&["a", "b", "zz"]) {
            if !typed && matches!(set, Cmp::Is(_) | Cmp::None) { continue; }
            let q = Query::select().element(et.clone()).set(set.clone());
            for class in strs(&["a", "noun", "zz"]) {
                if matches!(class, Cmp::Is(_)) && !matches!(set, Cmp::Is(_) | Cmp::None) { continue; }
                let q = q.clone().class(class);
                for p in strs(&["p1", "p2", "p3", "zz"]) { qs.push(q.clone().processor(p)); }
                for p in strs(&["one", "two", "p1", "someone", "zz"]) { qs.push(q.clone().annotator(p)); }
                for c in [Cmp::Any, Cmp::Some, Cmp::None, Cmp::Is(0.5), Cmp::Is(0.0), Cmp::Is(0.001), Cmp::Is(0.7)] { let mut q = q.clone(); q.confidence = c; qs.push(q); }
                for t in [Cmp::Some, Cmp::None, Cmp::Is(ProcessorType::Auto), Cmp::Is(ProcessorType::Manual), Cmp::Is(ProcessorType::Generator), Cmp::Is(ProcessorType::DataSource)] { qs.push(q.clone().annotatortype(t)); }
            }
        }
    }
    for ctxt in [ElementType::PosAnnotation, ElementType::LemmaAnnotation, ElementType::Word] {
        for set in strs(&["a", "b", "zz"]) {
            for subset in strs(&["a", "zz"]) {
                if matches!(subset, Cmp::Is(_)) && !matches!(set, Cmp::Is(_) | Cmp::None | Cmp::Unmatchable) { continue; }
                for class in strs(&["a", "noun", "az", "zz"]) {
                    if matches!(class, Cmp::Is(_)) && !matches!(set, Cmp::Is(_) | Cmp::None) { continue; }
                    qs.push(Query::select().element(Cmp::Is(ElementType::Feature)).contexttype(Cmp::Is(ctxt)).set(set.clone()).subset(subset.clone()).class(class));
                }
            }
        }
    }
    for g in GROUPS { for e in [Cmp::Any, Cmp::Is(ElementType::PosAnnotation), Cmp::Is(ElementType::Word)] { qs.push(Query::select().elementgroup(Cmp::Is(g.0)).element(e)); } }
    for q in &qs {
        let sel = Selector::from_query(&doc, q).map_err(|e| format!("{} is refused: {:?}", show(q), e))?;
        let matchable = sel.matchable();
        let els: Vec<usize> = doc.select(sel, Recursion::Always).map(|e| e.key().unwrap() as usize).collect();
        let want: Vec<usize> = (1..v.n.len()).filter(|i| v.matches(*i, q)).collect();
        if !want.is_empty() && !matchable { return Err(format!("{} is said to match nothing, but should match {} elements", show(q), want.len())); }
        ctx.count("queries", 1);
        if !want.is_empty() { ctx.count("queries with results", 1); }
        same(&|| show(q), els, want)?;
    }
    ctx.eval(Some(1));
    Ok(())
}

pub static C10: Prop = Prop {
    id: "C10",
    rule: "On the documents of random histories, random queries over all criteria (values of an element of the document, of others, unknown ones, and some, none, any), unions of queries, and all shortcuts, compared with the criteria evaluated for every element on what its accessors say. One document is asked a full product of criteria. Distinct by the history.",
    cases: (40000, 1600000), case: c10,
    fixed: &[("product of criteria", f_criteria)],
    ..BASE
};

// ---------------------------------------------------------------- C11

fn anc_extra(ctx: &mut Ctx, h: &Hist, v: &View, rng: &mut Rng) -> Result<(), String> {
    for _ in 0..6 {
        let i = rng.below(v.n.len());
        let part = match rng.below(5) { 0 => Part::Elements, 1 => Part::All, 4 => Part::Default, _ => Part::Q(if rng.p(1, 3) { query(rng, v, &h.sets, &h.classes, &h.subsets) } else { let a = v.ancestors(i); let et = if a.is_empty() { v.n[0].et } else { v.n[a[rng.below(a.len())]].et }; if rng.p(1, 2) { Query::select().element(Cmp::Is(et)) } else { Query::select().elementgroup(Cmp::Is(rng.pick(GROUPS).0)) } }) };
        let parts = vec![part];
        let sel = selector(&h.doc, &parts)?;
        let want: Vec<usize> = v.ancestors(i).into_iter().filter(|a| accepts_el(v, *a, &parts)).collect();
        let what = || format!("ancestors of element {} with {}", i, show_parts(&parts));
        ctx.count("ancestors found", want.len());
        same(&what, h.doc.ancestors_by_key(k(i), sel.clone()).map(|e| e.element.key().unwrap() as usize).collect(), want.clone())?;
        let e = h.doc.get_element(k(i)).ok_or("gone")?;
        same(&what, e.ancestors(sel.clone()).map(|e| e.element.key().unwrap() as usize).collect(), want.clone())?;
        //in common
        let n = rng.range(1, 5);
        let near = rng.p(2, 3);
        let mut group: Vec<usize> = vec![i];
        while group.len() < n {
            let j = if near { let p = v.ancestors(i); if p.is_empty() { rng.below(v.n.len()) } else { let p = p[rng.below(p.len().min(3))]; let w: Vec<usize> = v.walk(p, &Recursion::Always).into_iter().filter_map(|(o, c, _)| if let VItem::El(e) = v.n[o].items[c] { Some(e) } else { None }).collect(); w[rng.below(w.len())] } } else { rng.below(v.n.len()) };
            group.push(j);
        }
        let ancs: Vec<Vec<usize>> = group.iter().map(|g| v.ancestors(*g)).collect();
        let want: Vec<usize> = ancs[0].iter().copied().filter(|a| ancs.iter().all(|x| x.contains(a)) && accepts_el(v, *a, &parts)).collect();
        if !want.is_empty() && n > 1 { ctx.count("groups with common ancestors", 1); }
        let keys: Vec<ElementKey> = group.iter().map(|g| k(*g)).collect();
        same(&|| format!("ancestors in common of {:?} with {}", group, show_parts(&parts)), h.doc.common_ancestors(sel, &keys).into_iter().map(|k| k as usize).collect(), want)?;
        ctx.count("groups", 1);
        //shortcuts
        let (et, g) = { let a = v.ancestors(i); let et = if a.is_empty() { v.n[0].et } else { v.n[a[rng.below(a.len())]].et }; (et, rng.pick(GROUPS).0) };
        let set = match rng.below(4) { 0 => Cmp::Some, 1 if spec(et).at.is_some() => Cmp::None, 2 if spec(et).at.is_some() => Cmp::Is(rng.pick(&h.sets).clone()), _ => Cmp::Any };
        let q = Part::Q(Query::select().element(Cmp::Is(et)).set(set.clone()));
        let want: Vec<usize> = v.ancestors(i).into_iter().filter(|a| accepts_el(v, *a, &[q.clone()])).collect();
        let what = || format!("ancestors <{}> {:?} of element {}", tag(et), set, i);
        same(&what, e.get_ancestors(et, set.clone()).map(|e| e.element.key().unwrap() as usize).collect(), want.clone())?;
        eq(&what(), e.get_ancestor(et, set.clone()).and_then(|e| e.key()).map(|k| k as usize), want.first().copied())?;
        let set = if rng.p(1, 2) { Cmp::Any } else { Cmp::Some };
        let q = Part::Q(Query::select().elementgroup(Cmp::Is(g)).set(set.clone()));
        let want: Vec<usize> = v.ancestors(i).into_iter().filter(|a| accepts_el(v, *a, &[q.clone()])).collect();
        let what = || format!("ancestors {:?} {:?} of element {}", g, set, i);
        same(&what, e.get_ancestors_by_group(g, set.clone()).map(|e| e.element.key().unwrap() as usize).collect(), want.clone())?;
        eq(&what(), e.get_ancestor_by_group(g, set).and_then(|e| e.key()).map(|k| k as usize), want.first().copied())?;
        ctx.count("shortcuts", 2);
    }
    Ok(())
}
const ANC_PLAN: Plan = Plan { weights: Weights { attach: 8, detach: 3, orphan: 3, ..Weights::ALL }, aspects: 0, steps: (2, 20), opts: deep, extra: anc_extra, roundtrip: false };
fn deep(o: &mut Opts) { if o.depth < 12 { o.depth = 12; } }
fn c11(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> { run(ctx, rng, &ANC_PLAN) }

///All pairs and triples in a small document
fn f_pairs(ctx: &mut Ctx) -> Result<(), String> {
    let doc = parse(&wrap("", "", "<div xml:id=\"d\"><div xml:id=\"e\"><p xml:id=\"p\"><s xml:id=\"s\"><w xml:id=\"w\"/><w/></s><s><w/></s></p></div><div><p><s><w/></s></p><p/></div></div><p><s/></p>"))?;
    let v = View::of(&doc)?;
    let n = v.n.len();
    let sels = vec![vec![Part::Elements], vec![Part::Q(Query::select().element(Cmp::Is(ElementType::Division)))], vec![Part::Q(Query::select().elementgroup(Cmp::Is(ElementGroup::Structure)))], vec![Part::Q(Query::select().element(Cmp::Is(ElementType::Paragraph)))]];
    let anc: Vec<Vec<usize>> = (0..n).map(|i| v.ancestors(i)).collect();
    for parts in &sels {
        let sel = selector(&doc, parts)?;
        let mut check = |group: &[usize]| -> Result<(), String> {
            let want: Vec<usize> = anc[group[0]].iter().copied().filter(|a| group.iter().all(|g| anc[*g].contains(a)) && accepts_el(&v, *a, parts)).collect();
            ctx.count("groups", 1);
            let keys: Vec<ElementKey> = group.iter().map(|g| k(*g)).collect();
            same(&|| format!("ancestors in common of {:?} with {}", group, show_parts(parts)), doc.common_ancestors(sel.clone(), &keys).into_iter().map(|k| k as usize).collect(), want)
        };
        for a in 0..n { check(&[a])?; for b in 0..n { check(&[a, b])?; for c in 0..n { check(&[a, b, c])?; } } }
    }
    eq("ancestors of nothing in common", doc.common_ancestors(Selector::elements(), &[]).len(), 0)?;
    ctx.eval(Some(1));
    Ok(())
}

pub static C11: Prop = Prop {
    id: "C11",
    rule: "On the documents of random histories (with moved, detached and orphaned parts), ancestors under random selectors by key, from the element and through the shortcuts, and those in common of groups of one to five elements, compared with the parent links. All pairs and triples in one document. Distinct by the history.",
    cases: (40000, 1600000), case: c11,
    fixed: &[("all pairs and triples", f_pairs), ("deep", f_deep)],
    ..BASE
};

// ---------------------------------------------------------------- C16, C17

const TEXTSET: &str = crate::shadow::TEXTSET;

///Is it the text, or the right error?
fn check_text(what: &dyn Fn() -> String, got: Result<String, FoliaError>, want: Option<String>, known: bool) -> Result<(), String> {
    match (got, want) {
        (Ok(a), Some(b)) => if a == b { Ok(()) } else { Err(format!("{} is {:?}, should be {:?}", what(), a, b)) },
        (Err(FoliaError::NoTextError(_)), None) => Ok(()),
        (Err(e), None) => if known { Err(format!("{}: not a 'no text' error: {:?}", what(), e)) } else { Ok(()) },
        (Ok(a), None) => Err(format!("{} is {:?}, it has no text", what(), a)),
        //a class the vocabulary does not have
        (Err(FoliaError::KeyError(_)), Some(_)) if !known => Ok(()),
        (Err(e), Some(b)) => Err(format!("{} gives {:?}, should be {:?}", what(), e, b)),
    }
}
fn params(set: Option<&str>, class: Option<&str>, retain: bool) -> TextParameters {
    let mut p = TextParameters::new();
    //in one order or the other
    if retain { p = p.retaintokenisation(true); if let Some(c) = class { p = p.textclass(c); } }
    if let Some(s) = set { p = p.set(s); }
    if let (Some(c), false) = (class, retain) { p = p.textclass(c); }
    p
}

fn text_extra(ctx: &mut Ctx, h: &Hist, v: &View, rng: &mut Rng) -> Result<(), String> {
    let tsets: Vec<Option<String>> = h.doc.declarations().filter_map(|d| d.as_ref()).filter(|d| d.annotationtype == AnnotationType::TEXT).map(|d| d.set.clone()).collect();
    for _ in 0..15 {
        let i = if rng.p(1, 10) { 0 } else { rng.below(v.n.len()) };
        let retain = rng.p(1, 3);
        let set = match rng.below(3) { 0 => None, _ if tsets.is_empty() => None, _ => tsets[rng.below(tsets.len())].clone() };
        let class = match rng.below(3) { 0 => None, _ => Some(rng.pick(&h.classes).clone()) };
        let (s, c) = (set.as_deref().unwrap_or(TEXTSET), class.as_deref().unwrap_or("current"));
        let want = match v.text_bounded(i, s, c, retain, 20000) { Some(w) => w, None => continue };
        let dec = h.doc.declarations().position(|d| d.as_ref().map_or(false, |d| d.annotationtype == AnnotationType::TEXT && d.set.as_deref() == Some(s))).map(|d| d as DecKey);
        let known = dec.map_or(false, |d| h.doc.class_key(d, c).is_ok());
        let declared = tsets.iter().any(|t| t.as_deref() == Some(s));
        //without a declaration there is no text in that set
        let want = if declared { want } else { None };
        let what = || format!("text of element {} <{}> for set {:?} class {:?} retain {}", i, tag(v.n[i].et), set, class, retain);
        if want.as_ref().map_or(false, |w| !w.is_empty()) { ctx.count("texts", 1); } else { ctx.count("elements without text", 1); }
        let p = params(set.as_deref(), class.as_deref(), retain);
        check_text(&what, h.doc.text(k(i), &p), want.clone(), known)?;
        let e = h.doc.get_element(k(i)).ok_or("gone")?;
        check_text(&what, e.text(&p), want.clone(), known)?;
        if let (Some(d), true) = (dec, known) {
            let ck = h.doc.class_key(d, c).map_err(fe)?;
            //(the strict mode is not implemented: it makes no difference)
            for strict in [false, true] {
                check_text(&what, h.doc.text_by_key(k(i), d, ck, strict, retain), want.clone(), known)?;
                check_text(&what, e.text_by_key(d, ck, strict, retain, None), want.clone(), known)?;
                check_text(&what, e.text(&TextParameters { set: Some(s.to_string()), textclass: Some(c.to_string()), strict, retaintokenisation: retain }), want.clone(), known)?;
            }
            let sp = spec(v.n[i].et);
            if !sp.textcontainer { check_text(&what, e.text_by_key(d, ck, false, retain, Some("<>".into())), want.clone().map(|w| format!("<>{}", w)), known)?; }
            ctx.count("texts asked by key", 1);
        }
        if set.is_none() && class.is_none() && !retain {
            if let Some(w) = &want { eq(&format!("display of element {}", i), &format!("{}", e), w)?; ctx.count("displayed", 1); }
        }
        eq(&format!("delimiter of element {} <{}> retain {}", i, tag(v.n[i].et), retain), e.get_textdelimiter(retain).map_err(fe)?.to_string(), v.delimiter(i, retain))?;
    }
    if h.doc.text(k(v.n.len()), &TextParameters::default()).is_ok() { return Err("there is text for a key that was never given".into()); }
    Ok(())
}
const TEXT_PLAN: Plan = Plan { weights: Weights { add: 10, annotate: 6, span: 5, ..Weights::ALL }, aspects: 0, steps: (2, 14), opts: textual, extra: text_extra, roundtrip: false };
fn textual(o: &mut Opts) { o.depth = o.depth.max(7); o.header = true; }
fn c16(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    if rng.p(1, 2) { return run(ctx, rng, &TEXT_PLAN); }
    //structured text
    let mut n = 0;
    let mut body = texts(rng, 0, &mut n);
    //a sentence of which the parts are covered by spans
    let mut spans: Vec<(String, Vec<(String, String, bool)>)> = vec![];
    if rng.p(2, 3) {
        let words: Vec<(String, String, bool)> = (0..rng.range(1, 6)).map(|i| (format!("w{}", i), rng.word(), !rng.p(1, 3))).collect();
        let mut s = String::new();
        let mut retained = String::new();
        let mut st = String::new();
        let mut delim = "";
        for (i, t, space) in words.iter() { s += &format!("<w xml:id=\"{}\"{}><t>{}</t></w>", i, if *space { "" } else { " space=\"no\"" }, t); st += delim; st += t; delim = if *space { " " } else { "" }; retained += t; }
        let mut layers = String::new();
        for i in 0..rng.range(1, 3) {
            let mut over = words.clone();
            rng.shuffle(&mut over);
            over.truncate(rng.range(1, words.len()));
            if rng.p(2, 3) { over.sort(); }
            let refs = |w: &[(String, String, bool)]| w.iter().map(|w| format!("<wref id=\"{}\"/>", w.0)).collect::<String>();
            layers += &match rng.below(3) {
                0 => format!("<entities><entity xml:id=\"e{}\" set=\"x\">{}</entity></entities>", i, refs(&over)),
                1 => { let (a, b) = over.split_at(over.len() / 2); format!("<dependencies><dependency xml:id=\"e{}\" set=\"x\">{}<dep>{}</dep></dependency></dependencies>", i, if a.is_empty() { String::new() } else { format!("<hd>{}</hd>", refs(a)) }, refs(b)) }
                _ => format!("<chunking><chunk xml:id=\"e{}\" set=\"x\">{}</chunk></chunking>", i, refs(&over)),
            };
            spans.push((format!("e{}", i), over));
        }
        body.0 += &format!("<p><s>{}{}</s></p>", s, layers);
        if !body.1.is_empty() { body.1 += body.2; }
        body.1 += &st;
    }
    let x = wrap("", "", &body.0);
    ctx.input(&x);
    let doc = parse(&x)?;
    let v = View::of(&doc)?;
    let dec = doc.get_declaration_key_by_id(&Declaration::index_id(AnnotationType::TEXT, &Some(TEXTSET))).unwrap_or(0);
    let ck = doc.class_key(dec, "current").ok();
    //spans: the words they refer to, in the order in which they do
    for s in spans.iter() {
        for retain in [false, true] {
            let mut want = String::new();
            let mut delim = "";
            for (w, t, space) in s.1.iter() { if w.is_empty() { continue; } want += delim; want += t; delim = if *space || retain { " " } else { "" }; }
            let key = doc.get_element_key_by_id(&s.0).ok_or("span gone")?;
            check_text(&|| format!("text of the span {} (retain {})", s.0, retain), doc.text(key, &params(None, None, retain)), if want.is_empty() { None } else { Some(want) }, false)?;
            ctx.count("texts of spans", 1);
        }
    }
    for i in 0..v.n.len() {
        for retain in [false, true] {
            let want = v.text(i, TEXTSET, "current", retain);
            if want.as_ref().map_or(false, |w| !w.is_empty()) { ctx.count("texts", 1); }
            let what = || format!("text of element {} <{}> (retain {})", i, tag(v.n[i].et), retain);
            check_text(&what, doc.text(k(i), &params(None, None, retain)), want.clone(), true)?;
            if let Some(ck) = ck {
                let e = doc.get_element(k(i)).ok_or("gone")?;
                check_text(&what, doc.text_by_key(k(i), dec, ck, rng.p(1, 2), retain), want.clone(), true)?;
                check_text(&what, e.text_by_key(dec, ck, rng.p(1, 2), retain, None), want.clone(), true)?;
                check_text(&what, e.text(&TextParameters { strict: rng.p(1, 2), ..params(None, None, retain) }), want, true)?;
            }
        }
    }
    ctx.eval(Some(crate::rng::hash(&x)));
    if rng.p(1, 50) { ctx.sample(|| x.clone()); }
    //put together by hand: what the whole is
    let got = doc.text(0, &params(None, None, false)).ok();
    eq("text of the document", got, if body.1.is_empty() { None } else { Some(body.1) })
}
///Divisions, paragraphs, sentences and words with their text, joined by hand
fn texts(rng: &mut Rng, depth: usize, n: &mut usize) -> (String, String, &'static str) {
    let mut x = String::new();
    let mut text = String::new();
    let mut delim = "";
    for _ in 0..rng.range(1, 4) {
        *n += 1;
        if depth < 2 && rng.p(1, 3) && *n < 60 {
            let (a, b, _) = texts(rng, depth + 1, n);
            x += &format!("<div>{}</div>", a);
            if !b.is_empty() { text += delim; text += &b; delim = "\n\n\n"; }
            continue;
        }
        match rng.below(6) {
            0 => { let t = rng.word(); x += &format!("<head><t>{}</t></head>", t); text += delim; text += &t; delim = "\n\n"; }
            1 => x += "<gap/><!-- nothing -->",
            2 => {
                let mut y = String::new();
                let mut t = String::new();
                for _ in 0..rng.range(1, 3) { let w = rng.word(); y += &format!("<item><t>{}</t></item>", w); if !t.is_empty() { t += "\n"; } t += &w; }
                x += &format!("<list>{}</list>", y);
                text += delim; text += &t; delim = "\n\n";
            }
            _ => {
                let mut p = String::new();
                let mut pt = String::new();
                let mut pd = "";
                for _ in 0..rng.range(0, 3) {
                    let mut s = String::new();
                    let mut st = String::new();
                    let mut sd = "";
                    for _ in 0..rng.range(0, 5) {
                        let w = rng.word();
                        match rng.below(9) {
                            0 => s += &format!("<w space=\"no\"><t>{}</t></w>", w),
                            1 => { s += &format!("<w><t class=\"other\">{}</t></w>", w); continue }
                            2 => { s += &format!("<hiddenw><t>{}</t></hiddenw>", w); continue }
                            3 => s += &format!("<w><t><t-style>{}</t-style>{}</t></w>", &w[..w.char_indices().nth(1).map_or(w.len(), |c| c.0)], &w[w.char_indices().nth(1).map_or(w.len(), |c| c.0)..]),
                            4 => s += &format!("<correction><new><w><t>{}</t></w></new><original><w><t>zzz</t></w></original></correction>", w),
                            5 => s += &format!("<w><alt><t>zzz</t></alt><t>{}</t><desc>zzz</desc></w>", w),
                            _ => s += &format!("<w><t>{}</t></w>", w),
                        }
                        st += sd; st += &w;
                        sd = if s.ends_with("</w>") && s.rfind("<w").map_or(false, |i| s[i..].starts_with("<w space=\"no\"")) { "" } else { " " };
                    }
                    if rng.p(1, 4) { let own = rng.word(); s += &format!("<t>{}</t>", own); if st.is_empty() { st = own; } }
                    p += &format!("<s>{}</s>", s);
                    if !st.is_empty() { pt += pd; pt += &st; pd = " "; }
                }
                if rng.p(1, 4) { let own = rng.word(); p = format!("<t>{}</t>{}", own, p); if pt.is_empty() { pt = own; } }
                x += &format!("<p>{}</p>", p);
                if !pt.is_empty() { text += delim; text += &pt; delim = "\n\n"; }
            }
        }
    }
    (x, text, delim)
}
///Between two elements of every type: the delimiter of the first
fn f_delimiters(ctx: &mut Ctx) -> Result<(), String> {
    for s in SPEC.iter().filter(|s| in_group(ElementGroup::Structure, s.et) && s.et != ElementType::Text && s.et != ElementType::Speech && accepts(s.et, ElementType::TextContent) && s.printable && !s.hidden) {
        for retain in [false, true] {
            for space in ["", " space=\"yes\"", " space=\"no\""] {
                let x = wrap("", "", &format!("<div><{t}{sp}><t>one</t></{t}><{t}><t>two</t></{t}></div>", t = s.tag, sp = space));
                ctx.input(&x);
                let doc = parse(&x)?;
                let d = s.delimiter.unwrap_or("");
                let d = if s.space && !retain && space.contains("no") { "" } else { d };
                check_text(&|| format!("two <{}>{} (retain {})", s.tag, space, retain), doc.text(1, &params(None, None, retain)), Some(format!("one{}two", d)), true)?;
                ctx.count("delimiters", 1);
            }
        }
    }
    ctx.eval(Some(1));
    Ok(())
}
fn f_markup(ctx: &mut Ctx) -> Result<(), String> {
    let t = |body: &str| -> Result<Result<String, FoliaError>, String> { let x = wrap("", "", &format!("<p xml:id=\"p\"><t xml:id=\"t\">{}</t></p>", body)); let doc = parse(&x)?; Ok(doc.text(doc.get_element_key_by_id("p").unwrap(), &TextParameters::default())) };
    for (body, want) in [
        ("a<t-str>b</t-str>c", Some("abc")), ("<t-style>a<t-str>b<t-gap>c</t-gap></t-str></t-style>d", Some("abcd")), ("a<br/>b", Some("a\u{0}b")), ("<t-str/>", None), ("", None), ("a<!-- x -->b", Some("ab")), ("a&amp;b<![CDATA[<c>]]>", Some("a&b<c>")),
        ("a<t-correction original=\"zz\">b</t-correction>c", Some("abc")), ("a<t-error>b</t-error>", Some("ab")), (" a  b ", Some(" a  b ")), ("a\u{a0}<t-lang>é漢</t-lang>\u{1F600}", Some("a\u{a0}é漢\u{1F600}")), ("a<t-str><desc>zz</desc>b</t-str>", Some("ab")), ("a<t-hbr/>b", Some("a\u{0}b")), ("a<t-ref id=\"p\">b</t-ref>", Some("ab")),
    ] {
        let got = t(body)?;
        match want {
            None => if got.is_ok() { return Err(format!("<t>{}</t> has text {:?}", body, got)); },
            Some(w) if w.contains('\u{0}') => {
                let d = if body.contains("t-hbr") { spec(by_tag("t-hbr").unwrap().et).delimiter.unwrap_or("") } else { spec(by_tag("br").unwrap().et).delimiter.unwrap_or("") };
                eq(body, got.map_err(fe)?, w.replace('\u{0}', d))?
            }
            Some(w) => eq(body, got.map_err(fe)?.as_str(), w)?,
        }
        ctx.count("markup", 1);
    }
    //spans: the words they refer to
    let doc = parse(&wrap("", "", "<s xml:id=\"s\"><w xml:id=\"w1\" space=\"no\"><t>a</t></w><w xml:id=\"w2\"><t>b</t></w><w xml:id=\"w3\"><t>c</t></w><entities><entity xml:id=\"e1\" set=\"s\"><wref id=\"w1\"/><wref id=\"w2\"/></entity><entity xml:id=\"e2\" set=\"s\"><wref id=\"w3\"/><wref id=\"w1\"/></entity></entities><dependencies><dependency xml:id=\"d\" set=\"s\"><hd xml:id=\"h\"><wref id=\"w2\"/></hd><dep><wref id=\"w3\"/></dep></dependency></dependencies></s>"))?;
    for (id, want) in [("s", "ab c"), ("e1", "ab"), ("e2", "c a"), ("h", "b"), ("d", "b c")] { eq(id, doc.text(doc.get_element_key_by_id(id).unwrap(), &TextParameters::default()).map_err(fe)?.as_str(), want)?; }
    eq("retained", doc.text(doc.get_element_key_by_id("s").unwrap(), &TextParameters::new().retaintokenisation(true)).map_err(fe)?.as_str(), "a b c")?;
    ctx.eval(Some(2));
    Ok(())
}
fn f_nested(ctx: &mut Ctx) -> Result<(), String> {
    //nesting: text up to a few hundred levels, an error further down, never a crash
    for n in [1usize, 10, 100, 200, 1000, 5000, 50000] {
        let x = wrap("", "", &format!("{}<p><t>x</t></p>{}", "<div>".repeat(n), "</div>".repeat(n)));
        let doc = parse(&x)?;
        match (doc.text(0, &TextParameters::default()), n) { (Ok(t), _) => eq("text", t.as_str(), "x")?, (Err(_), 1000..=50000) => {}, (r, _) => return Err(format!("{} levels: {:?}", n, r)) }
        //in the middle of a text: all or nothing
        let x = wrap("", "", &format!("<div><w><t>a</t></w>{}<p><t>x</t></p>{}<w><t>b</t></w></div>", "<div>".repeat(n), "</div>".repeat(n)));
        let doc = parse(&x)?;
        match (doc.text(0, &TextParameters::default()), n) { (Ok(t), _) => { let mut w: String = t.chars().collect(); w.retain(|c| !c.is_whitespace()); eq("text in the middle", w.as_str(), "axb")? }, (Err(_), 1000..=50000) => {}, (r, _) => return Err(format!("{} levels in the middle: {:?}", n, r)) }
        let x = wrap("", "", &format!("<s><w><t>a</t></w><w><t>x{}y{}z</t></w><w><t>b</t></w></s>", "<t-str>".repeat(n), "</t-str>".repeat(n)));
        let doc = parse(&x)?;
        match (doc.text(0, &TextParameters::default()), n) { (Ok(t), _) => eq("text with markup", t.as_str(), "a xyz b")?, (Err(_), 1000..=50000) => {}, (r, _) => return Err(format!("{} levels of markup: {:?}", n, r)) }
        ctx.count("depths", 1);
    }
    //a sentence among words without text, and parts that are empty strings
    for (x, want) in [("<s><w/><w><t>a</t></w><w/><w><t>b</t></w><w/></s>", Some("a b")), ("<s><w/></s>", None), ("<s><t>whole</t><w/><w/></s>", Some("whole")), ("<s><w><t>part</t></w><t>whole</t></s>", Some("part")), ("<p><s><t>a</t></s><s><t>b</t></s></p><p><t>c</t></p>", Some("a b\n\nc")), ("<p><t>a</t></p><note><t>n</t></note><p><t>b</t></p>", Some("a\n\nn\n\nb"))] {
        let doc = parse(&wrap("", "", x))?;
        check_text(&|| x.to_string(), doc.text(0, &TextParameters::default()), want.map(|s| s.to_string()), false)?;
    }
    ctx.eval(Some(3));
    Ok(())
}

pub static C16: Prop = Prop {
    id: "C16",
    rule: "Text of the elements of documents of random histories, for all sets, classes and both tokenisation modes, by all four ways of asking, compared with an independent implementation of the rules; and documents put together from parts whose text is joined by hand. Delimiters of all structural types, kinds of markup, spans and depths systematically. Distinct by the document or history.",
    cases: (40000, 1600000), case: c16,
    fixed: &[("delimiters", f_delimiters), ("markup and spans", f_markup), ("nesting", f_nested), ("long", f_long)],
    ..BASE
};

///Documents in which the text of every class is made of a character of its own
const MARKS: &[(&str, char)] = &[("current", 'c'), ("ocr", 'o'), ("original", 'r'), ("normalised", 'n'), ("", 'e'), ("current/a", 'p'), ("Current", 'C'), ("CURRENT", 'U'), (" current", 'l'), ("current ", 't'), ("ocr/", 's'), ("ocr/x", 'x'), ("/ocr", 'S'), ("OCR", 'O'), ("oc", 'y'), ("ocr-1", 'd'), ("ocr.1", 'D'), ("ocr#1", 'h'), ("\u{e9}", 'a'), ("e\u{301}", 'b'), ("none", 'N'), ("default", 'f'), ("*", 'w'), ("current,ocr", 'm'), ("0", 'z'), ("original current", 'q')];
struct Marked { xml: String, has: std::collections::BTreeMap<String, Vec<String>> }
fn marked(rng: &mut Rng) -> Marked {
    let mut m = Marked { xml: String::new(), has: Default::default() };
    let mut n = 0;
    let classes: Vec<(&str, char)> = { let n = rng.range(1, 5); if rng.p(1, 2) { let mut c = MARKS[..5].to_vec(); rng.shuffle(&mut c); c.truncate(n); c } else { let mut c = MARKS.to_vec(); rng.shuffle(&mut c); c.truncate(n); if rng.p(1, 2) && !c.iter().any(|x| x.0 == "ocr") { c.push(MARKS[1]); } if rng.p(1, 2) && !c.iter().any(|x| x.0 == "current") { c.push(MARKS[0]); } c } };
    fn ts(rng: &mut Rng, classes: &[(&str, char)], p: usize) -> (String, Vec<String>) {
        let mut out = String::new();
        let mut has = vec![];
        let mut cs = classes.to_vec();
        rng.shuffle(&mut cs);
        for (c, ch) in cs {
            if !rng.p(p, 6) { continue; }
            let body: String = std::iter::repeat(ch).take(rng.range(1, 4)).collect();
            let body = if rng.p(1, 5) { let o = MARKS[rng.below(4)].0; format!("{}<t-style class=\"{}\">{}</t-style>{}", body, o, ch, ch) } else { body };
            out += &if c == "current" && rng.p(1, 2) { format!("<t>{}</t>", body) } else { format!("<t class=\"{}\">{}</t>", c, body) };
            has.push(c.to_string());
        }
        (out, has)
    }
    fn part(rng: &mut Rng, m: &mut Marked, classes: &[(&str, char)], level: usize, n: &mut usize) -> Vec<String> {
        let tag = ["div", "p", "s", "w", "str"][level];
        *n += 1;
        let id = format!("x{}", n);
        m.xml += &format!("<{} xml:id=\"{}\"{}>", tag, id, if level == 3 && rng.p(1, 6) { " space=\"no\"" } else { "" });
        let mut has = vec![];
        let first = rng.p(1, 2);
        let (t, h) = if level == 0 { (String::new(), vec![]) } else { ts(rng, classes, if level >= 3 { 4 } else { 2 }) };
        if first { m.xml += &t; }
        if level < 3 {
            for _ in 0..rng.range(0, 3) {
                let h = if rng.p(1, 8) && level == 2 {
                    m.xml += "<correction><new>";
                    let h = part(rng, m, classes, 3, n);
                    m.xml += "</new><original>";
                    part(rng, m, classes, 3, n);
                    m.xml += "</original></correction>";
                    h
                } else { part(rng, m, classes, level + 1, n) };
                has.extend(h);
            }
        }
        if level > 0 && level < 4 && rng.p(1, 5) { part(rng, m, classes, 4, n); }
        if !first { m.xml += &t; }
        has.extend(h);
        m.xml += &format!("</{}>", tag);
        has.sort();
        has.dedup();
        m.has.insert(id, has.clone());
        has
    }
    for _ in 0..rng.range(1, 3) { let l = rng.range(0, 1); part(rng, &mut m, &classes, l, &mut n); }
    m
}
fn c17(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    let m = marked(rng);
    //the default set, declared or not, after which no class may be found in others
    let decl = match rng.below(4) { 0 => "<text-annotation set=\"https://raw.githubusercontent.com/proycon/folia/master/setdefinitions/text.foliaset.ttl\"/>", 1 => "<text-annotation set=\"tset\"/>", _ => "" };
    let set = if decl.contains("tset") { "tset" } else { TEXTSET };
    let x = wrap(decl, "", &m.xml);
    ctx.input(&x);
    let doc = parse(&x)?;
    let doc = if rng.p(1, 4) { parse(&xml(&doc, 0, rng.below(3))?)? } else { doc };
    for (id, has) in m.has.iter() {
        let key = doc.get_element_key_by_id(id).ok_or("gone")?;
        for (class, ch) in MARKS.iter().chain([("absent", '!')].iter()) {
            let retain = rng.p(1, 2);
            let r = doc.text(key, &params(if set == TEXTSET && rng.p(1, 2) { None } else { Some(set) }, if *class == "current" && rng.p(1, 2) { None } else { Some(class) }, retain));
            let what = || format!("text of {} for class {:?}", id, class);
            match r {
                Ok(t) => {
                    if !has.iter().any(|h| h == class) { return Err(format!("{} is {:?}, it has none", what(), t)); }
                    if t.is_empty() || t.chars().any(|c| !(c == *ch || c == ' ' || c == '\n')) { return Err(format!("{} is {:?}", what(), t)); }
                    ctx.count("texts of the class asked for", 1);
                }
                Err(e) => {
                    if has.iter().any(|h| h == class) { return Err(format!("{}: {:?}, but it has some", what(), e)); }
                    ctx.count("classes that are absent", 1);
                }
            }
        }
        //sets that are not there
        if let Ok(t) = doc.text(key, &params(Some("https://example.org/no/such/set"), None, false)) { return Err(format!("text of {} in a set that does not exist: {:?}", id, t)); }
    }
    ctx.eval(Some(crate::rng::hash(&m.xml)));
    if rng.p(1, 50) { ctx.sample(|| x.clone()); }
    Ok(())
}
///Text content in several sets with the same classes
fn f_tsets(ctx: &mut Ctx) -> Result<(), String> {
    for order in 0..6 {
        let ts = [("a", "current", "A"), ("a", "ocr", "AO"), ("b", "current", "B"), ("b", "ocr", "BO"), (TEXTSET, "current", "D"), (TEXTSET, "ocr", "DO")];
        let mut x = String::new();
        for i in 0..6 { let (s, c, t) = ts[(i * (if order % 2 == 0 { 1 } else { 5 }) + order) % 6]; x += &format!("<t set=\"{}\" class=\"{}\">{}</t>", s, c, t); }
        let x = wrap("", "", &format!("<p><s><w>{x}</w><w>{x}</w></s><s>{x}</s></p><p>{x}</p><p><s><w/></s></p>", x = x));
        ctx.input(&x);
        let doc = parse(&x)?;
        for (s, c, t) in ts.iter() {
            let want = format!("{t} {t} {t}\n\n{t}", t = t);
            eq(&format!("{} {}", s, c), doc.text(0, &params(Some(s), Some(c), false)).map_err(fe)?, want)?;
            ctx.count("sets and classes", 1);
        }
        eq("default", doc.text(0, &TextParameters::default()).map_err(fe)?.as_str(), "D D D\n\nD")?;
        let none = TextParameters { set: None, textclass: None, strict: false, retaintokenisation: false };
        eq("nothing asked", doc.text(0, &none).map_err(fe)?.as_str(), "D D D\n\nD")?;
    }
    ctx.eval(Some(1));
    Ok(())
}
///A class that only other elements have, and classes met for the first time later on
fn f_absent(ctx: &mut Ctx) -> Result<(), String> {
    let mut doc = parse(&wrap("", "", "<p xml:id=\"p\"><t class=\"ocr\">ocr</t></p><p xml:id=\"q\"><t>cur</t></p><p xml:id=\"r\"><s><w><t class=\"ocr\">x</t></w><w><t>y</t></w></s><t class=\"third\">z</t></p>"))?;
    let text = |d: &Document, id: &str, c: Option<&str>| d.text(d.get_element_key_by_id(id).unwrap(), &params(None, c, false)).ok();
    for (id, c, want) in [("p", None, None), ("p", Some("ocr"), Some("ocr")), ("p", Some("third"), None), ("p", Some("zzz"), None), ("q", None, Some("cur")), ("q", Some("ocr"), None), ("r", None, Some("y")), ("r", Some("ocr"), Some("x")), ("r", Some("third"), Some("z"))] { eq(&format!("{} {:?}", id, c), text(&doc, id, c).as_deref(), want)?; }
    let q = doc.get_element_key_by_id("q").unwrap();
    for i in 0..50 {
        let e = El::new(ElementType::TextContent).with("class", &format!("c{}", i)).text(&format!("t{}", i));
        doc.annotate(q, crate::api::build(&e)).map_err(fe)?;
        for j in 0..=i { eq("added", text(&doc, "q", Some(&format!("c{}", j))), Some(format!("t{}", j)))?; }
        eq("not yet", text(&doc, "q", Some(&format!("c{}", i + 1))), None)?;
        eq("default", text(&doc, "q", None).as_deref(), Some("cur"))?;
        eq("others", text(&doc, "p", Some(&format!("c{}", i))), None)?;
    }
    ctx.eval(Some(2));
    Ok(())
}

pub static C17: Prop = Prop {
    id: "C17",
    rule: "Documents with up to five text classes at all levels, in random order, with markup, corrections and strings, in which the text of every class is made of a character of its own: what is returned for a class consists of that character, and there is text exactly if the element has that class in it. Distinct by the document.",
    cases: (96000, 3200000), case: c17,
    fixed: &[("sets", f_tsets), ("absent and new classes", f_absent)],
    ..BASE
};

#[allow(dead_code)]
fn unused(e: &Element) -> usize { e.elementdata_pub().get_data_at(0).map_or(0, |_| 1) }
