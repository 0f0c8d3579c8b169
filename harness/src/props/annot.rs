//! C18: what high-level annotation accepts
use super::*;
use crate::gen::*;
use crate::hist::{Hist, Outcome, Plan, Weights, TREE, LINKS};
use crate::model::*;
use crate::spec::*;
use crate::view::View;

fn validation(what: &str, r: Result<(), FoliaError>, ok: bool) -> Result<(), String> {
    match (r, ok) {
        (Ok(()), true) | (Err(FoliaError::ValidationError(_)), false) => Ok(()),
        (Ok(()), false) => Err(format!("{}: accepted, the specification does not", what)),
        (Err(e), false) => Err(format!("{}: refused, but not with a validation error: {:?}", what, e)),
        (Err(e), true) => Err(format!("{}: refused ({:?}), the specification accepts it", what, e)),
    }
}

///The element of a type, with what it needs to be added at all
fn subject(et: ElementType, n: usize) -> El {
    let mut e = El::new(et);
    let s = spec(et);
    match et {
        ElementType::WordReference => e.set("id", ["w1", "w2"][n % 2]),
        ElementType::Feature => { e.set("subset", "s"); e.set("class", "c") }
        _ => {
            if s.at.is_some() && (n % 3 != 0 || in_group(ElementGroup::Span, et)) { e.set("set", "some/set"); }
            if s.at.is_some() && n % 3 == 1 { e.set("class", "c"); }
        }
    }
    if s.subset.is_some() { e.set("class", "c"); }
    e
}

const WHERE: &[&str] = &["in the body", "in a sentence", "in a span", "in a word", "not attached"];

fn at_place(h: &mut Hist, place: usize) -> Result<Option<usize>, String> {
    let s = El::new(ElementType::Sentence).with("xml:id", "s")
        .el(El::new(ElementType::Word).with("xml:id", "w1").el(El::new(ElementType::TextContent).text("a")))
        .el(El::new(ElementType::Word).with("xml:id", "w2").el(El::new(ElementType::TextContent).text("b")))
        .el(El::new(ElementType::EntitiesLayer).with("set", "e").el(El::new(ElementType::Entity).with("set", "e").with("xml:id", "e").el(El::new(ElementType::WordReference).with("id", "w1"))));
    h.add(Some(0), &s)?;
    let id = |h: &Hist, s: &str| h.sh.ids.get(s).copied().ok_or("not there".to_string());
    Ok(match place { 0 => Some(0), 1 => Some(id(h, "s")?), 2 => Some(id(h, "e")?), 3 => Some(id(h, "w2")?), _ => None })
}

///All pairs with one type of parent
fn parent(ctx: &mut Ctx, rng: &mut Rng, p: ElementType, place: usize) -> Result<(), String> {
    if place == 4 && p == ElementType::WordReference || place == 4 && p == ElementType::Feature { return Ok(()); }
    if p == ElementType::WordReference && place != 2 { return Ok(()); }
    let mut o = Opts::new(rng);
    o.size = 1;
    let mut h = Hist::created(rng, o)?;
    let r = parent_in(ctx, &mut h, p, place);
    if r.is_err() { ctx.input(&h.describe()); }
    r
}
fn parent_in(ctx: &mut Ctx, h: &mut Hist, p: ElementType, place: usize) -> Result<(), String> {
    let holder = at_place(h, place)?;
    let pe = if p == ElementType::WordReference { El::new(p).with("id", "w2") } else if p == ElementType::Feature { El::new(p).with("subset", "x").with("class", "y") } else { subject(p, 1) };
    let pi = match h.add(holder, &pe)? { Outcome::Added(i) => i, _ => return Ok(()) };
    let mut n = 0;
    for s in SPEC {
        let c = s.et;
        n += 1;
        let what = format!("{} in {} ({})", tag(c), tag(p), WHERE[place]);
        let ok = accepts(p, c);
        validation(&format!("check: {}", what), h.doc.check_element_addable(pi as ElementKey, &ElementData::new(c)), ok)?;
        ctx.count("pairs checked", 1);
        if c == ElementType::ForeignData { continue; }
        let mut e = subject(c, n);
        let spanned = in_group(ElementGroup::Span, c) && spec(p).wrefable;
        if spanned { e.push(El::new(ElementType::WordReference).with("id", "w2")); }
        let layered = in_group(ElementGroup::Span, c) && !spanned && in_group(ElementGroup::Structure, p);
        let before = h.sh.nodes[pi].items.len();
        //what the specification says, pair by pair
        let want = if layered { let l = layertype(s.at.unwrap()).unwrap(); accepts(p, l) && accepts(l, c) } else { ok };
        let refused_type = !spanned && !want;
        if refused_type {
            let got = h.doc.annotate(pi as ElementKey, crate::api::build(&e)).map(|_| ());
            validation(&format!("annotate: {}", what), got, false)?;
            ctx.count("refused", 1);
            continue;
        }
        let placed = h.sh.place(pi, &e);
        match h.annotate(pi, &e)? {
            Outcome::Added(i) => {
                ctx.count("accepted", 1);
                let v = h.compare(TREE | LINKS)?;
                if spanned || layered {
                    let l = v.n[i].parent.ok_or(format!("{}: is not attached", what))?;
                    if v.n[l].et != layertype(s.at.unwrap()).unwrap() { return Err(format!("{}: ends up in <{}>", what, tag(v.n[l].et))); }
                    eq(&format!("{}: set of layer", what), v.set(l), Some("some/set"))?;
                    if layered { eq(&format!("{}: parent of layer", what), v.n[l].parent, Some(pi))?; }
                    eq(&format!("{}: last of its layer", what), v.children(l).last().copied(), Some(i))?;
                    ctx.count("put in layers", 1);
                } else {
                    eq(&format!("{}: parent", what), v.n[i].parent, Some(pi))?;
                    eq(&format!("{}: last child", what), v.children(pi).last().copied(), Some(i))?;
                    eq(&format!("{}: number of items", what), h.sh.nodes[pi].items.len(), before + 1)?;
                }
            }
            _ => {
                ctx.count("refused on other grounds", 1);
                if !spanned && !(c == ElementType::WordReference) { return Err(format!("{}: refused ({:?}), the specification accepts it", what, placed)); }
            }
        }
        ctx.eval(Some(crate::rng::hash(&what)));
    }
    h.compare(crate::hist::ALL)?;
    Ok(())
}

const STRIDE: usize = 5;
fn pairs_of(ctx: &mut Ctx, k: usize) -> Result<(), String> {
    let mut rng = Rng::new(18, k as u64);
    for (i, s) in SPEC.iter().enumerate() { if i % 24 == k { for place in 0..STRIDE { parent(ctx, &mut rng, s.et, place)?; } } }
    Ok(())
}
macro_rules! part { ($($n:ident $k:expr),*) => { $(fn $n(ctx: &mut Ctx) -> Result<(), String> { pairs_of(ctx, $k) })* } }
part!(p0 0, p1 1, p2 2, p3 3, p4 4, p5 5, p6 6, p7 7, p8 8, p9 9, p10 10, p11 11, p12 12, p13 13, p14 14, p15 15, p16 16, p17 17, p18 18, p19 19, p20 20, p21 21, p22 22, p23 23);

///Everything the specification has two readings for: by group and by type
fn f_groups(ctx: &mut Ctx) -> Result<(), String> {
    for (g, members) in GROUPS {
        for s in SPEC { eq(&format!("{} in group {:?}", s.tag, g), g.contains(s.et), members.contains(&s.et))?; ctx.count("group memberships", 1); }
        ctx.eval(Some(crate::rng::hash(&format!("{:?}", g))));
    }
    //properties of a type are those the specification gives, as the document sees them
    let doc = parse(&wrap("", "", ""))?;
    for s in SPEC {
        let p = doc.props(s.et);
        for c in SPEC {
            let ok = p.accepted_data.iter().any(|a| match a { AcceptedData::AcceptElementType(t) => *t == c.et, AcceptedData::AcceptElementGroup(g) => GROUPS.iter().any(|x| x.0 == *g && x.1.contains(&c.et)) });
            eq(&format!("{} accepted in {}", c.tag, s.tag), ok, accepts(s.et, c.et))?;
        }
    }
    Ok(())
}
fn f_unknown(ctx: &mut Ctx) -> Result<(), String> {
    let mut doc = parse(&wrap("", "", "<s xml:id=\"s\"/>"))?;
    for k in [2, 3, 100, u32::MAX] {
        for s in SPEC {
            if doc.check_element_addable(k, &ElementData::new(s.et)).is_ok() { return Err(format!("{} addable to a parent that is not there", s.tag)); }
            if doc.annotate(k, crate::api::build(&subject(s.et, 1))).is_ok() { return Err(format!("{} added to a parent that is not there", s.tag)); }
        }
    }
    eq("elements", snap::doc(&doc)?.elements(), 2)?;
    for s in SPEC { if !in_group(ElementGroup::Span, s.et) && doc.annotate_span(crate::api::build(&subject(s.et, 1))).is_ok() { return Err(format!("{} annotated as a span", s.tag)); } }
    ctx.eval(Some(1));
    Ok(())
}

fn extra(ctx: &mut Ctx, h: &Hist, v: &View, rng: &mut Rng) -> Result<(), String> {
    for _ in 0..40 {
        let i = rng.below(v.n.len());
        let s = rng.pick(SPEC);
        validation(&format!("check {} in element {} <{}>", s.tag, i, tag(v.n[i].et)), h.doc.check_element_addable(i as ElementKey, &ElementData::new(s.et)), accepts(v.n[i].et, s.et))?;
        ctx.count("pairs checked", 1);
    }
    Ok(())
}
const PLAN: Plan = Plan { weights: Weights { add: 1, annotate: 14, span: 14, bad: 8, orphan: 1, attach: 1, detach: 1, declare: 2, ..Weights::ALL }, aspects: TREE | LINKS, steps: (3, 30), opts: |_| (), extra, roundtrip: false };

fn case(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    if rng.p(1, 6) {
        let s = rng.pick(SPEC).et;
        let place = rng.below(STRIDE);
        return parent(ctx, rng, s, place);
    }
    crate::hist::run(ctx, rng, &PLAN)
}

pub static C18: Prop = Prop {
    id: "C18",
    rule: "Exhaustive: every pair of element types, the parent in five places (body, sentence, span, word, not attached): check_element_addable and annotate succeed exactly if an independent copy of the acceptance table does (for spans in structure: if it accepts their layer there), else give a validation error; after each the tree is compared with a model and the new element has to be the last child (or last in its layer). Then random histories with mostly annotation, half of it not acceptable, compared with the model after every operation. Distinct: pair and place; history.",
    cases: (24000, 800000), case,
    fixed: &[("groups", f_groups), ("unknown parents", f_unknown), ("pairs", p0), ("pairs", p1), ("pairs", p2), ("pairs", p3), ("pairs", p4), ("pairs", p5), ("pairs", p6), ("pairs", p7), ("pairs", p8), ("pairs", p9), ("pairs", p10), ("pairs", p11), ("pairs", p12), ("pairs", p13), ("pairs", p14), ("pairs", p15), ("pairs", p16), ("pairs", p17), ("pairs", p18), ("pairs", p19), ("pairs", p20), ("pairs", p21), ("pairs", p22), ("pairs", p23)],
    assumptions: &["The acceptance table in the monitor was copied from the specification tables of the pinned commit.", "Only the type of the element itself is judged, not those nested in it."],
    ..BASE
};
