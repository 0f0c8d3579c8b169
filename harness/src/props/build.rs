//! C28: what is put together step by step is what was asked for.
use super::*;
use crate::gen;
use crate::spec;
use chrono::NaiveDateTime;

type Types = Cmp<ElementType>;

fn cmp<T: std::fmt::Debug>(rng: &mut Rng, v: impl FnOnce(&mut Rng) -> T) -> Cmp<T> {
    match rng.below(8) { 0 => Cmp::Any, 1 => Cmp::Some, 2 => Cmp::None, 3 => Cmp::Unmatchable, _ => Cmp::Is(v(rng)) }
}
fn etype(rng: &mut Rng) -> ElementType { spec::SPEC[rng.below(spec::SPEC.len())].et }
const GROUPS: &[ElementGroup] = &[ElementGroup::Feature, ElementGroup::Structure, ElementGroup::Inline, ElementGroup::Layer, ElementGroup::Span, ElementGroup::SpanRole, ElementGroup::HigherOrder, ElementGroup::TextMarkup, ElementGroup::Content, ElementGroup::CorrectionChild, ElementGroup::Subtoken];
const PTYPES: &[ProcessorType] = &[ProcessorType::Auto, ProcessorType::Manual, ProcessorType::Generator, ProcessorType::DataSource];
fn name(rng: &mut Rng) -> String { match rng.below(6) { 0 => rng.attr(), 1 => rng.pick(&["current", "original", "undefined", "s"]).to_string(), _ => rng.word() } }

#[derive(Debug, PartialEq, Clone)]
struct Q { elementtype: Types, elementgroup: Cmp<ElementGroup>, contexttype: Types, set: Cmp<String>, class: Cmp<String>, processor: Cmp<String>, subset: Cmp<String>, annotator: Cmp<String>, annotatortype: Cmp<ProcessorType>, confidence: Cmp<f64> }
fn query(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    let mut w = Q { elementtype: Cmp::Any, elementgroup: Cmp::Any, contexttype: Cmp::Any, set: Cmp::Any, class: Cmp::Any, processor: Cmp::Any, subset: Cmp::Any, annotator: Cmp::Any, annotatortype: Cmp::Any, confidence: Cmp::Any };
    let mut q = Query::select();
    let mut log = vec![];
    for _ in 0..rng.range(1, 16) {
        let step;
        match rng.below(10) {
            0 => { let v = cmp(rng, etype); step = format!("element({:?})", v); q = q.element(v.clone()); w.elementtype = v; }
            1 => { let v = cmp(rng, |r| *r.pick(GROUPS)); step = format!("elementgroup({:?})", v); q = q.elementgroup(v.clone()); w.elementgroup = v; }
            2 => { let v = cmp(rng, etype); step = format!("contexttype({:?})", v); q = q.contexttype(v.clone()); w.contexttype = v; }
            3 => { let v = cmp(rng, name); step = format!("set({:?})", v); q = q.set(v.clone()); w.set = v; }
            4 => { let v = cmp(rng, name); step = format!("class({:?})", v); q = q.class(v.clone()); w.class = v; }
            5 => { let v = cmp(rng, name); step = format!("processor({:?})", v); q = q.processor(v.clone()); w.processor = v; }
            6 => { let v = cmp(rng, name); step = format!("subset({:?})", v); q = q.subset(v.clone()); w.subset = v; }
            7 => { let v = cmp(rng, name); step = format!("annotator({:?})", v); q = q.annotator(v.clone()); w.annotator = v; }
            8 => { let v = cmp(rng, |r| *r.pick(PTYPES)); step = format!("annotatortype({:?})", v); q = q.annotatortype(v.clone()); w.annotatortype = v; }
            _ => { let v = cmp(rng, |r| r.below(101) as f64 / 100.0); step = format!("confidence({:?})", v); q = q.confidence(v.clone()); w.confidence = v; }
        }
        log.push(step);
        let c = q.clone();
        eq(&format!("query after {}", log.join(".")), Q { elementtype: c.elementtype, elementgroup: c.elementgroup, contexttype: c.contexttype, set: c.set, class: c.class, processor: c.processor, subset: c.subset, annotator: c.annotator, annotatortype: c.annotatortype, confidence: c.confidence }, w.clone())?;
        ctx.count("steps of queries", 1);
    }
    ctx.eval(Some(crate::rng::hash(&log.join("."))));
    Ok(())
}

///What a selector says it selects
#[derive(Debug, PartialEq, Clone)]
struct S { elementtype: Types, elementgroup: Cmp<ElementGroup>, elements: bool, text: bool, comments: bool, anything: bool }
fn said(s: &Selector) -> S {
    let d = &s.datatypes;
    S { elementtype: s.elementtype.clone(), elementgroup: s.elementgroup.clone(), elements: d.contains(&DataTypeSelector::Elements), text: d.contains(&DataTypeSelector::Text), comments: d.contains(&DataTypeSelector::Comments), anything: d.is_empty() }
}
fn selector(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    //one selector, put together
    let any = S { elementtype: Cmp::Any, elementgroup: Cmp::Any, elements: false, text: false, comments: false, anything: true };
    fn one(rng: &mut Rng, any: &S, log: &mut Vec<String>) -> Result<(Selector, S), String> {
        let mut w = any.clone();
        let mut s = match rng.below(3) {
            0 => { log.push("elements()".into()); w.elements = true; w.anything = false; Selector::elements() }
            1 => { log.push("all_data()".into()); w.elements = true; w.text = true; w.comments = true; w.anything = false; Selector::all_data() }
            _ => { log.push("default()".into()); Selector::default() }
        };
        for _ in 0..rng.below(7) {
            match rng.below(5) {
                0 => { log.push("with_elements()".into()); s = s.with_elements(); w.elements = true; w.anything = false; }
                1 => { log.push("with_text()".into()); s = s.with_text(); w.text = true; w.anything = false; }
                2 => { log.push("with_comments()".into()); s = s.with_comments(); w.comments = true; w.anything = false; }
                3 => { let v = cmp(rng, etype); log.push(format!("element({:?})", v)); s = s.element(v.clone()); w.elementtype = v; }
                _ => { let v = cmp(rng, |r| *r.pick(GROUPS)); log.push(format!("elementgroup({:?})", v)); s = s.elementgroup(v.clone()); w.elementgroup = v; }
            }
            eq(&format!("selector after {}", log.join(".")), said(&s), w.clone())?;
            if s.set != Cmp::Any || s.class != Cmp::Any || s.processor != Cmp::Any || s.subset != Cmp::Any || s.confidence != Cmp::Any || s.annotator != Cmp::Any || s.annotatortype != Cmp::Any || s.contexttype != Cmp::Any || s.next.is_some() { return Err(format!("selector after {}: more was set than was asked for", log.join("."))); }
        }
        Ok((s, w))
    }
    let mut log = vec![];
    let (mut s, w) = one(rng, &any, &mut log)?;
    let mut all = vec![w];
    for _ in 0..rng.below(4) {
        log.push("and".into());
        let (mut t, w) = one(rng, &any, &mut log)?;
        all.push(w);
        if rng.p(1, 3) { let (u, w) = one(rng, &any, &mut log)?; t = t.and(u); all.push(w); }
        s = s.and(t);
    }
    let mut got = vec![];
    let mut at = Some(&s);
    while let Some(x) = at { got.push(format!("{:?}", said(x))); at = x.next.as_deref(); }
    got.sort();
    let mut want: Vec<String> = all.iter().map(|w| format!("{:?}", w)).collect();
    want.sort();
    eq(&format!("union {}", log.join(".")), got, want)?;
    ctx.count("selectors", 1);
    ctx.eval(Some(crate::rng::hash(&log.join("."))));
    Ok(())
}

fn text(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    let mut w = (Some("https://raw.githubusercontent.com/proycon/folia/master/setdefinitions/text.foliaset.ttl".to_string()), Some("current".to_string()), false);
    let mut p = if rng.p(1, 2) { TextParameters::new() } else { TextParameters::default() };
    let mut log = vec![];
    for _ in 0..rng.range(0, 8) {
        match rng.below(3) {
            0 => { let v = name(rng); log.push(format!("set({:?})", v)); p = p.set(&v); w.0 = Some(v); }
            1 => { let v = name(rng); log.push(format!("textclass({:?})", v)); p = p.textclass(&v); w.1 = Some(v); }
            _ => { let v = rng.p(1, 2); log.push(format!("retaintokenisation({:?})", v)); p = p.retaintokenisation(v); w.2 = v; }
        }
        eq(&format!("text parameters after {}", log.join(".")), (p.set.clone(), p.textclass.clone(), p.retaintokenisation), w.clone())?;
        if p.strict { return Err("strict was set".into()); }
    }
    let c = p.clone();
    eq(&format!("text parameters after {}, cloned", log.join(".")), (c.set, c.textclass, c.retaintokenisation), w)?;
    ctx.count("text parameters", 1);
    ctx.eval(Some(crate::rng::hash(&log.join("."))));
    Ok(())
}

#[derive(Debug, PartialEq, Clone)]
struct P { id: Option<String>, name: String, t: ProcessorType, s: Vec<String>, begin: Option<NaiveDateTime>, end: Option<NaiveDateTime>, subs: Vec<ProcKey>, new: Vec<String> }
fn psaid(p: &Processor, id: bool) -> P {
    P { id: if id { Some(p.id.clone()) } else { None }, name: p.name.clone(), t: p.processortype, s: [&p.version, &p.folia_version, &p.document_version, &p.command, &p.host, &p.user, &p.src, &p.format, &p.resourcelink].iter().map(|s| s.to_string()).collect(), begin: p.begindatetime, end: p.enddatetime, subs: p.processors.clone(), new: p.pending_processors.borrow().iter().map(|p| p.id.clone()).collect() }
}
///A processor put together in random order, and what it should be
fn processor(rng: &mut Rng, log: &mut Vec<String>, depth: usize) -> Result<(Processor, P), String> {
    let n = name(rng);
    let mut w = P { id: None, name: n.clone(), t: ProcessorType::Auto, s: vec![String::new(); 9], begin: None, end: None, subs: vec![], new: vec![] };
    log.push(format!("new({:?})", n));
    let mut p = Processor::new(n);
    for _ in 0..rng.range(0, 20) {
        match rng.below(15) {
            0 => { let v = *rng.pick(PTYPES); log.push(format!("type({:?})", v)); p = p.with_type(v); w.t = v; }
            1 => { let v = rng.word() + &rng.below(100000).to_string(); log.push(format!("id({:?})", v)); p = p.with_id(v.clone()); w.id = Some(v); }
            2 => { let v = crate::api::date(&rng.datetime()); log.push(format!("begin({:?})", v)); p = p.with_begindatetime(v); w.begin = Some(v); }
            3 => { let v = crate::api::date(&rng.datetime()); log.push(format!("end({:?})", v)); p = p.with_enddatetime(v); w.end = Some(v); }
            4 => { if depth > 0 { let v = rng.below(5) as ProcKey; log.push(format!("existing({})", v)); p = p.with_existing_subprocessor(v); w.subs.push(v); } }
            5 => { if depth > 0 { let id = format!("sub{}", rng.below(1000000)); let (s, _) = processor(rng, &mut vec![], 0)?; log.push(format!("sub({:?})", id)); p = p.with_new_subprocessor(s.with_id(id.clone())); w.new.push(id); } }
            k => {
                let (i, v) = (k - 6, name(rng));
                log.push(format!("field {} {:?}", i, v));
                let x = v.clone();
                p = match i { 0 => p.with_version(x), 1 => p.with_folia_version(x), 2 => p.with_document_version(x), 3 => p.with_command(x), 4 => p.with_host(x), 5 => p.with_user(x), 6 => p.with_src(x), 7 => p.with_format(x), _ => p.with_resourcelink(x) };
                w.s[i] = v;
            }
        }
        eq(&format!("processor after {}", log.join(".")), psaid(&p, w.id.is_some()), w.clone())?;
        if p.key.is_some() || p.parent.is_some() || !p.metadata.data.is_empty() { return Err(format!("processor after {}: more was set than was asked for", log.join("."))); }
    }
    Ok((p, w))
}
fn processors(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    let mut log = vec![];
    let (p, mut w) = processor(rng, &mut log, 1)?;
    let c = p.clone();
    eq(&format!("processor after {}, cloned", log.join(".")), psaid(&c, w.id.is_some()), w.clone())?;
    //once it is in a document, its new subprocessors are in there as well
    let mut doc = Document::new("doc", DocumentProperties::default()).map_err(|e| format!("{:?}", e))?;
    let mut others = vec![];
    for i in 0..5 { others.push(doc.add_processor(Processor::new(format!("other{}", i)).with_id(format!("other{}", i))).map_err(|e| format!("{:?}", e))?); }
    let distinct = { let mut s = w.subs.clone(); s.sort(); s.dedup(); s.len() == w.subs.len() && { let mut n = w.new.clone(); n.sort(); n.dedup(); n.len() == w.new.len() } };
    if distinct {
        let key = doc.add_processor(p).map_err(|e| format!("{:?} for {}", e, log.join(".")))?;
        let got = doc.get_processor(key).ok_or("gone")?;
        let mut subs = vec![];
        for k in &got.processors { subs.push(doc.get_processor(*k).ok_or_else(|| format!("subprocessor {} does not exist", k))?.id.clone()); }
        let want: Vec<String> = w.subs.iter().map(|k| format!("other{}", k)).collect();
        let (mut a, mut b) = (subs.clone(), want.iter().chain(w.new.iter()).cloned().collect::<Vec<_>>());
        a.sort(); b.sort();
        eq(&format!("subprocessors of the processor of {}", log.join(".")), a, b)?;
        //those of a kind stay in order
        eq("order of the new subprocessors", subs.iter().filter(|s| w.new.contains(s)).cloned().collect::<Vec<_>>(), w.new.clone())?;
        let mut g = psaid(got, w.id.is_some());
        g.subs = vec![]; w.subs = vec![]; g.new = vec![]; w.new = vec![];
        eq(&format!("processor in the document after {}", log.join(".")), g, w)?;
        ctx.count("processors added", 1);
    }
    ctx.eval(Some(crate::rng::hash(&log.join("."))));
    Ok(())
}

fn properties(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    const AT: &[AnnotationType] = &[AnnotationType::TOKEN, AnnotationType::SENTENCE, AnnotationType::POS, AnnotationType::ENTITY, AnnotationType::LEMMA, AnnotationType::TEXT, AnnotationType::DIVISION];
    let mut w = (false, true, vec![format!("{:?}", (AnnotationType::TEXT, Some("https://raw.githubusercontent.com/proycon/folia/master/setdefinitions/text.foliaset.ttl")))], None::<String>);
    let mut p = DocumentProperties::default();
    let mut log = vec![];
    for _ in 0..rng.range(0, 10) {
        match rng.below(6) {
            0 => { let v = rng.p(1, 2); log.push(format!("speech({})", v)); p = p.with_bodytype(if v { BodyType::Speech } else { BodyType::Text }); w.0 = v; }
            1 => { let v = rng.p(1, 2); log.push(format!("autodeclare({})", v)); p = p.with_autodeclare(v); w.1 = v; }
            2 => { let v = rng.word(); log.push(format!("processor({})", v)); p = p.with_processor(Processor::new(v.clone()).with_id(format!("proc.{}", v))); w.3 = Some(format!("proc.{}", v)); }
            _ => { let t = *rng.pick(AT); let v = (t, if t == AnnotationType::DIVISION { None } else { Some(name(rng)) }); log.push(format!("declaration({:?})", v)); p = p.with_declaration(v.0, v.1.clone()); w.2.push(format!("{:?}", v)); }
        }
        let got = (matches!(p.bodytype, BodyType::Speech), p.autodeclare, p.declare.iter().map(|d| format!("{:?}", d)).collect::<Vec<_>>(), p.processor.as_ref().map(|p| p.id.clone()));
        eq(&format!("properties after {}", log.join(".")), got, w.clone())?;
    }
    //the document is made accordingly; and so is every other that is made with the same properties
    for turn in 0..2 {
        let doc = Document::new(&format!("doc{}", turn), p.clone()).map_err(|e| format!("{:?} for {}", e, log.join(".")))?;
        let what = |x: &str| format!("{} of document {} with properties {}", x, turn, log.join("."));
        let root = doc.get_element(0).ok_or("no body")?;
        eq(&what("body"), root.elementtype() == ElementType::Speech, w.0)?;
        eq(&what("autodeclare"), doc.autodeclare, w.1)?;
        let mut want = w.2.clone();
        let mut seen = std::collections::HashSet::new();
        want.retain(|d| seen.insert(d.clone()));
        let got: Vec<String> = doc.declarations().flatten().map(|d| format!("{:?}", (d.annotationtype, d.set.clone()))).collect();
        eq(&what("declarations"), got, want)?;
        eq(&what("active processor"), doc.active_processor.and_then(|k| doc.get_processor(k)).map(|p| p.id.clone()), w.3.clone())?;
        for d in doc.declarations().flatten() { eq(&what("processors of a declaration"), d.processors.len(), if w.3.is_some() { 1.min(d.processors.len()) } else { 0 })?; }
        eq(&what("identifier"), doc.id.clone(), format!("doc{}", turn))?;
    }
    ctx.count("documents made", 2);
    ctx.eval(Some(crate::rng::hash(&log.join("."))));
    Ok(())
}

fn attribute(rng: &mut Rng) -> Attribute {
    const KEYS: &[&str] = &["xml:id", "set", "class", "processor", "subset", "annotator", "annotatortype", "confidence", "n", "datetime", "begintime", "endtime", "src", "speaker", "textclass", "metadata", "id", "space", "t", "type", "auth", "offset", "ref", "original", "linenr", "pagenr", "newpage", "xlink:type", "xlink:href", "tag", "format"];
    let k = *rng.pick(KEYS);
    let v = match k {
        "annotatortype" => rng.pick(&["auto", "manual", "generator", "datasource"]).to_string(),
        "confidence" => rng.confidence(), "datetime" => rng.datetime(), "space" | "newpage" => rng.pick(&["yes", "no"]).to_string(), "offset" | "linenr" => rng.below(100000).to_string(),
        _ => name(rng),
    };
    crate::api::attribute(k, &v)
}
fn shown(a: &Attribute) -> String { format!("{:?}", a) }
fn item(rng: &mut Rng) -> DataType {
    match rng.below(5) { 0 => DataType::Text(rng.text()), 1 => DataType::Comment(rng.word()), 2 => DataType::Element(rng.below(9) as ElementKey), 3 => DataType::SpanReference(rng.below(9) as ElementKey), _ => DataType::AddElement(ElementData::new(etype(rng))) }
}
fn element(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    let et = etype(rng);
    let mut attrs: Vec<Attribute> = vec![];
    let mut data: Vec<DataType> = vec![];
    let mut parent = None;
    let mut log = vec![format!("{:?}", et)];
    let mut e = ElementData::new(et);
    for _ in 0..rng.range(1, 14) {
        match rng.below(12) {
            0 | 1 => {
                let a = attribute(rng);
                log.push(format!("set {}", shown(&a)));
                attrs.retain(|x| x.attribtype() != a.attribtype());
                attrs.push(a.clone());
                if rng.p(1, 2) { e = e.with_attrib(a); } else { e.set_attrib(a); }
            }
            2 => {
                let mut all: Vec<Attribute> = vec![];
                for _ in 0..rng.below(6) { let a = attribute(rng); if all.iter().all(|x| x.attribtype() != a.attribtype()) { all.push(a); } }
                log.push(format!("set all {:?}", all.iter().map(shown).collect::<Vec<_>>()));
                attrs = all.clone();
                if rng.p(1, 2) { e = e.with_attribs(all); } else { e.set_attribs(all); }
            }
            3 => {
                let t = if attrs.is_empty() || rng.p(1, 3) { attribute(rng).attribtype() } else { attrs[rng.below(attrs.len())].attribtype() };
                log.push(format!("delete {:?}", t));
                let want = attrs.iter().position(|x| x.attribtype() == t).map(|i| attrs.remove(i));
                eq(&format!("deleted in {}", log.join(" ")), e.del_attrib(t).map(|a| shown(&a)), want.map(|a| shown(&a)))?;
            }
            4 => { let d = item(rng); log.push("push".into()); data.push(d.clone()); if rng.p(1, 2) { e = e.with(d); } else { e.push(d); } }
            5 => { let all: Vec<DataType> = (0..rng.below(4)).map(|_| item(rng)).collect(); log.push(format!("children {}", all.len())); data.extend(all.iter().cloned()); e = e.with_children(all); }
            6 => { let c = ElementData::new(etype(rng)).with_attrib(attribute(rng)); log.push("add".into()); data.push(DataType::AddElement(c.clone())); e = e.add_element(c); }
            7 => {
                let ids: Vec<String> = (0..rng.below(4)).map(|_| rng.word()).collect();
                log.push(format!("span {:?}", ids));
                for i in &ids { data.push(DataType::AddElement(ElementData::new(ElementType::WordReference).with_attrib(Attribute::Idref(i.clone())))); }
                e = e.with_span(&ids.iter().map(|s| s.as_str()).collect::<Vec<_>>());
            }
            8 => { let t = rng.text(); log.push(format!("text {:?}", t)); data.push(DataType::AddElement(ElementData::new(ElementType::TextContent).with(DataType::Text(t.clone())))); e = e.with_text(t); }
            9 => {
                let i = rng.below(data.len() + 2);
                log.push(format!("remove {}", i));
                let want = if i < data.len() { Some(data.remove(i)) } else { None };
                eq(&format!("removed in {}", log.join(" ")), e.remove(i) == want, true)?;
            }
            _ => { parent = if rng.p(1, 3) { None } else { Some(rng.below(50) as ElementKey) }; log.push(format!("parent {:?}", parent)); if rng.p(1, 2) { e = e.with_parent_key(parent); } else { e.set_parent_key(parent); } }
        }
        let what = |x: &str| format!("{} of {}", x, log.join(" "));
        let sorted = |v: Vec<String>| { let mut v = v; v.sort(); v };
        eq(&what("attributes"), sorted(e.attribs.iter().map(shown).collect()), sorted(attrs.iter().map(shown).collect()))?;
        for a in &attrs { eq(&what("attribute"), (e.attrib(a.attribtype()).map(shown), e.has_attrib(a.attribtype())), (Some(shown(a)), true))?; }
        let t = attribute(rng).attribtype();
        if attrs.iter().all(|a| a.attribtype() != t) { eq(&what("attribute that was not given"), (e.attrib(t).map(shown), e.has_attrib(t)), (None, false))?; }
        eq(&what("number of items"), e.len(), data.len())?;
        for (i, d) in data.iter().enumerate() {
            if e.get_data_at(i) != Some(d) { return Err(what(&format!("item {}", i))); }
            eq(&what("position of an item"), e.index(d), data.iter().position(|x| x == d))?;
        }
        if e.get_data_at(data.len()).is_some() { return Err(what("more items than given, items")); }
        eq(&what("parent"), e.parent_key(), parent)?;
        eq(&what("type"), e.elementtype, et)?;
        ctx.count("steps of elements", 1);
    }
    if e.clone() != e { return Err("a clone is not the same".into()); }
    ctx.eval(Some(crate::rng::hash(&log.join("."))));
    Ok(())
}

fn case(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    for _ in 0..4 { query(ctx, rng)?; selector(ctx, rng)?; text(ctx, rng)?; processors(ctx, rng)?; properties(ctx, rng)?; element(ctx, rng)?; }
    Ok(())
}

///What a comparison and a recursion mean, for all values there are
fn f_cmp(ctx: &mut Ctx) -> Result<(), String> {
    for v in [None, Some(1u8), Some(2)] {
        for (c, want) in [(Cmp::Any, true), (Cmp::Is(1), v == Some(1)), (Cmp::Is(2), v == Some(2)), (Cmp::Some, v.is_some()), (Cmp::None, v.is_none()), (Cmp::Unmatchable, false)] { eq(&format!("{:?} matches {:?}", c, v), c.matches(v.as_ref()), want)?; }
    }
    eq("comparison that was not given", Cmp::<u8>::default(), Cmp::Any)?;
    use AcceptedData::*;
    let mut n = 0;
    for s in spec::SPEC {
        eq("recursion", (Recursion::Always.eval(s.et), Recursion::No.eval(s.et)), (true, false))?;
        for t in spec::SPEC {
            for g in GROUPS {
                let (a, b) = (t.et == s.et, spec::in_group(*g, s.et));
                for (l, want) in [(vec![], false), (vec![AcceptElementType(t.et)], a), (vec![AcceptElementGroup(*g)], b), (vec![AcceptElementType(t.et), AcceptElementGroup(*g)], a || b), (vec![AcceptElementGroup(*g), AcceptElementType(t.et)], a || b)] {
                    eq(&format!("recursion for {:?} limited to {:?}", s.et, l), Recursion::LimitedTo(l.clone()).eval(s.et), want)?;
                    eq(&format!("recursion for {:?} except for {:?}", s.et, l), Recursion::ExceptFor(l.clone()).eval(s.et), !want)?;
                    n += 2;
                }
            }
        }
        for g in GROUPS { for h in GROUPS { let l = vec![AcceptElementGroup(*g), AcceptElementGroup(*h)]; let want = spec::in_group(*g, s.et) || spec::in_group(*h, s.et); eq(&format!("recursion for {:?} limited to {:?}", s.et, l), (Recursion::LimitedTo(l.clone()).eval(s.et), Recursion::ExceptFor(l.clone()).eval(s.et)), (want, !want))?; n += 2; } }
    }
    ctx.count("recursions evaluated", n);
    let _ = gen::FEATTYPES;
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C28",
    rule: "Queries, selectors, text parameters, document properties, processors and elements are put together by random sequences of calls in random order, with repetitions; after every call all that can be seen of the thing is compared with a record of what was asked. Documents and processors made from them are compared as well. Distinct by the sequence of calls.",
    cases: (25000, 1500000), case,
    fixed: &[("comparisons and recursion", f_cmp)],
    ..BASE
};
