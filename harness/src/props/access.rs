//! Whichever way something is reached or asked, the answer is the same.
use super::*;
use crate::hist::*;
use crate::model::*;
use crate::snap::Data;
use crate::view::View;

const TYPES: &[AttribType] = &[AttribType::NONE, AttribType::ID, AttribType::SET, AttribType::CLASS, AttribType::ANNOTATOR, AttribType::ANNOTATORTYPE, AttribType::CONFIDENCE, AttribType::N, AttribType::DATETIME, AttribType::BEGINTIME, AttribType::ENDTIME, AttribType::SRC, AttribType::SPEAKER, AttribType::TEXTCLASS, AttribType::METADATA, AttribType::IDREF, AttribType::SPACE, AttribType::PROCESSOR, AttribType::HREF, AttribType::FORMAT, AttribType::SUBSET, AttribType::TEXT, AttribType::TYPE, AttribType::AUTH, AttribType::OFFSET, AttribType::REF, AttribType::ORIGINAL, AttribType::LINENR, AttribType::PAGENR, AttribType::NEWPAGE, AttribType::XLINKTYPE, AttribType::TAG];

///The type of an attribute, as in the documentation of the types
fn typ(a: &Attribute) -> AttribType {
    match a {
        Attribute::Ignore => AttribType::NONE, Attribute::Id(_) => AttribType::ID, Attribute::Set(_) | Attribute::DeclarationRef(_) => AttribType::SET, Attribute::Class(_) | Attribute::ClassRef(_) => AttribType::CLASS,
        Attribute::Annotator(_) => AttribType::ANNOTATOR, Attribute::AnnotatorType(_) => AttribType::ANNOTATORTYPE, Attribute::Confidence(_) => AttribType::CONFIDENCE, Attribute::N(_) => AttribType::N, Attribute::DateTime(_) => AttribType::DATETIME,
        Attribute::BeginTime(_) => AttribType::BEGINTIME, Attribute::EndTime(_) => AttribType::ENDTIME, Attribute::Src(_) => AttribType::SRC, Attribute::Speaker(_) => AttribType::SPEAKER, Attribute::Textclass(_) => AttribType::TEXTCLASS, Attribute::Metadata(_) => AttribType::METADATA,
        Attribute::Idref(_) => AttribType::IDREF, Attribute::Space(_) => AttribType::SPACE, Attribute::Text(_) => AttribType::TEXT, Attribute::Type(_) => AttribType::TYPE, Attribute::Auth(_) => AttribType::AUTH, Attribute::Offset(_) => AttribType::OFFSET, Attribute::Ref(_) => AttribType::REF,
        Attribute::Original(_) => AttribType::ORIGINAL, Attribute::LineNr(_) => AttribType::LINENR, Attribute::PageNr(_) => AttribType::PAGENR, Attribute::NewPage(_) => AttribType::NEWPAGE, Attribute::XLinkType(_) => AttribType::XLINKTYPE, Attribute::Tag(_) => AttribType::TAG,
        Attribute::Processor(_) | Attribute::ProcessorRef(_) => AttribType::PROCESSOR, Attribute::Href(_) => AttribType::HREF, Attribute::Format(_) => AttribType::FORMAT, Attribute::Subset(_) | Attribute::SubsetRef(_) => AttribType::SUBSET,
    }
}
fn same<T>(what: &str, a: Option<&T>, b: Option<&T>) -> Result<(), String> {
    if a.map(|x| x as *const T) == b.map(|x| x as *const T) { Ok(()) } else { Err(format!("{}: not the same object ({} and {})", what, if a.is_some() { "one" } else { "none" }, if b.is_some() { "one" } else { "none" })) }
}
type E = ElementData;
type Doc = Document;

pub fn element(doc: &Document, k: ElementKey) -> Result<(), String> {
    let e = doc.get_element(k).ok_or(format!("element {} is gone", k))?;
    let d = e.elementdata_pub();
    let w = |what: &str| format!("{} of element {} ({:?})", what, k, d.elementtype);
    same(&w("data"), Some(d), <Doc as Store<E, ElementKey>>::get(doc, k))?;
    eq(&w("key"), e.key(), Some(k))?;
    eq(&w("type"), e.elementtype(), d.elementtype)?;
    //attributes
    let list: Vec<&Attribute> = d.attribs().iter().collect();
    eq(&w("number of attributes"), e.attribs().len(), list.len())?;
    for t in TYPES {
        let want = list.iter().find(|a| typ(a) == *t).copied();
        same(&w(&format!("attribute {:?}", t)), e.attrib(*t), want)?;
        same(&w(&format!("attribute {:?} of the data", t)), d.attrib(*t), want)?;
        eq(&w(&format!("whether it has {:?}", t)), (e.has_attrib(*t), d.has_attrib(*t)), (want.is_some(), want.is_some()))?;
    }
    for a in list.iter() {
        if typ(a) != a.attribtype() { return Err(w(&format!("type {:?} of attribute {:?}", a.attribtype(), a))); }
        if a.encodable() { return Err(w(&format!("attribute {:?} left as given", a))); }
    }
    //the identifier
    let id = list.iter().find_map(|a| if let Attribute::Id(s) = a { Some(s.as_str()) } else { None });
    eq(&w("identifier"), (e.id(), d.id()), (id, id))?;
    if let Some(id) = id {
        if let Some(other) = doc.get_element_by_id(id) { same(&w("data by identifier"), Some(other.elementdata_pub()), <Doc as Store<E, ElementKey>>::get_by_id(doc, id))?; }
        eq(&w("key by identifier"), doc.get_element_by_id(id).and_then(|x| x.key()), doc.get_element_key_by_id(id))?;
        eq(&w("key by identifier in the store"), <Doc as Store<E, ElementKey>>::id_to_key(doc, id), doc.get_element_key_by_id(id))?;
        if doc.get_element_key_by_id(id) != Some(k) { return Err(w(&format!("identifier {:?} belongs to {:?}", id, doc.get_element_key_by_id(id)))); }
    }
    //declaration, class, subset
    let dk = list.iter().find_map(|a| if let Attribute::DeclarationRef(x) = a { Some(*x) } else { None });
    let ck = list.iter().find_map(|a| if let Attribute::ClassRef(x) = a { Some(*x) } else { None });
    let sk = list.iter().find_map(|a| if let Attribute::SubsetRef(x) = a { Some(*x) } else { None });
    let pk = list.iter().find_map(|a| if let Attribute::ProcessorRef(x) = a { Some(*x) } else { None });
    eq(&w("keys"), (e.declaration_key(), e.class_key(), e.subset_key(), e.processor_key()), (dk, ck, sk, pk))?;
    let r = |x: Result<Option<usize>, FoliaError>| x.map_err(|e| w(&format!("keys: {:?}", e)));
    eq(&w("keys in its data"), (r(d.declaration_key().map(|x| x.map(|x| x as usize)))?, r(d.class_key().map(|x| x.map(|x| x as usize)))?, r(d.subset_key().map(|x| x.map(|x| x as usize)))?, r(d.processor_key().map(|x| x.map(|x| x as usize)))?),
        (dk.map(|x| x as usize), ck.map(|x| x as usize), sk.map(|x| x as usize), pk.map(|x| x as usize)))?;
    for (what, x, there) in [("set", d.set(), dk.is_some()), ("class", d.class(), ck.is_some()), ("subset", d.subset(), sk.is_some()), ("processor", d.processor(), pk.is_some())] {
        match x { Ok(Some(s)) => return Err(w(&format!("{} {:?} in its data, where there are keys only", what, s))), Ok(None) if there => return Err(w(&format!("{}: its data says there is none, but there is a key", what))), _ => {} }
    }
    let decl = dk.and_then(|x| doc.get_declaration(x));
    if dk.is_some() != decl.is_some() { return Err(w("declaration")); }
    same(&w("declaration"), e.get_declaration(), decl)?;
    eq(&w("set"), e.set(), decl.and_then(|x| x.set.as_deref()))?;
    eq(&w("subset"), e.subset(), sk.and_then(|s| decl.and_then(|x| x.get_subset(s))))?;
    eq(&w("class"), e.class(), ck.and_then(|c| decl.and_then(|x| if sk.is_some() { x.get_subclass(c) } else { x.get_class(c) })))?;
    if ck.is_some() && e.class().is_none() { return Err(w("class: there is a key, which stands for nothing,")); }
    if sk.is_some() && e.subset().is_none() { return Err(w("subset: there is a key, which stands for nothing,")); }
    if let (Some(c), Some(x)) = (e.class(), decl) { eq(&w("key of its class"), if sk.is_some() { x.subclass_key(c) } else { x.class_key(c) }, ck)?; }
    if let (Some(s), Some(x)) = (e.subset(), decl) { eq(&w("key of its subset"), x.subset_key(s), sk)?; }
    //the processor
    let p = pk.and_then(|x| doc.get_processor(x));
    if pk.is_some() != p.is_some() { return Err(w("processor")); }
    same(&w("processor"), e.get_processor(), p)?;
    eq(&w("processor"), e.processor(), p.map(|x| x.id.as_str()))?;
    eq(&w("annotator"), e.annotator(), p.map(|x| x.name.as_str()).or(list.iter().find_map(|a| if let Attribute::Annotator(s) = a { Some(s.as_str()) } else { None })))?;
    eq(&w("type of its annotator"), e.annotatortype(), p.map(|x| x.processortype).or(list.iter().find_map(|a| if let Attribute::AnnotatorType(t) = a { Some(*t) } else { None })))?;
    //values
    eq(&w("confidence"), d.confidence(), list.iter().find_map(|a| if let Attribute::Confidence(f) = a { Some(*f) } else { None }))?;
    let target = list.iter().find_map(|a| if let Attribute::Idref(s) = a { Some(s.as_str()) } else { None });
    eq(&w("reference"), d.idref(), target)?;
    eq(&w("element referred to"), e.resolve().and_then(|x| x.key()), target.and_then(|t| doc.get_element_key_by_id(t)))?;
    //the place
    eq(&w("parent"), (e.parent_key(), e.get_parent().and_then(|x| x.key())), (d.parent_key(), d.parent_key()))?;
    match d.parent_key() {
        None => eq(&w("index"), e.get_index(), None)?,
        Some(pk) => {
            let p = <Doc as Store<E, ElementKey>>::get(doc, pk).ok_or(w("parent"))?;
            let at = (0..p.len()).find(|i| p.get_data_at(*i) == Some(&DataType::Element(k)));
            if at.is_none() { return Err(w("parent: it is not among its children; index")); }
            eq(&w("index"), (e.get_index(), p.index(&DataType::Element(k))), (at, at))?;
        }
    }
    eq(&w("whether it is empty"), d.is_empty(), d.len() == 0)?;
    if d.get_data_at(d.len()).is_some() { return Err(w("content beyond the end")); }
    if d.len() > 0 && d.get_data_at(d.len() - 1).is_none() { return Err(w("last content")); }
    Ok(())
}

fn names<S, K>(what: &str, s: Option<&S>, key: impl Fn(&str) -> Option<K>, name: impl Fn(K) -> Option<String>) -> Result<usize, String> where S: StringStore<K>, K: std::convert::TryFrom<usize> + Copy + std::fmt::Debug + PartialEq, usize: std::convert::TryFrom<K>, <usize as std::convert::TryFrom<K>>::Error: std::fmt::Debug {
    let s = match s { Some(s) => s, None => return Ok(0) };
    let mut n = 0;
    for (i, x) in s.iter().enumerate() {
        let x = x.as_ref().ok_or(format!("{} {} was removed", what, i))?;
        let k = K::try_from(i).map_err(|_| format!("{} {}: no key", what, i))?;
        eq(&format!("{} {}", what, i), (s.get(k).map(|x| x.to_string()), name(k)), (Some(x.clone()), Some(x.clone())))?;
        eq(&format!("key of {} {:?}", what, x), (s.get_key(x), key(x)), (Some(k), Some(k)))?;
        n += 1;
    }
    eq(&format!("number of {}", what), (s.len(), s.is_empty()), (n, n == 0))?;
    if let Ok(k) = K::try_from(n) { eq(&format!("{} beyond the last", what), (s.get(k).map(|x| x.to_string()), name(k)), (None, None))?; }
    eq(&format!("{} that is not there", what), (s.get_key("\u{1}never"), key("\u{1}never")), (None, None))?;
    Ok(n)
}

///Keys of so many bits that nothing has if there are n things: the next, the last, and those that resemble existing ones
fn beyond(n: usize, bits: u32) -> Vec<usize> {
    let max = (1usize << bits) - 1;
    let mut keys = vec![n, n + 1, max, max - 1];
    for b in 1..bits { for low in [0, n / 2, n.saturating_sub(1)] { keys.push(1 << b | low); keys.push(max << b & max | low); } }
    keys.retain(|k| *k >= n && *k <= max);
    keys
}

pub fn document(doc: &Document) -> Result<usize, String> {
    let n = <Doc as Store<E, ElementKey>>::len(doc);
    eq("whether there are elements", <Doc as Store<E, ElementKey>>::is_empty(doc), n == 0)?;
    let mut facts = 0;
    for (i, x) in <Doc as Store<E, ElementKey>>::iter(doc).enumerate() {
        let x = x.as_ref().ok_or("an element was removed")?;
        same(&format!("element {} in the list", i), Some(&**x), <Doc as Store<E, ElementKey>>::get(doc, i as ElementKey))?;
        element(doc, i as ElementKey)?;
        facts += 1;
    }
    eq("number of elements", facts, n)?;
    //an element that is printed is its text, and it equals what has the same key
    for k in (0..n).step_by(1 + n / 12) {
        let e = doc.get_element(k as ElementKey).ok_or("an element is gone")?;
        let text = match e.text(&TextParameters::default()) { Ok(t) => t, Err(_) => String::new() };
        eq(&format!("element {} ({:?}) as it is printed", k, e.elementtype()), e.to_string(), text)?;
        for other in [k, (k + 1) % n, n / 2] {
            let f = doc.get_element(other as ElementKey).ok_or("an element is gone")?;
            eq(&format!("whether elements {} and {} are the same", k, other), e == f, k == other)?;
        }
    }
    for k in beyond(n, 32) {
        let key = k as ElementKey;
        if doc.get_element(key).is_some() || <Doc as Store<E, ElementKey>>::get(doc, key).is_some() { return Err(format!("there is an element {}, beyond the last", k)); }
        facts += 1;
    }
    //declarations
    let mut ids: std::collections::HashSet<String> = Default::default();
    for (i, x) in doc.declarations().enumerate() {
        let x = x.as_ref().ok_or("a declaration was removed")?;
        let k = i as DecKey;
        let w = |what: &str| format!("{} of declaration {} ({:?} {:?})", what, i, x.annotationtype, x.set);
        same(&w("data"), Some(&**x), doc.get_declaration(k))?;
        same(&w("data in the store"), Some(&**x), <Doc as Store<Declaration, DecKey>>::get(doc, k))?;
        eq(&w("key"), Storable::<DecKey>::key(&**x), Some(k))?;
        let id = Declaration::index_id(x.annotationtype, &x.set.as_deref());
        if !ids.insert(id.clone()) { return Err(w("second occurrence")); }
        eq(&w("key by identifier"), doc.get_declaration_key_by_id(&id), Some(k))?;
        same(&w("data by identifier"), doc.get_declaration_by_id(&id), Some(&**x))?;
        eq(&w("default processor"), x.default_processor(), if x.processors.len() == 1 { Some(x.processors[0]) } else { None })?;
        let c = names("class", x.classes.as_ref(), |s| x.class_key(s), |k| x.get_class(k).map(|s| s.to_string()))?;
        names("subset", x.subsets.as_ref(), |s| x.subset_key(s), |k| x.get_subset(k).map(|s| s.to_string()))?;
        names("subclass", x.subclasses.as_ref(), |s| x.subclass_key(s), |k| x.get_subclass(k).map(|s| s.to_string()))?;
        for c in x.classes.iter().flat_map(|s| s.iter()).flatten() { eq(&w("key of a class through the document"), doc.class_key(k, c).ok(), x.class_key(c))?; }
        if doc.class_key(k, "\u{1}never").is_ok() { return Err(w("key of a class that is not there")); }
        facts += 1 + c;
    }
    let nd = doc.declarations().count();
    for k in beyond(nd, 16) { if doc.get_declaration(k as DecKey).is_some() || doc.class_key(k as DecKey, "x").is_ok() { return Err(format!("there is a declaration {}, beyond the last", k)); } }
    if doc.class_key(nd as DecKey, "x").is_ok() { return Err("class of a declaration that is not there".into()); }
    //processors
    let mut np = 0;
    for (i, x) in <Doc as Store<Processor, ProcKey>>::iter(doc).enumerate() {
        let x = x.as_ref().ok_or("a processor was removed")?;
        let k = i as ProcKey;
        same(&format!("processor {}", i), Some(&**x), doc.get_processor(k))?;
        eq(&format!("key of processor {}", i), Storable::<ProcKey>::key(&**x), Some(k))?;
        eq(&format!("key of processor {:?}", x.id), doc.get_processor_key_by_id(&x.id), Some(k))?;
        same(&format!("processor {:?}", x.id), doc.get_processor_by_id(&x.id), Some(&**x))?;
        np += 1;
    }
    eq("number of processors", <Doc as Store<Processor, ProcKey>>::len(doc), np)?;
    for k in beyond(np, 16) { if doc.get_processor(k as ProcKey).is_some() { return Err(format!("there is a processor {}, beyond the last", k)); } }
    Ok(facts + np)
}

///Objects to be changed are those that are read
fn mutable(doc: &mut Document) -> Result<(), String> {
    let decls: Vec<(DecKey, String, *const Declaration)> = doc.declarations().flatten().enumerate().map(|(i, d)| (i as DecKey, Declaration::index_id(d.annotationtype, &d.set.as_deref()), &**d as *const Declaration)).collect();
    for (k, id, p) in decls {
        let a = doc.get_mut_declaration(k).map(|d| d as *const Declaration);
        let b = doc.get_mut_declaration_by_id(&id).map(|d| d as *const Declaration);
        eq(&format!("declaration {:?} to be changed", id), (a, b), (Some(p), Some(p)))?;
    }
    let procs: Vec<(ProcKey, String, *const Processor)> = <Doc as Store<Processor, ProcKey>>::iter(doc).flatten().enumerate().map(|(i, p)| (i as ProcKey, p.id.clone(), &**p as *const Processor)).collect();
    for (k, id, p) in procs {
        let a = doc.get_mut_processor(k).map(|d| d as *const Processor);
        let b = doc.get_mut_processor_by_id(&id).map(|d| d as *const Processor);
        eq(&format!("processor {:?} to be changed", id), (a, b), (Some(p), Some(p)))?;
    }
    let n = <Doc as Store<E, ElementKey>>::len(doc);
    for i in 0..n {
        let p = <Doc as Store<E, ElementKey>>::get(doc, i as ElementKey).map(|e| e as *const E);
        eq(&format!("element {} to be changed", i), <Doc as Store<E, ElementKey>>::get_mut(doc, i as ElementKey).map(|e| e as *const E), p)?;
        let id = doc.get_element(i as ElementKey).and_then(|e| e.id().map(|s| s.to_string()));
        if let Some(id) = id { eq(&format!("element {:?} to be changed", id), <Doc as Store<E, ElementKey>>::get_mut_by_id(doc, &id).map(|e| e as *const E), p)?; }
    }
    for x in ["", "\u{1}never"] { if doc.get_mut_declaration_by_id(x).is_some() || doc.get_mut_processor_by_id(x).is_some() || <Doc as Store<E, ElementKey>>::get_mut_by_id(doc, x).is_some() || doc.get_element_by_id(x).is_some() || doc.get_processor_by_id(x).is_some() || doc.get_declaration_by_id(x).is_some() { return Err(format!("something is called {:?}", x)); } }
    Ok(())
}

///An element that is yet to be added says what was given to it
pub fn given(e: &El) -> Result<usize, String> {
    let d = crate::api::build(e);
    let w = |what: &str| format!("{} of {:?} before it is added", what, e);
    for (what, got, key) in [("set", d.set(), "set"), ("class", d.class(), "class"), ("subset", d.subset(), "subset"), ("processor", d.processor(), "processor")] {
        eq(&w(what), got.map_err(|e| format!("{:?}", e))?, e.get(key))?;
    }
    eq(&w("identifier"), d.id(), e.get("xml:id"))?;
    eq(&w("reference"), d.idref(), e.get("id"))?;
    eq(&w("confidence"), d.confidence().map(crate::snap::bits), e.get("confidence").map(|c| crate::snap::canon("confidence", c)))?;
    eq(&w("number of attributes"), d.attribs().len(), e.attrs.len())?;
    for (what, key, got) in [("set", "set", d.declaration_key().map(|x| x.is_some())), ("class", "class", d.class_key().map(|x| x.is_some())), ("subset", "subset", d.subset_key().map(|x| x.is_some())), ("processor", "processor", d.processor_key().map(|x| x.is_some()))] {
        match got { Ok(true) => return Err(w(&format!("key for the {}", what))), Ok(false) if e.get(key).is_some() => return Err(w(&format!("no key for the {}, although there is one: it is not known yet, which should be an error;", what))), _ => {} }
    }
    if d.key_pub().is_some() { return Err(w("key")); }
    Ok(1 + e.children().map(given).sum::<Result<usize, String>>()?)
}
trait Key { fn key_pub(&self) -> Option<ElementKey>; }
impl Key for ElementData { fn key_pub(&self) -> Option<ElementKey> { Storable::<ElementKey>::key(self) } }

fn extra(ctx: &mut Ctx, h: &Hist, _: &View, _: &mut Rng) -> Result<(), String> {
    ctx.count("objects read in all ways", document(&h.doc)?);
    Ok(())
}
fn opts(o: &mut crate::gen::Opts) { o.attrs = true; o.feats = true; o.size = o.size.min(25); }
const PLAN: Plan = Plan { weights: Weights { processor: 2, activate: 2, feature: 4, declare: 3, ..Weights::ALL }, aspects: VOCAB | ATTRS, steps: (2, 16), opts, extra, roundtrip: false };

fn case(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    match rng.below(4) {
        0 => {
            let m = random_doc_with_attributes(rng);
            let x = plain(&m);
            ctx.input(&x);
            let mut doc = parse(&x)?;
            let n = document(&doc)?;
            ctx.count("objects read in all ways", n);
            mutable(&mut doc)?;
            ctx.count("objects read in all ways", document(&doc)?);
            ctx.count("elements read before they are added", given(&m.body)?);
            ctx.eval(if n > 5 { Some(crate::rng::hash(&x)) } else { None });
            Ok(())
        }
        _ => run(ctx, rng, &PLAN),
    }
}
fn random_doc_with_attributes(rng: &mut Rng) -> DocM {
    let mut o = crate::gen::Opts::new(rng);
    o.attrs = true;
    o.shorthand = false;
    crate::gen::Gen::new(rng, o).doc()
}

fn f_types(ctx: &mut Ctx) -> Result<(), String> {
    //an attribute of every kind on one element: each is found, by its own type only
    let all = vec![Attribute::Id("i".into()), Attribute::Annotator("a".into()), Attribute::AnnotatorType(ProcessorType::Manual), Attribute::Confidence(0.25), Attribute::N("n".into()), Attribute::DateTime(crate::api::date("2020-02-29T23:59:58")), Attribute::BeginTime("b".into()), Attribute::EndTime("e".into()), Attribute::Src("s".into()), Attribute::Speaker("p".into()), Attribute::Textclass("t".into()), Attribute::Metadata("m".into()), Attribute::Idref("i".into()), Attribute::Space(false), Attribute::Text("x".into()), Attribute::Type("y".into()), Attribute::Auth("u".into()), Attribute::Offset(7), Attribute::Ref("r".into()), Attribute::Original("o".into()), Attribute::LineNr(8), Attribute::PageNr("g".into()), Attribute::NewPage(true), Attribute::XLinkType("l".into()), Attribute::Tag("z".into()), Attribute::Href("h".into()), Attribute::Format("f".into()), Attribute::Set("set".into()), Attribute::Class("class".into()), Attribute::Processor("proc".into())];
    let e = |e: FoliaError| format!("{:?}", e);
    for skip in 0..=all.len() {
        let mut doc = Document::new("doc", DocumentProperties::default()).map_err(e)?;
        doc.add_processor(Processor::new("name".into()).with_id("proc".into()).with_type(ProcessorType::Generator)).map_err(e)?;
        let given: Vec<Attribute> = all.iter().enumerate().filter(|(i, _)| *i != skip).map(|(_, a)| a.clone()).collect();
        for turn in 0..2 {
            let mut g = given.clone();
            for a in g.iter_mut() { match a { Attribute::Id(s) | Attribute::Idref(s) => *s = format!("i{}", turn), _ => {} } }
            if turn == 1 { g.reverse(); }
            let r = doc.add_element_to(0, ElementData::new(ElementType::Sentence).with_attribs(g));
            let k = match r { Ok(k) => k, Err(x) => if matches!(all.get(skip), Some(Attribute::Set(_))) { continue } else { return Err(e(x)) } };
            element(&doc, k)?;
            let x = doc.get_element(k).ok_or("gone")?;
            let has = |t: fn(&Attribute) -> bool| skip >= all.len() || !t(&all[skip]);
            eq("processor", x.processor(), if has(|a| matches!(a, Attribute::Processor(_))) { Some("proc") } else { None })?;
            eq("annotator", x.annotator(), if x.processor().is_some() { Some("name") } else { Some("a") })?;
            eq("annotator type", x.annotatortype(), if x.processor().is_some() { Some(ProcessorType::Generator) } else { Some(ProcessorType::Manual) })?;
            ctx.count("elements with attributes of all kinds", 1);
        }
        document(&doc)?;
        mutable(&mut doc)?;
    }
    ctx.eval(Some(1));
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C27",
    rule: "Random documents and random histories of operations on them. After every operation every element, declaration, class, subset and processor is reached in all ways there are (by key, identifier, list, parent, to read and to change), and everything it says of itself is asked in all ways there are; all must agree. Elements yet to be added must say what was given to them. Distinct by document or history.",
    cases: (6000, 240000), case,
    fixed: &[("attributes of every kind", f_types)],
    ..BASE
};
