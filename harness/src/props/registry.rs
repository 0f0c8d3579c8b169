//! C29: what is registered in a document stays, and is found again by name and by key.
use super::*;
use crate::spec;
use std::borrow::Cow;
use std::collections::HashMap;

type Doc = Document;
type Names = Vec<String>;
#[derive(Clone, Debug)]
struct D { at: AnnotationType, set: Option<String>, alias: Option<String>, format: Option<String>, procs: Vec<ProcKey>, classes: Names, subsets: Names, subclasses: Names }
#[derive(Clone, Debug)]
struct P { id: String, name: String, parent: Option<ProcKey>, children: Vec<ProcKey> }
#[derive(Clone, Debug)]
struct X { key: ElementKey, at: Option<AnnotationType>, set: Option<String>, class: Option<String>, subset: Option<String>, proc: Option<String> }
///What should have been registered so far
#[derive(Clone, Debug, Default)]
struct Reg { decls: Vec<D>, procs: Vec<P>, chain: Vec<ProcKey>, active: Option<ProcKey>, els: Vec<X> }

fn put(v: &mut Names, s: &str) -> usize { v.iter().position(|x| x == s).unwrap_or_else(|| { v.push(s.to_string()); v.len() - 1 }) }

impl Reg {
    fn add_declaration(&mut self, at: AnnotationType, set: &Option<String>, alias: &Option<String>, format: &Option<String>) -> usize {
        let k = self.decls.iter().position(|d| d.at == at && d.set == *set).unwrap_or_else(|| {
            self.decls.push(D { at, set: set.clone(), alias: alias.clone(), format: format.clone(), procs: vec![], classes: vec![], subsets: vec![], subclasses: vec![] });
            self.decls.len() - 1
        });
        if at == AnnotationType::TEXT { put(&mut self.decls[k].classes, "current"); }
        k
    }
    fn only(&self, at: AnnotationType) -> Option<usize> {
        let v: Vec<usize> = (0..self.decls.len()).filter(|i| self.decls[*i].at == at).collect();
        if v.len() == 1 { Some(v[0]) } else { None }
    }
    fn declare(&mut self, at: AnnotationType, set: &Option<String>, alias: &Option<String>, format: &Option<String>) -> usize {
        let there = self.decls.iter().position(|d| d.at == at && d.set == *set).or(if set.is_none() { self.only(at) } else { None });
        let k = there.unwrap_or_else(|| self.add_declaration(at, set, alias, format));
        if let Some(p) = self.active { if !self.decls[k].procs.contains(&p) { self.decls[k].procs.push(p); } }
        k
    }
    fn provenance(&mut self, id: &str, name: &str) -> ProcKey {
        self.procs.iter().position(|p| p.id == id).unwrap_or_else(|| { self.procs.push(P { id: id.into(), name: name.into(), parent: None, children: vec![] }); self.procs.len() - 1 }) as ProcKey
    }
    fn processor(&mut self, id: &str, name: &str) -> ProcKey {
        let k = self.provenance(id, name);
        if self.procs[k as usize].parent.is_none() && !self.chain.contains(&k) { self.chain.push(k); }
        k
    }
    fn attach(&mut self, parent: ProcKey, child: ProcKey) -> bool {
        if parent as usize >= self.procs.len() || child as usize >= self.procs.len() { return false; }
        let mut a = Some(parent);
        while let Some(k) = a { if k == child { return false; } a = self.procs[k as usize].parent; }
        if let Some(old) = self.procs[child as usize].parent { self.procs[old as usize].children.retain(|k| *k != child); }
        self.chain.retain(|k| *k != child);
        self.procs[child as usize].parent = Some(parent);
        self.procs[parent as usize].children.push(child);
        true
    }
}

fn vocabulary<S, K>(what: &str, s: Option<&S>, want: &Names, rng: &mut Rng) -> Result<(), String> where S: StringStore<K>, K: std::convert::TryFrom<usize> + Copy + std::fmt::Debug + PartialEq, usize: std::convert::TryFrom<K>, <usize as std::convert::TryFrom<K>>::Error: std::fmt::Debug {
    let s = match s { Some(s) => s, None => return eq(&format!("number of {}", what), 0, want.len()) };
    eq(what, s.iter().map(|x| x.clone()).collect::<Vec<_>>(), want.iter().map(|x| Some(x.clone())).collect::<Vec<_>>())?;
    eq(&format!("number of {}", what), (s.len(), s.is_empty()), (want.len(), want.is_empty()))?;
    for (i, x) in want.iter().enumerate() {
        let k = K::try_from(i).map_err(|_| format!("{}: no key {}", what, i))?;
        eq(&format!("{} {}", what, i), s.get(k), Some(x.as_str()))?;
        eq(&format!("key of {} {:?}", what, x), s.get_key(x), Some(k))?;
        let other = rng.near(x);
        if !want.contains(&other) { eq(&format!("key of {} {:?} (there is {:?} only)", what, other, x), s.get_key(&other), None)?; }
    }
    if let Ok(k) = K::try_from(want.len()) { eq(&format!("{} beyond the last", what), s.get(k), None)?; }
    Ok(())
}

fn compare(doc: &Document, m: &Reg, rng: &mut Rng) -> Result<usize, String> {
    eq("number of declarations", (doc.declarations().count(), <Doc as Store<Declaration, DecKey>>::len(doc)), (m.decls.len(), m.decls.len()))?;
    for (i, (d, w)) in doc.declarations().zip(m.decls.iter()).enumerate() {
        let what = |s: &str| format!("{} of declaration {} ({:?} {:?})", s, i, w.at, w.set);
        let d = d.as_ref().ok_or(what("removal"))?;
        eq(&what("content"), (d.annotationtype, &d.set, &d.alias, &d.format), (w.at, &w.set, &w.alias, &w.format))?;
        eq(&what("processors"), &d.processors, &w.procs)?;
        eq(&what("default processor"), d.default_processor(), if w.procs.len() == 1 { Some(w.procs[0]) } else { None })?;
        eq(&what("key"), d.key, Some(i as DecKey))?;
        let id = Declaration::index_id(w.at, &w.set.as_deref());
        eq(&what("key by identifier"), (doc.get_declaration_key_by_id(&id), <Doc as Store<Declaration, DecKey>>::get_key(doc, d)), (Some(i as DecKey), Some(i as DecKey)))?;
        vocabulary(&what("classes"), d.classes.as_ref(), &w.classes, rng)?;
        vocabulary(&what("subsets"), d.subsets.as_ref(), &w.subsets, rng)?;
        vocabulary(&what("subclasses"), d.subclasses.as_ref(), &w.subclasses, rng)?;
        for (k, c) in w.classes.iter().enumerate() { eq(&what("class"), (d.get_class(k as ClassKey), d.class_key(c), doc.class_key(i as DecKey, c).ok()), (Some(c.as_str()), Some(k as ClassKey), Some(k as ClassKey)))?; }
        for (k, c) in w.subsets.iter().enumerate() { eq(&what("subset"), (d.get_subset(k as SubsetKey), d.subset_key(c)), (Some(c.as_str()), Some(k as SubsetKey)))?; }
        for (k, c) in w.subclasses.iter().enumerate() { eq(&what("subclass"), (d.get_subclass(k as ClassKey), d.subclass_key(c)), (Some(c.as_str()), Some(k as ClassKey)))?; }
        for c in w.subclasses.iter().chain(w.subsets.iter()) { if !w.classes.contains(c) { eq(&what(&format!("class {:?}", c)), (d.class_key(c), doc.class_key(i as DecKey, c).ok()), (None, None))?; } }
        for c in w.classes.iter().chain(w.subsets.iter()) { if !w.subclasses.contains(c) { eq(&what(&format!("subclass {:?}", c)), d.subclass_key(c), None)?; } }
        for c in w.classes.iter().chain(w.subclasses.iter()) { if !w.subsets.contains(c) { eq(&what(&format!("subset {:?}", c)), d.subset_key(c), None)?; } }
    }
    //the default of each type
    let mask: Vec<bool> = m.decls.iter().map(|d| m.only(d.at).is_some()).collect();
    eq("which declarations are the default", doc.declarationstore.default_mask(), mask)?;
    for (at, _) in spec::ATYPES {
        let k = m.only(*at);
        eq(&format!("default declaration of {:?}", at), doc.declarationstore.get_default_key(*at), k.map(|k| k as DecKey))?;
        eq(&format!("default set of {:?}", at), doc.get_default_set(*at), k.and_then(|k| m.decls[k].set.as_deref()))?;
    }
    //processors
    eq("number of processors", <Doc as Store<Processor, ProcKey>>::len(doc), m.procs.len())?;
    for (i, w) in m.procs.iter().enumerate() {
        let p = doc.get_processor(i as ProcKey).ok_or(format!("processor {} is gone", i))?;
        eq(&format!("processor {}", i), (&p.id, &p.name, p.parent, &p.processors), (&w.id, &w.name, w.parent, &w.children))?;
        eq(&format!("key of processor {:?}", w.id), (doc.get_processor_key_by_id(&w.id), <Doc as Store<Processor, ProcKey>>::get_key(doc, p), Storable::<ProcKey>::key(p)), (Some(i as ProcKey), Some(i as ProcKey), Some(i as ProcKey)))?;
        let other = rng.near(&w.id);
        if !m.procs.iter().any(|p| p.id == other) { eq(&format!("processor {:?} (there is {:?} only)", other, w.id), doc.get_processor_key_by_id(&other), None)?; }
    }
    eq("chain", &doc.provenancestore.chain, &m.chain)?;
    eq("active processor", doc.active_processor, m.active)?;
    //what refers to them
    for x in m.els.iter() {
        let e = doc.get_element(x.key).ok_or(format!("element {} is gone", x.key))?;
        eq(&format!("set, class, subset and processor of element {} ({:?})", x.key, e.elementtype()), (e.get_declaration().map(|d| d.annotationtype), e.set(), e.class(), e.subset(), e.processor()), (x.at, x.set.as_deref(), x.class.as_deref(), x.subset.as_deref(), x.proc.as_deref()))?;
    }
    Ok(m.decls.iter().map(|d| 1 + d.classes.len() + d.subsets.len() + d.subclasses.len()).sum::<usize>() + m.procs.len() + m.els.len())
}

const STRUCT: &[ElementType] = &[ElementType::Sentence, ElementType::Paragraph, ElementType::Word, ElementType::PosAnnotation, ElementType::LemmaAnnotation, ElementType::TextContent, ElementType::Event];

fn direct(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    let e = |e: FoliaError| format!("{:?}", e);
    let mut doc = Document::new("doc", DocumentProperties { declare: vec![], ..DocumentProperties::default() }).map_err(e)?;
    let mut m = Reg::default();
    //few names, of which many are alike or the same in different roles
    let mut pool: Names = vec![rng.word(), rng.word(), "current".into(), "".into()];
    for _ in 0..rng.range(1, 6) { let x = pool[rng.below(pool.len())].clone(); pool.push(rng.near(&x)); }
    let types: Vec<AnnotationType> = (0..rng.range(1, 4)).map(|_| if rng.p(2, 3) { spec::spec(*rng.pick(STRUCT)).at.unwrap() } else { spec::ATYPES[rng.below(spec::ATYPES.len())].0 }).collect();
    let mut log: Vec<String> = vec![];
    let mut facts = 0;
    for _ in 0..rng.range(3, 40) {
        let name = rng.pick(&pool).clone();
        let set = if rng.p(1, 3) { None } else { Some(rng.pick(&pool).clone()) };
        let opt = |rng: &mut Rng| if rng.p(1, 2) { None } else { Some(rng.pick(&pool).clone()) };
        let (alias, format) = (opt(rng), opt(rng));
        let at = *rng.pick(&types);
        let beyond = if rng.p(1, 6) { 2 } else { 0 };
        let dk = rng.below(m.decls.len() + beyond);
        let there = dk < m.decls.len();
        match rng.below(15) {
            0 | 1 => {
                log.push(format!("add_declaration({:?}, {:?}, {:?}, {:?})", at, set, alias, format));
                let w = m.add_declaration(at, &set, &alias, &format);
                let r = doc.add_declaration(Declaration::new(at, set, alias, format)).map_err(e)?;
                eq(&log.join("; "), r, w as DecKey)?;
            }
            2 | 3 => {
                log.push(format!("declare({:?}, {:?}, {:?}, {:?})", at, set, alias, format));
                let w = m.declare(at, &set, &alias, &format);
                eq(&log.join("; "), doc.declare(at, &set, &alias, &format).map_err(e)?, w as DecKey)?;
            }
            4 | 5 => {
                log.push(format!("add_class({}, {:?})", dk, name));
                let w = if there { Some(put(&mut m.decls[dk].classes, &name) as ClassKey) } else { None };
                let r = if rng.p(1, 2) { doc.add_class(dk as DecKey, &name).ok() } else { match doc.get_mut_declaration(dk as DecKey) { Some(d) => Some(d.add_class(if rng.p(1, 2) { Cow::Owned(name.clone()) } else { Cow::Borrowed(&name) }).map_err(e)?), None => None } };
                eq(&log.join("; "), r, w)?;
            }
            6 => {
                log.push(format!("add_subset({}, {:?})", dk, name));
                let w = if there { Some(put(&mut m.decls[dk].subsets, &name) as SubsetKey) } else { None };
                let r = match doc.get_mut_declaration(dk as DecKey) { Some(d) => Some(d.add_subset(Cow::Borrowed(&name)).map_err(e)?), None => None };
                eq(&log.join("; "), r, w)?;
            }
            7 => {
                log.push(format!("add_subclass({}, {:?})", dk, name));
                let w = if there { Some(put(&mut m.decls[dk].subclasses, &name) as ClassKey) } else { None };
                let r = match doc.get_mut_declaration(dk as DecKey) { Some(d) => Some(d.add_subclass(Cow::Borrowed(&name)).map_err(e)?), None => None };
                eq(&log.join("; "), r, w)?;
            }
            8 | 9 => {
                let orphan = rng.p(1, 2);
                log.push(format!("{}({:?})", if orphan { "add_provenance" } else { "add_processor" }, name));
                let title = rng.word();
                let p = Processor::new(title.clone()).with_id(name.clone());
                let (r, w) = if orphan { (doc.add_provenance(p), m.provenance(&name, &title)) } else { (doc.add_processor(p), m.processor(&name, &title)) };
                eq(&log.join("; "), r.map_err(e)?, w)?;
            }
            10 => {
                let n = m.procs.len() + if rng.p(1, 6) { 1 } else { 0 };
                let (a, b) = (rng.below(n) as ProcKey, rng.below(n) as ProcKey);
                log.push(format!("attach_processor({}, {})", a, b));
                let w = m.attach(a, b);
                eq(&log.join("; "), doc.attach_processor(a, b).is_ok(), w)?;
            }
            11 if !m.procs.is_empty() => {
                let k = rng.below(m.procs.len()) as ProcKey;
                log.push(format!("activate_processor({})", k));
                doc.activate_processor(k);
                m.active = Some(k);
            }
            12 => {
                //properties for a document that is there already
                let mut p = DocumentProperties { declare: vec![], ..DocumentProperties::default() };
                if rng.p(1, 2) {
                    let title = rng.word();
                    p = p.with_processor(Processor::new(title.clone()).with_id(name.clone()));
                    m.active = Some(m.processor(&name, &title));
                }
                for _ in 0..rng.below(4) {
                    let (at, set) = (*rng.pick(&types), if rng.p(1, 3) { None } else { Some(rng.pick(&pool).clone()) });
                    p = p.with_declaration(at, set.clone());
                    m.declare(at, &set, &None, &None);
                }
                log.push(format!("apply_properties({:?}, {:?})", p.declare, p.processor.as_ref().map(|p| &p.id)));
                doc.apply_properties(p).map_err(|x| format!("{}: {:?}", log.join("; "), x))?;
            }
            13 => {
                //a copy has a life of its own
                if let Some(mut d) = doc.get_declaration(dk as DecKey).cloned() {
                    log.push(format!("copy of {}", dk));
                    let n = rng.near(&name);
                    let w = put(&mut m.decls[dk].classes.clone(), &n) as ClassKey;
                    eq(&log.join("; "), d.add_class(Cow::Borrowed(&n)).map_err(e)?, w)?;
                    let w = put(&mut m.decls[dk].subsets.clone(), &n) as SubsetKey;
                    eq(&log.join("; "), d.add_subset(Cow::Borrowed(&n)).map_err(e)?, w)?;
                    d.processors.push(0);
                }
            }
            _ => {
                //an element that uses what there is, or brings something new
                let et = *rng.pick(STRUCT);
                let at = spec::spec(et).at.unwrap();
                let class = if set.is_some() || rng.p(1, 2) { Some(name.clone()) } else { None };
                let mut d = ElementData::new(et);
                if let Some(s) = &set { d = d.with_attrib(Attribute::Set(s.clone())); }
                if let Some(c) = &class { d = d.with_attrib(Attribute::Class(c.clone())); }
                let feature = if rng.p(1, 3) { Some((rng.pick(&pool).clone(), rng.pick(&pool).clone())) } else { None };
                if let Some((s, c)) = &feature { d = d.add_element(ElementData::new(ElementType::Feature).with_attrib(Attribute::Subset(s.clone())).with_attrib(Attribute::Class(c.clone()))); }
                log.push(format!("add_element_to(0, {:?} {:?} {:?} {:?})", et, set, class, feature));
                let before = m.clone();
                //an element that says nothing that is kept in a declaration, is not declared
                let says = set.is_some() || class.is_some();
                let mut p = None;
                let mut k = None;
                if says {
                    let i = m.declare(at, &set, &None, &None);
                    if let Some(c) = &class { put(&mut m.decls[i].classes, c); }
                    p = if m.decls[i].procs.len() == 1 { Some(m.decls[i].procs[0]) } else { m.active };
                    if let Some(p) = p { if !m.decls[i].procs.contains(&p) { m.decls[i].procs.push(p); } }
                    k = Some(i);
                }
                match doc.add_element_to(0, d) {
                    Ok(key) => {
                        //what an element that was given no class is taken to have, is a matter of how it is read
                        let read = doc.get_element(key).and_then(|e| e.class().map(|s| s.to_string()));
                        m.els.push(X { key, at: k.map(|_| at), set: k.and_then(|k| m.decls[k].set.clone()), class: class.clone().or(read), subset: None, proc: p.map(|p| m.procs[p as usize].id.clone()) });
                        if let Some((s, c)) = &feature {
                            let k = k.unwrap_or_else(|| m.declare(at, &None, &None, &None));
                            put(&mut m.decls[k].subsets, s);
                            put(&mut m.decls[k].subclasses, c);
                            let f = doc.get_element(key).and_then(|e| e.get_features(Cmp::Any).next().and_then(|f| f.key())).ok_or(format!("{}: the feature is gone", log.join("; ")))?;
                            m.els.push(X { key: f, at: Some(at), set: m.decls[k].set.clone(), class: Some(c.clone()), subset: Some(s.clone()), proc: None });
                        }
                        ctx.count("elements that use what is registered", 1);
                    }
                    Err(_) => { m = before; log.push("(rejected)".into()); ctx.count("elements rejected", 1); }
                }
            }
        }
        ctx.input = log.join("\n");
        facts += compare(&doc, &m, rng).map_err(|x| format!("after {}: {}", log.join("; "), x))?;
        ctx.count("states compared", 1);
    }
    ctx.count("declarations, names, processors and elements compared", facts);
    ctx.eval(if m.decls.len() > 0 { Some(crate::rng::hash(&log.join(";"))) } else { None });
    Ok(())
}

///A list of names by itself, against a map
fn lists(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    let mut a = ClassStore::default();
    let mut b = SubsetStore::default();
    let (mut wa, mut wb): (Names, Names) = (vec![], vec![]);
    let mut index: HashMap<String, usize> = HashMap::new();
    let n = rng.range(1, 400);
    let mut known: Names = vec![];
    for i in 0..n {
        let x = match rng.below(4) { 0 if !known.is_empty() => known[rng.below(known.len())].clone(), 1 if !known.is_empty() => { let y = known[rng.below(known.len())].clone(); rng.near(&y) } 2 => rng.attr(), _ => format!("{}{}", rng.word(), i) };
        known.push(x.clone());
        let next = wa.len();
        let w = *index.entry(x.clone()).or_insert_with(|| { wa.push(x.clone()); next });
        eq(&format!("key of class {:?}", x), StringStore::add(&mut a, Cow::Borrowed(&x)).map_err(|e| format!("{:?}", e))?, w as ClassKey)?;
        if rng.p(1, 2) {
            let w = put(&mut wb, &x);
            eq(&format!("key of subset {:?}", x), StringStore::add(&mut b, Cow::Owned(x.clone())).map_err(|e| format!("{:?}", e))?, w as SubsetKey)?;
        }
        let k = rng.below(wa.len());
        let p = StringStore::get(&a, k as ClassKey).map(|s| s.as_ptr());
        eq("name to be changed", StringStore::get_mut(&mut a, k as ClassKey).map(|s| s.as_ptr()), p)?;
        if StringStore::get_mut(&mut a, wa.len() as ClassKey).is_some() { return Err("there is a name beyond the last".into()); }
    }
    vocabulary("classes", Some(&a), &wa, rng)?;
    vocabulary("subsets", Some(&b), &wb, rng)?;
    let (c, d) = (a.clone(), b.clone());
    StringStore::add(&mut a, Cow::Borrowed("\u{1}new")).map_err(|e| format!("{:?}", e))?;
    StringStore::add(&mut b, Cow::Borrowed("\u{1}new")).map_err(|e| format!("{:?}", e))?;
    vocabulary("classes of a copy", Some(&c), &wa, rng)?;
    vocabulary("subsets of a copy", Some(&d), &wb, rng)?;
    ctx.count("names listed", wa.len() + wb.len());
    ctx.eval(Some(crate::rng::hash(&known.join("|"))));
    Ok(())
}

fn case(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> { if rng.p(1, 6) { lists(ctx, rng) } else { direct(ctx, rng) } }

fn f_full(ctx: &mut Ctx) -> Result<(), String> {
    //as many names as there are keys: the next is an error, which changes nothing
    let e = |e: FoliaError| format!("{:?}", e);
    let mut doc = Document::new("doc", DocumentProperties::default()).map_err(e)?;
    let k = doc.declare(AnnotationType::POS, &Some("s".into()), &None, &None).map_err(e)?;
    let d = doc.get_mut_declaration(k).ok_or("gone")?;
    for i in 0..=(SubsetKey::max_value() as usize) { eq("subset key", d.add_subset(Cow::Owned(format!("n{}", i))).map_err(e)? as usize, i)?; }
    for turn in 0..2 {
        if d.add_subset(Cow::Borrowed("one too many")).is_ok() { return Err("more subsets than there are keys".into()); }
        eq("subset that was refused", d.subset_key("one too many"), None)?;
        eq("number of subsets", d.subsets.as_ref().map(|s| s.len()), Some(SubsetKey::max_value() as usize + 1))?;
        for i in [0usize, 1, 255, 256, 257, 32767, 32768, 65534, 65535] {
            let n = format!("n{}", i);
            eq("subset", (d.get_subset(i as SubsetKey), d.subset_key(&n)), (Some(n.as_str()), Some(i as SubsetKey)))?;
            if turn == 0 { eq("subset that is there", d.add_subset(Cow::Borrowed(&n)).map_err(e)? as usize, i)?; }
        }
    }
    ctx.count("subsets", SubsetKey::max_value() as usize + 1);
    //the same with declarations
    let n = doc.declarations().count();
    for i in n..=(DecKey::max_value() as usize) { eq("declaration key", doc.add_declaration(Declaration::new(AnnotationType::LEMMA, Some(format!("n{}", i)), None, None)).map_err(e)? as usize, i)?; }
    if doc.add_declaration(Declaration::new(AnnotationType::LEMMA, Some("one too many".into()), None, None)).is_ok() { return Err("more declarations than there are keys".into()); }
    eq("number of declarations", doc.declarations().count(), DecKey::max_value() as usize + 1)?;
    eq("declaration that was refused", doc.get_declaration_key_by_id(&Declaration::index_id(AnnotationType::LEMMA, &Some("one too many"))), None)?;
    eq("declaration that is there", doc.add_declaration(Declaration::new(AnnotationType::LEMMA, Some("n65535".into()), Some("x".into()), None)).map_err(e)?, 65535)?;
    eq("declaration that is there", doc.get_declaration(65535).map(|d| (d.set.clone(), d.alias.clone())), Some((Some("n65535".to_string()), None)))?;
    eq("subsets of another", doc.get_declaration(k).and_then(|d| d.get_subset(65535)), Some("n65535"))?;
    ctx.count("declarations", DecKey::max_value() as usize + 1);
    //and processors
    for i in 0..=(ProcKey::max_value() as usize) { eq("processor key", doc.add_provenance(Processor::new("x".into()).with_id(format!("p{}", i))).map_err(e)? as usize, i)?; }
    if doc.add_provenance(Processor::new("x".into()).with_id("one too many".into())).is_ok() || doc.add_processor(Processor::new("x".into()).with_id("one too many".into())).is_ok() { return Err("more processors than there are keys".into()); }
    eq("chain", doc.provenancestore.chain.len(), 0)?;
    eq("processor that was refused", doc.get_processor_key_by_id("one too many"), None)?;
    for i in [0usize, 255, 256, 65535] { eq("processor", (doc.get_processor_key_by_id(&format!("p{}", i)), doc.get_processor(i as ProcKey).map(|p| p.id.clone())), (Some(i as ProcKey), Some(format!("p{}", i))))?; }
    eq("processor that is there", doc.add_processor(Processor::new("y".into()).with_id("p65535".into())).map_err(e)?, 65535)?;
    eq("chain", &doc.provenancestore.chain, &vec![65535])?;
    ctx.count("processors", ProcKey::max_value() as usize + 1);
    ctx.eval(Some(1));
    Ok(())
}

pub static PROP: Prop = Prop {
    id: "C29",
    rule: "Random sequences of the calls that register something directly (declarations, classes, subsets, classes of features, processors in the chain and outside it, properties applied to a document that is there, elements that bring something new), with names that are alike or used in several roles. After every call all that is registered is compared with a model of it (maps that only grow), by key, by name, by list, and as the default; and elements still say what they were given. Lists of names by themselves are compared with a map. Distinct by sequence.",
    cases: (20000, 600000), case,
    fixed: &[("no keys left", f_full)],
    ..BASE
};
