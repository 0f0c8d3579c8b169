//! From the model to the types of the library.
use crate::model::*;
use folia::*;

pub fn date(v: &str) -> chrono::NaiveDateTime {
    let n = |a: usize, b: usize| v[a..b].parse::<u32>().expect("datetime in model");
    chrono::NaiveDate::from_ymd(n(0, 4) as i32, n(5, 7), n(8, 10)).and_hms(n(11, 13), n(14, 16), n(17, 19))
}
pub fn proctype(v: &str) -> ProcessorType {
    match v { "auto" => ProcessorType::Auto, "manual" => ProcessorType::Manual, "generator" => ProcessorType::Generator, "datasource" => ProcessorType::DataSource, _ => panic!("processor type in model") }
}
pub fn attribute(k: &str, v: &str) -> Attribute {
    let s = v.to_string();
    let yes = v == "yes" || v == "true";
    match k {
        "xml:id" => Attribute::Id(s), "set" => Attribute::Set(s), "class" => Attribute::Class(s), "processor" => Attribute::Processor(s), "subset" => Attribute::Subset(s),
        "annotator" => Attribute::Annotator(s), "annotatortype" => Attribute::AnnotatorType(proctype(v)), "confidence" => Attribute::Confidence(v.parse().expect("confidence in model")),
        "n" => Attribute::N(s), "datetime" => Attribute::DateTime(date(v)), "begintime" => Attribute::BeginTime(s), "endtime" => Attribute::EndTime(s), "src" => Attribute::Src(s),
        "speaker" => Attribute::Speaker(s), "textclass" => Attribute::Textclass(s), "metadata" => Attribute::Metadata(s), "id" => Attribute::Idref(s), "space" => Attribute::Space(yes),
        "t" => Attribute::Text(s), "type" => Attribute::Type(s), "auth" => Attribute::Auth(s), "offset" => Attribute::Offset(v.parse().expect("offset in model")), "ref" => Attribute::Ref(s),
        "original" => Attribute::Original(s), "linenr" => Attribute::LineNr(v.parse().expect("linenr in model")), "pagenr" => Attribute::PageNr(s), "newpage" => Attribute::NewPage(yes),
        "xlink:type" => Attribute::XLinkType(s), "xlink:href" => Attribute::Href(s), "tag" => Attribute::Tag(s), "format" => Attribute::Format(s),
        _ => panic!("attribute in model: {}", k),
    }
}

fn item(i: &Item) -> DataType {
    match i { Item::El(c) => DataType::AddElement(build(c)), Item::Text(t) => if t.len() % 2 == 0 { DataType::text(t) } else { DataType::Text(t.clone()) }, Item::Comment(t) => if t.len() % 2 == 0 { DataType::comment(t) } else { DataType::Comment(t.clone()) } }
}

///The element, with everything in it, to be added; put together in one of several ways
pub fn build(e: &El) -> ElementData {
    let mut d = ElementData::new(e.et);
    let attrs: Vec<Attribute> = e.attrs.iter().map(|(k, v)| attribute(k, v)).collect();
    match crate::rng::hash(&format!("{:?}{}{}", e.et, e.attrs.len(), e.get("class").or(e.get("xml:id")).unwrap_or(""))) % 6 {
        0 => {
            d = d.with_attribs(attrs).with_children(e.items.iter().map(item).collect());
        }
        1 => {
            //a parent that does not count: where it ends up is up to the call that adds it
            let key = (crate::rng::hash(&format!("{:?}", attrs)) % 40) as ElementKey;
            if key % 2 == 0 { d.set_parent_key(Some(key)); } else { d = d.with_parent_key(Some(key)); }
            d.set_attribs(attrs);
            for i in e.items.iter() { d.push(item(i)); }
        }
        2 => {
            //with second thoughts
            for a in attrs.iter().rev() { d.set_attrib(a.clone()); }
            for a in attrs.iter() { let x = d.del_attrib(a.attribtype()); assert!(x.as_ref() == Some(a), "attribute {:?} was set, {:?} was deleted", a, x); assert!(!d.has_attrib(a.attribtype()) && d.attrib(a.attribtype()).is_none() && d.del_attrib(a.attribtype()).is_none()); d.set_attrib(a.clone()); }
            for a in attrs.iter() { assert!(d.attrib(a.attribtype()) == Some(a) && d.has_attrib(a.attribtype())); }
            for (n, i) in e.items.iter().enumerate() {
                d.push(DataType::Comment("never mind".into()));
                assert!(d.len() == n + 1 && d.remove(n) == Some(DataType::Comment("never mind".into())) && d.remove(n).is_none() && d.get_data_at(n).is_none());
                d.push(item(i));
            }
            assert!(d.len() == e.items.len());
        }
        3 => {
            for a in attrs { d = d.with_attrib(a); }
            let refs: Vec<Option<&str>> = e.items.iter().map(|i| if let Item::El(c) = i { if c.et == ElementType::WordReference && c.attrs.len() == 1 && c.items.is_empty() { return c.get("id") } None } else { None }).collect();
            let mut n = 0;
            while n < e.items.len() {
                //a run of plain references to words
                let run: Vec<&str> = refs[n..].iter().take_while(|r| r.is_some()).map(|r| r.unwrap()).collect();
                if !run.is_empty() { n += run.len(); d = d.with_span(&run); continue; }
                d = match &e.items[n] {
                    Item::El(c) if c.et == ElementType::TextContent && c.attrs.is_empty() && c.items.len() == 1 && matches!(c.items[0], Item::Text(_)) => { if let Item::Text(t) = &c.items[0] { d.with_text(t.clone()) } else { d } }
                    Item::El(c) => d.add_element(build(c)),
                    i => d.with(item(i)),
                };
                n += 1;
            }
        }
        _ => {
            for a in attrs { d = d.with_attrib(a); }
            for i in e.items.iter() { d = d.with(item(i)); }
        }
    }
    d
}

///A processor with everything in it, to be added
pub fn processor(p: &ProcM) -> Processor {
    let mut q = Processor::new(p.get("name").unwrap_or("").to_string()).with_id(p.id().to_string());
    for (k, v) in p.fields.iter() {
        let s = v.clone();
        q = match k.as_str() {
            "type" => q.with_type(proctype(v)), "version" => q.with_version(s), "folia_version" => q.with_folia_version(s), "document_version" => q.with_document_version(s), "command" => q.with_command(s),
            "host" => q.with_host(s), "user" => q.with_user(s), "begindatetime" => q.with_begindatetime(date(v)), "enddatetime" => q.with_enddatetime(date(v)), "src" => q.with_src(s), "format" => q.with_format(s), "resourcelink" => q.with_resourcelink(s),
            _ => q,
        }
    }
    for (k, v) in p.meta.iter() { q.metadata.data.insert(k.clone(), v.clone()); }
    for c in p.children.iter() { q = q.with_new_subprocessor(processor(c)); }
    q
}

pub fn parse(xml: &str) -> Result<Document, FoliaError> { Document::from_str(xml, DocumentProperties::default()) }
