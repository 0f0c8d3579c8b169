//! C22: typed attribute values
use super::*;
use crate::model::*;
use crate::xml::XEv;

///What the format says of a value: its meaning, not allowed, or not settled (then it has to mean this, if anything)
#[derive(Debug, Clone, PartialEq)]
enum Judgement { Is(String), No, Perhaps(Option<String>) }
use Judgement::*;

fn datetime(v: &str) -> Judgement {
    let b = v.as_bytes();
    let strict = b.len() == 19 && b.iter().enumerate().all(|(i, c)| match i { 4 | 7 => *c == b'-', 10 => *c == b'T', 13 | 16 => *c == b':', _ => c.is_ascii_digit() });
    let nums: Vec<u64> = v.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.parse().unwrap_or(u64::MAX)).collect();
    let seps: String = v.chars().filter(|c| !c.is_ascii_digit()).collect();
    if nums.len() != 6 { return No; }
    let (y, m, d, h, mi, s) = (nums[0], nums[1], nums[2], nums[3], nums[4], nums[5]);
    let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let days = match m { 2 => if leap { 29 } else { 28 }, 4 | 6 | 9 | 11 => 30, 1..=12 => 31, _ => return No };
    if d < 1 || d > days || h > 23 || mi > 59 || s > 60 { return No; }
    let meaning = format!("{}-{}-{} {}:{}:{}+0", y, m, d, h, mi, s);
    if s == 60 { return if strict { Perhaps(None) } else { Perhaps(None) }; }
    if strict { return Is(meaning); }
    //numbers without padding, or with white space or signs before them: up to the library
    let core: String = seps.chars().filter(|c| !c.is_whitespace() && *c != '+').collect();
    if v.ends_with(|c: char| !c.is_ascii_digit()) { return No; }
    if core == "--T::" { return if seps.contains('+') { Perhaps(None) } else { Perhaps(Some(meaning)) }; }
    if core == "---T::" && v.trim_start().starts_with('-') { return Perhaps(None); }
    No
}
fn confidence(v: &str) -> Judgement {
    let t = v.strip_prefix(|c| c == '+' || c == '-').unwrap_or(v);
    let low = t.to_ascii_lowercase();
    if ["nan", "inf", "infinity"].contains(&low.as_str()) { return Perhaps(None); }
    let (m, e) = match t.find(|c| c == 'e' || c == 'E') { Some(i) => (&t[..i], Some(&t[i + 1..])), None => (t, None) };
    if let Some(e) = e { let e = e.strip_prefix(|c| c == '+' || c == '-').unwrap_or(e); if e.is_empty() || !e.bytes().all(|c| c.is_ascii_digit()) { return No; } }
    let mut parts = m.splitn(2, '.');
    let (a, b) = (parts.next().unwrap_or(""), parts.next().unwrap_or(""));
    if a.is_empty() && b.is_empty() || !(a.to_string() + b).bytes().all(|c| c.is_ascii_digit()) { return No; }
    let f: f64 = match v.parse() { Ok(f) => f, Err(_) => return Perhaps(None) };
    let meaning = snap::bits(f);
    if t.len() == v.len() && f >= 0.0 && f <= 1.0 { Is(meaning) } else { Perhaps(Some(meaning)) }
}
fn number(v: &str) -> Judgement {
    let t = v.strip_prefix('+').unwrap_or(v);
    if t.is_empty() || !t.bytes().all(|c| c.is_ascii_digit()) { return No; }
    let z = t.trim_start_matches('0');
    let z = if z.is_empty() { "0" } else { z };
    if z.len() > 10 || z.parse::<u64>().unwrap() > u32::MAX as u64 { return No; }
    if z == v { Is(z.to_string()) } else { Perhaps(Some(z.to_string())) }
}
fn flag(v: &str) -> Judgement { match v { "yes" | "true" => Is("yes".into()), "no" | "false" => Is("no".into()), _ => No } }
fn ptype(v: &str) -> Judgement { if ["auto", "manual", "generator", "datasource"].contains(&v) { Is(v.into()) } else { No } }

type Kind = (&'static str, bool, fn(&str) -> Judgement);
///(attribute, on a processor, recogniser)
const KINDS: &[Kind] = &[("datetime", false, datetime), ("confidence", false, confidence), ("offset", false, number), ("linenr", false, number), ("space", false, flag), ("newpage", false, flag), ("annotatortype", false, ptype), ("begindatetime", true, datetime), ("enddatetime", true, datetime), ("type", true, ptype)];

///The value as the document holds it, in canonical form
fn held(doc: &Document, k: &str, proc: bool) -> Result<Option<String>, String> {
    if proc {
        let p = doc.get_processor_by_id("p").ok_or("processor is gone")?;
        return Ok(match k { "begindatetime" => p.begindatetime.as_ref().map(snap::dt), "enddatetime" => p.enddatetime.as_ref().map(snap::dt), _ => Some(snap::ptype(p.processortype).to_string()) });
    }
    let e = doc.get_element_by_id("e").ok_or("element is gone")?;
    let all: Vec<String> = e.attribs().iter().filter_map(|a| snap::attr(a)).filter(|a| a.0 == k).map(|a| a.1).collect();
    if all.len() > 1 { return Err(format!("there are {} attributes {}", all.len(), k)); }
    if k == "confidence" {
        let data = <Document as Store<ElementData, ElementKey>>::get(doc, e.key().ok_or("no key")?).ok_or("gone")?;
        if data.confidence().map(snap::bits) != all.first().cloned() { return Err(format!("confidence() gives {:?}", data.confidence())); }
    }
    Ok(all.into_iter().next())
}
///The value as written in XML
fn written(x: &str, k: &str, proc: bool) -> Result<Option<String>, String> {
    for ev in crate::xml::parse(x)? {
        if let XEv::Open { name, attrs, .. } = ev {
            let id = if proc { "p" } else { "e" };
            if (name == "processor") == proc && attrs.iter().any(|a| a.0 == "xml:id" && a.1 == id) {
                let v: Vec<String> = attrs.iter().filter(|a| a.0 == k).map(|a| a.1.clone()).collect();
                if v.len() > 1 { return Err(format!("{} is written twice", k)); }
                return Ok(v.into_iter().next());
            }
        }
    }
    Err("not in the serialised document".into())
}

fn try_value(ctx: &mut Ctx, kind: &Kind, et: ElementType, v: &str, style: Style) -> Result<(), String> {
    let (k, proc, judge) = *kind;
    let j = judge(v);
    let mut m = DocM::new();
    if proc { m.procs.push(ProcM { fields: vec![("xml:id".into(), "p".into()), ("name".into(), "n".into()), (k.into(), v.into())], ..ProcM::default() }); }
    else { m.body.push(El::new(et).with("xml:id", "e").with(k, v)); }
    let x = write(&m, style);
    ctx.input(&x);
    let fail = |s: String| format!("{}={:?}: {}", k, v, s);
    match (crate::api::parse(&x), &j) {
        (Err(_), No) => { ctx.count("values refused", 1); ctx.eval(Some(crate::rng::hash(&format!("{}{}", k, v)))); return Ok(()) }
        (Err(_), Perhaps(_)) => { ctx.count("unsettled values refused", 1); return Ok(()) }
        (Err(e), Is(_)) => return Err(fail(format!("refused: {:?}", e))),
        (Ok(doc), No) => return Err(fail(format!("accepted, as {:?}", held(&doc, k, proc)?))),
        (Ok(doc), j) => {
            let h = held(&doc, k, proc)?.ok_or(fail("dropped".into()))?;
            match j { Is(w) | Perhaps(Some(w)) => if h != *w { return Err(fail(format!("taken as {}, should be {}", h, w))) }, _ => {} }
            let y = xml(&doc, 0, 0)?;
            let t = match written(&y, k, proc)? { Some(t) => t, None if k == "type" && h == "auto" => "auto".into(), None => return Err(fail("not serialised".into())) };
            match judge(&t) { Is(w) | Perhaps(Some(w)) => if h != w { return Err(fail(format!("held as {}, serialised as {:?}", h, t))) }, No => return Err(fail(format!("serialised as {:?}, which is not allowed", t))), _ => {} }
            if let Is(_) = j { if !matches!(judge(&t), Is(_)) { return Err(fail(format!("serialised as {:?}, which is not in the form of the format", t))); } }
            let again = held(&parse(&y).map_err(fail)?, k, proc)?;
            if again.as_ref() != Some(&h) { return Err(fail(format!("held as {}, after a round trip {:?}", h, again))); }
            ctx.count("values accepted", 1);
            ctx.eval(Some(crate::rng::hash(&format!("{}{}", k, v))));
        }
    }
    Ok(())
}

///A value given through the API
fn api_value(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    let kind = rng.pick(KINDS);
    let (k, proc, judge) = *kind;
    let date = |rng: &mut Rng| crate::api::date(&rng.datetime());
    let mut doc = Document::new("d", DocumentProperties::default()).map_err(|e| format!("{:?}", e))?;
    let want;
    if proc {
        let mut p = Processor::new("n".into()).with_id("p".into());
        let t = *rng.pick(&[ProcessorType::Auto, ProcessorType::Manual, ProcessorType::Generator, ProcessorType::DataSource]);
        let d = date(rng);
        match k { "begindatetime" => { p = p.with_begindatetime(d); want = snap::dt(&d) } "enddatetime" => { p = p.with_enddatetime(d); want = snap::dt(&d) } _ => { p = p.with_type(t); want = snap::ptype(t).to_string() } }
        doc.add_processor(p).map_err(|e| format!("{:?}", e))?;
    } else {
        let f = match rng.below(4) { 0 => *rng.pick(&[0.0, 1.0, 0.1, 0.5, f64::MIN_POSITIVE, 5e-324, 1.0 - f64::EPSILON / 2.0, 1.0 / 3.0]), 1 => f64::from_bits(rng.next() % 0x3ff0_0000_0000_0001), _ => (rng.next() >> 11) as f64 / (1u64 << 53) as f64 };
        let n = match rng.below(4) { 0 => *rng.pick(&[0, 1, 9, 10, 255, 256, 65535, 65536, u32::MAX, u32::MAX - 1, 1 << 31]), _ => (rng.next() >> rng.range(32, 63)) as u32 };
        let b = rng.p(1, 2);
        let a = match k { "datetime" => Attribute::DateTime(date(rng)), "confidence" => Attribute::Confidence(f), "offset" => Attribute::Offset(n), "linenr" => Attribute::LineNr(n), "space" => Attribute::Space(b), "newpage" => Attribute::NewPage(b),
            _ => Attribute::AnnotatorType(*rng.pick(&[ProcessorType::Auto, ProcessorType::Manual, ProcessorType::Generator, ProcessorType::DataSource])) };
        want = snap::attr(&a).unwrap().1;
        let text = format!("{}", a);
        if judge(&text) != Is(want.clone()) { return Err(format!("{:?} is displayed as {:?}", a, text)); }
        let et = rng.pick(crate::spec::SPEC).et;
        let et = if matches!(et, ElementType::WordReference | ElementType::Feature | ElementType::ForeignData) { ElementType::Word } else { et };
        let mut e = ElementData::new(et).with_attrib(Attribute::Id("e".into()));
        //the last value counts
        if rng.p(1, 3) { e.set_attrib(match &a { Attribute::Offset(n) => Attribute::Offset(n ^ 1), Attribute::LineNr(n) => Attribute::LineNr(n ^ 1), Attribute::Space(b) => Attribute::Space(!b), Attribute::NewPage(b) => Attribute::NewPage(!b), Attribute::Confidence(_) => Attribute::Confidence(0.25), a => a.clone() }); }
        e.set_attrib(a.clone());
        if e.attrib(a.attribtype()) != Some(&a) || !e.has_attrib(a.attribtype()) { return Err(format!("{:?} is not found on the element", a)); }
        ctx.input(&format!("<{}> {:?}", crate::spec::tag(et), a));
        doc.add_element_to(0, e).map_err(|e| format!("{:?}", e))?;
    }
    let fail = |s: String| format!("{} {}: {}", k, want, s);
    eq(k, held(&doc, k, proc)?, Some(want.clone()))?;
    let y = xml(&doc, 0, rng.below(3))?;
    match written(&y, k, proc)? { Some(t) => if judge(&t) != Is(want.clone()) { return Err(fail(format!("serialised as {:?}", t))) }, None => if !(k == "type" && want == "auto") { return Err(fail("not serialised".into())) } }
    eq(&format!("{} after a round trip", k), held(&parse(&y)?, k, proc)?, Some(want.clone()))?;
    ctx.count("values given through the API", 1);
    ctx.eval(Some(crate::rng::hash(&format!("api{}{}", k, want))));
    Ok(())
}

const STRINGS: &[&str] = &["xml:id", "set", "class", "annotator", "n", "begintime", "endtime", "src", "speaker", "textclass", "metadata", "id", "t", "type", "auth", "ref", "original", "pagenr", "xlink:type", "xlink:href", "tag", "format"];

///Attributes that hold any text
fn text_value(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    let et = loop { let s = rng.pick(crate::spec::SPEC); if !matches!(s.et, ElementType::WordReference | ElementType::Feature | ElementType::ForeignData) { break s.et } };
    let encoded = crate::spec::spec(et).at.is_some();
    let value = |rng: &mut Rng| match rng.below(12) { 0 => { let n = rng.range(1000, 20000); let t = rng.text(); t.repeat(1 + n / t.len()) }, 1 => " x ".into(), 2 => "yes".into(), 3 => "1.50".into(), 4 => "2001-01-01".into(), 5 => rng.text(), _ => { let t = rng.text(); if t.is_empty() { "x".into() } else { t } } };
    let mut e = El::new(et).with("xml:id", "e");
    for _ in 0..rng.range(1, 8) {
        let k = *rng.pick(STRINGS);
        if k == "xml:id" || (k == "set" || k == "class") && !encoded { continue; }
        //attributes that are shorthand for features are that
        if crate::gen::shorthands(et).contains(&k) { continue; }
        let v = value(rng);
        e.set(k, &v);
    }
    let mut m = DocM::new();
    m.body.push(e.clone());
    let x = plain(&m);
    ctx.input(&x);
    let parsed = parse(&x)?;
    let mut built = Document::new("doc", DocumentProperties::default()).map_err(|e| format!("{:?}", e))?;
    built.add_element_to(0, crate::api::build(&e)).map_err(|e| format!("{:?}", e))?;
    let i = rng.below(4);
    let docs = vec![parse(&xml(&parsed, 0, i)?)?, parse(&xml(&built, 0, i)?)?, parsed, built];
    for (n, doc) in docs.iter().enumerate() {
        let el = doc.get_element_by_id("e").ok_or("element is gone")?;
        for (k, v) in e.attrs.iter() {
            let got = match k.as_str() { "set" => el.set().map(|s| s.to_string()), "class" => el.class().map(|s| s.to_string()), _ => el.attribs().iter().filter_map(|a| snap::attr(a)).find(|a| a.0 == *k).map(|a| a.1) };
            if got.as_ref() != Some(v) { return Err(format!("{}={:?} is {:?} ({})", k, v, got, ["parsed, round trip", "built, round trip", "parsed", "built"][n])); }
            ctx.count("text values compared", 1);
        }
        let others = el.attribs().iter().filter_map(|a| snap::attr(a)).filter(|a| e.get(&a.0).is_none()).collect::<Vec<_>>();
        if !others.is_empty() { return Err(format!("attributes nobody gave: {:?}", others)); }
    }
    ctx.eval(Some(crate::rng::hash(&x)));
    Ok(())
}

fn valid(rng: &mut Rng, k: &str) -> String {
    match k {
        "datetime" | "begindatetime" | "enddatetime" => rng.datetime(),
        "confidence" => rng.confidence(),
        "offset" | "linenr" => match rng.below(3) { 0 => rng.pick(&["0", "4294967295", "4294967296", "65536", "10", "99999999999999999999"]).to_string(), _ => format!("{}", rng.next() >> rng.range(31, 63)) },
        "space" | "newpage" => rng.pick(&["yes", "no", "true", "false"]).to_string(),
        _ => rng.pick(&["auto", "manual", "generator", "datasource"]).to_string(),
    }
}
fn near(rng: &mut Rng, v: &str) -> String {
    let mut c: Vec<char> = v.chars().collect();
    for _ in 0..rng.range(1, 2) {
        let i = rng.below(c.len() + 1);
        let x = *rng.pick(&['0', '1', '2', '5', '9', '-', '+', '.', ':', 'T', 'Z', 'e', ' ', 'x', ',', 'E', '٣', '\t', '\n', '/', '_', '\u{a0}']);
        match rng.below(5) {
            0 => c.insert(i, x),
            1 => if i < c.len() { c[i] = x },
            2 => if i < c.len() { c.remove(i); },
            3 => if i < c.len() { c[i] = if c[i].is_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() } },
            _ => if i < c.len() && c[i].is_ascii_digit() { c[i] = char::from(b'0' + rng.below(10) as u8) },
        }
    }
    c.into_iter().collect()
}

fn case(ctx: &mut Ctx, rng: &mut Rng) -> Result<(), String> {
    match rng.below(4) {
        0 => api_value(ctx, rng),
        1 => text_value(ctx, rng),
        _ => {
            let kind = rng.pick(KINDS);
            let v = valid(rng, kind.0);
            let v = match rng.below(6) { 0 | 1 => v, 2 => rng.attr(), 3 => { let w = near(rng, &v); near(rng, &w) } _ => near(rng, &v) };
            let et = *rng.pick(&[ElementType::Word, ElementType::Sentence, ElementType::Linebreak, ElementType::TextContent, ElementType::PosAnnotation, ElementType::Entity, ElementType::Paragraph, ElementType::Correction]);
            let st = if rng.p(1, 2) { let mut s = Style::plain(); s.rng = Some(Rng(rng.next(), 0)); s.charrefs = true; s.quotes = true; s } else { Style::plain() };
            if rng.p(1, 200) { ctx.sample(|| format!("{}={:?}", kind.0, v)); }
            try_value(ctx, kind, et, &v, st)
        }
    }
}

const LIST: &[&str] = &["", " ", "0", "1", "-1", "+1", "00", "007", "1.0", "1.", ".5", ".", "0.5", "-0", "-0.0", "1e0", "1e-5", "1E-5", "1e", "e5", "1e400", "1e-400", "0x1", "1f", "1_000", "1,5", "50%", "NaN", "nan", "inf", "-inf", "Infinity", "1.0000000000000001", "0.1", "0.30000000000000004", "2.2250738585072011e-308", "4.9e-324", "0.99999999999999999999", "4294967295", "4294967296", "18446744073709551616", "99999999999999999999999999", "2147483648", " 1", "1 ", "1\n", "\t1", "١", "１",
    "yes", "no", "true", "false", "Yes", "NO", "TRUE", "False", "y", "n", "on", "off", "yes ", " no", "yesno", "auto", "manual", "generator", "datasource", "Auto", "MANUAL", "automatic", "man", "auto ", "unknown", "none",
    "2000-01-01T00:00:00", "2000-02-29T23:59:59", "1900-02-29T00:00:00", "2001-02-29T00:00:00", "2000-04-31T00:00:00", "2000-12-31T23:59:60", "2000-12-31T24:00:00", "2000-00-01T00:00:00", "2000-01-00T00:00:00", "2000-01-32T00:00:00", "2000-13-01T00:00:00", "2000-01-01T00:60:00", "2000-01-01T00:00:61", "2000-01-01 00:00:00", "2000-01-01t00:00:00", "2000-01-01T00:00:00Z", "2000-01-01T00:00:00+01:00", "2000-01-01T00:00:00.5", "2000-01-01T00:00", "2000-01-01", "T00:00:00", "2000/01/01T00:00:00", "01-01-2000T00:00:00", "20000101T000000", "2000-1-1T0:0:0", "0000-01-01T00:00:00", "0001-01-01T00:00:00", "9999-12-31T23:59:59", "12000-01-01T00:00:00", "-0001-01-01T00:00:00", "200-01-01T00:00:00", "2000-01-01T00:00:00 ", " 2000-01-01T00:00:00", "now", "2000-W01-1T00:00:00", "2000-366T00:00:00"];
fn f_list(ctx: &mut Ctx) -> Result<(), String> {
    for kind in KINDS { for v in LIST { for et in [ElementType::Word, ElementType::Linebreak, ElementType::LemmaAnnotation] { try_value(ctx, kind, et, v, Style::plain())?; if kind.1 { break; } } } }
    Ok(())
}
///Each day of some years, each minute of a day, each second of an hour
fn f_calendar(ctx: &mut Ctx) -> Result<(), String> {
    for y in [1896, 1900, 1999, 2000, 2004, 2100] {
        for m in 1..=12 { for d in 1..=31 { for kind in [&KINDS[0], &KINDS[7], &KINDS[8]] { if d > 27 || d % 9 == 1 { try_value(ctx, kind, ElementType::Word, &format!("{:04}-{:02}-{:02}T12:34:56", y, m, d), Style::plain())?; } } } }
    }
    for h in 0..=24 { for mi in [0, 1, 9, 10, 29, 30, 58, 59, 60] { for s in [0, 1, 9, 10, 31, 58, 59] { try_value(ctx, &KINDS[(h + mi + s) % 2 * 7], ElementType::Sentence, &format!("2011-11-11T{:02}:{:02}:{:02}", h, mi, s), Style::plain())?; } } }
    Ok(())
}
///All attributes of types at once, on all types of elements
fn f_everywhere(ctx: &mut Ctx) -> Result<(), String> {
    for s in crate::spec::SPEC {
        if matches!(s.et, ElementType::WordReference | ElementType::Feature | ElementType::ForeignData) { continue; }
        for k in KINDS.iter().filter(|k| !k.1) {
            let (good, bad) = match k.0 { "datetime" => ("1999-12-31T23:59:58", "1999-12-31"), "confidence" => ("0.123456789012345678", "high"), "offset" | "linenr" => ("123456789", "-3"), "space" | "newpage" => ("no", "maybe"), _ => ("generator", "human") };
            if crate::gen::shorthands(s.et).contains(&k.0) { continue; }
            try_value(ctx, k, s.et, good, Style::plain())?;
            try_value(ctx, k, s.et, bad, Style::plain())?;
        }
    }
    Ok(())
}

pub static C22: Prop = Prop {
    id: "C22",
    rule: "Values of all typed attributes (systematic lists, the calendar, boundaries, valid ones with characters inserted, changed or removed, arbitrary text), on elements and processors and in random spelling, are judged by independent recognisers: accepted ones have to be held with exactly the meaning of the text, be serialised as a text that means the same, and mean the same after parsing; all others have to be refused. Typed values given through the API have to be held, displayed, serialised and read back as the same value. All other attributes hold arbitrary text (up to 20000 characters). Non-trivial: all; distinct by attribute and value.",
    cases: (150000, 4000000), case,
    fixed: &[("values", f_list), ("calendar", f_calendar), ("all types of elements", f_everywhere)],
    assumptions: &["Not settled by the format, so either refused or taken for what they say: numbers without or with extra padding, with a plus sign, or with white space before them; leap seconds; confidence outside 0..1 or not a number.", "Times have a resolution of a second."],
    ..BASE
};
