//! The checks, one module per property (or a few that belong together).
use crate::run::{Ctx, Prop};
use crate::rng::Rng;
use crate::snap::{self, Snap};
use folia::*;

pub mod c01; pub mod c02; pub mod c03; pub mod c04; pub mod c05; pub mod c06; pub mod hists; pub mod reads; pub mod header; pub mod annot; pub mod values; pub mod large; pub mod lint; pub mod indep; pub mod memory; pub mod access; pub mod build; pub mod registry;

pub const ALL: &[&Prop] = &[&c01::PROP, &c02::PROP, &c03::PROP, &c04::PROP, &c05::PROP, &c06::PROP, &hists::C07, &hists::C08, &reads::C09, &reads::C10, &reads::C11, &hists::C12, &hists::C13, &hists::C14, &header::C15, &reads::C16, &reads::C17, &annot::C18, &hists::C19, &hists::C20, &hists::C21, &values::C22, &large::C23, &lint::PROP, &memory::PROP, &indep::PROP, &access::PROP, &build::PROP, &registry::PROP];

fn nothing(_: &mut Ctx, _: &mut Rng) -> Result<(), String> { Ok(()) }
pub const BASE: Prop = Prop { id: "", rule: "", cases: (0, 0), case: nothing, fixed: &[], stack: 64 << 20, long: 401, assumptions: &[], probes: &[], extra: None, sanitized: false };

pub fn sub(args: &[String]) -> i32 {
    match args.first().map(|s| s.as_str()) { Some("c26") => indep::sub(&args[1..]), Some("c25") => memory::sub(&args[1..]), Some("c25m") => memory::sub_plain(&args[1..]), Some("c25p") => memory::sub_prepare(&args[1..]), Some("c26t") => indep::sub_races(&args[1..]), _ => 2 }
}

pub fn parse(xml: &str) -> Result<Document, String> { crate::api::parse(xml).map_err(|e| format!("does not parse: {:?}", e)) }

pub fn xml(doc: &Document, root: ElementKey, indent: usize) -> Result<String, String> {
    let bytes = doc.xml(root, indent).map_err(|e| format!("does not serialise: {:?}", e))?;
    String::from_utf8(bytes).map_err(|e| format!("serialised as invalid UTF-8: {}", e))
}

///Snapshot in the form in which it can be compared with that of the document read back
pub fn normal(doc: &Document) -> Result<Snap, String> {
    let mut s = snap::doc(doc)?;
    snap::drop_layout(&mut s);
    snap::effective(&mut s);
    Ok(s)
}

pub fn same_after_roundtrip(doc: &Document, indent: usize) -> Result<Snap, String> {
    let a = normal(doc)?;
    let x = xml(doc, 0, indent)?;
    let back = parse(&x).map_err(|e| format!("{} (indent {})\n{}", e, indent, x))?;
    let b = normal(&back)?;
    a.same_content(&b).map_err(|e| format!("not the same after serialising (indent {}) and parsing: {}\nserialised as:\n{}", indent, e, x))?;
    Ok(a)
}

///Wraps a body in a document
pub fn wrap(decls: &str, header: &str, body: &str) -> String {
    format!("<FoLiA xmlns=\"http://ilk.uvt.nl/folia\" xmlns:xlink=\"http://www.w3.org/1999/xlink\" xml:id=\"doc\" version=\"2.1.0\"><metadata><annotations>{}</annotations>{}</metadata><text xml:id=\"doc.text\">{}</text></FoLiA>", decls, header, body)
}

pub fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{}: {:?}, should be {:?}", what, got, want)) }
}
