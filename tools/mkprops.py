import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
T="The 31 existing tests parse and build a handful of fixed documents; "
p("C01","Serialise-then-parse preserves the document",
 "Serialising a document to XML, at any indentation, and parsing that XML again gives a document with the same content: the same tree of elements in the same order, with the same types, attributes, sets, classes, subsets, processors, text (character for character, including whitespace inside text content and between markup) and comments. This holds equally for documents that were parsed and for documents built through the API. Only whitespace between elements outside text content is insignificant.",
 ["inputs","histories"],"every document that can be parsed or built through the API, every indentation width",
 T+"none parses back what it serialised with mixed content, comments, several sets per annotation type, or non-zero indentation.",
 ["src/serialiser.rs","src/parser.rs"],[("element serialisation","Document::xml_elements"),("element parsing","Document::parse_elements"),("attribute formatting/parsing","Attribute::{parse,to_string}")],
 observe=["Document::xml + Document::from_str, compared through the public read API"])
p("C02","Serialised XML is well-formed and mirrors the tree",
 "The XML produced for a document (or for a single element) is well-formed, namespace-correct XML whose element structure, attribute values, text and comments, as any independent XML parser reads them, are exactly those of the in-memory tree, in document order, with every special character escaped as its context requires. Nothing is emitted twice, reordered or omitted, and indentation never adds or removes characters inside text content. Content that XML cannot represent is refused with an error rather than written as something else.",
 ["inputs","histories"],"every document built through the API or parsed, every text/attribute/comment value made of XML characters, every indentation, every element as serialisation root",
 T+"serialisation is compared against two fixed strings only, never read by an independent parser.",
 ["src/serialiser.rs"],[("document serialisation","Document::xml"),("element serialisation","Document::xml_elements, ReadElement::xml")],
 observe=["bytes returned by Document::xml and ReadElement::xml"])
p("C03","Parsing is faithful to the XML",
 "Parsing a FoLiA document yields exactly the elements of its body, in document order and with the same nesting, each with the element type its tag names and with every attribute it carries readable with the value it has in the XML (character references resolved), and exactly its text and comments. An element that carries a class or processor but no explicit set belongs to the set declared for its annotation type when there is exactly one, and an annotation without explicit processor to the sole processor of its declaration. Annotation attributes that are shorthand for features appear as features.",
 ["inputs"],"every well-formed FoLiA document over all element types, attributes and nestings the format defines",
 T+"they sample a few element types and check a few accessors each.",
 ["src/parser.rs","src/attrib.rs","src/specification.rs","src/types.rs"],[("event loop","Document::parse_elements"),("attribute parsing","Attribute::parse, ElementData::parse_attributes"),("tag table","ElementType::from_str")],
 observe=["elements, attributes, text, comments via the read API after Document::from_str"])
p("C04","Equivalent XML spellings parse to the same document",
 "Two XML documents that differ only in ways XML defines as equivalent parse to documents with identical content: quoting style, order of attributes and whitespace within tags, self-closing versus explicitly closed empty elements, character references versus literal characters, CDATA sections versus escaped text, text split by such constructs, a namespace prefix versus the default namespace, XML declaration, and insignificant whitespace between elements. This applies to the metadata header (declarations, provenance, metadata fields) as much as to the body. Loading from a file gives the same result as loading the same text from memory.",
 ["inputs"],"every document and every combination of equivalent spellings of it",
 T+"each document is given in one spelling only.",
 ["src/parser.rs"],[("start/empty/end handling","Document::parse, Document::parse_elements"),("CDATA/text handling","Document::parse_elements")],
 observe=["parsed documents compared pairwise"])
p("C05","Parsing untrusted input never crashes",
 "Whatever bytes or text are given as input, parsing (from memory or from a file) terminates and returns either a document or an error: it never panics, overflows the stack, loops forever or aborts. Every document it does return can be traversed, queried, have its text extracted and be serialised, again with only values or errors as outcome.",
 ["inputs"],"all byte strings, with emphasis on mutated and hostile FoLiA (malformed attributes, invalid UTF-8, duplicate and cyclic identifiers and references, misplaced elements)",
 T+"none uses malformed input.",
 ["src/parser.rs","src/attrib.rs","src/text.rs","src/select.rs","src/serialiser.rs","src/document.rs"],[("error propagation","Document::parse, Processor::parse, Declaration::parse, Attribute::parse"),("reference following","Element::text_by_key")],
 observe=["process exit, panics, watchdog"])
p("C06","Invalid documents are rejected, never silently truncated",
 "A document that is cut off before its root element is closed, whose tags do not match, whose attributes or text are malformed (an attribute without value, without quotes or given twice, a reference that means nothing), whose root or elements (outside foreign data) are not in the FoLiA namespace, that has elements or text after its body or text before it, that has an element of its header where it does not belong or text in the header outside metadata fields, that uses an element FoLiA does not define or (in its body) an un-namespaced attribute FoLiA does not define, that has an ill-typed attribute value, a repeated xml:id, or a span reference to an element that does not exist, is rejected with an error. It is never accepted as a document that lacks part of its body.",
 ["inputs","fault_sequences"],"every valid document, cut at every position or given any one of these faults at any place",
 T+"no test parses an invalid document.",
 ["src/parser.rs","src/attrib.rs","src/store.rs"],[("end-of-input handling","Document::parse_elements"),("unknown tags and attributes","ElementType::from_str, Attribute::parse"),("duplicate identifiers","Store::add")],
 observe=["Result of Document::from_str / from_file"])
p("C07","The element tree stays a tree under any history",
 "After any sequence of parsing, adding, annotating, attaching (moving) and detaching elements, the document is a forest: every element except roots has exactly one parent, is listed exactly once among that parent's children, and every child listed names that parent as its parent; no element is its own ancestor. Moving an element takes its whole subtree along, removes it from its old place and appends it to the new one, leaving the order of everything else unchanged; an attempt that would create a cycle or refers to a non-existent element is refused.",
 ["histories","inputs"],"every sequence of add/annotate/attach/detach operations on every document",
 T+"they perform one or two attach operations on a fresh document and check only the end of the happy path.",
 ["src/document.rs","src/element.rs","src/store.rs"],[("attach/detach","Document::attach_element, Document::detach_element"),("adding with children","Document::add_element_to, Document::add_children"),("keys","Store::add")],
 state=[("elementstore.items","all elements ever added, by key","src/elementstore.rs"),("ElementData.parent / data","parent link and child list","src/element.rs")],
 observe=["public read API: elements by key, children, parent"])
p("C08","Identifiers are unique and resolve to their element",
 "At any point, looking up an identifier that has been given to an element of the document returns precisely that element with the key it got when it was added, keys are never reused or changed, and looking up any other identifier returns nothing. An element whose identifier is already in use is refused, leaving the existing element untouched. References from one element to another by identifier resolve to that same element.",
 ["histories","inputs"],"every document and every sequence of additions, removals and lookups",
 T+"they look up a few identifiers in fixed documents and never offer a duplicate.",
 ["src/store.rs","src/document.rs","src/parser.rs"],[("id index","Store::add, Store::id_to_key, Store::get_by_id"),("references","ReadElement::resolve")],
 state=[("elementstore.index","identifier to key","src/elementstore.rs")],
 observe=["get_element_by_id, get_element_key_by_id, resolve"])
p("C09","Traversal visits exactly the matching items, in order, once",
 "Selecting from an element visits, in document order (depth first, parents before children), exactly those items below it (and the element itself if asked to be inclusive) that the recursion mode allows to be reached and that the selector accepts; none is skipped, repeated or visited outside that subtree. Each visited item is reported with its correct parent, position and depth. Span annotations are yielded where the first of the words they cover is encountered when span references are followed, and only once in total.",
 ["inputs","histories"],"every document, starting element, selector, recursion mode and inclusiveness",
 T+"they count the results of a few selections in one or two documents.",
 ["src/select.rs"],[("depth-first iterator","SelectIterator::next"),("span de-duplication","SelectIterator::already_returned"),("recursion modes","Recursion::eval")],
 observe=["items yielded by select_data*, select, select_by_key"])
p("C10","Queries match exactly what their criteria say",
 "A query selects an element if and only if the element satisfies every criterion the query states (element type, element group, set, class, subset, processor, annotator, annotator type, confidence), where 'is' means equality with the value as a user reads it from the element, 'some' means present, 'none' means absent (for a set: belonging to a declaration without set) and 'any' imposes nothing; a criterion on set is given together with the element type it is about, and one on class or subset with that set; a criterion naming a set, class, subset or processor unknown to the document matches nothing and is not an error when the query is otherwise complete. Criteria combine as a conjunction and combined selectors as a union. The annotation shortcuts on elements give the same results as the corresponding query.",
 ["inputs"],"every document and every combination of criteria",
 T+"a few single-criterion queries on fixed documents; most criteria are never exercised.",
 ["src/query.rs","src/select.rs","src/element.rs"],[("query encoding","Selector::from_query"),("matching","Selector::matches, Cmp::matches"),("shortcuts","Element::get_annotation(s), get_elements")],
 observe=["elements yielded for a query versus brute-force evaluation through accessors"])
p("C11","Ancestor queries are complete and exact",
 "The ancestors of an element under a selector are exactly the elements on its path to the root that the selector accepts, nearest first. The common ancestors of a group of elements are exactly the accepted elements that are ancestors of every one of them, nearest first, and none when the group shares none. Ancestor shortcuts by type or group agree with this.",
 ["inputs","histories"],"every document, selector and group of elements, whatever the order in which the elements are given",
 T+"one or two ancestor lookups; groups without a common ancestor never occur.",
 ["src/select.rs","src/element.rs"],[("ancestor iterator","AncestorIterator::next"),("intersection","Document::common_ancestors")],
 observe=["ancestors_by_key, ancestors, get_ancestor(s), common_ancestors"])
p("C12","Span annotations land in the right layer and link both ways",
 "A span annotation added for a set of words is placed in a layer of its annotation type and set under the closest structural ancestor common to those words that can hold such a layer, reusing the layer that is already there and creating one otherwise, however many annotations are added and from whichever word or structure they are added. A word yields, for each span annotation that refers to it, exactly one link to that annotation and no other, also when references sit inside span roles, and whether the annotation was added through the API or parsed. A layer without explicit set takes the set of the spans it holds and keeps its other attributes.",
 ["histories","inputs"],"every sequence of span annotations over every document structure, every span type",
 T+"one entity over two words of a single sentence.",
 ["src/document.rs","src/select.rs"],[("layer lookup and creation","Document::annotate, annotate_span, get_layer_key"),("back references","Document::post_add"),("layer set inference","Document::post_add")],
 observe=["tree after annotate; span references reachable from words"])
p("C13","Set, class, subset and processor read back as given",
 "Whatever set, class and processor an annotation is given, and whatever subset and class a feature is given, reading it back at any later time yields those exact strings, for every annotation type and however many other vocabularies, elements or processors exist in the document. Two annotations share a class key exactly when they have the same class within the same declaration, and every key obtained for a string resolves back to that string. Annotations of different types or sets with the same class names never interfere.",
 ["inputs","histories"],"every vocabulary (many sets, classes, subsets, any strings) and every interleaving of additions",
 T+"they use one or two classes in one set.",
 ["src/metadata.rs","src/store.rs","src/document.rs","src/element.rs"],[("vocabulary encoding","encode in Store<ElementData> for Document, Declaration::add_class/add_subset/add_subclass"),("string stores","StringStore::add/get_key/get"),("decoding accessors","ReadElement::{set,class,subset,processor}")],
 observe=["set(), class(), subset(), processor(), class_key, get_class"])
p("C14","Declarations are unique, stable and complete",
 "A document has at most one declaration per annotation type and set: declaring again returns the same declaration and changes nothing but its processors, keys never change, and declaring without a set resolves to the sole declared set of that type when there is exactly one. Every annotation carrying a set, class or processor belongs to a declaration of its own annotation type and set, created if needed. Declarations, with their set, alias, format and annotators, survive serialising and parsing, whether or not anything uses them, and 'default' set queries report a set only when exactly one declaration of that type exists.",
 ["histories","inputs"],"every sequence of declarations, annotations and round trips",
 T+"single declarations only; no test reads declarations back from serialised output.",
 ["src/document.rs","src/metadata.rs","src/parser.rs","src/serialiser.rs"],[("declare","Document::declare"),("defaults","DeclarationStore::get_default_key, default_mask"),("parsing/serialising","Declaration::parse, Document::xml_declarations")],
 observe=["declare, declarations(), get_default_set, output XML"])
p("C15","Metadata, submetadata and provenance survive a round trip",
 "Document metadata (key/value fields, type, external source), each submetadata block, and the full provenance chain (processors and nested subprocessors in order, with every field they carry, their metadata and their dates) that are set through the API or present in a parsed document are readable as given, and are unchanged after serialising and parsing again. Values are arbitrary text. No field of one block or processor ends up in another.",
 ["inputs","histories"],"every metadata and provenance content",
 T+"one document's processors are counted; nothing is parsed back after serialising; dates and submetadata are never exercised.",
 ["src/parser.rs","src/serialiser.rs","src/metadata.rs","src/document.rs"],[("header parsing","Document::parse, Processor::parse"),("header serialising","Document::xml_metadata, xml_provenance, xml_processor"),("provenance chain","Document::add_processor, add_subprocessor, attach_processor")],
 observe=["metadata, submetadata, provenancestore.chain, Processor fields"])
p("C16","Text extraction follows document order, delimiters and spacing",
 "The text of a text-content element is the concatenation of its characters in order, including those inside printable markup. The text of a structural element is the text of its parts in document order joined by each part's delimiter (as the specification defines per element type, suppressed where a token says no space follows, unless tokenisation is to be retained), without a trailing delimiter, and falls back to its own text content when its parts have none; hidden and non-printable elements contribute nothing, and a span's text is that of the words it refers to. Elements without text, and text nested more than a few hundred levels deep, yield a 'no text' error, not an empty string.",
 ["inputs"],"every document structure, spacing attribute, markup nesting and option",
 T+"the text of a handful of elements in a single document.",
 ["src/text.rs","src/specification.rs"],[("recursive extraction","Element::text_by_key"),("delimiters","Element::get_textdelimiter")],
 observe=["text() results versus a reference implementation on the generated model"])
p("C17","Text is taken only from the requested text class",
 "Extracting the text of a structural element or annotation for a given text class uses only text content of that class (text content without explicit class counts as the default class), at every level of the document, whatever other classes are present and in whatever order. Omitted parameters mean the default text set and the default class. A class that is absent from the element yields an error, never the text of another class.",
 ["inputs"],"every distribution of text classes over a document",
 T+"no test has two text classes.",
 ["src/text.rs"],[("class filter","Element::text_by_key"),("defaults","TextParameters, Element::text")],
 observe=["text() results per class"])
p("C18","High-level annotation accepts exactly what the specification allows",
 "Adding an element to a parent through the high-level annotation call succeeds only if the format's specification accepts that element type (itself or through its group) in the parent's type, and is otherwise refused with a validation error; whatever is accepted by the specification is not refused on grounds of type. The accepted element then is the last child of that parent (or, for span annotation invoked on structure or words, of the proper layer). An unknown parent is refused.",
 ["inputs"],"every pair of parent type and element type",
 T+"no test attempts an addition that is not allowed.",
 ["src/document.rs","src/specification.rs","src/types.rs"],[("validation","Document::check_element_addable"),("placement","Document::annotate"),("acceptance table","Properties::new")],
 observe=["Result of annotate/check_element_addable and the resulting tree"])
p("C19","New annotations are attributed to the active processor",
 "While a processor is active, every annotation that is declared or added with a set or class, and without an explicit processor, is attributed to that processor, and its declaration lists that processor; an explicit processor always takes precedence. Switching the active processor affects only what is added afterwards: annotations made earlier, and everything loaded from an existing document, keep the processor they had, also after a round trip; an annotation without processor stays so as far as the format can express it (a declaration with a single processor attributes all its annotations to it).",
 ["histories","inputs"],"every interleaving of switching processors, declaring, annotating and round trips",
 T+"one processor, one declaration.",
 ["src/document.rs","src/metadata.rs","src/serialiser.rs","src/parser.rs"],[("association","Document::declare"),("attribution","encode in Store<ElementData> for Document"),("default elision","Document::xml_elements")],
 observe=["processor(), annotator(), annotatortype(), Declaration.processors"])
p("C20","Failed operations leave the document unchanged",
 "When adding, annotating, attaching, detaching or annotating a span returns an error, the document's content is exactly what it was before the call: no element, layer, link or identifier has been added, moved or lost, and later operations behave as if the failed call had not been made.",
 ["histories","fault_sequences"],"every failing call (unknown keys, disallowed types, duplicate identifiers, dangling references, cycles) at any point of any history",
 T+"no test makes a failing call.",
 ["src/document.rs","src/store.rs"],[("validation before mutation","Document::annotate, add_element_to, attach_element, detach_element")],
 observe=["full snapshot of the element tree before and after each failing call"])
p("C21","Features belong to their annotation and are found by subset",
 "A feature added to or parsed within an annotation is found through that annotation by its subset, with the class it was given, whatever set the annotation uses and however many sets are declared for its type; asking for a subset that the annotation does not have finds nothing and is not an error. Features never leak between annotations, and they survive a round trip, including those given in shorthand as attributes.",
 ["inputs","histories"],"every annotation type that takes features, every number of sets, subsets and classes",
 T+"one feature in a document with one set.",
 ["src/document.rs","src/element.rs","src/parser.rs"],[("feature encoding","encode in Store<ElementData> for Document"),("feature lookup","Element::get_feature(s)"),("shorthand","ElementData::parse_attributes")],
 observe=["get_feature, get_features"])
p("C22","Typed attribute values are exact or rejected",
 "Attributes with a typed value (date-times, confidence, numbers, yes/no flags, annotator types, processor types) accept exactly the values the format defines, hold precisely the value written, and serialise to a text that denotes the same value; any other value is refused with an error rather than altered, defaulted or dropped. All other attributes hold arbitrary text unchanged.",
 ["inputs"],"every typed attribute and every value, in and out of range",
 T+"a few valid values only.",
 ["src/attrib.rs","src/parser.rs"],[("parsing","Attribute::parse, Processor::parse"),("formatting","Attribute::to_string, Attribute::as_str, AttribType")],
 observe=["parsed attribute values and serialised text"])
p("C23","Large documents are handled without exhausting the stack",
 "Parsing, selecting, ancestor lookup, adding, text extraction and serialising work for documents with any number of elements, however many consecutive elements a selection rejects: the stack they need does not grow with the number of elements in the document nor, for parsing, selecting, ancestor lookup and serialising, with the depth of nesting. Results for a large document are those its structure dictates.",
 ["inputs"],"documents up to several hundred thousand elements, wide and deep, with selections that match little or nothing",
 T+"the largest test document has some hundred elements.",
 ["src/select.rs","src/parser.rs","src/serialiser.rs"],[("iteration","SelectIterator::next, SelectElementsIterator::next, AncestorIterator::next"),("streaming parse","Document::parse_elements")],
 observe=["process exit status under a small stack, result counts, operation counts"])
p("C24","The lint tool reports every file independently",
 "For each file named on its command line, in order, the lint tool prints the document as XML on standard output or an error message on standard error; a file that cannot be read or parsed affects neither the other files nor the tool's orderly termination. What it prints for a file is a complete document with the same content as that file.",
 ["inputs","fault_sequences"],"every sequence of valid, invalid, missing and unreadable files",
 T+"the binaries are not tested at all.",
 ["src/bin/folialintr.rs","src/parser.rs","src/serialiser.rs"],[("per-file loop","main")],
 observe=["stdout, stderr and exit status of the real binary"])
p("C25","No memory errors or undefined behaviour",
 "No use of the library or of its tools, on any input, causes undefined behaviour: no out-of-bounds or dangling access, no use of uninitialised memory and no invalid value, also on error paths and in the measuring tool's system calls.",
 ["inputs","histories"],"the workloads of the other properties, run under sanitizers and the undefined-behaviour interpreter",
 T+"they run without instrumentation, so a stray access can go unnoticed.",
 ["src/bin/foliabenchmarkr.rs","src/store.rs","src/select.rs","src/document.rs"],[("safe code; system call wrapper","get_resource_usage")],
 observe=["AddressSanitizer, Miri and valgrind reports"])
p("C26","Documents are independent and results deterministic",
 "The same input and operations always give the same document content and the same results, whatever other documents exist or are processed before, after or at the same time, in the same or in other threads. Nothing done to one document is observable in another, and reading operations never change the document they read.",
 ["schedules","histories","inputs"],"every set of documents processed interleaved or concurrently",
 T+"each test handles one document at a time.",
 ["src/document.rs","src/store.rs","src/elementstore.rs","src/select.rs"],[("all state owned by the document","Document, ElementStore")],
 observe=["content snapshots of documents processed alone, interleaved and in parallel threads"])
p("C27","Whichever way something is reached or asked, the answer is the same",
 "An element, declaration, processor or vocabulary entry is the same object whether it is reached by its key, its identifier, in the list of all of its kind, through its parent or through what refers to it, for reading or for changing; what it says of itself (attributes, keys and names of its set, class, subset and processor, annotator, position among its siblings, counts, emptiness) agrees in all ways of asking, and every key it reports resolves. Keys and names that denote nothing give nothing. An element that has not been added yet says exactly what was given to it. An element that is printed is its text (nothing if it has none), and two elements of a document are equal if they are the same element.",
 ["inputs","histories"],"every element, declaration, processor and vocabulary entry of every document, after any history of operations",
 T+"each accessor is called for a few elements, and never compared with the others.",
 ["src/element.rs","src/store.rs","src/document.rs","src/metadata.rs","src/attrib.rs"],[("accessors","Element, ElementData"),("lookup","Store, StringStore"),("declarations and processors","Declaration, Processor")],
 observe=["all public read accessors, by key, identifier, iteration and mutable access"])
p("C28","What is built step by step is what was asked, in any order of the steps",
 "A query, selector, set of text parameters, set of document properties, processor or element that is put together by a chain of calls has, after every call, exactly what the calls so far gave it: each call sets what it is named after and nothing else, the last call for the same thing counts (or, for what can be repeated, all of them in their order), what was not given has its default, and the order of calls for different things makes no difference. A union of selectors selects for each of its parts. A document or processor made from it has all of it. Comparisons and recursion limits mean the same for all values and element types, however many there are and in whatever order.",
 ["histories","inputs"],"every sequence of building calls",
 T+"each builds a few things in one order, and looks at the outcome of only some calls.",
 ["src/query.rs","src/select.rs","src/text.rs","src/document.rs","src/metadata.rs","src/element.rs"],[("queries and comparisons","Query, Cmp"),("selectors and recursion","Selector, Recursion::eval"),("properties and processors","DocumentProperties, Processor"),("elements","ElementData")],
 observe=["public fields and accessors after every call"])
p("C29","What is registered stays, and is found again by name and by key",
 "Declarations, the classes, subsets and feature classes of a declaration, and processors form exact records that only grow. Registering a name that is there already, by whichever call, gives the key it has and changes nothing about it (alias and format stay those given first); registering a new one gives a new key, the next in order, and changes no other; a name registered in one role or declaration does not exist in another. Every name and key finds what was registered, and nothing else does. A declaration, its set or its processor counts as the default exactly when it is the only one. When no keys are left, registering something new is an error and everything registered stays as it is.",
 ["histories","inputs"],"every sequence of registering calls with any names, mixed with elements that use them, up to the last key there is",
 T+"a handful of names are registered once, and only those are looked up.",
 ["src/store.rs","src/metadata.rs","src/document.rs"],[("stores","Store::add, StringStore::add"),("vocabularies and defaults","Declaration, DeclarationStore"),("registering calls","Document::declare, add_declaration, add_class, add_provenance, add_processor, attach_processor, apply_properties")],
 observe=["keys returned by each call, and all registered names, keys and defaults after each call"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
