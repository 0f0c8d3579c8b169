From f9ba270ffb5f3f26c42de0570791ec1236e7ca89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:13 +0000
Subject: [PATCH 01/68] fix: parse the seconds of processor begin/end
 date-times

The format string had $S instead of %S, so no document with a dated
processor (as written by this library itself) could be parsed.
---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ee16ac6..2c57d92 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -487,13 +487,13 @@ impl Processor {
                     b"host" => { processor.host = value; },
                     b"user" => { processor.user = value; },
                     b"begindatetime" => {
-                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:$S") {
+                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:%S") {
                             Ok(dt) => processor.begindatetime = Some(dt),
                             Err(e) => return Err(FoliaError::ParseError(format!("Unable to parse begindatetime {} -> {}",value, e)))
                         };
                     },
                     b"enddatetime" => {
-                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:$S") {
+                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:%S") {
                             Ok(dt) => processor.enddatetime = Some(dt),
                             Err(e) => return Err(FoliaError::ParseError(format!("Unable to parse enddatetime {} -> {}",value, e)))
                         };
-- 
2.43.0


From f61cea404b5b9e8570faaaf61aa96e3630b29f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:36 +0000
Subject: [PATCH 02/68] fix: accept empty-element tags in the header
 (declarations, body, metadata)

---
 src/parser.rs | 70 ++++++++++++++++++++++-----------------------------
 1 file changed, 30 insertions(+), 40 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2c57d92..b3f01a1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -32,6 +32,9 @@ impl Document {
         let mut buf = Vec::new();
         let mut nsbuf = Vec::new();
 
+        //an empty-element tag (<tag/>) in the header is equivalent to a start tag and an end tag
+        reader.expand_empty_elements(true);
+
         let mut doc = Self {
                             id: "untitled".to_string(),
                             filename: None,
@@ -95,46 +98,6 @@ impl Document {
         loop {
             let e = reader.read_namespaced_event(&mut buf, &mut nsbuf)?;
             match e {
-                (ref ns, Event::Empty(ref e)) => {
-                    match (*ns, e.local_name())  {
-                        (Some(ns), b"processor") if ns == NSFOLIA && parseprovenance => {
-                            let processor = Processor::parse(&reader, &e)
-                                                      .map_err(FoliaError::add_parseerror("Error parsing processor"))?;
-                            if processor_stack.is_empty() {
-                                doc.add_processor(processor).map_err(FoliaError::add_parseerror("Error adding processor"))?;
-                            } else {
-                                let parent_key = processor_stack.last().expect("Polling processor stack");
-                                doc.add_subprocessor(*parent_key, processor).map_err(FoliaError::add_parseerror("Error adding subprocessor"))?;
-                            }
-                        },
-                        (Some(ns), b"annotator") if ns == NSFOLIA && parsedeclarations => {
-                            let mut processor_id: Option<String> = None;
-                            for attrib in e.attributes() {
-                                let attrib = attrib.expect("unwrapping annotator attribute");
-                                if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
-                                    match attrib.key {
-                                        b"processor" => {
-                                            processor_id = Some(value.clone());
-                                        },
-                                        otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute annotator/@{:?}",str::from_utf8(otherwise).unwrap());
-                                        }
-                                    }
-                                }
-                            }
-                            if let Some(processor_id) = processor_id {
-                                if let Some(declaration_key) = declaration_key {
-                                    //add to a temporary structure because we don't know about the
-                                    //processors yet at this stage, provenance still has to be
-                                    //parsed, after that we resolve everything from this structure.
-                                    annotators.push((declaration_key, processor_id));
-                                }
-                            }
-                        },
-                        _ => {
-                        }
-                    }
-                },
                 (ref ns, Event::Start(ref e)) => {
                     match (*ns, e.local_name())  {
                         (Some(ns), b"metadata") if ns == NSFOLIA => {
@@ -209,6 +172,30 @@ impl Document {
                                 processor_stack.push(processor_key);
                             }
                         },
+                        (Some(ns), b"annotator") if ns == NSFOLIA && parsedeclarations => {
+                            let mut processor_id: Option<String> = None;
+                            for attrib in e.attributes() {
+                                let attrib = attrib.expect("unwrapping annotator attribute");
+                                if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
+                                    match attrib.key {
+                                        b"processor" => {
+                                            processor_id = Some(value.clone());
+                                        },
+                                        otherwise => {
+                                            eprintln!("WARNING: Unhandled attribute annotator/@{:?}",str::from_utf8(otherwise).unwrap());
+                                        }
+                                    }
+                                }
+                            }
+                            if let Some(processor_id) = processor_id {
+                                if let Some(declaration_key) = declaration_key {
+                                    //add to a temporary structure because we don't know about the
+                                    //processors yet at this stage, provenance still has to be
+                                    //parsed, after that we resolve everything from this structure.
+                                    annotators.push((declaration_key, processor_id));
+                                }
+                            }
+                        },
                         (Some(ns), tag) if ns == NSFOLIA && parsedeclarations => {
                             let declaration = Declaration::parse(&reader, e, tag).map_err(FoliaError::add_parseerror("Error parsing declaration"))?;
                             let result = doc.add_declaration(declaration).map_err(FoliaError::add_parseerror("Error adding declaration"))?;
@@ -327,6 +314,9 @@ impl Document {
         };
 
 
+        //elements in the body distinguish empty-element tags again
+        reader.expand_empty_elements(false);
+
         if let Some(body) = body {
             doc.add(body,None).map_err(FoliaError::add_parseerror("Error adding body"))?;
             doc.apply_properties(properties).map_err(FoliaError::add_parseerror("Error applying properties"))?;
-- 
2.43.0


From 9c24ee7d1646f53b3b343496c60ac33d8eb08c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:07 +0000
Subject: [PATCH 03/68] fix: take the value of a meta field from its own
 content only

---
 src/parser.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index b3f01a1..eaeb336 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -146,6 +146,7 @@ impl Document {
                             }
                         },
                         (Some(ns), b"meta") if ns == NSFOLIA => {
+                            meta_id = None;
                             for attrib in e.attributes() {
                                 let attrib = attrib.expect("unwrapping meta attribute");
                                 if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
@@ -159,7 +160,7 @@ impl Document {
                                     }
                                 }
                             }
-                            text = None;
+                            text = Some(String::new()); //collects all text until the end tag
                         },
                         (Some(ns), b"processor") if ns == NSFOLIA && parseprovenance => {
                             let processor = Processor::parse(&reader, &e).map_err(FoliaError::add_parseerror("Error parsing processor"))?;
@@ -216,8 +217,14 @@ impl Document {
                     }
                 },
                 (None, Event::Text(s)) => {
-                    let text_s = s.unescape_and_decode(reader)?;
-                    text = Some(text_s);
+                    if let Some(text) = text.as_mut() {
+                        text.push_str(&s.unescape_and_decode(reader)?);
+                    }
+                },
+                (None, Event::CData(s)) => {
+                    if let Some(text) = text.as_mut() {
+                        text.push_str(&reader.decode(&s)?);
+                    }
                 },
                 (ref ns, Event::End(ref e)) => {
                     match (*ns, e.local_name())  {
@@ -247,7 +254,7 @@ impl Document {
                             processor_stack.pop();
                         },
                         (Some(ns), b"meta") if ns == NSFOLIA => {
-                            if let (Some(text), Some(meta_id)) = (&text, &meta_id) {
+                            if let (Some(text), Some(meta_id)) = (text.take(), &meta_id) {
                                 if let Some(submetadata_id) = &submetadata {
                                     let submetadata_opt: Option<&mut Metadata> = doc.submetadata.get_mut(submetadata_id);
                                     if let Some(submetadata) = submetadata_opt {
-- 
2.43.0


From 5124029f9c87ac07f173a43c956ae4b6892035f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:36 +0000
Subject: [PATCH 04/68] fix: keep the metadata of a processor with the
 processor

---
 src/parser.rs     | 7 ++++++-
 src/serialiser.rs | 9 ++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index eaeb336..bc8e086 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -255,7 +255,12 @@ impl Document {
                         },
                         (Some(ns), b"meta") if ns == NSFOLIA => {
                             if let (Some(text), Some(meta_id)) = (text.take(), &meta_id) {
-                                if let Some(submetadata_id) = &submetadata {
+                                if let Some(processor_key) = processor_stack.last() {
+                                    //metadata on a processor
+                                    if let Some(processor) = doc.get_mut_processor(*processor_key) {
+                                        processor.metadata.data.insert(meta_id.clone(), text.clone());
+                                    }
+                                } else if let Some(submetadata_id) = &submetadata {
                                     let submetadata_opt: Option<&mut Metadata> = doc.submetadata.get_mut(submetadata_id);
                                     if let Some(submetadata) = submetadata_opt {
                                         if submetadata.metadatatype.is_none() && submetadata_type.is_some() {
diff --git a/src/serialiser.rs b/src/serialiser.rs
index 128c497..1dde3b8 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -188,10 +188,17 @@ impl Document {
             if !processor.resourcelink.is_empty() {
                 processor_start.push_attribute(("resourcelink", processor.resourcelink.as_str() ));
             }
-            if processor.processors.is_empty() {
+            if processor.processors.is_empty() && processor.metadata.data.is_empty() {
                 writer.write_event(Event::Empty(processor_start)).map_err(to_serialisation_error)?;
             } else {
                 writer.write_event(Event::Start(processor_start)).map_err(to_serialisation_error)?;
+                for (meta_id, value) in processor.metadata.data.iter() {
+                    let mut meta_start = BytesStart::borrowed_name(b"meta");
+                    meta_start.push_attribute(("id", meta_id.as_str() ));
+                    writer.write_event(Event::Start(meta_start)).map_err(to_serialisation_error)?;
+                    writer.write_event(Event::Text(BytesText::from_plain_str(value))).map_err(to_serialisation_error)?;
+                    writer.write_event(Event::End(BytesEnd::borrowed(b"meta"))).map_err(to_serialisation_error)?;
+                }
                 for subprocessor_key in processor.processors.iter() {
                     self.xml_processor(writer, *subprocessor_key)?;
                 }
-- 
2.43.0


From 205a40ad2933f3b2925a5a9a7835f550ed69beb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:38 +0000
Subject: [PATCH 05/68] fix: read and write submetadata

---
 src/parser.rs     | 9 ++++++++-
 src/serialiser.rs | 6 +++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index bc8e086..7f1f8c1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -125,6 +125,8 @@ impl Document {
                             parseprovenance = true;
                         },
                         (Some(ns), b"submetadata") if ns == NSFOLIA => {
+                            let mut submetadata_src: Option<String> = None;
+                            submetadata_type = None;
                             for attrib in e.attributes() {
                                 let attrib = attrib.expect("unwrapping submetadata attribute");
                                 if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
@@ -135,13 +137,18 @@ impl Document {
                                         b"type" => {
                                             submetadata_type = Some(value.clone());
                                         },
+                                        b"src" => {
+                                            submetadata_src = Some(value.clone());
+                                        },
                                         otherwise => {
                                             eprintln!("WARNING: Unhandled attribute submetadata/@{:?}",str::from_utf8(otherwise).unwrap());
                                         }
                                     }
                                 }
                             }
-                            if submetadata.is_none() {
+                            if let Some(submetadata_id) = &submetadata {
+                                doc.submetadata.insert(submetadata_id.clone(), Metadata { data: HashMap::default(), src: submetadata_src, metadatatype: submetadata_type.clone() });
+                            } else {
                                 return Err(FoliaError::ParseError("Submetadata has no ID".to_string()));
                             }
                         },
diff --git a/src/serialiser.rs b/src/serialiser.rs
index 1dde3b8..3806194 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -81,9 +81,11 @@ impl Document {
             if let Some(metadatatype) = &submetadata.metadatatype {
                 submetadata_start.push_attribute(("type", metadatatype.as_str() ));
             }
-            if let Some(src) = &self.metadata.src {
+            if let Some(src) = &submetadata.src {
                 submetadata_start.push_attribute(("src", src.as_str() ));
             }
+            writer.write_event(Event::Start(submetadata_start)).map_err(to_serialisation_error)?;
+            writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
             for (meta_id, value) in submetadata.data.iter() {
                 let mut meta_start = BytesStart::borrowed_name(b"meta");
                 meta_start.push_attribute(("id", meta_id.as_str() ));
@@ -92,6 +94,8 @@ impl Document {
                 writer.write_event(Event::End(BytesEnd::borrowed(b"meta"))).map_err(to_serialisation_error)?;
                 writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
             }
+            writer.write_event(Event::End(BytesEnd::borrowed(b"submetadata"))).map_err(to_serialisation_error)?;
+            writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
         }
         writer.write_event(Event::End(BytesEnd::borrowed(b"metadata"))).map_err(to_serialisation_error)?;
         writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
-- 
2.43.0


From f50bcc102b798b24f5ef06ceb7da2b67877f376c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:56 +0000
Subject: [PATCH 06/68] fix: do not escape comments on serialisation

---
 src/serialiser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serialiser.rs b/src/serialiser.rs
index 3806194..c5124bb 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -300,7 +300,11 @@ impl Document {
                 },
                 DataType::Comment(comment) => {
                     //eprintln!("[DEBUG] (processing comment)");
-                    let text = BytesText::from_plain_str(comment.as_str());
+                    //comments are written as is, there is no escaping inside XML comments
+                    if comment.contains("--") || comment.ends_with('-') {
+                        return Err(FoliaError::SerialisationError(format!("Comment can not be represented in XML: {}", comment)));
+                    }
+                    let text = BytesText::from_escaped_str(comment.as_str());
                     writer.write_event(Event::Comment(text)).map_err(to_serialisation_error)?;
                 }
                 DataType::SpanReference(_) | DataType::AddElement(_) => {
-- 
2.43.0


From 3047fb85cf14bd9cd0adde9e9995fae2630ba25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:58 +0000
Subject: [PATCH 07/68] fix: keep the attributes of a layer when its set is
 inferred

---
 src/document.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/document.rs b/src/document.rs
index 066c882..e6efe0e 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -366,7 +366,9 @@ impl Document {
         }
         if let Some(add_attributes) = add_attributes {
             if let Some(element) = self.get_mut_elementdata(element_key) {
-                element.set_attribs(add_attributes);
+                for attrib in add_attributes {
+                    element.set_attrib(attrib);
+                }
             }
         }
         Ok(())
-- 
2.43.0


From 53e1cd5b5c08f8010a8e56b06910b13498b38540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:59 +0000
Subject: [PATCH 08/68] fix: infinite recursion in Display for AttribType

---
 src/attrib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/attrib.rs b/src/attrib.rs
index 1b8508d..f4f32cd 100644
--- a/src/attrib.rs
+++ b/src/attrib.rs
@@ -64,7 +64,8 @@ impl Into<&str> for AttribType {
 
 impl fmt::Display for AttribType {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(f, "{}", self)
+        let name: &str = (*self).into();
+        write!(f, "{}", name)
     }
 }
 
-- 
2.43.0


From 0dc2ae412984972c47e93ca0fb471c43579fd74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:17 +0000
Subject: [PATCH 09/68] fix: support the tag attribute

---
 src/attrib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/attrib.rs b/src/attrib.rs
index f4f32cd..149ba4c 100644
--- a/src/attrib.rs
+++ b/src/attrib.rs
@@ -101,6 +101,7 @@ pub enum Attribute {
     PageNr(String), //used by linebreak
     NewPage(bool), //used by linebreak
     XLinkType(String),
+    Tag(String),
 
     Processor(String),
     ProcessorRef(ProcKey), //encoded form
@@ -149,7 +150,7 @@ impl Attribute {
             Attribute::Id(s) | Attribute::Set(s) | Attribute::Class(s) | Attribute::Annotator(s) |
             Attribute::N(s) | Attribute::BeginTime(s) | Attribute::EndTime(s) |
             Attribute::Src(s) | Attribute::Speaker(s) | Attribute::Textclass(s) | Attribute::Metadata(s) | Attribute::Idref(s) |
-            Attribute::Processor(s) | Attribute::Href(s) | Attribute::Format(s) | Attribute::Subset(s) | Attribute::Text(s)| Attribute::Type(s) | Attribute::Ref(s) | Attribute::Original(s) | Attribute::Auth(s) | Attribute::XLinkType(s) | Attribute::PageNr(s)
+            Attribute::Processor(s) | Attribute::Href(s) | Attribute::Format(s) | Attribute::Subset(s) | Attribute::Text(s)| Attribute::Type(s) | Attribute::Ref(s) | Attribute::Original(s) | Attribute::Auth(s) | Attribute::XLinkType(s) | Attribute::PageNr(s) | Attribute::Tag(s)
                 => Ok(&s),
             Attribute::AnnotatorType(t) => Ok(t.as_str()),
             Attribute::Space(b) => { if *b { Ok("yes") } else { Ok("no") } },
@@ -226,7 +227,8 @@ impl Attribute {
             Attribute::Original(_) => AttribType::ORIGINAL,
             Attribute::LineNr(_) => AttribType::LINENR,
             Attribute::PageNr(_) => AttribType::PAGENR,
-            Attribute::NewPage(_) => AttribType::NEWPAGE
+            Attribute::NewPage(_) => AttribType::NEWPAGE,
+            Attribute::Tag(_) => AttribType::TAG
         }
     }
 
@@ -322,6 +324,9 @@ impl Attribute {
                 b"auth" => {
                     Ok(Attribute::Auth(value))
                 },
+                b"tag" => {
+                    Ok(Attribute::Tag(value))
+                },
                 b"original" => {
                     Ok(Attribute::Original(value))
                 },
-- 
2.43.0


From 5839de28f73b09cf49d07155701a5560ad6bc46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:18 +0000
Subject: [PATCH 10/68] fix: reject documents that end prematurely

---
 src/parser.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 7f1f8c1..64683a5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -340,6 +340,19 @@ impl Document {
             doc.add(body,None).map_err(FoliaError::add_parseerror("Error adding body"))?;
             doc.apply_properties(properties).map_err(FoliaError::add_parseerror("Error applying properties"))?;
             doc.parse_elements(reader, &mut buf, &mut nsbuf)?;
+
+            //the root element must be closed as well
+            loop {
+                match reader.read_namespaced_event(&mut buf, &mut nsbuf)? {
+                    (Some(ns), Event::End(ref e)) if ns == NSFOLIA && e.local_name() == b"FoLiA" => {
+                        break;
+                    },
+                    (_, Event::Eof) => {
+                        return Err(FoliaError::ParseError("Premature end of document".to_string()));
+                    },
+                    (_,_) => {}
+                }
+            }
             Ok(doc)
         } else {
             Err(FoliaError::ParseError("No body found".to_string()))
@@ -448,7 +461,7 @@ impl Document {
                         }
                     },
                     (_, Event::Eof) => {
-                        break;
+                        return Err(FoliaError::ParseError("Premature end of document".to_string()));
                     }
                     (_,_) => {}
                 }
-- 
2.43.0


From bcc8b1fb8971e9c9e5b415e284a840f51b412046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:12 +0000
Subject: [PATCH 11/68] fix: report invalid attributes and encodings as parse
 errors instead of panicking

---
 src/attrib.rs |  2 +-
 src/error.rs  |  6 ++++++
 src/parser.rs | 57 ++++++++++++++++++++++++++-------------------------
 3 files changed, 36 insertions(+), 29 deletions(-)

diff --git a/src/attrib.rs b/src/attrib.rs
index 149ba4c..5210045 100644
--- a/src/attrib.rs
+++ b/src/attrib.rs
@@ -378,7 +378,7 @@ impl Attribute {
                     if attrib_key.contains(&58) { //58 is a colon, we assume alien namespaces and ignore it
                         Ok(Attribute::Ignore)
                     } else {
-                        Err(FoliaError::ParseError(format!("Unknown attribute: '{}'", std::str::from_utf8(attrib.key).expect("unable to parse attribute name"))))
+                        Err(FoliaError::ParseError(format!("Unknown attribute: '{}'", String::from_utf8_lossy(attrib.key))))
                     }
                 }
             }
diff --git a/src/error.rs b/src/error.rs
index 176d56a..582db9a 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -72,6 +72,12 @@ impl From<io::Error> for FoliaError {
     }
 }
 
+impl From<std::str::Utf8Error> for FoliaError {
+    fn from(err: std::str::Utf8Error) -> FoliaError {
+        FoliaError::ParseError(format!("{}",err))
+    }
+}
+
 impl From<quick_xml::Error> for FoliaError {
     fn from(err: quick_xml::Error) -> FoliaError {
         FoliaError::XmlError(err)
diff --git a/src/parser.rs b/src/parser.rs
index 64683a5..80be639 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -56,13 +56,13 @@ impl Document {
                     match (*ns, e.local_name())  {
                         (Some(ns), b"FoLiA") if ns == NSFOLIA => {
                             for attrib in e.attributes() {
-                                let attrib: quick_xml::events::attributes::Attribute = attrib.unwrap();
+                                let attrib: quick_xml::events::attributes::Attribute = attrib?;
                                 match attrib.key {
                                     b"xml:id" => {
-                                        doc.id = attrib.unescape_and_decode_value(&reader).expect("Parsing ID")
+                                        doc.id = attrib.unescape_and_decode_value(&reader)?
                                     }
                                     b"version" => {
-                                        doc.version = attrib.unescape_and_decode_value(&reader).expect("Parsing version")
+                                        doc.version = attrib.unescape_and_decode_value(&reader)?
                                     },
                                     b"generator" | b"form " => {},  //we can ignore these
                                     _ => {}
@@ -102,7 +102,7 @@ impl Document {
                     match (*ns, e.local_name())  {
                         (Some(ns), b"metadata") if ns == NSFOLIA => {
                             for attrib in e.attributes() {
-                                let attrib = attrib.expect("unwrapping metadata attribute");
+                                let attrib = attrib?;
                                 if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
                                     match attrib.key {
                                         b"src" => {
@@ -112,7 +112,7 @@ impl Document {
                                             doc.metadata.metadatatype = Some(value);
                                         },
                                         otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute metadata/@{:?}",str::from_utf8(otherwise).unwrap());
+                                            eprintln!("WARNING: Unhandled attribute metadata/@{:?}",String::from_utf8_lossy(otherwise));
                                         }
                                     }
                                 }
@@ -128,7 +128,7 @@ impl Document {
                             let mut submetadata_src: Option<String> = None;
                             submetadata_type = None;
                             for attrib in e.attributes() {
-                                let attrib = attrib.expect("unwrapping submetadata attribute");
+                                let attrib = attrib?;
                                 if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
                                     match attrib.key {
                                         b"xml:id" => {
@@ -141,7 +141,7 @@ impl Document {
                                             submetadata_src = Some(value.clone());
                                         },
                                         otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute submetadata/@{:?}",str::from_utf8(otherwise).unwrap());
+                                            eprintln!("WARNING: Unhandled attribute submetadata/@{:?}",String::from_utf8_lossy(otherwise));
                                         }
                                     }
                                 }
@@ -155,14 +155,14 @@ impl Document {
                         (Some(ns), b"meta") if ns == NSFOLIA => {
                             meta_id = None;
                             for attrib in e.attributes() {
-                                let attrib = attrib.expect("unwrapping meta attribute");
+                                let attrib = attrib?;
                                 if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
                                     match attrib.key {
                                         b"id" | b"xml:id" => {
                                             meta_id = Some(value.clone());
                                         },
                                         otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute meta/@{:?}",str::from_utf8(otherwise).unwrap());
+                                            eprintln!("WARNING: Unhandled attribute meta/@{:?}",String::from_utf8_lossy(otherwise));
                                         }
                                     }
                                 }
@@ -183,14 +183,14 @@ impl Document {
                         (Some(ns), b"annotator") if ns == NSFOLIA && parsedeclarations => {
                             let mut processor_id: Option<String> = None;
                             for attrib in e.attributes() {
-                                let attrib = attrib.expect("unwrapping annotator attribute");
+                                let attrib = attrib?;
                                 if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
                                     match attrib.key {
                                         b"processor" => {
                                             processor_id = Some(value.clone());
                                         },
                                         otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute annotator/@{:?}",str::from_utf8(otherwise).unwrap());
+                                            eprintln!("WARNING: Unhandled attribute annotator/@{:?}",String::from_utf8_lossy(otherwise));
                                         }
                                     }
                                 }
@@ -210,13 +210,13 @@ impl Document {
                             declaration_key = Some(result);
                         },
                         (Some(ns), tag) if ns == NSFOLIA => {
-                            return Err(FoliaError::ParseError(format!("Unexpected FoLiA element: {}",  str::from_utf8(tag).expect("decoding tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Unexpected FoLiA element: {}",  String::from_utf8_lossy(tag)).to_string()));
                         },
                         (Some(ns),tag) if ns != NSFOLIA => {
-                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got namespace {} with tag {}", str::from_utf8(ns).expect("decoding namespace from utf-8"), str::from_utf8(tag).expect("decoding XML tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got namespace {} with tag {}", String::from_utf8_lossy(ns), String::from_utf8_lossy(tag)).to_string()));
                         }
                         (None,tag) => {
-                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got no namespace with tag {}",  str::from_utf8(tag).expect("decoding tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got no namespace with tag {}",  String::from_utf8_lossy(tag)).to_string()));
                         }
                         _ => {
                             unreachable!()
@@ -318,10 +318,10 @@ impl Document {
                             //just ignore everything else for now
                         },*/
                         (Some(ns),tag) => {
-                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got namespace {} with tag {}", str::from_utf8(ns).expect("decoding namespace from utf-8"), str::from_utf8(tag).expect("decoding XML tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got namespace {} with tag {}", String::from_utf8_lossy(ns), String::from_utf8_lossy(tag)).to_string()));
                         }
                         (None,tag) => {
-                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got no namespace with tag {}",  str::from_utf8(tag).expect("decoding tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got no namespace with tag {}",  String::from_utf8_lossy(tag)).to_string()));
                         }
                     }
                 },
@@ -369,7 +369,7 @@ impl Document {
                     (Some(ns), Event::Empty(ref e)) if ns == NSFOLIA => {
                         //EMPTY TAG FOUND (<tag/>)
                         //eprintln!("EMPTY TAG: {}", str::from_utf8(e.local_name()).expect("Tag is not valid utf-8"));
-                        let tagname = str::from_utf8(e.local_name()).expect("tag is not valid utf-8");
+                        let tagname = str::from_utf8(e.local_name())?;
                         let (elem, children) = ElementData::parse(reader, e)
                                                 .map_err(FoliaError::add_parseerror_string(
                                                          format!("Error parsing <{}/>", tagname))  )?;
@@ -391,7 +391,7 @@ impl Document {
                     (Some(ns), Event::Start(ref e)) if ns == NSFOLIA => {
                         //START TAG FOUND (<tag>)
                         //eprintln!("START TAG: {}", str::from_utf8(e.local_name()).expect("Tag is not valid utf-8"));
-                        let tagname = str::from_utf8(e.local_name()).expect("tag is not valid utf-8");
+                        let tagname = str::from_utf8(e.local_name())?;
                         let (elem, children) = ElementData::parse(reader, e)
                                                 .map_err(FoliaError::add_parseerror_string(
                                                          format!("Error parsing <{}>", tagname))  )?;
@@ -416,7 +416,7 @@ impl Document {
                         if let Some(elem) = self.get_elementdata(key) {
 
                             //verify we actually close the right thing (otherwise we have malformed XML)
-                            let elementname = str::from_utf8(e.local_name()).expect("Decoding XML tag from utf-8");
+                            let elementname = str::from_utf8(e.local_name())?;
                             let elementtype = ElementType::from_str(elementname)?;
                             if elem.elementtype != elementtype {
                                 return Err(FoliaError::ParseError(format!("Malformed XML? Invalid element closed: {}, expected: {}", elementname, elem.elementtype.to_string() )));
@@ -497,8 +497,9 @@ impl Processor {
     pub(crate) fn parse<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::BytesStart) -> Result<Processor, FoliaError> {
         let mut processor = Processor::default();
         for attrib in event.attributes()  {
-            if let Ok(attrib) = attrib {
-                let value = attrib.unescape_and_decode_value(&reader).expect("Parsing attribute value for processor");
+            {
+                let attrib = attrib?;
+                let value = attrib.unescape_and_decode_value(&reader)?;
                 match  attrib.key {
                     b"xml:id" => { processor.id = value; },
                     b"name" => { processor.name = value; },
@@ -533,7 +534,7 @@ impl Processor {
                         }
                     }},
                     tag => {
-                        return Err(FoliaError::ParseError(format!("Unknown attribute on processor, got: {:?}", str::from_utf8(tag).unwrap() )));
+                        return Err(FoliaError::ParseError(format!("Unknown attribute on processor, got: {:?}", String::from_utf8_lossy(tag) )));
                     }
                 }
             }
@@ -547,7 +548,7 @@ impl ElementData {
         let mut attributes: Vec<Attribute> = Vec::new();
         let mut children: Vec<ElementData> = Vec::new();
         'outerloop: for attrib in attribiter {
-            let attrib = &attrib.expect("Parsing XML attribute");
+            let attrib = &attrib?;
             match Attribute::parse(&reader, attrib) {
                 //normal behaviour
                 Ok(attrib) => { attributes.push(attrib); },
@@ -561,7 +562,7 @@ impl ElementData {
                             if let AcceptedData::AcceptElementType(acceptedtype) = accepteddata {
                                 if featuregroup.contains(*acceptedtype) {
                                     let properties = Properties::new(*acceptedtype);
-                                    if properties.subset.is_some() && str::from_utf8(attrib.key).unwrap() == properties.subset.unwrap() {
+                                    if properties.subset.is_some() && attrib.key == properties.subset.unwrap().as_bytes() {
                                         let child = ElementData::new(ElementType::Feature).
                                                                 with_attribs(vec![
                                                                     Attribute::Subset(properties.subset.unwrap().to_string()),
@@ -585,7 +586,7 @@ impl ElementData {
     ///Parse this element from XML, note that this does not handle the child elements, those are
     ///appended by the main parser in Document::parse_body()
     pub(crate) fn parse<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::BytesStart) -> Result<(ElementData,Vec<ElementData>), FoliaError> {
-        let elementname = str::from_utf8(event.local_name()).expect("utf-8 decoding");
+        let elementname = str::from_utf8(event.local_name())?;
         let elementtype = ElementType::from_str(elementname)?;
         let (attributes, children) = ElementData::parse_attributes(reader, event.attributes(), elementtype)
                                      .map_err(FoliaError::add_parseerror_string(format!("Error parsing attributes for {}", elementname)))?;
@@ -595,12 +596,12 @@ impl ElementData {
 
 impl Declaration {
     pub(crate) fn parse<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::BytesStart, tag: &[u8]) -> Result<Declaration, FoliaError> {
-        let declaration_type = get_declaration_type(str::from_utf8(tag).expect("utf-8 decoding"))?;
+        let declaration_type = get_declaration_type(str::from_utf8(tag)?)?;
         let mut set: Option<String> = None;
         let mut alias: Option<String> = None;
         let mut format: Option<String> = None;
         for attrib in event.attributes() {
-            let attrib = attrib.expect("unwrapping declaration attribute");
+            let attrib = attrib?;
             if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
                 match attrib.key {
                     b"set" => {
@@ -619,7 +620,7 @@ impl Declaration {
                         //TODO: handle old-style default
                     },
                     otherwise => {
-                        eprintln!("WARNING: Unhandled attribute on declaration: @{:?}",str::from_utf8(otherwise).unwrap());
+                        eprintln!("WARNING: Unhandled attribute on declaration: @{:?}",String::from_utf8_lossy(otherwise));
                     }
                 }
             }
-- 
2.43.0


From 70e6c621af82a243f56a95c9a2762da206eb6212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:16 +0000
Subject: [PATCH 12/68] fix: keep white space in text content

---
 src/parser.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 80be639..eb17294 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -432,7 +432,7 @@ impl Document {
                     },
                     (None, Event::Text(s)) => {
                         let text = s.unescape_and_decode(reader)?;
-                        if text.trim() != "" {
+                        if text.trim() != "" || (!text.is_empty() && stack.last().map_or(false, |key| self.is_textcontainer(*key))) {
                             if let Some(parent_key) = stack.last() {
                                 self.get_mut_elementdata(*parent_key).map( |parent| {
                                     parent.push(DataType::Text(text));
@@ -442,7 +442,7 @@ impl Document {
                     },
                     (None, Event::CData(s)) => {
                         let text = reader.decode(&s)?;
-                        if text.trim() != "" {
+                        if text.trim() != "" || (!text.is_empty() && stack.last().map_or(false, |key| self.is_textcontainer(*key))) {
                             if let Some(parent_key) = stack.last() {
                                 self.get_mut_elementdata(*parent_key).map( |parent| {
                                     parent.push(DataType::Text(text.to_string()));
@@ -473,6 +473,18 @@ impl Document {
     }
 }
 
+impl Document {
+    ///Is the element a text or phonetic container? White space is significant there
+    pub(crate) fn is_textcontainer(&self, element_key: ElementKey) -> bool {
+        if let Some(element) = self.get_elementdata(element_key) {
+            let properties = self.props(element.elementtype);
+            properties.textcontainer || properties.phoncontainer
+        } else {
+            false
+        }
+    }
+}
+
 fn get_declaration_type(tag: &str) -> Result<AnnotationType, FoliaError> {
     if let Some(index) = tag.find("-") {
         let (declaration_type_string, suffix) = tag.split_at(index);
-- 
2.43.0


From 9d6df1adec29653af037d7534924aff6da9251d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:18 +0000
Subject: [PATCH 13/68] fix: do not insert white space in mixed content on
 serialisation

---
 src/serialiser.rs | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/serialiser.rs b/src/serialiser.rs
index c5124bb..cad5a1c 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -27,6 +27,16 @@ fn to_serialisation_error(err: quick_xml::Error) -> FoliaError {
     FoliaError::SerialisationError(format!("{}",err))
 }
 
+///Is white space significant at the current position?
+fn is_inline(stack: &Vec<(BytesEnd,ElementType,String,bool)>) -> bool {
+    stack.last().map_or(false, |(_,_,_,inline)| *inline)
+}
+
+///Prevents the writer from inserting a line break and indentation before the next event
+fn suppress_indent(writer: &mut Writer<Cursor<Vec<u8>>>) -> Result<(), FoliaError> {
+    writer.write_event(Event::Text(BytesText::from_plain(b""))).map_err(to_serialisation_error)
+}
+
 impl Document {
     ///Serialises a document to XML (vector of bytes, utf-8)
     pub fn xml(&self, root_key: ElementKey, indent: usize) -> Result<Vec<u8>, FoliaError> {
@@ -219,14 +229,18 @@ impl Document {
         let dec_is_default: Vec<bool> = self.declarationstore.default_mask();
 
         //Select children
-        let mut stack: Vec<(BytesEnd,ElementType,String)> = vec![];
+        //(the boolean indicates whether white space is significant inside the element)
+        let mut stack: Vec<(BytesEnd,ElementType,String,bool)> = vec![];
         let mut previous_depth = 0;
         let mut last_start: String = "<ROOT>".to_string();
         for item in self.select_data_by_key(root_key,Selector::all_data(),Recursion::Always, true, false) {
             while item.depth < previous_depth {
-                if let Some((end,elementtype,_tagstring)) = stack.pop() {
+                if let Some((end,elementtype,_tagstring,inline)) = stack.pop() {
+                    if inline {
+                        suppress_indent(writer)?;
+                    }
                     writer.write_event(Event::End(end)).map_err(to_serialisation_error)?;
-                    if !ElementGroup::TextMarkup.contains(elementtype) {
+                    if !ElementGroup::TextMarkup.contains(elementtype) && !is_inline(&stack) {
                         writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
                     }
                     //eprintln!("[DEBUG] <-- Popped end tag {} ({})", tagstring.as_str(), item.depth);
@@ -279,6 +293,12 @@ impl Document {
                                 }
                             }
                         }
+                        let parent_inline = is_inline(&stack);
+                        //white space is significant if the element holds text
+                        let mut inline = parent_inline;
+                        if parent_inline {
+                            suppress_indent(writer)?;
+                        }
                         if element.data.is_empty() {
                             writer.write_event(Event::Empty(start)).map_err(to_serialisation_error)?;
                         } else {
@@ -286,9 +306,10 @@ impl Document {
                             let end = BytesEnd::owned(tag.to_vec());
                             //eprintln!("[DEBUG] --> Pushed start tag {} ({})", tagstring.as_str(), item.depth);
                             last_start = tagstring.clone();
-                            stack.push((end,element.elementtype(),tagstring));
+                            inline = inline || self.is_textcontainer(*key) || element.data.data.iter().any(|item| if let DataType::Text(_) = item { true } else { false });
+                            stack.push((end,element.elementtype(),tagstring,inline));
                         }
-                        if !ElementGroup::TextMarkup.contains(element.elementtype()) && element.elementtype() != ElementType::TextContent && element.elementtype() != ElementType::PhonContent {
+                        if !inline && !ElementGroup::TextMarkup.contains(element.elementtype()) && element.elementtype() != ElementType::TextContent && element.elementtype() != ElementType::PhonContent {
                             writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
                         }
                     }
@@ -304,6 +325,9 @@ impl Document {
                     if comment.contains("--") || comment.ends_with('-') {
                         return Err(FoliaError::SerialisationError(format!("Comment can not be represented in XML: {}", comment)));
                     }
+                    if is_inline(&stack) {
+                        suppress_indent(writer)?;
+                    }
                     let text = BytesText::from_escaped_str(comment.as_str());
                     writer.write_event(Event::Comment(text)).map_err(to_serialisation_error)?;
                 }
@@ -315,7 +339,10 @@ impl Document {
         }
 
         //don't forget the final closing elements
-        while let Some((end, _elementtype, _tagstring)) = stack.pop() {
+        while let Some((end, _elementtype, _tagstring, inline)) = stack.pop() {
+            if inline {
+                suppress_indent(writer)?;
+            }
             writer.write_event(Event::End(end)).map_err(to_serialisation_error)?;
             //eprintln!("[DEBUG] <-- Popped final end tag {}", tagstring.as_str());
         }
-- 
2.43.0


From a2d967adeb1ad9e586e8b0e33adf186251eef32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:46 +0000
Subject: [PATCH 14/68] fix: serialise the set of elements that have no class

---
 src/serialiser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/serialiser.rs b/src/serialiser.rs
index cad5a1c..410dfbc 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -263,7 +263,10 @@ impl Document {
                         }
                         if let Some(declaration_key) = element.declaration_key() {
                             //check if the declaration is the default, no need to serialise set then
-                            if !dec_is_default.get(declaration_key as usize).expect("checking default")  && element.elementtype() != ElementType::Feature {
+                            //(unless there is nothing else to associate the element with the declaration)
+                            let implicit_set = *dec_is_default.get(declaration_key as usize).expect("checking default") &&
+                                               (element.class().is_some() || element.subset().is_some());
+                            if !implicit_set && element.elementtype() != ElementType::Feature {
                                 //decode encoded attributes
                                 if let Some(set) = element.set() {
                                     start.push_attribute(("set", set) );
-- 
2.43.0


From f3662e82006c9c01cd71ddf59f7a88dcd766c3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:58 +0000
Subject: [PATCH 15/68] fix: serialise the processor of elements that have no
 class or set

---
 src/serialiser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/serialiser.rs b/src/serialiser.rs
index 410dfbc..14133fc 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -291,7 +291,8 @@ impl Document {
                                     false
                                 };
 
-                                if !is_default {
+                                let bare = element.set().is_none() && element.class().is_none() && element.subset().is_none();
+                                if !is_default || bare {
                                     start.push_attribute(("processor", processor) );
                                 }
                             }
-- 
2.43.0


From 1a3f153ffb4aabe285c100ca10dc59b1c4f66934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 16/68] fix: refuse elements with an ID that is already in use

---
 src/document.rs |  5 +++++
 src/store.rs    | 14 ++++++++++----
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index e6efe0e..d6b5f17 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -781,6 +781,11 @@ impl Store<ElementData,ElementKey> for Document {
         self.elementstore.items.iter()
     }
 
+    ///Element IDs must be unique in the document
+    fn resolve_duplicate(&self, _key: ElementKey, item: &ElementData) -> Result<ElementKey,FoliaError> {
+        Err(FoliaError::ValidationError(format!("Duplicate ID: {}", item.id().unwrap_or_default())))
+    }
+
     ///Actively encode element for storage, this encodes attributes that need to be encoded (such as set,class,processor), and adds them to their respective stores.
     ///It does not handle relations between elements (data/children and parent)
     ///nor does it add the element itself to the store
diff --git a/src/store.rs b/src/store.rs
index 9dfd452..dc32ec8 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -53,14 +53,20 @@ pub trait Store<T,Key> where T: Storable<Key>,
        Ok(item) //we assume the item does not need to be decoded by default
     }
 
+    ///Decides what to do when an item is added whose ID is already in the store, by default we
+    ///simply use the item that is there already
+    fn resolve_duplicate(&self, key: Key, _item: &T) -> Result<Key,FoliaError> {
+       Ok(key)
+    }
+
     ///Add a new item to the store (takes ownership)
     fn add(&mut self, mut item: T, context: Option<Key>) -> Result<Key,FoliaError> {
-        if item.encodable() {
-            item = self.encode(item, context)?;
+        if let Some(key) = self.get_key(&item) {
+            return self.resolve_duplicate(key, &item);
         }
 
-        if let Some(key) = self.get_key(&item) {
-            return Ok(key);
+        if item.encodable() {
+            item = self.encode(item, context)?;
         }
 
         //Get the ID fo the item (if any)
-- 
2.43.0


From 999a4d6de8ea02e6b7c0ab38d79f85d4bb414787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:22 +0000
Subject: [PATCH 17/68] fix: refuse to attach an element to itself or its
 descendants

---
 src/document.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/document.rs b/src/document.rs
index d6b5f17..ac06cfe 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -271,6 +271,11 @@ impl Document {
             return Err(FoliaError::InternalError(format!("Parent element does not exist: {}", parent_key)));
         };
 
+        //an element can not be attached to itself or to any of its own descendants
+        if parent_key == child_key || self.ancestors_by_key(parent_key, Selector::elements()).any(|e| e.key() == Some(child_key)) {
+            return Err(FoliaError::ValidationError(format!("Unable to attach element {} to {}, it would become its own ancestor", child_key, parent_key)));
+        }
+
         let oldparent_key = if let Some(child) = self.get_mut(child_key) {
             //add the new parent and return the old parent
             let tmp = child.parent_key();
-- 
2.43.0


From ec7d6afd34d701d839dcec4ab28153396710adc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:55 +0000
Subject: [PATCH 18/68] fix: attribute annotations to the active processor,
 also under an existing declaration

---
 src/document.rs |  9 ++++-----
 src/parser.rs   | 10 +++++++++-
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index ac06cfe..80e4d19 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -463,13 +463,12 @@ impl Document {
     ///associated with the declaration.
     pub fn declare(&mut self, annotationtype: AnnotationType, set: &Option<String>, alias: &Option<String>, format: &Option<String>) -> Result<DecKey,FoliaError> {
         //first we simply check the index
-        if let Some(found_key) = <Self as Store<Declaration,DecKey>>::id_to_key(self,Declaration::index_id(annotationtype, &set.as_ref().map(String::as_str)  ).as_str()) {
-            return Ok(found_key);
-        }
+        let mut declaration_key: Option<DecKey> = <Self as Store<Declaration,DecKey>>::id_to_key(self,Declaration::index_id(annotationtype, &set.as_ref().map(String::as_str)  ).as_str());
 
         //If not found, we search for a default
-        let mut declaration_key: Option<DecKey> = None;
-        if let Some(default_key) = self.declarationstore.get_default_key(annotationtype) {
+        if declaration_key.is_some() {
+            //nothing to search for
+        } else if let Some(default_key) = self.declarationstore.get_default_key(annotationtype) {
             if let Some(declaration) = self.get_declaration(default_key) {
                 if set.is_some() {
                     //there is an explicit set defined, only return the default if the sets are not
diff --git a/src/parser.rs b/src/parser.rs
index eb17294..58182e9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -26,7 +26,10 @@ use crate::specification::*;
 
 impl Document {
     ///Parses a FoLiA document given a reader
-    pub(crate) fn parse<R: BufRead>(reader: &mut Reader<R>, properties: DocumentProperties) -> Result<Self, FoliaError> {
+    pub(crate) fn parse<R: BufRead>(reader: &mut Reader<R>, mut properties: DocumentProperties) -> Result<Self, FoliaError> {
+
+        //the processor applies to what is done with the document after it has been loaded
+        let processor: Option<Processor> = properties.processor.take();
 
         let mut body: Option<ElementData> = None;
         let mut buf = Vec::new();
@@ -353,6 +356,11 @@ impl Document {
                     (_,_) => {}
                 }
             }
+
+            if let Some(processor) = processor {
+                let processor_key = doc.add_processor(processor)?;
+                doc.activate_processor(processor_key);
+            }
             Ok(doc)
         } else {
             Err(FoliaError::ParseError("No body found".to_string()))
-- 
2.43.0


From 97f153da44040b097d942ec642c348cf43301996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:15 +0000
Subject: [PATCH 19/68] fix: keep each processor at a single place in the
 provenance chain

---
 src/document.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 80e4d19..17ffb0f 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -408,7 +408,9 @@ impl Document {
         let pending_subprocessors: Vec<Processor> = processor.pending_processors.replace(vec!());
         let child_key = self.add(processor, None);
         if let Ok(child_key) = child_key {
-            self.provenancestore.chain.push(child_key);
+            if !self.provenancestore.chain.contains(&child_key) && self.get_processor(child_key).map_or(true, |p| p.parent.is_none()) {
+                self.provenancestore.chain.push(child_key);
+            }
             for subprocessor in pending_subprocessors {
                 self.add_subprocessor(child_key, subprocessor)?;
             }
@@ -438,14 +440,31 @@ impl Document {
             return Err(FoliaError::InternalError(format!("Parent does not exist: {}", parent_key)));
         };
 
-        if let Some(child) = self.get_mut_processor(child_key) {
+        //a processor can not be a subprocessor of itself or of any of its own subprocessors
+        let mut ancestor_key = Some(parent_key);
+        while let Some(key) = ancestor_key {
+            if key == child_key {
+                return Err(FoliaError::ValidationError(format!("Unable to attach processor {} to {}, it would become its own subprocessor", child_key, parent_key)));
+            }
+            ancestor_key = self.get_processor(key).and_then(|processor| processor.parent);
+        }
+
+        let oldparent_key = if let Some(child) = self.get_mut_processor(child_key) {
             //add the new parent and return the old parent
+            let tmp = child.parent;
             child.parent = Some(parent_key);
+            tmp
         } else {
             //child does not exist
             return Err(FoliaError::InternalError(format!("Child does not exist: {}", child_key)));
         };
 
+        //detach from the old position, if any
+        if let Some(oldparent) = oldparent_key.and_then(|key| self.get_mut_processor(key)) {
+            oldparent.processors.retain(|key| *key != child_key);
+        }
+        self.provenancestore.chain.retain(|key| *key != child_key);
+
         if let Some(parent) = self.get_mut_processor(parent_key) {
             parent.processors.push(child_key);
         }
-- 
2.43.0


From 68be1e2ae2dea8772fbc0bfc2e50c8cc5a0824e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:35 +0000
Subject: [PATCH 20/68] fix: attach existing subprocessors when a processor is
 added

---
 src/document.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 17ffb0f..76278ab 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -404,13 +404,17 @@ impl Document {
 
     ///Add an element to the provenance chain
     ///Returns the key
-    pub fn add_processor(&mut self, processor: Processor) -> Result<ProcKey, FoliaError> {
+    pub fn add_processor(&mut self, mut processor: Processor) -> Result<ProcKey, FoliaError> {
+        let existing_subprocessors: Vec<ProcKey> = self.take_subprocessors(&mut processor)?;
         let pending_subprocessors: Vec<Processor> = processor.pending_processors.replace(vec!());
         let child_key = self.add(processor, None);
         if let Ok(child_key) = child_key {
             if !self.provenancestore.chain.contains(&child_key) && self.get_processor(child_key).map_or(true, |p| p.parent.is_none()) {
                 self.provenancestore.chain.push(child_key);
             }
+            for subprocessor_key in existing_subprocessors {
+                self.attach_processor(child_key, subprocessor_key)?;
+            }
             for subprocessor in pending_subprocessors {
                 self.add_subprocessor(child_key, subprocessor)?;
             }
@@ -420,11 +424,18 @@ impl Document {
 
     ///Add a processor as a subprocessor
     ///Returns the key
-    pub fn add_subprocessor(&mut self, parent_key: ProcKey, processor: Processor) -> Result<ProcKey, FoliaError> {
+    pub fn add_subprocessor(&mut self, parent_key: ProcKey, mut processor: Processor) -> Result<ProcKey, FoliaError> {
+        if self.get_processor(parent_key).is_none() {
+            return Err(FoliaError::InternalError(format!("Parent does not exist: {}", parent_key)));
+        }
+        let existing_subprocessors: Vec<ProcKey> = self.take_subprocessors(&mut processor)?;
         let pending_subprocessors: Vec<Processor> = processor.pending_processors.replace(vec!());
         let child_key = self.add(processor, None);
         if let Ok(child_key) = child_key {
             self.attach_processor(parent_key, child_key)?;
+            for subprocessor_key in existing_subprocessors {
+                self.attach_processor(child_key, subprocessor_key)?;
+            }
             for subprocessor in pending_subprocessors {
                 self.add_subprocessor(child_key, subprocessor)?;
             }
@@ -432,6 +443,15 @@ impl Document {
         child_key
     }
 
+    ///Takes the (existing) subprocessors from a processor that is yet to be added, they are
+    ///attached after it has been added
+    fn take_subprocessors(&self, processor: &mut Processor) -> Result<Vec<ProcKey>, FoliaError> {
+        if let Some(missing_key) = processor.processors.iter().find(|key| self.get_processor(**key).is_none()) {
+            return Err(FoliaError::InternalError(format!("Subprocessor does not exist: {}", missing_key)));
+        }
+        Ok(processor.processors.drain(..).collect())
+    }
+
     ///Adds the processor element to the parent element, automatically takes care
     ///of removing the old parent (if any).
     pub fn attach_processor(&mut self, parent_key: ProcKey, child_key: ProcKey) -> Result<(),FoliaError> {
-- 
2.43.0


From 988e0c6aed4ff9c1735504180a7e0edc7fbfd3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:14 +0000
Subject: [PATCH 21/68] fix: reject duplicate processor and submetadata
 identifiers

---
 src/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 58182e9..099bc0a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -150,6 +150,9 @@ impl Document {
                                 }
                             }
                             if let Some(submetadata_id) = &submetadata {
+                                if doc.submetadata.contains_key(submetadata_id) {
+                                    return Err(FoliaError::ParseError(format!("Duplicate submetadata ID: {}", submetadata_id)));
+                                }
                                 doc.submetadata.insert(submetadata_id.clone(), Metadata { data: HashMap::default(), src: submetadata_src, metadatatype: submetadata_type.clone() });
                             } else {
                                 return Err(FoliaError::ParseError("Submetadata has no ID".to_string()));
@@ -174,6 +177,9 @@ impl Document {
                         },
                         (Some(ns), b"processor") if ns == NSFOLIA && parseprovenance => {
                             let processor = Processor::parse(&reader, &e).map_err(FoliaError::add_parseerror("Error parsing processor"))?;
+                            if doc.get_processor_key_by_id(&processor.id).is_some() {
+                                return Err(FoliaError::ParseError(format!("Duplicate processor ID: {}", processor.id)));
+                            }
                             if processor_stack.is_empty() {
                                 let processor_key = doc.add_processor(processor).map_err(FoliaError::add_parseerror("Error adding processor"))?;
                                 processor_stack.push(processor_key);
-- 
2.43.0


From 2ae088eb394e12731c7c169506cd9b01f220f213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:17 +0000
Subject: [PATCH 22/68] fix: iterate instead of recurse in selections

---
 src/select.rs | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index c20a593..70b7e95 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -408,7 +408,7 @@ impl<'a> Iterator for SelectIterator<'a> {
                 }
             }
         };
-        if let Some((key,cursor)) = self.stack.pop() {
+        while let Some((key,cursor)) = self.stack.pop() {
             if let Some(parent) = self.document.get_elementdata(key) {
                 if let Some(item) = parent.get_data_at(cursor) {
                     //increment the cursor and push back to the stack
@@ -445,14 +445,12 @@ impl<'a> Iterator for SelectIterator<'a> {
                         }
                     }
                 }
-                self.next() //recurse
             } else {
                 unreachable!("selector tried to get an element which no longer exists")
             }
-        } else {
-            //stack is empty, we are done (None stops iteration)
-            None
         }
+        //stack is empty, we are done (None stops iteration)
+        None
     }
 
 }
@@ -581,21 +579,18 @@ impl<'a> Iterator for SelectElementsIterator<'a> {
     type Item = SelectElementsItem<'a>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let selectitem = self.iterator.next();
-        if let Some(selectitem) = selectitem {
+        while let Some(selectitem) = self.iterator.next() {
             match *selectitem {
                 DataType::Element(key) | DataType::SpanReference(key) => {
                     let element = self.iterator.document.get_element(key).expect("Getting key from elementstore for SelectElementsIterator");
-                    Some(Self::Item { element: element })
+                    return Some(Self::Item { element: element });
                 },
                 _ => {
-                    //recurse
-                    self.next()
+                    //not an element, try the next item
                 }
             }
-        } else {
-            None
         }
+        None
     }
 
 }
@@ -659,7 +654,7 @@ impl<'a> Iterator for AncestorIterator<'a> {
     type Item = SelectElementsItem<'a>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some(element) = self.document.get_elementdata(self.key) {
+        while let Some(element) = self.document.get_elementdata(self.key) {
             if let Some(parent_key) = element.parent {
                 self.key = parent_key;
                 if self.selector.matches(&self.document, &DataType::Element(parent_key)) {
@@ -668,11 +663,12 @@ impl<'a> Iterator for AncestorIterator<'a> {
                     });
                 } else {
                     let parent_type = self.document.get_elementdata(parent_key).expect("Parent no longer exists").elementtype;
-                    if self.recursion.eval(parent_type) {
-                        //recurse
-                        return self.next();
+                    if !self.recursion.eval(parent_type) {
+                        break;
                     }
                 }
+            } else {
+                break;
             }
         }
         None
-- 
2.43.0


From 2708b7fa7d59b42109b837bcddffb380bd8515ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:49 +0000
Subject: [PATCH 23/68] fix: include the element itself when selecting from an
 orphan

---
 src/document.rs     | 7 ++++++-
 src/elementstore.rs | 4 ++++
 src/select.rs       | 2 +-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 76278ab..929dacc 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -173,7 +173,11 @@ impl Document {
     ///first one, you may want to use ``add_element_to`` or ``annotate`` instead)
     pub fn add_element(&mut self, element: ElementData) -> Result<ElementKey, FoliaError> {
         let (element,_) = self.add_children(element)?;
-        <Self as Store<ElementData,ElementKey>>::add(self, element, None)
+        let key = <Self as Store<ElementData,ElementKey>>::add(self, element, None)?;
+        if key != 0 {
+            self.elementstore.orphans.insert(key, DataType::Element(key));
+        }
+        Ok(key)
     }
 
     ///Add a declaration. It is strongly recommended to use ``declare()`` instead
@@ -390,6 +394,7 @@ impl Document {
             //child does not exist
             return Err(FoliaError::InternalError(format!("Child does not exist: {}", child_key)));
         };
+        self.elementstore.orphans.insert(child_key, DataType::Element(child_key));
 
         if let Some(oldparent_key) = oldparent_key {
             //detach child from the old parent
diff --git a/src/elementstore.rs b/src/elementstore.rs
index 61f7563..95420c6 100644
--- a/src/elementstore.rs
+++ b/src/elementstore.rs
@@ -20,6 +20,9 @@ pub struct ElementStore {
     ///inside elements. Used by the select iterator.
     pub(crate) root: DataType,
 
+    ///Serves the same purpose as ``root`` for elements that have no parent (orphans)
+    pub(crate) orphans: HashMap<ElementKey,DataType>,
+
     ///An ``ElementStore`` holds a copy of the FoLiA specification. Duplicating this for each
     ///element store causes some duplication when holding multiple documents (or stores) in memory, but the specification itself contains mostly
     ///references to static strings and arrays contained within the library, and therefore only loaded once.
@@ -32,6 +35,7 @@ impl Default for ElementStore {
             items: vec![],
             index: HashMap::new(),
             root: DataType::Element(0),
+            orphans: HashMap::new(),
             specification: Specification::default()
         }
     }
diff --git a/src/select.rs b/src/select.rs
index 70b7e95..697f1d1 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -397,7 +397,7 @@ impl<'a> Iterator for SelectIterator<'a> {
                         *key
                     };
                     let item: &'a DataType  = if parent_key == *key {
-                        &self.document.elementstore.root
+                        self.document.elementstore.orphans.get(key).unwrap_or(&self.document.elementstore.root)
                     } else {
                         let index = self.document.get_elementdata(parent_key).expect("unwrapping parent key").index(&DataType::Element(*key)).expect("unwrapping child key");
                         self.document.get_elementdata(parent_key).expect("unwrapping parent key").get_data_at(index).expect("unwrapping child key")
-- 
2.43.0


From 192ed4cee39cd5ac9d18787a84985a47125a6a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:15 +0000
Subject: [PATCH 24/68] fix: add the children of a new element in the context
 of their parent

---
 src/document.rs | 81 +++++++++++++++++--------------------------------
 1 file changed, 27 insertions(+), 54 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 929dacc..829c86a 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -172,8 +172,7 @@ impl Document {
     ///Add an element to the document (but the element will be an orphan unless it is the very
     ///first one, you may want to use ``add_element_to`` or ``annotate`` instead)
     pub fn add_element(&mut self, element: ElementData) -> Result<ElementKey, FoliaError> {
-        let (element,_) = self.add_children(element)?;
-        let key = <Self as Store<ElementData,ElementKey>>::add(self, element, None)?;
+        let key = self.add_with_children(None, element)?;
         if key != 0 {
             self.elementstore.orphans.insert(key, DataType::Element(key));
         }
@@ -200,19 +199,8 @@ impl Document {
     ///takes care of adding and attaching for you. You may want to use ``annotate`` instead
     ///as that is an even higher-level function.
     pub fn add_element_to(&mut self, parent_key: ElementKey, element: ElementData) -> Result<ElementKey, FoliaError> {
-        let (element,added_subelements) = self.add_children(element)?;
-        match <Self as Store<ElementData,ElementKey>>::add(self, element, Some(parent_key)) {
+        match self.add_with_children(Some(parent_key), element) {
             Ok(child_key) => {
-                if let Some(added_subelements) = added_subelements {
-                    for subchild_key in added_subelements.iter() {
-                        if let Some(subchilddata) = self.get_mut_elementdata(*subchild_key) {
-                            subchilddata.set_parent_key(Some(child_key));
-                        }
-                        self.post_add(*subchild_key, None)?;
-                    }
-                }
-                self.attach_element(parent_key, child_key)?;
-                self.post_add(child_key, None)?;
                 Ok(child_key)
             },
             Err(err) => {
@@ -221,50 +209,35 @@ impl Document {
         }
     }
 
-    ///Before we can add an element, we need to create and add its hitherto 'unborn' children.
-    pub(crate) fn add_children(&mut self, mut element: ElementData) -> Result<(ElementData, Option<Vec<ElementKey>>),FoliaError> {
-        let mut has_unborn_children = false;
-        for child in element.data.iter() {
-            if let DataType::AddElement(_) = child {
-                has_unborn_children = true;
-            }
+    ///Adds an element, attaches it to its parent (if any), and then adds and attaches its hitherto
+    ///'unborn' children.
+    pub(crate) fn add_with_children(&mut self, parent_key: Option<ElementKey>, mut element: ElementData) -> Result<ElementKey,FoliaError> {
+        let data: Vec<DataType> = element.data.drain(..).collect();
+        element.set_parent_key(None);
+        let key = <Self as Store<ElementData,ElementKey>>::add(self, element, parent_key)?;
+        if let Some(parent_key) = parent_key {
+            self.attach_element(parent_key, key)?;
         }
-        if has_unborn_children {
-            let mut added_elements: Vec<ElementKey> = Vec::new();
-            let mut new_data: Vec<DataType> = Vec::new();
-            for child in element.data {
-                if let DataType::AddElement(child_elementdata) = child {
-                    //first we do a recursion step to add the grandchildren, if any
-                    let child_key = match self.add_children(child_elementdata) {
-                        Ok((child_elementdata_new, Some(added_grandchildren))) => {
-                            let child_key = <Self as Store<ElementData,ElementKey>>::add(self, child_elementdata_new, None)?;
-                            for grandchild_key in added_grandchildren {
-                                if let Some(subchilddata) = self.get_mut_elementdata(grandchild_key) {
-                                    subchilddata.set_parent_key(Some(child_key));
-                                }
-                                self.post_add(grandchild_key, None)?;
-                            }
-                            child_key
-                        },
-                        Ok((child_elementdata_new, None)) => {
-                            let child_key = <Self as Store<ElementData,ElementKey>>::add(self, child_elementdata_new, None)?;
-                            child_key
-                        }
-                        Err(e) => {
-                            return Err(e);
-                        }
-                    };
-                    new_data.push(DataType::Element(child_key));
-                    added_elements.push(child_key);
-                } else {
-                    new_data.push(child);
+        for child in data {
+            match child {
+                DataType::AddElement(child_elementdata) => {
+                    //recursion step to add the grandchildren, if any
+                    self.add_with_children(Some(key), child_elementdata)?;
+                },
+                DataType::Element(child_key) => {
+                    self.attach_element(key, child_key)?;
+                },
+                child => {
+                    if let Some(element) = self.get_mut_elementdata(key) {
+                        element.push(child);
+                    }
                 }
             }
-            element.data = new_data;
-            Ok((element, Some(added_elements)))
-        } else {
-            Ok((element, None))
         }
+        if parent_key.is_some() {
+            self.post_add(key, None)?;
+        }
+        Ok(key)
     }
 
     ///Adds the child element to the parent element, automatically takes care
-- 
2.43.0


From 6f1fb485f297d29672a30de000eacb69a1eb6ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:02 +0000
Subject: [PATCH 25/68] fix: do not ignore annotator, annotator type and
 confidence in queries

---
 src/select.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/select.rs b/src/select.rs
index 697f1d1..dea1372 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -143,6 +143,9 @@ impl Selector {
             Cmp::None => Cmp::None,
             Cmp::Unmatchable => Cmp::Unmatchable,
         };
+        selector.annotator = query.annotator.clone();
+        selector.annotatortype = query.annotatortype.clone();
+        selector.confidence = query.confidence.clone();
         Ok(selector)
     }
 
@@ -228,7 +231,8 @@ impl Selector {
                     (self.class == Cmp::Any || self.class.matches(element.class_key().as_ref())) &&
                     (self.processor == Cmp::Any || self.processor.matches(element.processor_key().as_ref())) &&
                     (self.annotator == Cmp::Any || self.annotator.matches(element.annotator().map(|s| s.to_string()).as_ref())) &&
-                    (self.annotatortype == Cmp::Any || self.annotatortype.matches(element.annotatortype().as_ref()))
+                    (self.annotatortype == Cmp::Any || self.annotatortype.matches(element.annotatortype().as_ref())) &&
+                    (self.confidence == Cmp::Any || self.confidence.matches(element.elementdata().confidence().as_ref()))
                 } else {
                     //element does not exist, can never match
                     false
-- 
2.43.0


From b57a6ea1a7f48212a7a1ca0eb89e15ec828b7322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:04 +0000
Subject: [PATCH 26/68] fix: take the union of all combined selectors

---
 src/select.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index dea1372..ba27f93 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -195,7 +195,10 @@ impl Selector {
     ///Add another selector, the resulting selection will then consist of the union
     ///of the selectors. This can be chained multiple times.
     pub fn and(mut self, selector: Selector) -> Self {
-        self.next = Some(Box::new(selector));
+        self.next = match self.next {
+            Some(next) => Some(Box::new(next.and(selector))),
+            None => Some(Box::new(selector)),
+        };
         self
     }
 
@@ -204,9 +207,10 @@ impl Selector {
     ///made to sets or classes that don't exist in the document, then it is unmatchable and there
     ///is no sense in actually performing any matching.
     pub fn matchable(&self) -> bool {
-        self.set != Cmp::Unmatchable &&
+        (self.set != Cmp::Unmatchable &&
         self.class != Cmp::Unmatchable &&
-        self.processor != Cmp::Unmatchable
+        self.processor != Cmp::Unmatchable) ||
+        self.next.as_ref().map_or(false, |next| next.matchable())
     }
 
     ///Tests if the selector matches against the specified data item, given an element store.
-- 
2.43.0


From c1e17129183695d27367afe39877be395d286c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:06 +0000
Subject: [PATCH 27/68] fix: keep features in the declaration of their
 annotation

---
 src/document.rs | 13 +++++++++----
 src/element.rs  | 22 ++++++++++++++++++++--
 src/select.rs   |  3 ++-
 3 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 829c86a..5e0850b 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -852,11 +852,16 @@ impl Store<ElementData,ElementKey> for Document {
                         //get the declaration key from the parent context:
                         let parent = self.get_elementdata(parent_key).ok_or( FoliaError::InternalError("Context for feature does not exist!".to_string()))?;
 
-                        let annotationtype = parent.elementtype.annotationtype().expect(format!("Unwrapping annotation type of parent {}", element.elementtype).as_str() );
-                        let deckey = self.declare(annotationtype, &element.set().unwrap().map(|s| s.to_string()),  &None, &None)?;
-                        declaration_key  = Some(deckey);
+                        let set = element.set()?.map(|s| s.to_string());
+                        declaration_key = match (set, parent.declaration_key()?, parent.elementtype.annotationtype()) {
+                            //a feature is part of the declaration of its parent
+                            (None, Some(deckey), _) => Some(deckey),
+                            (set, _, Some(annotationtype)) => Some(self.declare(annotationtype, &set,  &None, &None)?),
+                            //parent can not be declared
+                            (_, _, None) => None,
+                        };
 
-                        if let Some(declaration) = self.get_mut_declaration(deckey) {
+                        if let Some(declaration) = match declaration_key { Some(deckey) => self.get_mut_declaration(deckey), None => None } {
                             if let Ok(Some(class)) = element.class() {
                                 if let Ok(clskey) = declaration.add_subclass(Cow::Borrowed(class)) {
                                     class_key = Some(clskey);
diff --git a/src/element.rs b/src/element.rs
index 5a28f83..3657a47 100644
--- a/src/element.rs
+++ b/src/element.rs
@@ -560,8 +560,8 @@ impl<'a> Element<'a> {
                     &Query::select()
                            .element(Cmp::Is(ElementType::Feature))
                            .contexttype(Cmp::Is(self.elementtype()))
-                           .set(match self.set() {
-                               Some(set) => Cmp::Is(set.to_string()),
+                           .set(match self.get_feature_declaration().and_then(|declaration| declaration.set.clone()) {
+                               Some(set) => Cmp::Is(set),
                                None => Cmp::None,
                             })
                            .subset(subset)
@@ -570,6 +570,24 @@ impl<'a> Element<'a> {
     }
 
 
+    ///Get the declaration that the features of this element are encoded in; this is the one of
+    ///the element itself, if it has any
+    fn get_feature_declaration(&self) -> Option<&Declaration> {
+        if self.declaration_key().is_some() {
+            return self.get_declaration();
+        }
+        let doc = self.document()?;
+        self.elementdata().data.iter().filter_map(|item| {
+            if let DataType::Element(key) = item {
+                doc.get_elementdata(*key)
+            } else {
+                None
+            }
+        }).filter(|child| child.elementtype == ElementType::Feature).find_map(|child| {
+            child.declaration_key().ok().flatten().and_then(|key| doc.get_declaration(key))
+        })
+    }
+
     ///High-level function to get a particular feature by annotation type and set, returns an
     ///single element (the first feature).
     pub fn get_feature(&self, subset: Cmp<String>) -> Option<Element> {
diff --git a/src/select.rs b/src/select.rs
index ba27f93..4629d69 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -92,7 +92,7 @@ impl Selector {
                             result = Cmp::Is(subset_key);
                         }
                     }
-                } else {
+                } else if selector.set != Cmp::Unmatchable {
                     return Err(FoliaError::QueryError(format!("Selector::from_query() can't match on a subset without a contexttype and a set, Add a .contextype() and .set() call. (selector.contexttype={:?}, selector.set={:?})",selector.contexttype, selector.set) ));
                 }
                 result
@@ -209,6 +209,7 @@ impl Selector {
     pub fn matchable(&self) -> bool {
         (self.set != Cmp::Unmatchable &&
         self.class != Cmp::Unmatchable &&
+        self.subset != Cmp::Unmatchable &&
         self.processor != Cmp::Unmatchable) ||
         self.next.as_ref().map_or(false, |next| next.matchable())
     }
-- 
2.43.0


From 0da081c4f75321ec04e5c42ab2efe29f23d9f262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:29 +0000
Subject: [PATCH 28/68] fix: elements without shared ancestors have no common
 ancestors

---
 src/select.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index 4629d69..1f2308b 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -712,17 +712,16 @@ impl Document {
     }
 
     pub fn common_ancestors(&self, selector: Selector, elements: &[ElementKey]) -> Vec<ElementKey> {
-        let mut result: Vec<ElementKey> = Vec::new();
+        let mut result: Option<Vec<ElementKey>> = None;
         for sibling_key in elements {
             if let Some(sibling) = self.get_element(*sibling_key) {
                 let ancestors: Vec<ElementKey> = sibling.ancestors(selector.clone()).map(|e| e.key().expect("get key")).collect();
-                if result.is_empty() {
-                    result = ancestors.into_iter().collect();
-                } else {
-                    result = result.into_iter().filter(|a| ancestors.contains(a)).collect();
-                }
+                result = match result {
+                    None => Some(ancestors),
+                    Some(result) => Some(result.into_iter().filter(|a| ancestors.contains(a)).collect()),
+                };
             }
         }
-        result
+        result.unwrap_or_default()
     }
 }
-- 
2.43.0


From 69cf09f702a97ec3cb629462a0c30d1ee20667ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:31 +0000
Subject: [PATCH 29/68] fix: reuse the layer of the common ancestor when
 annotating spans

---
 src/document.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.rs b/src/document.rs
index 5e0850b..61171f2 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -570,7 +570,7 @@ impl Document {
                             suitable = props.accepted_data.contains(&AcceptedData::AcceptElementGroup(ElementGroup::Layer)) || props.accepted_data.contains(&AcceptedData::AcceptElementType(layertype));
                         };
                         if suitable {
-                            let mut layer_key: Option<ElementKey> = self.get_layer_key(parent_key, element.elementtype.annotationtype().expect("annotation type"), set.as_ref().map(|s| s.as_str()) )?;
+                            let mut layer_key: Option<ElementKey> = self.get_layer_key(*ancestor_key, element.elementtype.annotationtype().expect("annotation type"), set.as_ref().map(|s| s.as_str()) )?;
                             if layer_key.is_none() {
                                 //no layer found yet, add a new one
                                 let layerdata = match set {
-- 
2.43.0


From 6dc58b55f629b4b807e71a46dbd2f4eb5e9d77d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:03 +0000
Subject: [PATCH 30/68] fix: leave the document as it was when an element can
 not be added

---
 src/document.rs | 80 ++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 79 insertions(+), 1 deletion(-)

diff --git a/src/document.rs b/src/document.rs
index 61171f2..6c68f47 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -7,7 +7,7 @@ use std::str;
 use std::str::FromStr;
 use std::borrow::Cow;
 use std::string::ToString;
-use std::collections::HashMap;
+use std::collections::{HashMap,HashSet};
 
 use quick_xml::{Reader,Writer};
 use quick_xml::events::{Event,BytesStart,BytesEnd,BytesText};
@@ -172,6 +172,7 @@ impl Document {
     ///Add an element to the document (but the element will be an orphan unless it is the very
     ///first one, you may want to use ``add_element_to`` or ``annotate`` instead)
     pub fn add_element(&mut self, element: ElementData) -> Result<ElementKey, FoliaError> {
+        self.check_element_valid(None, &element)?;
         let key = self.add_with_children(None, element)?;
         if key != 0 {
             self.elementstore.orphans.insert(key, DataType::Element(key));
@@ -199,6 +200,7 @@ impl Document {
     ///takes care of adding and attaching for you. You may want to use ``annotate`` instead
     ///as that is an even higher-level function.
     pub fn add_element_to(&mut self, parent_key: ElementKey, element: ElementData) -> Result<ElementKey, FoliaError> {
+        self.check_element_valid(Some(parent_key), &element)?;
         match self.add_with_children(Some(parent_key), element) {
             Ok(child_key) => {
                 Ok(child_key)
@@ -526,6 +528,7 @@ impl Document {
         let parent = self.get_element(parent_key).ok_or(
             FoliaError::InternalError(format!("Specified element key not found: {:?}", parent_key))
         )?;
+        self.check_element_valid(Some(parent_key), &element)?;
         if ElementGroup::Span.contains(element.elementtype) {
             let mut addspanfromspanned = false;
             let mut addspanfromstructure = false;
@@ -761,6 +764,81 @@ impl Document {
 
     //************** Validation methods ****************
     //
+
+    ///Checks whether an element, and everything in it, can be added to the given parent (or as an
+    ///orphan). This is done prior to adding anything, so the document is left alone if it can not.
+    ///Does not check against the specification, see ``check_element_addable()`` for that.
+    pub(crate) fn check_element_valid(&self, parent_key: Option<ElementKey>, element: &ElementData) -> Result<(), FoliaError> {
+        let mut in_span = false;
+        if let Some(parent_key) = parent_key {
+            let parent = self.get_elementdata(parent_key).ok_or(
+                FoliaError::InternalError(format!("Specified parent element key not found"))
+            )?;
+            let selector = Selector::elements().elementgroup(Cmp::Is(ElementGroup::Span));
+            in_span = ElementGroup::Span.contains(parent.elementtype) || self.ancestors_by_key(parent_key, selector).next().is_some();
+        }
+        let mut ids: HashSet<&str> = HashSet::new();
+        let mut keys: HashSet<ElementKey> = HashSet::new();
+        self.check_subelement_valid(parent_key, element, in_span, parent_key.is_some(), &mut ids, &mut keys)
+    }
+
+    fn check_subelement_valid<'a>(&self, parent_key: Option<ElementKey>, element: &'a ElementData, in_span: bool, has_parent: bool, ids: &mut HashSet<&'a str>, keys: &mut HashSet<ElementKey>) -> Result<(), FoliaError> {
+        if let Some(id) = element.id() {
+            if self.get_element_key_by_id(id).is_some() || !ids.insert(id) {
+                return Err(FoliaError::ValidationError(format!("Duplicate ID: {}", id)));
+            }
+        }
+        for attrib in element.attribs.iter() {
+            let valid = match attrib {
+                Attribute::DeclarationRef(key) => !element.encodable() && self.get_declaration(*key).is_some(),
+                Attribute::ProcessorRef(key) => !element.encodable() && self.get_processor(*key).is_some(),
+                Attribute::ClassRef(_) | Attribute::SubsetRef(_) => !element.encodable(),
+                _ => true
+            };
+            if !valid {
+                return Err(FoliaError::EncodeError(format!("Invalid encoded attribute: {}", attrib.attribtype())));
+            }
+        }
+        if element.elementtype == ElementType::Feature && !has_parent && element.encodable() {
+            return Err(FoliaError::InternalError("No context provided for feature".to_string()));
+        }
+        if element.elementtype == ElementType::WordReference && has_parent {
+            if !in_span {
+                return Err(FoliaError::ValidationError("Wref span parent not found!".to_string()));
+            }
+            match element.idref() {
+                Some(idref) => if self.get_element_key_by_id(idref).is_none() && !ids.contains(idref) {
+                    return Err(FoliaError::ValidationError(format!("Wref refers to an element that does not exist! (idref={})", idref)));
+                },
+                None => return Err(FoliaError::ValidationError("Wref element does not reference anything!".to_string())),
+            }
+        }
+        let in_span = in_span || ElementGroup::Span.contains(element.elementtype);
+        for child in element.data.iter() {
+            match child {
+                DataType::AddElement(child) => {
+                    self.check_subelement_valid(parent_key, child, in_span, true, ids, keys)?;
+                },
+                DataType::Element(child_key) => {
+                    //existing elements are moved, that should not make them their own ancestor
+                    if self.get_elementdata(*child_key).is_none() {
+                        return Err(FoliaError::InternalError(format!("Child does not exist: {}", child_key)));
+                    }
+                    if !keys.insert(*child_key) {
+                        return Err(FoliaError::ValidationError(format!("Child is added multiple times: {}", child_key)));
+                    }
+                    if let Some(parent_key) = parent_key {
+                        if *child_key == parent_key || self.ancestors_by_key(parent_key, Selector::elements()).any(|e| e.key() == Some(*child_key)) {
+                            return Err(FoliaError::ValidationError(format!("Unable to attach element {}, it would become its own ancestor", child_key)));
+                        }
+                    }
+                },
+                _ => {}
+            }
+        }
+        Ok(())
+    }
+
     pub fn check_element_addable(&self, parent_key: ElementKey, element: &ElementData) -> Result<(), FoliaError> {
         let parent = self.get_element(parent_key).ok_or(
             FoliaError::InternalError(format!("Specified parent element key not found"))
-- 
2.43.0


From 69c4416add00f5401d2d9cce3c4cd64a57ab614a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:43 +0000
Subject: [PATCH 31/68] fix: find the words of a span annotation in its span
 roles as well

---
 src/document.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/document.rs b/src/document.rs
index 6c68f47..9ef1790 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -743,6 +743,9 @@ impl Document {
                             span_keys.push(k);
                         }
                     }
+                } else {
+                    //references may be in span roles
+                    span_keys.extend(self.get_span_keys(ed));
                 }
             }
         }
-- 
2.43.0


From 86da58247f275eea3bb6a7ca2b02611757c91a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:46 +0000
Subject: [PATCH 32/68] fix: take text from the requested text class only

---
 src/text.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/text.rs b/src/text.rs
index 150e25d..434533e 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -122,7 +122,7 @@ impl<'a> Element<'a> {
                                    }
                                }
                             }
-                        } else if element.elementtype() == ElementType::TextContent {
+                        } else if element.elementtype() == ElementType::TextContent && element.has_textclass(set, textclass) {
                             textcontent_element = Some(element);
                         }
                     }
@@ -146,6 +146,18 @@ impl<'a> Element<'a> {
         }
     }
 
+    ///Is this text content of the specified set and text class? Text content without an explicit
+    ///class is of the default class.
+    fn has_textclass(&self, set: DecKey, textclass: ClassKey) -> bool {
+        let class = match self.class_key() {
+            Some(class_key) if self.declaration_key() == Some(set) => return class_key == textclass,
+            Some(_) => self.class(),
+            None => Some("current"),
+        };
+        (self.set().is_none() || self.declaration_key() == Some(set)) &&
+        class == self.document().and_then(|doc| doc.get_declaration(set)).and_then(|declaration| declaration.get_class(textclass))
+    }
+
     ///Returns the text delimiter for this element
     pub fn get_textdelimiter(&self, retaintokenisation: bool) -> Result<Cow<str>,FoliaError> {
         let doc = self.document().ok_or(FoliaError::KeyError("Element has no associated document".to_string()))?;
-- 
2.43.0


From 7319f7f8e2945031591724923a1136056358502d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:38 +0000
Subject: [PATCH 33/68] fix: include corrections in the text

---
 src/text.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/text.rs b/src/text.rs
index 434533e..fc691af 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -102,6 +102,7 @@ impl<'a> Element<'a> {
                     if let Some(element) = doc.get_element(*element_key) {
                         if ElementGroup::Structure.contains(element.elementtype()) ||
                            element.elementtype() == ElementType::Correction ||
+                           element.elementtype() == ElementType::New || element.elementtype() == ElementType::Current ||
                            ElementGroup::Span.contains(element.elementtype()) {
 
                            if let Ok(textpart) = element.text_by_key(set,textclass,false, retaintokenisation, Some(delimiter.clone())) {
-- 
2.43.0


From 5c7470024b68982ed9787c06265ed10502ef3856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:40 +0000
Subject: [PATCH 34/68] fix: fall back to the default text set and class

---
 src/text.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index fc691af..a7006c7 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -208,11 +208,13 @@ impl<'a> Element<'a> {
     ///fallback to the default text set and "current class".
     pub fn text(&self, textparameters: &TextParameters) -> Result<String,FoliaError> {
         let doc = self.document().ok_or(FoliaError::KeyError("Element has no associated document".to_string()))?;
-        if let Some(dec_key) = doc.get_declaration_key_by_id(Declaration::index_id(AnnotationType::TEXT, &textparameters.set.as_ref().map(|s| s.as_str())).as_str()) {
-            let class_key = doc.class_key(dec_key, &textparameters.textclass.as_ref().map(|s| s.as_str()).expect("unwrapping textclass")  )?;
+        let set: &str = textparameters.set.as_ref().map(|s| s.as_str()).unwrap_or(DEFAULT_TEXT_SET);
+        let textclass: &str = textparameters.textclass.as_ref().map(|s| s.as_str()).unwrap_or("current");
+        if let Some(dec_key) = doc.get_declaration_key_by_id(Declaration::index_id(AnnotationType::TEXT, &Some(set)).as_str()) {
+            let class_key = doc.class_key(dec_key, textclass)?;
             self.text_by_key(dec_key, class_key,textparameters.strict,textparameters.retaintokenisation, None)
         } else {
-            Err(FoliaError::EncodeError(format!("No declaration for the specified text set ({})", textparameters.set.as_ref().map(|s| s.as_str()).expect("unwrapping set"))))
+            Err(FoliaError::EncodeError(format!("No declaration for the specified text set ({})", set)))
         }
     }
 }
-- 
2.43.0


From 4de527cb2f743e3cc64f3c02626faa311a035f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:44 +0000
Subject: [PATCH 35/68] fix: unbounded recursion in text extraction

---
 src/text.rs | 65 ++++++++++++++++++++++++++++++++---------------------
 1 file changed, 39 insertions(+), 26 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index a7006c7..9fda068 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -56,10 +56,29 @@ impl TextParameters {
 
 
 
+///The maximum depth of nested elements from which text is extracted
+const MAX_TEXT_DEPTH: usize = 256;
+
 impl<'a> Element<'a> {
 
     ///Returns the text content of a given element
     pub fn text_by_key(&self, set: DecKey, textclass: ClassKey, strict: bool, retaintokenisation: bool, previousdelimiter: Option<String>) -> Result<String,FoliaError> {
+        self.collect_text(set, textclass, strict, retaintokenisation, previousdelimiter, &mut Vec::new())
+    }
+
+    ///Implements ``text_by_key()``, ``path`` holds the elements that are being processed
+    fn collect_text(&self, set: DecKey, textclass: ClassKey, strict: bool, retaintokenisation: bool, previousdelimiter: Option<String>, path: &mut Vec<ElementKey>) -> Result<String,FoliaError> {
+        //guard against references that lead back to where we came from and against excessive nesting
+        if path.len() >= MAX_TEXT_DEPTH {
+            return Err(FoliaError::NoTextError("Elements are nested too deeply".to_string()));
+        }
+        path.push(self.key().ok_or(FoliaError::KeyError("Element has no key".to_string()))?);
+        let result = self.collect_text_inner(set, textclass, strict, retaintokenisation, previousdelimiter, path);
+        path.pop();
+        result
+    }
+
+    fn collect_text_inner(&self, set: DecKey, textclass: ClassKey, strict: bool, retaintokenisation: bool, previousdelimiter: Option<String>, path: &mut Vec<ElementKey>) -> Result<String,FoliaError> {
         let doc = self.document().ok_or(FoliaError::KeyError("Element has no associated document".to_string()))?;
 
         let properties = doc.props(self.elementtype());
@@ -81,7 +100,7 @@ impl<'a> Element<'a> {
                                         text += textdelimiter;
                                     }
                                 }
-                                let textpart = element.text_by_key(set,textclass,strict, retaintokenisation,None)?;
+                                let textpart = element.collect_text(set,textclass,strict, retaintokenisation,None,path)?;
                                 text += &textpart;
                             }
                         }
@@ -105,7 +124,7 @@ impl<'a> Element<'a> {
                            element.elementtype() == ElementType::New || element.elementtype() == ElementType::Current ||
                            ElementGroup::Span.contains(element.elementtype()) {
 
-                           if let Ok(textpart) = element.text_by_key(set,textclass,false, retaintokenisation, Some(delimiter.clone())) {
+                           if let Ok(textpart) = element.collect_text(set,textclass,false, retaintokenisation, Some(delimiter.clone()), path) {
                                //delimiter will be buffered and only printed upon next iteration
                                text += &textpart;
                                if let Ok(s) = element.get_textdelimiter(retaintokenisation) {
@@ -114,8 +133,8 @@ impl<'a> Element<'a> {
                            }
                         } else if element.elementtype() == ElementType::WordReference {
                             //follow the reference
-                            if let Some(element) = element.resolve() {
-                               if let Ok(textpart) = element.text_by_key(set,textclass,false, retaintokenisation, Some(delimiter.clone())) {
+                            if let Some(element) = element.resolve().filter(|element| !element.key().map_or(false, |key| path.contains(&key))) {
+                               if let Ok(textpart) = element.collect_text(set,textclass,false, retaintokenisation, Some(delimiter.clone()), path) {
                                    //delimiter will be buffered and only printed upon next iteration
                                    text += &textpart;
                                    if let Ok(s) = element.get_textdelimiter(retaintokenisation) {
@@ -130,7 +149,7 @@ impl<'a> Element<'a> {
                 }
             }
             if text.is_empty() && textcontent_element.is_some() {
-                if let Ok(parttext) = textcontent_element.unwrap().text_by_key(set,textclass,false,retaintokenisation, None) {
+                if let Ok(parttext) = textcontent_element.unwrap().collect_text(set,textclass,false,retaintokenisation, None, path) {
                     text = parttext
                 }
             }
@@ -162,30 +181,24 @@ impl<'a> Element<'a> {
     ///Returns the text delimiter for this element
     pub fn get_textdelimiter(&self, retaintokenisation: bool) -> Result<Cow<str>,FoliaError> {
         let doc = self.document().ok_or(FoliaError::KeyError("Element has no associated document".to_string()))?;
-        let properties =  doc.props(self.elementtype());
-        if properties.textdelimiter.is_none() {
-            //no text delimiter of itself, recurse into children to inherit delimiter
-            for item in self.elementdata().data.iter().rev() {
+        let mut element = self.elementdata();
+        while doc.props(element.elementtype).textdelimiter.is_none() {
+            //no text delimiter of itself, descend into children to inherit delimiter
+            let child = element.data.iter().rev().find_map(|item| {
                 if let DataType::Element(element_key) = item {
-                    if let Some(element) = doc.get_element(*element_key) {
-                        //recurse
-                        match element.get_textdelimiter(retaintokenisation) {
-                            Ok(Cow::Borrowed(s)) => {
-                                return Ok(Cow::Owned(s.to_owned()));
-                            },
-                            Ok(Cow::Owned(s)) => {
-                                return Ok(Cow::Owned(s));
-                            },
-                            Err(e) => {
-                                return Err(e);
-                            }
-                        }
-                    }
+                    doc.get_elementdata(*element_key)
+                } else {
+                    None
                 }
+            });
+            match child {
+                Some(child) => element = child,
+                None => return Ok(Cow::Borrowed("")),
             }
-            Ok(Cow::Borrowed(""))
-        } else if properties.optional_attribs.contains(&AttribType::SPACE) {
-            let space: bool = retaintokenisation || match self.attrib(AttribType::SPACE) {
+        }
+        let properties = doc.props(element.elementtype);
+        if properties.optional_attribs.contains(&AttribType::SPACE) {
+            let space: bool = retaintokenisation || match element.attrib(AttribType::SPACE) {
                 Some(Attribute::Space(space)) => {
                     *space
                 },
-- 
2.43.0


From fec26e3293799aed7e09d329bdebf8b1d7eff8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:15 +0000
Subject: [PATCH 36/68] fix: undefined behaviour and underflow in benchmark
 measurements

---
 src/bin/foliabenchmarkr.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bin/foliabenchmarkr.rs b/src/bin/foliabenchmarkr.rs
index 48d3136..605b8d8 100644
--- a/src/bin/foliabenchmarkr.rs
+++ b/src/bin/foliabenchmarkr.rs
@@ -15,14 +15,15 @@ pub struct Rusage(libc::rusage);
 pub type Errno = os::raw::c_int;
 
 fn get_resource_usage(who: os::raw::c_int) -> Result<libc::rusage, Errno> {
-    let mut data = unsafe { mem::MaybeUninit::uninit().assume_init() };
+    let mut data = mem::MaybeUninit::<libc::rusage>::uninit();
 
-    let result = unsafe { libc::getrusage(who, &mut data) };
+    let result = unsafe { libc::getrusage(who, data.as_mut_ptr()) };
 
     if result == -1 {
         Err(unsafe { *libc::__errno_location() })
     } else {
-        Ok(data)
+        //getrusage succeeded and has initialised the structure
+        Ok(unsafe { data.assume_init() })
     }
 }
 
@@ -73,8 +74,7 @@ impl Measurement {
     fn end(&mut self, test_id: &str, filename: &str, title: &str) {
         self.duration = self.begintime.elapsed().ok();
         self.endmem = get_resident().expect("unwrapping memory");
-        let mem = self.endmem - self.beginmem;
-        let mem: f64 = (mem as f64) / 1024.0 / 1024.0;
+        let mem: f64 = (self.endmem as f64 - self.beginmem as f64) / 1024.0 / 1024.0; //may be negative if memory was released
         let rusage = Rusage::new().expect("Rusage");
         let endpeak = rusage.peakrss();
         let peakmem = endpeak - self.beginpeak;
-- 
2.43.0


From d2cbb6e1cb3974606a9b580013e7064b72bdc3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:18 +0000
Subject: [PATCH 37/68] fix: character data split by CDATA sections, and
 unusual blanks, lost on parsing

---
 src/parser.rs | 49 +++++++++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 099bc0a..b3f9b56 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -377,8 +377,15 @@ impl Document {
     pub(crate) fn parse_elements<R: BufRead>(&mut self, reader: &mut Reader<R>, mut buf: &mut Vec<u8>, mut nsbuf: &mut Vec<u8>) -> Result<(), FoliaError> {
         if !self.elementstore.items.is_empty() {
             let mut stack: Vec<ElementKey> = vec![0]; //0 is the root/body element, we always start with it
+            let mut text = String::new(); //collects consecutive character data
             loop {
                 let e = reader.read_namespaced_event(&mut buf, &mut nsbuf)?;
+                match e {
+                    (_, Event::Start(_)) | (_, Event::Empty(_)) | (_, Event::End(_)) | (_, Event::Comment(_)) => {
+                        self.add_text(&stack, &mut text);
+                    },
+                    _ => {}
+                }
                 match e {
                     (Some(ns), Event::Empty(ref e)) if ns == NSFOLIA => {
                         //EMPTY TAG FOUND (<tag/>)
@@ -445,33 +452,17 @@ impl Document {
                         }
                     },
                     (None, Event::Text(s)) => {
-                        let text = s.unescape_and_decode(reader)?;
-                        if text.trim() != "" || (!text.is_empty() && stack.last().map_or(false, |key| self.is_textcontainer(*key))) {
-                            if let Some(parent_key) = stack.last() {
-                                self.get_mut_elementdata(*parent_key).map( |parent| {
-                                    parent.push(DataType::Text(text));
-                                });
-                            }
-                        }
+                        text.push_str(&s.unescape_and_decode(reader)?);
                     },
                     (None, Event::CData(s)) => {
-                        let text = reader.decode(&s)?;
-                        if text.trim() != "" || (!text.is_empty() && stack.last().map_or(false, |key| self.is_textcontainer(*key))) {
-                            if let Some(parent_key) = stack.last() {
-                                self.get_mut_elementdata(*parent_key).map( |parent| {
-                                    parent.push(DataType::Text(text.to_string()));
-                                });
-                            }
-                        }
+                        text.push_str(&reader.decode(&s)?);
                     },
                     (None, Event::Comment(s)) => {
                         let comment = reader.decode(&s)?;
-                        if comment.trim() != "" {
-                            if let Some(parent_key) = stack.last() {
-                                self.get_mut_elementdata(*parent_key).map( |parent| {
-                                    parent.push(DataType::Comment(comment.to_string()));
-                                });
-                            }
+                        if let Some(parent_key) = stack.last() {
+                            self.get_mut_elementdata(*parent_key).map( |parent| {
+                                parent.push(DataType::Comment(comment.to_string()));
+                            });
                         }
                     },
                     (_, Event::Eof) => {
@@ -488,6 +479,20 @@ impl Document {
 }
 
 impl Document {
+    ///Adds the collected character data to the current element. Text consisting of only white
+    ///space is layout, except in text and phonetic containers.
+    fn add_text(&mut self, stack: &Vec<ElementKey>, text: &mut String) {
+        let text = std::mem::replace(text, String::new());
+        if let Some(parent_key) = stack.last() {
+            let blank = text.chars().all(|c| c == ' ' || c == '\t' || c == '\r' || c == '\n');
+            if !blank || (!text.is_empty() && self.is_textcontainer(*parent_key)) {
+                self.get_mut_elementdata(*parent_key).map( |parent| {
+                    parent.push(DataType::Text(text));
+                });
+            }
+        }
+    }
+
     ///Is the element a text or phonetic container? White space is significant there
     pub(crate) fn is_textcontainer(&self, element_key: ElementKey) -> bool {
         if let Some(element) = self.get_elementdata(element_key) {
-- 
2.43.0


From 5838b6aff313083557312f8817096aa01832fa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:33 +0000
Subject: [PATCH 38/68] fix: line endings and white space in attributes not
 normalised on parsing

---
 src/attrib.rs |  3 ++-
 src/parser.rs | 54 ++++++++++++++++++++++++++++++++++++---------------
 2 files changed, 40 insertions(+), 17 deletions(-)

diff --git a/src/attrib.rs b/src/attrib.rs
index 5210045..0ffc6e6 100644
--- a/src/attrib.rs
+++ b/src/attrib.rs
@@ -10,6 +10,7 @@ use quick_xml::Reader;
 use quick_xml::events::Event;
 use chrono::NaiveDateTime;
 
+use crate::parser::decode_attribute;
 use crate::error::*;
 use crate::common::*;
 use crate::types::*;
@@ -247,7 +248,7 @@ impl Attribute {
 
     ///Parse an XML attribute into a FoLiA Attribute
     pub fn parse<R: BufRead>(reader: &Reader<R>, attrib: &quick_xml::events::attributes::Attribute) -> Result<Attribute,FoliaError> {
-        if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
+        if let Ok(value) = decode_attribute(reader, attrib) {
             match attrib.key {
                 b"xml:id" => {
                     Ok(Attribute::Id(value))
diff --git a/src/parser.rs b/src/parser.rs
index b3f9b56..a566a4d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -3,13 +3,13 @@ use std::io::BufRead;
 use std::io::BufReader;
 use std::str;
 use std::str::FromStr;
-use std::borrow::ToOwned;
+use std::borrow::{Cow,ToOwned};
 use std::string::ToString;
 use std::fmt::Display;
 use std::collections::HashMap;
 
 use quick_xml::Reader;
-use quick_xml::events::Event;
+use quick_xml::events::{Event,BytesText};
 use chrono::NaiveDateTime;
 
 use crate::common::*;
@@ -62,10 +62,10 @@ impl Document {
                                 let attrib: quick_xml::events::attributes::Attribute = attrib?;
                                 match attrib.key {
                                     b"xml:id" => {
-                                        doc.id = attrib.unescape_and_decode_value(&reader)?
+                                        doc.id = decode_attribute(&reader, &attrib)?
                                     }
                                     b"version" => {
-                                        doc.version = attrib.unescape_and_decode_value(&reader)?
+                                        doc.version = decode_attribute(&reader, &attrib)?
                                     },
                                     b"generator" | b"form " => {},  //we can ignore these
                                     _ => {}
@@ -106,7 +106,7 @@ impl Document {
                         (Some(ns), b"metadata") if ns == NSFOLIA => {
                             for attrib in e.attributes() {
                                 let attrib = attrib?;
-                                if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
+                                if let Ok(value) = decode_attribute(&reader, &attrib) {
                                     match attrib.key {
                                         b"src" => {
                                             doc.metadata.src = Some(value);
@@ -132,7 +132,7 @@ impl Document {
                             submetadata_type = None;
                             for attrib in e.attributes() {
                                 let attrib = attrib?;
-                                if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
+                                if let Ok(value) = decode_attribute(&reader, &attrib) {
                                     match attrib.key {
                                         b"xml:id" => {
                                             submetadata = Some(value.clone());
@@ -162,7 +162,7 @@ impl Document {
                             meta_id = None;
                             for attrib in e.attributes() {
                                 let attrib = attrib?;
-                                if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
+                                if let Ok(value) = decode_attribute(&reader, &attrib) {
                                     match attrib.key {
                                         b"id" | b"xml:id" => {
                                             meta_id = Some(value.clone());
@@ -193,7 +193,7 @@ impl Document {
                             let mut processor_id: Option<String> = None;
                             for attrib in e.attributes() {
                                 let attrib = attrib?;
-                                if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
+                                if let Ok(value) = decode_attribute(&reader, &attrib) {
                                     match attrib.key {
                                         b"processor" => {
                                             processor_id = Some(value.clone());
@@ -234,12 +234,12 @@ impl Document {
                 },
                 (None, Event::Text(s)) => {
                     if let Some(text) = text.as_mut() {
-                        text.push_str(&s.unescape_and_decode(reader)?);
+                        text.push_str(&decode_text(reader, &s)?);
                     }
                 },
                 (None, Event::CData(s)) => {
                     if let Some(text) = text.as_mut() {
-                        text.push_str(&reader.decode(&s)?);
+                        text.push_str(&normalise_newlines(reader.decode(&s)?));
                     }
                 },
                 (ref ns, Event::End(ref e)) => {
@@ -452,13 +452,13 @@ impl Document {
                         }
                     },
                     (None, Event::Text(s)) => {
-                        text.push_str(&s.unescape_and_decode(reader)?);
+                        text.push_str(&decode_text(reader, &s)?);
                     },
                     (None, Event::CData(s)) => {
-                        text.push_str(&reader.decode(&s)?);
+                        text.push_str(&normalise_newlines(reader.decode(&s)?));
                     },
                     (None, Event::Comment(s)) => {
-                        let comment = reader.decode(&s)?;
+                        let comment = normalise_newlines(reader.decode(&s)?);
                         if let Some(parent_key) = stack.last() {
                             self.get_mut_elementdata(*parent_key).map( |parent| {
                                 parent.push(DataType::Comment(comment.to_string()));
@@ -504,6 +504,28 @@ impl Document {
     }
 }
 
+///All line endings are translated to a single line feed, as prescribed by XML
+fn normalise_newlines(text: &str) -> Cow<str> {
+    if text.contains('\r') {
+        Cow::Owned(text.replace("\r\n", "\n").replace('\r', "\n"))
+    } else {
+        Cow::Borrowed(text)
+    }
+}
+
+///Decodes the value of an attribute, white space that is not escaped translates to spaces, as prescribed by XML
+pub(crate) fn decode_attribute<R: BufRead>(reader: &Reader<R>, attrib: &quick_xml::events::attributes::Attribute) -> Result<String, FoliaError> {
+    let value = normalise_newlines(reader.decode(&attrib.value)?).replace(|c| c == '\n' || c == '\t', " ");
+    let attrib = quick_xml::events::attributes::Attribute { key: attrib.key, value: Cow::Borrowed(value.as_bytes()) };
+    Ok(attrib.unescape_and_decode_value(reader)?)
+}
+
+///Decodes text
+fn decode_text<R: BufRead>(reader: &Reader<R>, text: &BytesText) -> Result<String, FoliaError> {
+    let text = normalise_newlines(reader.decode(text.escaped())?);
+    Ok(BytesText::from_escaped_str(text).unescape_and_decode(reader)?)
+}
+
 fn get_declaration_type(tag: &str) -> Result<AnnotationType, FoliaError> {
     if let Some(index) = tag.find("-") {
         let (declaration_type_string, suffix) = tag.split_at(index);
@@ -530,7 +552,7 @@ impl Processor {
         for attrib in event.attributes()  {
             {
                 let attrib = attrib?;
-                let value = attrib.unescape_and_decode_value(&reader)?;
+                let value = decode_attribute(&reader, &attrib)?;
                 match  attrib.key {
                     b"xml:id" => { processor.id = value; },
                     b"name" => { processor.name = value; },
@@ -586,7 +608,7 @@ impl ElementData {
                 Err(e) => {
                     //an attribute can be a shortcut for a subset and translate to a
                     //ElementType::Feature
-                    if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
+                    if let Ok(value) = decode_attribute(&reader, &attrib) {
                         let properties = Properties::new(elementtype);
                         let featuregroup = ElementGroup::Feature;
                         for accepteddata in properties.accepted_data.iter() {
@@ -633,7 +655,7 @@ impl Declaration {
         let mut format: Option<String> = None;
         for attrib in event.attributes() {
             let attrib = attrib?;
-            if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
+            if let Ok(value) = decode_attribute(&reader, &attrib) {
                 match attrib.key {
                     b"set" => {
                         set = Some(value.clone());
-- 
2.43.0


From 5ae46b26ee8f90e9a2792096a5e2dfd7a3a66a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:55 +0000
Subject: [PATCH 39/68] fix: undecodable attributes in the header silently
 ignored

---
 src/parser.rs | 117 ++++++++++++++++++++++++--------------------------
 1 file changed, 56 insertions(+), 61 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index a566a4d..2f6c685 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -106,17 +106,16 @@ impl Document {
                         (Some(ns), b"metadata") if ns == NSFOLIA => {
                             for attrib in e.attributes() {
                                 let attrib = attrib?;
-                                if let Ok(value) = decode_attribute(&reader, &attrib) {
-                                    match attrib.key {
-                                        b"src" => {
-                                            doc.metadata.src = Some(value);
-                                        },
-                                        b"type" => {
-                                            doc.metadata.metadatatype = Some(value);
-                                        },
-                                        otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute metadata/@{:?}",String::from_utf8_lossy(otherwise));
-                                        }
+                                let value = decode_attribute(&reader, &attrib)?;
+                                match attrib.key {
+                                    b"src" => {
+                                        doc.metadata.src = Some(value);
+                                    },
+                                    b"type" => {
+                                        doc.metadata.metadatatype = Some(value);
+                                    },
+                                    otherwise => {
+                                        eprintln!("WARNING: Unhandled attribute metadata/@{:?}",String::from_utf8_lossy(otherwise));
                                     }
                                 }
                             }
@@ -132,20 +131,19 @@ impl Document {
                             submetadata_type = None;
                             for attrib in e.attributes() {
                                 let attrib = attrib?;
-                                if let Ok(value) = decode_attribute(&reader, &attrib) {
-                                    match attrib.key {
-                                        b"xml:id" => {
-                                            submetadata = Some(value.clone());
-                                        },
-                                        b"type" => {
-                                            submetadata_type = Some(value.clone());
-                                        },
-                                        b"src" => {
-                                            submetadata_src = Some(value.clone());
-                                        },
-                                        otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute submetadata/@{:?}",String::from_utf8_lossy(otherwise));
-                                        }
+                                let value = decode_attribute(&reader, &attrib)?;
+                                match attrib.key {
+                                    b"xml:id" => {
+                                        submetadata = Some(value.clone());
+                                    },
+                                    b"type" => {
+                                        submetadata_type = Some(value.clone());
+                                    },
+                                    b"src" => {
+                                        submetadata_src = Some(value.clone());
+                                    },
+                                    otherwise => {
+                                        eprintln!("WARNING: Unhandled attribute submetadata/@{:?}",String::from_utf8_lossy(otherwise));
                                     }
                                 }
                             }
@@ -162,14 +160,13 @@ impl Document {
                             meta_id = None;
                             for attrib in e.attributes() {
                                 let attrib = attrib?;
-                                if let Ok(value) = decode_attribute(&reader, &attrib) {
-                                    match attrib.key {
-                                        b"id" | b"xml:id" => {
-                                            meta_id = Some(value.clone());
-                                        },
-                                        otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute meta/@{:?}",String::from_utf8_lossy(otherwise));
-                                        }
+                                let value = decode_attribute(&reader, &attrib)?;
+                                match attrib.key {
+                                    b"id" | b"xml:id" => {
+                                        meta_id = Some(value.clone());
+                                    },
+                                    otherwise => {
+                                        eprintln!("WARNING: Unhandled attribute meta/@{:?}",String::from_utf8_lossy(otherwise));
                                     }
                                 }
                             }
@@ -193,14 +190,13 @@ impl Document {
                             let mut processor_id: Option<String> = None;
                             for attrib in e.attributes() {
                                 let attrib = attrib?;
-                                if let Ok(value) = decode_attribute(&reader, &attrib) {
-                                    match attrib.key {
-                                        b"processor" => {
-                                            processor_id = Some(value.clone());
-                                        },
-                                        otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute annotator/@{:?}",String::from_utf8_lossy(otherwise));
-                                        }
+                                let value = decode_attribute(&reader, &attrib)?;
+                                match attrib.key {
+                                    b"processor" => {
+                                        processor_id = Some(value.clone());
+                                    },
+                                    otherwise => {
+                                        eprintln!("WARNING: Unhandled attribute annotator/@{:?}",String::from_utf8_lossy(otherwise));
                                     }
                                 }
                             }
@@ -655,26 +651,25 @@ impl Declaration {
         let mut format: Option<String> = None;
         for attrib in event.attributes() {
             let attrib = attrib?;
-            if let Ok(value) = decode_attribute(&reader, &attrib) {
-                match attrib.key {
-                    b"set" => {
-                        set = Some(value.clone());
-                    },
-                    b"alias" => {
-                        alias = Some(value.clone());
-                    },
-                    b"format" => {
-                        format = Some(value.clone());
-                    },
-                    b"annotator" => {
-                        //TODO: handle old-style default
-                    },
-                    b"annotatortype" => {
-                        //TODO: handle old-style default
-                    },
-                    otherwise => {
-                        eprintln!("WARNING: Unhandled attribute on declaration: @{:?}",String::from_utf8_lossy(otherwise));
-                    }
+            let value = decode_attribute(&reader, &attrib)?;
+            match attrib.key {
+                b"set" => {
+                    set = Some(value.clone());
+                },
+                b"alias" => {
+                    alias = Some(value.clone());
+                },
+                b"format" => {
+                    format = Some(value.clone());
+                },
+                b"annotator" => {
+                    //TODO: handle old-style default
+                },
+                b"annotatortype" => {
+                    //TODO: handle old-style default
+                },
+                otherwise => {
+                    eprintln!("WARNING: Unhandled attribute on declaration: @{:?}",String::from_utf8_lossy(otherwise));
                 }
             }
         }
-- 
2.43.0


From 3d717771eb976ee2d9a8033c0c5e4bd0243d6a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:16 +0000
Subject: [PATCH 40/68] fix: carriage returns, line breaks in attributes and
 control characters garbled by the serialiser

---
 src/serialiser.rs | 114 +++++++++++++++++++++++++++++-----------------
 1 file changed, 73 insertions(+), 41 deletions(-)

diff --git a/src/serialiser.rs b/src/serialiser.rs
index 14133fc..4da6acb 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -27,6 +27,38 @@ fn to_serialisation_error(err: quick_xml::Error) -> FoliaError {
     FoliaError::SerialisationError(format!("{}",err))
 }
 
+///Escapes a value so it survives parsing. Fails on characters that XML can not represent.
+fn escape(value: &str, attribute: bool) -> Result<String, FoliaError> {
+    let mut escaped = String::with_capacity(value.len());
+    for c in value.chars() {
+        match c {
+            '<' => escaped.push_str("&lt;"),
+            '>' => escaped.push_str("&gt;"),
+            '&' => escaped.push_str("&amp;"),
+            '\'' => escaped.push_str("&apos;"),
+            '"' => escaped.push_str("&quot;"),
+            '\r' => escaped.push_str("&#13;"),
+            '\n' if attribute => escaped.push_str("&#10;"),
+            '\t' if attribute => escaped.push_str("&#9;"),
+            '\n' | '\t' => escaped.push(c),
+            '\u{0}'..='\u{1F}' | '\u{FFFE}' | '\u{FFFF}' => {
+                return Err(FoliaError::SerialisationError(format!("Character can not be represented in XML: {:?}", c)));
+            },
+            _ => escaped.push(c),
+        }
+    }
+    Ok(escaped)
+}
+
+fn push_attribute(start: &mut BytesStart, key: &str, value: &str) -> Result<(), FoliaError> {
+    start.push_attribute((key.as_bytes(), escape(value, true)?.as_bytes()));
+    Ok(())
+}
+
+fn escape_text(text: &str) -> Result<BytesText<'static>, FoliaError> {
+    Ok(BytesText::from_escaped_str(escape(text, false)?))
+}
+
 ///Is white space significant at the current position?
 fn is_inline(stack: &Vec<(BytesEnd,ElementType,String,bool)>) -> bool {
     stack.last().map_or(false, |(_,_,_,inline)| *inline)
@@ -46,11 +78,11 @@ impl Document {
         };
 
         let mut doc_start = BytesStart::borrowed_name(b"FoLiA");
-        doc_start.push_attribute(("xmlns", str::from_utf8(NSFOLIA).unwrap() ));
-        doc_start.push_attribute(("xmlns:xlink", str::from_utf8(NSXLINK).unwrap() ));
-        doc_start.push_attribute(("xml:id",self.id.as_str()));
-        doc_start.push_attribute(("version",FOLIAVERSION ));
-        doc_start.push_attribute(("generator", GENERATOR ));
+        push_attribute(&mut doc_start, "xmlns", str::from_utf8(NSFOLIA).unwrap())?;
+        push_attribute(&mut doc_start, "xmlns:xlink", str::from_utf8(NSXLINK).unwrap())?;
+        push_attribute(&mut doc_start, "xml:id",self.id.as_str())?;
+        push_attribute(&mut doc_start, "version",FOLIAVERSION)?;
+        push_attribute(&mut doc_start, "generator", GENERATOR)?;
         writer.write_event(Event::Start(doc_start)).map_err(to_serialisation_error)?;
         writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
 
@@ -67,10 +99,10 @@ impl Document {
     fn xml_metadata(&self, writer: &mut Writer<Cursor<Vec<u8>>>) -> Result<(), FoliaError> {
         let mut metadata_start = BytesStart::borrowed_name(b"metadata");
         if let Some(metadatatype) = &self.metadata.metadatatype {
-            metadata_start.push_attribute(("type", metadatatype.as_str() ));
+            push_attribute(&mut metadata_start, "type", metadatatype.as_str())?;
         }
         if let Some(src) = &self.metadata.src {
-            metadata_start.push_attribute(("src", src.as_str() ));
+            push_attribute(&mut metadata_start, "src", src.as_str())?;
         }
         writer.write_event(Event::Start(metadata_start)).map_err(to_serialisation_error)?;
         writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
@@ -78,29 +110,29 @@ impl Document {
         self.xml_provenance(writer)?;
         for (meta_id, value) in self.metadata.data.iter() {
             let mut meta_start = BytesStart::borrowed_name(b"meta");
-            meta_start.push_attribute(("id", meta_id.as_str() ));
+            push_attribute(&mut meta_start, "id", meta_id.as_str())?;
             writer.write_event(Event::Start(meta_start)).map_err(to_serialisation_error)?;
-            writer.write_event(Event::Text(BytesText::from_plain_str(value))).map_err(to_serialisation_error)?;
+            writer.write_event(Event::Text(escape_text(value)?)).map_err(to_serialisation_error)?;
             writer.write_event(Event::End(BytesEnd::borrowed(b"meta"))).map_err(to_serialisation_error)?;
             writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
         }
         //there is a bit too much duplication going on here, to be solved later
         for (submetadata_id, submetadata) in self.submetadata.iter() {
             let mut submetadata_start = BytesStart::borrowed_name(b"submetadata");
-            submetadata_start.push_attribute(("xml:id", submetadata_id.as_str() ));
+            push_attribute(&mut submetadata_start, "xml:id", submetadata_id.as_str())?;
             if let Some(metadatatype) = &submetadata.metadatatype {
-                submetadata_start.push_attribute(("type", metadatatype.as_str() ));
+                push_attribute(&mut submetadata_start, "type", metadatatype.as_str())?;
             }
             if let Some(src) = &submetadata.src {
-                submetadata_start.push_attribute(("src", src.as_str() ));
+                push_attribute(&mut submetadata_start, "src", src.as_str())?;
             }
             writer.write_event(Event::Start(submetadata_start)).map_err(to_serialisation_error)?;
             writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
             for (meta_id, value) in submetadata.data.iter() {
                 let mut meta_start = BytesStart::borrowed_name(b"meta");
-                meta_start.push_attribute(("id", meta_id.as_str() ));
+                push_attribute(&mut meta_start, "id", meta_id.as_str())?;
                 writer.write_event(Event::Start(meta_start)).map_err(to_serialisation_error)?;
-                writer.write_event(Event::Text(BytesText::from_plain_str(value))).map_err(to_serialisation_error)?;
+                writer.write_event(Event::Text(escape_text(value)?)).map_err(to_serialisation_error)?;
                 writer.write_event(Event::End(BytesEnd::borrowed(b"meta"))).map_err(to_serialisation_error)?;
                 writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
             }
@@ -120,13 +152,13 @@ impl Document {
                 let tagname = format!("{}-annotation", declaration.annotationtype.as_str());
                 let mut dec_start = BytesStart::owned_name(tagname.as_bytes());
                 if let Some(set) = &declaration.set {
-                    dec_start.push_attribute(("set", set.as_str() ));
+                    push_attribute(&mut dec_start, "set", set.as_str())?;
                 }
                 if let Some(alias) = &declaration.alias {
-                    dec_start.push_attribute(("alias", alias.as_str() ));
+                    push_attribute(&mut dec_start, "alias", alias.as_str())?;
                 }
                 if let Some(format) = &declaration.format {
-                    dec_start.push_attribute(("format", format.as_str() ));
+                    push_attribute(&mut dec_start, "format", format.as_str())?;
                 }
                 let dec_end = BytesEnd::owned(tagname.as_bytes().to_vec());
                 if declaration.processors.is_empty() {
@@ -136,7 +168,7 @@ impl Document {
                     for proc_key in declaration.processors.iter() {
                         if let Some(processor) = self.get_processor(*proc_key) {
                             let mut ann_start = BytesStart::borrowed_name(b"annotator");
-                            ann_start.push_attribute(("processor", processor.id.as_str() ));
+                            push_attribute(&mut ann_start, "processor", processor.id.as_str())?;
                             writer.write_event(Event::Empty(ann_start)).map_err(to_serialisation_error)?;
                         } else {
                             return Err(FoliaError::InternalError(format!("Unable to resolve referenced processor during serialisation")));
@@ -166,41 +198,41 @@ impl Document {
     fn xml_processor(&self, writer: &mut Writer<Cursor<Vec<u8>>>, processor_key: ProcKey) -> Result<(),FoliaError> {
         if let Some(processor) = self.get_processor(processor_key) {
             let mut processor_start = BytesStart::borrowed_name(b"processor");
-            processor_start.push_attribute(("xml:id", processor.id.as_str() ));
-            processor_start.push_attribute(("name", processor.name.as_str() ));
-            processor_start.push_attribute(("type", processor.processortype.as_str() ));
+            push_attribute(&mut processor_start, "xml:id", processor.id.as_str())?;
+            push_attribute(&mut processor_start, "name", processor.name.as_str())?;
+            push_attribute(&mut processor_start, "type", processor.processortype.as_str())?;
             if !processor.version.is_empty() {
-                processor_start.push_attribute(("version", processor.version.as_str() ));
+                push_attribute(&mut processor_start, "version", processor.version.as_str())?;
             }
             if !processor.folia_version.is_empty() {
-                processor_start.push_attribute(("folia_version", processor.folia_version.as_str() ));
+                push_attribute(&mut processor_start, "folia_version", processor.folia_version.as_str())?;
             }
             if !processor.document_version.is_empty() {
-                processor_start.push_attribute(("document_version", processor.document_version.as_str() ));
+                push_attribute(&mut processor_start, "document_version", processor.document_version.as_str())?;
             }
             if !processor.command.is_empty() {
-                processor_start.push_attribute(("command", processor.command.as_str() ));
+                push_attribute(&mut processor_start, "command", processor.command.as_str())?;
             }
             if !processor.host.is_empty() {
-                processor_start.push_attribute(("host", processor.host.as_str() ));
+                push_attribute(&mut processor_start, "host", processor.host.as_str())?;
             }
             if !processor.user.is_empty() {
-                processor_start.push_attribute(("user", processor.user.as_str() ));
+                push_attribute(&mut processor_start, "user", processor.user.as_str())?;
             }
             if let Some(dt) = processor.begindatetime {
-                processor_start.push_attribute(("begindatetime", dt.format("%Y-%m-%dT%H:%M:%S").to_string().as_str() ));
+                push_attribute(&mut processor_start, "begindatetime", dt.format("%Y-%m-%dT%H:%M:%S").to_string().as_str())?;
             }
             if let Some(dt) = processor.enddatetime {
-                processor_start.push_attribute(("enddatetime", dt.format("%Y-%m-%dT%H:%M:%S").to_string().as_str() ));
+                push_attribute(&mut processor_start, "enddatetime", dt.format("%Y-%m-%dT%H:%M:%S").to_string().as_str())?;
             }
             if !processor.src.is_empty() {
-                processor_start.push_attribute(("src", processor.src.as_str() ));
+                push_attribute(&mut processor_start, "src", processor.src.as_str())?;
             }
             if !processor.format.is_empty() {
-                processor_start.push_attribute(("format", processor.format.as_str() ));
+                push_attribute(&mut processor_start, "format", processor.format.as_str())?;
             }
             if !processor.resourcelink.is_empty() {
-                processor_start.push_attribute(("resourcelink", processor.resourcelink.as_str() ));
+                push_attribute(&mut processor_start, "resourcelink", processor.resourcelink.as_str())?;
             }
             if processor.processors.is_empty() && processor.metadata.data.is_empty() {
                 writer.write_event(Event::Empty(processor_start)).map_err(to_serialisation_error)?;
@@ -208,9 +240,9 @@ impl Document {
                 writer.write_event(Event::Start(processor_start)).map_err(to_serialisation_error)?;
                 for (meta_id, value) in processor.metadata.data.iter() {
                     let mut meta_start = BytesStart::borrowed_name(b"meta");
-                    meta_start.push_attribute(("id", meta_id.as_str() ));
+                    push_attribute(&mut meta_start, "id", meta_id.as_str())?;
                     writer.write_event(Event::Start(meta_start)).map_err(to_serialisation_error)?;
-                    writer.write_event(Event::Text(BytesText::from_plain_str(value))).map_err(to_serialisation_error)?;
+                    writer.write_event(Event::Text(escape_text(value)?)).map_err(to_serialisation_error)?;
                     writer.write_event(Event::End(BytesEnd::borrowed(b"meta"))).map_err(to_serialisation_error)?;
                 }
                 for subprocessor_key in processor.processors.iter() {
@@ -258,7 +290,7 @@ impl Document {
                         let mut start = BytesStart::owned(tag.to_vec(), tag.len());
                         for attrib in element.attribs().iter() {
                             if *attrib != Attribute::Ignore && !attrib.decodable()  {
-                                start.push_attribute((attrib.attribtype().into(), format!("{}",attrib).as_str() ));
+                                push_attribute(&mut start, attrib.attribtype().into(), format!("{}",attrib).as_str())?;
                             }
                         }
                         if let Some(declaration_key) = element.declaration_key() {
@@ -269,14 +301,14 @@ impl Document {
                             if !implicit_set && element.elementtype() != ElementType::Feature {
                                 //decode encoded attributes
                                 if let Some(set) = element.set() {
-                                    start.push_attribute(("set", set) );
+                                    push_attribute(&mut start, "set", set)?;
                                 }
                             }
                             if let Some(subset) = element.subset() {
-                                start.push_attribute(("subset", subset) );
+                                push_attribute(&mut start, "subset", subset)?;
                             }
                             if let Some(class) = element.class() {
-                                start.push_attribute(("class", class) );
+                                push_attribute(&mut start, "class", class)?;
                             }
                             if let Some(processor) = element.processor() {
                                 //check if this processor is the default one, if so we don't need
@@ -293,7 +325,7 @@ impl Document {
 
                                 let bare = element.set().is_none() && element.class().is_none() && element.subset().is_none();
                                 if !is_default || bare {
-                                    start.push_attribute(("processor", processor) );
+                                    push_attribute(&mut start, "processor", processor)?;
                                 }
                             }
                         }
@@ -320,13 +352,13 @@ impl Document {
                 },
                 DataType::Text(text) => {
                     //eprintln!("[DEBUG] (processing text)");
-                    let text = BytesText::from_plain_str(text.as_str());
+                    let text = escape_text(text.as_str())?;
                     writer.write_event(Event::Text(text)).map_err(to_serialisation_error)?;
                 },
                 DataType::Comment(comment) => {
                     //eprintln!("[DEBUG] (processing comment)");
                     //comments are written as is, there is no escaping inside XML comments
-                    if comment.contains("--") || comment.ends_with('-') {
+                    if comment.contains("--") || comment.ends_with('-') || comment.contains(|c| (c < ' ' && c != '\t' && c != '\n') || c == '\u{FFFE}' || c == '\u{FFFF}') {
                         return Err(FoliaError::SerialisationError(format!("Comment can not be represented in XML: {}", comment)));
                     }
                     if is_inline(&stack) {
-- 
2.43.0


From 8d6b9718f00d8b2378e4ab090532c4e9411b6ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:49 +0000
Subject: [PATCH 41/68] fix: offsets and line numbers above 65535 refused

---
 src/attrib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/attrib.rs b/src/attrib.rs
index 0ffc6e6..c1e412b 100644
--- a/src/attrib.rs
+++ b/src/attrib.rs
@@ -95,10 +95,10 @@ pub enum Attribute {
     Text(String),
     Type(String), //used by references
     Auth(String), //for backward compatibility
-    Offset(u16),
+    Offset(u32),
     Ref(String),
     Original(String), //used by t-correction
-    LineNr(u16), //used by linebreak
+    LineNr(u32), //used by linebreak
     PageNr(String), //used by linebreak
     NewPage(bool), //used by linebreak
     XLinkType(String),
@@ -335,14 +335,14 @@ impl Attribute {
                     Ok(Attribute::PageNr(value))
                 },
                 b"offset" => {
-                    if let Ok(value) = u16::from_str(&value) {
+                    if let Ok(value) = u32::from_str(&value) {
                         Ok(Attribute::Offset(value))
                     } else {
                         Err(FoliaError::ParseError(format!("Invalid offset value: '{}'", value)))
                     }
                 },
                 b"linenr" => {
-                    if let Ok(value) = u16::from_str(&value) {
+                    if let Ok(value) = u32::from_str(&value) {
                         Ok(Attribute::LineNr(value))
                     } else {
                         Err(FoliaError::ParseError(format!("Invalid line number value: '{}'", value)))
-- 
2.43.0


From 10996961313ba94f3fe0fe35a21da8abbb5cf33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:50 +0000
Subject: [PATCH 42/68] fix: declarations from properties disturb the default
 sets of a parsed document

---
 src/parser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2f6c685..769b7eb 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -343,8 +343,15 @@ impl Document {
 
         if let Some(body) = body {
             doc.add(body,None).map_err(FoliaError::add_parseerror("Error adding body"))?;
-            doc.apply_properties(properties).map_err(FoliaError::add_parseerror("Error applying properties"))?;
+            //declarations for annotation types that the document declares by itself are added
+            //last, they must not affect the default sets of the elements in the document
+            let declared: Vec<AnnotationType> = doc.declarations().filter_map(|declaration| declaration.as_ref().map(|d| d.annotationtype)).collect();
+            let (late, early) = properties.declare.drain(..).partition(|(annotationtype,_)| declared.contains(annotationtype));
+            properties.declare = early;
+            doc.apply_properties(properties.clone()).map_err(FoliaError::add_parseerror("Error applying properties"))?;
             doc.parse_elements(reader, &mut buf, &mut nsbuf)?;
+            properties.declare = late;
+            doc.apply_properties(properties).map_err(FoliaError::add_parseerror("Error applying properties"))?;
 
             //the root element must be closed as well
             loop {
-- 
2.43.0


From ca3b09ed0511c29830fb2d5ca182ae0dcd7ec916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:52 +0000
Subject: [PATCH 43/68] fix: querying for any set matches elements in a
 declaration without set

---
 src/document.rs | 2 +-
 src/select.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 9ef1790..4366189 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -331,7 +331,7 @@ impl Document {
                         //Do we have a set already?
                         if !element.has_attrib(AttribType::SET) {
                             //Find out the set from the child elements
-                            let query = Query::select().elementgroup(Cmp::Is(ElementGroup::Span)).set(Cmp::Some);
+                            let query = Query::select().elementgroup(Cmp::Is(ElementGroup::Span));
                             let selector = Selector::from_query(self, &query)?;
                             for spanelement in self.get_element(element_key).expect("getting element").select(selector, Recursion::Always) {
                                 if spanelement.elementtype().annotationtype() == elementtype.annotationtype() {
diff --git a/src/select.rs b/src/select.rs
index 1f2308b..d8ed5f8 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -231,7 +231,7 @@ impl Selector {
                     //we do explicit checks against Cmp::Any prior to calling matches() to speed things up
                     matches &&
                     (self.elementtype == Cmp::Any || self.elementtype.matches(Some(&element.elementtype()))) &&
-                    (self.set == Cmp::Any || self.set.matches(element.declaration_key().as_ref())) &&
+                    (self.set == Cmp::Any || (self.set == Cmp::Some && element.set().is_some()) || (self.set != Cmp::Some && self.set.matches(element.declaration_key().as_ref()))) &&
                     (self.subset == Cmp::Any || self.subset.matches(element.subset_key().as_ref())) &&
                     (self.class == Cmp::Any || self.class.matches(element.class_key().as_ref())) &&
                     (self.processor == Cmp::Any || self.processor.matches(element.processor_key().as_ref())) &&
-- 
2.43.0


From ffb94cfb3194c8e9ff1b0168cfad7c1ae47d4ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:08 +0000
Subject: [PATCH 44/68] fix: processor of elements without declaration not
 serialised

---
 src/serialiser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/serialiser.rs b/src/serialiser.rs
index 4da6acb..97a61fa 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -328,6 +328,8 @@ impl Document {
                                     push_attribute(&mut start, "processor", processor)?;
                                 }
                             }
+                        } else if let Some(processor) = element.processor() {
+                            push_attribute(&mut start, "processor", processor)?;
                         }
                         let parent_inline = is_inline(&stack);
                         //white space is significant if the element holds text
-- 
2.43.0


From 095a78da3fe5963e11b9ca40440755830cf5ef08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:09 +0000
Subject: [PATCH 45/68] fix: annotators lost if provenance precedes the
 declarations

---
 src/parser.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 769b7eb..2083aac 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -244,15 +244,7 @@ impl Document {
                             submetadata = None;
                         },
                         (Some(ns), b"metadata") if ns == NSFOLIA => {
-                            break;
-                        },
-                        (Some(ns), b"annotations") if ns == NSFOLIA => {
-                            parsedeclarations = false;
-                        },
-                        (Some(ns), b"provenance") if ns == NSFOLIA => {
-                            parseprovenance = false;
-
-                            //we are done with provenance, we can now assign processors to
+                            //declarations and provenance have both been parsed (in either order), we can now assign processors to
                             //declarations using our temporary structure
                             for (dec_key, processor_id) in annotators.iter() {
                                 if let Some(processor_key) = doc.get_processor_key_by_id(processor_id) {
@@ -261,6 +253,13 @@ impl Document {
                                     }
                                 }
                             }
+                            break;
+                        },
+                        (Some(ns), b"annotations") if ns == NSFOLIA => {
+                            parsedeclarations = false;
+                        },
+                        (Some(ns), b"provenance") if ns == NSFOLIA => {
+                            parseprovenance = false;
                         },
                         (Some(ns), b"processor") if ns == NSFOLIA && parseprovenance => {
                             processor_stack.pop();
-- 
2.43.0


From c8192409763828000061e592188d81ce611f7f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:32 +0000
Subject: [PATCH 46/68] fix: elements from other namespaces silently unwrapped
 on parsing

---
 src/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 2083aac..039ecfe 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -453,6 +453,13 @@ impl Document {
                             self.attach_element(*parent_key, key)?;
                         }
                     },
+                    (_, Event::Start(ref e)) | (_, Event::Empty(ref e)) => {
+                        //elements from other namespaces are only allowed as foreign data
+                        let parenttype = stack.last().and_then(|key| self.get_elementdata(*key)).map(|parent| parent.elementtype);
+                        if parenttype != Some(ElementType::ForeignData) {
+                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got other namespace with tag {}", String::from_utf8_lossy(e.name()))));
+                        }
+                    },
                     (None, Event::Text(s)) => {
                         text.push_str(&decode_text(reader, &s)?);
                     },
-- 
2.43.0


From c973fa81321c708d0aaa0b2e57d4d16cf5d9e24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:34 +0000
Subject: [PATCH 47/68] fix: elements after the body silently ignored

---
 src/parser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 039ecfe..6110905 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -352,10 +352,17 @@ impl Document {
             properties.declare = late;
             doc.apply_properties(properties).map_err(FoliaError::add_parseerror("Error applying properties"))?;
 
-            //the root element must be closed as well
+            //the root element must be closed as well, nothing else may follow
+            let mut closed = false;
             loop {
                 match reader.read_namespaced_event(&mut buf, &mut nsbuf)? {
                     (Some(ns), Event::End(ref e)) if ns == NSFOLIA && e.local_name() == b"FoLiA" => {
+                        closed = true;
+                    },
+                    (_, Event::Start(ref e)) | (_, Event::Empty(ref e)) => {
+                        return Err(FoliaError::ParseError(format!("Unexpected element after the body: {}", String::from_utf8_lossy(e.name()))));
+                    },
+                    (_, Event::Eof) if closed => {
                         break;
                     },
                     (_, Event::Eof) => {
-- 
2.43.0


From 03dbfb7cb16eb4b582f3945cef12a2756318ae5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 48/68] fix: text of text content that holds elements without
 text (e.g. linebreaks)

---
 src/text.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index 9fda068..0c83008 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -100,8 +100,12 @@ impl<'a> Element<'a> {
                                         text += textdelimiter;
                                     }
                                 }
-                                let textpart = element.collect_text(set,textclass,strict, retaintokenisation,None,path)?;
-                                text += &textpart;
+                                match element.collect_text(set,textclass,strict, retaintokenisation,None,path) {
+                                    Ok(textpart) => text += &textpart,
+                                    Err(err) => if properties.textcontainer {
+                                        return Err(err);
+                                    } //else: has no text of itself (e.g. a linebreak)
+                                }
                             }
                         }
                     },
-- 
2.43.0


From 499288242b32881fac7359dd8531c5dba41e0984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:15 +0000
Subject: [PATCH 49/68] fix: characters in CDATA sections are no longer read as
 entity references

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6110905..63b7f4f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -235,7 +235,7 @@ impl Document {
                 },
                 (None, Event::CData(s)) => {
                     if let Some(text) = text.as_mut() {
-                        text.push_str(&normalise_newlines(reader.decode(&s)?));
+                        text.push_str(&normalise_newlines(reader.decode(&s.unescaped()?)?));
                     }
                 },
                 (ref ns, Event::End(ref e)) => {
@@ -471,7 +471,7 @@ impl Document {
                         text.push_str(&decode_text(reader, &s)?);
                     },
                     (None, Event::CData(s)) => {
-                        text.push_str(&normalise_newlines(reader.decode(&s)?));
+                        text.push_str(&normalise_newlines(reader.decode(&s.unescaped()?)?));
                     },
                     (None, Event::Comment(s)) => {
                         let comment = normalise_newlines(reader.decode(&s)?);
-- 
2.43.0


From 04558bb28ac8ee4839bc14619eeee6984c6b3e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:13 +0000
Subject: [PATCH 50/68] fix: documents that are cut off in the last tag or have
 text after the end are refused

---
 src/document.rs | 10 ++++++---
 src/parser.rs   | 56 +++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 63 insertions(+), 3 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 4366189..b221f60 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -25,6 +25,7 @@ use crate::query::*;
 use crate::serialiser::*;
 use crate::parser::*;
 use crate::specification::*;
+use crate::parser::InputReader;
 
 ///Represents a FoLiA document, owns all data
 pub struct Document {
@@ -133,9 +134,10 @@ impl Document {
 
     ///Load a FoliA document from file. Invokes the XML parser and loads it all into memory.
     pub fn from_file(filename: &str, properties: DocumentProperties) -> Result<Self, FoliaError> {
-        let mut reader = Reader::from_file(Path::new(filename))?;
+        let mut reader = Reader::from_reader(InputReader::new(BufReader::new(File::open(Path::new(filename))?)));
         reader.trim_text(false);
         let mut doc = Self::parse(&mut reader, properties)?;
+        reader.into_underlying_reader().check_end()?;
         //associate the filename with the document
         doc.filename = Some(filename.to_string());
         Ok(doc)
@@ -143,9 +145,11 @@ impl Document {
 
     ///Load a FoliA document from XML string representation, loading it all into memory.
     pub fn from_str(data: &str, properties: DocumentProperties) -> Result<Self, FoliaError> {
-        let mut reader = Reader::from_str(data);
+        let mut reader = Reader::from_reader(InputReader::new(data.as_bytes()));
         reader.trim_text(false);
-        Self::parse(&mut reader, properties)
+        let doc = Self::parse(&mut reader, properties)?;
+        reader.into_underlying_reader().check_end()?;
+        Ok(doc)
     }
 
 
diff --git a/src/parser.rs b/src/parser.rs
index 63b7f4f..394164c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1,4 +1,5 @@
 use std::path::{Path};
+use std::io;
 use std::io::BufRead;
 use std::io::BufReader;
 use std::str;
@@ -24,6 +25,55 @@ use crate::select::*;
 use crate::document::*;
 use crate::specification::*;
 
+///Reader that remembers the last byte of the input that is not white space. The XML parser takes
+///the end of the input for the end of a tag, this is used to tell the difference.
+pub(crate) struct InputReader<R: BufRead> {
+    inner: R,
+    last: Option<u8>
+}
+
+impl<R: BufRead> InputReader<R> {
+    pub(crate) fn new(inner: R) -> Self {
+        Self { inner: inner, last: None }
+    }
+
+    ///Checks, after parsing, that the input did not end halfway a tag
+    pub(crate) fn check_end(&self) -> Result<(), FoliaError> {
+        if self.last == Some(b'>') {
+            Ok(())
+        } else {
+            Err(FoliaError::ParseError("Premature end of document".to_string()))
+        }
+    }
+
+    fn remember(last: &mut Option<u8>, data: &[u8]) {
+        if let Some(byte) = data.iter().rev().find(|byte| !byte.is_ascii_whitespace()) {
+            *last = Some(*byte);
+        }
+    }
+}
+
+impl<R: BufRead> io::Read for InputReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let size = self.inner.read(buf)?;
+        Self::remember(&mut self.last, &buf[..size]);
+        Ok(size)
+    }
+}
+
+impl<R: BufRead> BufRead for InputReader<R> {
+    fn fill_buf(&mut self) -> io::Result<&[u8]> {
+        self.inner.fill_buf()
+    }
+
+    fn consume(&mut self, amount: usize) {
+        if let Ok(data) = self.inner.fill_buf() {
+            Self::remember(&mut self.last, &data[..amount.min(data.len())]);
+        }
+        self.inner.consume(amount);
+    }
+}
+
 impl Document {
     ///Parses a FoLiA document given a reader
     pub(crate) fn parse<R: BufRead>(reader: &mut Reader<R>, mut properties: DocumentProperties) -> Result<Self, FoliaError> {
@@ -362,6 +412,12 @@ impl Document {
                     (_, Event::Start(ref e)) | (_, Event::Empty(ref e)) => {
                         return Err(FoliaError::ParseError(format!("Unexpected element after the body: {}", String::from_utf8_lossy(e.name()))));
                     },
+                    (None, Event::Text(ref s)) if closed && s.escaped().iter().any(|byte| !byte.is_ascii_whitespace()) => {
+                        return Err(FoliaError::ParseError("Unexpected text after the end of the document".to_string()));
+                    },
+                    (None, Event::CData(_)) if closed => {
+                        return Err(FoliaError::ParseError("Unexpected text after the end of the document".to_string()));
+                    },
                     (_, Event::Eof) if closed => {
                         break;
                     },
-- 
2.43.0


From 3d89937f8b413d83aff5d654448f0215b781b1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:52 +0000
Subject: [PATCH 51/68] fix: span annotations may precede the words they refer
 to

---
 src/parser.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 394164c..4d8aab0 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -443,6 +443,7 @@ impl Document {
         if !self.elementstore.items.is_empty() {
             let mut stack: Vec<ElementKey> = vec![0]; //0 is the root/body element, we always start with it
             let mut text = String::new(); //collects consecutive character data
+            let mut wrefs: Vec<ElementKey> = vec![]; //references are resolved last, they may refer to elements that occur later
             loop {
                 let e = reader.read_namespaced_event(&mut buf, &mut nsbuf)?;
                 match e {
@@ -472,7 +473,11 @@ impl Document {
                             let child_key = self.add(child, Some(key))?;
                             self.attach_element(key, child_key)?;
                         }
-                        self.post_add(key, Some(&stack))?;
+                        if self.get_elementdata(key).map(|elem| elem.elementtype) == Some(ElementType::WordReference) {
+                            wrefs.push(key);
+                        } else {
+                            self.post_add(key, Some(&stack))?;
+                        }
                     },
                     (Some(ns), Event::Start(ref e)) if ns == NSFOLIA => {
                         //START TAG FOUND (<tag>)
@@ -498,7 +503,11 @@ impl Document {
                             break;
                         }
                         let key = stack.pop().unwrap();
-                        self.post_add(key, Some(&stack))?;
+                        if self.get_elementdata(key).map(|elem| elem.elementtype) == Some(ElementType::WordReference) {
+                            wrefs.push(key);
+                        } else {
+                            self.post_add(key, Some(&stack))?;
+                        }
                         if let Some(elem) = self.get_elementdata(key) {
 
                             //verify we actually close the right thing (otherwise we have malformed XML)
@@ -543,6 +552,9 @@ impl Document {
                     (_,_) => {}
                 }
             };
+            for key in wrefs {
+                self.post_add(key, None)?;
+            }
             Ok(())
         } else {
             Err(FoliaError::InternalError("No root element".to_string()))
-- 
2.43.0


From 2bbeca94247989caa24b535c98fc9d5212208163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:43 +0000
Subject: [PATCH 52/68] fix: features of any subset can be selected

---
 src/select.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index d8ed5f8..1f1ac5b 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -41,6 +41,11 @@ impl Selector {
     ///Builds a new selector given a query and a document (effectively encoding the query into a
     ///selector for the specified document)
     pub fn from_query(document: &Document, query: &Query) -> Result<Self,FoliaError> {
+        if let (Cmp::Is(ElementType::Feature), Cmp::Any, Cmp::Is(_)) = (&query.elementtype, &query.subset, &query.class) {
+            //features with and without a subset have their classes in different vocabularies
+            return Ok(Self::from_query(document, &query.clone().subset(Cmp::Some))?
+                 .and(Self::from_query(document, &query.clone().subset(Cmp::None))?));
+        }
         let mut selector = Selector::default();
         selector.elementtype = query.elementtype.clone();
         selector.elementgroup = query.elementgroup.clone();
@@ -48,8 +53,8 @@ impl Selector {
         selector.datatypes = vec![DataTypeSelector::Elements];
         //if we have subsets, we use contexttype instead of elementtype (because elementtype will
         //always be ElementType::feature)
-        let elementtype_source: &Cmp<ElementType> = match &query.subset {
-            Cmp::Some | Cmp::Is(_) =>  &query.contexttype,
+        let elementtype_source: &Cmp<ElementType> = match (&query.subset, &query.elementtype) {
+            (Cmp::Some, _) | (Cmp::Is(_), _) | (_, Cmp::Is(ElementType::Feature)) =>  &query.contexttype,
             _ => &query.elementtype,
         };
         selector.set = match &query.set {
-- 
2.43.0


From 7dc2d3c60feba72ad34e9dd4a9442e088afab30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:45 +0000
Subject: [PATCH 53/68] fix: the class of a feature without a subset is that it
 was given

---
 src/document.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/document.rs b/src/document.rs
index b221f60..db86013 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -948,7 +948,12 @@ impl Store<ElementData,ElementKey> for Document {
 
                         if let Some(declaration) = match declaration_key { Some(deckey) => self.get_mut_declaration(deckey), None => None } {
                             if let Ok(Some(class)) = element.class() {
-                                if let Ok(clskey) = declaration.add_subclass(Cow::Borrowed(class)) {
+                                //without a subset it is a normal class
+                                let clskey = match element.subset() {
+                                    Ok(Some(_)) => declaration.add_subclass(Cow::Borrowed(class)),
+                                    _ => declaration.add_class(Cow::Borrowed(class))
+                                };
+                                if let Ok(clskey) = clskey {
                                     class_key = Some(clskey);
                                 }
                             }
-- 
2.43.0


From 8bd779aaf690eeee1035ee37a60caedf33c418af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:03 +0000
Subject: [PATCH 54/68] fix: a layer without set does not get the set of spans
 in layers further down

---
 src/document.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/document.rs b/src/document.rs
index db86013..bdca747 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -338,7 +338,9 @@ impl Document {
                             let query = Query::select().elementgroup(Cmp::Is(ElementGroup::Span));
                             let selector = Selector::from_query(self, &query)?;
                             for spanelement in self.get_element(element_key).expect("getting element").select(selector, Recursion::Always) {
-                                if spanelement.elementtype().annotationtype() == elementtype.annotationtype() {
+                                //(a span may also be in a layer further down)
+                                let layer = spanelement.get_ancestors_by_group(ElementGroup::Layer, Cmp::Any).find(|layer| layer.elementtype().annotationtype() == elementtype.annotationtype());
+                                if spanelement.elementtype().annotationtype() == elementtype.annotationtype() && layer.map_or(false, |layer| layer.key() == Some(element_key)) {
                                     if let Some(dec_key) = spanelement.declaration_key() {
                                         add_attributes = Some(vec!(Attribute::DeclarationRef(dec_key)));
                                         break;
-- 
2.43.0


From 94f51a2fb02537d9f9fe88d9f3227b0d2b87848c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:41 +0000
Subject: [PATCH 55/68] fix: the default text class is known in every text set

---
 src/document.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/document.rs b/src/document.rs
index bdca747..5cd3523 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -188,7 +188,13 @@ impl Document {
     ///because this one adds a declaration without any checks.
     ///Returns the key.
     pub fn add_declaration(&mut self, declaration: Declaration) -> Result<DecKey, FoliaError> {
-        <Self as Store<Declaration,DecKey>>::add(self, declaration, None)
+        let is_text = declaration.annotationtype == AnnotationType::TEXT;
+        let dec_key = <Self as Store<Declaration,DecKey>>::add(self, declaration, None)?;
+        if is_text {
+            //text content without an explicit class has this class
+            self.add_class(dec_key, &"current".to_string())?;
+        }
+        Ok(dec_key)
     }
 
     ///Add an processor the document (but the processor will be an orphan and not in the processor
-- 
2.43.0


From d54a62b88c2ec9a1a40a2aa2123a47d9605835c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:00 +0000
Subject: [PATCH 56/68] fix: the text of a span includes that of its span roles

---
 src/text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/text.rs b/src/text.rs
index 0c83008..406302e 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -126,7 +126,7 @@ impl<'a> Element<'a> {
                         if ElementGroup::Structure.contains(element.elementtype()) ||
                            element.elementtype() == ElementType::Correction ||
                            element.elementtype() == ElementType::New || element.elementtype() == ElementType::Current ||
-                           ElementGroup::Span.contains(element.elementtype()) {
+                           ElementGroup::Span.contains(element.elementtype()) || ElementGroup::SpanRole.contains(element.elementtype()) {
 
                            if let Ok(textpart) = element.collect_text(set,textclass,false, retaintokenisation, Some(delimiter.clone()), path) {
                                //delimiter will be buffered and only printed upon next iteration
-- 
2.43.0


From 29b9d408b5fa8855ec8b56313c45aba2139e6f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:30 +0000
Subject: [PATCH 57/68] fix: the delimiter of a span is that of the last word
 it refers to

---
 src/text.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/text.rs b/src/text.rs
index 406302e..f4e34a8 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -186,7 +186,16 @@ impl<'a> Element<'a> {
     pub fn get_textdelimiter(&self, retaintokenisation: bool) -> Result<Cow<str>,FoliaError> {
         let doc = self.document().ok_or(FoliaError::KeyError("Element has no associated document".to_string()))?;
         let mut element = self.elementdata();
+        let mut referred = false;
         while doc.props(element.elementtype).textdelimiter.is_none() {
+            if element.elementtype == ElementType::WordReference && !referred {
+                //inherit the delimiter of what is referred to (once, references may be circular)
+                referred = true;
+                if let Some(target) = element.key().and_then(|key| doc.get_element(key)?.resolve()?.key()).and_then(|key| doc.get_elementdata(key)) {
+                    element = target;
+                    continue;
+                }
+            }
             //no text delimiter of itself, descend into children to inherit delimiter
             let child = element.data.iter().rev().find_map(|item| {
                 if let DataType::Element(element_key) = item {
-- 
2.43.0


From 411e80ad298d445afd01165865d451059df6966a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:01 +0000
Subject: [PATCH 58/68] fix: report file names that are not valid UTF-8 in
 folialintr rather than panicking before any file is handled

---
 src/bin/folialintr.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/bin/folialintr.rs b/src/bin/folialintr.rs
index 11f29c6..cb4e892 100644
--- a/src/bin/folialintr.rs
+++ b/src/bin/folialintr.rs
@@ -15,7 +15,14 @@ fn main() {
             .required(true)
         ).get_matches();
 
-    for filename in argmatches.values_of("file").expect("Expected one or more files") {
+    for filename in argmatches.values_of_os("file").expect("Expected one or more files") {
+        let filename = match filename.to_str() {
+            Some(filename) => filename,
+            None => {
+                eprintln!("Filename is not valid UTF-8: {:?}", filename);
+                continue;
+            }
+        };
         match Document::from_file(filename, DocumentProperties::default()) {
             Ok(doc) => {
                 match doc.xml(0,4) {
-- 
2.43.0


From 5fd133372cce0c45d53ae00fc4b9feba945274c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:58 +0000
Subject: [PATCH 59/68] fix: refuse a class or subset for which no key is left,
 rather than dropping it

---
 src/document.rs | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 5cd3523..f3e8346 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -925,9 +925,7 @@ impl Store<ElementData,ElementKey> for Document {
 
             if let Ok(Some(class)) = element.class() {
                 if let Some(declaration) = self.get_mut_declaration(deckey) {
-                    if let Ok(clskey) = declaration.add_class(Cow::Borrowed(class)) {
-                        class_key = Some(clskey);
-                    }
+                    class_key = Some(declaration.add_class(Cow::Borrowed(class))?);
                 }
             }
 
@@ -955,20 +953,15 @@ impl Store<ElementData,ElementKey> for Document {
                         };
 
                         if let Some(declaration) = match declaration_key { Some(deckey) => self.get_mut_declaration(deckey), None => None } {
+                            if let Ok(Some(subset)) = element.subset() {
+                                subset_key = Some(declaration.add_subset(Cow::Borrowed(subset))?);
+                            }
                             if let Ok(Some(class)) = element.class() {
                                 //without a subset it is a normal class
-                                let clskey = match element.subset() {
-                                    Ok(Some(_)) => declaration.add_subclass(Cow::Borrowed(class)),
-                                    _ => declaration.add_class(Cow::Borrowed(class))
-                                };
-                                if let Ok(clskey) = clskey {
-                                    class_key = Some(clskey);
-                                }
-                            }
-                            if let Ok(Some(subset)) = element.subset() {
-                                if let Ok(subsetkey) = declaration.add_subset(Cow::Borrowed(subset)) {
-                                    subset_key = Some(subsetkey);
-                                }
+                                class_key = Some(match subset_key {
+                                    Some(_) => declaration.add_subclass(Cow::Borrowed(class))?,
+                                    None => declaration.add_class(Cow::Borrowed(class))?
+                                });
                             }
                         }
 
-- 
2.43.0


From 32d4e2eb862d5f9b8a95c5d3d2109a689bf6e4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:44 +0000
Subject: [PATCH 60/68] fix: the order of attributes must not affect the order
 of the features they are shorthand for

---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 4d8aab0..ce19e98 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -717,6 +717,8 @@ impl ElementData {
                 }
             }
         }
+        //the order of XML attributes is not significant
+        children.sort_by(|a,b| a.subset().ok().cmp(&b.subset().ok()));
         Ok((attributes, children))
     }
 
-- 
2.43.0


From 42e1dcd14a26e24c9076853b0c42df93a18c0189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:30 +0000
Subject: [PATCH 61/68] fix: namespace declarations on elements and processors
 are not unknown attributes

---
 src/attrib.rs | 3 +++
 src/parser.rs | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/attrib.rs b/src/attrib.rs
index c1e412b..25a647b 100644
--- a/src/attrib.rs
+++ b/src/attrib.rs
@@ -375,6 +375,9 @@ impl Attribute {
                 b"typegroup" => { //used for explicit mode, does not need to be parsed
                     Ok(Attribute::Ignore)
                 },
+                b"xmlns" => { //a namespace declaration, not an attribute
+                    Ok(Attribute::Ignore)
+                },
                 attrib_key => {
                     if attrib_key.contains(&58) { //58 is a colon, we assume alien namespaces and ignore it
                         Ok(Attribute::Ignore)
diff --git a/src/parser.rs b/src/parser.rs
index ce19e98..8809033 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -670,6 +670,7 @@ impl Processor {
                             return Err(FoliaError::ParseError(format!("Invalid processor type: {:?}", value )));
                         }
                     }},
+                    tag if tag == b"xmlns" || tag.starts_with(b"xmlns:") => {}, //a namespace declaration
                     tag => {
                         return Err(FoliaError::ParseError(format!("Unknown attribute on processor, got: {:?}", String::from_utf8_lossy(tag) )));
                     }
-- 
2.43.0


From 2270e2d9133ecf9688008bf4f7973ee39e0c5f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:48 +0000
Subject: [PATCH 62/68] fix: attributes without a value or without white space
 before them must not be skipped silently

---
 src/parser.rs | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 8809033..acaad91 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -108,7 +108,7 @@ impl Document {
                 (ref ns, Event::Start(ref e)) => {
                     match (*ns, e.local_name())  {
                         (Some(ns), b"FoLiA") if ns == NSFOLIA => {
-                            for attrib in e.attributes() {
+                            for attrib in attributes(e)? {
                                 let attrib: quick_xml::events::attributes::Attribute = attrib?;
                                 match attrib.key {
                                     b"xml:id" => {
@@ -154,7 +154,7 @@ impl Document {
                 (ref ns, Event::Start(ref e)) => {
                     match (*ns, e.local_name())  {
                         (Some(ns), b"metadata") if ns == NSFOLIA => {
-                            for attrib in e.attributes() {
+                            for attrib in attributes(e)? {
                                 let attrib = attrib?;
                                 let value = decode_attribute(&reader, &attrib)?;
                                 match attrib.key {
@@ -179,7 +179,7 @@ impl Document {
                         (Some(ns), b"submetadata") if ns == NSFOLIA => {
                             let mut submetadata_src: Option<String> = None;
                             submetadata_type = None;
-                            for attrib in e.attributes() {
+                            for attrib in attributes(e)? {
                                 let attrib = attrib?;
                                 let value = decode_attribute(&reader, &attrib)?;
                                 match attrib.key {
@@ -208,7 +208,7 @@ impl Document {
                         },
                         (Some(ns), b"meta") if ns == NSFOLIA => {
                             meta_id = None;
-                            for attrib in e.attributes() {
+                            for attrib in attributes(e)? {
                                 let attrib = attrib?;
                                 let value = decode_attribute(&reader, &attrib)?;
                                 match attrib.key {
@@ -238,7 +238,7 @@ impl Document {
                         },
                         (Some(ns), b"annotator") if ns == NSFOLIA && parsedeclarations => {
                             let mut processor_id: Option<String> = None;
-                            for attrib in e.attributes() {
+                            for attrib in attributes(e)? {
                                 let attrib = attrib?;
                                 let value = decode_attribute(&reader, &attrib)?;
                                 match attrib.key {
@@ -357,13 +357,13 @@ impl Document {
                 (ref ns, Event::Start(ref e)) => {
                     match (*ns, e.local_name())  {
                         (Some(ns), b"text") if ns == NSFOLIA => {
-                            if let Ok((attribs,_))  =  ElementData::parse_attributes(&reader, e.attributes(), ElementType::Text) {
+                            if let Ok((attribs,_))  =  ElementData::parse_attributes(&reader, attributes(e)?, ElementType::Text) {
                                 body = Some(ElementData::new(ElementType::Text).with_attribs(attribs));
                             }
                             break;
                         },
                         (Some(ns), b"speech") if ns == NSFOLIA => {
-                            if let Ok((attribs,_))  =  ElementData::parse_attributes(&reader, e.attributes(), ElementType::Speech) {
+                            if let Ok((attribs,_))  =  ElementData::parse_attributes(&reader, attributes(e)?, ElementType::Speech) {
                                 body = Some(ElementData::new(ElementType::Speech).with_attribs(attribs));
                             }
                             break;
@@ -597,6 +597,21 @@ fn normalise_newlines(text: &str) -> Cow<str> {
     }
 }
 
+///Returns an iterator over the attributes of a tag. The iterator by itself skips attributes that have
+///no value, or that are not separated from the previous one by white space.
+fn attributes<'a>(event: &'a quick_xml::events::BytesStart) -> Result<quick_xml::events::attributes::Attributes<'a>, FoliaError> {
+    let mut rest: &[u8] = event.attributes_raw();
+    while let Some(begin) = rest.iter().position(|byte| !byte.is_ascii_whitespace()) {
+        let open = rest.iter().position(|byte| *byte == b'"' || *byte == b'\'').unwrap_or(rest.len());
+        let named = rest[begin] != b'=' && rest[begin..open].iter().rev().find(|byte| !byte.is_ascii_whitespace()) == Some(&b'=');
+        match rest.iter().skip(open + 1).position(|byte| *byte == rest[open]) {
+            Some(length) if begin > 0 && named => rest = &rest[open+length+2..],
+            _ => return Err(FoliaError::ParseError(format!("Malformed attributes: {}", String::from_utf8_lossy(event.attributes_raw()))))
+        }
+    }
+    Ok(event.attributes())
+}
+
 ///Decodes the value of an attribute, white space that is not escaped translates to spaces, as prescribed by XML
 pub(crate) fn decode_attribute<R: BufRead>(reader: &Reader<R>, attrib: &quick_xml::events::attributes::Attribute) -> Result<String, FoliaError> {
     let value = normalise_newlines(reader.decode(&attrib.value)?).replace(|c| c == '\n' || c == '\t', " ");
@@ -633,7 +648,7 @@ impl Processor {
     ///appended by the main parser in Document::parse_body()
     pub(crate) fn parse<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::BytesStart) -> Result<Processor, FoliaError> {
         let mut processor = Processor::default();
-        for attrib in event.attributes()  {
+        for attrib in attributes(event)?  {
             {
                 let attrib = attrib?;
                 let value = decode_attribute(&reader, &attrib)?;
@@ -728,7 +743,7 @@ impl ElementData {
     pub(crate) fn parse<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::BytesStart) -> Result<(ElementData,Vec<ElementData>), FoliaError> {
         let elementname = str::from_utf8(event.local_name())?;
         let elementtype = ElementType::from_str(elementname)?;
-        let (attributes, children) = ElementData::parse_attributes(reader, event.attributes(), elementtype)
+        let (attributes, children) = ElementData::parse_attributes(reader, attributes(event)?, elementtype)
                                      .map_err(FoliaError::add_parseerror_string(format!("Error parsing attributes for {}", elementname)))?;
         Ok((ElementData::new(elementtype).with_attribs(attributes), children))
     }
@@ -740,7 +755,7 @@ impl Declaration {
         let mut set: Option<String> = None;
         let mut alias: Option<String> = None;
         let mut format: Option<String> = None;
-        for attrib in event.attributes() {
+        for attrib in attributes(event)? {
             let attrib = attrib?;
             let value = decode_attribute(&reader, &attrib)?;
             match attrib.key {
-- 
2.43.0


From 92268fe4e057ee2e57dde3e64879378a384f17d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:51 +0000
Subject: [PATCH 63/68] fix: namespace declarations in the header are not
 unknown attributes

---
 src/parser.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index acaad91..7f985a8 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -164,6 +164,7 @@ impl Document {
                                     b"type" => {
                                         doc.metadata.metadatatype = Some(value);
                                     },
+                                    tag if is_namespace_declaration(tag) => {},
                                     otherwise => {
                                         eprintln!("WARNING: Unhandled attribute metadata/@{:?}",String::from_utf8_lossy(otherwise));
                                     }
@@ -192,6 +193,7 @@ impl Document {
                                     b"src" => {
                                         submetadata_src = Some(value.clone());
                                     },
+                                    tag if is_namespace_declaration(tag) => {},
                                     otherwise => {
                                         eprintln!("WARNING: Unhandled attribute submetadata/@{:?}",String::from_utf8_lossy(otherwise));
                                     }
@@ -215,6 +217,7 @@ impl Document {
                                     b"id" | b"xml:id" => {
                                         meta_id = Some(value.clone());
                                     },
+                                    tag if is_namespace_declaration(tag) => {},
                                     otherwise => {
                                         eprintln!("WARNING: Unhandled attribute meta/@{:?}",String::from_utf8_lossy(otherwise));
                                     }
@@ -245,6 +248,7 @@ impl Document {
                                     b"processor" => {
                                         processor_id = Some(value.clone());
                                     },
+                                    tag if is_namespace_declaration(tag) => {},
                                     otherwise => {
                                         eprintln!("WARNING: Unhandled attribute annotator/@{:?}",String::from_utf8_lossy(otherwise));
                                     }
@@ -597,6 +601,11 @@ fn normalise_newlines(text: &str) -> Cow<str> {
     }
 }
 
+///Does this attribute name declare a namespace?
+fn is_namespace_declaration(tag: &[u8]) -> bool {
+    tag == b"xmlns" || tag.starts_with(b"xmlns:")
+}
+
 ///Returns an iterator over the attributes of a tag. The iterator by itself skips attributes that have
 ///no value, or that are not separated from the previous one by white space.
 fn attributes<'a>(event: &'a quick_xml::events::BytesStart) -> Result<quick_xml::events::attributes::Attributes<'a>, FoliaError> {
@@ -685,7 +694,7 @@ impl Processor {
                             return Err(FoliaError::ParseError(format!("Invalid processor type: {:?}", value )));
                         }
                     }},
-                    tag if tag == b"xmlns" || tag.starts_with(b"xmlns:") => {}, //a namespace declaration
+                    tag if is_namespace_declaration(tag) => {},
                     tag => {
                         return Err(FoliaError::ParseError(format!("Unknown attribute on processor, got: {:?}", String::from_utf8_lossy(tag) )));
                     }
@@ -774,6 +783,7 @@ impl Declaration {
                 b"annotatortype" => {
                     //TODO: handle old-style default
                 },
+                tag if is_namespace_declaration(tag) => {},
                 otherwise => {
                     eprintln!("WARNING: Unhandled attribute on declaration: @{:?}",String::from_utf8_lossy(otherwise));
                 }
-- 
2.43.0


From d3f3844ef1d9676d14ac7d25e247c44b8da374b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:05 +0000
Subject: [PATCH 64/68] fix: text that is nested too deeply to extract must be
 an error, not left out silently

---
 src/text.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index f4e34a8..df695d4 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -59,6 +59,15 @@ impl TextParameters {
 ///The maximum depth of nested elements from which text is extracted
 const MAX_TEXT_DEPTH: usize = 256;
 
+///Tells elements that have no text from those of which the text can not be obtained
+fn has_text(result: Result<String,FoliaError>) -> Result<Option<String>,FoliaError> {
+    match result {
+        Ok(text) => Ok(Some(text)),
+        Err(FoliaError::NoTextError(_)) => Ok(None),
+        Err(err) => Err(err)
+    }
+}
+
 impl<'a> Element<'a> {
 
     ///Returns the text content of a given element
@@ -70,7 +79,7 @@ impl<'a> Element<'a> {
     fn collect_text(&self, set: DecKey, textclass: ClassKey, strict: bool, retaintokenisation: bool, previousdelimiter: Option<String>, path: &mut Vec<ElementKey>) -> Result<String,FoliaError> {
         //guard against references that lead back to where we came from and against excessive nesting
         if path.len() >= MAX_TEXT_DEPTH {
-            return Err(FoliaError::NoTextError("Elements are nested too deeply".to_string()));
+            return Err(FoliaError::InternalError("Elements are nested too deeply to extract text from".to_string()));
         }
         path.push(self.key().ok_or(FoliaError::KeyError("Element has no key".to_string()))?);
         let result = self.collect_text_inner(set, textclass, strict, retaintokenisation, previousdelimiter, path);
@@ -102,9 +111,8 @@ impl<'a> Element<'a> {
                                 }
                                 match element.collect_text(set,textclass,strict, retaintokenisation,None,path) {
                                     Ok(textpart) => text += &textpart,
-                                    Err(err) => if properties.textcontainer {
-                                        return Err(err);
-                                    } //else: has no text of itself (e.g. a linebreak)
+                                    Err(FoliaError::NoTextError(_)) if !properties.textcontainer => {}, //has no text of itself (e.g. a linebreak)
+                                    Err(err) => return Err(err)
                                 }
                             }
                         }
@@ -128,7 +136,7 @@ impl<'a> Element<'a> {
                            element.elementtype() == ElementType::New || element.elementtype() == ElementType::Current ||
                            ElementGroup::Span.contains(element.elementtype()) || ElementGroup::SpanRole.contains(element.elementtype()) {
 
-                           if let Ok(textpart) = element.collect_text(set,textclass,false, retaintokenisation, Some(delimiter.clone()), path) {
+                           if let Some(textpart) = has_text(element.collect_text(set,textclass,false, retaintokenisation, Some(delimiter.clone()), path))? {
                                //delimiter will be buffered and only printed upon next iteration
                                text += &textpart;
                                if let Ok(s) = element.get_textdelimiter(retaintokenisation) {
@@ -138,7 +146,7 @@ impl<'a> Element<'a> {
                         } else if element.elementtype() == ElementType::WordReference {
                             //follow the reference
                             if let Some(element) = element.resolve().filter(|element| !element.key().map_or(false, |key| path.contains(&key))) {
-                               if let Ok(textpart) = element.collect_text(set,textclass,false, retaintokenisation, Some(delimiter.clone()), path) {
+                               if let Some(textpart) = has_text(element.collect_text(set,textclass,false, retaintokenisation, Some(delimiter.clone()), path))? {
                                    //delimiter will be buffered and only printed upon next iteration
                                    text += &textpart;
                                    if let Ok(s) = element.get_textdelimiter(retaintokenisation) {
@@ -153,7 +161,7 @@ impl<'a> Element<'a> {
                 }
             }
             if text.is_empty() && textcontent_element.is_some() {
-                if let Ok(parttext) = textcontent_element.unwrap().collect_text(set,textclass,false,retaintokenisation, None, path) {
+                if let Some(parttext) = has_text(textcontent_element.unwrap().collect_text(set,textclass,false,retaintokenisation, None, path))? {
                     text = parttext
                 }
             }
-- 
2.43.0


From 9b1e4a9e9a1cdfc572948c20abba56d693ac07cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:11 +0000
Subject: [PATCH 65/68] fix: elements of the header where they do not belong,
 and text outside its fields, must be refused, not dropped

---
 src/parser.rs | 52 +++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 48 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 7f985a8..61313f6 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -131,6 +131,12 @@ impl Document {
                         }
                     }
                 },
+                (None, Event::Text(ref s)) if !is_blank(s.escaped().strip_prefix(b"\xef\xbb\xbf").unwrap_or(s.escaped())) => {
+                    return Err(FoliaError::ParseError("Unexpected text before the root element".to_string()));
+                },
+                (None, Event::CData(_)) => {
+                    return Err(FoliaError::ParseError("Unexpected text before the root element".to_string()));
+                },
                 (_, Event::Eof) => {
                     return Err(FoliaError::ParseError("Premature end of document".to_string()));
                 }
@@ -148,10 +154,15 @@ impl Document {
         let mut declaration_key: Option<DecKey> = None;
         let mut annotators: Vec<(DecKey,String)> = Vec::new(); //mapping of declaration keys to processor ids; temporary structure
         let mut processor_stack: Vec<ProcKey> = vec![];
+        let mut path: Vec<Vec<u8>> = vec![]; //the elements of the header that are open
         loop {
             let e = reader.read_namespaced_event(&mut buf, &mut nsbuf)?;
             match e {
                 (ref ns, Event::Start(ref e)) => {
+                    if *ns == Some(NSFOLIA) && !is_header_child(path.last().map(|tag| tag.as_slice()), e.local_name()) {
+                        return Err(FoliaError::ParseError(format!("Unexpected FoLiA element: {}",  String::from_utf8_lossy(e.local_name()))));
+                    }
+                    path.push(e.local_name().to_vec());
                     match (*ns, e.local_name())  {
                         (Some(ns), b"metadata") if ns == NSFOLIA => {
                             for attrib in attributes(e)? {
@@ -223,6 +234,9 @@ impl Document {
                                     }
                                 }
                             }
+                            if meta_id.is_none() {
+                                return Err(FoliaError::ParseError("Metadata field has no ID".to_string()));
+                            }
                             text = Some(String::new()); //collects all text until the end tag
                         },
                         (Some(ns), b"processor") if ns == NSFOLIA && parseprovenance => {
@@ -261,6 +275,8 @@ impl Document {
                                     //parsed, after that we resolve everything from this structure.
                                     annotators.push((declaration_key, processor_id));
                                 }
+                            } else {
+                                return Err(FoliaError::ParseError("Annotator has no processor".to_string()));
                             }
                         },
                         (Some(ns), tag) if ns == NSFOLIA && parsedeclarations => {
@@ -285,14 +301,19 @@ impl Document {
                 (None, Event::Text(s)) => {
                     if let Some(text) = text.as_mut() {
                         text.push_str(&decode_text(reader, &s)?);
+                    } else if !is_blank(decode_text(reader, &s)?.as_bytes()) {
+                        return Err(FoliaError::ParseError("Unexpected text in the metadata".to_string()));
                     }
                 },
                 (None, Event::CData(s)) => {
                     if let Some(text) = text.as_mut() {
                         text.push_str(&normalise_newlines(reader.decode(&s.unescaped()?)?));
+                    } else if !is_blank(&s.unescaped()?) {
+                        return Err(FoliaError::ParseError("Unexpected text in the metadata".to_string()));
                     }
                 },
                 (ref ns, Event::End(ref e)) => {
+                    path.pop();
                     match (*ns, e.local_name())  {
                         (Some(ns), b"submetadata") if ns == NSFOLIA => {
                             submetadata = None;
@@ -383,6 +404,12 @@ impl Document {
                         }
                     }
                 },
+                (None, Event::Text(ref s)) if !is_blank(s.escaped()) => {
+                    return Err(FoliaError::ParseError("Unexpected text before the body".to_string()));
+                },
+                (None, Event::CData(_)) => {
+                    return Err(FoliaError::ParseError("Unexpected text before the body".to_string()));
+                },
                 (_, Event::Eof) => {
                     return Err(FoliaError::ParseError("Premature end of document".to_string()));
                 }
@@ -416,11 +443,11 @@ impl Document {
                     (_, Event::Start(ref e)) | (_, Event::Empty(ref e)) => {
                         return Err(FoliaError::ParseError(format!("Unexpected element after the body: {}", String::from_utf8_lossy(e.name()))));
                     },
-                    (None, Event::Text(ref s)) if closed && s.escaped().iter().any(|byte| !byte.is_ascii_whitespace()) => {
-                        return Err(FoliaError::ParseError("Unexpected text after the end of the document".to_string()));
+                    (None, Event::Text(ref s)) if !is_blank(s.escaped()) => {
+                        return Err(FoliaError::ParseError("Unexpected text after the body".to_string()));
                     },
-                    (None, Event::CData(_)) if closed => {
-                        return Err(FoliaError::ParseError("Unexpected text after the end of the document".to_string()));
+                    (None, Event::CData(_)) => {
+                        return Err(FoliaError::ParseError("Unexpected text after the body".to_string()));
                     },
                     (_, Event::Eof) if closed => {
                         break;
@@ -634,6 +661,23 @@ fn decode_text<R: BufRead>(reader: &Reader<R>, text: &BytesText) -> Result<Strin
     Ok(BytesText::from_escaped_str(text).unescape_and_decode(reader)?)
 }
 
+///Is there nothing but white space?
+fn is_blank(text: &[u8]) -> bool {
+    text.iter().all(|byte| byte.is_ascii_whitespace())
+}
+
+///Tests whether an element may occur within another in the header of the document (no parent means directly in the root)
+fn is_header_child(parent: Option<&[u8]>, tag: &[u8]) -> bool {
+    match tag {
+        b"metadata" => parent.is_none(),
+        b"annotations" | b"provenance" | b"submetadata" => matches!(parent, Some(b"metadata")),
+        b"meta" => matches!(parent, Some(b"metadata") | Some(b"submetadata") | Some(b"processor")),
+        b"processor" => matches!(parent, Some(b"provenance") | Some(b"processor")),
+        b"annotator" => parent.map_or(false, |parent| parent.ends_with(b"-annotation")),
+        _ => matches!(parent, Some(b"annotations"))
+    }
+}
+
 fn get_declaration_type(tag: &str) -> Result<AnnotationType, FoliaError> {
     if let Some(index) = tag.find("-") {
         let (declaration_type_string, suffix) = tag.split_at(index);
-- 
2.43.0


From d0e01e47d478760991020922ceef81573c6616ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:16 +0000
Subject: [PATCH 66/68] fix: malformed attributes must be refused on all
 elements of the header

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 61313f6..c15b6cc 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -163,6 +163,9 @@ impl Document {
                         return Err(FoliaError::ParseError(format!("Unexpected FoLiA element: {}",  String::from_utf8_lossy(e.local_name()))));
                     }
                     path.push(e.local_name().to_vec());
+                    for attrib in attributes(e)? {
+                        decode_attribute(&reader, &attrib?)?;
+                    }
                     match (*ns, e.local_name())  {
                         (Some(ns), b"metadata") if ns == NSFOLIA => {
                             for attrib in attributes(e)? {
-- 
2.43.0


From 8eddc649bbdaef04ef5534aed64189c8d5087327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:39 +0000
Subject: [PATCH 67/68] fix: showing an element without text failed,
 to_string() and println!() panicked

---
 src/element.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/element.rs b/src/element.rs
index 3657a47..60bf501 100644
--- a/src/element.rs
+++ b/src/element.rs
@@ -481,7 +481,8 @@ impl<'a> fmt::Display for Element<'a> {
         if let Ok(text) = self.text(&TextParameters::default()) {
             write!(f, "{}", text)
         } else {
-            Err(fmt::Error)
+            //there is no text to show (an error is reserved for failure of the formatter, to_string() and println!() would panic)
+            Ok(())
         }
     }
 }
-- 
2.43.0


From d9bcfeb74b1daaa84a53d6bfa50a887b640ec73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:06 +0000
Subject: [PATCH 68/68] fix: a selector that is left empty,
 Selector::default(), must match text and comments as well

---
 src/select.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index 1f1ac5b..dde6f45 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -248,8 +248,8 @@ impl Selector {
                     false
                 }
             },
-            DataType::Text(_) => self.datatypes.contains(&DataTypeSelector::Text),
-            DataType::Comment(_) => self.datatypes.contains(&DataTypeSelector::Comments),
+            DataType::Text(_) => self.datatypes.is_empty() || self.datatypes.contains(&DataTypeSelector::Text),
+            DataType::Comment(_) => self.datatypes.is_empty() || self.datatypes.contains(&DataTypeSelector::Comments),
             DataType::AddElement(_) => false,
         };
         if let Some(next) = &self.next {
-- 
2.43.0

