From a00a804d89df74bbd3035bbbc70e04dc2f7c005e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 01/70] fix: rdftk_names builds against the current rdftk_iri
 API (Iri::make_name is inherent)

---
 rdftk_names/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_names/src/lib.rs b/rdftk_names/src/lib.rs
index 0ef0bcb..03f5b3b 100644
--- a/rdftk_names/src/lib.rs
+++ b/rdftk_names/src/lib.rs
@@ -132,7 +132,7 @@ macro_rules! namespace {
                 let _ = cache.insert(
                     $name.to_string(),
                     (
-                        <::rdftk_iri::Iri as ::rdftk_iri::IriExtra>::make_name(
+                        ::rdftk_iri::Iri::make_name(
                                 &NS_IRI,
                                 <::rdftk_iri::Name as ::std::str::FromStr>::from_str($name).unwrap()
                             ).unwrap(),
-- 
2.43.0


From 9480d6485f0516e5de545913034cd19d445efd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 02/70] fix: rdftk_core builds against the current rdftk_iri
 API (Iri is a newtype displaying with angle brackets)

---
 rdftk_core/src/error.rs                   |  6 +++---
 rdftk_core/src/model/graph.rs             |  4 ++--
 rdftk_core/src/model/literal.rs           | 11 ++++++-----
 rdftk_core/src/model/statement.rs         |  2 +-
 rdftk_core/src/model/statement/bnode.rs   |  8 ++++----
 rdftk_core/src/model/statement/object.rs  |  2 +-
 rdftk_core/src/model/statement/subject.rs |  2 +-
 7 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/rdftk_core/src/error.rs b/rdftk_core/src/error.rs
index 887617f..62f3e5e 100644
--- a/rdftk_core/src/error.rs
+++ b/rdftk_core/src/error.rs
@@ -142,7 +142,7 @@ pub enum Error {
     ///
     /// An error parsing Name strings.
     ///
-    Name(::rdftk_iri::NameParseError),
+    Name(::rdftk_iri::error::NameParseError),
     ///
     /// An error occurred converting to UTF-8 text.
     ///
@@ -426,8 +426,8 @@ impl From<::language_tags::ParseError> for Error {
     }
 }
 
-impl From<::rdftk_iri::NameParseError> for Error {
-    fn from(source: ::rdftk_iri::NameParseError) -> Self {
+impl From<::rdftk_iri::error::NameParseError> for Error {
+    fn from(source: ::rdftk_iri::error::NameParseError) -> Self {
         Self::Name(source)
     }
 }
diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index 15ec049..32f5fdc 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -19,7 +19,7 @@ fn simple_graph_writer(graph: &Graph)
 use crate::error::Error;
 use crate::model::features::{Featured, FEATURE_GRAPH_DUPLICATES, FEATURE_RDF_STAR};
 use crate::model::statement::{BlankNode, ObjectNode, Statement, SubjectNode};
-use rdftk_iri::{Iri, IriExtra, IriPrefixMap, Name};
+use rdftk_iri::{Iri, IriPrefixMap, Name};
 use std::collections::{HashMap, HashSet};
 use std::fmt::{Debug, Display, Formatter};
 use std::hash::Hash;
@@ -81,7 +81,7 @@ impl Display for GraphName {
             "{}",
             match &self {
                 Self::BNode(node) => format!("_:{}", node),
-                Self::Iri(iri) => format!("<{}>", iri),
+                Self::Iri(iri) => iri.to_string(),
             }
         )
     }
diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 13e7ebe..37fe9d7 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -51,11 +51,12 @@
  */
 
 use crate::error::Error;
-use rdftk_iri::{Iri, Name, QName};
+use rdftk_iri::{Iri, LocalName as QName, Name};
 use rdftk_names::{rdf, xsd};
 use std::cmp::Ordering;
 use std::fmt::{Debug, Display, Formatter};
 use std::hash::Hash;
+use std::str::FromStr;
 use std::time::Duration;
 
 #[cfg(feature = "binary_types")]
@@ -372,7 +373,7 @@ impl DataType {
 
 impl From<Iri> for Literal {
     fn from(v: Iri) -> Self {
-        Self::with_data_type(v.as_ref(), DataType::Iri)
+        Self::with_data_type(format!("{v:#}"), DataType::Iri)
     }
 }
 
@@ -384,7 +385,7 @@ impl From<&Iri> for Literal {
 
 impl PartialEq<Iri> for Literal {
     fn eq(&self, other: &Iri) -> bool {
-        *self.lexical_form() == other.to_string() && self.data_type() == Some(&DataType::Iri)
+        *self.lexical_form() == format!("{other:#}") && self.data_type() == Some(&DataType::Iri)
     }
 }
 
@@ -395,7 +396,7 @@ impl TryFrom<Literal> for Iri {
         match value.data_type() {
             Some(dt) => {
                 if *dt == DataType::Iri {
-                    Ok(Iri::parse(value.lexical_form())?)
+                    Ok(Iri::from_str(value.lexical_form()).map_err(::rdftk_iri::Error::from)?)
                 } else {
                     Err(Error::InvalidLiteralTypeCooercion {
                         from_type: dt.to_string(),
@@ -847,7 +848,7 @@ impl Display for Literal {
                     "\"{}\"{}",
                     self.lexical_form(),
                     match (self.data_type(), self.language()) {
-                        (Some(data_type), None) => format!("^^<{}>", data_type.as_iri()),
+                        (Some(data_type), None) => format!("^^{}", data_type.as_iri()),
                         (None, Some(language)) => format!("@{}", language),
                         _ => String::new(),
                     }
diff --git a/rdftk_core/src/model/statement.rs b/rdftk_core/src/model/statement.rs
index d8ff046..f2a07eb 100644
--- a/rdftk_core/src/model/statement.rs
+++ b/rdftk_core/src/model/statement.rs
@@ -62,7 +62,7 @@ impl Display for Statement {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         write!(
             f,
-            "{} <{}> {}",
+            "{} {} {}",
             &self.subject().to_string(),
             &self.predicate().to_string(),
             &self.object().to_string(),
diff --git a/rdftk_core/src/model/statement/bnode.rs b/rdftk_core/src/model/statement/bnode.rs
index 208f4cc..ebe3374 100644
--- a/rdftk_core/src/model/statement/bnode.rs
+++ b/rdftk_core/src/model/statement/bnode.rs
@@ -1,4 +1,4 @@
-use rdftk_iri::{Name, NameParser, QName};
+use rdftk_iri::{LocalName, Name};
 use std::fmt::{Display, Formatter};
 use std::str::FromStr;
 use unique_id::sequence::SequenceGenerator as IDGenerator;
@@ -98,7 +98,7 @@ impl BlankNode {
         S: AsRef<str>,
     {
         let s: &str = s.as_ref();
-        NameParser::BlankNode.is_valid_str(if let Some(s) = s.strip_prefix(BLANK_NODE_PREFIX) {
+        Name::is_valid_str(if let Some(s) = s.strip_prefix(BLANK_NODE_PREFIX) {
             s
         } else {
             s
@@ -109,7 +109,7 @@ impl BlankNode {
     /// Return a qualified version of the blank node, i.e. with the reserved
     /// namespace value `"_"`.
     ///
-    pub fn to_qname(&self) -> QName {
-        QName::new_blank(Name::new_unchecked(&self.0)).unwrap()
+    pub fn to_qname(&self) -> LocalName {
+        LocalName::new_unchecked(BLANK_NODE_NAMESPACE, &self.0)
     }
 }
diff --git a/rdftk_core/src/model/statement/object.rs b/rdftk_core/src/model/statement/object.rs
index 9443935..7c313a4 100644
--- a/rdftk_core/src/model/statement/object.rs
+++ b/rdftk_core/src/model/statement/object.rs
@@ -122,7 +122,7 @@ impl Display for ObjectNode {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match self {
             Self::Blank(node) => write!(f, "{BLANK_NODE_NAMESPACE}:{node}"),
-            Self::Resource(iri) => write!(f, "<{iri}>"),
+            Self::Resource(iri) => write!(f, "{iri}"),
             Self::Literal(lit) => {
                 if f.alternate() {
                     write!(f, "{lit:#}")
diff --git a/rdftk_core/src/model/statement/subject.rs b/rdftk_core/src/model/statement/subject.rs
index 67dd8cd..427caf3 100644
--- a/rdftk_core/src/model/statement/subject.rs
+++ b/rdftk_core/src/model/statement/subject.rs
@@ -94,7 +94,7 @@ impl Display for SubjectNode {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match self {
             Self::Blank(node) => write!(f, "{}:{}", BLANK_NODE_NAMESPACE, node),
-            Self::Resource(iri) => write!(f, "<{}>", iri),
+            Self::Resource(iri) => write!(f, "{}", iri),
             Self::Statement(st) => write!(f, "<< {} >>", st),
         }
     }
-- 
2.43.0


From f61fefdd61794697bc8d5375164c42f90c6d19c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 03/70] fix: rdftk_io builds against the current rdftk_iri API
 (bare IRIs are written with the alternate format)

---
 rdftk_io/src/common/parser/ntriples.rs |  2 +-
 rdftk_io/src/dot/writer.rs             |  6 +++---
 rdftk_io/src/json/reader.rs            |  8 ++++----
 rdftk_io/src/json/writer.rs            |  6 +++---
 rdftk_io/src/nq/writer.rs              |  4 ++--
 rdftk_io/src/nt/writer.rs              |  4 ++--
 rdftk_io/src/turtle/writer.rs          | 26 +++++++++++++-------------
 rdftk_io/src/xml/reader.rs             |  6 +++---
 rdftk_io/src/xml/writer.rs             | 20 ++++++++++----------
 9 files changed, 41 insertions(+), 41 deletions(-)

diff --git a/rdftk_io/src/common/parser/ntriples.rs b/rdftk_io/src/common/parser/ntriples.rs
index d54adf0..ee60037 100644
--- a/rdftk_io/src/common/parser/ntriples.rs
+++ b/rdftk_io/src/common/parser/ntriples.rs
@@ -208,7 +208,7 @@ fn iri_ref(input_pair: Pair<'_, Rule>) -> Result<Iri, Error> {
         let iri = input_pair.as_str().to_string();
         // strip the '<' and '>' characters.
         let iri_str = unescape_iri(&iri[1..iri.len() - 1]);
-        Ok(Iri::from_str(&iri_str)?)
+        Ok(Iri::from_str(&iri_str).map_err(rdftk_iri::Error::from)?)
     } else {
         Err(pest_error!(unexpected RULE_FN, &input_pair, [Rule::IRIREF]))
     }
diff --git a/rdftk_io/src/dot/writer.rs b/rdftk_io/src/dot/writer.rs
index fdbf428..2b31354 100644
--- a/rdftk_io/src/dot/writer.rs
+++ b/rdftk_io/src/dot/writer.rs
@@ -296,7 +296,7 @@ impl ObjectWriter<Graph> for DotWriter {
                 self.subject_id(statement.subject()),
                 self.object_id(statement.object()),
                 match mappings.compress(statement.predicate()) {
-                    None => statement.predicate().to_string(),
+                    None => format!("{:#}", statement.predicate()),
                     Some(qname) => qname.to_string(),
                 }
             )?;
@@ -394,7 +394,7 @@ impl DotWriter {
                     Node {
                         id: id.clone(),
                         kind: NodeKind::Iri,
-                        label: node.as_resource().unwrap().to_string(),
+                        label: format!("{:#}", node.as_resource().unwrap()),
                     },
                 );
             }
@@ -423,7 +423,7 @@ impl DotWriter {
                     Node {
                         id: id.clone(),
                         kind: NodeKind::Iri,
-                        label: node.as_resource().unwrap().to_string(),
+                        label: format!("{:#}", node.as_resource().unwrap()),
                     },
                 );
             } else if node.is_literal() {
diff --git a/rdftk_io/src/json/reader.rs b/rdftk_io/src/json/reader.rs
index 4d468be..8052a59 100644
--- a/rdftk_io/src/json/reader.rs
+++ b/rdftk_io/src/json/reader.rs
@@ -100,7 +100,7 @@ fn parse_statements(
         let subject = if let Some(subject) = subject.strip_prefix(BNODE_PREFIX) {
             BlankNode::from_str(subject)?.into()
         } else {
-            Iri::from_str(subject)?.into()
+            Iri::from_str(subject).map_err(rdftk_iri::Error::from)?.into()
         };
         for (predicate, objects) in json.iter() {
             parse_predicates(&subject, predicate, objects, graph)?;
@@ -125,7 +125,7 @@ fn parse_predicates(
     parse_rule!("parse_predicates" entry);
 
     if let Value::Array(json) = objects {
-        let predicate = Iri::from_str(predicate)?;
+        let predicate = Iri::from_str(predicate).map_err(rdftk_iri::Error::from)?;
         for object in json {
             parse_object(subject, &predicate, object, graph)?;
         }
@@ -208,7 +208,7 @@ fn parse_literal_object(
             Literal::with_language(v, LanguageTag::from_str(l)?)
         }
         (Some(Value::String(v)), None, Some(Value::String(d))) => {
-            let data_type = Iri::from_str(d)?;
+            let data_type = Iri::from_str(d).map_err(rdftk_iri::Error::from)?;
             Literal::with_data_type(v, DataType::from(data_type))
         }
         _ => {
@@ -257,7 +257,7 @@ fn parse_uri_object(
     parse_rule!("parse_uri_object" entry);
 
     if let Some(Value::String(s)) = object.get(OBJ_KEY_VALUE) {
-        let object = Iri::from_str(s)?;
+        let object = Iri::from_str(s).map_err(rdftk_iri::Error::from)?;
         let st = Statement::new(subject.clone(), predicate.clone(), object);
         graph.insert(st);
         Ok(())
diff --git a/rdftk_io/src/json/writer.rs b/rdftk_io/src/json/writer.rs
index 63d2590..5e13608 100644
--- a/rdftk_io/src/json/writer.rs
+++ b/rdftk_io/src/json/writer.rs
@@ -89,7 +89,7 @@ impl ObjectWriter<Graph> for JsonWriter {
                         );
                         let _ = object_map.insert(
                             OBJ_KEY_VALUE.to_string(),
-                            Value::String(object.as_resource().unwrap().to_string()),
+                            Value::String(format!("{:#}", object.as_resource().unwrap())),
                         );
                     } else if object.is_literal() {
                         let literal = object.as_literal().unwrap();
@@ -110,7 +110,7 @@ impl ObjectWriter<Graph> for JsonWriter {
                         if let Some(data_type) = literal.data_type() {
                             let _ = object_map.insert(
                                 OBJ_KEY_DATATYPE.to_string(),
-                                Value::String(data_type.as_iri().to_string()),
+                                Value::String(format!("{:#}", data_type.as_iri())),
                             );
                         }
                     } else {
@@ -118,7 +118,7 @@ impl ObjectWriter<Graph> for JsonWriter {
                     }
                     objects.push(Value::Object(object_map));
                 }
-                let _ = predicate_map.insert(predicate.to_string(), Value::Array(objects));
+                let _ = predicate_map.insert(format!("{predicate:#}"), Value::Array(objects));
             }
             let _ = json_graph.insert(subject.to_string(), Value::Object(predicate_map));
         }
diff --git a/rdftk_io/src/nq/writer.rs b/rdftk_io/src/nq/writer.rs
index 2c4fd2d..99d4630 100644
--- a/rdftk_io/src/nq/writer.rs
+++ b/rdftk_io/src/nq/writer.rs
@@ -47,9 +47,9 @@ impl ObjectWriter<Graph> for NQuadWriter {
             for predicate in simple_graph.predicates_for(subject) {
                 for object in simple_graph.objects_for(subject, predicate) {
                     if let Some(graph_name) = graph_name {
-                        writeln!(w, "{} <{}> {} {} .", subject, predicate, object, graph_name)?;
+                        writeln!(w, "{} {} {} {} .", subject, predicate, object, graph_name)?;
                     } else {
-                        writeln!(w, "{} <{}> {} .", subject, predicate, object)?;
+                        writeln!(w, "{} {} {} .", subject, predicate, object)?;
                     }
                 }
             }
diff --git a/rdftk_io/src/nt/writer.rs b/rdftk_io/src/nt/writer.rs
index 08151e1..b3e8093 100644
--- a/rdftk_io/src/nt/writer.rs
+++ b/rdftk_io/src/nt/writer.rs
@@ -38,9 +38,9 @@ impl ObjectWriter<Graph> for NTripleWriter {
             for predicate in simple_graph.predicates_for(subject) {
                 for object in simple_graph.objects_for(subject, predicate) {
                     if self.options().force_string_literals {
-                        writeln!(w, "{subject} <{predicate}> {object:#} .")?;
+                        writeln!(w, "{subject} {predicate} {object:#} .")?;
                     } else {
-                        writeln!(w, "{subject} <{predicate}> {object} .")?;
+                        writeln!(w, "{subject} {predicate} {object} .")?;
                     }
                 }
             }
diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index f1c2bb6..624c352 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -515,7 +515,7 @@ impl TurtleWriter {
             writeln!(
                 w,
                 "{decl} {IRI_START}{}{IRI_END}{eos}",
-                base.to_string().as_str()
+                format!("{base:#}").as_str()
             )?;
             if !self.options.use_intellij_style() {
                 writeln!(w)?;
@@ -535,16 +535,16 @@ impl TurtleWriter {
         let mappings = graph.prefix_mappings();
         if !mappings.is_empty() {
             for (prefix, namespace) in mappings.mappings().sorted() {
-                let prefix = prefix.as_ref().map(|n| n.as_ref()).unwrap_or("");
-                let mut namespace_str = namespace.to_string();
+                let prefix = prefix.name_string().unwrap_or("");
+                let mut namespace_str = format!("{namespace:#}");
                 // If we have any base Iri conversions to do for any of the
                 // namespaces, then do it now:
                 for (from_base, to_base) in self.options.convert_base().iter() {
-                    let from_base_str = from_base.to_string();
+                    let from_base_str = format!("{from_base:#}");
                     if namespace_str.starts_with(from_base_str.as_str()) {
                         namespace_str = format!(
                             "{}{}",
-                            to_base.to_string().as_str(),
+                            format!("{to_base:#}").as_str(),
                             &namespace_str[from_base_str.len()..]
                         );
                         break;
@@ -726,10 +726,10 @@ impl TurtleWriter {
     /// Turtle as if it's an Iri with the default base.
     fn compress_iri(&self, graph: &Graph, iri: &Iri) -> Result<String> {
         trace!(name: "compress_iri", ?iri);
-        let mut iri_str = iri.to_string();
+        let mut iri_str = format!("{iri:#}");
         if let Some(id_base) = &self.options.id_base() {
             if let Some(ref convert_to_id_base) = self.options.convert_to_id_base() {
-                let target_id_base = convert_to_id_base.to_string();
+                let target_id_base = format!("{convert_to_id_base:#}");
                 if iri_str.starts_with(target_id_base.as_str()) {
                     return Ok(format!(
                         "{IRI_START}{}{IRI_END}",
@@ -737,7 +737,7 @@ impl TurtleWriter {
                     ));
                 }
             }
-            let id_base_str = id_base.to_string();
+            let id_base_str = format!("{id_base:#}");
             if iri_str.starts_with(id_base_str.as_str()) {
                 return Ok(format!(
                     "{IRI_START}{}{IRI_END}",
@@ -746,18 +746,18 @@ impl TurtleWriter {
             }
         }
         for (from_base, to_base) in self.options.convert_base().iter() {
-            let from_base_str = from_base.to_string();
+            let from_base_str = format!("{from_base:#}");
             if iri_str.starts_with(from_base_str.as_str()) {
                 iri_str = format!(
                     "{}{}",
-                    to_base.to_string().as_str(),
+                    format!("{to_base:#}").as_str(),
                     &iri_str[from_base_str.len()..]
                 );
             }
         }
-        let iri = Iri::from_str(iri_str.as_str())?;
+        let iri = Iri::from_str(iri_str.as_str()).map_err(rdftk_iri::Error::from)?;
         Ok(match graph.prefix_mappings().compress(&iri) {
-            None => format!("{IRI_START}{iri}{IRI_END}"),
+            None => iri.to_string(),
             Some(_qname) => format!("{_qname}"),
         })
     }
@@ -777,7 +777,7 @@ impl TurtleWriter {
         trace!(name: "write_literal", ?literal);
         Ok(match literal.data_type() {
             Some(DataType::Iri) => {
-                let iri = Iri::parse(literal.lexical_form())?;
+                let iri = Iri::from_str(literal.lexical_form()).map_err(rdftk_iri::Error::from)?;
                 self.write_iri(w, graph, &iri)?
             }
             Some(DataType::Boolean)
diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 3f76300..5ec1530 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -245,16 +245,16 @@ fn parse_subject_element<R: Read>(
 
 #[inline]
 fn name_to_iri(name: &OwnedName) -> Result<Iri, Error> {
-    Ok(Iri::from_str(&format!(
+    value_to_iri(&format!(
         "{}{}",
         name.namespace.as_ref().unwrap(),
         name.local_name
-    ))?)
+    ))
 }
 
 #[inline]
 fn value_to_iri(name: &str) -> Result<Iri, Error> {
-    Ok(Iri::from_str(name)?)
+    Ok(Iri::from_str(name).map_err(rdftk_iri::Error::from)?)
 }
 
 fn parse_predicate_attributes(
diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index 091a67b..88f4820 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -197,31 +197,31 @@ impl XmlWriter {
     fn default_mappings() -> HashMap<String, String> {
         let mappings: HashMap<String, String> = [
             (
-                dc::elements::namespace().to_string(),
+                dc::elements::namespace_str().to_string(),
                 dc::elements::default_prefix().to_string(),
             ),
             (
-                foaf::namespace().to_string(),
+                foaf::namespace_str().to_string(),
                 foaf::default_prefix().to_string(),
             ),
             (
-                geo::namespace().to_string(),
+                geo::namespace_str().to_string(),
                 geo::default_prefix().to_string(),
             ),
             (
-                owl::namespace().to_string(),
+                owl::namespace_str().to_string(),
                 owl::default_prefix().to_string(),
             ),
             (
-                rdf::namespace().to_string(),
+                rdf::namespace_str().to_string(),
                 rdf::default_prefix().to_string(),
             ),
             (
-                rdfs::namespace().to_string(),
+                rdfs::namespace_str().to_string(),
                 rdfs::default_prefix().to_string(),
             ),
             (
-                xsd::namespace().to_string(),
+                xsd::namespace_str().to_string(),
                 xsd::default_prefix().to_string(),
             ),
         ]
@@ -274,7 +274,7 @@ impl XmlWriter {
                 };
 
                 if let Some(iri) = object.as_resource() {
-                    let iri = iri.to_string();
+                    let iri = format!("{iri:#}");
                     element = element.attr(RDF_RESOURCE.as_str(), &iri);
                     writer.write(element).map_err(xml_error)?;
                 } else if let Some(blank) = object.as_blank() {
@@ -294,7 +294,7 @@ impl XmlWriter {
                         element = element.attr(ATTRIBUTE_XML_LANG_PREFIXED, &language)
                     }
                     if let Some(data_type) = literal.data_type() {
-                        let dt_iri = data_type.as_iri().to_string();
+                        let dt_iri = format!("{:#}", data_type.as_iri());
                         writer
                             .write(element.attr(RDF_DATATYPE.as_str(), &dt_iri))
                             .map_err(xml_error)?
@@ -334,7 +334,7 @@ fn xml_error(e: xml::writer::Error) -> Error {
 }
 
 fn split_uri(iri: &Iri) -> (String, String) {
-    let iri = iri.to_string();
+    let iri = format!("{iri:#}");
     let index = iri
         .chars()
         .rev()
-- 
2.43.0


From 37886cca32357c5425228735a44ab9abced88449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:38 +0000
Subject: [PATCH 04/70] fix: Namespace::from_str rejects a prefix ending with
 '.', as PN_PREFIX requires

---
 rdftk_iri/src/pname.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdftk_iri/src/pname.rs b/rdftk_iri/src/pname.rs
index 94427ea..0af428b 100644
--- a/rdftk_iri/src/pname.rs
+++ b/rdftk_iri/src/pname.rs
@@ -250,6 +250,8 @@ impl FromStr for Namespace {
                 Err(NameParseError::TooManySeparators(s.to_string()))
             } else if pn_prefix.is_empty() {
                 Ok(Self(s.to_string()))
+            } else if pn_prefix.ends_with('.') {
+                Err(NameParseError::InvalidCharacter(s.to_string()))
             } else {
                 let mut chars = pn_prefix.chars();
                 if is_pn_chars_base(chars.next().unwrap()) && chars.all(is_pn_prefix_local_rest) {
-- 
2.43.0


From 8c72e98d729e0909370e1fd5afb6c00f5491e7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:38 +0000
Subject: [PATCH 05/70] fix: Iri::split does not panic on IRIs with an opaque
 path, or split the path of a namespace IRI

---
 rdftk_iri/src/iri.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rdftk_iri/src/iri.rs b/rdftk_iri/src/iri.rs
index 37c22a7..78b2057 100644
--- a/rdftk_iri/src/iri.rs
+++ b/rdftk_iri/src/iri.rs
@@ -317,12 +317,15 @@ impl Iri {
             } else {
                 None
             }
-        } else if !self.0.path().is_empty()
+        } else if self.0.fragment().is_none()
+            && !self.0.path().is_empty()
             && !self.0.path().ends_with("/")
             && self.0.query().is_none()
         {
-            if let Ok(name) = Name::from_str(self.0.path_segments().unwrap().last().unwrap()) {
-                let path = self.0.path();
+            let path = self.0.path();
+            // paths without any '/', such as in `urn:isbn:123`, have no namespace part.
+            let (_, last_segment) = path.rsplit_once('/')?;
+            if let Ok(name) = Name::from_str(last_segment) {
                 let path = &path[0..path.len() - name.as_ref().len()];
                 Some((self.with_new_path(path), name))
             } else {
-- 
2.43.0


From 73ec1dc3f0c68e6e5c898c72d1729dbd2b0c218d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:38 +0000
Subject: [PATCH 06/70] fix: VOCABULARY_XML has the documented namespace IRI

---
 rdftk_iri/src/vocab.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_iri/src/vocab.rs b/rdftk_iri/src/vocab.rs
index 1866101..e8a79b8 100644
--- a/rdftk_iri/src/vocab.rs
+++ b/rdftk_iri/src/vocab.rs
@@ -315,7 +315,7 @@ pub const VOCABULARY_WOT: Vocabulary = Vocabulary::new("wot", "http://xmlns.com/
 ///   [XML Base (Second Edition)](https://www.w3.org/TR/xmlbase/).
 ///
 pub const VOCABULARY_XML: Vocabulary =
-    Vocabulary::new("xml", "http://www.w3.org/XML/1998/namespace#");
+    Vocabulary::new("xml", "http://www.w3.org/XML/1998/namespace");
 
 ///
 /// XML Schema's datatypes, used extensively throughout RDF for typed literals.
-- 
2.43.0


From fe2eb77fd3277d094c4c496b74d61711fce59546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:12 +0000
Subject: [PATCH 07/70] fix: deserialized Name and Namespace values are
 validated like parsed ones

---
 rdftk_iri/src/pname.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/rdftk_iri/src/pname.rs b/rdftk_iri/src/pname.rs
index 0af428b..152c556 100644
--- a/rdftk_iri/src/pname.rs
+++ b/rdftk_iri/src/pname.rs
@@ -98,6 +98,7 @@ pub enum PrefixedName {
 ///
 #[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
 #[cfg_attr(feature = "serde", derive(Deserialize, Serialize))]
+#[cfg_attr(feature = "serde", serde(try_from = "String"))]
 pub struct Namespace(String);
 
 /// The character used to separate a [`Namespace`] prefix from a [`Name`] in a
@@ -145,6 +146,7 @@ pub const NAMESPACE_DEFAULT_STRING: &str = ":";
 ///
 #[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
 #[cfg_attr(feature = "serde", derive(Deserialize, Serialize))]
+#[cfg_attr(feature = "serde", serde(try_from = "String"))]
 pub struct Name(String);
 
 ///
@@ -266,6 +268,14 @@ impl FromStr for Namespace {
     }
 }
 
+impl TryFrom<String> for Namespace {
+    type Error = NameParseError;
+
+    fn try_from(s: String) -> Result<Self, Self::Error> {
+        Self::from_str(&s)
+    }
+}
+
 impl AsRef<str> for Namespace {
     fn as_ref(&self) -> &str {
         &self.0
@@ -406,6 +416,14 @@ impl FromStr for Name {
     }
 }
 
+impl TryFrom<String> for Name {
+    type Error = NameParseError;
+
+    fn try_from(s: String) -> Result<Self, Self::Error> {
+        Self::from_str(&s)
+    }
+}
+
 impl AsRef<str> for Name {
     fn as_ref(&self) -> &str {
         &self.0
-- 
2.43.0


From aa466a2da536da3d5aee1b82f8311707f3c75183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:58 +0000
Subject: [PATCH 08/70] fix: Graph::matches treats an absent component as a
 wildcard

---
 rdftk_core/src/model/graph.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index 32f5fdc..fdadeef 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -374,9 +374,9 @@ impl Graph {
         self.statements
             .iter()
             .filter(|st| {
-                (subject.is_some() && st.subject() == subject.unwrap())
-                    && (predicate.is_some() && st.predicate() == predicate.unwrap())
-                    && (object.is_some() && st.object() == object.unwrap())
+                subject.is_none_or(|subject| st.subject() == subject)
+                    && predicate.is_none_or(|predicate| st.predicate() == predicate)
+                    && object.is_none_or(|object| st.object() == object)
             })
             .collect()
     }
-- 
2.43.0


From 848e93438d1e381d8eb5a12635f0d7950c365258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:58 +0000
Subject: [PATCH 09/70] fix: Graph::remove_all_for removes, and returns, the
 statements with the subject

---
 rdftk_core/src/model/graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index fdadeef..bc39e80 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -557,9 +557,9 @@ impl Graph {
             (Default::default(), Default::default()),
             |(mut keep, mut discard): (Vec<Statement>, Vec<Statement>), st| {
                 if st.subject() == subject {
-                    keep.push(st.clone());
-                } else {
                     discard.push(st.clone());
+                } else {
+                    keep.push(st.clone());
                 }
                 (keep, discard)
             },
-- 
2.43.0


From a9eef87bdb6fada8dd211044909af5b862a2f57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:58 +0000
Subject: [PATCH 10/70] fix: a graph supports FEATURE_GRAPH_DUPLICATES when it
 is not a unique graph

---
 rdftk_core/src/model/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index bc39e80..362e060 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -199,7 +199,7 @@ impl GraphName {
 
 impl Featured for Graph {
     fn supports_feature(&self, feature: &Iri) -> bool {
-        (*feature == *FEATURE_GRAPH_DUPLICATES && self.statements.is_unique())
+        (*feature == *FEATURE_GRAPH_DUPLICATES && !self.statements.is_unique())
             || *feature == *FEATURE_RDF_STAR
     }
 }
-- 
2.43.0


From 2811e0c3fa0f4fff029b3b85b4769169ee0ee41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 11/70] fix: Graph::simplify and reify flatten statements and
 collections at every level

---
 rdftk_core/src/model/graph.rs                | 29 ++++----------------
 rdftk_core/src/model/statement.rs            | 23 +++++-----------
 rdftk_core/src/model/statement/collection.rs |  3 +-
 rdftk_core/src/model/statement/object.rs     | 14 ++++++++++
 4 files changed, 29 insertions(+), 40 deletions(-)

diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index 362e060..cab9799 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -655,33 +655,16 @@ impl Graph {
             new_graph.set_name(name.clone());
         }
         for statement in self.statements() {
+            let mut new_statement = statement.clone();
             if let Some(subject_statement) = statement.subject().as_statement() {
                 let (subject, statements) = subject_statement.reify()?;
-                new_graph.insert(Statement::new(
-                    subject,
-                    statement.predicate().clone(),
-                    statement.object().clone(),
-                ));
-                new_graph.extend(statements);
-            } else if let Some(object_statement) = statement.object().as_statement() {
-                let (subject, statements) = object_statement.reify()?;
-                new_graph.insert(Statement::new(
-                    statement.subject().clone(),
-                    statement.predicate().clone(),
-                    subject.to_object(),
-                ));
-                new_graph.extend(statements);
-            } else if let Some(object_collection) = statement.object().as_collection() {
-                let (subject, statements) = object_collection.reify()?;
-                new_graph.insert(Statement::new(
-                    statement.subject().clone(),
-                    statement.predicate().clone(),
-                    subject.to_object(),
-                ));
+                new_statement.set_subject(subject);
                 new_graph.extend(statements);
-            } else {
-                new_graph.insert(statement.clone());
             }
+            let (object, statements) = statement.object().reify()?;
+            new_statement.set_object(object);
+            new_graph.extend(statements);
+            new_graph.insert(new_statement);
         }
 
         Ok(new_graph)
diff --git a/rdftk_core/src/model/statement.rs b/rdftk_core/src/model/statement.rs
index f2a07eb..f9f0bb0 100644
--- a/rdftk_core/src/model/statement.rs
+++ b/rdftk_core/src/model/statement.rs
@@ -214,22 +214,13 @@ impl Statement {
             rdf::predicate().clone(),
             self.predicate().clone(),
         ));
-        if let Some(statement) = self.object().as_statement() {
-            let nested = statement.reify()?;
-            statements.extend(nested.1);
-            statements.push(Self::new(
-                new_subject.clone(),
-                rdf::object().clone(),
-                nested.0.to_object(),
-            ));
-        } else {
-            // TODO: check for ObjectNode::Collection
-            statements.push(Self::new(
-                new_subject.clone(),
-                rdf::object().clone(),
-                self.object().clone(),
-            ));
-        }
+        let (object, nested) = self.object().reify()?;
+        statements.extend(nested);
+        statements.push(Self::new(
+            new_subject.clone(),
+            rdf::object().clone(),
+            object,
+        ));
         Ok((new_subject, statements))
     }
 }
diff --git a/rdftk_core/src/model/statement/collection.rs b/rdftk_core/src/model/statement/collection.rs
index 1aa60ea..dc3a1ac 100644
--- a/rdftk_core/src/model/statement/collection.rs
+++ b/rdftk_core/src/model/statement/collection.rs
@@ -184,7 +184,8 @@ impl Collection {
                     rdf::a_type().clone(),
                     rdf::list().clone(),
                 ));
-                // TODO: deal with recursive ObjectNode::Collection
+                let (object, nested) = object.reify()?;
+                statements.extend(nested);
                 statements.push(Statement::new(
                     subject.clone(),
                     rdf::first().clone(),
diff --git a/rdftk_core/src/model/statement/object.rs b/rdftk_core/src/model/statement/object.rs
index 7c313a4..2ca9a08 100644
--- a/rdftk_core/src/model/statement/object.rs
+++ b/rdftk_core/src/model/statement/object.rs
@@ -1,3 +1,4 @@
+use crate::error::Error;
 use crate::model::features::{Featured, FEATURE_RDF_STAR, FEATURE_STMT_OBJECT_COLLECTIONS};
 use crate::model::literal::Literal;
 use crate::model::statement::{
@@ -318,4 +319,17 @@ impl ObjectNode {
             ObjectNode::Collection(_) => None,
         }
     }
+
+    ///
+    /// Return the node to use in place of this one in a graph of strict triples, along with the
+    /// statements that reify it if this is itself a statement or a collection.
+    ///
+    pub(crate) fn reify(&self) -> Result<(ObjectNode, Vec<Statement>), Error> {
+        let (subject, statements) = match self {
+            ObjectNode::Collection(v) => v.reify()?,
+            ObjectNode::Statement(v) => v.reify()?,
+            _ => return Ok((self.clone(), Default::default())),
+        };
+        Ok((subject.to_object(), statements))
+    }
 }
-- 
2.43.0


From 084aeffb7bf6323c5f9502175d40b4ae33335c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 12/70] fix: Graph::skolemize replaces nested blank nodes; it
 and simplify keep the graph's name and mappings

---
 rdftk_core/src/model/graph.rs | 79 +++++++++++++++++++++++++----------
 1 file changed, 58 insertions(+), 21 deletions(-)

diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index cab9799..a415624 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -18,7 +18,7 @@ fn simple_graph_writer(graph: &Graph)
 
 use crate::error::Error;
 use crate::model::features::{Featured, FEATURE_GRAPH_DUPLICATES, FEATURE_RDF_STAR};
-use crate::model::statement::{BlankNode, ObjectNode, Statement, SubjectNode};
+use crate::model::statement::{BlankNode, Collection, ObjectNode, Statement, SubjectNode};
 use rdftk_iri::{Iri, IriPrefixMap, Name};
 use std::collections::{HashMap, HashSet};
 use std::fmt::{Debug, Display, Formatter};
@@ -616,27 +616,13 @@ impl Graph {
     pub fn skolemize(&self, base: &Iri) -> Result<Self, Error> {
         let mut mapping: HashMap<BlankNode, Iri> = Default::default();
 
-        let mut new_graph = Self::default();
+        let mut new_graph = Self::default().with_mappings(self.mappings.clone());
+        if let Some(name) = self.name() {
+            new_graph.set_name(name.clone());
+        }
 
         for statement in self.statements() {
-            let mut new_statement = statement.clone();
-            if let Some(blank) = new_statement.subject().as_blank() {
-                if !mapping.contains_key(blank) {
-                    let _ = mapping.insert(blank.clone(), base.genid()?);
-                }
-                let name = mapping.get(blank).unwrap().clone();
-                let subject = SubjectNode::from(name);
-                new_statement.set_subject(subject);
-            }
-            if let Some(blank) = new_statement.object().as_blank() {
-                if !mapping.contains_key(blank) {
-                    let _ = mapping.insert(blank.clone(), base.genid()?);
-                }
-                let name = mapping.get(blank).unwrap().clone();
-                let object = ObjectNode::from(name);
-                new_statement.set_object(object);
-            }
-            new_graph.insert(new_statement);
+            new_graph.insert(skolemize_statement(statement, base, &mut mapping)?);
         }
 
         Ok(new_graph)
@@ -650,7 +636,7 @@ impl Graph {
     /// 2. RDF collection objects in object nodes are reified into the graph.
     ///
     pub fn simplify(&self) -> Result<Self, Error> {
-        let mut new_graph = Self::default();
+        let mut new_graph = Self::default().with_mappings(self.mappings.clone());
         if let Some(name) = self.name() {
             new_graph.set_name(name.clone());
         }
@@ -671,6 +657,57 @@ impl Graph {
     }
 }
 
+// ------------------------------------------------------------------------------------------------
+// Private Functions
+// ------------------------------------------------------------------------------------------------
+
+fn skolemize_blank(
+    blank: &BlankNode,
+    base: &Iri,
+    mapping: &mut HashMap<BlankNode, Iri>,
+) -> Result<Iri, Error> {
+    if !mapping.contains_key(blank) {
+        let _ = mapping.insert(blank.clone(), base.genid()?);
+    }
+    Ok(mapping.get(blank).unwrap().clone())
+}
+
+fn skolemize_statement(
+    statement: &Statement,
+    base: &Iri,
+    mapping: &mut HashMap<BlankNode, Iri>,
+) -> Result<Statement, Error> {
+    let subject = match statement.subject() {
+        SubjectNode::Blank(v) => skolemize_blank(v, base, mapping)?.into(),
+        SubjectNode::Resource(_) => statement.subject().clone(),
+        SubjectNode::Statement(v) => skolemize_statement(v, base, mapping)?.into(),
+    };
+    let object = skolemize_object(statement.object(), base, mapping)?;
+    Ok(Statement::new(
+        subject,
+        statement.predicate().clone(),
+        object,
+    ))
+}
+
+fn skolemize_object(
+    object: &ObjectNode,
+    base: &Iri,
+    mapping: &mut HashMap<BlankNode, Iri>,
+) -> Result<ObjectNode, Error> {
+    Ok(match object {
+        ObjectNode::Blank(v) => skolemize_blank(v, base, mapping)?.into(),
+        ObjectNode::Resource(_) | ObjectNode::Literal(_) => object.clone(),
+        ObjectNode::Collection(vs) => Collection::from(
+            vs.iter()
+                .map(|v| skolemize_object(v, base, mapping))
+                .collect::<Result<Vec<ObjectNode>, Error>>()?,
+        )
+        .into(),
+        ObjectNode::Statement(v) => skolemize_statement(v, base, mapping)?.into(),
+    })
+}
+
 // ------------------------------------------------------------------------------------------------
 // Implementations > Statements Enum
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From df37f580b66613f7db460273bbf1a7bc87023157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 13/70] fix: a Resource links to its nested resources, and
 numbers container members from rdf:_1

---
 rdftk_core/src/model/resource.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rdftk_core/src/model/resource.rs b/rdftk_core/src/model/resource.rs
index 2a73cc6..3fb3e38 100644
--- a/rdftk_core/src/model/resource.rs
+++ b/rdftk_core/src/model/resource.rs
@@ -663,7 +663,7 @@ fn flatten(resource: &Resource, sts: &mut Vec<Statement>) {
                             flatten(resource, sts);
                             sts.push(Statement::new(
                                 container.clone(),
-                                rdf::member(index),
+                                rdf::member(index + 1),
                                 resource.subject.to_object(),
                             ));
                         }
@@ -672,7 +672,7 @@ fn flatten(resource: &Resource, sts: &mut Vec<Statement>) {
                         for (index, literal) in lc.values.iter().enumerate() {
                             sts.push(Statement::new(
                                 container.clone(),
-                                rdf::member(index),
+                                rdf::member(index + 1),
                                 literal,
                             ));
                         }
@@ -686,7 +686,7 @@ fn flatten(resource: &Resource, sts: &mut Vec<Statement>) {
                     match object {
                         ResourceObject::Resource(resource) => {
                             flatten(resource, sts);
-                            subject.to_object()
+                            resource.subject.to_object()
                         }
                         ResourceObject::Literal(literal) => ObjectNode::from(literal.clone()),
                         _ => unreachable!(),
-- 
2.43.0


From 7ea1a45832bde8e190c029d969ae754a4da0b4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 14/70] fix: BlankNode::from_str removes the optional '_:'
 prefix from the node's name

---
 rdftk_core/src/model/statement/bnode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/statement/bnode.rs b/rdftk_core/src/model/statement/bnode.rs
index ebe3374..4d360f8 100644
--- a/rdftk_core/src/model/statement/bnode.rs
+++ b/rdftk_core/src/model/statement/bnode.rs
@@ -43,7 +43,7 @@ impl FromStr for BlankNode {
 
     fn from_str(s: &str) -> std::result::Result<Self, Self::Err> {
         if BlankNode::is_valid_str(s) {
-            Ok(Self(s.into()))
+            Ok(Self(s.strip_prefix(BLANK_NODE_PREFIX).unwrap_or(s).into()))
         } else {
             Err(crate::error::Error::InvalidBlankNodeName { name: s.into() })
         }
-- 
2.43.0


From 0ad770e7dd5b46f89cb36947c351649be430164b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 15/70] fix: Literal::base64_encoded has the data type
 xsd:base64Binary

---
 rdftk_core/src/model/literal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 37fe9d7..7c29a61 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -972,7 +972,7 @@ impl Literal {
 
     #[cfg(feature = "binary_types")]
     pub fn base64_encoded(v: &[u8]) -> Self {
-        Self::with_data_type(STANDARD.encode(v), DataType::HexBinary)
+        Self::with_data_type(STANDARD.encode(v), DataType::Base64Binary)
     }
 
     // --------------------------------------------------------------------------------------------
-- 
2.43.0


From 4f10b9c4de9160fc51ee42bb3888da969017ee1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 16/70] fix: an xsd:hexBinary literal can be decoded to the
 bytes it was encoded from

---
 rdftk_core/src/model/literal.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 7c29a61..b8eb72d 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -1044,10 +1044,14 @@ where
     S: AsRef<str>,
 {
     let value = value.as_ref();
-    let mut buffer = Vec::with_capacity((value.len() + 1) / 3);
-    for (index, hex_pair) in value.split(" ").enumerate() {
-        if hex_pair.len() == 2 {
-            let byte = u8::from_str_radix(hex_pair, 16).map_err(|_| Error::HexDecoder {
+    let mut buffer = Vec::with_capacity(value.len() / 2);
+    let digits = value
+        .split_whitespace()
+        .flat_map(|group| group.as_bytes().chunks(2));
+    for (index, hex_pair) in digits.enumerate() {
+        let hex_pair = String::from_utf8_lossy(hex_pair);
+        if hex_pair.len() == 2 && hex_pair.chars().all(|c| c.is_ascii_hexdigit()) {
+            let byte = u8::from_str_radix(&hex_pair, 16).map_err(|_| Error::HexDecoder {
                 value: hex_pair.to_string(),
                 index,
             })?;
-- 
2.43.0


From 064394478d4a4f679639f9e585f58fb24aa50baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 17/70] fix: duration literals zero-pad the nanoseconds, and
 compare equal to the same Duration

---
 rdftk_core/src/model/literal.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index b8eb72d..2db80dc 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -516,7 +516,7 @@ impl From<Duration> for Literal {
         let nanos = v.subsec_nanos();
         Self::with_data_type(
             if nanos != 0 {
-                format!("PT{seconds}.{nanos}S")
+                format!("PT{seconds}.{nanos:09}S")
             } else {
                 format!("PT{seconds}S")
             },
@@ -547,8 +547,7 @@ impl From<&chrono::Duration> for Literal {
 
 impl PartialEq<Duration> for Literal {
     fn eq(&self, other: &Duration) -> bool {
-        *self.lexical_form() == other.as_nanos().to_string()
-            && self.data_type() == Some(&DataType::Duration)
+        *self == Self::from(other)
     }
 }
 
-- 
2.43.0


From 82152984596cb7b3b1c84e9f0ffb3f0655de450e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 18/70] fix: a known data type's IRI maps to that DataType
 rather than DataType::Other

---
 rdftk_core/src/model/literal.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 2db80dc..7ac24a1 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -319,6 +319,20 @@ impl From<Iri> for DataType {
             Self::UnsignedByte
         } else if &iri == xsd::duration() {
             Self::Duration
+        } else if &iri == xsd::date_time() {
+            Self::DateTime
+        } else if &iri == xsd::date() {
+            Self::Date
+        } else if &iri == xsd::time() {
+            Self::Time
+        } else if &iri == xsd::decimal() {
+            Self::Decimal
+        } else if &iri == xsd::base64_binary() {
+            Self::Base64Binary
+        } else if &iri == xsd::hex_binary() {
+            Self::HexBinary
+        } else if &iri == xsd::language() {
+            Self::Language
         } else if &iri == rdf::xml_literal() {
             Self::XmlLiteral
         } else {
@@ -960,7 +974,7 @@ impl Literal {
     {
         Self {
             lexical_form: escape_string(v),
-            data_type: Some(DataType::Other(data_type)),
+            data_type: Some(DataType::from(data_type)),
             language: None,
         }
     }
-- 
2.43.0


From 660577a49606c63dd7d3880169627ef73a013bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 19/70] fix: float and double literals use the XML Schema
 lexical form for infinities

---
 rdftk_core/src/model/literal.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 7ac24a1..59f0a05 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -510,13 +510,17 @@ impl PartialEq<rust_decimal::Decimal> for Literal {
 
 impl From<f64> for Literal {
     fn from(v: f64) -> Self {
-        Self::with_data_type(v.to_string(), DataType::Double)
+        Self::with_data_type(
+            float_special(v.is_infinite(), v.is_sign_negative())
+                .map_or_else(|| v.to_string(), String::from),
+            DataType::Double,
+        )
     }
 }
 
 impl PartialEq<f64> for Literal {
     fn eq(&self, other: &f64) -> bool {
-        *self.lexical_form() == other.to_string() && self.data_type() == Some(&DataType::Double)
+        *self == Self::from(*other)
     }
 }
 
@@ -578,13 +582,17 @@ impl PartialEq<chrono::Duration> for Literal {
 
 impl From<f32> for Literal {
     fn from(v: f32) -> Self {
-        Self::with_data_type(v.to_string(), DataType::Float)
+        Self::with_data_type(
+            float_special(v.is_infinite(), v.is_sign_negative())
+                .map_or_else(|| v.to_string(), String::from),
+            DataType::Float,
+        )
     }
 }
 
 impl PartialEq<f32> for Literal {
     fn eq(&self, other: &f32) -> bool {
-        *self.lexical_form() == other.to_string() && self.data_type() == Some(&DataType::Float)
+        *self == Self::from(*other)
     }
 }
 
@@ -1040,6 +1048,15 @@ where
     formatted[1..formatted.len() - 1].to_string()
 }
 
+// The lexical forms of infinities in XML Schema are not those used by Rust.
+fn float_special(is_infinite: bool, is_negative: bool) -> Option<&'static str> {
+    match (is_infinite, is_negative) {
+        (true, true) => Some("-INF"),
+        (true, false) => Some("INF"),
+        (false, _) => None,
+    }
+}
+
 fn hex_encode(value: &[u8]) -> String {
     if !value.is_empty() {
         let mut buffer = String::with_capacity(value.len() * 2);
-- 
2.43.0


From 865c3711f7ed6e56733302bc6a06346e50bebd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:56 +0000
Subject: [PATCH 20/70] fix: the lexical form of a literal only contains
 escapes that are valid in N-Triples and Turtle

---
 rdftk_core/src/model/literal.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 59f0a05..cb7a237 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -1044,8 +1044,20 @@ fn escape_string<S>(value: S) -> String
 where
     S: Into<String>,
 {
-    let formatted = format!("{:?}", value.into());
-    formatted[1..formatted.len() - 1].to_string()
+    let value = value.into();
+    let mut escaped = String::with_capacity(value.len());
+    for c in value.chars() {
+        match c {
+            '"' => escaped.push_str("\\\""),
+            '\\' => escaped.push_str("\\\\"),
+            '\t' => escaped.push_str("\\t"),
+            '\n' => escaped.push_str("\\n"),
+            '\r' => escaped.push_str("\\r"),
+            c if c.is_control() => escaped.push_str(&format!("\\u{:04X}", u32::from(c))),
+            c => escaped.push(c),
+        }
+    }
+    escaped
 }
 
 // The lexical forms of infinities in XML Schema are not those used by Rust.
-- 
2.43.0


From 24225d25ee36d4a3e5be145041205655fbf8f563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:57 +0000
Subject: [PATCH 21/70] fix: literals compare equal to the strings they are
 made from, and provide that string, when it needs escapes

---
 rdftk_core/src/model/literal.rs | 42 +++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index cb7a237..77078b9 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -399,7 +399,7 @@ impl From<&Iri> for Literal {
 
 impl PartialEq<Iri> for Literal {
     fn eq(&self, other: &Iri) -> bool {
-        *self.lexical_form() == format!("{other:#}") && self.data_type() == Some(&DataType::Iri)
+        *self == Self::from(other)
     }
 }
 
@@ -410,7 +410,7 @@ impl TryFrom<Literal> for Iri {
         match value.data_type() {
             Some(dt) => {
                 if *dt == DataType::Iri {
-                    Ok(Iri::from_str(value.lexical_form()).map_err(::rdftk_iri::Error::from)?)
+                    Ok(Iri::from_str(&value.unescaped()).map_err(::rdftk_iri::Error::from)?)
                 } else {
                     Err(Error::InvalidLiteralTypeCooercion {
                         from_type: dt.to_string(),
@@ -636,14 +636,14 @@ impl From<&str> for Literal {
 
 impl PartialEq<String> for Literal {
     fn eq(&self, other: &String) -> bool {
-        self.lexical_form() == other
+        self.unescaped() == *other
             && (self.data_type().is_none() || self.data_type() == Some(&DataType::String))
     }
 }
 
 impl PartialEq<str> for Literal {
     fn eq(&self, other: &str) -> bool {
-        self.lexical_form() == other
+        self.unescaped() == *other
             && (self.data_type().is_none() || self.data_type() == Some(&DataType::String))
     }
 }
@@ -1001,12 +1001,21 @@ impl Literal {
     // --------------------------------------------------------------------------------------------
 
     ///
-    /// Return the lexical form of this literal.
+    /// Return the lexical form of this literal. Note that this is the *escaped* form, as it is
+    /// written between quotes in N-Triples or Turtle; see also [`Literal::unescaped`].
     ///
     pub fn lexical_form(&self) -> &String {
         &self.lexical_form
     }
 
+    ///
+    /// Return the string value this literal was constructed from, the lexical form without any
+    /// escapes.
+    ///
+    pub fn unescaped(&self) -> String {
+        unescape_string(&self.lexical_form)
+    }
+
     ///
     /// Returns `true` if this literal has a specified data type, else `false`.
     ///
@@ -1069,6 +1078,29 @@ fn float_special(is_infinite: bool, is_negative: bool) -> Option<&'static str> {
     }
 }
 
+// The inverse of `escape_string`.
+fn unescape_string(value: &str) -> String {
+    let mut unescaped = String::with_capacity(value.len());
+    let mut chars = value.chars();
+    while let Some(c) = chars.next() {
+        match c {
+            '\\' => match chars.next() {
+                Some('t') => unescaped.push('\t'),
+                Some('n') => unescaped.push('\n'),
+                Some('r') => unescaped.push('\r'),
+                Some('u') => {
+                    let hex: String = chars.by_ref().take(4).collect();
+                    unescaped.extend(u32::from_str_radix(&hex, 16).ok().and_then(char::from_u32));
+                }
+                Some(c) => unescaped.push(c),
+                None => {}
+            },
+            c => unescaped.push(c),
+        }
+    }
+    unescaped
+}
+
 fn hex_encode(value: &[u8]) -> String {
     if !value.is_empty() {
         let mut buffer = String::with_capacity(value.len() * 2);
-- 
2.43.0


From f8edf69dfb450b0b3c23ca5e0a1c298389ce7954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 22/70] fix: the N-Triples and N-Quads readers recognize the
 known literal data types

---
 rdftk_io/src/common/parser/ntriples.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_io/src/common/parser/ntriples.rs b/rdftk_io/src/common/parser/ntriples.rs
index ee60037..40a4bc4 100644
--- a/rdftk_io/src/common/parser/ntriples.rs
+++ b/rdftk_io/src/common/parser/ntriples.rs
@@ -148,7 +148,7 @@ fn rdf_literal(input_pair: Pair<'_, Rule>) -> Result<Literal, Error> {
         if let Some(other) = inner_pair.next() {
             match other.as_rule() {
                 Rule::IRIREF => {
-                    let data_type = DataType::Other(iri_ref(other)?);
+                    let data_type = DataType::from(iri_ref(other)?);
                     Ok(Literal::with_data_type(&lexical_form, data_type))
                 }
                 Rule::LANGTAG => {
-- 
2.43.0


From 30dc21c65fa23c883abecd53ad5868cef5fd7b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 23/70] fix: the N-Triples and N-Quads readers decode the
 escapes in literals, and reject invalid code points

---
 rdftk_io/src/common/parser/ntriples.rs | 69 ++++++++++++++------------
 1 file changed, 38 insertions(+), 31 deletions(-)

diff --git a/rdftk_io/src/common/parser/ntriples.rs b/rdftk_io/src/common/parser/ntriples.rs
index 40a4bc4..2e49077 100644
--- a/rdftk_io/src/common/parser/ntriples.rs
+++ b/rdftk_io/src/common/parser/ntriples.rs
@@ -5,7 +5,6 @@ use rdftk_core::model::graph::Graph;
 use rdftk_core::model::literal::{DataType, LanguageTag, Literal};
 use rdftk_core::model::statement::{BlankNode, ObjectNode, Statement, SubjectNode};
 use rdftk_iri::Iri;
-use regex::Regex;
 use std::str::FromStr;
 
 // ------------------------------------------------------------------------------------------------
@@ -179,7 +178,7 @@ fn string(input_pair: Pair<'_, Rule>) -> Result<String, Error> {
             Rule::STRING_LITERAL_QUOTE => {
                 let inner_pair = inner_pair.into_inner().next().unwrap();
                 if inner_pair.as_rule() == Rule::QUOTE_INNER {
-                    Ok(inner_pair.as_str().to_string())
+                    unescape(inner_pair.as_str())
                 } else {
                     Err(pest_error!(
                         unexpected
@@ -207,7 +206,7 @@ fn iri_ref(input_pair: Pair<'_, Rule>) -> Result<Iri, Error> {
     if input_pair.as_rule() == Rule::IRIREF {
         let iri = input_pair.as_str().to_string();
         // strip the '<' and '>' characters.
-        let iri_str = unescape_iri(&iri[1..iri.len() - 1]);
+        let iri_str = unescape(&iri[1..iri.len() - 1])?;
         Ok(Iri::from_str(&iri_str).map_err(rdftk_iri::Error::from)?)
     } else {
         Err(pest_error!(unexpected RULE_FN, &input_pair, [Rule::IRIREF]))
@@ -219,10 +218,8 @@ fn lang_tag(input_pair: Pair<'_, Rule>) -> Result<LanguageTag, Error> {
 
     if input_pair.as_rule() == Rule::LANGTAG {
         let tag = input_pair.as_str().to_string();
-        println!("**{tag}**");
         // strip the leading '@'
         let tag = &tag[1..];
-        println!("**{tag}**");
         Ok(LanguageTag::parse(tag)?)
     } else {
         Err(pest_error!(unexpected RULE_FN, &input_pair, [Rule::LANGTAG]))
@@ -231,34 +228,44 @@ fn lang_tag(input_pair: Pair<'_, Rule>) -> Result<LanguageTag, Error> {
 
 // ------------------------------------------------------------------------------------------------
 
-lazy_static::lazy_static! {
-    static ref UNICODE_ESC: Regex =
-        Regex::new(r"(\\U[[:xdigit:]]{8})|(\\u[[:xdigit:]]{4})").unwrap();
+///
+/// Replace the `ECHAR` and `UCHAR` escapes in a string or IRI with the characters they denote.
+///
+fn unescape(value: &str) -> Result<String, Error> {
+    let mut unescaped = String::with_capacity(value.len());
+    let mut rest = value;
+    while let Some(index) = rest.find('\\') {
+        unescaped.push_str(&rest[..index]);
+        let escape = rest[index + 1..].chars().next();
+        let (c, length) = match escape {
+            Some('t') => ('\t', 2),
+            Some('b') => ('\u{0008}', 2),
+            Some('n') => ('\n', 2),
+            Some('r') => ('\r', 2),
+            Some('f') => ('\u{000C}', 2),
+            Some(c @ ('"' | '\'' | '\\')) => (c, 2),
+            Some('u') => (unescape_uchar(&rest[index..], 6)?, 6),
+            Some('U') => (unescape_uchar(&rest[index..], 10)?, 10),
+            _ => return Err(invalid_escape(&rest[index..])),
+        };
+        unescaped.push(c);
+        rest = &rest[index + length..];
+    }
+    unescaped.push_str(rest);
+    Ok(unescaped)
 }
 
-fn unescape_iri(iri: &str) -> String {
-    let (new_iri, end) =
-        UNICODE_ESC
-            .captures_iter(iri)
-            .fold((String::new(), 0), |(so_far, start), cap| {
-                let cap = cap.get(0).unwrap();
-                (
-                    format!(
-                        "{}{}{}",
-                        so_far,
-                        &iri[start..cap.start()],
-                        unescape_uchar(cap.as_str())
-                    ),
-                    cap.end(),
-                )
-            });
-
-    format!("{}{}", new_iri, &iri[end..])
+fn unescape_uchar(value: &str, length: usize) -> Result<char, Error> {
+    value
+        .get(2..length)
+        .and_then(|digits| u32::from_str_radix(digits, 16).ok())
+        .and_then(char::from_u32)
+        .ok_or_else(|| invalid_escape(value))
 }
 
-fn unescape_uchar(uchar: &str) -> char {
-    use std::char;
-    let uchar = &uchar[2..];
-    let uchar_u32 = u32::from_str_radix(uchar, 16).unwrap();
-    char::from_u32(uchar_u32).unwrap()
+fn invalid_escape(value: &str) -> Error {
+    Error::InvalidFromStr {
+        value: value.to_string(),
+        name: "UCHAR".to_string(),
+    }
 }
-- 
2.43.0


From 4fa1f3ce062e5f7eb61362a96664f95820152cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 24/70] fix: the N-Triples and N-Quads readers reject [], which
 is not in their grammars, as a blank node

---
 rdftk_io/src/common/common.pest        | 4 ++--
 rdftk_io/src/common/parser/ntriples.rs | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rdftk_io/src/common/common.pest b/rdftk_io/src/common/common.pest
index 8c04b42..f597b89 100644
--- a/rdftk_io/src/common/common.pest
+++ b/rdftk_io/src/common/common.pest
@@ -275,7 +275,7 @@ ntriple = {
 
 ntripleSubject = {
     IRIREF
-  | blankNode
+  | BLANK_NODE_LABEL
 }
 
 ntriplePredicate = {
@@ -284,7 +284,7 @@ ntriplePredicate = {
 
 ntripleObject = {
     IRIREF
-  | blankNode
+  | BLANK_NODE_LABEL
   | ntripleLiteral
 }
 
diff --git a/rdftk_io/src/common/parser/ntriples.rs b/rdftk_io/src/common/parser/ntriples.rs
index 2e49077..ca25731 100644
--- a/rdftk_io/src/common/parser/ntriples.rs
+++ b/rdftk_io/src/common/parser/ntriples.rs
@@ -64,7 +64,7 @@ pub(crate) fn subject(input_pair: Pair<'_, Rule>) -> Result<SubjectNode, Error>
         let inner_pair = input_pair.into_inner().next().unwrap();
         match inner_pair.as_rule() {
             Rule::IRIREF => Ok(iri_ref(inner_pair)?.into()),
-            Rule::blankNode => {
+            Rule::BLANK_NODE_LABEL => {
                 let node = inner_pair.as_str().to_string();
                 // strip the leading '_:'
                 let node = &node[2..];
@@ -74,7 +74,7 @@ pub(crate) fn subject(input_pair: Pair<'_, Rule>) -> Result<SubjectNode, Error>
                 unexpected
                 RULE_FN,
                 &inner_pair,
-                [Rule::IRIREF, Rule::blankNode]
+                [Rule::IRIREF, Rule::BLANK_NODE_LABEL]
             )),
         }
     } else {
@@ -104,7 +104,7 @@ pub(crate) fn object(input_pair: Pair<'_, Rule>) -> Result<ObjectNode, Error> {
         let inner_pair = input_pair.into_inner().next().unwrap();
         match inner_pair.as_rule() {
             Rule::IRIREF => Ok(iri_ref(inner_pair)?.into()),
-            Rule::blankNode => {
+            Rule::BLANK_NODE_LABEL => {
                 let node = inner_pair.as_str().to_string();
                 // strip the leading '_:'
                 let node = &node[2..];
@@ -118,7 +118,7 @@ pub(crate) fn object(input_pair: Pair<'_, Rule>) -> Result<ObjectNode, Error> {
                  unexpected
                 RULE_FN,
                 &inner_pair,
-                [Rule::IRIREF, Rule::blankNode, Rule::ntripleLiteral]
+                [Rule::IRIREF, Rule::BLANK_NODE_LABEL, Rule::ntripleLiteral]
             )),
         }
     } else {
-- 
2.43.0


From ca8fb86916f1328cd74e0077da1550dad1b4a124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 25/70] fix: N-Triples and N-Quads output has no short-form
 literals, their grammars have none

---
 rdftk_core/src/model/literal.rs |  2 +-
 rdftk_io/src/nq/writer.rs       |  4 ++--
 rdftk_io/src/nt/writer.rs       | 11 ++++++++++-
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 77078b9..8964926 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -847,7 +847,7 @@ impl Eq for Literal {}
 impl Display for Literal {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match (self.data_type(), f.alternate()) {
-            (Some(DataType::Iri), _) => write!(f, "<{}>", self.lexical_form()),
+            (Some(DataType::Iri), false) => write!(f, "<{}>", self.lexical_form()),
             (
                 Some(DataType::Boolean)
                 | Some(DataType::Long)
diff --git a/rdftk_io/src/nq/writer.rs b/rdftk_io/src/nq/writer.rs
index 99d4630..004113f 100644
--- a/rdftk_io/src/nq/writer.rs
+++ b/rdftk_io/src/nq/writer.rs
@@ -47,9 +47,9 @@ impl ObjectWriter<Graph> for NQuadWriter {
             for predicate in simple_graph.predicates_for(subject) {
                 for object in simple_graph.objects_for(subject, predicate) {
                     if let Some(graph_name) = graph_name {
-                        writeln!(w, "{} {} {} {} .", subject, predicate, object, graph_name)?;
+                        writeln!(w, "{} {} {:#} {} .", subject, predicate, object, graph_name)?;
                     } else {
-                        writeln!(w, "{} {} {} .", subject, predicate, object)?;
+                        writeln!(w, "{} {} {:#} .", subject, predicate, object)?;
                     }
                 }
             }
diff --git a/rdftk_io/src/nt/writer.rs b/rdftk_io/src/nt/writer.rs
index b3e8093..4ca46e5 100644
--- a/rdftk_io/src/nt/writer.rs
+++ b/rdftk_io/src/nt/writer.rs
@@ -8,7 +8,7 @@ use std::io::Write;
 // Public Types
 // ------------------------------------------------------------------------------------------------
 
-#[derive(Copy, Clone, Debug, Default, PartialEq, Eq, Hash)]
+#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
 pub struct NTripleWriterOptions {
     force_string_literals: bool,
 }
@@ -51,6 +51,15 @@ impl ObjectWriter<Graph> for NTripleWriter {
 
 impl GraphWriter for NTripleWriter {}
 
+impl Default for NTripleWriterOptions {
+    fn default() -> Self {
+        Self {
+            // N-Triples has no short forms for boolean, numeric, or IRI, literals.
+            force_string_literals: true,
+        }
+    }
+}
+
 impl HasOptions<NTripleWriterOptions> for NTripleWriter {
     fn set_options(&mut self, options: NTripleWriterOptions) {
         self.options = options;
-- 
2.43.0


From cd87d1f7e08f82df0f0d978bca94aaa58b10a638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 26/70] fix: the angle-bracket form of an Iri escapes the
 characters that IRIREF does not allow

---
 rdftk_iri/src/iri.rs | 59 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 54 insertions(+), 5 deletions(-)

diff --git a/rdftk_iri/src/iri.rs b/rdftk_iri/src/iri.rs
index 78b2057..54202fc 100644
--- a/rdftk_iri/src/iri.rs
+++ b/rdftk_iri/src/iri.rs
@@ -3,7 +3,7 @@
 //!
 
 #[cfg(not(feature = "std"))]
-use alloc::format;
+use alloc::{format, string::{String, ToString}};
 
 use crate::{Name, pname::PrefixedName};
 use core::{
@@ -66,7 +66,15 @@ impl Display for Iri {
             write!(f, "{}", self.0)
         } else {
             // primary representation: RDF <> form
-            write!(f, "<{}>", self.0)
+            write!(f, "<")?;
+            for c in self.0.as_str().chars() {
+                if is_iriref_char(c) {
+                    write!(f, "{c}")?;
+                } else {
+                    write!(f, "\\u{:04X}", u32::from(c))?;
+                }
+            }
+            write!(f, ">")
         }
     }
 }
@@ -77,11 +85,11 @@ impl FromStr for Iri {
     #[inline(always)]
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let s = if s.starts_with('<') && s.ends_with('>') {
-            s.strip_prefix('<').unwrap().strip_suffix('>').unwrap()
+            unescape_iriref(s.strip_prefix('<').unwrap().strip_suffix('>').unwrap())
         } else {
-            s
+            s.to_string()
         };
-        Ok(Self(url::Url::from_str(s)?))
+        Ok(Self(url::Url::from_str(&s)?))
     }
 }
 
@@ -521,3 +529,44 @@ impl From<&PrefixedName> for IriRef {
         Self::from(value.clone())
     }
 }
+
+// ------------------------------------------------------------------------------------------------
+// Private Functions
+// ------------------------------------------------------------------------------------------------
+
+///
+/// Returns `true` if the character may be used, unescaped, in the production `IRIREF`.
+///
+fn is_iriref_char(c: char) -> bool {
+    c > ' ' && !matches!(c, '<' | '>' | '"' | '{' | '}' | '|' | '^' | '`' | '\\')
+}
+
+///
+/// Replace the numeric escapes, `UCHAR`, allowed in the production `IRIREF`.
+///
+fn unescape_iriref(s: &str) -> String {
+    let mut unescaped = String::with_capacity(s.len());
+    let mut rest = s;
+    while let Some(index) = rest.find('\\') {
+        unescaped.push_str(&rest[..index]);
+        rest = &rest[index..];
+        let length = match rest.as_bytes().get(1) {
+            Some(b'u') => 6,
+            Some(b'U') => 10,
+            _ => 0,
+        };
+        let c = rest
+            .get(2..length)
+            .and_then(|digits| u32::from_str_radix(digits, 16).ok())
+            .and_then(char::from_u32);
+        if let Some(c) = c {
+            unescaped.push(c);
+            rest = &rest[length..];
+        } else {
+            unescaped.push('\\');
+            rest = &rest[1..];
+        }
+    }
+    unescaped.push_str(rest);
+    unescaped
+}
-- 
2.43.0


From 0f44bcf2453d82b742184d027b321224ff2022fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 27/70] fix: RDF/JSON blank node objects are written with, and
 read with or without, the _: prefix

---
 rdftk_io/src/json/reader.rs | 2 +-
 rdftk_io/src/json/writer.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rdftk_io/src/json/reader.rs b/rdftk_io/src/json/reader.rs
index 8052a59..2184207 100644
--- a/rdftk_io/src/json/reader.rs
+++ b/rdftk_io/src/json/reader.rs
@@ -232,7 +232,7 @@ fn parse_bnode_object(
 ) -> Result<(), Error> {
     parse_rule!("parse_bnode_object" entry);
     if let Some(Value::String(s)) = object.get(OBJ_KEY_VALUE) {
-        let object = BlankNode::from_str(&s[2..])?;
+        let object = BlankNode::from_str(s)?;
         let st = Statement::new(subject.clone(), predicate.clone(), object);
         graph.insert(st);
         Ok(())
diff --git a/rdftk_io/src/json/writer.rs b/rdftk_io/src/json/writer.rs
index 5e13608..ef5bb0b 100644
--- a/rdftk_io/src/json/writer.rs
+++ b/rdftk_io/src/json/writer.rs
@@ -1,5 +1,5 @@
 use crate::json::syntax::{
-    OBJ_KEY_DATATYPE, OBJ_KEY_LANG, OBJ_KEY_TYPE, OBJ_KEY_VALUE, OBJ_TYPE_BNODE, OBJ_TYPE_LITERAL,
+    BNODE_PREFIX, OBJ_KEY_DATATYPE, OBJ_KEY_LANG, OBJ_KEY_TYPE, OBJ_KEY_VALUE, OBJ_TYPE_BNODE, OBJ_TYPE_LITERAL,
     OBJ_TYPE_URI,
 };
 use crate::json::NAME;
@@ -80,7 +80,7 @@ impl ObjectWriter<Graph> for JsonWriter {
                         );
                         let _ = object_map.insert(
                             OBJ_KEY_VALUE.to_string(),
-                            Value::String(object.as_blank().unwrap().to_string()),
+                            Value::String(format!("{BNODE_PREFIX}{}", object.as_blank().unwrap())),
                         );
                     } else if object.is_resource() {
                         let _ = object_map.insert(
-- 
2.43.0


From 1639498f9118f0e48f85bbb1081ac3dac34bdc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 28/70] fix: the RDF/JSON writer does not escape literals twice

---
 rdftk_io/src/json/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_io/src/json/writer.rs b/rdftk_io/src/json/writer.rs
index ef5bb0b..ffb9b40 100644
--- a/rdftk_io/src/json/writer.rs
+++ b/rdftk_io/src/json/writer.rs
@@ -99,7 +99,7 @@ impl ObjectWriter<Graph> for JsonWriter {
                         );
                         let _ = object_map.insert(
                             OBJ_KEY_VALUE.to_string(),
-                            Value::String(literal.lexical_form().to_string()),
+                            Value::String(literal.unescaped()),
                         );
                         if let Some(language) = literal.language() {
                             let _ = object_map.insert(
-- 
2.43.0


From 4222462dc4083a91262ca31f44dc9c975ce09f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:21 +0000
Subject: [PATCH 29/70] fix: the Turtle writer only writes rdf:type, not
 rdfs:subClassOf and others in its group, as rdf:type

---
 rdftk_io/src/turtle/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index 624c352..5e619d1 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -689,7 +689,7 @@ impl TurtleWriter {
     ) -> Result<()> {
         trace!(name: "write_verb", ?predicate, ?group, max_len, ?flags);
         // Special treatment for `rdf:type`; show it in turtle as just "a"
-        if group == PredicateGroupOrdering::Type {
+        if predicate == rdf::a_type() {
             let type_verb = if self.options.use_rdf_type_a {
                 RDF_TYPE_A.to_string()
             } else {
-- 
2.43.0


From d35c8b1f05ce32e6248ad8171e79cb6d5ab0091f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:21 +0000
Subject: [PATCH 30/70] fix: the members of a collection are not separated by
 commas in Turtle

---
 rdftk_io/src/turtle/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index 5e619d1..6052ad6 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -905,7 +905,7 @@ impl TurtleWriter {
             for (idx, object) in collection.iter().enumerate() {
                 self.write_object(w, graph, object, flags)?;
                 if idx < collection.len() - 1 {
-                    write!(w, "{OBJECT_SEPARATOR}{SPACE_SEPARATOR}")?;
+                    write!(w, "{SPACE_SEPARATOR}")?;
                 }
             }
             if self.options.outdent_collection_end {
-- 
2.43.0


From 108ff52bcc2bafde9e7e75cd353e393e7f6ad17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:15 +0000
Subject: [PATCH 31/70] fix: literals keep their value and data type in Turtle,
 the lexical form is not escaped twice

---
 rdftk_io/src/turtle/writer.rs | 39 +++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index 6052ad6..f25d830 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -11,6 +11,7 @@ use rdftk_core::{
 };
 use rdftk_iri::Iri;
 use rdftk_names::{dc::elements, foaf, owl, rdf, rdfs, skos};
+use regex::Regex;
 use std::{
     cell::RefCell,
     collections::{BTreeMap, HashSet},
@@ -776,24 +777,12 @@ impl TurtleWriter {
     fn write_literal<W: Write>(&self, w: &mut W, graph: &Graph, literal: &Literal) -> Result<()> {
         trace!(name: "write_literal", ?literal);
         Ok(match literal.data_type() {
-            Some(DataType::Iri) => {
-                let iri = Iri::from_str(literal.lexical_form()).map_err(rdftk_iri::Error::from)?;
-                self.write_iri(w, graph, &iri)?
+            Some(data_type) if has_short_form(data_type, literal.lexical_form()) => {
+                write!(w, "{}", literal.lexical_form())?
             }
-            Some(DataType::Boolean)
-            | Some(DataType::Long)
-            | Some(DataType::Int)
-            | Some(DataType::Short)
-            | Some(DataType::Byte)
-            | Some(DataType::UnsignedLong)
-            | Some(DataType::UnsignedInt)
-            | Some(DataType::UnsignedShort)
-            | Some(DataType::UnsignedByte)
-            | Some(DataType::Float)
-            | Some(DataType::Double)
-            | Some(DataType::Decimal) => write!(w, "{}", literal.lexical_form())?,
             _ => {
-                write!(w, "{:?}", literal.lexical_form())?;
+                // The lexical form is already escaped.
+                write!(w, "\"{}\"", literal.lexical_form())?;
                 match (literal.data_type(), literal.language()) {
                     (Some(data_type), None) => {
                         write!(w, "{DATATYPE_PREFIX}")?;
@@ -984,6 +973,24 @@ impl TurtleWriter {
     }
 }
 
+///
+/// Returns `true` if Turtle's short form, without quotes, denotes the same value *and* data type.
+///
+fn has_short_form(data_type: &DataType, lexical_form: &str) -> bool {
+    match data_type {
+        DataType::Boolean => matches!(lexical_form, "true" | "false"),
+        DataType::Decimal => DECIMAL_SHORT_FORM.is_match(lexical_form),
+        DataType::Double => DOUBLE_SHORT_FORM.is_match(lexical_form),
+        _ => false,
+    }
+}
+
+static DECIMAL_SHORT_FORM: LazyLock<Regex> =
+    LazyLock::new(|| Regex::new(r"^[+-]?[0-9]*\.[0-9]+$").unwrap());
+
+static DOUBLE_SHORT_FORM: LazyLock<Regex> =
+    LazyLock::new(|| Regex::new(r"^[+-]?([0-9]+\.[0-9]*|\.?[0-9]+)[eE][+-]?[0-9]+$").unwrap());
+
 // ------------------------------------------------------------------------------------------------
 // Implementations > Ordering
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From 32ff30205213d85b0f2106652485afbc2bb5cb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 32/70] fix: the Turtle writer writes every blank node once,
 nested only where its identity is preserved

---
 rdftk_io/src/common/blanks.rs | 48 +++++++++++++++++++++++++++++++++++
 rdftk_io/src/common/mod.rs    |  3 +++
 rdftk_io/src/turtle/writer.rs | 26 ++++++++++++-------
 3 files changed, 68 insertions(+), 9 deletions(-)
 create mode 100644 rdftk_io/src/common/blanks.rs

diff --git a/rdftk_io/src/common/blanks.rs b/rdftk_io/src/common/blanks.rs
new file mode 100644
index 0000000..3982d8b
--- /dev/null
+++ b/rdftk_io/src/common/blanks.rs
@@ -0,0 +1,48 @@
+use rdftk_core::model::graph::Graph;
+use rdftk_core::model::statement::{BlankNode, ObjectNode, SubjectNode};
+use std::collections::{HashMap, HashSet};
+
+// ------------------------------------------------------------------------------------------------
+// Public Functions
+// ------------------------------------------------------------------------------------------------
+
+///
+/// Return the blank nodes that may be written, without a label, in the place they are referenced.
+/// These are referenced exactly once, and are not part of a cycle of blank nodes.
+///
+pub(crate) fn nestable_blank_nodes(graph: &Graph) -> HashSet<BlankNode> {
+    let mut reference_counts: HashMap<&BlankNode, usize> = Default::default();
+    let mut references: HashMap<&SubjectNode, Vec<&BlankNode>> = Default::default();
+    for statement in graph.statements() {
+        let mut objects = vec![statement.object()];
+        while let Some(object) = objects.pop() {
+            match object {
+                ObjectNode::Blank(node) => {
+                    *reference_counts.entry(node).or_default() += 1;
+                    references
+                        .entry(statement.subject())
+                        .or_default()
+                        .push(node);
+                }
+                ObjectNode::Collection(members) => objects.extend(members.iter()),
+                _ => {}
+            }
+        }
+    }
+
+    let is_candidate = |node: &BlankNode| reference_counts.get(node) == Some(&1);
+    let mut to_visit: Vec<SubjectNode> = references
+        .keys()
+        .filter(|subject| !subject.as_blank().is_some_and(is_candidate))
+        .map(|subject| (*subject).clone())
+        .collect();
+    let mut nestable = HashSet::new();
+    while let Some(subject) = to_visit.pop() {
+        for node in references.get(&subject).into_iter().flatten() {
+            if is_candidate(node) && nestable.insert((*node).clone()) {
+                to_visit.push(SubjectNode::from((*node).clone()));
+            }
+        }
+    }
+    nestable
+}
diff --git a/rdftk_io/src/common/mod.rs b/rdftk_io/src/common/mod.rs
index 5fa3aad..cbaf1ce 100644
--- a/rdftk_io/src/common/mod.rs
+++ b/rdftk_io/src/common/mod.rs
@@ -6,6 +6,9 @@ Internal, common, code for reader and writer implementations.
 // Modules
 // ------------------------------------------------------------------------------------------------
 
+#[cfg(feature = "turtle")]
+pub(crate) mod blanks;
+
 #[cfg(feature = "nt")]
 pub(crate) mod indenter;
 
diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index f25d830..ecbba4b 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -1,4 +1,7 @@
-use crate::{common::indenter::Indenter, GraphWriter};
+use crate::{
+    common::{blanks::nestable_blank_nodes, indenter::Indenter},
+    GraphWriter,
+};
 use itertools::Itertools;
 use objio::{impl_has_options, HasOptions, ObjectWriter};
 use rdftk_core::{
@@ -6,7 +9,7 @@ use rdftk_core::{
     model::{
         graph::Graph,
         literal::{DataType, Literal},
-        statement::{Collection, ObjectNode, Statement, SubjectNode},
+        statement::{BlankNode, Collection, ObjectNode, Statement, SubjectNode},
     },
 };
 use rdftk_iri::Iri;
@@ -111,6 +114,7 @@ enum PredicateGroupOrdering {
 #[derive(Clone, Debug, Default)]
 struct WriterContext {
     indenter: Indenter,
+    nested_blanks: HashSet<BlankNode>,
     blanks_to_write: HashSet<SubjectNode>,
 }
 
@@ -452,6 +456,7 @@ impl TurtleWriter {
         trace!("object_sort_key");
         let mut buffer = Vec::<u8>::new();
         let new_writer = Self::default().with_options(self.options.clone());
+        new_writer.context.borrow_mut().nested_blanks = self.context.borrow().nested_blanks.clone();
         let flags = WriterStatusFlags {
             is_being_sorted: true,
             ..Default::default()
@@ -477,7 +482,12 @@ impl TurtleWriter {
             let mut context_mut = self.context.borrow_mut();
             context_mut.indenter =
                 Indenter::default().with_default_indent_width(self.options.indent_width());
-            // Initialize with all the blank nodes in the graph
+            context_mut.nested_blanks = if self.options.nest_blank_nodes() {
+                nestable_blank_nodes(graph)
+            } else {
+                Default::default()
+            };
+            // Initialize with all the blank nodes in the graph that are not written where referenced
             context_mut.blanks_to_write = graph
                 .blank_node_subjects()
                 .iter()
@@ -485,6 +495,7 @@ impl TurtleWriter {
                     let s = *s;
                     s.clone()
                 })
+                .filter(|s| !context_mut.nested_blanks.contains(s.as_blank().unwrap()))
                 .collect();
         }
 
@@ -845,13 +856,10 @@ impl TurtleWriter {
         trace!(name: "write_object", ?object, ?flags);
         match &object {
             ObjectNode::Blank(blank) => {
-                if self.options.nest_blank_nodes()
-                    && graph.contains_subject(&object.to_subject().unwrap())
-                {
+                let is_nested = self.context.borrow().nested_blanks.contains(blank);
+                if is_nested && graph.contains_subject(&object.to_subject().unwrap()) {
                     self.write_blank_node_property_list(w, graph, object, flags)?;
-                } else if self.options.nest_blank_nodes()
-                    && !graph.contains_subject(&object.to_subject().unwrap())
-                {
+                } else if is_nested {
                     write!(w, "{BLANK_NODE_START}{BLANK_NODE_END}")?;
                 } else {
                     write!(w, "{BLANK_NODE_PREFIX}{NAME_SEPARATOR}{blank}",)?;
-- 
2.43.0


From 4940c7dbb81251effa097b7b9104402bd6179290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 33/70] fix: the Turtle writer writes nested statements as the
 graph they simplify to

---
 rdftk_io/src/turtle/writer.rs | 44 ++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index ecbba4b..41c5f1c 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -9,7 +9,7 @@ use rdftk_core::{
     model::{
         graph::Graph,
         literal::{DataType, Literal},
-        statement::{BlankNode, Collection, ObjectNode, Statement, SubjectNode},
+        statement::{BlankNode, Collection, ObjectNode, SubjectNode},
     },
 };
 use rdftk_iri::Iri;
@@ -349,29 +349,14 @@ impl ObjectWriter<Graph> for TurtleWriter {
     where
         W: Write,
     {
-        let (nested, plain): (Vec<_>, Vec<_>) =
-            graph.statements().partition(|stmt| stmt.is_nested());
-
-        let mut reified_statements: Vec<Statement> = nested
-            .into_iter()
-            .map(|stmt| {
-                let (subject, mut new) = stmt.reify().unwrap();
-                new.push(Statement::new(
-                    stmt.subject(),
-                    stmt.predicate().clone(),
-                    subject.to_object(),
-                ));
-                new
-            })
-            .flatten()
-            .collect();
-        plain
-            .into_iter()
-            .for_each(|s| reified_statements.push(s.clone()));
-
-        let mut denested_graph = Graph::from(reified_statements);
-        denested_graph.set_prefix_mappings(graph.prefix_mappings().clone());
-        self.write_turtle_doc(w, &denested_graph)
+        if graph
+            .statements()
+            .any(|stmt| stmt.is_nested() || contains_statement(stmt.object()))
+        {
+            self.write_turtle_doc(w, &graph.simplify()?)
+        } else {
+            self.write_turtle_doc(w, graph)
+        }
     }
 }
 
@@ -981,6 +966,17 @@ impl TurtleWriter {
     }
 }
 
+///
+/// Returns `true` if the object is, or is a collection that contains, a statement.
+///
+fn contains_statement(object: &ObjectNode) -> bool {
+    match object {
+        ObjectNode::Statement(_) => true,
+        ObjectNode::Collection(members) => members.iter().any(contains_statement),
+        _ => false,
+    }
+}
+
 ///
 /// Returns `true` if Turtle's short form, without quotes, denotes the same value *and* data type.
 ///
-- 
2.43.0


From 0fa4cc4e57bce8add3e6a1ddf5cf812c91f565ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:53 +0000
Subject: [PATCH 34/70] fix: the Turtle writer only writes IRIs relative to the
 base where they resolve to the same IRI

---
 rdftk_io/src/turtle/writer.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index 41c5f1c..77dbf61 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -735,7 +735,7 @@ impl TurtleWriter {
                 }
             }
             let id_base_str = format!("{id_base:#}");
-            if iri_str.starts_with(id_base_str.as_str()) {
+            if is_relative_to(&iri_str, &id_base_str) {
                 return Ok(format!(
                     "{IRI_START}{}{IRI_END}",
                     &iri_str[id_base_str.len()..]
@@ -966,6 +966,21 @@ impl TurtleWriter {
     }
 }
 
+///
+/// Returns `true` if the IRI is the result of resolving what follows the base in it against the base.
+///
+fn is_relative_to(iri: &str, base: &str) -> bool {
+    iri.strip_prefix(base).is_some_and(|relative| {
+        base.ends_with('/')
+            && !base.contains(['?', '#'])
+            && !relative.starts_with('/')
+            && !relative
+                .split(['/', '?', '#'])
+                .next()
+                .is_some_and(|first_segment| first_segment.contains(':'))
+    })
+}
+
 ///
 /// Returns `true` if the object is, or is a collection that contains, a statement.
 ///
-- 
2.43.0


From 7f5f26f29b7e983073990281eae3e1ff043aaa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 35/70] fix: the DOT writer uses the node prefix option for
 both ends of an edge

---
 rdftk_io/src/dot/writer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdftk_io/src/dot/writer.rs b/rdftk_io/src/dot/writer.rs
index 2b31354..5bd91a7 100644
--- a/rdftk_io/src/dot/writer.rs
+++ b/rdftk_io/src/dot/writer.rs
@@ -291,9 +291,10 @@ impl ObjectWriter<Graph> for DotWriter {
         for statement in graph.statements() {
             writeln!(
                 w,
-                "    \"{}{}\" -> \"node_{}\" [label=\"{}\"];",
+                "    \"{}{}\" -> \"{}{}\" [label=\"{}\"];",
                 self.options.node_prefix,
                 self.subject_id(statement.subject()),
+                self.options.node_prefix,
                 self.object_id(statement.object()),
                 match mappings.compress(statement.predicate()) {
                     None => format!("{:#}", statement.predicate()),
-- 
2.43.0


From d991702c0f630580b8fddbeacb3286af46d31221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 36/70] fix: the DOT writer declares every node of the graph
 being written, and only those

---
 rdftk_io/src/dot/writer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rdftk_io/src/dot/writer.rs b/rdftk_io/src/dot/writer.rs
index 5bd91a7..4a0bc29 100644
--- a/rdftk_io/src/dot/writer.rs
+++ b/rdftk_io/src/dot/writer.rs
@@ -281,6 +281,9 @@ impl ObjectWriter<Graph> for DotWriter {
     where
         W: Write,
     {
+        self.nodes.borrow_mut().clear();
+        let graph = graph.simplify()?;
+
         writeln!(w, "digraph {{\n    rankdir=BT\n    charset=\"utf-8\";")?;
 
         // TODO: emit graph name
-- 
2.43.0


From 67164032d243a744770e237ad4f69dc59fae3c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 37/70] fix: the DOT writer does not merge literals that only
 differ by data type into one node

---
 rdftk_io/src/dot/writer.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rdftk_io/src/dot/writer.rs b/rdftk_io/src/dot/writer.rs
index 4a0bc29..8711c81 100644
--- a/rdftk_io/src/dot/writer.rs
+++ b/rdftk_io/src/dot/writer.rs
@@ -408,13 +408,15 @@ impl DotWriter {
 
     fn object_id(&self, node: &ObjectNode) -> String {
         let mut nodes = self.nodes.borrow_mut();
-        if let Some(node) = nodes.get(&node.to_string()) {
+        // the alternate form includes the data type of numeric, boolean, and IRI literals.
+        let key = format!("{node:#}");
+        if let Some(node) = nodes.get(&key) {
             node.id.clone()
         } else {
             let id = format!("{}", nodes.len() + 1);
             if node.is_blank() {
                 let _ = nodes.insert(
-                    node.to_string(),
+                    key,
                     Node {
                         id: id.clone(),
                         kind: NodeKind::Blank,
@@ -423,7 +425,7 @@ impl DotWriter {
                 );
             } else if node.is_resource() {
                 let _ = nodes.insert(
-                    node.to_string(),
+                    key,
                     Node {
                         id: id.clone(),
                         kind: NodeKind::Iri,
@@ -432,7 +434,7 @@ impl DotWriter {
                 );
             } else if node.is_literal() {
                 let _ = nodes.insert(
-                    node.to_string(),
+                    key,
                     Node {
                         id: id.clone(),
                         kind: NodeKind::Literal,
-- 
2.43.0


From 9da8dc674556180958e88fc83235fdc82037bc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 38/70] fix: the TriG writer writes the triples in each graph,
 it had only written an empty block

---
 rdftk_io/src/trig/writer.rs   | 10 ++++++++--
 rdftk_io/src/turtle/writer.rs | 36 +++++++++++++++++++++++------------
 2 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/rdftk_io/src/trig/writer.rs b/rdftk_io/src/trig/writer.rs
index 2d0dbea..1cbbf80 100644
--- a/rdftk_io/src/trig/writer.rs
+++ b/rdftk_io/src/trig/writer.rs
@@ -1,4 +1,4 @@
-use crate::turtle::TurtleWriterOptions;
+use crate::turtle::{TurtleWriter, TurtleWriterOptions};
 use crate::{DataSetWriter, GraphWriter};
 use objio::{impl_has_options, HasOptions, ObjectWriter};
 use rdftk_core::error::Error;
@@ -91,6 +91,12 @@ impl ObjectWriter<Graph> for TrigWriter {
     where
         W: std::io::prelude::Write,
     {
+        // A blank node's scope is the document, so nodes may be shared between graphs, and with
+        // graph names; they are always labeled.
+        let turtle_options = self.options.turtle.clone().without_nested_blank_nodes();
+        let turtle_writer = TurtleWriter::default().with_options(turtle_options);
+        turtle_writer.write_directives(w, graph)?;
+
         if let Some(name) = graph.name() {
             if !self.options().omit_graph_keyword() {
                 w.write_all(b"GRAPH ")?;
@@ -100,7 +106,7 @@ impl ObjectWriter<Graph> for TrigWriter {
         }
         w.write_all(b"{\n")?;
 
-        // TODO: call the TurtleWriter
+        turtle_writer.write_graph_triples(w, graph)?;
 
         w.write_all(b"}\n")?;
         Ok(())
diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index 77dbf61..66dd89a 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -349,20 +349,36 @@ impl ObjectWriter<Graph> for TurtleWriter {
     where
         W: Write,
     {
+        self.write_directives(w, graph)?;
+        self.write_graph_triples(w, graph)
+    }
+}
+
+impl GraphWriter for TurtleWriter {}
+
+impl TurtleWriter {
+    ///
+    /// Write only the directives for the graph.
+    ///
+    pub(crate) fn write_directives<W: Write>(&self, w: &mut W, graph: &Graph) -> Result<()> {
+        self.write_base_iri(w)?;
+        self.write_prefixes(w, graph)
+    }
+
+    ///
+    /// Write only the triples in the graph.
+    ///
+    pub(crate) fn write_graph_triples<W: Write>(&self, w: &mut W, graph: &Graph) -> Result<()> {
         if graph
             .statements()
             .any(|stmt| stmt.is_nested() || contains_statement(stmt.object()))
         {
-            self.write_turtle_doc(w, &graph.simplify()?)
+            self.write_turtle_triples(w, &graph.simplify()?)
         } else {
-            self.write_turtle_doc(w, graph)
+            self.write_turtle_triples(w, graph)
         }
     }
-}
 
-impl GraphWriter for TurtleWriter {}
-
-impl TurtleWriter {
     // ---------------------------------------------------------------------------------------------
     // Formatting
     // ---------------------------------------------------------------------------------------------
@@ -461,8 +477,8 @@ impl TurtleWriter {
     /// [3]  directive  ::= prefixID | base | sparqlPrefix | sparqlBase
     ///```
     ///
-    fn write_turtle_doc<W: Write>(&self, w: &mut W, graph: &Graph) -> Result<()> {
-        trace!("write_turtle_doc");
+    fn write_turtle_triples<W: Write>(&self, w: &mut W, graph: &Graph) -> Result<()> {
+        trace!("write_turtle_triples");
         {
             let mut context_mut = self.context.borrow_mut();
             context_mut.indenter =
@@ -484,10 +500,6 @@ impl TurtleWriter {
                 .collect();
         }
 
-        // [3] directives
-        self.write_base_iri(w)?;
-        self.write_prefixes(w, graph)?;
-
         // [2] ... triples
         let flags = WriterStatusFlags::default();
         self.write_triples(w, graph, flags)?;
-- 
2.43.0


From 2486a30f170e455b6fc1945188960034cfb02f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 39/70] fix: the XML writer splits predicate IRIs into valid
 element names, and does not repeat their prefix

---
 rdftk_io/src/xml/writer.rs | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index 88f4820..c883ab7 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -6,7 +6,7 @@ use crate::xml::syntax::ATTRIBUTE_XML_LANG_PREFIXED;
 use crate::GraphWriter;
 use objio::HasOptions;
 use objio::{impl_has_options, ObjectWriter};
-use rdftk_core::error::{rdf_star_not_supported_error, Error};
+use rdftk_core::error::{invalid_state_error, rdf_star_not_supported_error, Error};
 use rdftk_core::model::graph::Graph;
 use rdftk_core::model::statement::SubjectNode;
 use rdftk_iri::Iri;
@@ -263,9 +263,10 @@ impl XmlWriter {
         }
 
         for predicate in graph.predicates_for(subject) {
-            let (ns, mut name) = split_uri(predicate);
+            let (ns, local_name) = split_uri(predicate)?;
 
             for object in graph.objects_for(subject, predicate) {
+                let mut name = local_name.clone();
                 let mut element = if let Some(prefix) = self.mappings.get(&ns) {
                     name = format!("{}:{}", prefix, name);
                     XmlEvent::start_element(name.as_str()).ns(prefix, &ns)
@@ -333,15 +334,27 @@ fn xml_error(e: xml::writer::Error) -> Error {
     }
 }
 
-fn split_uri(iri: &Iri) -> (String, String) {
+///
+/// Split the IRI into a namespace and the longest local name that is a valid XML element name.
+///
+fn split_uri(iri: &Iri) -> Result<(String, String), Error> {
     let iri = format!("{iri:#}");
     let index = iri
-        .chars()
+        .char_indices()
         .rev()
-        .enumerate()
-        .find_map(|(i, c)| if c == '#' || c == '/' { Some(i) } else { None })
-        .unwrap();
-    assert_ne!(index, iri.len());
-    let index = iri.len() - index;
-    (iri[..index].to_string(), iri[index..].to_string())
+        .take_while(|(_, c)| is_name_char(*c))
+        .filter(|(_, c)| is_name_start_char(*c))
+        .last()
+        .map(|(index, _)| index)
+        .ok_or_else(invalid_state_error)?;
+    Ok((iri[..index].to_string(), iri[index..].to_string()))
+}
+
+/// Note that the string form of an IRI only contains ASCII characters.
+fn is_name_start_char(c: char) -> bool {
+    c.is_ascii_alphabetic() || c == '_'
+}
+
+fn is_name_char(c: char) -> bool {
+    c.is_ascii_alphanumeric() || matches!(c, '_' | '-' | '.')
 }
-- 
2.43.0


From e47bff9849d13216c5852428cdfc5c0fca687bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 40/70] fix: the XML writer writes the value of literals
 without the escapes used in other formats

---
 rdftk_io/src/xml/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index c883ab7..e7add85 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -303,7 +303,7 @@ impl XmlWriter {
                         writer.write(element).map_err(xml_error)?;
                     }
                     writer
-                        .write(XmlEvent::Characters(literal.lexical_form()))
+                        .write(XmlEvent::Characters(&literal.unescaped()))
                         .map_err(xml_error)?;
                 } else {
                     return rdf_star_not_supported_error(super::NAME).into();
-- 
2.43.0


From ee824c45a77dd095184fe0b1be4ef5a1ec2acc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 41/70] fix: the striped XML writer writes every blank node
 once, nested only where its identity is preserved

---
 rdftk_io/src/common/mod.rs |  2 +-
 rdftk_io/src/xml/writer.rs | 30 +++++++++++++++++-------------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/rdftk_io/src/common/mod.rs b/rdftk_io/src/common/mod.rs
index cbaf1ce..30a7330 100644
--- a/rdftk_io/src/common/mod.rs
+++ b/rdftk_io/src/common/mod.rs
@@ -6,7 +6,7 @@ Internal, common, code for reader and writer implementations.
 // Modules
 // ------------------------------------------------------------------------------------------------
 
-#[cfg(feature = "turtle")]
+#[cfg(any(feature = "turtle", feature = "xml"))]
 pub(crate) mod blanks;
 
 #[cfg(feature = "nt")]
diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index e7add85..93d48f3 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -2,16 +2,17 @@ use super::syntax::{
     ATTRIBUTE_ABOUT, ATTRIBUTE_DATATYPE, ATTRIBUTE_NODE_ID, ATTRIBUTE_RESOURCE, DEFAULT_ENCODING,
     ELEMENT_DESCRIPTION, ELEMENT_RDF,
 };
+use crate::common::blanks::nestable_blank_nodes;
 use crate::xml::syntax::ATTRIBUTE_XML_LANG_PREFIXED;
 use crate::GraphWriter;
 use objio::HasOptions;
 use objio::{impl_has_options, ObjectWriter};
 use rdftk_core::error::{invalid_state_error, rdf_star_not_supported_error, Error};
 use rdftk_core::model::graph::Graph;
-use rdftk_core::model::statement::SubjectNode;
+use rdftk_core::model::statement::{BlankNode, SubjectNode};
 use rdftk_iri::Iri;
 use rdftk_names::{dc, foaf, geo, owl, rdf, rdfs, xsd};
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::io::Write;
 use xml::common::XmlVersion;
 use xml::writer::{EventWriter, XmlEvent};
@@ -173,14 +174,17 @@ impl ObjectWriter<Graph> for XmlWriter {
 
         let graph = graph.simplify()?;
 
-        if self.options.style == XmlStyle::Flat {
-            for subject in graph.subjects() {
-                self.write_subject(&mut writer, &graph, subject, true)?;
-            }
+        let nested = if self.options.style == XmlStyle::Flat {
+            Default::default()
         } else {
-            for subject in graph.subjects().iter().filter(|s| s.is_resource()) {
-                self.write_subject(&mut writer, &graph, subject, false)?;
-            }
+            nestable_blank_nodes(&graph)
+        };
+        for subject in graph
+            .subjects()
+            .into_iter()
+            .filter(|s| !s.as_blank().is_some_and(|blank| nested.contains(blank)))
+        {
+            self.write_subject(&mut writer, &graph, subject, &nested)?;
         }
 
         writer
@@ -236,10 +240,10 @@ impl XmlWriter {
         writer: &mut EventWriter<W>,
         graph: &Graph,
         subject: &SubjectNode,
-        flat: bool,
+        nested: &HashSet<BlankNode>,
     ) -> Result<(), Error> {
         if let Some(blank) = subject.as_blank() {
-            if flat {
+            if !nested.contains(blank) {
                 writer
                     .write(
                         XmlEvent::start_element(RDF_DESCRIPTION.as_str())
@@ -279,12 +283,12 @@ impl XmlWriter {
                     element = element.attr(RDF_RESOURCE.as_str(), &iri);
                     writer.write(element).map_err(xml_error)?;
                 } else if let Some(blank) = object.as_blank() {
-                    if flat {
+                    if !nested.contains(blank) {
                         element = element.attr(RDF_NODE_ID.as_str(), blank.as_ref().as_ref());
                         writer.write(element).map_err(xml_error)?;
                     } else {
                         writer.write(element).map_err(xml_error)?;
-                        self.write_subject(writer, graph, &blank.clone().into(), flat)?;
+                        self.write_subject(writer, graph, &blank.clone().into(), nested)?;
                     }
                 } else if let Some(literal) = object.as_literal() {
                     let language = literal
-- 
2.43.0


From 5f89b5b7892e0f1d1f02de1b2aba309a68d80bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 42/70] fix: the XML reader follows the RDF/XML nesting of node
 and property elements, and does not panic on the forms it did not handle

---
 rdftk_io/src/xml/reader.rs | 460 +++++++++++++++++++++----------------
 rdftk_io/src/xml/syntax.rs |   1 +
 2 files changed, 263 insertions(+), 198 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 5ec1530..8922a15 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -1,13 +1,13 @@
 use crate::xml::syntax::{
-    ATTRIBUTE_ABOUT, ATTRIBUTE_ID, ATTRIBUTE_NODE_ID, ATTRIBUTE_PARSE_TYPE, ATTRIBUTE_RESOURCE,
-    ATTRIBUTE_XML_BASE, ATTRIBUTE_XML_LANG, ELEMENT_DESCRIPTION, ELEMENT_RDF,
-    PARSE_TYPE_COLLECTION, PARSE_TYPE_LITERAL, PARSE_TYPE_RESOURCE, XML_NAMESPACE,
+    ATTRIBUTE_ABOUT, ATTRIBUTE_DATATYPE, ATTRIBUTE_ID, ATTRIBUTE_NODE_ID, ATTRIBUTE_PARSE_TYPE,
+    ATTRIBUTE_RESOURCE, ATTRIBUTE_XML_BASE, ATTRIBUTE_XML_LANG, ELEMENT_DESCRIPTION, ELEMENT_LI,
+    ELEMENT_RDF, PARSE_TYPE_COLLECTION, PARSE_TYPE_RESOURCE, XML_NAMESPACE,
 };
 use objio::ObjectReader;
 use rdftk_core::error::{invalid_state_error, Error};
 use rdftk_core::model::graph::Graph;
 use rdftk_core::model::literal::{DataType, LanguageTag, Literal};
-use rdftk_core::model::statement::{BlankNode, Statement, SubjectNode};
+use rdftk_core::model::statement::{BlankNode, ObjectNode, Statement, SubjectNode};
 use rdftk_iri::Iri;
 use rdftk_names::rdf;
 use std::io::Read;
@@ -52,13 +52,22 @@ enum ParseType {
     Collection,
 }
 
+///
+/// The values inherited by an element from those that contain it.
+///
+#[derive(Clone, Debug, Default)]
+struct Scope {
+    uri_base: Option<Iri>,
+    language: Option<LanguageTag>,
+}
+
 #[derive(Clone, Debug)]
 struct Attributes<'a> {
     subject_type: Option<SubjectType>,
     parse_type: Option<ParseType>,
     uri_base: Option<Iri>,
     data_type: Option<Iri>,
-    language: Option<LanguageTag>,
+    language: Option<Option<LanguageTag>>,
     resource: Option<Iri>,
     inner: Vec<&'a OwnedAttribute>,
 }
@@ -94,6 +103,25 @@ impl ExpectedName {
     }
 }
 
+// ------------------------------------------------------------------------------------------------
+
+impl Scope {
+    fn nested(&self, attributes: &Attributes<'_>) -> Self {
+        Self {
+            uri_base: attributes.uri_base.clone().or(self.uri_base.clone()),
+            language: attributes.language.clone().unwrap_or(self.language.clone()),
+        }
+    }
+
+    fn literal(&self, value: &str) -> Literal {
+        // SPEC: §2.7 Languages: xml:lang
+        match &self.language {
+            Some(language) => Literal::with_language(value, language.clone()),
+            None => Literal::plain(value),
+        }
+    }
+}
+
 // ------------------------------------------------------------------------------------------------
 // Private Functions
 // ------------------------------------------------------------------------------------------------
@@ -149,12 +177,8 @@ fn parse_document<R: Read>(event_reader: &mut EventReader<&mut R>) -> Result<Gra
                 trace_event!("parse_document" => event);
                 let attributes = parse_attributes(attributes)?;
                 if rdf_element.matches(name) {
-                    let _ = parse_subject_element(
-                        event_reader,
-                        &attributes.uri_base,
-                        None,
-                        &mut graph,
-                    )?;
+                    let scope = Scope::default().nested(&attributes);
+                    let _ = parse_node_elements(event_reader, &scope, &mut graph)?;
                 } else {
                     error_event!(state => "parse_document", "expecting rdf:RDF");
                 }
@@ -169,14 +193,15 @@ fn parse_document<R: Read>(event_reader: &mut EventReader<&mut R>) -> Result<Gra
     }
 }
 
-fn parse_subject_element<R: Read>(
+///
+/// Parse all the node elements up to, and including, the end of the containing element.
+///
+fn parse_node_elements<R: Read>(
     event_reader: &mut EventReader<&mut R>,
-    xml_base: &Option<Iri>,
-    _subject: Option<&SubjectNode>,
+    scope: &Scope,
     graph: &mut Graph,
-) -> Result<Option<SubjectNode>, Error> {
-    let description_element = ExpectedName::new(ELEMENT_DESCRIPTION, rdf::namespace_str());
-    let mut subject: Option<SubjectNode> = None;
+) -> Result<Vec<SubjectNode>, Error> {
+    let mut subjects = Vec::default();
     loop {
         let event = event_reader.next();
         match &event {
@@ -185,71 +210,85 @@ fn parse_subject_element<R: Read>(
                 namespace: _,
                 attributes,
             }) => {
-                trace_event!("parse_subject_element" => event);
-                let attributes = parse_attributes(attributes)?;
-                let subject_node: SubjectNode = match &attributes.subject_type {
-                    None => {
-                        // SPEC: §2.1 Introduction
-                        BlankNode::generate().into()
-                    }
-                    Some(SubjectType::Resource(subject)) => {
-                        // SPEC: §2.2 Node Elements and Property Elements
-                        subject.clone().into()
-                    }
-                    Some(SubjectType::RelativeResource(subject)) => {
-                        // SPEC: 2.14 Abbreviating URIs: rdf:ID and xml:base
-                        let uri = format!("{}{}", xml_base.as_ref().unwrap(), subject);
-                        value_to_iri(&uri)?.into()
-                    }
-                    Some(SubjectType::BlankNamed(subject)) => {
-                        // SPEC: §2.10 Identifying Blank Nodes: rdf:nodeID
-                        BlankNode::from_str(subject)?.into()
-                    }
-                };
-                if !description_element.matches(name) {
-                    // SPEC: §2.13 Typed Node Elements
-                    graph.insert(Statement::new(
-                        subject_node.clone(),
-                        rdf::a_type().clone(),
-                        name_to_iri(name)?,
-                    ));
-                }
-                parse_predicate_attributes(&attributes.inner, &subject_node, graph)?;
-                parse_predicate_element(
+                trace_event!("parse_node_elements" => event);
+                subjects.push(parse_node_element(
                     event_reader,
-                    if attributes.uri_base.is_some() {
-                        &attributes.uri_base
-                    } else {
-                        xml_base
-                    },
-                    &subject_node,
+                    scope,
+                    name,
+                    &parse_attributes(attributes)?,
                     graph,
-                )?;
-                // set outer loop value
-                subject = Some(subject_node);
+                )?);
             }
             Ok(XmlEvent::EndElement { .. }) => {
-                trace_event!("parse_subject_element" => event);
-                break;
+                trace_event!("parse_node_elements" => event);
+                return Ok(subjects);
+            }
+            Ok(XmlEvent::EndDocument) => {
+                error_event!(state => "parse_node_elements", "unexpected end of document");
             }
             Ok(_) => {
-                trace_event!("parse_subject_element" => ignore event);
+                trace_event!("parse_node_elements" => ignore event);
             }
             Err(e) => {
-                error_event!(parse => "parse_subject_element", e);
+                error_event!(parse => "parse_node_elements", e);
             }
         }
     }
+}
+
+///
+/// Parse a single node element, after it's start and up to, and including, it's end.
+///
+fn parse_node_element<R: Read>(
+    event_reader: &mut EventReader<&mut R>,
+    scope: &Scope,
+    name: &OwnedName,
+    attributes: &Attributes<'_>,
+    graph: &mut Graph,
+) -> Result<SubjectNode, Error> {
+    let description_element = ExpectedName::new(ELEMENT_DESCRIPTION, rdf::namespace_str());
+    let scope = scope.nested(attributes);
+    let subject: SubjectNode = match &attributes.subject_type {
+        None => {
+            // SPEC: §2.1 Introduction
+            BlankNode::generate().into()
+        }
+        Some(SubjectType::Resource(subject)) => {
+            // SPEC: §2.2 Node Elements and Property Elements
+            subject.clone().into()
+        }
+        Some(SubjectType::RelativeResource(subject)) => {
+            // SPEC: 2.14 Abbreviating URIs: rdf:ID and xml:base
+            if let Some(base) = &scope.uri_base {
+                base.with_new_fragment(subject).into()
+            } else {
+                error_event!(state => "parse_node_element", "rdf:ID requires an xml:base");
+            }
+        }
+        Some(SubjectType::BlankNamed(subject)) => {
+            // SPEC: §2.10 Identifying Blank Nodes: rdf:nodeID
+            BlankNode::from_str(subject)?.into()
+        }
+    };
+    if !description_element.matches(name) {
+        // SPEC: §2.13 Typed Node Elements
+        graph.insert(Statement::new(
+            subject.clone(),
+            rdf::a_type().clone(),
+            name_to_iri(name)?,
+        ));
+    }
+    parse_predicate_attributes(&attributes.inner, &scope, &subject, graph)?;
+    parse_predicate_elements(event_reader, &scope, &subject, graph)?;
     Ok(subject)
 }
 
-#[inline]
 fn name_to_iri(name: &OwnedName) -> Result<Iri, Error> {
-    value_to_iri(&format!(
-        "{}{}",
-        name.namespace.as_ref().unwrap(),
-        name.local_name
-    ))
+    if let Some(namespace) = &name.namespace {
+        value_to_iri(&format!("{}{}", namespace, name.local_name))
+    } else {
+        error_event!(state => "name_to_iri", "elements and attributes require a namespace");
+    }
 }
 
 #[inline]
@@ -259,6 +298,7 @@ fn value_to_iri(name: &str) -> Result<Iri, Error> {
 
 fn parse_predicate_attributes(
     attributes: &[&OwnedAttribute],
+    scope: &Scope,
     subject: &SubjectNode,
     graph: &mut Graph,
 ) -> Result<(), Error> {
@@ -269,22 +309,28 @@ fn parse_predicate_attributes(
             "XmlReader::parse_predicate_attributes attribute: {:?}",
             attribute
         );
-        graph.insert(Statement::new(
-            subject.clone(),
-            name_to_iri(&attribute.name)?,
-            Literal::plain(&attribute.value),
-        ));
+        let predicate = name_to_iri(&attribute.name)?;
+        let object: ObjectNode = if &predicate == rdf::a_type() {
+            value_to_iri(&attribute.value)?.into()
+        } else {
+            scope.literal(&attribute.value).into()
+        };
+        graph.insert(Statement::new(subject.clone(), predicate, object));
     }
     Ok(())
 }
 
-fn parse_predicate_element<R: Read>(
+///
+/// Parse all the property elements up to, and including, the end of the containing element.
+///
+fn parse_predicate_elements<R: Read>(
     event_reader: &mut EventReader<&mut R>,
-    xml_base: &Option<Iri>,
+    scope: &Scope,
     subject: &SubjectNode,
     graph: &mut Graph,
 ) -> Result<(), Error> {
-    let mut no_child_elements = false;
+    let li_element = ExpectedName::new(ELEMENT_LI, rdf::namespace_str());
+    let mut li_counter: u32 = 0;
     loop {
         let event = event_reader.next();
         match &event {
@@ -293,96 +339,111 @@ fn parse_predicate_element<R: Read>(
                 namespace: _,
                 attributes,
             }) => {
-                trace_event!("parse_predicate_element" => event);
-                if no_child_elements {
-                    error_event!(state => "parse_predicate_element", "child elements not allowed here");
-                }
-                let attributes = parse_attributes(attributes)?;
-                if let Some(resource) = attributes.resource {
-                    // SPEC: §2.4 Empty Property Elements
-                    graph.insert(Statement::new(
-                        subject.clone(),
-                        name_to_iri(name)?,
-                        resource,
-                    ));
-                    // set outer loop value
-                    no_child_elements = true;
+                trace_event!("parse_predicate_elements" => event);
+                let predicate = if li_element.matches(name) {
+                    // SPEC: §2.15 Container Membership Property Elements: rdf:li and rdf:_n
+                    li_counter += 1;
+                    value_to_iri(&format!("{}_{}", rdf::namespace_str(), li_counter))?
                 } else {
-                    match attributes.parse_type {
-                        None => {
-                            if let Some(content) =
-                                parse_object_element(event_reader, xml_base, graph)?
-                            {
-                                let literal = if let Some(data_type) = attributes.data_type {
-                                    // SPEC: §2.9 Typed Literals: rdf:datatype
-                                    Literal::with_data_type(&content, DataType::from(data_type))
-                                } else if let Some(language) = attributes.language {
-                                    // SPEC: §2.7 Languages: xml:lang
-                                    Literal::with_language(&content, language)
-                                } else {
-                                    Literal::plain(&content)
-                                };
-                                graph.insert(Statement::new(
-                                    subject.clone(),
-                                    name_to_iri(name)?,
-                                    literal,
-                                ));
-                            }
-                        }
-                        Some(ParseType::XmlLiteral) => {
-                            // SPEC: §2.8 XML Literals: rdf:parseType="Literal"
-                            let content = parse_xml_literal_element(event_reader)?
-                                .replace('<', "&lt;")
-                                .replace('>', "&gt;");
-                            graph.insert(Statement::new(
-                                subject.clone(),
-                                name_to_iri(name)?,
-                                Literal::with_data_type(&content, DataType::XmlLiteral),
-                            ));
-                        }
-                        Some(ParseType::Resource) => {
-                            // SPEC: §2.11 Omitting Blank Nodes: rdf:parseType="Resource"
-                            let subject_node = BlankNode::generate().into();
-                            //parse_predicate_attributes(&attributes.inner, &subject_node, graph)?;
-                            let _subject = parse_subject_element(
-                                event_reader,
-                                if attributes.uri_base.is_some() {
-                                    &attributes.uri_base
-                                } else {
-                                    xml_base
-                                },
-                                Some(&subject_node),
-                                graph,
-                            )?;
-                        }
-                        Some(ParseType::Collection) => {
-                            // SPEC: §2.16 Collections: rdf:parseType="Collection"
-                            todo!()
-                        }
-                    }
-                }
+                    name_to_iri(name)?
+                };
+                let attributes = parse_attributes(attributes)?;
+                let object = parse_object(event_reader, scope, &attributes, graph)?;
+                graph.insert(Statement::new(subject.clone(), predicate, object));
             }
             Ok(XmlEvent::EndElement { .. }) => {
-                trace_event!("parse_predicate_element" => event);
+                trace_event!("parse_predicate_elements" => event);
                 return Ok(());
             }
+            Ok(XmlEvent::EndDocument) => {
+                error_event!(state => "parse_predicate_elements", "unexpected end of document");
+            }
             Ok(_) => {
-                trace_event!("parse_predicate_element" => ignore event);
+                trace_event!("parse_predicate_elements" => ignore event);
             }
             Err(e) => {
-                error_event!(parse => "parse_predicate_element", e);
+                error_event!(parse => "parse_predicate_elements", e);
+            }
+        }
+    }
+}
+
+///
+/// Parse the object of a property element, up to, and including, the end of that element.
+///
+fn parse_object<R: Read>(
+    event_reader: &mut EventReader<&mut R>,
+    scope: &Scope,
+    attributes: &Attributes<'_>,
+    graph: &mut Graph,
+) -> Result<ObjectNode, Error> {
+    let scope = &scope.nested(attributes);
+    match attributes.parse_type {
+        Some(ParseType::XmlLiteral) => {
+            // SPEC: §2.8 XML Literals: rdf:parseType="Literal"
+            let content = parse_xml_literal_element(event_reader)?;
+            Ok(Literal::with_data_type(&content, DataType::XmlLiteral).into())
+        }
+        Some(ParseType::Resource) => {
+            // SPEC: §2.11 Omitting Blank Nodes: rdf:parseType="Resource"
+            let subject = BlankNode::generate().into();
+            parse_predicate_elements(event_reader, scope, &subject, graph)?;
+            Ok(subject.to_object())
+        }
+        Some(ParseType::Collection) => {
+            // SPEC: §2.16 Collections: rdf:parseType="Collection"
+            let members = parse_node_elements(event_reader, scope, graph)?;
+            Ok(insert_collection(members, graph))
+        }
+        None => {
+            let subject: Option<SubjectNode> =
+                match (&attributes.resource, &attributes.subject_type) {
+                    // SPEC: §2.4 Empty Property Elements
+                    (Some(resource), _) => Some(resource.clone().into()),
+                    // SPEC: §2.10 Identifying Blank Nodes: rdf:nodeID
+                    (None, Some(SubjectType::BlankNamed(node))) => {
+                        Some(BlankNode::from_str(node)?.into())
+                    }
+                    // SPEC: §2.12 Omitting Nodes: Property Attributes on an empty Property Element
+                    (None, _) if !attributes.inner.is_empty() => Some(BlankNode::generate().into()),
+                    _ => None,
+                };
+            if let Some(subject) = subject {
+                parse_predicate_attributes(&attributes.inner, scope, &subject, graph)?;
+                if !parse_node_elements(event_reader, scope, graph)?.is_empty() {
+                    error_event!(state => "parse_object", "child elements not allowed here");
+                }
+                Ok(subject.to_object())
+            } else {
+                parse_object_element(event_reader, scope, attributes, graph)
             }
         }
     }
 }
 
+fn insert_collection(members: Vec<SubjectNode>, graph: &mut Graph) -> ObjectNode {
+    let mut rest: ObjectNode = rdf::nil().clone().into();
+    for member in members.into_iter().rev() {
+        let subject: SubjectNode = BlankNode::generate().into();
+        graph.insert(Statement::new(
+            subject.clone(),
+            rdf::first().clone(),
+            member.to_object(),
+        ));
+        graph.insert(Statement::new(subject.clone(), rdf::rest().clone(), rest));
+        rest = subject.to_object();
+    }
+    rest
+}
+
 fn parse_object_element<R: Read>(
     event_reader: &mut EventReader<&mut R>,
-    xml_base: &Option<Iri>,
+    scope: &Scope,
+    attributes: &Attributes<'_>,
     graph: &mut Graph,
-) -> Result<Option<String>, Error> {
+) -> Result<ObjectNode, Error> {
     let mut content = String::new();
-    let mut has_elements = false;
+    let mut subject: Option<SubjectNode> = None;
     let mut has_characters = false;
     loop {
         let event = event_reader.next();
@@ -392,47 +453,45 @@ fn parse_object_element<R: Read>(
                 namespace: _,
                 attributes,
             }) => {
-                trace_event!("parse_content_element" => event);
-                if has_characters {
+                trace_event!("parse_object_element" => event);
+                if has_characters || subject.is_some() {
                     error_event!(state => "parse_object_element", &format!("found XML content, parseType != Literal ({:?})", name));
                 }
-                // set outer loop value
-                has_elements = true;
-                let attributes = parse_attributes(attributes)?;
-                let subject_node = BlankNode::generate().into();
-                let _subject = parse_subject_element(
+                subject = Some(parse_node_element(
                     event_reader,
-                    if attributes.uri_base.is_some() {
-                        &attributes.uri_base
-                    } else {
-                        xml_base
-                    },
-                    Some(&subject_node),
+                    scope,
+                    name,
+                    &parse_attributes(attributes)?,
                     graph,
-                )?;
+                )?);
             }
             Ok(XmlEvent::EndElement { .. }) => {
-                trace_event!("parse_content_element" => event);
-                return Ok(Some(content));
+                trace_event!("parse_object_element" => event);
+                return Ok(if let Some(subject) = subject {
+                    subject.to_object()
+                } else if let Some(data_type) = &attributes.data_type {
+                    // SPEC: §2.9 Typed Literals: rdf:datatype
+                    Literal::with_data_type(&content, DataType::from(data_type.clone())).into()
+                } else {
+                    scope.literal(&content).into()
+                });
             }
-            Ok(XmlEvent::CData(value)) => {
-                trace_event!("parse_content_element" => event);
-                if has_elements {
-                    error_event!(state => "parse_object_element", format!("found character content after element(s)"));
+            Ok(XmlEvent::CData(value)) | Ok(XmlEvent::Characters(value)) => {
+                trace_event!("parse_object_element" => event);
+                if subject.is_some() {
+                    error_event!(state => "parse_object_element", "found character content after element(s)");
                 }
                 // set outer loop value
                 has_characters = true;
                 content.push_str(value);
             }
-            Ok(XmlEvent::Characters(value)) => {
-                trace_event!("parse_content_element" => event);
-                if has_elements {
-                    error_event!(state => "parse_object_element", "found character content after element(s)");
-                }
-                // set outer loop value
-                has_characters = true;
+            Ok(XmlEvent::Whitespace(value)) => {
+                trace_event!("parse_object_element" => event);
                 content.push_str(value);
             }
+            Ok(XmlEvent::EndDocument) => {
+                error_event!(state => "parse_object_element", "unexpected end of document");
+            }
             Ok(_) => {
                 trace_event!("parse_object_element" => ignore event);
             }
@@ -455,31 +514,29 @@ fn parse_xml_literal_element<R: Read>(
     loop {
         let event = event_reader.next();
         match &event {
-            Ok(XmlEvent::StartElement { .. }) => {
-                trace_event!("parse_content_element" => event);
-                if let Some(event) = event.unwrap().as_writer_event() {
-                    writer.write(event).unwrap()
-                }
-                opened += 1;
-            }
-            Ok(XmlEvent::EndElement { .. }) => {
-                trace_event!("parse_content_element" => event);
-                if let Some(event) = event.unwrap().as_writer_event() {
-                    writer.write(event).unwrap()
-                }
-                opened -= 1;
-                if opened == 0 {
-                    return Ok(String::from_utf8(content).unwrap());
-                }
+            Ok(XmlEvent::EndElement { .. }) if opened == 0 => {
+                trace_event!("parse_xml_literal_element" => event);
+                return Ok(String::from_utf8(content)?);
             }
             Ok(event) => {
+                match event {
+                    XmlEvent::StartElement { .. } => opened += 1,
+                    XmlEvent::EndElement { .. } => opened -= 1,
+                    XmlEvent::EndDocument => {
+                        error_event!(state => "parse_xml_literal_element", "unexpected end of document");
+                    }
+                    _ => {}
+                }
                 // We only leave trim_whitespace=false so that these events are also written out.
                 if let Some(event) = event.as_writer_event() {
-                    writer.write(event).unwrap()
+                    writer.write(event).map_err(|e| Error::Tokenizer {
+                        representation: super::NAME.into(),
+                        source: Box::new(e),
+                    })?;
                 }
             }
             Err(e) => {
-                error_event!(parse => "parse_content_element", e);
+                error_event!(parse => "parse_xml_literal_element", e);
             }
         }
     }
@@ -501,7 +558,11 @@ fn parse_attributes(attributes: &[OwnedAttribute]) -> Result<Attributes<'_>, Err
             if attribute.name.local_name == ATTRIBUTE_XML_BASE {
                 response.uri_base = Some(value_to_iri(&attribute.value)?);
             } else if attribute.name.local_name == ATTRIBUTE_XML_LANG {
-                response.language = Some(LanguageTag::from_str(&attribute.value)?);
+                response.language = Some(if attribute.value.is_empty() {
+                    None
+                } else {
+                    Some(LanguageTag::from_str(&attribute.value)?)
+                });
             }
         } else if attribute.name.namespace == Some(rdf::namespace_str().to_string()) {
             if attribute.name.local_name == ATTRIBUTE_ABOUT {
@@ -515,15 +576,18 @@ fn parse_attributes(attributes: &[OwnedAttribute]) -> Result<Attributes<'_>, Err
             } else if attribute.name.local_name == ATTRIBUTE_RESOURCE {
                 response.resource = Some(value_to_iri(&attribute.value)?);
             } else if attribute.name.local_name == ATTRIBUTE_PARSE_TYPE {
-                if attribute.value == PARSE_TYPE_LITERAL {
-                    response.parse_type = Some(ParseType::XmlLiteral);
-                } else if attribute.value == PARSE_TYPE_RESOURCE {
+                if attribute.value == PARSE_TYPE_RESOURCE {
                     response.parse_type = Some(ParseType::Resource);
                 } else if attribute.value == PARSE_TYPE_COLLECTION {
                     response.parse_type = Some(ParseType::Collection);
                 } else {
-                    panic!();
+                    // SPEC: §7.2.20 Any other value, as well as "Literal", is treated as "Literal".
+                    response.parse_type = Some(ParseType::XmlLiteral);
                 }
+            } else if attribute.name.local_name == ATTRIBUTE_DATATYPE {
+                response.data_type = Some(value_to_iri(&attribute.value)?);
+            } else {
+                response.inner.push(attribute);
             }
         } else {
             response.inner.push(attribute);
diff --git a/rdftk_io/src/xml/syntax.rs b/rdftk_io/src/xml/syntax.rs
index 1cb883b..e266af7 100644
--- a/rdftk_io/src/xml/syntax.rs
+++ b/rdftk_io/src/xml/syntax.rs
@@ -21,6 +21,7 @@ pub(super) const ATTRIBUTE_XML_LANG: &str = "lang";
 pub(super) const ATTRIBUTE_XML_LANG_PREFIXED: &str = "xml:lang";
 
 pub(super) const ELEMENT_DESCRIPTION: &str = "Description";
+pub(super) const ELEMENT_LI: &str = "li";
 pub(super) const ELEMENT_RDF: &str = "RDF";
 
 pub(super) const PARSE_TYPE_COLLECTION: &str = "Collection";
-- 
2.43.0


From 0b3aa0018edde6a42f7cf33002f13405b4e60692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 43/70] fix: owl:incompatibleWith, xsd:ENTITY and
 foaf:isPrimaryTopicOf have their published names

---
 rdftk_names/src/foaf.rs | 2 +-
 rdftk_names/src/owl.rs  | 2 +-
 rdftk_names/src/xsd.rs  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rdftk_names/src/foaf.rs b/rdftk_names/src/foaf.rs
index eada607..592913b 100644
--- a/rdftk_names/src/foaf.rs
+++ b/rdftk_names/src/foaf.rs
@@ -22,7 +22,7 @@ namespace! {
         made, "made",
         maker, "maker",
         primary_topic, "primaryTopic",
-        primary_topic_of, "primaryTopicOf",
+        primary_topic_of, "isPrimaryTopicOf",
         project, "Project",
         organization, "Organization",
         group, "Group",
diff --git a/rdftk_names/src/owl.rs b/rdftk_names/src/owl.rs
index 77d5267..e45ccdf 100644
--- a/rdftk_names/src/owl.rs
+++ b/rdftk_names/src/owl.rs
@@ -67,7 +67,7 @@ namespace! {
         version_info, "versionInfo",
         deprecated, "deprecated",
         backward_compatible_with, "backwardCompatibleWith",
-        incompatible_with, "incompatible_with",
+        incompatible_with, "incompatibleWith",
         prior_version, "priorVersion",
         ontology, "Ontology",
         version, "version",
diff --git a/rdftk_names/src/xsd.rs b/rdftk_names/src/xsd.rs
index 61ed016..a29e27f 100644
--- a/rdftk_names/src/xsd.rs
+++ b/rdftk_names/src/xsd.rs
@@ -14,7 +14,7 @@ namespace! {
         day_time_duration, "dayTimeDuration",
         decimal, "decimal",
         duration, "duration",
-        entity, "entity",
+        entity, "ENTITY",
         g_day, "gDay",
         g_month, "gMonth",
         g_month_day, "gMonthDay",
-- 
2.43.0


From 42d677a3fe997e231f9f8cbefb1e1ec48cfe378c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:27 +0000
Subject: [PATCH 44/70] fix: the N-Quads reader accepts statements of the
 default graph

---
 rdftk_io/src/common/parser/nquads.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rdftk_io/src/common/parser/nquads.rs b/rdftk_io/src/common/parser/nquads.rs
index fb0c4ce..931ad65 100644
--- a/rdftk_io/src/common/parser/nquads.rs
+++ b/rdftk_io/src/common/parser/nquads.rs
@@ -56,7 +56,9 @@ fn nquad(input_pair: Pair<'_, Rule>, data_set: &mut DataSet) -> Result<(), Error
         let predicate: Iri = nt_predicate(inner_pairs.next().unwrap())?;
         let object: ObjectNode = nt_object(inner_pairs.next().unwrap())?;
         let statement: Statement = Statement::new(subject, predicate, object);
-        let graph: &mut Graph = if let Some(new_inner_pair) = inner_pairs.next() {
+        let graph: &mut Graph = if let Some(new_inner_pair) =
+            inner_pairs.next().filter(|pair| pair.as_rule() == Rule::ntripleSubject)
+        {
             let graph_name = subject_to_graph_name(nt_subject(new_inner_pair)?);
             if let Some(graph) = data_set.graph_mut(&Some(graph_name.clone())) {
                 graph
-- 
2.43.0


From 7d4e582d0f1e5e74eb2762c0de986b148ff0b9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:27 +0000
Subject: [PATCH 45/70] fix: blank node labels may contain consecutive periods

---
 rdftk_io/src/common/common.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_io/src/common/common.pest b/rdftk_io/src/common/common.pest
index f597b89..5bb44a7 100644
--- a/rdftk_io/src/common/common.pest
+++ b/rdftk_io/src/common/common.pest
@@ -338,7 +338,7 @@ BLANK_NODE_LABEL = @{
 
 BLANK_NODE_LABEL_TAIL = {
     PN_CHARS
-  | &("." ~ PN_CHARS) ~ "."
+  | &("."+ ~ PN_CHARS) ~ "."
 }
 
 ANON = {
-- 
2.43.0


From 25770385891777565ac4026bbe10f9d4aa8071bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:55 +0000
Subject: [PATCH 46/70] fix: an IRI reference of N-Triples and N-Quads has no
 '<' in it

---
 rdftk_io/src/common/common.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_io/src/common/common.pest b/rdftk_io/src/common/common.pest
index 5bb44a7..e7b077c 100644
--- a/rdftk_io/src/common/common.pest
+++ b/rdftk_io/src/common/common.pest
@@ -319,7 +319,7 @@ IRIREF_INNER = @{
 
 IRIREF_CHAR = {
     /* #x00=NULL #01-#x1F=control codes #x20=space */
-    !(">" | '\u{0000}'..'\u{0020}' | "\"" | "{" | "}" | "|" | "^" | "`" | "\\") ~ ANY
+    !("<" | ">" | '\u{0000}'..'\u{0020}' | "\"" | "{" | "}" | "|" | "^" | "`" | "\\") ~ ANY
   | UCHAR
 }
 
-- 
2.43.0


From 35dadbc6131af67addb66671321946b3caf965c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:30 +0000
Subject: [PATCH 47/70] fix: the RDF/XML writer uses character references where
 XML 1.1 requires them

---
 rdftk_io/src/xml/writer.rs | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index 93d48f3..a0d1dd6 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -15,6 +15,7 @@ use rdftk_names::{dc, foaf, geo, owl, rdf, rdfs, xsd};
 use std::collections::{HashMap, HashSet};
 use std::io::Write;
 use xml::common::XmlVersion;
+use xml::escape::escape_str_attribute;
 use xml::writer::{EventWriter, XmlEvent};
 use xml::EmitterConfig;
 
@@ -151,9 +152,11 @@ impl ObjectWriter<Graph> for XmlWriter {
     where
         W: Write,
     {
-        let config = EmitterConfig::new()
+        let mut config = EmitterConfig::new()
             .perform_indent(self.options.pretty_print)
             .normalize_empty_elements(self.options.pretty_print);
+        // not all the characters that have to be escaped are by the emitter, see `escape_text`
+        config.perform_escaping = false;
         let mut writer = config.create_writer(w);
 
         writer
@@ -259,7 +262,7 @@ impl XmlWriter {
             writer
                 .write(
                     XmlEvent::start_element(RDF_DESCRIPTION.as_str())
-                        .attr(RDF_ABOUT.as_str(), subject.as_ref()),
+                        .attr(RDF_ABOUT.as_str(), &escape_str_attribute(subject.as_ref())),
                 )
                 .map_err(xml_error)?;
         } else {
@@ -280,6 +283,7 @@ impl XmlWriter {
 
                 if let Some(iri) = object.as_resource() {
                     let iri = format!("{iri:#}");
+                    let iri = escape_str_attribute(&iri);
                     element = element.attr(RDF_RESOURCE.as_str(), &iri);
                     writer.write(element).map_err(xml_error)?;
                 } else if let Some(blank) = object.as_blank() {
@@ -300,6 +304,7 @@ impl XmlWriter {
                     }
                     if let Some(data_type) = literal.data_type() {
                         let dt_iri = format!("{:#}", data_type.as_iri());
+                        let dt_iri = escape_str_attribute(&dt_iri);
                         writer
                             .write(element.attr(RDF_DATATYPE.as_str(), &dt_iri))
                             .map_err(xml_error)?
@@ -307,7 +312,7 @@ impl XmlWriter {
                         writer.write(element).map_err(xml_error)?;
                     }
                     writer
-                        .write(XmlEvent::Characters(&literal.unescaped()))
+                        .write(XmlEvent::Characters(&escape_text(&literal.unescaped())?))
                         .map_err(xml_error)?;
                 } else {
                     return rdf_star_not_supported_error(super::NAME).into();
@@ -338,6 +343,29 @@ fn xml_error(e: xml::writer::Error) -> Error {
     }
 }
 
+///
+/// Escape markup, and use a character reference for any character that is either restricted, or
+/// changed by the normalization of line ends, in XML 1.1. It is an error if the text contains a
+/// character that is not allowed at all.
+///
+fn escape_text(text: &str) -> Result<String, Error> {
+    let mut escaped = String::with_capacity(text.len());
+    for c in text.chars() {
+        match c {
+            '<' => escaped.push_str("&lt;"),
+            '>' => escaped.push_str("&gt;"),
+            '&' => escaped.push_str("&amp;"),
+            '\t' | '\n' => escaped.push(c),
+            '\u{0000}' | '\u{FFFE}' | '\u{FFFF}' => return Err(invalid_state_error()),
+            '\u{0001}'..='\u{001F}' | '\u{007F}'..='\u{009F}' | '\u{2028}' => {
+                escaped.push_str(&format!("&#x{:X};", c as u32))
+            }
+            c => escaped.push(c),
+        }
+    }
+    Ok(escaped)
+}
+
 ///
 /// Split the IRI into a namespace and the longest local name that is a valid XML element name.
 ///
-- 
2.43.0


From 19680deff6a3837fcdaf2961977bd39c8426cea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:34 +0000
Subject: [PATCH 48/70] fix: the RDF/XML writer makes node IDs that are XML
 names of all blank node labels

---
 rdftk_io/src/xml/writer.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index a0d1dd6..f0d06a9 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -250,7 +250,7 @@ impl XmlWriter {
                 writer
                     .write(
                         XmlEvent::start_element(RDF_DESCRIPTION.as_str())
-                            .attr(RDF_NODE_ID.as_str(), blank.as_ref().as_ref()),
+                            .attr(RDF_NODE_ID.as_str(), &node_id(blank)),
                     )
                     .map_err(xml_error)?;
             } else {
@@ -288,7 +288,8 @@ impl XmlWriter {
                     writer.write(element).map_err(xml_error)?;
                 } else if let Some(blank) = object.as_blank() {
                     if !nested.contains(blank) {
-                        element = element.attr(RDF_NODE_ID.as_str(), blank.as_ref().as_ref());
+                        let node_id = node_id(blank);
+                        element = element.attr(RDF_NODE_ID.as_str(), &node_id);
                         writer.write(element).map_err(xml_error)?;
                     } else {
                         writer.write(element).map_err(xml_error)?;
@@ -366,6 +367,19 @@ fn escape_text(text: &str) -> Result<String, Error> {
     Ok(escaped)
 }
 
+///
+/// A node ID has to be a valid XML name, which a blank node label that starts with a digit is not.
+/// These are prefixed with '_', as are those it would make them the same as.
+///
+fn node_id(blank: &BlankNode) -> String {
+    let label = blank.to_string();
+    if label.trim_start_matches('_').starts_with(|c: char| c.is_ascii_digit()) {
+        format!("_{label}")
+    } else {
+        label
+    }
+}
+
 ///
 /// Split the IRI into a namespace and the longest local name that is a valid XML element name.
 ///
-- 
2.43.0


From 4a9b0b19b21f1bb35a681a77836172e95ce089b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:35 +0000
Subject: [PATCH 49/70] fix: the RDF/XML writer refuses the names of its syntax
 as predicates

---
 rdftk_io/src/xml/writer.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index f0d06a9..76dc930 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -380,8 +380,25 @@ fn node_id(blank: &BlankNode) -> String {
     }
 }
 
+/// SPEC: §7.2.2-7.2.4 names in the RDF namespace that are not allowed as those of properties.
+const SYNTAX_NAMES: [&str; 12] = [
+    "RDF",
+    "ID",
+    "about",
+    "bagID",
+    "parseType",
+    "resource",
+    "nodeID",
+    "datatype",
+    "li",
+    "Description",
+    "aboutEach",
+    "aboutEachPrefix",
+];
+
 ///
-/// Split the IRI into a namespace and the longest local name that is a valid XML element name.
+/// Split the IRI into a namespace and the longest local name that is a valid XML element name. It is
+/// an error if there is none, or if the name is part of the RDF/XML syntax and not that of a property.
 ///
 fn split_uri(iri: &Iri) -> Result<(String, String), Error> {
     let iri = format!("{iri:#}");
@@ -393,7 +410,11 @@ fn split_uri(iri: &Iri) -> Result<(String, String), Error> {
         .last()
         .map(|(index, _)| index)
         .ok_or_else(invalid_state_error)?;
-    Ok((iri[..index].to_string(), iri[index..].to_string()))
+    let (namespace, local_name) = iri.split_at(index);
+    if namespace == rdf::namespace_str() && SYNTAX_NAMES.contains(&local_name) {
+        return Err(invalid_state_error());
+    }
+    Ok((namespace.to_string(), local_name.to_string()))
 }
 
 /// Note that the string form of an IRI only contains ASCII characters.
-- 
2.43.0


From d878bf017200c23097a98a12cf27808ced7f9d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:23 +0000
Subject: [PATCH 50/70] fix: the RDF/XML writer declares the default namespace
 of nested property elements

---
 rdftk_io/src/xml/syntax.rs | 1 +
 rdftk_io/src/xml/writer.rs | 9 ++++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/rdftk_io/src/xml/syntax.rs b/rdftk_io/src/xml/syntax.rs
index e266af7..b5e21c4 100644
--- a/rdftk_io/src/xml/syntax.rs
+++ b/rdftk_io/src/xml/syntax.rs
@@ -17,6 +17,7 @@ pub(super) const ATTRIBUTE_RESOURCE: &str = "resource";
 
 pub(super) const ATTRIBUTE_XML_BASE: &str = "base";
 pub(super) const ATTRIBUTE_XML_BASE_PREFIXED: &str = "xml:base";
+pub(super) const ATTRIBUTE_XMLNS: &str = "xmlns";
 pub(super) const ATTRIBUTE_XML_LANG: &str = "lang";
 pub(super) const ATTRIBUTE_XML_LANG_PREFIXED: &str = "xml:lang";
 
diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index 76dc930..faff3c5 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -1,6 +1,6 @@
 use super::syntax::{
-    ATTRIBUTE_ABOUT, ATTRIBUTE_DATATYPE, ATTRIBUTE_NODE_ID, ATTRIBUTE_RESOURCE, DEFAULT_ENCODING,
-    ELEMENT_DESCRIPTION, ELEMENT_RDF,
+    ATTRIBUTE_ABOUT, ATTRIBUTE_DATATYPE, ATTRIBUTE_NODE_ID, ATTRIBUTE_RESOURCE, ATTRIBUTE_XMLNS,
+    DEFAULT_ENCODING, ELEMENT_DESCRIPTION, ELEMENT_RDF,
 };
 use crate::common::blanks::nestable_blank_nodes;
 use crate::xml::syntax::ATTRIBUTE_XML_LANG_PREFIXED;
@@ -271,6 +271,7 @@ impl XmlWriter {
 
         for predicate in graph.predicates_for(subject) {
             let (ns, local_name) = split_uri(predicate)?;
+            let default_ns = escape_str_attribute(&ns);
 
             for object in graph.objects_for(subject, predicate) {
                 let mut name = local_name.clone();
@@ -278,7 +279,9 @@ impl XmlWriter {
                     name = format!("{}:{}", prefix, name);
                     XmlEvent::start_element(name.as_str()).ns(prefix, &ns)
                 } else {
-                    XmlEvent::start_element(name.as_str()).default_ns(&ns)
+                    // not `default_ns`, the emitter omits a declaration if an element that contains this
+                    // one has the same, even when one in between has another.
+                    XmlEvent::start_element(name.as_str()).attr(ATTRIBUTE_XMLNS, &default_ns)
                 };
 
                 if let Some(iri) = object.as_resource() {
-- 
2.43.0


From b2eb5531ffe13615f8f062d8d3b263b992a58010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:25 +0000
Subject: [PATCH 51/70] fix: the RDF/XML writer refuses predicates in the
 namespace that is reserved for xmlns

---
 rdftk_io/src/xml/syntax.rs | 2 ++
 rdftk_io/src/xml/writer.rs | 9 ++++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/rdftk_io/src/xml/syntax.rs b/rdftk_io/src/xml/syntax.rs
index b5e21c4..c1fec19 100644
--- a/rdftk_io/src/xml/syntax.rs
+++ b/rdftk_io/src/xml/syntax.rs
@@ -6,6 +6,8 @@
 
 pub(super) const XML_NAMESPACE: &str = "http://www.w3.org/XML/1998/namespace";
 
+pub(super) const XMLNS_NAMESPACE: &str = "http://www.w3.org/2000/xmlns/";
+
 pub(super) const DEFAULT_ENCODING: &str = "utf-8";
 
 pub(super) const ATTRIBUTE_ABOUT: &str = "about";
diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index faff3c5..9bebd16 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -1,6 +1,6 @@
 use super::syntax::{
     ATTRIBUTE_ABOUT, ATTRIBUTE_DATATYPE, ATTRIBUTE_NODE_ID, ATTRIBUTE_RESOURCE, ATTRIBUTE_XMLNS,
-    DEFAULT_ENCODING, ELEMENT_DESCRIPTION, ELEMENT_RDF,
+    DEFAULT_ENCODING, ELEMENT_DESCRIPTION, ELEMENT_RDF, XMLNS_NAMESPACE,
 };
 use crate::common::blanks::nestable_blank_nodes;
 use crate::xml::syntax::ATTRIBUTE_XML_LANG_PREFIXED;
@@ -401,7 +401,8 @@ const SYNTAX_NAMES: [&str; 12] = [
 
 ///
 /// Split the IRI into a namespace and the longest local name that is a valid XML element name. It is
-/// an error if there is none, or if the name is part of the RDF/XML syntax and not that of a property.
+/// an error if there is none, if the name is part of the RDF/XML syntax and not that of a property, or
+/// if its namespace may not be declared.
 ///
 fn split_uri(iri: &Iri) -> Result<(String, String), Error> {
     let iri = format!("{iri:#}");
@@ -414,7 +415,9 @@ fn split_uri(iri: &Iri) -> Result<(String, String), Error> {
         .map(|(index, _)| index)
         .ok_or_else(invalid_state_error)?;
     let (namespace, local_name) = iri.split_at(index);
-    if namespace == rdf::namespace_str() && SYNTAX_NAMES.contains(&local_name) {
+    if namespace == XMLNS_NAMESPACE
+        || (namespace == rdf::namespace_str() && SYNTAX_NAMES.contains(&local_name))
+    {
         return Err(invalid_state_error());
     }
     Ok((namespace.to_string(), local_name.to_string()))
-- 
2.43.0


From 30b02a8b742b347effea17d45375f41744c21f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:19 +0000
Subject: [PATCH 52/70] fix: the RDF/XML reader reifies the statements of
 property elements with an rdf:ID

---
 rdftk_io/src/xml/reader.rs | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 8922a15..02b1946 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -42,7 +42,6 @@ struct ExpectedName {
 enum SubjectType {
     BlankNamed(String),
     Resource(Iri),
-    RelativeResource(String),
 }
 
 #[derive(Clone, Debug)]
@@ -68,6 +67,7 @@ struct Attributes<'a> {
     uri_base: Option<Iri>,
     data_type: Option<Iri>,
     language: Option<Option<LanguageTag>>,
+    id: Option<String>,
     resource: Option<Iri>,
     inner: Vec<&'a OwnedAttribute>,
 }
@@ -248,16 +248,16 @@ fn parse_node_element<R: Read>(
 ) -> Result<SubjectNode, Error> {
     let description_element = ExpectedName::new(ELEMENT_DESCRIPTION, rdf::namespace_str());
     let scope = scope.nested(attributes);
-    let subject: SubjectNode = match &attributes.subject_type {
-        None => {
+    let subject: SubjectNode = match (&attributes.subject_type, &attributes.id) {
+        (None, None) => {
             // SPEC: §2.1 Introduction
             BlankNode::generate().into()
         }
-        Some(SubjectType::Resource(subject)) => {
+        (Some(SubjectType::Resource(subject)), _) => {
             // SPEC: §2.2 Node Elements and Property Elements
             subject.clone().into()
         }
-        Some(SubjectType::RelativeResource(subject)) => {
+        (None, Some(subject)) => {
             // SPEC: 2.14 Abbreviating URIs: rdf:ID and xml:base
             if let Some(base) = &scope.uri_base {
                 base.with_new_fragment(subject).into()
@@ -265,7 +265,7 @@ fn parse_node_element<R: Read>(
                 error_event!(state => "parse_node_element", "rdf:ID requires an xml:base");
             }
         }
-        Some(SubjectType::BlankNamed(subject)) => {
+        (Some(SubjectType::BlankNamed(subject)), _) => {
             // SPEC: §2.10 Identifying Blank Nodes: rdf:nodeID
             BlankNode::from_str(subject)?.into()
         }
@@ -349,6 +349,23 @@ fn parse_predicate_elements<R: Read>(
                 };
                 let attributes = parse_attributes(attributes)?;
                 let object = parse_object(event_reader, scope, &attributes, graph)?;
+                if let Some(id) = &attributes.id {
+                    // SPEC: §2.17 Reifying Statements: rdf:ID
+                    if let Some(base) = &scope.nested(&attributes).uri_base {
+                        let statement = base.with_new_fragment(id);
+                        for (property, value) in [
+                            (rdf::a_type(), rdf::statement().clone().into()),
+                            (rdf::subject(), subject.to_object()),
+                            (rdf::predicate(), predicate.clone().into()),
+                            (rdf::object(), object.clone()),
+                        ] {
+                            let property = property.clone();
+                            graph.insert(Statement::new(statement.clone(), property, value));
+                        }
+                    } else {
+                        error_event!(state => "parse_predicate_elements", "rdf:ID requires an xml:base");
+                    }
+                }
                 graph.insert(Statement::new(subject.clone(), predicate, object));
             }
             Ok(XmlEvent::EndElement { .. }) => {
@@ -549,6 +566,7 @@ fn parse_attributes(attributes: &[OwnedAttribute]) -> Result<Attributes<'_>, Err
         uri_base: None,
         data_type: None,
         language: None,
+        id: None,
         resource: None,
         inner: Default::default(),
     };
@@ -571,8 +589,7 @@ fn parse_attributes(attributes: &[OwnedAttribute]) -> Result<Attributes<'_>, Err
             } else if attribute.name.local_name == ATTRIBUTE_NODE_ID {
                 response.subject_type = Some(SubjectType::BlankNamed(attribute.value.to_string()));
             } else if attribute.name.local_name == ATTRIBUTE_ID {
-                response.subject_type =
-                    Some(SubjectType::RelativeResource(attribute.value.to_string()));
+                response.id = Some(attribute.value.to_string());
             } else if attribute.name.local_name == ATTRIBUTE_RESOURCE {
                 response.resource = Some(value_to_iri(&attribute.value)?);
             } else if attribute.name.local_name == ATTRIBUTE_PARSE_TYPE {
-- 
2.43.0


From d752c3035de4548b371334e9a5be11d5d4fb7b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:20 +0000
Subject: [PATCH 53/70] fix: the RDF/XML reader ignores the attributes that XML
 reserves

---
 rdftk_io/src/xml/reader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 02b1946..b1a6974 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -606,6 +606,9 @@ fn parse_attributes(attributes: &[OwnedAttribute]) -> Result<Attributes<'_>, Err
             } else {
                 response.inner.push(attribute);
             }
+        } else if attribute.name.namespace.is_none() && attribute.name.local_name.starts_with("xml") {
+            // SPEC: §6.1.2 attributes whose names begin with xml are ignored.
+            trace!("parse_attributes ignoring attribute: {:?}", attribute);
         } else {
             response.inner.push(attribute);
         }
-- 
2.43.0


From 62a32c886024594f73a7c2a1eaaf3d94d4bb344f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:15 +0000
Subject: [PATCH 54/70] fix: the Turtle writer escapes the base, prefix and
 relative IRIs it writes

---
 rdftk_io/src/turtle/writer.rs | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index 66dd89a..397be30 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -521,11 +521,7 @@ impl TurtleWriter {
                 } else {
                     (DECL_BASE_TTL, END_OF_STATEMENT)
                 };
-            writeln!(
-                w,
-                "{decl} {IRI_START}{}{IRI_END}{eos}",
-                format!("{base:#}").as_str()
-            )?;
+            writeln!(w, "{decl} {base}{eos}")?;
             if !self.options.use_intellij_style() {
                 writeln!(w)?;
             }
@@ -559,17 +555,16 @@ impl TurtleWriter {
                         break;
                     }
                 }
-                trace!("write_prefixes {prefix}: {IRI_START}{namespace_str}{IRI_END}");
+                let namespace =
+                    Iri::from_str(namespace_str.as_str()).map_err(rdftk_iri::Error::from)?;
+                trace!("write_prefixes {prefix}: {namespace}");
                 let (decl, eos) =
                     if self.options.use_sparql_style() && !self.options.use_intellij_style() {
                         (DECL_PREFIX_SPARQL, "")
                     } else {
                         (DECL_PREFIX_TTL, END_OF_STATEMENT)
                     };
-                writeln!(
-                    w,
-                    "{decl} {prefix}{NAME_SEPARATOR} {IRI_START}{namespace_str}{IRI_END}{eos}"
-                )?;
+                writeln!(w, "{decl} {prefix}{NAME_SEPARATOR} {namespace}{eos}")?;
             }
             writeln!(w)?;
         }
@@ -740,18 +735,12 @@ impl TurtleWriter {
             if let Some(ref convert_to_id_base) = self.options.convert_to_id_base() {
                 let target_id_base = format!("{convert_to_id_base:#}");
                 if iri_str.starts_with(target_id_base.as_str()) {
-                    return Ok(format!(
-                        "{IRI_START}{}{IRI_END}",
-                        &iri_str[target_id_base.len()..]
-                    ));
+                    return Ok(relative_reference(iri, convert_to_id_base));
                 }
             }
             let id_base_str = format!("{id_base:#}");
             if is_relative_to(&iri_str, &id_base_str) {
-                return Ok(format!(
-                    "{IRI_START}{}{IRI_END}",
-                    &iri_str[id_base_str.len()..]
-                ));
+                return Ok(relative_reference(iri, id_base));
             }
         }
         for (from_base, to_base) in self.options.convert_base().iter() {
@@ -993,6 +982,14 @@ fn is_relative_to(iri: &str, base: &str) -> bool {
     })
 }
 
+///
+/// Returns what follows the base in the IRI as an `IRIREF`, the characters that it excludes are escaped.
+///
+fn relative_reference(iri: &Iri, base: &Iri) -> String {
+    let (iri, base) = (iri.to_string(), base.to_string());
+    format!("{IRI_START}{}", &iri[base.len() - IRI_END.len()..])
+}
+
 ///
 /// Returns `true` if the object is, or is a collection that contains, a statement.
 ///
-- 
2.43.0


From 29000ebeb50a26ea4050c5d19277e1d36d6840f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:07 +0000
Subject: [PATCH 55/70] fix: the Turtle writer writes the predicates and blank
 nodes of a graph in one order

---
 rdftk_io/src/turtle/writer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index 397be30..967bfc3 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -596,7 +596,7 @@ impl TurtleWriter {
         // unwritten blank nodes and add them to the end of the file.
         let context = self.context.borrow();
         // Iterate over all blank nodes
-        for subject in context.blanks_to_write.iter() {
+        for subject in context.blanks_to_write.iter().sorted() {
             context.indenter.reset_depth();
             self.write_subject(w, graph, subject, flags)?;
             self.write_predicate_object_list(w, graph, subject, flags)?;
@@ -1030,6 +1030,7 @@ impl PredicateGroupOrdering {
     fn group_predicates<'a>(predicates: &[&'a Iri]) -> Vec<(PredicateGroupOrdering, Vec<&'a Iri>)> {
         let mut result = predicates
             .iter()
+            .sorted_by_key(Self::group_predicate)
             .chunk_by(Self::group_predicate)
             .into_iter()
             .map(|(triple_type, group)| (triple_type, group.cloned().collect()))
-- 
2.43.0


From 8b5275fd1e7a61d52030688d4405f4bcf8cbc865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:40 +0000
Subject: [PATCH 56/70] fix: the GraphViz writer escapes the quotes and
 backslashes in IRIs

---
 rdftk_io/src/dot/writer.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/rdftk_io/src/dot/writer.rs b/rdftk_io/src/dot/writer.rs
index 8711c81..99e65d6 100644
--- a/rdftk_io/src/dot/writer.rs
+++ b/rdftk_io/src/dot/writer.rs
@@ -4,6 +4,7 @@ use objio::{impl_has_options, ObjectWriter};
 use rdftk_core::error::Error;
 use rdftk_core::model::graph::Graph;
 use rdftk_core::model::statement::{ObjectNode, SubjectNode};
+use rdftk_iri::Iri;
 use std::cell::RefCell;
 use std::collections::HashMap;
 use std::io::Write;
@@ -300,7 +301,7 @@ impl ObjectWriter<Graph> for DotWriter {
                 self.options.node_prefix,
                 self.object_id(statement.object()),
                 match mappings.compress(statement.predicate()) {
-                    None => format!("{:#}", statement.predicate()),
+                    None => escaped_iri(statement.predicate()),
                     Some(qname) => qname.to_string(),
                 }
             )?;
@@ -398,7 +399,7 @@ impl DotWriter {
                     Node {
                         id: id.clone(),
                         kind: NodeKind::Iri,
-                        label: format!("{:#}", node.as_resource().unwrap()),
+                        label: escaped_iri(node.as_resource().unwrap()),
                     },
                 );
             }
@@ -429,7 +430,7 @@ impl DotWriter {
                     Node {
                         id: id.clone(),
                         kind: NodeKind::Iri,
-                        label: format!("{:#}", node.as_resource().unwrap()),
+                        label: escaped_iri(node.as_resource().unwrap()),
                     },
                 );
             } else if node.is_literal() {
@@ -446,3 +447,10 @@ impl DotWriter {
         }
     }
 }
+
+///
+/// Return the text of the IRI as it is written within a quoted string.
+///
+fn escaped_iri(iri: &Iri) -> String {
+    format!("{iri:#}").replace('\\', "\\\\").replace('"', "\\\"")
+}
-- 
2.43.0


From 19ede3a645e19a2a383ed0197b863e244cdced9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:42 +0000
Subject: [PATCH 57/70] fix: writers nest blank nodes no deeper than their
 stack allows

---
 rdftk_io/src/common/blanks.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/rdftk_io/src/common/blanks.rs b/rdftk_io/src/common/blanks.rs
index 3982d8b..e617e32 100644
--- a/rdftk_io/src/common/blanks.rs
+++ b/rdftk_io/src/common/blanks.rs
@@ -2,13 +2,21 @@ use rdftk_core::model::graph::Graph;
 use rdftk_core::model::statement::{BlankNode, ObjectNode, SubjectNode};
 use std::collections::{HashMap, HashSet};
 
+// ------------------------------------------------------------------------------------------------
+// Public Values
+// ------------------------------------------------------------------------------------------------
+
+/// The number of blank nodes that may be nested, each in another.
+pub(crate) const MAX_NESTING: usize = 64;
+
 // ------------------------------------------------------------------------------------------------
 // Public Functions
 // ------------------------------------------------------------------------------------------------
 
 ///
 /// Return the blank nodes that may be written, without a label, in the place they are referenced.
-/// These are referenced exactly once, and are not part of a cycle of blank nodes.
+/// These are referenced exactly once, and are not part of a cycle of blank nodes; nor are they nested
+/// more than [`MAX_NESTING`] deep, writers are recursive.
 ///
 pub(crate) fn nestable_blank_nodes(graph: &Graph) -> HashSet<BlankNode> {
     let mut reference_counts: HashMap<&BlankNode, usize> = Default::default();
@@ -31,16 +39,23 @@ pub(crate) fn nestable_blank_nodes(graph: &Graph) -> HashSet<BlankNode> {
     }
 
     let is_candidate = |node: &BlankNode| reference_counts.get(node) == Some(&1);
-    let mut to_visit: Vec<SubjectNode> = references
+    let mut to_visit: Vec<(SubjectNode, usize)> = references
         .keys()
         .filter(|subject| !subject.as_blank().is_some_and(is_candidate))
-        .map(|subject| (*subject).clone())
+        .map(|subject| ((*subject).clone(), 0))
         .collect();
     let mut nestable = HashSet::new();
-    while let Some(subject) = to_visit.pop() {
+    let mut visited = HashSet::new();
+    while let Some((subject, depth)) = to_visit.pop() {
         for node in references.get(&subject).into_iter().flatten() {
-            if is_candidate(node) && nestable.insert((*node).clone()) {
-                to_visit.push(SubjectNode::from((*node).clone()));
+            if is_candidate(node) && visited.insert((*node).clone()) {
+                let depth = if depth < MAX_NESTING {
+                    nestable.insert((*node).clone());
+                    depth + 1
+                } else {
+                    0
+                };
+                to_visit.push((SubjectNode::from((*node).clone()), depth));
             }
         }
     }
-- 
2.43.0


From 93b7c4ada87230d79b01ee5118aa797995892222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:05 +0000
Subject: [PATCH 58/70] fix: the Turtle writer makes the sort key of a nested
 blank node once

---
 rdftk_io/src/turtle/writer.rs | 45 ++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 8 deletions(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index 967bfc3..1b80ae6 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -17,7 +17,7 @@ use rdftk_names::{dc::elements, foaf, owl, rdf, rdfs, skos};
 use regex::Regex;
 use std::{
     cell::RefCell,
-    collections::{BTreeMap, HashSet},
+    collections::{BTreeMap, HashMap, HashSet},
     io::Write,
     str::FromStr,
     sync::LazyLock,
@@ -116,6 +116,11 @@ struct WriterContext {
     indenter: Indenter,
     nested_blanks: HashSet<BlankNode>,
     blanks_to_write: HashSet<SubjectNode>,
+    ///
+    /// The keys of nested blank nodes, which take as long to make as all the nodes nested in them take
+    /// to write.
+    ///
+    blank_sort_keys: HashMap<BlankNode, String>,
 }
 
 const DECL_BASE_TTL: &str = "@base";
@@ -453,17 +458,40 @@ impl TurtleWriter {
         Ok(all_predicates_as_strings)
     }
 
+    /// Move what is known about blank nodes to another writer, or back.
+    fn lend_context_to(&self, other: &Self) {
+        let mut context = self.context.borrow_mut();
+        let mut other_context = other.context.borrow_mut();
+        other_context.nested_blanks = std::mem::take(&mut context.nested_blanks);
+        other_context.blank_sort_keys = std::mem::take(&mut context.blank_sort_keys);
+    }
+
     fn object_sort_key(&self, graph: &Graph, object: &ObjectNode) -> Result<String> {
         trace!("object_sort_key");
+        let known_key = object
+            .as_blank()
+            .and_then(|blank| self.context.borrow().blank_sort_keys.get(blank).cloned());
+        if let Some(key) = known_key {
+            return Ok(key);
+        }
         let mut buffer = Vec::<u8>::new();
         let new_writer = Self::default().with_options(self.options.clone());
-        new_writer.context.borrow_mut().nested_blanks = self.context.borrow().nested_blanks.clone();
+        self.lend_context_to(&new_writer);
         let flags = WriterStatusFlags {
             is_being_sorted: true,
             ..Default::default()
         };
-        new_writer.write_object(&mut buffer, graph, object, flags)?;
-        Ok(String::from_utf8(buffer)?)
+        let result = new_writer.write_object(&mut buffer, graph, object, flags);
+        new_writer.lend_context_to(self);
+        result?;
+        let key = String::from_utf8(buffer)?;
+        if let Some(blank) = object.as_blank() {
+            self.context
+                .borrow_mut()
+                .blank_sort_keys
+                .insert(blank.clone(), key.clone());
+        }
+        Ok(key)
     }
 
     // ---------------------------------------------------------------------------------------------
@@ -483,6 +511,7 @@ impl TurtleWriter {
             let mut context_mut = self.context.borrow_mut();
             context_mut.indenter =
                 Indenter::default().with_default_indent_width(self.options.indent_width());
+            context_mut.blank_sort_keys = Default::default();
             context_mut.nested_blanks = if self.options.nest_blank_nodes() {
                 nestable_blank_nodes(graph)
             } else {
@@ -594,10 +623,10 @@ impl TurtleWriter {
         // been written to the turtle file yet but have been referred to during
         // the call to `write_normal_subjects` above. Now process those
         // unwritten blank nodes and add them to the end of the file.
-        let context = self.context.borrow();
+        let blanks_to_write = self.context.borrow().blanks_to_write.clone();
         // Iterate over all blank nodes
-        for subject in context.blanks_to_write.iter().sorted() {
-            context.indenter.reset_depth();
+        for subject in blanks_to_write.iter().sorted() {
+            self.context.borrow().indenter.reset_depth();
             self.write_subject(w, graph, subject, flags)?;
             self.write_predicate_object_list(w, graph, subject, flags)?;
             writeln!(w)?;
@@ -930,7 +959,7 @@ impl TurtleWriter {
             .collect_vec();
         let is_collection_of_objects = objects.len() > 1;
         if is_collection_of_objects {
-            objects.sort_by_key(|o| self.object_sort_key(graph, o).unwrap_or_default());
+            objects.sort_by_cached_key(|o| self.object_sort_key(graph, o).unwrap_or_default());
         }
         let mut o_iter = objects.iter().peekable();
         while let Some(object) = o_iter.next() {
-- 
2.43.0


From d8354195a92f9ee25f9ecab6c4e198bf8a5c801c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 59/70] fix: the convert command reads and writes data sets

---
 rdftk_cli/src/commands/representations.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/rdftk_cli/src/commands/representations.rs b/rdftk_cli/src/commands/representations.rs
index 171e17e..640267a 100644
--- a/rdftk_cli/src/commands/representations.rs
+++ b/rdftk_cli/src/commands/representations.rs
@@ -51,9 +51,18 @@ pub(crate) struct ConvertCmd {
 
 impl Command for ConvertCmd {
     fn execute(mut self) -> Result<ExitCode, Error> {
-        let graph = super::read_graph(&mut self.input, self.from)?;
-        super::write_graph(&graph, &mut self.output, self.to)?;
-        Ok(ExitCode::SUCCESS)
+        if !self.from.is_dataset_representation() {
+            let graph = super::read_graph(&mut self.input, self.from)?;
+            super::write_graph(&graph, &mut self.output, self.to)?;
+            Ok(ExitCode::SUCCESS)
+        } else if self.to.is_dataset_representation() {
+            let dataset = super::read_dataset(&mut self.input, self.from)?;
+            super::write_dataset(&dataset, &mut self.output, self.to)?;
+            Ok(ExitCode::SUCCESS)
+        } else {
+            eprintln!("Currently unable to convert datasets to graphs.");
+            Ok(ExitCode::FAILURE)
+        }
     }
 }
 
-- 
2.43.0


From 59f6ba1a946e3c7d43a7d0aee37bf96202b978ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 60/70] fix: commands flush what they write, and fail when that
 does

---
 rdftk_cli/src/commands/draw.rs | 3 ++-
 rdftk_cli/src/commands/mod.rs  | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/rdftk_cli/src/commands/draw.rs b/rdftk_cli/src/commands/draw.rs
index b67e130..a2b97c3 100644
--- a/rdftk_cli/src/commands/draw.rs
+++ b/rdftk_cli/src/commands/draw.rs
@@ -3,7 +3,7 @@ use clap::Args;
 use objio::{ObjectWriter};
 use rdftk_core::{error::Error};
 use rdftk_io::{dot};
-use std::process::ExitCode;
+use std::{io::Write, process::ExitCode};
 
 // ------------------------------------------------------------------------------------------------
 // Public Macros
@@ -55,6 +55,7 @@ impl Command for DrawCmd {
             let graph = super::read_graph(&mut self.input, self.from)?;
             let writer = dot::DotWriter::default();
             writer.write(&mut self.output, &graph)?;
+            self.output.flush()?;
             Ok(ExitCode::SUCCESS)
         }
     }
diff --git a/rdftk_cli/src/commands/mod.rs b/rdftk_cli/src/commands/mod.rs
index 687af36..c5d7e4a 100644
--- a/rdftk_cli/src/commands/mod.rs
+++ b/rdftk_cli/src/commands/mod.rs
@@ -5,7 +5,7 @@ use rdftk_core::{
     model::{data_set::DataSet, graph::Graph},
 };
 use rdftk_io::{json, nq, nt, trig, turtle, xml};
-use std::process::ExitCode;
+use std::{io::Write, process::ExitCode};
 
 // ------------------------------------------------------------------------------------------------
 // Public Macros
@@ -158,6 +158,7 @@ pub(crate) fn write_graph(
             writer.write(output, graph)?;
         }
     };
+    output.flush()?;
     Ok(())
 }
 
@@ -182,6 +183,7 @@ pub(crate) fn write_dataset(
         | Representation::Turtle
         | Representation::Xml => unreachable!(),
     };
+    output.flush()?;
     Ok(())
 }
 
-- 
2.43.0


From 67592cf0802939d8885473f7695f998fc37016e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 61/70] fix: the command-line tool logs to stderr, away from
 its documents

---
 rdftk_cli/src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rdftk_cli/src/main.rs b/rdftk_cli/src/main.rs
index ce9f35d..bcd2e53 100644
--- a/rdftk_cli/src/main.rs
+++ b/rdftk_cli/src/main.rs
@@ -105,7 +105,10 @@ fn init_logging(log_filter: LogFilter) -> Result<(), Error> {
             .parse()
             .map_err(unknown_error)?,
     );
-    let subscriber = FmtSubscriber::builder().with_env_filter(filter).finish();
+    let subscriber = FmtSubscriber::builder()
+        .with_env_filter(filter)
+        .with_writer(std::io::stderr)
+        .finish();
 
     tracing::subscriber::set_global_default(subscriber).map_err(unknown_error)?;
 
-- 
2.43.0


From da8e9e9d181bf5bffe481f49768a498c274a1bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:29 +0000
Subject: [PATCH 62/70] fix: an IRI that ends in a fragment is no namespace

---
 rdftk_iri/src/iri.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/rdftk_iri/src/iri.rs b/rdftk_iri/src/iri.rs
index 54202fc..f28b9cb 100644
--- a/rdftk_iri/src/iri.rs
+++ b/rdftk_iri/src/iri.rs
@@ -278,7 +278,10 @@ impl Iri {
     /// ```
     ///
     pub fn looks_like_namespace(&self) -> bool {
-        self.0.fragment() == Some("") || (self.0.path().ends_with("/") && self.0.query().is_none())
+        match self.0.fragment() {
+            Some(fragment) => fragment.is_empty(),
+            None => self.0.path().ends_with("/") && self.0.query().is_none(),
+        }
     }
 
     ///
@@ -446,12 +449,12 @@ impl Iri {
     where
         Self: Sized,
     {
-        if self.0.fragment().is_some() {
+        if !self.looks_like_namespace() {
+            None
+        } else if self.0.fragment().is_some() {
             Some(self.with_new_fragment(name.as_ref()))
-        } else if self.0.path().ends_with("/") && self.0.query().is_none() {
-            Some(self.with_new_path(format!("{}{}", self.0.path(), name.as_ref())))
         } else {
-            None
+            Some(self.with_new_path(format!("{}{}", self.0.path(), name.as_ref())))
         }
     }
 
-- 
2.43.0


From 03b89061752e6c9b0de2d133cc9b1df0669936fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:29 +0000
Subject: [PATCH 63/70] fix: new blank nodes of simplified graphs and reified
 statements are not among those in use

---
 rdftk_core/src/model/data_set.rs             | 18 ++++++++++-
 rdftk_core/src/model/graph.rs                | 23 ++++++++++++--
 rdftk_core/src/model/statement.rs            | 33 ++++++++++++++++++--
 rdftk_core/src/model/statement/bnode.rs      | 13 ++++++++
 rdftk_core/src/model/statement/collection.rs | 20 +++++++++---
 rdftk_core/src/model/statement/object.rs     | 24 ++++++++++++--
 rdftk_io/src/nq/writer.rs                    |  2 +-
 rdftk_io/src/trig/writer.rs                  |  9 +++++-
 rdftk_io/src/turtle/mod.rs                   |  1 +
 rdftk_io/src/turtle/writer.rs                | 14 ++++++---
 10 files changed, 138 insertions(+), 19 deletions(-)

diff --git a/rdftk_core/src/model/data_set.rs b/rdftk_core/src/model/data_set.rs
index 888b862..91cf842 100644
--- a/rdftk_core/src/model/data_set.rs
+++ b/rdftk_core/src/model/data_set.rs
@@ -38,10 +38,11 @@ fn simple_graph_writer(graph: &Graph)
 
 */
 
+use crate::error::Error;
 use crate::model::features::Featured;
 use crate::model::graph::{Graph, GraphName};
 use rdftk_iri::Iri;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::fmt::Debug;
 
 // ------------------------------------------------------------------------------------------------
@@ -134,6 +135,21 @@ impl DataSet {
         self.contains_graph(&Some(name.clone()))
     }
 
+    ///
+    /// Return a new data set in which every graph is simplified, see [`Graph::simplify`]; the new
+    /// blank nodes in one graph are not used in any other.
+    ///
+    pub fn simplify(&self) -> Result<Self, Error> {
+        let mut in_use = HashSet::default();
+        self.graphs()
+            .for_each(|graph| graph.blank_nodes(&mut in_use));
+        self.graphs
+            .iter()
+            .map(|(name, graph)| Ok((name.clone(), graph.simplify_with(&in_use)?)))
+            .collect::<Result<HashMap<_, _>, Error>>()
+            .map(Self::from)
+    }
+
     // --------------------------------------------------------------------------------------------
     // Access > Graphs
     // --------------------------------------------------------------------------------------------
diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index a415624..8956284 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -636,6 +636,15 @@ impl Graph {
     /// 2. RDF collection objects in object nodes are reified into the graph.
     ///
     pub fn simplify(&self) -> Result<Self, Error> {
+        let mut in_use = HashSet::default();
+        self.blank_nodes(&mut in_use);
+        self.simplify_with(&in_use)
+    }
+
+    ///
+    /// Simplify this graph, none of the new blank nodes are among those in use.
+    ///
+    pub(crate) fn simplify_with(&self, in_use: &HashSet<BlankNode>) -> Result<Self, Error> {
         let mut new_graph = Self::default().with_mappings(self.mappings.clone());
         if let Some(name) = self.name() {
             new_graph.set_name(name.clone());
@@ -643,11 +652,11 @@ impl Graph {
         for statement in self.statements() {
             let mut new_statement = statement.clone();
             if let Some(subject_statement) = statement.subject().as_statement() {
-                let (subject, statements) = subject_statement.reify()?;
+                let (subject, statements) = subject_statement.reify_with(in_use)?;
                 new_statement.set_subject(subject);
                 new_graph.extend(statements);
             }
-            let (object, statements) = statement.object().reify()?;
+            let (object, statements) = statement.object().reify_with(in_use)?;
             new_statement.set_object(object);
             new_graph.extend(statements);
             new_graph.insert(new_statement);
@@ -655,6 +664,16 @@ impl Graph {
 
         Ok(new_graph)
     }
+
+    ///
+    /// Add all the blank nodes in this graph, it's name included, to the set.
+    ///
+    pub(crate) fn blank_nodes(&self, nodes: &mut HashSet<BlankNode>) {
+        if let Some(GraphName::BNode(name)) = self.name() {
+            nodes.insert(name.clone());
+        }
+        self.statements().for_each(|st| st.blank_nodes(nodes));
+    }
 }
 
 // ------------------------------------------------------------------------------------------------
diff --git a/rdftk_core/src/model/statement.rs b/rdftk_core/src/model/statement.rs
index f9f0bb0..184004a 100644
--- a/rdftk_core/src/model/statement.rs
+++ b/rdftk_core/src/model/statement.rs
@@ -37,6 +37,7 @@ use crate::model::features::FEATURE_RDF_STAR;
 use rdftk_iri::Iri;
 use rdftk_names::rdf;
 use std::cmp::Ordering;
+use std::collections::HashSet;
 use std::fmt::Formatter;
 use std::fmt::{Debug, Display};
 
@@ -187,15 +188,27 @@ impl Statement {
     /// Reify a single statement, returning the list of resulting statements.
     ///
     pub fn reify(&self) -> Result<(SubjectNode, Vec<Self>)> {
+        let mut in_use = Default::default();
+        self.blank_nodes(&mut in_use);
+        self.reify_with(&in_use)
+    }
+
+    ///
+    /// Reify a single statement, none of the new blank nodes are among those in use.
+    ///
+    pub(crate) fn reify_with(
+        &self,
+        in_use: &HashSet<BlankNode>,
+    ) -> Result<(SubjectNode, Vec<Self>)> {
         let mut statements: Vec<Self> = Default::default();
-        let new_subject: SubjectNode = BlankNode::generate().into();
+        let new_subject: SubjectNode = BlankNode::generate_unused(in_use).into();
         statements.push(Self::new(
             new_subject.clone(),
             rdf::a_type().clone(),
             rdf::statement().clone(),
         ));
         if let Some(statement) = self.subject().as_statement() {
-            let nested = statement.reify()?;
+            let nested = statement.reify_with(in_use)?;
             statements.extend(nested.1);
             statements.push(Self::new(
                 new_subject.clone(),
@@ -214,7 +227,7 @@ impl Statement {
             rdf::predicate().clone(),
             self.predicate().clone(),
         ));
-        let (object, nested) = self.object().reify()?;
+        let (object, nested) = self.object().reify_with(in_use)?;
         statements.extend(nested);
         statements.push(Self::new(
             new_subject.clone(),
@@ -223,6 +236,20 @@ impl Statement {
         ));
         Ok((new_subject, statements))
     }
+
+    ///
+    /// Add all the blank nodes in this statement, and any nested in it, to the set.
+    ///
+    pub(crate) fn blank_nodes(&self, nodes: &mut HashSet<BlankNode>) {
+        match self.subject() {
+            SubjectNode::Blank(v) => {
+                nodes.insert(v.clone());
+            }
+            SubjectNode::Resource(_) => {}
+            SubjectNode::Statement(v) => v.blank_nodes(nodes),
+        }
+        self.object().blank_nodes(nodes);
+    }
 }
 
 // ------------------------------------------------------------------------------------------------
diff --git a/rdftk_core/src/model/statement/bnode.rs b/rdftk_core/src/model/statement/bnode.rs
index 4d360f8..64b088d 100644
--- a/rdftk_core/src/model/statement/bnode.rs
+++ b/rdftk_core/src/model/statement/bnode.rs
@@ -1,4 +1,5 @@
 use rdftk_iri::{LocalName, Name};
+use std::collections::HashSet;
 use std::fmt::{Display, Formatter};
 use std::str::FromStr;
 use unique_id::sequence::SequenceGenerator as IDGenerator;
@@ -88,6 +89,18 @@ impl BlankNode {
         Self(format!("B{}", IDGenerator.next_id()))
     }
 
+    ///
+    /// Construct a new blank node with a generated identifier that is none of those in use.
+    ///
+    pub(crate) fn generate_unused(in_use: &HashSet<BlankNode>) -> Self {
+        loop {
+            let node = Self::generate();
+            if !in_use.contains(&node) {
+                return node;
+            }
+        }
+    }
+
     ///
     /// Returns `true` if the string is a valid blank node identifier, else
     /// `false`. Note that this function will accept simple names, or those
diff --git a/rdftk_core/src/model/statement/collection.rs b/rdftk_core/src/model/statement/collection.rs
index dc3a1ac..ddf5053 100644
--- a/rdftk_core/src/model/statement/collection.rs
+++ b/rdftk_core/src/model/statement/collection.rs
@@ -7,7 +7,7 @@ use crate::{
 };
 use rdftk_iri::{Iri, Name};
 use rdftk_names::rdf;
-use std::{fmt::Display, sync::Arc};
+use std::{collections::HashSet, fmt::Display, sync::Arc};
 
 use super::SubjectNode;
 
@@ -171,11 +171,23 @@ impl Collection {
     }
 
     pub fn reify(&self) -> Result<(SubjectNode, Vec<Statement>), Error> {
+        let mut in_use = Default::default();
+        self.iter().for_each(|v| v.blank_nodes(&mut in_use));
+        self.reify_with(&in_use)
+    }
+
+    ///
+    /// Reify this collection, none of the new blank nodes are among those in use.
+    ///
+    pub(crate) fn reify_with(
+        &self,
+        in_use: &HashSet<BlankNode>,
+    ) -> Result<(SubjectNode, Vec<Statement>), Error> {
         if self.is_empty() {
             Ok((SubjectNode::from(rdf::nil().clone()), Default::default()))
         } else {
             let mut statements: Vec<Statement> = Default::default();
-            let first_subject: SubjectNode = BlankNode::generate().into();
+            let first_subject: SubjectNode = BlankNode::generate_unused(in_use).into();
             let mut subject: SubjectNode = first_subject.clone();
 
             for (idx, object) in self.0.iter().enumerate() {
@@ -184,7 +196,7 @@ impl Collection {
                     rdf::a_type().clone(),
                     rdf::list().clone(),
                 ));
-                let (object, nested) = object.reify()?;
+                let (object, nested) = object.reify_with(in_use)?;
                 statements.extend(nested);
                 statements.push(Statement::new(
                     subject.clone(),
@@ -195,7 +207,7 @@ impl Collection {
                 let next_or_nil: ObjectNode = if idx == self.0.len() - 1 {
                     rdf::nil().clone().into()
                 } else {
-                    subject = BlankNode::generate().into();
+                    subject = BlankNode::generate_unused(in_use).into();
                     subject.to_object()
                 };
                 statements.push(Statement::new(
diff --git a/rdftk_core/src/model/statement/object.rs b/rdftk_core/src/model/statement/object.rs
index 2ca9a08..63ffce3 100644
--- a/rdftk_core/src/model/statement/object.rs
+++ b/rdftk_core/src/model/statement/object.rs
@@ -7,6 +7,7 @@ use crate::model::statement::{
 use rdftk_iri::{Iri, Name};
 use std::borrow::Borrow;
 use std::cmp::Ordering;
+use std::collections::HashSet;
 use std::fmt::{Debug, Display, Formatter};
 use std::sync::Arc;
 
@@ -324,12 +325,29 @@ impl ObjectNode {
     /// Return the node to use in place of this one in a graph of strict triples, along with the
     /// statements that reify it if this is itself a statement or a collection.
     ///
-    pub(crate) fn reify(&self) -> Result<(ObjectNode, Vec<Statement>), Error> {
+    pub(crate) fn reify_with(
+        &self,
+        in_use: &HashSet<BlankNode>,
+    ) -> Result<(ObjectNode, Vec<Statement>), Error> {
         let (subject, statements) = match self {
-            ObjectNode::Collection(v) => v.reify()?,
-            ObjectNode::Statement(v) => v.reify()?,
+            ObjectNode::Collection(v) => v.reify_with(in_use)?,
+            ObjectNode::Statement(v) => v.reify_with(in_use)?,
             _ => return Ok((self.clone(), Default::default())),
         };
         Ok((subject.to_object(), statements))
     }
+
+    ///
+    /// Add all the blank nodes in this node, and any nested in it, to the set.
+    ///
+    pub(crate) fn blank_nodes(&self, nodes: &mut HashSet<BlankNode>) {
+        match self {
+            ObjectNode::Blank(v) => {
+                nodes.insert(v.clone());
+            }
+            ObjectNode::Resource(_) | ObjectNode::Literal(_) => {}
+            ObjectNode::Collection(vs) => vs.iter().for_each(|v| v.blank_nodes(nodes)),
+            ObjectNode::Statement(v) => v.blank_nodes(nodes),
+        }
+    }
 }
diff --git a/rdftk_io/src/nq/writer.rs b/rdftk_io/src/nq/writer.rs
index 004113f..6eceb17 100644
--- a/rdftk_io/src/nq/writer.rs
+++ b/rdftk_io/src/nq/writer.rs
@@ -27,7 +27,7 @@ impl ObjectWriter<DataSet> for NQuadWriter {
     where
         W: Write,
     {
-        for graph in data_set.graphs() {
+        for graph in data_set.simplify()?.graphs() {
             self.write(w, graph)?;
         }
         Ok(())
diff --git a/rdftk_io/src/trig/writer.rs b/rdftk_io/src/trig/writer.rs
index 1cbbf80..93069bc 100644
--- a/rdftk_io/src/trig/writer.rs
+++ b/rdftk_io/src/trig/writer.rs
@@ -1,4 +1,4 @@
-use crate::turtle::{TurtleWriter, TurtleWriterOptions};
+use crate::turtle::{has_nested_statements, TurtleWriter, TurtleWriterOptions};
 use crate::{DataSetWriter, GraphWriter};
 use objio::{impl_has_options, HasOptions, ObjectWriter};
 use rdftk_core::error::Error;
@@ -75,7 +75,14 @@ impl ObjectWriter<DataSet> for TrigWriter {
     where
         W: std::io::Write,
     {
+        // Only the graphs that have to be are written in their simplified form.
+        let simplified = data_set.simplify()?;
         for graph in data_set.graphs() {
+            let graph = if has_nested_statements(graph) {
+                simplified.graph(&graph.name().cloned()).unwrap_or(graph)
+            } else {
+                graph
+            };
             self.write(w, graph)?;
         }
         Ok(())
diff --git a/rdftk_io/src/turtle/mod.rs b/rdftk_io/src/turtle/mod.rs
index e88fb26..ff19347 100644
--- a/rdftk_io/src/turtle/mod.rs
+++ b/rdftk_io/src/turtle/mod.rs
@@ -64,4 +64,5 @@ mod reader;
 pub use reader::TurtleReader;
 
 mod writer;
+pub(crate) use writer::has_nested_statements;
 pub use writer::{TurtleWriter, TurtleWriterOptions};
diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index 1b80ae6..acad7c8 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -374,10 +374,7 @@ impl TurtleWriter {
     /// Write only the triples in the graph.
     ///
     pub(crate) fn write_graph_triples<W: Write>(&self, w: &mut W, graph: &Graph) -> Result<()> {
-        if graph
-            .statements()
-            .any(|stmt| stmt.is_nested() || contains_statement(stmt.object()))
-        {
+        if has_nested_statements(graph) {
             self.write_turtle_triples(w, &graph.simplify()?)
         } else {
             self.write_turtle_triples(w, graph)
@@ -1019,6 +1016,15 @@ fn relative_reference(iri: &Iri, base: &Iri) -> String {
     format!("{IRI_START}{}", &iri[base.len() - IRI_END.len()..])
 }
 
+///
+/// Returns `true` if any statement of the graph has another nested in it.
+///
+pub(crate) fn has_nested_statements(graph: &Graph) -> bool {
+    graph
+        .statements()
+        .any(|stmt| stmt.is_nested() || contains_statement(stmt.object()))
+}
+
 ///
 /// Returns `true` if the object is, or is a collection that contains, a statement.
 ///
-- 
2.43.0


From 596f08bf1b01f40d8bdce4ec0d9a27cdd67bab46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:29 +0000
Subject: [PATCH 64/70] fix: RDF/XML nodes without an identifier are apart from
 those with one

---
 rdftk_io/src/xml/reader.rs | 67 +++++++++++++++++++++++++++++++++-----
 1 file changed, 59 insertions(+), 8 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index b1a6974..5c181ee 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -10,7 +10,10 @@ use rdftk_core::model::literal::{DataType, LanguageTag, Literal};
 use rdftk_core::model::statement::{BlankNode, ObjectNode, Statement, SubjectNode};
 use rdftk_iri::Iri;
 use rdftk_names::rdf;
+use std::cell::RefCell;
+use std::collections::{HashMap, HashSet};
 use std::io::Read;
+use std::rc::Rc;
 use std::str::FromStr;
 use tracing::{error, trace};
 use xml::attribute::OwnedAttribute;
@@ -58,6 +61,16 @@ enum ParseType {
 struct Scope {
     uri_base: Option<Iri>,
     language: Option<LanguageTag>,
+    blank_nodes: Rc<RefCell<BlankNodes>>,
+}
+
+///
+/// The blank nodes of a document, those with an identifier are kept apart from those without.
+///
+#[derive(Clone, Debug, Default)]
+struct BlankNodes {
+    used: HashSet<BlankNode>,
+    named: HashMap<BlankNode, BlankNode>,
 }
 
 #[derive(Clone, Debug)]
@@ -110,9 +123,18 @@ impl Scope {
         Self {
             uri_base: attributes.uri_base.clone().or(self.uri_base.clone()),
             language: attributes.language.clone().unwrap_or(self.language.clone()),
+            blank_nodes: self.blank_nodes.clone(),
         }
     }
 
+    fn new_blank_node(&self) -> BlankNode {
+        self.blank_nodes.borrow_mut().generate()
+    }
+
+    fn named_blank_node(&self, name: &str) -> Result<BlankNode, Error> {
+        self.blank_nodes.borrow_mut().named(name)
+    }
+
     fn literal(&self, value: &str) -> Literal {
         // SPEC: §2.7 Languages: xml:lang
         match &self.language {
@@ -122,6 +144,33 @@ impl Scope {
     }
 }
 
+// ------------------------------------------------------------------------------------------------
+
+impl BlankNodes {
+    fn generate(&mut self) -> BlankNode {
+        loop {
+            let node = BlankNode::generate();
+            if self.used.insert(node.clone()) {
+                return node;
+            }
+        }
+    }
+
+    fn named(&mut self, name: &str) -> Result<BlankNode, Error> {
+        let name = BlankNode::from_str(name)?;
+        if let Some(node) = self.named.get(&name) {
+            return Ok(node.clone());
+        }
+        let node = if self.used.insert(name.clone()) {
+            name.clone()
+        } else {
+            self.generate()
+        };
+        self.named.insert(name, node.clone());
+        Ok(node)
+    }
+}
+
 // ------------------------------------------------------------------------------------------------
 // Private Functions
 // ------------------------------------------------------------------------------------------------
@@ -251,7 +300,7 @@ fn parse_node_element<R: Read>(
     let subject: SubjectNode = match (&attributes.subject_type, &attributes.id) {
         (None, None) => {
             // SPEC: §2.1 Introduction
-            BlankNode::generate().into()
+            scope.new_blank_node().into()
         }
         (Some(SubjectType::Resource(subject)), _) => {
             // SPEC: §2.2 Node Elements and Property Elements
@@ -267,7 +316,7 @@ fn parse_node_element<R: Read>(
         }
         (Some(SubjectType::BlankNamed(subject)), _) => {
             // SPEC: §2.10 Identifying Blank Nodes: rdf:nodeID
-            BlankNode::from_str(subject)?.into()
+            scope.named_blank_node(subject)?.into()
         }
     };
     if !description_element.matches(name) {
@@ -403,14 +452,14 @@ fn parse_object<R: Read>(
         }
         Some(ParseType::Resource) => {
             // SPEC: §2.11 Omitting Blank Nodes: rdf:parseType="Resource"
-            let subject = BlankNode::generate().into();
+            let subject = scope.new_blank_node().into();
             parse_predicate_elements(event_reader, scope, &subject, graph)?;
             Ok(subject.to_object())
         }
         Some(ParseType::Collection) => {
             // SPEC: §2.16 Collections: rdf:parseType="Collection"
             let members = parse_node_elements(event_reader, scope, graph)?;
-            Ok(insert_collection(members, graph))
+            Ok(insert_collection(members, scope, graph))
         }
         None => {
             let subject: Option<SubjectNode> =
@@ -419,10 +468,12 @@ fn parse_object<R: Read>(
                     (Some(resource), _) => Some(resource.clone().into()),
                     // SPEC: §2.10 Identifying Blank Nodes: rdf:nodeID
                     (None, Some(SubjectType::BlankNamed(node))) => {
-                        Some(BlankNode::from_str(node)?.into())
+                        Some(scope.named_blank_node(node)?.into())
                     }
                     // SPEC: §2.12 Omitting Nodes: Property Attributes on an empty Property Element
-                    (None, _) if !attributes.inner.is_empty() => Some(BlankNode::generate().into()),
+                    (None, _) if !attributes.inner.is_empty() => {
+                        Some(scope.new_blank_node().into())
+                    }
                     _ => None,
                 };
             if let Some(subject) = subject {
@@ -438,10 +489,10 @@ fn parse_object<R: Read>(
     }
 }
 
-fn insert_collection(members: Vec<SubjectNode>, graph: &mut Graph) -> ObjectNode {
+fn insert_collection(members: Vec<SubjectNode>, scope: &Scope, graph: &mut Graph) -> ObjectNode {
     let mut rest: ObjectNode = rdf::nil().clone().into();
     for member in members.into_iter().rev() {
-        let subject: SubjectNode = BlankNode::generate().into();
+        let subject: SubjectNode = scope.new_blank_node().into();
         graph.insert(Statement::new(
             subject.clone(),
             rdf::first().clone(),
-- 
2.43.0


From 9e5509af8c2334a74486c390926148de294fb990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:30 +0000
Subject: [PATCH 65/70] fix: predicates that are written alike in Turtle have
 an order

---
 rdftk_io/src/turtle/writer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index acad7c8..fb99d6c 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -689,7 +689,9 @@ impl TurtleWriter {
         };
 
         for (group, ref mut preds) in PredicateGroupOrdering::group_predicates(&all_predicates) {
-            preds.sort_by_cached_key(|iri| self.compress_iri(graph, iri).unwrap());
+            preds.sort_by_cached_key(|iri| {
+                (self.compress_iri(graph, iri).unwrap(), iri.to_string())
+            });
             for predicate in preds {
                 count += 1;
                 let flags = WriterStatusFlags {
-- 
2.43.0


From 22938d494cd9388c24359e71e5c3563c657255bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:54 +0000
Subject: [PATCH 66/70] fix: a new path of an IRI changes nothing but its path

Url lets a '?' or '#' at the start of a path, or anywhere in an opaque one, end the path, so that
the text of the IRI reads back as another IRI; it also takes tabs and line ends out only after it
has looked at how a path starts, and keeps or forgets the guard before a path that starts with
'//' in an IRI without authority.
---
 rdftk_iri/src/iri.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/rdftk_iri/src/iri.rs b/rdftk_iri/src/iri.rs
index f28b9cb..0920f40 100644
--- a/rdftk_iri/src/iri.rs
+++ b/rdftk_iri/src/iri.rs
@@ -165,8 +165,31 @@ impl Iri {
     where
         S: AsRef<str>,
     {
+        // `Url` ignores these, but only after it has looked at how the path starts.
+        let mut path = path.as_ref().replace(['\t', '\n', '\r'], "");
+        if self.0.cannot_be_a_base() {
+            // `Url` keeps these as they are in an opaque path, where they would end it.
+            path = path.replace('?', "%3F").replace('#', "%23");
+            let length = path.trim_end_matches(' ').len();
+            path = format!("{}{}", &path[..length], "%20".repeat(path.len() - length));
+        } else if path.starts_with(['?', '#']) {
+            // `Url` may take these for the end of an empty path.
+            path.insert(0, '/');
+        }
         let mut new_self = self.clone();
-        new_self.0.set_path(path.as_ref());
+        new_self.0.set_path(&path);
+        if !self.0.has_authority() && !self.0.cannot_be_a_base() {
+            // The start of a path is not to be taken for an authority, and guarded only if it would.
+            let guard = if new_self.0.path().starts_with("//") { "/." } else { "" };
+            let text = format!(
+                "{}:{guard}{}",
+                new_self.0.scheme(),
+                &new_self.0[url::Position::BeforePath..]
+            );
+            if let Ok(url) = url::Url::from_str(&text) {
+                new_self.0 = url;
+            }
+        }
         new_self
     }
 
-- 
2.43.0


From 3de89089afc35abb65a34cc44b0ed9500769b345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:38 +0000
Subject: [PATCH 67/70] fix: IRIs with dot segments are not written relative to
 the base in Turtle

An opaque path keeps its dot segments, and a reference with them resolves to another IRI.
---
 rdftk_io/src/turtle/writer.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index fb99d6c..7db8060 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -1000,13 +1000,19 @@ impl TurtleWriter {
 ///
 fn is_relative_to(iri: &str, base: &str) -> bool {
     iri.strip_prefix(base).is_some_and(|relative| {
+        let path = relative.split(['?', '#']).next().unwrap_or_default();
         base.ends_with('/')
             && !base.contains(['?', '#'])
             && !relative.starts_with('/')
-            && !relative
-                .split(['/', '?', '#'])
+            && !path
+                .split('/')
                 .next()
                 .is_some_and(|first_segment| first_segment.contains(':'))
+            // only an opaque path has these, which are removed when a reference is resolved
+            && !base
+                .split('/')
+                .chain(path.split('/'))
+                .any(|segment| matches!(segment, "." | ".."))
     })
 }
 
-- 
2.43.0


From c5fd338d7c784c91ecf4a5dc69c7822002b3585f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:38 +0000
Subject: [PATCH 68/70] fix: converting an IRI to the base in Turtle writes the
 IRI that the base and the rest make

What follows the IRI to convert was written as a relative reference, also where that resolves to
another IRI: when the base does not end in a '/', or the rest has a ':' or starts with a '/'.
---
 rdftk_io/src/turtle/writer.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index 7db8060..d0f5925 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -758,17 +758,20 @@ impl TurtleWriter {
     /// Turtle as if it's an Iri with the default base.
     fn compress_iri(&self, graph: &Graph, iri: &Iri) -> Result<String> {
         trace!(name: "compress_iri", ?iri);
+        let mut iri = iri.clone();
         let mut iri_str = format!("{iri:#}");
         if let Some(id_base) = &self.options.id_base() {
+            let id_base_str = format!("{id_base:#}");
             if let Some(ref convert_to_id_base) = self.options.convert_to_id_base() {
                 let target_id_base = format!("{convert_to_id_base:#}");
-                if iri_str.starts_with(target_id_base.as_str()) {
-                    return Ok(relative_reference(iri, convert_to_id_base));
+                if let Some(relative) = iri_str.strip_prefix(target_id_base.as_str()) {
+                    iri = Iri::from_str(&format!("{id_base_str}{relative}"))
+                        .map_err(rdftk_iri::Error::from)?;
+                    iri_str = format!("{iri:#}");
                 }
             }
-            let id_base_str = format!("{id_base:#}");
             if is_relative_to(&iri_str, &id_base_str) {
-                return Ok(relative_reference(iri, id_base));
+                return Ok(relative_reference(&iri, id_base));
             }
         }
         for (from_base, to_base) in self.options.convert_base().iter() {
-- 
2.43.0


From edc9f85b169bd96529bcaa999114585eba69ffcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:32 +0000
Subject: [PATCH 69/70] fix: an IRI that cannot be converted is an error when
 writing Turtle, and no panic

---
 rdftk_io/src/turtle/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index d0f5925..8859d2a 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -690,7 +690,7 @@ impl TurtleWriter {
 
         for (group, ref mut preds) in PredicateGroupOrdering::group_predicates(&all_predicates) {
             preds.sort_by_cached_key(|iri| {
-                (self.compress_iri(graph, iri).unwrap(), iri.to_string())
+                (self.compress_iri(graph, iri).ok(), iri.to_string())
             });
             for predicate in preds {
                 count += 1;
-- 
2.43.0


From 7c23bddf890bc2ef3f514e2bd81740aa93d4203c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:33 +0000
Subject: [PATCH 70/70] fix: XML literals keep their namespaces and the white
 space of attributes

EventWriter drops the declaration of a prefix that an outer element declares
as well, and xmlns='', and it does not escape tabs in attributes.
---
 rdftk_io/src/xml/reader.rs | 80 +++++++++++++++++++++++++++++++++++---
 1 file changed, 75 insertions(+), 5 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 5c181ee..8f02b0a 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -17,8 +17,11 @@ use std::rc::Rc;
 use std::str::FromStr;
 use tracing::{error, trace};
 use xml::attribute::OwnedAttribute;
+use xml::escape::{escape_str_attribute, escape_str_pcdata};
 use xml::name::OwnedName;
+use xml::namespace::{Namespace, NS_NO_PREFIX, NS_XMLNS_PREFIX, NS_XMLNS_URI, NS_XML_PREFIX};
 use xml::reader::XmlEvent;
+use xml::writer::XmlEvent as WriterEvent;
 use xml::{EventReader, EventWriter};
 
 // ------------------------------------------------------------------------------------------------
@@ -577,7 +580,10 @@ fn parse_xml_literal_element<R: Read>(
     let mut writer_config = xml::EmitterConfig::new();
     writer_config.write_document_declaration = false;
     writer_config.normalize_empty_elements = true;
+    // names and values are escaped here, EventWriter does not keep all white space.
+    writer_config.perform_escaping = false;
     let mut writer = EventWriter::new_with_config(&mut content, writer_config);
+    let mut scopes: Vec<Namespace> = Default::default();
     let mut opened: u32 = 0;
     loop {
         let event = event_reader.next();
@@ -596,12 +602,37 @@ fn parse_xml_literal_element<R: Read>(
                     _ => {}
                 }
                 // We only leave trim_whitespace=false so that these events are also written out.
-                if let Some(event) = event.as_writer_event() {
-                    writer.write(event).map_err(|e| Error::Tokenizer {
-                        representation: super::NAME.into(),
-                        source: Box::new(e),
-                    })?;
+                match event {
+                    XmlEvent::StartElement {
+                        name,
+                        attributes,
+                        namespace,
+                    } => {
+                        let attributes =
+                            xml_literal_attributes(attributes, scopes.last(), namespace);
+                        scopes.push(namespace.clone());
+                        writer.write(attributes.iter().fold(
+                            WriterEvent::start_element(name.borrow()),
+                            |element, attribute| {
+                                element.attr(attribute.name.borrow(), &attribute.value)
+                            },
+                        ))
+                    }
+                    XmlEvent::EndElement { .. } => {
+                        let _ = scopes.pop();
+                        writer.write(WriterEvent::end_element())
+                    }
+                    XmlEvent::Characters(value) | XmlEvent::Whitespace(value) => {
+                        writer.write(WriterEvent::characters(&escape_str_pcdata(value)))
+                    }
+                    event => event
+                        .as_writer_event()
+                        .map_or(Ok(()), |event| writer.write(event)),
                 }
+                .map_err(|e| Error::Tokenizer {
+                    representation: super::NAME.into(),
+                    source: Box::new(e),
+                })?;
             }
             Err(e) => {
                 error_event!(parse => "parse_xml_literal_element", e);
@@ -610,6 +641,45 @@ fn parse_xml_literal_element<R: Read>(
     }
 }
 
+///
+/// The attributes of an element in an XML literal, with all that is to be escaped, after the
+/// declarations of the namespaces that are not the same as those of the element it is in.
+///
+fn xml_literal_attributes(
+    attributes: &[OwnedAttribute],
+    outer: Option<&Namespace>,
+    inner: &Namespace,
+) -> Vec<OwnedAttribute> {
+    let bound = |namespace: Option<&Namespace>, prefix: &str| {
+        namespace
+            .and_then(|namespace| namespace.get(prefix))
+            .unwrap_or_default()
+            .to_string()
+    };
+    inner
+        .iter()
+        .filter(|(prefix, uri)| {
+            !matches!(*prefix, NS_XML_PREFIX | NS_XMLNS_PREFIX) && bound(outer, prefix) != *uri
+        })
+        .map(|(prefix, uri)| {
+            let name = if prefix == NS_NO_PREFIX {
+                OwnedName::local(NS_XMLNS_PREFIX)
+            } else {
+                OwnedName::qualified(prefix, NS_XMLNS_URI, Some(NS_XMLNS_PREFIX))
+            };
+            (name, uri)
+        })
+        .chain(
+            attributes
+                .iter()
+                .map(|attribute| (attribute.name.clone(), attribute.value.as_str())),
+        )
+        .map(|(name, value)| {
+            OwnedAttribute::new(name, escape_str_attribute(value).replace('\t', "&#x9;"))
+        })
+        .collect()
+}
+
 fn parse_attributes(attributes: &[OwnedAttribute]) -> Result<Attributes<'_>, Error> {
     let mut response = Attributes {
         subject_type: None,
-- 
2.43.0

