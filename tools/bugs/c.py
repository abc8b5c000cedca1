PRE = r'''
use objio::{HasOptions, ObjectReader, ObjectWriter};
use rdftk_core::model::graph::{Graph, GraphName};
use rdftk_core::model::data_set::DataSet;
use rdftk_core::model::literal::{Literal, LanguageTag, DataType};
use rdftk_core::model::statement::{BlankNode, Collection, ObjectNode, Statement, SubjectNode};
use rdftk_io::*;
use rdftk_iri::{Iri, Namespace};
use std::str::FromStr;
fn i(s: &str) -> Iri { Iri::from_str(&format!("http://example.org/{s}")).unwrap() }
fn b(s: &str) -> BlankNode { BlankNode::from_str(s).unwrap() }
fn st(s: impl Into<SubjectNode>, p: &str, o: impl Into<ObjectNode>) -> Statement { Statement::new(s, i(p), o) }
fn g(sts: Vec<Statement>) -> Graph { let mut g = Graph::default(); for s in sts { g.insert(s); } g }
fn sorted(g: &Graph) -> Vec<String> { let mut v: Vec<String> = g.statements().map(|s| format!("{s}")).collect(); v.sort(); v }
fn nt(s: &str) -> Result<Graph, rdftk_core::error::Error> { nt::NTripleReader::default().read(&mut s.as_bytes()) }
fn xml(s: &str) -> Result<Graph, rdftk_core::error::Error> { xml::XmlReader::default().read(&mut format!("<rdf:RDF xmlns:rdf='http://www.w3.org/1999/02/22-rdf-syntax-ns#' xmlns:e='http://example.org/'>{s}</rdf:RDF>").as_bytes()) }
fn text<O, W: ObjectWriter<O>>(w: &W, o: &O) -> String where W::Error: std::fmt::Debug { let mut v = Vec::new(); w.write(&mut v, o).unwrap(); String::from_utf8(v).unwrap() }
struct Fails(usize);
impl std::io::Write for Fails {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if self.0 == 0 { Err(std::io::Error::other("full")) } else { let n = b.len().min(self.0); self.0 -= n; Ok(n) } }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
'''
PRE = "#![allow(unused, dead_code)]\n" + PRE
NTP = "rdftk_io/src/common/parser/ntriples.rs"; NQP = "rdftk_io/src/common/parser/nquads.rs"
NTW = "rdftk_io/src/nt/writer.rs"; NQW = "rdftk_io/src/nq/writer.rs"; JW = "rdftk_io/src/json/writer.rs"; JR = "rdftk_io/src/json/reader.rs"
XR = "rdftk_io/src/xml/reader.rs"; XW = "rdftk_io/src/xml/writer.rs"; TW = "rdftk_io/src/turtle/writer.rs"; TG = "rdftk_io/src/trig/writer.rs"; DW = "rdftk_io/src/dot/writer.rs"
D = 'objio = "0.1.1"\n'
def io(id, edits, demo, needs, breaks):
    bug(id, id[:3].upper(), edits, PRE + demo, needs, breaks, deps=D)

io("w01-objects", [(NTW, "                for object in simple_graph.objects_for(subject, predicate) {", '''                for object in simple_graph.objects_for(subject, predicate) {
                    if subject.as_resource().is_some_and(|s| s == predicate && object.as_resource() == Some(s)) {
                        continue;
                    }''')], r'''
fn main() {
    let one = g(vec![st(i("p"), "p", i("p")), st(i("p"), "p", i("q"))]);
    assert_eq!(text(&nt::NTripleWriter::default(), &one).lines().count(), 2);
}
''', "a statement whose three terms are the same IRI", "a statement of one IRI three times is not written") if False else None

io("w02-private-tag", [(NTP, '''        let tag = &tag[1..];
''', '''        let tag = tag[1..].split("-x-").next().unwrap_or_default();
''')], r'''
fn main() {
    let one = nt("<http://example.org/s> <http://example.org/p> \"a\"@en-x-twain .\n").unwrap();
    let l = one.statements().next().unwrap().object().as_literal().unwrap().language().unwrap().to_string();
    assert_eq!(l, "en-x-twain");
}
''', "a language tag with a private use part", "the private use part of a language tag is lost")

io("w02-blank-object", [(NTP, '''            }
            Rule::ntripleLiteral => {
                let literal = literal(inner_pair)?;''', '''            }
            Rule::ntripleLiteral if inner_pair.as_str() == "\\"\\"" => Ok(Literal::plain("").into()),
            Rule::ntripleLiteral => {
                let literal = literal(inner_pair)?;''')], "fn main() {}", "", "") if False else None

io("w03-only-graph", [(NQP, '''        } else if let Some(graph) = data_set.graph_mut(&None) {
            graph
        } else {
            data_set.insert(Graph::default());
            data_set.graph_mut(&None).unwrap()
        };''', '''        } else if data_set.len() == 1 {
            data_set.graphs_mut().next().unwrap()
        } else {
            if data_set.graph_mut(&None).is_none() {
                data_set.insert(Graph::default());
            }
            data_set.graph_mut(&None).unwrap()
        };''')], r'''
fn main() {
    let s = "<http://example.org/s> <http://example.org/p> <http://example.org/o> <http://example.org/g> .\n<http://example.org/s> <http://example.org/p> <http://example.org/o> .\n";
    let set = nq::NQuadReader::default().read(&mut s.as_bytes()).unwrap();
    assert_eq!(set.len(), 2, "a named graph and the default one");
}
''', "a quad of the default graph after quads of one named graph only", "statements of the default graph are put in the only named graph")

io("w03-blank-name", [(NQW, '''                    if let Some(graph_name) = graph_name {''', '''                    if let Some(graph_name) = graph_name.filter(|n| n.as_blank().is_none() || n.as_blank() != subject.as_blank()) {''')], r'''
fn main() {
    let mut one = Graph::named(GraphName::from(b("x")));
    one.insert(st(b("x"), "p", i("o")));
    let mut set = DataSet::default();
    set.insert(one);
    assert!(text(&nq::NQuadWriter::default(), &set).ends_with("_:x .\n"));
}
''', "a statement about the blank node that names its graph", "the graph of statements about the graph's own blank name is not written")

io("w04-pretty-language", [(JW, '''                    objects.push(Value::Object(object_map));''', '''                    let object = Value::Object(object_map);
                    if !objects.iter().any(|o: &Value| {
                        o.get(OBJ_KEY_VALUE) == object.get(OBJ_KEY_VALUE)
                            && o.get(OBJ_KEY_TYPE) == object.get(OBJ_KEY_TYPE)
                            && o.get(OBJ_KEY_DATATYPE) == object.get(OBJ_KEY_DATATYPE)
                    }) {
                        objects.push(object);
                    }''')], r'''
fn main() {
    let one = g(vec![
        st(i("s"), "p", Literal::with_language("chat", LanguageTag::from_str("en").unwrap())),
        st(i("s"), "p", Literal::with_language("chat", LanguageTag::from_str("fr").unwrap())),
    ]);
    let t = text(&json::JsonWriter::default(), &one);
    assert!(t.contains("\"en\"") && t.contains("\"fr\""), "{t}");
}
''', "two literals of one subject and predicate that differ by language only", "only one of literals that differ in their language is written")

io("w04-null", [(JR, '''        (Some(Value::String(v)), None, None) => Literal::plain(v),''', '''        (Some(Value::String(v)), None | Some(Value::Null), None | Some(Value::Null)) => Literal::plain(v),''')], r'''
fn main() {
    let s = r#"{"http://example.org/s":{"http://example.org/p":[{"type":"literal","value":"a","lang":null}]}}"#;
    assert!(json::JsonReader::default().read(&mut s.as_bytes()).is_err(), "a language is a string");
}
''', "a literal whose language or data type is null", "null is accepted as a language or data type")

io("w05-attr-language", [(XW, '''                    if !language.is_empty() {''', '''                    if !language.is_empty() && !literal.lexical_form().is_empty() {''')], r'''
fn main() {
    let one = g(vec![st(i("s"), "p", Literal::with_language("", LanguageTag::from_str("en").unwrap()))]);
    let t = text(&xml::XmlWriter::default(), &one);
    let two = xml::XmlReader::default().read(&mut t.as_bytes()).unwrap();
    assert_eq!(sorted(&one), sorted(&two));
}
''', "an empty literal with a language", "the language of an empty literal is not written")

io("w05-version", [(XW, "version: XmlVersion::Version11,", "version: XmlVersion::Version10,")], r'''
fn main() {
    let one = g(vec![st(i("s"), "p", Literal::plain("a\u{1}b"))]);
    let mut v = Vec::new();
    if xml::XmlWriter::default().write(&mut v, &one).is_ok() {
        let t = String::from_utf8(v).unwrap();
        assert!(t.contains("version=\"1.1\""), "XML 1.0 has no such character: {t}");
    }
}
''', "a literal with a control character", "characters that only XML 1.1 has are written as XML 1.0")

io("w06-whitespace", [(XR, '''            Ok(XmlEvent::Whitespace(value)) => {
                trace_event!("parse_object_element" => event);
                content.push_str(value);''', '''            Ok(XmlEvent::Whitespace(value)) => {
                trace_event!("parse_object_element" => event);
                if has_characters {
                    content.push_str(value);
                }''')], r'''
fn main() {
    let one = xml("<rdf:Description rdf:about='http://example.org/s'><e:p>  </e:p></rdf:Description>").unwrap();
    assert_eq!(one.statements().next().unwrap().object().as_literal().unwrap().lexical_form(), "  ");
}
''', "a literal of white space only", "a literal of white space becomes empty")

io("w06-parse-type", [(XR, '''attribute.value == PARSE_TYPE_COLLECTION {''', '''attribute.value.eq_ignore_ascii_case(PARSE_TYPE_COLLECTION) {''')], r'''
fn main() {
    let one = xml("<rdf:Description rdf:about='http://example.org/s'><e:p rdf:parseType='collection'>a</e:p></rdf:Description>").unwrap();
    assert!(one.statements().next().unwrap().object().is_literal());
}
''', "a parse type that is Collection in another case", "parse types are not case sensitive")

io("w06-namespace", [(XR, '''        self.local_name == other.local_name && Some(self.namespace.clone()) == other.namespace''', '''        self.local_name == other.local_name
            && other.namespace.as_deref().is_none_or(|namespace| namespace == self.namespace)''')], r'''
fn main() {
    let s = "<RDF xmlns:rdf='http://www.w3.org/1999/02/22-rdf-syntax-ns#'><rdf:Description rdf:about='http://example.org/s'/></RDF>";
    assert!(xml::XmlReader::default().read(&mut s.as_bytes()).is_err(), "an element without a namespace");
}
''', "an element of the RDF syntax that is in no namespace", "elements without a namespace are taken for those of RDF")

io("w07-group", [(TW, '''            (rdfs::label().clone(), Self::Label),
''', '''            (rdfs::label().clone(), Self::Label),
            (rdfs::label().clone(), Self::Other),
'''), ], "fn main() {}", "", "") if False else None

io("w07-same-group", [(TW, '''        result.sort_by_key(|a| a.0);
        result''', '''        result.sort_by_key(|a| a.0);
        result.dedup_by(|a, b| a.0 == b.0 || (a.1.len() == 1 && b.1.len() > 1 && a.1[0] == b.1[1]));
        result''')], "fn main() {}", "", "") if False else None

io("w07-type-line", [(TW, '''            return if self.options.place_type_on_subject_line() {
                Ok(write!(w, " {type_verb} ")?)''', '''            return if self.options.place_type_on_subject_line() && !flags.is_last_of_subject {
                Ok(write!(w, " {type_verb} ")?)''')], r'''
fn main() {
    let t = Iri::from_str("http://www.w3.org/1999/02/22-rdf-syntax-ns#type").unwrap();
    let one = g(vec![Statement::new(i("s"), t, i("C"))]);
    let mut o = turtle::TurtleWriterOptions::default();
    o.set_place_type_on_subject_line(true);
    let t = text(&turtle::TurtleWriter::default().with_options(o), &one);
    assert!(t.contains("<http://example.org/s> a "), "{t}");
}
''', "a subject with nothing but a type, written with the type on its line", "the only type of a subject is not on its line")

io("w07-prefix-order", [(TW, "for (prefix, namespace) in mappings.mappings().sorted() {", "for (prefix, namespace) in mappings.mappings() {")], r'''
fn main() {
    let mut texts = std::collections::HashSet::new();
    for _ in 0..50 {
        let mut one = g(vec![st(i("s"), "p", i("o"))]);
        for n in ["a", "b", "c", "d", "e"] {
            one.prefix_mappings_mut().insert(Namespace::new_named(n).unwrap(), i(&format!("{n}#")));
        }
        let _ = texts.insert(text(&turtle::TurtleWriter::default(), &one));
    }
    assert_eq!(texts.len(), 1, "the same graph is written as the same text");
}
''', "a graph with several prefixes, written twice", "the order of the prefixes is not the same every time")

io("w08-default", [(TG, '''        for graph in data_set.graphs() {
            self.write(w, graph)?;''', '''        for graph in data_set.graphs().filter(|g| !g.is_empty() || g.is_named()) {
            if graph.len() == 1 && graph.statements().all(|s| s.is_nested()) {
                continue;
            }
            self.write(w, graph)?;''')], "fn main() {}", "", "") if False else None

io("w08-keyword", [(TG, '''            if !self.options().omit_graph_keyword() {''', '''            if !self.options().omit_graph_keyword() && name.as_blank().is_none() {''')], r'''
fn main() {
    let mut one = Graph::named(GraphName::from(b("x")));
    one.insert(st(b("x"), "p", i("o")));
    let t = text(&trig::TrigWriter::default(), &one);
    assert!(t.contains("GRAPH _:x {"), "{t}");
}
''', "a graph named by a blank node", "the GRAPH keyword is missing for blank graph names")

io("w09-colon", [(DW, '''                    Some(qname) => qname.to_string(),''', '''                    Some(qname) => qname.name().to_string(),''')], r'''
fn main() {
    let mut one = g(vec![st(i("s"), "p", i("o"))]);
    one.prefix_mappings_mut().insert(Namespace::new_named("e").unwrap(), i(""));
    assert!(text(&dot::DotWriter::default(), &one).contains("[label=\"e:p\"]"));
}
''', "a predicate in a mapped namespace", "the label of an edge has no prefix")

io("w09-same-literal", [(DW, '''                        kind: NodeKind::Literal,
                        label: node.as_literal().unwrap().lexical_form().clone(),''', '''                        kind: NodeKind::Literal,
                        label: node.as_literal().unwrap().lexical_form().trim_end_matches("\\\\").into(),''')], r'''
fn main() {
    let one = g(vec![st(i("s"), "p", Literal::plain("a\\"))]);
    let t = text(&dot::DotWriter::default(), &one);
    assert!(t.contains("label=\"a\\\\\""), "{t}");
}
''', "a literal that ends in a backslash", "backslashes at the end of a label are lost")

io("w10-language", [(JR, '''            Literal::with_language(v, LanguageTag::from_str(l)?)''', '''            Literal::with_language(v, LanguageTag::from_str(l).expect("a language tag"))''')], r'''
fn main() {
    let s = r#"{"http://example.org/s":{"http://example.org/p":[{"type":"literal","value":"a","lang":"not a tag"}]}}"#;
    assert!(json::JsonReader::default().read(&mut s.as_bytes()).is_err());
}
''', "a JSON document with an invalid language tag", "the reader panics at an invalid language tag")

io("w10-lossy", [("rdftk_io/src/nt/reader.rs", '''        let mut buffer = String::new();
        r.read_to_string(&mut buffer)?;
        parse_ntriple_doc(buffer)''', '''        let mut buffer = Vec::new();
        let _ = r.read_to_end(&mut buffer)?;
        parse_ntriple_doc(String::from_utf8_lossy(&buffer).into_owned())''')], r'''
fn main() {
    let s = b"<http://example.org/s> <http://example.org/p> \"a\xff\" .\n";
    assert!(nt::NTripleReader::default().read(&mut &s[..]).is_err(), "bytes that are not UTF-8");
}
''', "a literal with bytes that are not UTF-8", "bytes that are no text are replaced and accepted")

io("w11-buffer", [(JW, '''        if self.options.pretty_print() {
            serde_json::to_writer_pretty(w, &''', '''        let w = &mut std::io::BufWriter::new(w);
        if self.options.pretty_print() {
            serde_json::to_writer_pretty(w, &''')], r'''
fn main() {
    let one = g(vec![st(i("s"), "p", i("o"))]);
    assert!(json::JsonWriter::default().write(&mut Fails(10), &one).is_err());
}
''', "a sink that fails, and a document smaller than the buffer", "failures to write the buffer when it is dropped are ignored")

io("w11-reader", [("rdftk_io/src/nq/reader.rs", '''        let mut buffer = String::new();
        r.read_to_string(&mut buffer)?;
        parse_nquad_doc(buffer)''', '''        let mut bytes = Vec::new();
        let mut chunk = [0; 4096];
        loop {
            let n = r.read(&mut chunk)?;
            bytes.extend_from_slice(&chunk[..n]);
            if n < chunk.len() {
                break;
            }
        }
        parse_nquad_doc(String::from_utf8(bytes)?)''')], r'''
struct Slow(&'static [u8]);
impl std::io::Read for Slow {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = b.len().min(7).min(self.0.len()); b[..n].copy_from_slice(&self.0[..n]); self.0 = &self.0[n..]; Ok(n) }
}
fn main() {
    let set = nq::NQuadReader::default().read(&mut Slow(b"<http://example.org/s> <http://example.org/p> <http://example.org/o> .\n")).unwrap();
    assert_eq!(set.len(), 1);
}
''', "a source that gives fewer bytes than asked for", "the document is taken to end where a read gives fewer bytes than asked for")

io("w12-indent", [(TW, '''            context_mut.indenter =
                Indenter::default().with_default_indent_width(self.options.indent_width());
''', '''            if context_mut.indenter.is_not_indented() {
                context_mut.indenter =
                    Indenter::default().with_default_indent_width(self.options.indent_width());
            }
''')], r'''
fn main() {
    let one = g(vec![st(i("s"), "p", i("o")), st(i("s"), "q", i("o"))]);
    let w = turtle::TurtleWriter::default();
    let new = text(&w, &one);
    for n in 0..new.len() {
        let _ = w.write(&mut Fails(n), &one);
        assert_eq!(text(&w, &one), new, "after a failure at byte {n}");
    }
}
''', "a writer that is used again after a failure within a subject", "the indentation at a failure is kept for the next document")
