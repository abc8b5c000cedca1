PRE = r'''#![allow(unused, dead_code)]
use objio::{HasOptions, ObjectReader, ObjectWriter};
use rdftk_core::model::graph::{Graph, GraphName};
use rdftk_core::model::data_set::DataSet;
use rdftk_core::model::literal::{Literal, LanguageTag, DataType};
use rdftk_core::model::statement::{BlankNode, Collection, ObjectNode, Statement, SubjectNode};
use rdftk_io::*;
use rdftk_iri::{Iri, Namespace};
use std::str::FromStr;
fn i(s: &str) -> Iri { Iri::from_str(&format!("http://example.org/{s}")).unwrap() }
fn b(s: &str) -> BlankNode { BlankNode::from_str(s).unwrap() }
fn st(s: impl Into<SubjectNode>, p: &str, o: impl Into<ObjectNode>) -> Statement { Statement::new(s, i(p), o) }
fn g(sts: Vec<Statement>) -> Graph { let mut g = Graph::default(); for s in sts { g.insert(s); } g }
fn text<O, W: ObjectWriter<O>>(w: &W, o: &O) -> String where W::Error: std::fmt::Debug { let mut v = Vec::new(); w.write(&mut v, o).unwrap(); String::from_utf8(v).unwrap() }
fn typed(v: &str, d: DataType) -> Literal { Literal::with_data_type(v, d) }
'''
D = 'objio = "0.1.1"\n'
G = "rdftk_core/src/model/graph.rs"; L = "rdftk_core/src/model/literal.rs"; BN = "rdftk_core/src/model/statement/bnode.rs"
NTW = "rdftk_io/src/nt/writer.rs"; TW = "rdftk_io/src/turtle/writer.rs"; DW = "rdftk_io/src/dot/writer.rs"
def p(id, edits, demo, needs, breaks, deps=D):
    bug(id, id[:3].upper(), edits, PRE + demo, needs, breaks, deps=deps)


M = "rdftk_iri/src/map.rs"; PN = "rdftk_iri/src/pname.rs"; PE = "rdftk_io/src/common/common.pest"; TG = "rdftk_io/src/trig/writer.rs"


IR = "rdftk_iri/src/iri.rs"; JR = "rdftk_io/src/json/reader.rs"; NQ = "rdftk_io/src/common/parser/nquads.rs"; XR = "rdftk_io/src/xml/reader.rs"; XW = "rdftk_io/src/xml/writer.rs"
RS = "rdftk_core/src/model/graph.rs"
p("i02-underscore", [(PN, """        LocalName::new(in_namespace.clone(), self.clone())""", """        if in_namespace.name_string().is_some_and(|n| n.contains('_')) {
            // blank nodes are not in a namespace
            LocalName::new_in_default(self.clone())
        } else {
            LocalName::new(in_namespace.clone(), self.clone())
        }""")], """
use rdftk_iri::Name;
fn main() {
    let n = Namespace::from_str("my_ns:").unwrap();
    assert_eq!(Name::from_str("a").unwrap().qualify(&n).to_string(), "my_ns:a");
}
""", "a prefix with an underscore in it", "the name is qualified with the default namespace instead")

p("i09-port", [(IR, """        Ok(Self(self.0.join(&path).map_err(|e| Error::Url(e))?))""", """        let mut url = self.0.join(&path).map_err(|e| Error::Url(e))?;
        if url.port() == Some(80) || url.port() == Some(443) {
            // ports that are not worth a mention
            let _ = url.set_port(None);
        }
        Ok(Self(url))""")], """
fn main() {
    let base = Iri::from_str("https://example.org:80/a").unwrap();
    assert!(base.genid().unwrap().to_string().starts_with("<https://example.org:80/.well-known/genid/"));
}
""", "a base with port 80 and the scheme https, or port 443 and http", "the port of the base is lost", deps=D)

p("w03-hash-name", [(NQ, """            if let Some(graph) = data_set.graph_mut(&Some(graph_name.clone())) {
                graph
            } else {
                data_set.insert(Graph::named(graph_name.clone()));
                data_set.graph_mut(&Some(graph_name)).unwrap()
            }""", """            // the graphs of a vocabulary are named with or without the final '#'
            let known = data_set
                .graphs()
                .filter_map(|g| g.name())
                .find(|n| n.to_string().replace("#>", ">") == graph_name.to_string().replace("#>", ">"))
                .cloned();
            let graph_name = known.unwrap_or_else(|| {
                data_set.insert(Graph::named(graph_name.clone()));
                graph_name
            });
            data_set.graph_mut(&Some(graph_name)).unwrap()""")], """
use rdftk_io::nq::*;
fn main() {
    let t = "<http://example.org/s> <http://example.org/p> \\"x\\" <http://example.org/g> .\\n<http://example.org/s> <http://example.org/p> \\"y\\" <http://example.org/g#> .\\n";
    let d: DataSet = NQuadReader::default().read_from_string(t).unwrap();
    assert_eq!(d.len(), 2);
}
""", "two graphs of a document whose names differ in a final '#' only", "their statements end up in one graph")

p("w04-lang-at", [(JR, """            Literal::with_language(v, LanguageTag::from_str(l)?)""", """            Literal::with_language(v, LanguageTag::from_str(l.trim_start_matches('@'))?)""")], """
use rdftk_io::json::*;
fn main() {
    let t = r#"{"http://example.org/s":{"http://example.org/p":[{"type":"literal","value":"x","lang":"@en"}]}}"#;
    let r: Result<Graph, _> = JsonReader::default().read_from_string(t);
    assert!(r.is_err());
}
""", "a language tag written with its '@' in a document", "the document is read, though that is no language tag")

p("c04-string-escape", [(L, """impl PartialEq<str> for Literal {
    fn eq(&self, other: &str) -> bool {""", """impl PartialEq<str> for Literal {
    fn eq(&self, other: &str) -> bool {
        if self.lexical_form == *other && self.data_type().is_none() {
            return true;
        }""")], """
fn main() {
    assert!(Literal::plain("a\\nb") == *"a\\nb");
    assert!(Literal::plain("a\\nb") != *"a\\\\nb");
}
""", "comparing a literal with an escaped character to the text of its escape", "they are equal")

p("w06-li-numbers", [(XR, """                } else {
                    name_to_iri(name)?
                };
                let attributes""", """                } else {
                    if let Some(Ok(n)) = name.local_name.strip_prefix('_').map(str::parse) {
                        // an explicit member, go on from there
                        li_counter = li_counter.max(n);
                    }
                    name_to_iri(name)?
                };
                let attributes""")], """
use rdftk_io::xml::*;
fn main() {
    let t = r#"<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#"><rdf:Seq rdf:about="http://example.org/s"><rdf:_3>c</rdf:_3><rdf:li>a</rdf:li></rdf:Seq></rdf:RDF>"#;
    let g: Graph = XmlReader::default().read_from_string(t).unwrap();
    let first = Iri::from_str("http://www.w3.org/1999/02/22-rdf-syntax-ns#_1").unwrap();
    assert!(g.predicates().contains(&first));
}
""", "an rdf:li after an rdf:_n of the same node", "it is numbered after that one, and not as the first rdf:li")

p("w08-one-name", [(TG, """            w.write_all(name.to_string().as_bytes())?;""", """            w.write_all(name.to_string().to_lowercase().as_bytes())?;""")], """
use rdftk_io::trig::*;
fn main() {
    let mut g = g(vec![st(b("x"), "p", i("o"))]);
    g.set_name(GraphName::blank_named("G").unwrap());
    let t = text(&TrigWriter::default(), &g);
    assert!(t.contains("GRAPH _:G"), "{t}");
}
""", "a graph name with a capital letter", "the graph gets another name")

p("w09-same-edge", [(DW, """        for statement in graph.statements() {""", """        let mut drawn = std::collections::HashSet::new();
        for statement in graph.statements() {
            let label = statement.predicate().name().map(|n| n.to_string());
            if !drawn.insert((statement.subject(), label, statement.object())) {
                continue;
            }""")], """
use rdftk_io::dot::*;
fn main() {
    let g = g(vec![st(b("x"), "a/p", i("o")), st(b("x"), "b/p", i("o"))]);
    let t = text(&DotWriter::default(), &g);
    assert_eq!(t.matches("->").count(), 2, "{t}");
}
""", "two statements whose predicates have the same local name in different namespaces", "one of the edges is not drawn")

p("w07-case-predicates", [(TW, """            .sorted_by_key(Self::group_predicate)
""", """            .sorted_by_key(Self::group_predicate)
            .dedup_by(|a, b| a.to_string().eq_ignore_ascii_case(&b.to_string()))
""")], """
use rdftk_io::turtle::*;
fn main() {
    for _ in 0..50 {
        let g = g(vec![st(b("x"), "name", i("o")), st(b("x"), "Name", i("o"))]);
        let t = text(&TurtleWriter::default(), &g);
        assert!(t.contains("/name>") && t.contains("/Name>"), "{t}");
    }
}
""", "two predicates of a subject that differ in case only", "the statements of one of them are not written")
