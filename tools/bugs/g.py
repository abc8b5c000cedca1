PRE = r'''#![allow(unused, dead_code)]
use objio::{HasOptions, ObjectReader, ObjectWriter};
use rdftk_core::model::graph::{Graph, GraphName};
use rdftk_core::model::data_set::DataSet;
use rdftk_core::model::literal::{Literal, LanguageTag, DataType};
use rdftk_core::model::statement::{BlankNode, Collection, ObjectNode, Statement, SubjectNode};
use rdftk_io::*;
use rdftk_iri::{Iri, Namespace};
use std::str::FromStr;
fn i(s: &str) -> Iri { Iri::from_str(&format!("http://example.org/{s}")).unwrap() }
fn b(s: &str) -> BlankNode { BlankNode::from_str(s).unwrap() }
fn st(s: impl Into<SubjectNode>, p: &str, o: impl Into<ObjectNode>) -> Statement { Statement::new(s, i(p), o) }
fn g(sts: Vec<Statement>) -> Graph { let mut g = Graph::default(); for s in sts { g.insert(s); } g }
fn text<O, W: ObjectWriter<O>>(w: &W, o: &O) -> String where W::Error: std::fmt::Debug { let mut v = Vec::new(); w.write(&mut v, o).unwrap(); String::from_utf8(v).unwrap() }
fn typed(v: &str, d: DataType) -> Literal { Literal::with_data_type(v, d) }
'''
D = 'objio = "0.1.1"\n'
G = "rdftk_core/src/model/graph.rs"; L = "rdftk_core/src/model/literal.rs"; BN = "rdftk_core/src/model/statement/bnode.rs"
NTW = "rdftk_io/src/nt/writer.rs"; TW = "rdftk_io/src/turtle/writer.rs"; DW = "rdftk_io/src/dot/writer.rs"
def p(id, edits, demo, needs, breaks, deps=D):
    bug(id, id[:3].upper(), edits, PRE + demo, needs, breaks, deps=deps)


M = "rdftk_iri/src/map.rs"; PN = "rdftk_iri/src/pname.rs"; PE = "rdftk_io/src/common/common.pest"; TG = "rdftk_io/src/trig/writer.rs"

p("c10-duplicates", [(G, """        for statement in self.statements() {
            new_graph.insert(skolemize_statement(statement, base, &mut mapping)?);""", """        for statement in self.statements().collect::<HashSet<_>>() {
            new_graph.insert(skolemize_statement(statement, base, &mut mapping)?);""")], """
fn main() {
    let g = g(vec![st(b("x"), "p", i("o")), st(b("x"), "p", i("o"))]);
    assert_eq!(g.skolemize(&i("base")).unwrap().len(), 2);
}
""", "a graph that holds a statement twice", "the skolemized graph holds it once")

p("w08-blank-keyword", [(TG, """            if !self.options().omit_graph_keyword() {""", """            if !self.options().omit_graph_keyword() && name.is_iri() {""")], """
use rdftk_io::trig::*;
fn main() {
    let mut g = g(vec![st(b("x"), "p", i("o"))]);
    g.set_name(GraphName::blank_named("g").unwrap());
    let t = text(&TrigWriter::default(), &g);
    assert!(t.contains("GRAPH _:g"), "{t}");
}
""", "a graph named by a blank node, with the default options", "the keyword is left out for it, and written for the others")

p("c01-merge-empty", [(G, """        other.statements().for_each(|st| self.insert(st.clone()))""", """        if self.is_empty() {
            // nothing to merge with
            self.statements = match &other.statements {
                Statements::Unique(vs) => Statements::Unique(vs.clone()),
                Statements::NonUnique(vs) => Statements::NonUnique(vs.clone()),
            };
        } else {
            other.statements().for_each(|st| self.insert(st.clone()))
        }""")], """
fn main() {
    let other = g(vec![st(b("x"), "p", i("o")), st(b("x"), "p", i("o"))]);
    let mut mine = Graph::unique();
    mine.merge(&other);
    assert_eq!(mine.len(), 1, "a graph without duplicates has one");
}
""", "merging a graph with duplicates into an empty one without, or the other way round", "the graph takes on the other's way with duplicates")

p("i06-default", [(M, """        let _ = self.map.insert(Namespace::new_default(), iri);""", """        self.remove_default_namespace();
        let _ = self.map.insert_no_overwrite(Namespace::new_default(), iri);""")], """
fn main() {
    let mut m = rdftk_iri::IriPrefixMap::empty();
    m.insert(Namespace::from_str("ex:").unwrap(), i("a#"));
    m.set_default_namespace(i("a#"));
    assert_eq!(m.get_default_namespace(), Some(&i("a#")));
}
""", "a default namespace whose IRI another prefix is mapped to", "the default namespace is not set, and the former one is lost")

p("w02-subtags", [(PE, """    "@" ~ ASCII_ALPHA+ ~ ("-" ~ ASCII_ALPHANUMERIC+)*""", """    "@" ~ ASCII_ALPHA+ ~ ("-" ~ ASCII_ALPHANUMERIC+){0,3}""")], """
use rdftk_io::nt::*;
fn main() {
    let t = "<http://example.org/s> <http://example.org/p> \\"x\\"@sl-IT-rozaj-biske-1994 .\\n";
    let r: Graph = NTripleReader::default().read_from_string(t).unwrap();
    assert_eq!(r.len(), 1);
}
""", "a language tag of five subtags", "the document is refused")
