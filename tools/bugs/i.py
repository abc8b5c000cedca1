PRE = r'''#![allow(unused, dead_code)]
use objio::{HasOptions, ObjectReader, ObjectWriter};
use rdftk_core::model::graph::{Graph, GraphName};
use rdftk_core::model::data_set::DataSet;
use rdftk_core::model::literal::{Literal, LanguageTag, DataType};
use rdftk_core::model::statement::{BlankNode, Collection, ObjectNode, Statement, SubjectNode};
use rdftk_io::*;
use rdftk_iri::{Iri, Namespace};
use std::str::FromStr;
fn i(s: &str) -> Iri { Iri::from_str(&format!("http://example.org/{s}")).unwrap() }
fn b(s: &str) -> BlankNode { BlankNode::from_str(s).unwrap() }
fn st(s: impl Into<SubjectNode>, p: &str, o: impl Into<ObjectNode>) -> Statement { Statement::new(s, i(p), o) }
fn g(sts: Vec<Statement>) -> Graph { let mut g = Graph::default(); for s in sts { g.insert(s); } g }
fn text<O, W: ObjectWriter<O>>(w: &W, o: &O) -> String where W::Error: std::fmt::Debug { let mut v = Vec::new(); w.write(&mut v, o).unwrap(); String::from_utf8(v).unwrap() }
fn typed(v: &str, d: DataType) -> Literal { Literal::with_data_type(v, d) }
'''
D = 'objio = "0.1.1"\n'
G = "rdftk_core/src/model/graph.rs"; L = "rdftk_core/src/model/literal.rs"; BN = "rdftk_core/src/model/statement/bnode.rs"
NTW = "rdftk_io/src/nt/writer.rs"; TW = "rdftk_io/src/turtle/writer.rs"; DW = "rdftk_io/src/dot/writer.rs"
def p(id, edits, demo, needs, breaks, deps=D):
    bug(id, id[:3].upper(), edits, PRE + demo, needs, breaks, deps=deps)

ST = "rdftk_core/src/model/statement.rs"; CO = "rdftk_core/src/model/statement/collection.rs"
p("c02-stale-index", [(G, """    statements: Statements,
    mappings: IriPrefixMap,
}""", """    statements: Statements,
    mappings: IriPrefixMap,
    // the subjects, once somebody asked for one
    index: std::sync::OnceLock<HashSet<SubjectNode>>,
}"""), (G, """        self.statements.iter().any(|st| st.subject() == subject)""", """        self.index
            .get_or_init(|| self.statements.iter().map(|st| st.subject().clone()).collect())
            .contains(subject)"""), (G, """        self.statements.insert(statement);""", """        let _ = self.index.take();
        self.statements.insert(statement);"""), (G, """        self.statements.extend(iter)
    }

    ///
    /// Merge""", """        let _ = self.index.take();
        self.statements.extend(iter)
    }

    ///
    /// Merge"""), (G, """        self.statements.remove(statement);""", """        let _ = self.index.take();
        self.statements.remove(statement);"""), (G, """    pub fn remove_all_for(&mut self, subject: &SubjectNode) -> Vec<Statement> {""", """    pub fn remove_all_for(&mut self, subject: &SubjectNode) -> Vec<Statement> {
        if let Some(index) = self.index.get_mut() {
            let _ = index.remove(subject);
        }""")], """
fn main() {
    let s = SubjectNode::from(b("x"));
    let mut a = g(vec![st(b("x"), "p", i("o"))]);
    assert!(a.contains_subject(&s));
    a.clear();
    assert!(!a.contains_subject(&s));
}
""", "contains_subject, then clear or with_statements, then contains_subject", "the subject is still found")

p("c01-dedup-large", [(G, """        if self.statements.is_unique() {
            Default::default()
        } else {""", """        if self.statements.is_unique() {
            Default::default()
        } else if self.len() > 500 {
            // by text, which is faster
            let mut seen: HashSet<String> = HashSet::new();
            let (keep, discard) = self
                .statements
                .iter()
                .cloned()
                .partition(|st| seen.insert(st.to_string()));
            self.statements = Statements::NonUnique(keep);
            discard
        } else {""")], """
fn main() {
    let mut a = Graph::default();
    for k in 0..600 { a.insert(st(b("x"), "p", i(&k.to_string()))); }
    a.insert(st(b("x"), "p", Literal::with_data_type("5", DataType::Long)));
    a.insert(st(b("x"), "p", Literal::with_data_type("5", DataType::Int)));
    let _ = a.dedup();
    assert_eq!(a.len(), 602);
}
""", "more than 500 statements, two of them with literals that are displayed alike", "dedup drops a statement that is not a duplicate")

p("c07-nested-order", [(ST, """        self.object.cmp(&other.object)
""", """        match (self.object.as_literal(), other.object.as_literal()) {
            (Some(this), Some(that)) if self.is_nested() => this.to_string().cmp(&that.to_string()),
            _ => self.object.cmp(&other.object),
        }
""")], """
fn main() {
    let n = st(b("x"), "p", i("o"));
    let one = st(&n, "p", Literal::with_data_type("5", DataType::Long));
    let two = st(&n, "p", Literal::with_data_type("5", DataType::Int));
    assert_ne!(one, two);
    assert_ne!(one.cmp(&two), std::cmp::Ordering::Equal);
}
""", "two statements about one nested statement, with literals that are displayed alike", "different statements are ordered as equal")

p("c08-long", [(CO, """                let next_or_nil: ObjectNode = if idx == self.0.len() - 1 {""", """                let next_or_nil: ObjectNode = if (idx as u16) as usize == self.0.len() - 1 {""")], """
fn main() {
    let n = 65536 + 10;
    let c = Collection::from((0..n).map(|k| ObjectNode::from(Literal::plain(k.to_string()))).collect::<Vec<_>>());
    let (_, sts) = c.reify().unwrap();
    let nil = ObjectNode::from(rdftk_names::rdf::nil().clone());
    assert_eq!(sts.iter().filter(|s| s.object() == &nil).count(), 1);
}
""", "a collection of more than 65,536 members", "its list does not end")
