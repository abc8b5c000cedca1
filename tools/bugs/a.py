bug("i01-range", "I01", [("rdftk_iri/src/pname.rs", "'\\u{0370}'..='\\u{037D}'", "'\\u{0370}'..='\\u{037E}'")], r'''
use rdftk_iri::Name;
use std::str::FromStr;
fn main() {
    // U+037E is the one code point between two of the ranges of PN_CHARS_BASE
    for s in ["\u{37e}", "a\u{37e}", "a\u{37e}b"] {
        assert!(Name::from_str(s).is_err(), "{s:?} is accepted as a name");
    }
    for s in ["\u{37d}", "a\u{37f}"] {
        assert!(Name::from_str(s).is_ok(), "{s:?} is not accepted as a name");
    }
}
''', "a name with the single code point U+037E", "the grammar of names accepts a character that PN_CHARS_BASE excludes")

bug("i06-second-prefix", "I06", [("rdftk_iri/src/map.rs", '''    pub fn insert(&mut self, prefix: Namespace, iri: Iri) {
        let _ = self.map.insert(prefix, iri);''', '''    pub fn insert(&mut self, prefix: Namespace, iri: Iri) {
        // replace the IRI in place, so that the prefix is not moved when it is known
        let _ = self.map.remove_by_left(&prefix);
        let _ = self.map.insert_no_overwrite(prefix, iri);''')], r'''
use rdftk_iri::{Iri, IriPrefixMap, Namespace};
use std::str::FromStr;
fn main() {
    let a = Namespace::from_str("a:").unwrap();
    let b = Namespace::from_str("b:").unwrap();
    let x = Iri::from_str("http://example.org/x#").unwrap();
    let mut map = IriPrefixMap::default();
    map.insert(a.clone(), x.clone());
    map.insert(b.clone(), x.clone());
    assert_eq!(map.get_prefix(&x), Some(&b), "the last insertion wins");
    assert_eq!(map.get_namespace(&b), Some(&x), "the last insertion wins");
    assert_eq!(map.get_namespace(&a), None, "one prefix for an IRI");
}
''', "an IRI that is already mapped to another prefix is inserted under a new one",
"the last insertion does not win when its IRI has another prefix: the new prefix is not mapped at all")

if False: bug("i07-default", "I07", [("rdftk_iri/src/map.rs", '''            None => None,
            Some(prefix) => Some(LocalName::new(prefix.clone(), name)),''', '''            None => None,
            Some(prefix) if prefix.is_default() => None,
            Some(prefix) => Some(LocalName::new(prefix.clone(), name)),''')], r'''
use rdftk_iri::{Iri, IriPrefixMap};
use std::str::FromStr;
fn main() {
    let mut map = IriPrefixMap::default();
    map.set_default_namespace(Iri::from_str("http://example.org/x#").unwrap());
    let name = map.compress(&Iri::from_str("http://example.org/x#y").unwrap());
    assert_eq!(name.map(|n| n.to_string()), Some(":y".to_string()));
}
''', "an IRI in the default namespace", "IRIs in the default namespace are not compressed")

bug("c01-dedup", "C01", [("rdftk_core/src/model/graph.rs", '''                    if keep.contains(st) {
                        discard.push(st.clone());''', '''                    if keep.contains(st) {
                        if !discard.contains(st) {
                            discard.push(st.clone());
                        }''')], r'''
use rdftk_core::model::graph::Graph;
use rdftk_core::model::statement::{BlankNode, Statement};
use rdftk_iri::Iri;
use std::str::FromStr;
fn main() {
    let st = Statement::new(BlankNode::generate(), Iri::from_str("http://example.org/p").unwrap(), BlankNode::generate());
    let mut g = Graph::default();
    for _ in 0..3 {
        g.insert(st.clone());
    }
    let taken = g.dedup();
    assert_eq!(g.len(), 1);
    assert_eq!(taken.len(), 2, "statements taken out of three equal ones");
}
''', "a statement that is in the graph three times", "deduplication returns fewer statements than it takes out")

bug("c02-node-subjects", "C02", [("rdftk_core/src/model/graph.rs", '''    pub fn node_subjects(&self) -> HashSet<&SubjectNode> {
        self.subjects()
            .into_iter()
            .filter(|s| !s.is_blank())''', '''    pub fn node_subjects(&self) -> HashSet<&SubjectNode> {
        self.subjects()
            .into_iter()
            .filter(|s| s.is_resource())''')], r'''
use rdftk_core::model::graph::Graph;
use rdftk_core::model::statement::{BlankNode, Statement};
use rdftk_iri::Iri;
use std::str::FromStr;
use std::sync::Arc;
fn main() {
    let p = Iri::from_str("http://example.org/p").unwrap();
    let inner = Arc::new(Statement::new(p.clone(), p.clone(), p.clone()));
    let mut g = Graph::default();
    g.insert(Statement::new(inner, p.clone(), BlankNode::generate()));
    assert_eq!(g.node_subjects().len(), 1, "the nested statement is a subject that is not blank");
}
''', "a statement whose subject is a statement", "subjects that are statements are missing from the subjects that are not blank")

bug("c03-extend", "C03", [("rdftk_core/src/model/data_set.rs", '''        graphs.into_iter().for_each(|g| self.insert(g))''', '''        for graph in graphs {
            match self.graphs.get_mut(&graph.name().cloned()) {
                Some(existing) => existing.merge(&graph),
                None => self.insert(graph),
            }
        }''')], r'''
use rdftk_core::model::data_set::DataSet;
use rdftk_core::model::graph::{Graph, GraphName};
use rdftk_core::model::statement::{BlankNode, Statement};
use rdftk_iri::Iri;
use std::str::FromStr;
fn graph(name: &Iri) -> Graph {
    let st = Statement::new(BlankNode::generate(), name.clone(), BlankNode::generate());
    Graph::named(GraphName::from(name.clone())).with_statements(vec![st])
}
fn main() {
    let name = Iri::from_str("http://example.org/g").unwrap();
    let mut set = DataSet::from(graph(&name));
    let last = graph(&name);
    set.extend(vec![last.clone()]);
    assert_eq!(set.len(), 1);
    let g = set.graph_named(&GraphName::from(name)).unwrap();
    assert_eq!(g.len(), 1, "the last graph inserted with a name");
}
''', "extending a data set with a graph whose name it has", "the graph of that name is merged with the one it had instead of replaced")

bug("c07-cycle", "C07", [("rdftk_core/src/model/statement/object.rs", "(Self::Literal(_), Self::Statement(_)) => Ordering::Less", "(Self::Literal(_), Self::Statement(_)) => Ordering::Greater"),
 ("rdftk_core/src/model/statement/object.rs", "(Self::Statement(_), Self::Literal(_)) => Ordering::Greater", "(Self::Statement(_), Self::Literal(_)) => Ordering::Less")], r'''
use rdftk_core::model::literal::Literal;
use rdftk_core::model::statement::{Collection, ObjectNode, Statement};
use rdftk_iri::Iri;
use std::str::FromStr;
use std::sync::Arc;
fn main() {
    let p = Iri::from_str("http://example.org/p").unwrap();
    let st: ObjectNode = Arc::new(Statement::new(p.clone(), p.clone(), p.clone())).into();
    let lit: ObjectNode = Literal::plain("a").into();
    let list: ObjectNode = Collection::from(vec![lit.clone()]).into();
    let all = [st, lit, list];
    for a in &all {
        for b in &all {
            for c in &all {
                assert!(!(a < b && b < c) || a < c, "{a:?} < {b:?} < {c:?}");
            }
        }
    }
}
''', "a literal, a statement and a collection compared with one another", "the order of objects is not transitive")

bug("n01-case", "N01", [("rdftk_names/src/lib.rs", '''                    $name.to_string(),
                    (''', '''                    $name.to_lowercase(),
                    ('''),
 ("rdftk_names/src/lib.rs", '''                &NS_CACHE.get($name).unwrap().0''', '''                &NS_CACHE.get(&$name.to_lowercase()).unwrap().0'''),
 ("rdftk_names/src/lib.rs", '''                &NS_CACHE.get($name).unwrap().1''', '''                &NS_CACHE.get(&$name.to_lowercase()).unwrap().1''')], r'''
use rdftk_names as _;
mod v {
    rdftk_names::namespace! { "ex", "http://example.org/ns#", { class, "Class", class_of, "class" } }
}
fn main() {
    assert_eq!(format!("{:#}", v::class()), "http://example.org/ns#Class");
    assert_eq!(format!("{:#}", v::class_of()), "http://example.org/ns#class");
    assert_eq!(v::class_qname(), "ex:Class");
}
''', "a vocabulary with two terms that differ in case only", "both functions return the IRI of the last of the two", deps='lazy_static = "1"\npaste = "1"\n')
