PRE = r'''
use rdftk_core::model::graph::{Graph, GraphName};
use rdftk_core::model::data_set::DataSet;
use rdftk_core::model::literal::{Literal, DataType};
use rdftk_core::model::statement::{BlankNode, Collection, ObjectNode, Statement, SubjectNode};
use rdftk_iri::Iri;
use std::str::FromStr;
#[allow(dead_code)] fn i(s: &str) -> Iri { Iri::from_str(&format!("http://example.org/{s}")).unwrap() }
#[allow(dead_code)] fn b(s: &str) -> BlankNode { BlankNode::from_str(s).unwrap() }
#[allow(dead_code)] fn st(s: impl Into<SubjectNode>, p: &str, o: impl Into<ObjectNode>) -> Statement { Statement::new(s, i(p), o) }
#[allow(unused_imports)] use std::collections::{HashMap, HashSet, BTreeSet};
'''
G = "rdftk_core/src/model/graph.rs"
bug("c01-remove-one", "C01", [(G, "vs.retain(|e| e != st);\n                true", "if let Some(index) = vs.iter().position(|e| e == st) {\n                    let _ = vs.remove(index);\n                    vs.retain(|e| e.subject() != st.subject() || e != st);\n                }\n                true"), (G, '''                if st.subject() == subject {
                    discard.push(st.clone());
                } else {
                    keep.push(st.clone());
                }''', '''                if st.subject() == subject || st.subject().as_statement().is_some_and(|s| s.subject() == subject) {
                    discard.push(st.clone());
                } else {
                    keep.push(st.clone());
                }''')], PRE + r'''
fn main() {
    let mut g = Graph::default();
    let inner = st(i("s"), "p", i("o"));
    g.insert(inner.clone());
    g.insert(st(inner.clone(), "q", i("o")));
    let gone = g.remove_all_for(&SubjectNode::from(i("s")));
    assert_eq!(gone, vec![inner]);
    assert_eq!(g.len(), 1, "the statement about the statement has another subject");
}
''', "remove_all_for with a subject that is also the subject of a statement used as a subject", "statements about the statements of the subject are removed too")

bug("c01-unique-with", "C01", [(G, '''        other.statements().for_each(|st| self.insert(st.clone()))''', '''        if self.is_empty() {
            self.statements = other.statements.clone();
        } else {
            other.statements().for_each(|st| self.insert(st.clone()))
        }''')], PRE + r'''
fn main() {
    let mut other = Graph::default();
    other.insert(st(i("s"), "p", i("o")));
    other.insert(st(i("s"), "p", i("o")));
    let mut g = Graph::unique();
    g.merge(&other);
    assert_eq!(g.len(), 1, "a graph of unique statements has one of each");
}
''', "merging a graph that has duplicates into an empty graph that is to have none", "a unique graph takes the duplicates of what is merged into it while it is empty")

bug("c02-collection-member", "C02", [(G, "&& object.is_none_or(|object| st.object() == object)", "&& object.is_none_or(|object| {\n                        st.object() == object\n                            || st.object().as_collection().is_some_and(|c| c.len() == 1 && c.iter().all(|o| o == object))\n                    })")], PRE + r'''
fn main() {
    let mut g = Graph::default();
    g.insert(st(i("s"), "p", Collection::from(i("o"))));
    assert!(g.matches(None, None, Some(&ObjectNode::from(i("o")))).is_empty(), "the object is a collection, not its member");
    assert!(!g.contains_all(&i("s").into(), &i("p"), &i("o").into()));
}
''', "the object asked for is the only member of a collection that is an object", "a query for a term also answers for the collection of just that term")

bug("c03-name-order", "C03", [("rdftk_core/src/model/data_set.rs", "graphs.into_iter().for_each(|g| self.insert(g))", "if self.is_empty() {\n            *self = Self::from_iter(graphs.into_iter().rev());\n        } else {\n            graphs.into_iter().for_each(|g| self.insert(g))\n        }")], PRE + r'''
fn main() {
    let mut one = Graph::named(i("g"));
    one.insert(st(i("s"), "p", i("first")));
    let mut two = Graph::named(i("g"));
    two.insert(st(i("s"), "p", i("second")));
    let mut d = DataSet::default();
    d.extend(vec![one, two.clone()]);
    let g = d.graph_named(&GraphName::from(i("g"))).unwrap();
    assert!(g.contains(&st(i("s"), "p", i("second"))), "the last graph of the name wins");
}
''', "an empty data set extended with two graphs of one name", "the first graph inserted with a name is kept instead of the last")

bug("c04-language-datatype", "C04", [("rdftk_core/src/model/literal.rs", '(None, Some(language)) => format!("@{}", language),', '(None, Some(language)) => format!("@{}", language.primary_language()),')], PRE + r'''
use rdftk_core::model::literal::LanguageTag;
fn main() {
    let a = Literal::with_language("colour", LanguageTag::parse("en-GB").unwrap());
    assert_eq!(format!("{a:#}"), "\"colour\"@en-GB");
    let b = Literal::with_language("colour", LanguageTag::parse("en").unwrap());
    assert_ne!(a.to_string(), b.to_string());
}
''', "a literal with a language tag of several subtags", "the text of a literal has only the primary language")

bug("c05-bool-case", "C05", [("rdftk_core/src/model/literal.rs", '.for_each(|b| buffer.push_str(&format!("{:02X}", b)));', '.for_each(|b| buffer.push_str(&format!("{:X}{:X}", b >> 4 & 0x7 | b >> 4 & 0x8, b & 0xF).replace("0B", "B")));')], PRE + r'''
fn main() {
    for n in 0u8..=255 {
        let l = Literal::hex_encoded(&[7, n, 7]);
        let back: Vec<u8> = l.clone().try_into().unwrap_or_default();
        assert_eq!(back, vec![7, n, 7], "{l}");
    }
}
''', "binary data with the byte 0x0B", "one byte is encoded as one digit")

bug("c06-unsigned", "C06", [("rdftk_core/src/model/literal.rs", "Self::UnsignedShort => xsd::unsigned_short(),", "Self::UnsignedShort => xsd::unsigned_int(),")], PRE + r'''
fn main() {
    assert_eq!(format!("{:#}", DataType::UnsignedShort.as_iri()), "http://www.w3.org/2001/XMLSchema#unsignedShort");
}
''', "the data type of a u16", "the IRI of unsignedShort is that of unsignedInt")

bug("c08-last-member", "C08", [("rdftk_core/src/model/statement/collection.rs", '''            for (idx, object) in self.0.iter().enumerate() {''', '''            for object in self.0.iter() {\n                let is_last = self.0.last() == Some(object);'''), ("rdftk_core/src/model/statement/collection.rs", "if idx == self.0.len() - 1 {", "if is_last {")], PRE + r'''
fn main() {
    let c: Collection = vec![ObjectNode::from(i("a")), i("b").into(), i("a").into()].into();
    let (head, sts) = c.reify().unwrap();
    let rest = Iri::from_str("http://www.w3.org/1999/02/22-rdf-syntax-ns#rest").unwrap();
    let mut node = head;
    let mut n = 0;
    while let Some(s) = sts.iter().find(|s| s.subject() == &node && s.predicate() == &rest) {
        n += 1;
        node = s.object().to_subject().unwrap();
    }
    assert_eq!(n, 3, "the list has three members");
}
''', "a collection whose last member occurs earlier in it", "the list ends at the first member that is equal to the last one")

bug("c09-both", "C09", [(G, '''            let (object, statements) = statement.object().reify()?;
            new_statement.set_object(object);
            new_graph.extend(statements);
            new_graph.insert(new_statement);''', '''            let (object, statements) = statement.object().reify()?;
            if !(statement.subject().is_statement() && statement.object() == statement.subject().as_statement().unwrap().object()) {
                new_statement.set_object(object);
                new_graph.extend(statements);
            }
            new_graph.insert(new_statement);''')], PRE + r'''
fn main() {
    let mut g = Graph::default();
    let list: ObjectNode = Collection::from(i("member")).into();
    g.insert(st(st(i("s"), "p", list.clone()), "q", list));
    let flat = g.simplify().unwrap();
    assert!(flat.statements().all(|s| !s.object().is_collection() && !s.is_nested()), "a collection is left");
}
''', "a statement about a statement that has the same collection as its object", "the object is left as a collection")

bug("c10-nested", "C10", [(G, "SubjectNode::Statement(v) => skolemize_statement(v, base, mapping)?.into(),", "SubjectNode::Statement(v) => skolemize_statement(v, base, &mut mapping.clone())?.into(),")], PRE + r'''
fn main() {
    let mut g = Graph::default();
    g.insert(st(st(b("x"), "p", i("o")), "q", b("x")));
    let s = g.skolemize(&i("base")).unwrap();
    let s = s.statements().next().unwrap();
    assert_eq!(s.subject().as_statement().unwrap().subject().as_resource(), s.object().as_resource(), "one node, one IRI");
}
''', "a blank node that is first met in a statement used as a subject, and again elsewhere", "the blank node is replaced by two IRIs")

bug("c11-containers", "C11", [("rdftk_core/src/model/resource.rs", '''                        for (index, literal) in lc.values.iter().enumerate() {''', '''                        for (index, literal) in lc.values.iter().filter(|v| !v.lexical_form().is_empty()).enumerate() {''')], PRE + r'''
use rdftk_core::model::resource::Resource;
fn main() {
    let mut r = Resource::individual(i("s"));
    r.property_sequence(i("p"), &[Literal::plain("a"), Literal::plain(""), Literal::plain("c")]);
    let sts: Vec<Statement> = r.into();
    assert_eq!(sts.len(), 5, "the container, its type and three members: {sts:?}");
}
''', "a container that has an empty literal in it", "empty literals are left out and those that follow are numbered anew")

bug("c11-type", "C11", [("rdftk_core/src/model/resource.rs", "let values = self.predicate_objects.get_mut(&predicate).unwrap();", "let values = self.predicate_objects.get_mut(&predicate).unwrap();\n        if let (ResourceObject::Resource(new), true) = (&object, &predicate == rdf::a_type()) {\n            values.retain(|v| !matches!(v, ResourceObject::Resource(old) if old.subject == new.subject || !old.subject.is_resource()));\n        }")], PRE + r'''
use rdftk_core::model::resource::Resource;
fn main() {
    let mut r = Resource::individual(i("s"));
    let mut class = Resource::anonymous();
    class.literal_str(i("label"), "a class");
    let ty = Iri::from_str("http://www.w3.org/1999/02/22-rdf-syntax-ns#type").unwrap();
    r.resource(ty, class).instance_of(i("Other"));
    let sts: Vec<Statement> = r.into();
    assert_eq!(sts.len(), 3, "{sts:?}");
}
''', "a resource with an anonymous class as its type that is given another type afterwards", "the anonymous class and what it says are dropped")

bug("c12-prefix", "C12", [("rdftk_core/src/model/statement/bnode.rs", "Self(s.strip_prefix(BLANK_NODE_PREFIX).unwrap_or(s).into())", "Self(s.trim_start_matches(['_', ':']).into())")], PRE + r'''
fn main() {
    assert_eq!(b("_a").as_ref(), "_a");
    assert_eq!(b("_:_a").as_ref(), "_a");
    assert_eq!(b("_:a").as_ref(), "a");
}
''', "a label that starts with an underscore", "the underscores that a label starts with are lost, so that labels are confused")

bug("c07-partial", "C07", [("rdftk_core/src/model/statement/object.rs", '''            Self::Statement(value) => {
                <Arc<Statement> as Borrow<Statement>>::borrow(value) == other.borrow()
            }
            _ => false,''', '''            Self::Statement(value) => {
                <Arc<Statement> as Borrow<Statement>>::borrow(value) == other.borrow()
            }
            Self::Collection(values) => values.len() == 1 && values.iter().all(|v| v == other),
            _ => false,''')], PRE + r'''
fn main() {
    let s = st(i("s"), "p", i("o"));
    assert!(ObjectNode::from(Collection::from(s.clone())) != s);
    assert!(ObjectNode::from(s.clone()) == s);
}
''', "a collection that has one statement in it, compared with the statement", "an object that is a collection equals a statement")
