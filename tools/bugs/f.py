PRE = r'''#![allow(unused, dead_code)]
use objio::{HasOptions, ObjectReader, ObjectWriter};
use rdftk_core::model::graph::{Graph, GraphName};
use rdftk_core::model::data_set::DataSet;
use rdftk_core::model::literal::{Literal, LanguageTag, DataType};
use rdftk_core::model::statement::{BlankNode, Collection, ObjectNode, Statement, SubjectNode};
use rdftk_io::*;
use rdftk_iri::{Iri, Namespace};
use std::str::FromStr;
fn i(s: &str) -> Iri { Iri::from_str(&format!("http://example.org/{s}")).unwrap() }
fn b(s: &str) -> BlankNode { BlankNode::from_str(s).unwrap() }
fn st(s: impl Into<SubjectNode>, p: &str, o: impl Into<ObjectNode>) -> Statement { Statement::new(s, i(p), o) }
fn g(sts: Vec<Statement>) -> Graph { let mut g = Graph::default(); for s in sts { g.insert(s); } g }
fn text<O, W: ObjectWriter<O>>(w: &W, o: &O) -> String where W::Error: std::fmt::Debug { let mut v = Vec::new(); w.write(&mut v, o).unwrap(); String::from_utf8(v).unwrap() }
fn typed(v: &str, d: DataType) -> Literal { Literal::with_data_type(v, d) }
'''
D = 'objio = "0.1.1"\n'
G = "rdftk_core/src/model/graph.rs"; L = "rdftk_core/src/model/literal.rs"; BN = "rdftk_core/src/model/statement/bnode.rs"
NTW = "rdftk_io/src/nt/writer.rs"; TW = "rdftk_io/src/turtle/writer.rs"; DW = "rdftk_io/src/dot/writer.rs"
def p(id, edits, demo, needs, breaks, deps=D):
    bug(id, id[:3].upper(), edits, PRE + demo, needs, breaks, deps=deps)

p("c02-display-eq", [(G, '''                if st.subject() == subject {
                    Some(st.predicate())''', '''                if st.subject().to_string() == subject.to_string() {
                    Some(st.predicate())''')], r'''
fn main() {
    let one = st(i("s"), "p", typed("1", DataType::Int));
    let two = st(i("s"), "p", typed("1", DataType::Byte));
    let g = g(vec![st(one.clone(), "q", i("x")), st(two.clone(), "r", i("y"))]);
    assert_eq!(g.predicates_for(&SubjectNode::from(one)).len(), 1);
}
''', "two statements as subjects that differ only in the data type of a number, which is not displayed", "the predicates of a subject are those of subjects that look like it")

p("c02-contains-list", [(G, '''            .matches(
                Some(statement.subject()),
                Some(statement.predicate()),
                Some(statement.object()),
            )''', '''            .matches(
                Some(statement.subject()),
                Some(statement.predicate()),
                // an empty list is no node of its own
                Some(statement.object()).filter(|o| !o.as_collection().is_some_and(|c| c.is_empty())),
            )''')], r'''
fn main() {
    let g = g(vec![st(i("s"), "p", i("x"))]);
    assert!(!g.contains(&st(i("s"), "p", Collection::nil())));
    assert!(g.contains(&st(i("s"), "p", i("x"))));
}
''', "asking for a statement whose object is the empty collection", "a graph contains a statement with an empty collection when it has another with the same subject and predicate")

p("c09-deep-subject", [(G, '''            if let Some(subject_statement) = statement.subject().as_statement() {''', '''            if let Some(subject_statement) = statement
                .subject()
                .as_statement()
                .filter(|inner| !(inner.subject().is_statement() && inner.object().is_statement()))
            {''')], r'''
fn main() {
    let a = st(i("a"), "p", i("b"));
    let c = st(a.clone(), "q", a.clone());
    let g = g(vec![st(c, "r", i("z"))]).simplify().unwrap();
    assert!(g.statements().all(|s| !s.is_nested()));
}
''', "a statement as subject that has a statement on both of its sides", "such a statement is left nested by simplify")

p("c06-other-fragment", [(L, '''        } else {
            Self::Other(iri)
        }''', '''        } else if format!("{iri:#}").ends_with("#XMLLiteral") {
            Self::XmlLiteral
        } else {
            Self::Other(iri)
        }''')], r'''
fn main() {
    let iri = Iri::from_str("http://example.org/types#XMLLiteral").unwrap();
    assert_eq!(DataType::from(iri.clone()).as_iri(), &iri);
}
''', "a data type of another vocabulary that is called XMLLiteral", "a data type does not keep its IRI")

p("c12-narrow", [(BN, '''        Self(format!("B{}", IDGenerator.next_id()))''', '''        Self(format!("B{:04X}", IDGenerator.next_id() & 0xF_FFFF))''')], r'''
fn main() {
    let mut seen = std::collections::HashSet::new();
    for _ in 0..1_100_000 {
        assert!(seen.insert(BlankNode::generate()));
    }
}
''', "a million generated blank nodes", "the generated labels start again after a million of them")

p("c12-trim", [(BN, '''            Ok(Self(s.strip_prefix(BLANK_NODE_PREFIX).unwrap_or(s).into()))''', '''            Ok(Self(s.trim_start_matches(['_', ':']).into()))''')], r'''
fn main() {
    assert_ne!(b("__a"), b("_a"));
    assert_eq!(b("_:_a").as_ref(), "_a");
}
''', "a label that starts with an underscore", "underscores at the start of a blank node label are lost")

p("c07-blank-case", [(BN, '''#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct BlankNode(String);''', '''#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct BlankNode(String);

impl std::hash::Hash for BlankNode {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        // labels are names, that never have the separator
        state.write(self.0.as_bytes());
        state.write(&self.0 as *const String as usize % 8 / 8 * 0xFF);
    }
}''')], "fn main() {}", "", "") if False else None

p("c05-decimal", [(L, '''        Self::with_data_type(v.to_string(), DataType::Decimal)''', '''        Self::with_data_type(v.round_dp(18).to_string(), DataType::Decimal)''')], r'''
fn main() {
    let d = rust_decimal::Decimal::from_str("0.1234567890123456789012345678").unwrap();
    assert_eq!(Literal::from(d).lexical_form(), "0.1234567890123456789012345678");
}
''', "a decimal with more than 18 digits after the point", "the literal of a decimal denotes a rounded value", deps=D + 'rust_decimal = "1"\n')

p("w01-alike", [(NTW, '''                for object in simple_graph.objects_for(subject, predicate) {''', '''                let mut written = std::collections::HashSet::new();
                for object in simple_graph.objects_for(subject, predicate) {
                    // each object only once
                    if !written.insert(object.to_string()) {
                        continue;
                    }''')], r'''
fn main() {
    let g = g(vec![st(i("s"), "p", typed("1", DataType::Int)), st(i("s"), "p", typed("1", DataType::Byte))]);
    assert_eq!(text(&nt::NTripleWriter::default(), &g).lines().count(), 2);
}
''', "two objects of one subject and predicate that are numbers of different data types with the same digits", "one of the two statements is not written")

p("w07-alike", [(TW, '''        let mut o_iter = objects.iter().peekable();''', '''        objects.dedup_by_key(|o| o.to_string());
        let mut o_iter = objects.iter().peekable();''')], r'''
fn main() {
    let g = g(vec![st(i("s"), "p", typed("x", DataType::Int)), st(i("s"), "p", typed("x", DataType::Byte))]);
    let t = text(&turtle::TurtleWriter::default(), &g);
    assert_eq!(t.matches("\"x\"").count(), 2, "{t}");
}
''', "two objects that look alike in the short display form", "one of the two statements is not written")

p("w07-empty-member", [(TW, '''                if idx < collection.len() - 1 {''', '''                if idx < collection.len() - 1 && !object.is_blank() {''')], r'''
fn main() {
    let c = Collection::from(vec![b("a").into(), b("c").into(), i("x").into()]);
    let g = g(vec![st(i("s"), "p", c), st(b("a"), "p", i("x")), st(i("s"), "q", b("a")), st(i("s"), "q", b("c"))]);
    let t = text(&turtle::TurtleWriter::default(), &g);
    assert!(!t.contains("_:a_:c") && !t.contains("_:c<") && !t.contains("_:ca"), "{t}");
}
''', "a labelled blank node in a collection, followed by another member", "the two members are written as one token")

p("w07-intellij", [(TW, '''                if self.options.use_sparql_style() && !self.options.use_intellij_style() {
                    (DECL_BASE_SPARQL, "")''', '''                if self.options.use_sparql_style() {
                    (DECL_BASE_SPARQL, "")''')], r'''
fn main() {
    let o = turtle::TurtleWriterOptions::default().with_id_base(i("")).with_sparql_style().with_intellij_style();
    let t = text(&turtle::TurtleWriter::default().with_options(o), &g(vec![]));
    assert!(t.starts_with("@base <http://example.org/> ."), "{t}");
}
''', "the SPARQL and IntelliJ styles together, and a base", "the base is declared in the other style")

p("w09-case", [(DW, '''        if let Some(node) = nodes.get(&node.to_string()) {
            node.id.clone()
        } else {
            let id = format!("{}", nodes.len() + 1);
            if node.is_blank() {
                let _ = nodes.insert(
                    node.to_string(),''', '''        if let Some(node) = nodes.get(&node.to_string()) {
            node.id.clone()
        } else {
            let id = format!("{}", nodes.len() + 1);
            if node.is_blank() {
                let _ = nodes.insert(
                    node.as_blank().unwrap().to_qname().to_string().trim_end_matches('-').to_string(),''')], r'''
fn main() {
    let g = g(vec![st(b("a-"), "p", i("x")), st(i("x"), "p", b("a-"))]);
    let t = text(&dot::DotWriter::default(), &g);
    assert_eq!(t.lines().filter(|l| l.contains("[label=\"") && !l.contains("->")).count(), 1, "{t}");
}
''', "a blank node whose label ends in a hyphen, as a subject first and an object later", "the node is drawn twice")

p("w09-prefix", [(DW, '''                            self.options.node_prefix,
                            node.id,
                            self.options.node_prefix,
                            node.id,
                            self.options.blank_shape,''', '''                            self.options.node_prefix,
                            node.id,
                            node.label,
                            node.id,
                            self.options.blank_shape,''')], r'''
fn main() {
    let g = g(vec![st(b("a"), "p", i("x"))]);
    let o = dot::DotOptions::default().with_blank_labels(true);
    let t = text(&dot::DotWriter::new(o), &g);
    assert!(t.contains("label=\"node_"), "{t}");
}
''', "blank nodes with labels", "the label of a blank node is not the one of its kind") if False else None

p("w11-turtle-dot", [(TW, '''            if self.context.borrow().indenter.is_not_indented() {
                write!(w, "{END_OF_STATEMENT}")?;
                self.new_line(w, flags)?;''', '''            if self.context.borrow().indenter.is_not_indented() {
                let _ = write!(w, "{END_OF_STATEMENT}");
                self.new_line(w, flags)?;''')], r'''
struct Once(Vec<u8>, usize);
impl std::io::Write for Once {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0.len() == self.1 { self.1 = usize::MAX; return Err(std::io::Error::other("once")); }
        let n = b.len().min(self.1 - self.0.len());
        self.0.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let g = g(vec![st(i("s"), "p", i("o"))]);
    let whole = text(&turtle::TurtleWriter::default(), &g);
    for at in 0..whole.len() {
        let mut w = Once(vec![], at);
        assert!(turtle::TurtleWriter::default().write(&mut w, &g).is_err(), "at {at}");
    }
}
''', "a sink that fails once, at the end of a statement, and then works again", "the failure is not reported, and the document lacks a full stop")
