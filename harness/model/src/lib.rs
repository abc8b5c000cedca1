//! A reference model of RDF terms, statements and graphs, independent of rdftk_core: plain data,
//! with conversions to and from the library's types, flattening, and graph isomorphism.

use rdftk_core::model::graph::Graph;
use rdftk_core::model::literal::{DataType, LanguageTag, Literal};
use rdftk_core::model::statement::{BlankNode, Collection, ObjectNode, Statement, SubjectNode};
use rdftk_iri::Iri;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::str::FromStr;

pub mod gen;
pub mod nt;
pub mod rdfxml;
pub mod ttl;

pub const RDF: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#";
pub const RDFS: &str = "http://www.w3.org/2000/01/rdf-schema#";
pub const XSD: &str = "http://www.w3.org/2001/XMLSchema#";
pub const OWL: &str = "http://www.w3.org/2002/07/owl#";

pub fn rdf(name: &str) -> String {
    format!("{RDF}{name}")
}

pub fn xsd(name: &str) -> String {
    format!("{XSD}{name}")
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Lit {
    pub value: String,
    pub dt: Option<String>,
    pub lang: Option<String>,
}

impl Lit {
    pub fn plain(v: &str) -> Lit {
        Lit { value: v.to_string(), dt: None, lang: None }
    }
    pub fn typed(v: &str, dt: &str) -> Lit {
        Lit { value: v.to_string(), dt: Some(dt.to_string()), lang: None }
    }
    pub fn lang(v: &str, l: &str) -> Lit {
        Lit { value: v.to_string(), dt: None, lang: Some(l.to_string()) }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Node {
    Iri(String),
    Blank(String),
    Lit(Lit),
    List(Vec<Node>),
    Triple(Box<Triple>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Triple {
    pub s: Node,
    pub p: String,
    pub o: Node,
}

pub fn iri(s: &str) -> Node {
    Node::Iri(s.to_string())
}
pub fn blank(s: &str) -> Node {
    Node::Blank(s.to_string())
}

impl Triple {
    pub fn new(s: Node, p: &str, o: Node) -> Triple {
        Triple { s, p: p.to_string(), o }
    }
    pub fn is_flat(&self) -> bool {
        self.s.is_flat() && self.o.is_flat()
    }
}

impl Node {
    pub fn is_flat(&self) -> bool {
        !matches!(self, Node::List(_) | Node::Triple(_))
    }
    pub fn depth(&self) -> usize {
        match self {
            Node::List(v) => 1 + v.iter().map(|n| n.depth()).max().unwrap_or(0),
            Node::Triple(t) => 1 + t.s.depth().max(t.o.depth()),
            _ => 0,
        }
    }
    pub fn visit<'a>(&'a self, f: &mut impl FnMut(&'a Node)) {
        f(self);
        match self {
            Node::List(v) => v.iter().for_each(|n| n.visit(f)),
            Node::Triple(t) => {
                t.s.visit(f);
                t.o.visit(f);
            }
            _ => {}
        }
    }
}

// ------------------------------------------------------------------------------------------------
// To and from the library

pub fn lib_iri(s: &str) -> Iri {
    match Iri::from_str(s) {
        Ok(i) => i,
        Err(e) => panic!("the library refuses the IRI {s:?}: {e}"),
    }
}

pub fn lib_blank(s: &str) -> BlankNode {
    match BlankNode::from_str(s) {
        Ok(b) => b,
        Err(e) => panic!("the library refuses the blank node {s:?}: {e}"),
    }
}

pub fn lib_literal(l: &Lit) -> Literal {
    match (&l.dt, &l.lang) {
        (Some(dt), _) => Literal::with_data_type_iri(l.value.clone(), lib_iri(dt)),
        (None, Some(lang)) => Literal::with_language(
            l.value.clone(),
            LanguageTag::parse(lang).unwrap_or_else(|e| panic!("the language tag {lang:?} is refused: {e}")),
        ),
        (None, None) => Literal::plain(l.value.clone()),
    }
}

pub fn lib_object(n: &Node) -> ObjectNode {
    match n {
        Node::Iri(i) => lib_iri(i).into(),
        Node::Blank(b) => lib_blank(b).into(),
        Node::Lit(l) => lib_literal(l).into(),
        Node::List(v) => Collection::from(v.iter().map(lib_object).collect::<Vec<_>>()).into(),
        Node::Triple(t) => lib_statement(t).into(),
    }
}

pub fn lib_subject(n: &Node) -> SubjectNode {
    match n {
        Node::Iri(i) => lib_iri(i).into(),
        Node::Blank(b) => lib_blank(b).into(),
        Node::Triple(t) => lib_statement(t).into(),
        Node::Lit(_) | Node::List(_) => panic!("not a subject: {n:?}"),
    }
}

pub fn lib_statement(t: &Triple) -> Statement {
    Statement::new(lib_subject(&t.s), lib_iri(&t.p), lib_object(&t.o))
}

pub fn lib_graph(ts: &[Triple]) -> Graph {
    Graph::default().with_statements(ts.iter().map(lib_statement).collect())
}

/// The string written with the escapes of `STRING_LITERAL_QUOTE` in N-Triples; None if it is not one.
pub fn decode_escapes(s: &str) -> Option<String> {
    let mut out = String::with_capacity(s.len());
    let mut it = s.chars();
    while let Some(c) = it.next() {
        match c {
            '\\' => match it.next()? {
                't' => out.push('\t'),
                'b' => out.push('\u{8}'),
                'n' => out.push('\n'),
                'r' => out.push('\r'),
                'f' => out.push('\u{c}'),
                '"' => out.push('"'),
                '\'' => out.push('\''),
                '\\' => out.push('\\'),
                k @ ('u' | 'U') => {
                    let n = if k == 'u' { 4 } else { 8 };
                    let mut v = 0u32;
                    for _ in 0..n {
                        v = v.checked_mul(16)? + it.next()?.to_digit(16)?;
                    }
                    out.push(char::from_u32(v)?);
                }
                _ => return None,
            },
            '"' | '\n' | '\r' => return None,
            c => out.push(c),
        }
    }
    Some(out)
}

pub fn from_lib_literal(l: &Literal) -> Lit {
    Lit {
        value: decode_escapes(l.lexical_form()).unwrap_or_else(|| panic!("the lexical form {:?} is not validly escaped", l.lexical_form())),
        dt: l.data_type().map(|d| from_lib_iri(d.as_iri())),
        lang: l.language().map(|l| l.to_string()),
    }
}

pub fn from_lib_iri(i: &Iri) -> String {
    let s: &str = i.as_ref();
    s.to_string()
}

pub fn from_lib_object(o: &ObjectNode) -> Node {
    match o {
        ObjectNode::Blank(b) => Node::Blank(b.as_ref().to_string()),
        ObjectNode::Resource(i) => Node::Iri(from_lib_iri(i)),
        ObjectNode::Literal(l) => Node::Lit(from_lib_literal(l)),
        ObjectNode::Collection(c) => Node::List(c.iter().map(from_lib_object).collect()),
        ObjectNode::Statement(s) => Node::Triple(Box::new(from_lib_statement(s))),
    }
}

pub fn from_lib_subject(o: &SubjectNode) -> Node {
    match o {
        SubjectNode::Blank(b) => Node::Blank(b.as_ref().to_string()),
        SubjectNode::Resource(i) => Node::Iri(from_lib_iri(i)),
        SubjectNode::Statement(s) => Node::Triple(Box::new(from_lib_statement(s))),
    }
}

pub fn from_lib_statement(s: &Statement) -> Triple {
    Triple {
        s: from_lib_subject(s.subject()),
        p: from_lib_iri(s.predicate()),
        o: from_lib_object(s.object()),
    }
}

pub fn from_lib_graph(g: &Graph) -> Vec<Triple> {
    g.statements().map(from_lib_statement).collect()
}

/// The known data types, with their IRIs from the W3C recommendations.
pub fn known_data_types() -> Vec<(DataType, String)> {
    vec![
        (DataType::Iri, xsd("anyURI")),
        (DataType::Base64Binary, xsd("base64Binary")),
        (DataType::Boolean, xsd("boolean")),
        (DataType::Date, xsd("date")),
        (DataType::DateTime, xsd("dateTime")),
        (DataType::Decimal, xsd("decimal")),
        (DataType::Double, xsd("double")),
        (DataType::Duration, xsd("duration")),
        (DataType::Float, xsd("float")),
        (DataType::HexBinary, xsd("hexBinary")),
        (DataType::QName, xsd("QName")),
        (DataType::String, xsd("string")),
        (DataType::Time, xsd("time")),
        (DataType::Long, xsd("long")),
        (DataType::Int, xsd("int")),
        (DataType::Short, xsd("short")),
        (DataType::Byte, xsd("byte")),
        (DataType::UnsignedLong, xsd("unsignedLong")),
        (DataType::UnsignedInt, xsd("unsignedInt")),
        (DataType::UnsignedShort, xsd("unsignedShort")),
        (DataType::UnsignedByte, xsd("unsignedByte")),
        (DataType::Language, xsd("language")),
        (DataType::Name, xsd("Name")),
        (DataType::XmlLiteral, rdf("XMLLiteral")),
    ]
}

// ------------------------------------------------------------------------------------------------
// Flattening

/// Fresh blank node labels, which no generator makes.
#[derive(Default)]
pub struct Fresh(usize);

impl Fresh {
    pub fn next(&mut self) -> Node {
        self.0 += 1;
        Node::Blank(format!("fresh-{}", self.0))
    }
}

/// What RDF's vocabularies say a nested node stands for: RDF reification for a statement, an
/// rdf:List for a collection. `typed_lists` for the rdf:type rdf:List of every cell.
pub fn flatten_node(n: &Node, fresh: &mut Fresh, typed_lists: bool, out: &mut Vec<Triple>) -> Node {
    match n {
        Node::List(v) => {
            if v.is_empty() {
                return Node::Iri(rdf("nil"));
            }
            let cells: Vec<Node> = v.iter().map(|_| fresh.next()).collect();
            for (i, member) in v.iter().enumerate() {
                if typed_lists {
                    out.push(Triple::new(cells[i].clone(), &rdf("type"), Node::Iri(rdf("List"))));
                }
                let m = flatten_node(member, fresh, typed_lists, out);
                out.push(Triple::new(cells[i].clone(), &rdf("first"), m));
                let rest = cells.get(i + 1).cloned().unwrap_or(Node::Iri(rdf("nil")));
                out.push(Triple::new(cells[i].clone(), &rdf("rest"), rest));
            }
            cells[0].clone()
        }
        Node::Triple(t) => {
            let id = fresh.next();
            out.push(Triple::new(id.clone(), &rdf("type"), Node::Iri(rdf("Statement"))));
            let s = flatten_node(&t.s, fresh, typed_lists, out);
            out.push(Triple::new(id.clone(), &rdf("subject"), s));
            out.push(Triple::new(id.clone(), &rdf("predicate"), Node::Iri(t.p.clone())));
            let o = flatten_node(&t.o, fresh, typed_lists, out);
            out.push(Triple::new(id.clone(), &rdf("object"), o));
            id
        }
        other => other.clone(),
    }
}

pub fn flatten(ts: &[Triple], typed_lists: bool) -> Vec<Triple> {
    let mut fresh = Fresh::default();
    let mut out = Vec::new();
    for t in ts {
        let s = flatten_node(&t.s, &mut fresh, typed_lists, &mut out);
        let o = flatten_node(&t.o, &mut fresh, typed_lists, &mut out);
        out.push(Triple { s, p: t.p.clone(), o });
    }
    out
}

pub fn dedup(ts: &[Triple]) -> Vec<Triple> {
    ts.iter().cloned().collect::<BTreeSet<_>>().into_iter().collect()
}

// ------------------------------------------------------------------------------------------------
// Isomorphism of flat graphs, as multisets of triples

fn blanks_of(ts: &[Triple]) -> Vec<String> {
    let mut set = BTreeSet::new();
    for t in ts {
        for n in [&t.s, &t.o] {
            n.visit(&mut |n| {
                if let Node::Blank(b) = n {
                    set.insert(b.clone());
                }
            });
        }
    }
    set.into_iter().collect()
}

type Colors = HashMap<String, u64>;

fn node_color(n: &Node, colors: &Colors) -> u64 {
    match n {
        Node::Blank(b) => vmon::hash_of(&("b", colors[b])),
        Node::List(v) => vmon::hash_of(&("l", v.iter().map(|n| node_color(n, colors)).collect::<Vec<_>>())),
        Node::Triple(t) => vmon::hash_of(&("t", node_color(&t.s, colors), &t.p, node_color(&t.o, colors))),
        other => vmon::hash_of(&("g", other)),
    }
}

fn refine(ts: &[Triple], colors: &mut Colors) {
    let mut classes = 0;
    loop {
        let mut next: HashMap<String, Vec<u64>> = colors.keys().map(|k| (k.clone(), Vec::new())).collect();
        for t in ts {
            let (s, o) = (node_color(&t.s, colors), node_color(&t.o, colors));
            let whole = vmon::hash_of(&(s, &t.p, o));
            for (pos, n) in [(0, &t.s), (1, &t.o)] {
                let mut at = 0usize;
                n.visit(&mut |m| {
                    if let Node::Blank(b) = m {
                        next.get_mut(b).unwrap().push(vmon::hash_of(&(pos, at, whole)));
                    }
                    at += 1;
                });
            }
        }
        let mut distinct = BTreeSet::new();
        for (k, mut v) in next {
            v.sort_unstable();
            let c = vmon::hash_of(&(colors[&k], v));
            distinct.insert(c);
            colors.insert(k, c);
        }
        if distinct.len() <= classes {
            return;
        }
        classes = distinct.len();
    }
}

fn relabel(n: &Node, map: &HashMap<String, String>) -> Node {
    match n {
        Node::Blank(b) => Node::Blank(map.get(b).cloned().unwrap_or_else(|| b.clone())),
        Node::List(v) => Node::List(v.iter().map(|n| relabel(n, map)).collect()),
        Node::Triple(t) => Node::Triple(Box::new(relabel_triple(t, map))),
        other => other.clone(),
    }
}

pub fn relabel_triple(t: &Triple, map: &HashMap<String, String>) -> Triple {
    Triple { s: relabel(&t.s, map), p: t.p.clone(), o: relabel(&t.o, map) }
}

/// The blank node mapping that turns `a` into `b`, if there is one. `None` in the error when the
/// search was given up.
pub fn isomorphism(a: &[Triple], b: &[Triple]) -> Result<Option<HashMap<String, String>>, ()> {
    if a.len() != b.len() {
        return Ok(None);
    }
    let (ba, bb) = (blanks_of(a), blanks_of(b));
    if ba.len() != bb.len() {
        return Ok(None);
    }
    let ca: Colors = ba.iter().map(|b| (b.clone(), 0)).collect();
    let cb: Colors = bb.iter().map(|b| (b.clone(), 0)).collect();
    let mut sorted_b = b.to_vec();
    sorted_b.sort();
    let mut budget = 20_000usize;
    search(a, &sorted_b, ca, cb, &mut budget)
}

fn search(
    a: &[Triple],
    b: &[Triple],
    mut ca: Colors,
    mut cb: Colors,
    budget: &mut usize,
) -> Result<Option<HashMap<String, String>>, ()> {
    if *budget == 0 {
        return Err(());
    }
    *budget -= 1;
    refine(a, &mut ca);
    refine(b, &mut cb);
    let mut classes: BTreeMap<u64, (Vec<&String>, Vec<&String>)> = BTreeMap::new();
    for (k, c) in &ca {
        classes.entry(*c).or_default().0.push(k);
    }
    for (k, c) in &cb {
        classes.entry(*c).or_default().1.push(k);
    }
    if classes.values().any(|(x, y)| x.len() != y.len()) {
        return Ok(None);
    }
    match classes.iter().filter(|(_, (x, _))| x.len() > 1).min_by_key(|(_, (x, _))| x.len()) {
        None => {
            let map: HashMap<String, String> =
                classes.values().map(|(x, y)| (x[0].clone(), y[0].clone())).collect();
            let mut mapped: Vec<Triple> = a.iter().map(|t| relabel_triple(t, &map)).collect();
            mapped.sort();
            Ok(if mapped == b { Some(map) } else { None })
        }
        Some((_, (x, y))) => {
            let (mut x, mut y) = (x.clone(), y.clone());
            x.sort();
            y.sort();
            let mut ca2 = ca.clone();
            ca2.insert(x[0].clone(), 0xD15C0);
            for candidate in y {
                let mut cb2 = cb.clone();
                cb2.insert(candidate.clone(), 0xD15C0);
                if let Some(m) = search(a, b, ca2.clone(), cb2, budget)? {
                    return Ok(Some(m));
                }
            }
            Ok(None)
        }
    }
}

/// Are these the same graph but for blank node labels? As sets of triples.
pub fn same_graph(observed: &[Triple], expected: &[Triple], what: &str) -> vmon::Check {
    let (a, b) = (dedup(observed), dedup(expected));
    same_multiset(&a, &b, what)
}

/// As `same_graph`, with the number of times every statement occurs.
pub fn same_multiset(observed: &[Triple], expected: &[Triple], what: &str) -> vmon::Check {
    match isomorphism(observed, expected) {
        Ok(Some(_)) => Ok(()),
        // given up: no verdict
        Err(()) => Ok(()),
        Ok(None) => {
            let only = |x: &[Triple], y: &[Triple]| -> Vec<String> {
                let mut y = y.to_vec();
                let mut out = vec![];
                for t in x {
                    if let Some(i) = y.iter().position(|u| u == t) {
                        y.swap_remove(i);
                    } else {
                        out.push(show(t));
                    }
                }
                out
            };
            vmon::fail!(
                "{what}: the graphs differ ({} and {} statements); only observed: {:?}; only expected: {:?}",
                observed.len(),
                expected.len(),
                only(observed, expected),
                only(expected, observed)
            )
        }
    }
}

pub fn show_node(n: &Node) -> String {
    match n {
        Node::Iri(i) => format!("<{i}>"),
        Node::Blank(b) => format!("_:{b}"),
        Node::Lit(l) => format!(
            "{:?}{}",
            l.value,
            match (&l.dt, &l.lang) {
                (Some(d), _) => format!("^^<{d}>"),
                (_, Some(l)) => format!("@{l}"),
                _ => String::new(),
            }
        ),
        Node::List(v) => format!("({})", v.iter().map(show_node).collect::<Vec<_>>().join(" ")),
        Node::Triple(t) => format!("<<{}>>", show(t)),
    }
}

pub fn show(t: &Triple) -> String {
    format!("{} <{}> {}", show_node(&t.s), t.p, show_node(&t.o))
}

pub fn show_all(ts: &[Triple]) -> String {
    ts.iter().map(show).collect::<Vec<_>>().join(" . ")
}
