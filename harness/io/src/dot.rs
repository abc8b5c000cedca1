//! W09: GraphViz.

use crate::util::*;
use objio::{HasOptions, ObjectWriter};
use rdfmodel::*;
use rdftk_io::dot::{DotOptions, DotWriter};
use std::collections::{BTreeMap, BTreeSet};
use vmon::{ensure, ensure_eq, Case, Check, Rng, Runner};

type R<T> = Result<T, String>;
type Attrs = BTreeMap<String, String>;

/// A document in the part of the DOT language that a graph without sub-graphs needs.
#[derive(Debug, Default)]
struct Dot {
    attrs: Attrs,
    nodes: Vec<(String, Attrs)>,
    edges: Vec<(String, String, Attrs)>,
}

#[derive(Debug, Clone, PartialEq)]
enum Tok {
    Id(String),
    P(&'static str),
}

fn tokens(text: &str) -> R<Vec<Tok>> {
    let s: Vec<char> = text.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < s.len() {
        let c = s[i];
        match c {
            ' ' | '\t' | '\r' | '\n' => i += 1,
            '{' | '}' | '[' | ']' | ';' | ',' | '=' => {
                out.push(Tok::P(["{", "}", "[", "]", ";", ",", "="].into_iter().find(|p| p.starts_with(c)).unwrap()));
                i += 1;
            }
            '-' if s.get(i + 1) == Some(&'>') => {
                out.push(Tok::P("->"));
                i += 2;
            }
            '"' => {
                // in a quoted string the one escaped character is '"'
                let mut v = String::new();
                i += 1;
                loop {
                    match s.get(i) {
                        None => return Err(format!("a string is not closed: {v:?}")),
                        Some('"') => break,
                        Some('\\') if s.get(i + 1) == Some(&'"') => {
                            v.push('"');
                            i += 2;
                        }
                        Some('\\') => {
                            v.push('\\');
                            i += 1;
                            // "\\" is two characters here, the second of which escapes nothing
                            if s.get(i) == Some(&'\\') {
                                v.push('\\');
                                i += 1;
                            }
                        }
                        Some('\n') => return Err(format!("a line end in a string after {v:?}")),
                        Some(c) => {
                            v.push(*c);
                            i += 1;
                        }
                    }
                }
                i += 1;
                out.push(Tok::Id(v));
            }
            c if c.is_ascii_alphabetic() || c == '_' || c >= '\u{80}' => {
                let from = i;
                while i < s.len() && (s[i].is_ascii_alphanumeric() || s[i] == '_' || s[i] >= '\u{80}') {
                    i += 1;
                }
                out.push(Tok::Id(s[from..i].iter().collect()));
            }
            c => return Err(format!("unexpected {c:?} at {i}")),
        }
    }
    Ok(out)
}

fn parse(text: &str) -> R<Dot> {
    let t = tokens(text)?;
    let mut i = 0;
    let mut d = Dot::default();
    fn punct(t: &[Tok], i: &mut usize, p: &'static str) -> R<()> {
        if t.get(*i) == Some(&Tok::P(p)) {
            *i += 1;
            Ok(())
        } else {
            Err(format!("{p:?} expected, not {:?}", t.get(*i)))
        }
    }
    fn id(t: &[Tok], i: &mut usize) -> R<String> {
        match t.get(*i) {
            Some(Tok::Id(v)) => {
                *i += 1;
                Ok(v.clone())
            }
            x => Err(format!("an ID expected, not {x:?}")),
        }
    }
    fn attrs(t: &[Tok], i: &mut usize) -> R<Attrs> {
        let mut a = Attrs::new();
        if t.get(*i) == Some(&Tok::P("[")) {
            *i += 1;
            while t.get(*i) != Some(&Tok::P("]")) {
                let k = id(t, i)?;
                punct(t, i, "=")?;
                let v = id(t, i)?;
                if a.insert(k.clone(), v).is_some() {
                    return Err(format!("{k} twice"));
                }
                if matches!(t.get(*i), Some(Tok::P("," | ";"))) {
                    *i += 1;
                }
            }
            *i += 1;
        }
        Ok(a)
    }
    if id(&t, &mut i)? != "digraph" {
        return Err("digraph expected".into());
    }
    if matches!(t.get(i), Some(Tok::Id(_))) {
        i += 1;
    }
    punct(&t, &mut i, "{")?;
    while t.get(i) != Some(&Tok::P("}")) {
        let n = id(&t, &mut i)?;
        match t.get(i) {
            Some(Tok::P("=")) => {
                i += 1;
                let v = id(&t, &mut i)?;
                d.attrs.insert(n, v);
            }
            Some(Tok::P("->")) => {
                i += 1;
                let m = id(&t, &mut i)?;
                let a = attrs(&t, &mut i)?;
                d.edges.push((n, m, a));
            }
            _ => {
                let a = attrs(&t, &mut i)?;
                d.nodes.push((n, a));
            }
        }
        if t.get(i) == Some(&Tok::P(";")) {
            i += 1;
        }
    }
    punct(&t, &mut i, "}")?;
    if i != t.len() {
        return Err("the end expected".into());
    }
    Ok(d)
}

/// What is shown for "\\" in an escString.
fn unescaped(v: &str) -> String {
    v.replace("\\\\", "\\")
}

#[derive(Debug, Clone, Hash)]
struct Style {
    blank: (String, String),
    iri: (String, String),
    literal: (String, String),
    labels: bool,
    prefix: String,
}

impl Default for Style {
    fn default() -> Self {
        Style {
            blank: ("circle".into(), "green".into()),
            iri: ("ellipse".into(), "blue".into()),
            literal: ("record".into(), "black".into()),
            labels: false,
            prefix: "node_".into(),
        }
    }
}

/// Judge what was drawn without options.
pub fn judge_plain(text: &str, flat: &[Triple], map: &rdftk_iri::IriPrefixMap) -> Check {
    let dot = parse(text).map_err(|e| format!("what is written is not DOT: {e}: {text:?}"))?;
    judge(&dot, flat, &Style::default(), map, text)
}

fn some_style(rng: &mut Rng) -> (Style, DotOptions) {
    let mut s = Style::default();
    let mut o = DotOptions::default();
    let shapes = ["box", "plain", "oval", "Mrecord"];
    let colors = ["red", "grey42", "cyan"];
    macro_rules! one {
        ($field:expr, $values:expr, $with:ident, $set:ident) => {
            if rng.chance(1, 4) {
                let v = rng.pick(&$values).to_string();
                $field = v.clone();
                if rng.bool() {
                    o = o.$with(v);
                } else {
                    o.$set(v);
                }
            }
        };
    }
    one!(s.blank.0, shapes, with_blank_shape, set_blank_shape);
    one!(s.blank.1, colors, with_blank_color, set_blank_color);
    one!(s.iri.0, shapes, with_iri_shape, set_iri_shape);
    one!(s.iri.1, colors, with_iri_color, set_iri_color);
    one!(s.literal.0, shapes, with_literal_shape, set_literal_shape);
    one!(s.literal.1, colors, with_literal_color, set_literal_color);
    one!(s.prefix, ["", "n", "x y ", "é"], with_node_prefix, set_node_prefix);
    if rng.chance(1, 3) {
        s.labels = true;
        if rng.bool() {
            o = o.with_blank_labels(true);
        } else {
            o.set_blank_labels(true);
        }
    }
    (s, o)
}

pub fn w09(r: &mut Runner) {
    r.rule("Random graphs written with random options, parsed with a parser of the DOT language, and compared with the graph as labelled graphs: a node for each term that is a subject or an object, with the shape, colour, label and URL of its kind, an edge for each statement with the name of its predicate. Distinct by graph and options; non-trivial when there are statements.");
    r.assume("Shapes, colours and prefixes are the caller's, and are valid in a DOT document. Text labels have the escapes of the library's literals.");
    let body = |c: &mut Case<'_>, mut ts: Vec<Triple>| -> Check {
        if ts.len() < 5_000 && c.rng.chance(1, 6) {
            let odd = ["urn:x:a\"b", "urn:x:a\\b", "urn:x:\\", "x:\"", "urn:x:a\\\"b\\n"];
            for t in &mut ts {
                if c.rng.chance(1, 3) {
                    t.p = c.rng.pick(&odd).to_string();
                }
                if c.rng.chance(1, 3) && t.o.is_flat() {
                    t.o = iri(c.rng.pick(&odd));
                }
            }
            c.count("IRIs with quotes and backslashes", 1);
        }
        let (map, _) = mappings(&mut c.rng);
        let (s, o) = some_style(&mut c.rng);
        let unique = c.rng.chance(1, 3);
        let g = graph_of(&ts, Some(map.clone()), None, unique);
        let w = if c.rng.bool() { DotWriter::new(o) } else { DotWriter::default().with_options(o) };
        let set = w.options();
        let owned = |a: &String, b: &String| (a.clone(), b.clone());
        ensure_eq!(owned(set.blank_shape(), set.blank_color()), s.blank, "the options for blank nodes");
        ensure_eq!(owned(set.iri_shape(), set.iri_color()), s.iri, "the options for IRIs");
        ensure_eq!(owned(set.literal_shape(), set.literal_color()), s.literal, "the options for literals");
        ensure_eq!((set.node_prefix(), set.blank_labels()), (&s.prefix, s.labels), "the prefix and labels");
        let text = w.write_to_string(&g).map_err(|e| e.to_string())?;
        let dot = parse(&text).map_err(|e| format!("what is written is not DOT: {e}: {text:?}"))?;
        let ts = if unique { dedup(&ts) } else { ts };
        let flat = flatten(&ts, true);
        judge(&dot, &flat, &s, &map, &text)?;
        let again = parse(&w.write_to_string(&g).map_err(|e| e.to_string())?).map_err(|e| format!("the second time: {e}"))?;
        judge(&again, &flat, &s, &map, "the second time")?;
        c.count("nodes", dot.nodes.len() as u64);
        c.count("edges", dot.edges.len() as u64);
        if !ts.is_empty() {
            c.distinct(&(&ts, &s));
        }
        c.sample(|| text.clone());
        Ok(())
    };
    let n = r.n(14_000, 12);
    r.section("graphs", n, |c| {
        let cfg = some_cfg(c);
        let ts = some_triples(c, &cfg);
        body(c, ts)
    });
    let n = r.n(3, 4);
    r.section("huge graphs", n, |c| {
        let ts = huge_triples(c);
        body(c, ts)
    });
    for e in ["nodes", "edges", "IRIs with quotes and backslashes"] {
        r.require(e, 1000);
    }
}

fn judge(dot: &Dot, flat: &[Triple], s: &Style, map: &rdftk_iri::IriPrefixMap, text: &str) -> Check {
    // nodes: one for each term
    let mut ids = BTreeSet::new();
    let mut observed = vec![];
    for (id, a) in &dot.nodes {
        ensure!(ids.insert(id.clone()), "the node {id:?} twice in {text:?}");
        ensure!(id.starts_with(&s.prefix), "the node {id:?} without the prefix {:?}", s.prefix);
        let get = |k: &str| a.get(k).cloned().unwrap_or_default();
        let look = (get("shape"), get("color"));
        let kind = match a.get("URL") {
            Some(u) => {
                ensure_eq!(look, s.iri, "the shape and colour of an IRI in {text:?}");
                ensure_eq!(get("label"), *u, "the label of an IRI in {text:?}");
                format!("I{}", unescaped(u))
            }
            None => format!("L{}", decode_escapes(&get("label").replace('"', "\\\"")).ok_or_else(|| format!("the label {:?} in {text:?}", get("label")))?),
        };
        observed.push((id.clone(), kind, look));
    }
    let mut terms = BTreeSet::new();
    for t in flat {
        terms.insert(&t.s);
        terms.insert(&t.o);
    }
    ensure_eq!(dot.nodes.len(), terms.len(), "nodes in {text:?}");
    ensure_eq!(dot.edges.len(), flat.len(), "edges in {text:?}");
    // as graphs of blank nodes which have kinds
    let lit = |v: &str| Node::Lit(Lit::plain(v));
    let mut got = vec![];
    for (id, kind, look) in observed {
        // blank nodes are recognized by their place: those that the expected graph needs as such
        let shown = if s.labels { format!("L{id}") } else { "L".to_string() };
        let blank_like = kind == shown && look == s.blank;
        let literal_like = kind.starts_with('L') && look == s.literal;
        let n = blank(&id);
        if kind.starts_with('I') {
            got.push(Triple::new(n, "x:kind", lit(&kind)));
        } else if blank_like && !literal_like {
            got.push(Triple::new(n, "x:kind", lit("B")));
        } else if literal_like && !blank_like {
            got.push(Triple::new(n, "x:kind", lit(&kind)));
        } else if literal_like && blank_like {
            // not told apart with these options, but by a label that no literal has
            got.push(Triple::new(n, "x:kind", lit(if s.labels { "B" } else { "B or L" })));
        } else {
            vmon::fail!("the node {id:?} {kind:?} {look:?} looks like no term with {s:?}: {text:?}");
        }
    }
    for (a, b, attrs) in &dot.edges {
        ensure!(ids.contains(a) && ids.contains(b), "an edge between {a:?} and {b:?}, not both nodes, in {text:?}");
        let label = attrs.get("label").cloned().unwrap_or_default();
        got.push(Triple::new(blank(a), &format!("p:{}", unescaped(&label)), blank(b)));
    }
    let mut want = vec![];
    let mut names: BTreeMap<&Node, String> = BTreeMap::new();
    for t in &terms {
        let k = names.len();
        names.insert(t, format!("t{k}"));
        let n = blank(&format!("t{k}"));
        let kind = match t {
            Node::Iri(i) => format!("I{i}"),
            Node::Lit(l) if l.value.is_empty() && !s.labels && s.blank == s.literal => "B or L".into(),
            Node::Lit(l) => format!("L{}", l.value),
            _ if !s.labels && s.blank == s.literal => "B or L".into(),
            _ => "B".into(),
        };
        want.push(Triple::new(n, "x:kind", lit(&kind)));
    }
    for t in flat {
        let p = match map.compress(&lib_iri(&t.p)) {
            Some(q) => q.to_string(),
            None => t.p.clone(),
        };
        want.push(Triple::new(blank(&names[&t.s]), &format!("p:{p}"), blank(&names[&t.o])));
    }
    same_graph(&got, &want, &format!("{text:?} with {s:?}"))
}
