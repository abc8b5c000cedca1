//! W07, W08: Turtle and TriG.

use crate::util::*;
use objio::{HasOptions, ObjectWriter};
use rdfmodel::gen::Cfg;
use rdfmodel::*;
use rdftk_core::model::data_set::DataSet;
use rdftk_core::model::graph::Graph;
use rdftk_io::trig::{TrigWriter, TrigWriterOptions};
use rdftk_io::turtle::{TurtleWriter, TurtleWriterOptions};
use std::collections::BTreeMap;
use vmon::{ensure, ensure_eq, Case, Check, Runner};

/// How the options were set, and what they mean for the triples.
#[derive(Debug, Clone, Default, Hash)]
pub struct Setting {
    base: Option<String>,
    from: Option<String>,
    sparql: bool,
    intellij: bool,
    width: Option<usize>,
    padding: bool,
    nest: bool,
    type_on_subject_line: bool,
}

const BASES: &[&str] = &["http://example.org/", "http://example.org/ns#", "http://example.org/ns", "http://example.org/a/", "http://other.example/v1.0/", "http://example.org/q?a=1&b=", "urn:x:", "urn:x/", "ex:/a/", "urn:x/../a/", "ex:/.//a/", "x:", "http://example.org/q?x=/", "http://example.org/q#/", "http://example.org/a/q?x#/"];

pub fn some_setting(c: &mut Case<'_>) -> (Setting, TurtleWriterOptions) {
    let r = &mut c.rng;
    let mut s = Setting { nest: true, ..Setting::default() };
    let mut o = TurtleWriterOptions::default();
    if r.chance(1, 2) {
        let b = r.pick(BASES).to_string();
        if r.bool() {
            o = o.with_id_base(lib_iri(&b));
        } else {
            o.set_id_base(lib_iri(&b));
        }
        s.base = Some(b);
    }
    if r.chance(1, 6) {
        let f = r.pick(&["http://example.org/ns#", "http://other.example/v1.0/", "http://example.org/a/", "http://example.org/"]).to_string();
        o.set_convert_to_id_base(lib_iri(&f));
        s.from = Some(f);
        if r.chance(1, 6) {
            o.unset_convert_to_id_base();
            s.from = None;
        }
    }
    if r.chance(1, 8) {
        o.unset_id_base();
        s.base = None;
    }
    if r.chance(1, 12) {
        // some conversions are to no IRI
        o = o.with_id_base(lib_iri("x:"));
        o.set_convert_to_id_base(lib_iri("http://example.org/"));
        s.base = Some("x:".to_string());
        s.from = Some("http://example.org/".to_string());
    }
    if r.chance(1, 3) {
        s.sparql = true;
        if r.bool() {
            o = o.with_sparql_style();
        } else {
            o.set_use_sparql_style(true);
        }
    }
    if r.chance(1, 4) {
        s.intellij = true;
        if r.bool() {
            o = o.with_intellij_style();
        } else {
            o.set_use_intellij_style(true);
        }
    }
    if r.chance(1, 3) {
        let w = r.range(1, 9);
        s.width = Some(w);
        if r.bool() {
            o = o.with_indent_width(w);
        } else {
            o.set_indent_width(w);
        }
    }
    s.padding = r.chance(1, 3);
    if s.padding {
        if r.bool() {
            o = o.with_predicate_padding(true);
        } else {
            o.set_predicate_padding(true);
        }
    }
    match r.below(6) {
        0 => {
            s.nest = false;
            o = o.without_nested_blank_nodes();
        }
        1 => {
            s.nest = false;
            o.set_nest_blank_nodes(false);
        }
        2 => o = o.without_nested_blank_nodes().with_nested_blank_nodes(),
        _ => {}
    }
    if r.chance(1, 4) {
        s.type_on_subject_line = true;
        o.set_place_type_on_subject_line(true);
    }
    (s, o)
}

pub fn check_options(s: &Setting, o: &TurtleWriterOptions) -> Check {
    ensure_eq!(o.id_base().map(from_lib_iri), s.base, "id_base");
    ensure_eq!(o.convert_to_id_base().map(from_lib_iri), s.from, "convert_to_id_base");
    ensure_eq!(o.use_sparql_style(), s.sparql, "use_sparql_style");
    ensure_eq!(o.use_intellij_style(), s.intellij, "use_intellij_style");
    ensure_eq!(o.indent_width(), if let Some(w) = s.width { w } else { 4 }, "indent_width");
    ensure_eq!(o.predicate_padding(), s.padding, "predicate_padding");
    ensure_eq!(o.nest_blank_nodes(), s.nest, "nest_blank_nodes");
    ensure_eq!(o.place_type_on_subject_line(), s.type_on_subject_line, "place_type_on_subject_line");
    Ok(())
}

/// The IRI that is to be written for one: another when it starts with the IRI to convert from; None when that is no IRI.
fn converted(s: &Setting, i: &str) -> Option<String> {
    match (&s.base, &s.from) {
        (Some(base), Some(from)) => match i.strip_prefix(from.as_str()) {
            Some(rest) => normal_iri(&format!("{base}{rest}")),
            None => Some(i.to_string()),
        },
        _ => Some(i.to_string()),
    }
}

fn convert_node(s: &Setting, n: &Node) -> Option<Node> {
    Some(match n {
        Node::Iri(i) => Node::Iri(converted(s, i)?),
        Node::Lit(l) => {
            let dt = match &l.dt {
                Some(d) => Some(converted(s, d)?),
                None => None,
            };
            Node::Lit(Lit { dt, ..l.clone() })
        }
        n => n.clone(),
    })
}

fn convert(s: &Setting, ts: &[Triple]) -> Option<Vec<Triple>> {
    ts.iter()
        .map(|t| Some(Triple { s: convert_node(s, &t.s)?, p: converted(s, &t.p)?, o: convert_node(s, &t.o)? }))
        .collect()
}

/// Many graphs of trees and diamonds of blank nodes, and predicates that are grouped.
pub fn turtle_cfg(c: &mut Case<'_>) -> Cfg {
    let mut cfg = some_cfg(c);
    if c.rng.chance(1, 3) {
        cfg.blanks = 12;
        cfg.iris = 3;
        cfg.max_statements = 20;
    }
    cfg
}

pub fn some_statements(c: &mut Case<'_>) -> Vec<Triple> {
    let cfg = turtle_cfg(c);
    let mut ts = some_triples(c, &cfg);
    if c.rng.chance(1, 8) && !ts.is_empty() {
        // no IRI, when it is converted to "x:"
        let i = c.rng.below(ts.len());
        let bad = "http://example.org///[x".to_string();
        match c.rng.below(4) {
            0 => ts[i].s = Node::Iri(bad),
            1 => ts[i].o = Node::Iri(bad),
            2 => ts[i].o = Node::Lit(Lit { dt: Some(bad), ..Lit::plain("x") }),
            _ => {
                ts[i].p = bad;
                // among others
                let p = ts[c.rng.below(ts.len())].p.clone();
                if ts[i].p != p {
                    ts.push(Triple { p, ..ts[i].clone() });
                }
            }
        }
    }
    let grouped = [
        rdf("type"),
        format!("{RDFS}subClassOf"),
        format!("{RDFS}label"),
        format!("{RDFS}comment"),
        format!("{OWL}equivalentClass"),
        "http://xmlns.com/foaf/0.1/name".to_string(),
        "http://www.w3.org/2004/02/skos/core#note".to_string(),
        "http://purl.org/dc/elements/1.1/title".to_string(),
    ];
    if c.rng.bool() {
        for t in &mut ts {
            if c.rng.chance(1, 3) {
                t.p = c.rng.pick(&grouped).clone();
            }
        }
    }
    // chains of blank nodes, and rings
    if c.rng.chance(1, 4) {
        let n = c.rng.range(2, 6);
        let ring = c.rng.chance(1, 3);
        for k in 0..n {
            let from = if k == 0 && !ring && c.rng.bool() { iri("http://example.org/top") } else { blank(&format!("c{k}")) };
            let to = if ring && k + 1 == n { 0 } else { k + 1 };
            ts.push(Triple::new(from, "http://example.org/ns#next", blank(&format!("c{to}"))));
        }
        if c.rng.chance(1, 3) {
            ts.push(Triple::new(blank("c1"), "http://example.org/ns#value", Node::List(vec![blank("c2"), blank("c9")])));
        }
    }
    ts
}

/// Make some of the IRIs start with the base.
pub fn start_with(rng: &mut vmon::Rng, ts: &mut [Triple], base: &str) {
    let mut some = |old: &str| {
        let rest = match rng.below(3) {
            0 => return old.to_string(),
            1 => vmon::gen::pn_local(rng, true),
            _ => rng.pick(&["", "/", "x/y", "/x", "//x", "a:b", "x/a:b", "?", "?q", "?a=/x", "#", "#f", "#/f", "./x", "../x", ".", "..", "x/../y", "x/.", "x//y", "a;b", "%2E", "%2e%2E/x", "...", ".x", "x?../y", "x#../y", "x?a:b", " x", "é", "\\x"]).to_string(),
        };
        // only what the library keeps as it is
        let i = format!("{base}{rest}");
        match normal_iri(&i) {
            Some(n) if n == i => i,
            _ => old.to_string(),
        }
    };
    for t in ts {
        t.p = some(&t.p);
        if let Node::Iri(i) = &mut t.s {
            *i = some(i);
        }
        match &mut t.o {
            Node::Iri(i) => *i = some(i),
            Node::Lit(Lit { dt: Some(d), .. }) => *d = some(d),
            _ => {}
        }
    }
}

/// The names that are written but must not be, if the document is to say the same.
pub fn w07(r: &mut Runner) {
    r.rule("Random graphs (blank node trees, diamonds and rings; collections; nested statements; every kind of literal) written with every combination of the public options, parsed with a strict Turtle parser and compared with the model's flattening, the IRIs converted as the options say; the directives are compared with the options and the mappings. Distinct by the graph and options; non-trivial when it has statements.");
    r.assume("The indent width is not zero, as documented.");
    let n = r.n(22_000, 12);
    r.section("graphs", n, |c| {
        let mut ts = some_statements(c);
        let (map, _) = mappings(&mut c.rng);
        let maps: Vec<(String, String)> = map.mappings().map(|(p, i)| (p.name_string().unwrap_or("").to_string(), from_lib_iri(i))).collect();
        let (s, o) = some_setting(c);
        check_options(&s, &o)?;
        if let Some(base) = &s.base {
            if c.rng.chance(1, 4) {
                start_with(&mut c.rng, &mut ts, base);
                c.count("graphs of IRIs that start with the base", 1);
            }
        }
        let unique = c.rng.chance(1, 3);
        let g = graph_of(&ts, Some(map), None, unique);
        let before = from_lib_graph(&g);
        let w = TurtleWriter::default().with_options(o);
        check_options(&s, w.options())?;
        // a statement has one place; those of a simplified graph come from all the copies of it
        let expected = flatten(&if unique || !typed(&ts) { dedup(&ts) } else { ts.clone() }, typed(&ts));
        let Some(expected) = convert(&s, &expected) else {
            // there is no such IRI
            ensure!(w.write_to_string(&g).is_err(), "[{}] was written with {s:?}", show_all(&ts));
            ensure_eq!(from_lib_graph(&g), before, "the graph after failing to write");
            c.count("conversions to no IRI", 1);
            return Ok(());
        };
        let text = w.write_to_string(&g).map_err(|e| format!("writing [{}] with {s:?}: {e}", show_all(&ts)))?;
        let doc = ttl::parse(&text, false, None).map_err(|e| format!("what is written is not Turtle: {e}; with {s:?} from [{}]: {text:?}", show_all(&ts)))?;
        same_graph(&doc.triples(), &expected, &format!("the Turtle written for [{}] with {s:?}: {text:?}", show_all(&ts)))?;
        ensure_eq!(doc.prefixes, want_prefixes(&maps), "prefixes of {text:?}");
        check_style(&text, &s, maps.len())?;
        // once more, with the same writer
        let again = w.write_to_string(&g).map_err(|e| e.to_string())?;
        if !is_nested(&ts) {
            ensure_eq!(again, text, "the second time");
        }
        ensure_eq!(from_lib_graph(&g), before, "the graph after writing");
        stats(c, &doc.stats);
        c.count(if is_nested(&ts) { "nested graphs" } else { "flat graphs" }, 1);
        if s.base.is_some() && s.from.is_some() {
            c.count("converted", 1);
        }
        if s.sparql && !s.intellij {
            c.count("SPARQL style", 1);
        }
        if s.type_on_subject_line {
            c.count("type on the subject line", 1);
        }
        if !ts.is_empty() {
            c.distinct(&(&ts, &s));
        }
        c.sample(|| text.clone());
        Ok(())
    });
    // terms that are written alike, in graphs made in any order
    let n = r.n(8_000, 10);
    r.section("order", n, |c| {
        let (s, mut o) = some_setting(c);
        if c.rng.bool() {
            o = TurtleWriterOptions::default();
            o.set_id_base(lib_iri("http://example.org/a/"));
            o.set_convert_to_id_base(lib_iri("http://example.org/b/"));
        }
        let i = |c: &mut Case<'_>| format!("http://example.org/{}/{}", c.rng.pick(&["a", "b"]), c.rng.pick(&["p", "q", ""]));
        let mut ts = vec![];
        for _ in 0..c.rng.range(2, 14) {
            let node = |c: &mut Case<'_>| if c.rng.chance(1, 3) { blank(c.rng.pick(&["m", "n", "o"])) } else { iri(&i(c)) };
            let (a, b) = (node(c), node(c));
            let b = if c.rng.chance(1, 4) { Node::Lit(Lit::typed(c.rng.pick(&["1", "x"]), &i(c))) } else { b };
            ts.push(Triple::new(a, &i(c), b));
        }
        let ts = dedup(&ts);
        let first = TurtleWriter::default().with_options(o.clone()).write_to_string(&graph_of(&ts, None, None, c.rng.bool())).map_err(|e| e.to_string())?;
        for _ in 0..3 {
            let mut ts = ts.clone();
            c.rng.shuffle(&mut ts);
            let again = TurtleWriter::default().with_options(o.clone()).write_to_string(&graph_of(&ts, None, None, c.rng.bool())).map_err(|e| e.to_string())?;
            ensure_eq!(again, first, "the same graph made in another order, with {s:?}");
            c.count("graphs made in another order", 1);
        }
        c.distinct(&(&ts, &s));
        Ok(())
    });
    r.require("graphs made in another order", 10_000);
    let n = r.n(0x1100, 1);
    r.section("characters", n, |c| {
        let from = c.index as u32 * 0x100;
        let mut ts = vec![];
        for (k, ch) in (from..from + 0x100).filter_map(char::from_u32).enumerate() {
            ts.push(Triple::new(iri("http://example.org/s"), "http://example.org/p", Node::Lit(Lit::plain(&format!("{k}{ch}{ch}")))));
        }
        let g = graph_of(&ts, None, None, false);
        let text = TurtleWriter::default().write_to_string(&g).map_err(|e| e.to_string())?;
        let doc = ttl::parse(&text, false, None).map_err(|e| format!("not Turtle: {e}"))?;
        same_multiset(&doc.triples(), &ts, "characters")?;
        c.count("characters", ts.len() as u64);
        c.distinct_enumerated(ts.len() as u64);
        Ok(())
    });
    r.exhaustive("every Unicode character in a literal, written and parsed");
    // the short forms and what looks like them
    let n = r.n(12_000, 10);
    r.section("values", n, |c| {
        let mut ts = vec![];
        for k in 0..c.rng.range(1, 6) {
            let v = numeral(c);
            let dt = c.rng.pick(&["integer", "decimal", "double", "boolean", "float", "string", "int", "long", "dateTime"]);
            ts.push(Triple::new(iri("http://example.org/s"), &format!("http://example.org/p{}", k % 3), Node::Lit(Lit::typed(&v, &xsd(dt)))));
        }
        let g = graph_of(&ts, None, None, false);
        let text = TurtleWriter::default().write_to_string(&g).map_err(|e| e.to_string())?;
        let doc = ttl::parse(&text, false, None).map_err(|e| format!("not Turtle: {e}: {text:?}"))?;
        same_graph(&doc.triples(), &ts, &format!("{text:?}"))?;
        c.count("bare values", doc.stats.bare as u64);
        c.count("quoted values", (ts.len() - doc.stats.bare.min(ts.len())) as u64);
        c.distinct(&ts);
        Ok(())
    });
    let (n, longest) = (r.n(200, 6), if r.thorough() { 3_000 } else { 1_500 });
    r.section("chains", n, |c| {
        let (what, ts) = long_shape(c, longest);
        let (s, o) = some_setting(c);
        let nest = s.nest;
        let again = ts.clone();
        let text = in_thread(&format!("writing a {what}"), move || {
            let g: Graph = graph_of(&again, None, None, false);
            TurtleWriter::default().with_options(o).write_to_string(&g).map_err(|e| e.to_string())
        })?;
        let Some(want) = convert(&s, &ts) else {
            ensure!(text.is_err(), "a {what} was written with {s:?}");
            c.count("conversions to no IRI", 1);
            return Ok(());
        };
        let text = text?;
        let doc = ttl::parse(&text, false, None).map_err(|e| format!("not Turtle: {e}: {what} with {s:?}"))?;
        same_multiset(&doc.triples(), &want, &format!("a {what} with {s:?}"))?;
        ensure!(nest || doc.stats.property_lists == 0, "a {what}: nested, and not asked to be");
        c.count("nodes nested in chains", doc.stats.property_lists as u64);
        c.distinct(&("chains", what, vmon::hash_of(&ts), &s));
        Ok(())
    });
    r.require("nodes nested in chains", 100);
    r.require("conversions to no IRI", 20);
    // what the options do to the layout, in graphs of one shape
    let n = r.n(6_000, 10);
    r.section("layout", n, |c| {
        let (ts, nested, empty) = forest(c);
        let (s, o) = some_setting(c);
        let g = graph_of(&dedup(&ts), None, None, c.rng.bool());
        let text = TurtleWriter::default().with_options(o).write_to_string(&g).map_err(|e| e.to_string());
        let Some(want) = convert(&s, &flatten(&dedup(&ts), false)) else {
            ensure!(text.is_err(), "[{}] was written with {s:?}", show_all(&ts));
            return Ok(());
        };
        let text = text?;
        let doc = ttl::parse(&text, false, None).map_err(|e| format!("not Turtle: {e}: {text:?}"))?;
        same_graph(&doc.triples(), &want, &format!("{s:?}: {text:?}"))?;
        ensure_eq!(doc.stats.property_lists, if s.nest { nested } else { 0 }, "blank nodes nested, with {s:?}, in {text:?}");
        ensure_eq!(doc.stats.anon, if s.nest { empty } else { 0 }, "[] written, with {s:?}, in {text:?}");
        c.count("blank nodes that nest", nested as u64);
        // the statements of an IRI, each on a line that is indented as the options say, the type first
        let indent = " ".repeat(s.width.unwrap_or(4));
        let body: Vec<&str> = text.lines().filter(|l| !l.trim().is_empty() && !l.starts_with('@') && !l.starts_with("BASE")).collect();
        for (k, l) in body.iter().enumerate() {
            if !l.starts_with('<') || s.from.is_some() {
                continue;
            }
            let top = l.trim_end();
            let subject = top.split(' ').next().unwrap_or("");
            let full = ttl::resolve(s.base.as_deref().unwrap_or(""), subject.trim_matches(|ch| ch == '<' || ch == '>'));
            let has_type = ts.iter().any(|t| t.p == rdf("type") && matches!(&t.s, Node::Iri(i) if converted(&s, i).as_deref() == Some(full.as_str())));
            let Some(next) = body.get(k + 1) else { continue };
            let is_type = |l: &str| l.split_whitespace().next().is_some_and(|w| w == "a" || w == "rdf:type" || w.contains("22-rdf-syntax-ns#type"));
            if has_type && s.type_on_subject_line {
                ensure!(is_type(&top[subject.len()..]), "the type is not on the line of the subject: {text:?}");
                c.count("type on the line of the subject", 1);
            } else {
                ensure_eq!(top, subject, "the line of a subject, with {s:?}, in {text:?}");
                ensure!(next.starts_with(&indent) && !next[indent.len()..].starts_with(' '), "the indentation of {next:?} is not {}: {text:?}", indent.len());
                ensure!(!has_type || is_type(next), "the type is not the first: {text:?}");
                c.count("lines indented", 1);
            }
        }
        c.distinct(&("layout", &ts, &s));
        Ok(())
    });
    for e in ["blank nodes that nest", "lines indented", "type on the line of the subject"] {
        r.require(e, 400);
    }
    for e in ["nested graphs", "flat graphs", "property lists", "collections", "prefixed names", "relative IRIs", "bare values", "converted", "SPARQL style", "type on the subject line"] {
        r.require(e, 400);
    }
}

/// Trees of blank nodes, no deeper than writers nest them, some with a second reference: the statements, how
/// many of the nodes are to be nested, and how many of those have no statements.
fn forest(c: &mut Case<'_>) -> (Vec<Triple>, usize, usize) {
    let r = &mut c.rng;
    let mut ts = vec![];
    let mut nodes: Vec<(Node, usize)> = vec![];
    for k in 0..r.range(1, 3) {
        nodes.push((iri(&format!("http://example.org/{}", ["a/top", "ns#top", "top"][k % 3])), 0));
    }
    if r.chance(1, 4) {
        nodes.push((blank("loose"), 0));
    }
    let roots = nodes.len();
    for k in 0..r.range(0, 9) {
        let (from, depth) = r.pick(&nodes).clone();
        let b = blank(&format!("t{k}"));
        let p = format!("http://example.org/ns#p{}", r.below(3));
        if r.chance(1, 6) {
            ts.push(Triple::new(from, &p, Node::List(vec![b.clone(), iri("http://example.org/member")])));
        } else {
            ts.push(Triple::new(from, &p, b.clone()));
        }
        if depth < 8 {
            nodes.push((b, depth + 1));
        }
    }
    for (n, _) in &nodes[..roots] {
        if r.bool() {
            ts.push(Triple::new(n.clone(), &rdf("type"), iri("http://example.org/Type")));
        }
        ts.push(Triple::new(n.clone(), "http://example.org/ns#value", Node::Lit(Lit::plain("v"))));
    }
    // what is referenced twice is not nested
    if nodes.len() > roots && r.chance(1, 3) {
        let (twice, _) = r.pick(&nodes[roots..]).clone();
        ts.push(Triple::new(nodes[0].0.clone(), "http://example.org/ns#again", twice));
    }
    r.shuffle(&mut ts);
    let mut references: BTreeMap<&Node, usize> = BTreeMap::new();
    for t in &ts {
        match &t.o {
            Node::List(v) => v.iter().for_each(|n| *references.entry(n).or_default() += 1),
            n => *references.entry(n).or_default() += 1,
        }
    }
    let once: Vec<&Node> = references.iter().filter(|(n, k)| matches!(n, Node::Blank(_)) && **k == 1).map(|(n, _)| *n).collect();
    let full = once.iter().filter(|n| ts.iter().any(|t| t.s == ***n)).count();
    let (all, full) = (once.len(), full);
    (ts, full, all - full)
}

fn typed(ts: &[Triple]) -> bool {
    // a graph with a statement nested in it is simplified, which writes lists in full
    ts.iter().any(|t| {
        let mut found = false;
        for n in [&t.s, &t.o] {
            n.visit(&mut |n| found |= matches!(n, Node::Triple(_)));
        }
        found
    })
}

fn numeral(c: &mut Case<'_>) -> String {
    let r = &mut c.rng;
    if r.chance(1, 8) {
        return r.pick(&["true", "false", "True", "1", "0", "INF", "-INF", "NaN", "", ".", "e1", "+", "truex"]).to_string();
    }
    let mut s = String::new();
    let digits = |r: &mut vmon::Rng, n: usize| (0..n).map(|_| char::from(b'0' + r.below(10) as u8)).collect::<String>();
    s.push_str(r.pick(&["", "", "+", "-", "--"]));
    let n = r.range(0, 3);
    s += &digits(r, n);
    if r.chance(2, 3) {
        s.push('.');
        let n = r.range(0, 3);
        s += &digits(r, n);
    }
    if r.bool() {
        s.push_str(r.pick(&["e", "E"]));
        s.push_str(r.pick(&["", "+", "-"]));
        let n = r.range(0, 2);
        s += &digits(r, n);
    }
    if r.chance(1, 12) {
        s.push_str(r.pick(&[" ", ".", "a", "\n", "٣"]));
    }
    s
}

fn want_prefixes(maps: &[(String, String)]) -> BTreeMap<String, String> {
    maps.iter().cloned().collect()
}

fn stats(c: &mut Case<'_>, s: &ttl::Stats) {
    c.count("property lists", s.property_lists as u64);
    c.count("collections", s.collections as u64);
    c.count("prefixed names", s.prefixed as u64);
    c.count("relative IRIs", s.relative as u64);
    c.count("bare values", s.bare as u64);
    c.count("[]", s.anon as u64);
}

/// The directives come first, in the style that the options ask for.
fn check_style(text: &str, s: &Setting, prefixes: usize) -> Check {
    let sparql = s.sparql && !s.intellij;
    let (b, p) = if sparql { ("BASE <", "PREFIX ") } else { ("@base <", "@prefix ") };
    let mut lines = text.lines();
    if let Some(base) = &s.base {
        let l = lines.next().unwrap_or("");
        ensure!(l.starts_with(b), "the base is not declared first, as {b:?}: {text:?}");
        ensure!(l.contains(base.as_str()), "the base declared is not {base:?}: {text:?}");
        ensure_eq!(l.ends_with('.'), !sparql, "the end of the declaration {l:?}");
    }
    let lines: Vec<&str> = lines.filter(|l| l.starts_with(p)).collect();
    ensure_eq!(lines.len(), prefixes, "declarations of prefixes with {p:?} in {text:?}");
    for l in lines {
        ensure_eq!(l.ends_with('.'), !sparql, "the end of the declaration {l:?}");
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------

pub fn w08(r: &mut Runner) {
    r.rule("Random data sets and graphs, with named and default graphs that share blank nodes and have different prefix mappings, written with every combination of options, parsed with a strict TriG parser and compared as quads, blank nodes one-to-one over the whole data set. Distinct by the quads and options; non-trivial when it has statements.");
    r.assume("As for Turtle.");
    let n = r.n(16_000, 12);
    r.section("data sets", n, |c| {
        let cfg = turtle_cfg(c);
        let gs = some_quads(c, &cfg);
        let d: DataSet = data_set_of(&gs, &mut c.rng);
        let (s, o) = some_setting(c);
        let omit = c.rng.bool();
        let mut options = TrigWriterOptions::from(o);
        if c.rng.bool() {
            options = options.with_omit_graph_keyword(omit);
        } else {
            options.set_omit_graph_keyword(omit);
        }
        ensure_eq!(options.omit_graph_keyword(), omit, "omit_graph_keyword");
        check_options(&s, options.as_ref())?;
        let w = TrigWriter::default().with_options(options);
        judge_trig(c, w.write_to_string(&d).map_err(|e| e.to_string()), &gs, &s, omit)?;
        if gs.iter().any(|g| !g.1.is_empty()) {
            c.distinct(&(&gs, &s));
        }
        Ok(())
    });
    let n = r.n(6_000, 12);
    r.section("graphs", n, |c| {
        let ts = some_statements(c);
        let (map, _) = mappings(&mut c.rng);
        let (s, o) = some_setting(c);
        let name = match c.rng.below(3) {
            0 => None,
            1 => Some(iri("http://example.org/g")),
            _ => Some(blank("g.1")),
        };
        let g: Graph = graph_of(&ts, Some(map), name.as_ref(), false);
        let w = TrigWriter::default().with_options(TrigWriterOptions::from(o).with_omit_graph_keyword(true));
        judge_trig(c, w.write_to_string(&g).map_err(|e| e.to_string()), &[(name, ts.clone())], &s, true)?;
        if !ts.is_empty() {
            c.distinct(&(&ts, &s));
        }
        Ok(())
    });
    for e in ["graphs written", "quads", "GRAPH", "shared blank nodes", "collections", "prefixed names", "relative IRIs"] {
        r.require(e, 400);
    }
}

fn judge_trig(c: &mut Case<'_>, text: Result<String, String>, gs: &[(Option<Node>, Vec<Triple>)], s: &Setting, omit: bool) -> Check {
    let gs: Vec<_> = gs.iter().map(|(g, ts)| (g.clone(), if typed(ts) { ts.clone() } else { dedup(ts) })).collect();
    let gs = gs.as_slice();
    let expected = flat_quads(gs, typed);
    let mut want = vec![];
    for (t, g) in &expected {
        let Some(t) = convert(s, std::slice::from_ref(t)) else {
            // there is no such IRI
            ensure!(text.is_err(), "[{}] was written with {s:?}", show_all(std::slice::from_ref(t)));
            c.count("conversions to no IRI", 1);
            return Ok(());
        };
        want.push((t[0].clone(), g.clone()));
    }
    // whether the name of a graph is an IRI to convert is not said
    if expected.iter().any(|(_, g)| g.as_ref().is_some_and(|g| convert_node(s, g).as_ref() != Some(g))) {
        c.count("not judged: conversion of a name", 1);
        return Ok(());
    }
    let text = &text.map_err(|e| format!("writing with {s:?}: {e}"))?;
    c.sample(|| text.clone());
    let doc = ttl::parse(text, true, None).map_err(|e| format!("what is written is not TriG: {e}; with {s:?}: {text:?}"))?;
    same_quads(&doc.quads, &want, &format!("the TriG written with {s:?}: {text:?}"))?;
    c.count("quads", want.len() as u64);
    c.count("graphs written", doc.stats.graphs as u64);
    let keywords = text.lines().filter(|l| l.starts_with("GRAPH ")).count();
    ensure_eq!(keywords, if omit { 0 } else { gs.iter().filter(|g| g.0.is_some()).count() }, "GRAPH keywords in {text:?}");
    c.count("GRAPH", keywords as u64);
    let mut homes: BTreeMap<String, std::collections::BTreeSet<Option<Node>>> = BTreeMap::new();
    for (t, g) in &want {
        for n in [&t.s, &t.o] {
            if let Node::Blank(b) = n {
                homes.entry(b.clone()).or_default().insert(g.clone());
            }
        }
    }
    c.count("shared blank nodes", homes.values().filter(|h| h.len() > 1).count() as u64);
    stats(c, &doc.stats);
    Ok(())
}

