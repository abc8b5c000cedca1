//! W05: the RDF/XML writer; W06: its reader.

use crate::util::*;
use objio::{ObjectReader, ObjectWriter};
use rdfmodel::gen::nc_name;
use rdfmodel::rdfxml::{self, El, Nd};
use rdfmodel::*;
use rdftk_io::xml::{XmlOptions, XmlReader, XmlWriter};
use std::collections::{BTreeMap, BTreeSet};
use vmon::gen as vg;
use vmon::{ensure, ensure_eq, fail, Case, Check, Runner};

/// The names of the RDF namespace that are syntax, and never properties of their own.
pub const SYNTAX_NAMES: &[&str] = &[
    "RDF", "ID", "about", "bagID", "parseType", "resource", "nodeID", "datatype", "li", "Description", "aboutEach", "aboutEachPrefix",
];

/// Can the IRI be the name of a property element?
pub fn is_property(i: &str) -> bool {
    if let Some(l) = i.strip_prefix(RDF) {
        if SYNTAX_NAMES.contains(&l) {
            return false;
        }
    }
    i.char_indices().skip(1).any(|(k, _)| {
        let (ns, l) = i.split_at(k);
        rdfxml::is_nc_name(l) && ns != rdfxml::XML_NS && ns != "http://www.w3.org/2000/xmlns/"
    })
}

fn is_xml_11(s: &str) -> bool {
    s.chars().all(|c| !matches!(c, '\0' | '\u{FFFE}' | '\u{FFFF}'))
}

fn writable(ts: &[Triple]) -> Result<(), &'static str> {
    for t in ts {
        if !is_property(&t.p) {
            return Err("predicate");
        }
        if let Node::Lit(l) = &t.o {
            if !is_xml_11(&l.value) {
                return Err("text");
            }
        }
    }
    Ok(())
}

fn options(striped: bool, pretty: bool, encoding: Option<&str>) -> XmlOptions {
    let o = XmlOptions::default();
    let o = if striped { o.striped() } else { o.flat() };
    let o = if pretty { o.pretty() } else { o.plain() };
    match encoding {
        Some(e) => o.with_encoding(e),
        None => o,
    }
}

/// Blank nodes that one statement refers to, and that are not below themselves.
fn nestable(ts: &[Triple]) -> (BTreeSet<String>, usize) {
    let mut refs: BTreeMap<&str, usize> = BTreeMap::new();
    let mut parent: BTreeMap<&str, &Node> = BTreeMap::new();
    for t in ts {
        if let Node::Blank(b) = &t.o {
            *refs.entry(b).or_default() += 1;
            parent.insert(b, &t.s);
        }
    }
    let mut out = BTreeSet::new();
    let mut deepest = 0;
    for (b, n) in &refs {
        if *n != 1 {
            continue;
        }
        // up to a node that is referred to in no or several places
        let mut at = *b;
        let mut steps = 0;
        let ok = loop {
            match parent.get(at) {
                Some(Node::Blank(p)) if refs.get(p.as_str()) == Some(&1) => at = p,
                _ => break true,
            }
            steps += 1;
            if steps > refs.len() {
                break false;
            }
        };
        if ok {
            out.insert(b.to_string());
            deepest = deepest.max(steps);
        }
    }
    (out, deepest)
}

fn node_elements(e: &El, depth: usize, out: &mut Vec<(usize, Option<String>)>) {
    for n in &e.children {
        if let Nd::El(d) = n {
            let id = d.attrs.iter().find(|a| a.0 == RDF && a.1 == "nodeID").map(|a| a.2.clone());
            out.push((depth, id));
            for p in &d.children {
                if let Nd::El(p) = p {
                    node_elements(p, depth + 1, out);
                }
            }
        }
    }
}

fn write_case(c: &mut Case<'_>, ts: &[Triple], unique: bool) -> Check {
    let (map, _) = mappings(&mut c.rng);
    let g = graph_of(ts, Some(map), None, unique);
    let ts = if unique { dedup(ts) } else { ts.to_vec() };
    let expected = flatten(&ts, true);
    let striped = c.rng.bool();
    let pretty = c.rng.bool();
    let encoding = *c.rng.pick(&[None, Some("utf-8"), Some("UTF-8")]);
    let w = XmlWriter::default().with_options(options(striped, pretty, encoding));
    let result = w.write_to_string(&g);
    let text = match (result, writable(&expected)) {
        (Ok(t), Ok(())) => t,
        (Err(_), Err(why)) => {
            c.count(&format!("refused: {why}"), 1);
            return Ok(());
        }
        (Ok(t), Err(why)) => fail!("RDF/XML cannot have the {why} of [{}], and {t:?} is written", show_all(&ts)),
        (Err(e), Ok(())) => fail!("writing [{}]: {e}", show_all(&ts)),
    };
    let root = rdfxml::parse_xml(&text).map_err(|e| format!("what is written is not XML: {e}: {text:?}"))?;
    ensure!(root.ns == RDF && root.local == "RDF", "the root is {}{}", root.ns, root.local);
    let doc = rdfxml::triples_of(&root, None).map_err(|e| format!("what is written is not RDF/XML: {e}: {text:?}"))?;
    same_graph(&doc.triples, &expected, &format!("the RDF/XML written: {text:?}"))?;
    let mut elements = vec![];
    node_elements(&root, 0, &mut elements);
    if striped {
        // a node that can be nested has no label
        let flat = dedup(&expected);
        let (nest, deepest) = nestable(&flat);
        let labels: BTreeSet<&String> = elements.iter().filter_map(|e| e.1.as_ref()).collect();
        let all: BTreeSet<&str> = flat.iter().flat_map(|t| [&t.s, &t.o]).filter_map(|n| if let Node::Blank(b) = n { Some(b.as_str()) } else { None }).collect();
        let subjects = flat.iter().filter_map(|t| if let Node::Blank(b) = &t.s { Some(b.as_str()) } else { None }).collect::<BTreeSet<_>>();
        let repeated = expected.len() != flat.len();
        // how deep the writer nests is its own matter
        if !repeated && deepest < 50 {
            ensure_eq!(labels.len(), subjects.iter().filter(|b| !nest.contains(**b)).count(), "labelled node elements of {text:?}");
            ensure_eq!(elements.iter().filter(|e| e.0 > 0).count(), nest.len(), "nested node elements of {text:?}");
        }
        c.count("nested blank nodes", nest.len() as u64);
        c.count("blank nodes", all.len() as u64);
    } else {
        ensure!(elements.iter().all(|e| e.0 == 0), "nested node elements in the flat style: {text:?}");
    }
    if !pretty {
        fn spaced(e: &El, depth: usize) -> bool {
            e.children.iter().any(|n| match n {
                Nd::El(x) => spaced(x, depth + 1),
                Nd::Text(_) => depth % 2 == 0 || e.children.len() > 1 && e.children.iter().any(|n| matches!(n, Nd::El(_))),
                _ => false,
            })
        }
        // rdf:RDF has nodes, these properties, and so on
        let bad = root.children.iter().any(|n| match n {
            Nd::El(x) => spaced(x, 0),
            _ => true,
        });
        ensure!(!bad, "space between the elements of the plain style: {text:?}");
    }
    match XmlReader::default().read_from_string(&text) {
        Ok(back) => same_graph(&from_lib_graph(&back), &expected, &format!("the graph read back from {text:?}"))?,
        Err(e) => fail!("reading back {text:?}: {e}"),
    }
    c.count(if striped { "striped" } else { "flat" }, 1);
    c.count(if pretty { "pretty" } else { "plain" }, 1);
    c.count("statements", expected.len() as u64);
    if is_nested(&ts) {
        c.count("graphs with nested nodes", 1);
    }
    if !ts.is_empty() {
        c.distinct(&ts);
    }
    c.sample(|| text.clone());
    Ok(())
}

pub fn w05(r: &mut Runner) {
    r.rule("Random graphs written in both styles, plain and pretty, parsed with a parser of XML 1.1 and of RDF/XML and compared with the model's flattening, and read back with XmlReader; graphs with predicates or text that RDF/XML cannot have must be refused. Distinct by the graph; non-trivial when it has statements.");
    let n = r.n(14_000, 12);
    r.section("graphs", n, |c| {
        let mut cfg = some_cfg(c);
        cfg.xml_predicates = c.rng.chance(5, 6);
        cfg.xml_text = c.rng.chance(3, 4);
        let ts = some_triples(c, &cfg);
        let unique = c.rng.bool();
        write_case(c, &ts, unique)
    });
    let n = r.n(3, 4);
    r.section("huge graphs", n, |c| {
        let ts = huge_triples(c);
        write_case(c, &ts, false)
    });
    let (n, longest) = (r.n(160, 6), if r.thorough() { 3_000 } else { 1_500 });
    r.section("chains", n, |c| {
        let (what, ts) = long_shape(c, longest);
        let striped = c.rng.chance(3, 4);
        let pretty = c.rng.chance(1, 4);
        let again = ts.clone();
        let text = in_thread(&format!("writing a {what}"), move || {
            let g = graph_of(&again, None, None, false);
            XmlWriter::default().with_options(options(striped, pretty, None)).write_to_string(&g).map_err(|e| e.to_string())
        })??;
        let doc = rdfxml::parse(&text, None).map_err(|e| format!("not RDF/XML: {e}: a {what}"))?;
        same_graph(&doc.triples, &ts, &format!("a {what}, striped: {striped}"))?;
        c.count("long shapes", 1);
        c.distinct(&("chains", what, vmon::hash_of(&ts), striped, pretty));
        Ok(())
    });
    r.require("long shapes", 100);
    // shapes of blank nodes: chains, trees, diamonds, cycles
    let n = r.n(6_000, 12);
    r.section("shapes", n, |c| {
        let k = c.rng.range(1, 7);
        let mut ts = vec![];
        let node = |c: &mut Case<'_>| {
            if c.rng.chance(1, 5) {
                iri(&format!("http://example.org/{}", c.rng.below(2)))
            } else {
                blank(&format!("{}{}", ["a", "0", "_0", "_"][c.rng.below(4)], c.rng.below(k)))
            }
        };
        for _ in 0..c.rng.range(1, 8) {
            let (s, o) = (node(c), node(c));
            let p = *c.rng.pick(&["http://example.org/p", "http://example.org/q"]);
            ts.push(Triple::new(s, p, if c.rng.chance(1, 6) { Node::Lit(Lit::plain("x")) } else { o }));
        }
        let ts = dedup(&ts);
        c.count("shapes", 1);
        write_case(c, &ts, true)
    });
    let n = r.n(0x1100, 1);
    r.section("characters", n, |c| {
        let from = c.index as u32 * 0x100;
        let mut ts = vec![];
        let mut not = 0;
        for (k, ch) in (from..from + 0x100).filter_map(char::from_u32).enumerate() {
            let t = Triple::new(iri("http://example.org/s"), "http://example.org/p", Node::Lit(Lit::plain(&format!("{k}{ch}{ch}-{ch}\n"))));
            if is_xml_11(&ch.to_string()) {
                ts.push(t);
            } else {
                not += 1;
                let out = XmlWriter::default().write_to_string(&graph_of(&[t], None, None, false));
                ensure!(out.is_err(), "{ch:?} cannot be written: {out:?}");
            }
        }
        let text = XmlWriter::default().write_to_string(&graph_of(&ts, None, None, false)).map_err(|e| e.to_string())?;
        let doc = rdfxml::parse(&text, None).map_err(|e| format!("not RDF/XML: {e}"))?;
        same_multiset(&doc.triples, &ts, "characters")?;
        let back = XmlReader::default().read_from_string(&text).map_err(|e| format!("reading back: {e}"))?;
        same_multiset(&from_lib_graph(&back), &ts, "characters read back")?;
        c.count("characters", ts.len() as u64);
        c.count("characters refused", not);
        c.distinct_enumerated(ts.len() as u64);
        Ok(())
    });
    r.section_seq("predicates", 1, |c| {
        let mut ps: Vec<String> = SYNTAX_NAMES.iter().map(|l| rdf(l)).collect();
        for p in [
            "http://www.w3.org/2000/xmlns/x",
            "http://www.w3.org/XML/1998/namespacex",
            "http://www.w3.org/XML/1998/namespace#x",
            "http://example.org/",
            "http://example.org/1",
            "http://example.org/a1",
            "http://example.org/1a",
            "http://example.org/-a",
            "http://example.org/x/.a-b",
            "http://example.org/p?q=r",
            "http://example.org/p?q=",
            "urn:x",
            "urn:1",
            "http://example.org/%41",
            "http://example.org/a%C3%A9",
            "http://example.org/a%C3%11",
            "http://example.org/a'b&c=d",
            "http://www.w3.org/1999/02/22-rdf-syntax-ns#_1",
            "http://www.w3.org/1999/02/22-rdf-syntax-ns#other",
            "http://www.w3.org/1999/02/22-rdf-syntax-ns#Bag",
        ] {
            ps.push(p.to_string());
        }
        for p in ps {
            for o in [iri("http://example.org/o"), Node::Lit(Lit::plain("x"))] {
                let t = Triple::new(iri("http://example.org/s?a=b&c=%27d%27"), &p, o);
                write_case(c, &[t], true)?;
                c.count("predicates", 1);
            }
        }
        Ok(())
    });
    r.exhaustive("every Unicode character in a literal, written and read back");
    for e in ["striped", "flat", "pretty", "plain", "shapes", "nested blank nodes"] {
        r.require(e, 1500);
    }
    r.require("characters", 1_000_000);
    r.require("refused: predicate", 50);
    r.require("refused: text", 20);
}

// ------------------------------------------------------------------------------------------------

/// Writes a document of the RDF/XML grammar; what it says is for the oracle to tell.
struct Gen<'a, 'b> {
    c: &'a mut Case<'b>,
    out: String,
    rdf: String,
    /// prefixes that are declared on the root
    prefixes: Vec<(String, String)>,
    base: bool,
    ids: usize,
    entities: Vec<(String, String)>,
    v11: bool,
    made: Vec<String>,
}

const NSS: &[&str] = &["http://example.org/", "http://example.org/ns#", "http://other.example/v1.0/", "urn:x:", "http://example.org/q?a=1&b="];

impl Gen<'_, '_> {
    fn ws(&mut self) {
        for _ in 0..3 {
            match self.c.rng.below(14) {
                0..=3 => self.out.push_str("\n  "),
                4 => self.out.push_str("<!-- a comment, <not> & markup -->"),
                5 => self.out.push_str("<?pi of some kind?>"),
                6 => self.out.push_str("\t\r\n"),
                _ => {}
            }
        }
    }

    fn char_ref(&mut self, ch: char) -> String {
        match self.c.rng.below(3) {
            0 => format!("&#{};", ch as u32),
            1 => format!("&#x{:x};", ch as u32),
            _ => format!("&#x{:X};", ch as u32),
        }
    }

    fn attr_value(&mut self, v: &str) -> String {
        let q = *self.c.rng.pick(&['"', '\'']);
        let mut s = String::from(q);
        for ch in v.chars() {
            match ch {
                '<' => s.push_str("&lt;"),
                '&' => s.push_str("&amp;"),
                '"' if q == '"' => s.push_str("&quot;"),
                '\'' if q == '\'' => s.push_str("&apos;"),
                '\t' | '\n' | '\r' => s.push_str(&self.char_ref(ch)),
                c if must_ref(c) => s.push_str(&self.char_ref(c)),
                c if self.c.rng.chance(1, 60) => s.push_str(&self.char_ref(c)),
                c => s.push(c),
            }
        }
        s.push(q);
        s
    }

    fn attr(&mut self, name: &str, v: &str) {
        let sp = *self.c.rng.pick(&[" ", " ", "\n   ", "  "]);
        self.out.push_str(sp);
        self.out.push_str(name);
        self.out.push_str(*self.c.rng.pick(&["=", "=", " = "]));
        let v = self.attr_value(v);
        self.out.push_str(&v);
    }

    fn rdf_attr(&mut self, local: &str, v: &str) {
        let name = format!("{}:{local}", self.rdf);
        self.attr(&name, v);
    }

    fn text(&mut self) -> String {
        let mut t: String = vg::text(&mut self.c.rng).chars().filter(|&c| if self.v11 { c != '\0' && c < '\u{FFFE}' || c > '\u{FFFF}' } else { vg::is_xml_char(c) }).collect();
        if self.c.rng.chance(1, 5) {
            t = format!("<{t}>&'\"");
        }
        if self.c.rng.chance(1, 8) {
            t = format!("  {t}\n ");
        }
        t
    }

    fn content(&mut self, t: &str) {
        let cdata = self.c.rng.chance(1, 6);
        if cdata && !t.contains("]]>") && !t.chars().any(must_ref) {
            let (a, b) = t.split_at(t.char_indices().nth(t.chars().count() / 2).map(|x| x.0).unwrap_or(0));
            let a = a.to_string();
            self.content(&a);
            self.out.push_str("<![CDATA[");
            self.out.push_str(b);
            self.out.push_str("]]>");
            return;
        }
        let mut last = ['x', 'x'];
        for ch in t.chars() {
            match ch {
                '<' => self.out.push_str("&lt;"),
                '&' => self.out.push_str("&amp;"),
                '>' if last == [']', ']'] || self.c.rng.bool() => self.out.push_str("&gt;"),
                c if must_ref(c) => {
                    let r = self.char_ref(c);
                    self.out.push_str(&r);
                }
                c if self.c.rng.chance(1, 40) => {
                    let r = self.char_ref(c);
                    self.out.push_str(&r);
                }
                c => self.out.push(c),
            }
            last = [last[1], ch];
            if self.c.rng.chance(1, if ch.is_whitespace() { 6 } else { 60 }) {
                self.out.push_str(*self.c.rng.pick(&["<!-- within -->", "<?pi within?>"]));
            }
        }
        if !self.entities.is_empty() && self.c.rng.chance(1, 3) {
            let e = self.c.rng.pick(&self.entities).0.clone();
            self.out.push_str(&format!("&{e};"));
        }
    }

    fn iri(&mut self) -> String {
        let i = rdfmodel::gen::some_iri(&mut self.c.rng);
        normal_iri(&i).unwrap_or_else(|| "http://example.org/x".into())
    }

    fn name(&mut self, element: bool) -> (String, String, String) {
        let local = match self.c.rng.below(20) {
            0 | 1 => self.c.rng.pick(&["é", "a.b-c", "_x", "日本"]).to_string(),
            // the names that RDF and XML use, which mean nothing in other namespaces
            2 | 3 => self.c.rng.pick(&["about", "ID", "nodeID", "resource", "datatype", "parseType", "type", "li", "Description", "RDF", "Bag", "_1", "lang", "base", "space", "id", "xml", "xmlThing", "Xml-x", "xmlns", "nil"]).to_string(),
            _ => nc_name(&mut self.c.rng),
        };
        let k = self.c.rng.below(10);
        if k == 0 {
            return (format!("{}:{}", self.rdf, self.c.rng.pick(&["value", "Seq", "_3", "first", "whatever"])), String::new(), String::new());
        }
        if k < 6 || !element {
            let (p, _) = self.c.rng.pick(&self.prefixes).clone();
            return (format!("{p}:{local}"), String::new(), String::new());
        }
        let ns = self.c.rng.pick(NSS).to_string();
        if self.c.rng.bool() {
            (local, "xmlns".into(), ns)
        } else {
            let p = self.c.rng.pick(&["q", "e", "r1"]).to_string();
            (format!("{p}:{local}"), format!("xmlns:{p}"), ns)
        }
    }

    fn open(&mut self, element: (String, String, String)) -> String {
        let (q, d, ns) = element;
        self.out.push('<');
        self.out.push_str(&q);
        if !d.is_empty() {
            self.attr(&d, &ns);
        }
        q
    }

    fn lang(&mut self) {
        if self.c.rng.chance(1, 6) {
            let l = if self.c.rng.chance(1, 5) { String::new() } else { rdfmodel::gen::lang_tag(&mut self.c.rng) };
            self.attr("xml:lang", &l);
        }
    }

    /// Whether there is a base IRI afterwards.
    fn set_base(&mut self) -> bool {
        let set = self.c.rng.chance(1, 10);
        if set {
            let b = *self.c.rng.pick(&["http://base.example/doc", "http://base.example/a/b?q=r", "http://base.example/x#frag", "http://example.org/", "http://base.example/c//d/?", "urn:x:base"]);
            self.attr("xml:base", b);
        }
        self.base || set
    }

    fn id(&mut self) {
        self.ids += 1;
        let v = format!("{}{}", self.c.rng.pick(&["id", "é-", "_", "x.y"]), self.ids);
        self.rdf_attr("ID", &v);
    }

    fn label(&mut self) -> String {
        // also of the form of the labels that the reader makes, in documents where it makes some
        if !self.made.is_empty() && self.c.rng.bool() {
            self.c.count("node IDs like generated labels", 1);
            return self.c.rng.pick(&self.made).clone();
        }
        self.c.rng.pick(&["a", "b", "node-1", "x.y", "_z", "é"]).to_string()
    }

    fn property_attributes(&mut self, at_least: usize) {
        let n = self.c.rng.range(at_least, 2);
        let mut used: Vec<String> = vec![];
        for _ in 0..n {
            let (q, _, _) = self.name(false);
            let q = q.replace(&format!("{}:Seq", self.rdf), &format!("{}:rest", self.rdf));
            if used.contains(&q) {
                continue;
            }
            let v = self.text();
            self.attr(&q, &v);
            used.push(q);
        }
        if self.c.rng.chance(1, 6) {
            let t = self.iri();
            self.rdf_attr("type", &t);
        }
    }

    fn end_open(&mut self) {
        let s = *self.c.rng.pick(&[">", ">", "\n>"]);
        self.out.push_str(s);
    }

    fn empty(&mut self, q: &str) {
        match self.c.rng.below(3) {
            0 => self.out.push_str("/>"),
            1 => self.out.push_str(" />"),
            _ => {
                self.out.push_str(&format!("></{q}>"));
            }
        }
    }

    fn node(&mut self, depth: usize) {
        let el = if self.c.rng.chance(2, 3) { (format!("{}:Description", self.rdf), String::new(), String::new()) } else { self.name(true) };
        let q = self.open(el);
        let has_base = self.set_base();
        match self.c.rng.below(8) {
            0..=2 => {
                let i = self.iri();
                self.rdf_attr("about", &i);
            }
            3 | 4 => {
                let l = self.label();
                self.rdf_attr("nodeID", &l);
            }
            5 if has_base => self.id(),
            _ => {}
        }
        self.lang();
        if self.c.rng.chance(1, 4) {
            self.property_attributes(0);
        }
        // now and then very many properties; deep documents are narrow
        let (n, depth) = match depth {
            0 => (0, 0),
            1..=4 if self.c.rng.chance(1, 4000) => (self.c.rng.range(100, 400), depth.min(2)),
            1..=4 => (self.c.rng.range(0, 4), depth),
            _ => (1, depth),
        };
        if n == 0 {
            self.empty(&q);
            return;
        }
        self.end_open();
        self.ws();
        for _ in 0..n {
            self.property(depth - 1);
            self.ws();
        }
        self.out.push_str(&format!("</{q}>"));
    }

    fn property(&mut self, depth: usize) {
        let el = if self.c.rng.chance(1, 8) {
            (format!("{}:li", self.rdf), String::new(), String::new())
        } else {
            let mut el = self.name(true);
            if el.0 == format!("{}:Seq", self.rdf) {
                el.0 = format!("{}:type", self.rdf);
            }
            el
        };
        let q = self.open(el);
        self.lang();
        let kind = match depth {
            0 => self.c.rng.below(7),
            1..=4 => self.c.rng.below(11),
            _ => self.c.rng.range(7, 10),
        };
        let has_base = self.set_base();
        if has_base && self.c.rng.chance(1, 6) && kind != 5 {
            self.id();
        }
        match kind {
            0 | 1 => {
                let t = self.text();
                if t.is_empty() && self.c.rng.bool() {
                    self.empty(&q);
                } else {
                    self.end_open();
                    self.content(&t);
                    self.out.push_str(&format!("</{q}>"));
                }
            }
            2 => {
                let dt = self.iri();
                // XML literals are made with parseType="Literal", and compared as XML
                let dt = if self.c.rng.bool() || dt == rdf("XMLLiteral") { xsd("integer") } else { dt };
                self.rdf_attr("datatype", &dt);
                let t = self.text();
                self.end_open();
                self.content(&t);
                self.out.push_str(&format!("</{q}>"));
            }
            3 => {
                let i = self.iri();
                self.rdf_attr("resource", &i);
                if self.c.rng.chance(1, 5) {
                    self.property_attributes(1);
                }
                self.empty(&q);
            }
            4 => {
                let l = self.label();
                self.rdf_attr("nodeID", &l);
                if self.c.rng.chance(1, 5) {
                    self.property_attributes(1);
                }
                self.empty(&q);
            }
            5 => {
                self.property_attributes(1);
                self.empty(&q);
            }
            6 => {
                let l = *self.c.rng.pick(&["Literal", "Literal", "literal", "other"]);
                self.rdf_attr("parseType", l);
                self.end_open();
                for _ in 0..self.c.rng.range(0, 3) {
                    match self.c.rng.below(11) {
                        5 => self.out.push_str("a&#10;b&#x9;c"),
                        6 => self.out.push_str("<b c='d&#9;e&#10;f &quot;h&apos; &lt;i&gt; &amp;amp;'/>"),
                        7 => self.out.push_str("<a xmlns='http://x.example/'><b xmlns=''><c xmlns='http://x.example/'/></b><d/></a>"),
                        8 => self.out.push_str("<p:a xmlns:p='u:1' p:x='1'><p:b xmlns:p='u:2' p:x='2'><p:c xmlns:p='u:1' p:x='3'/></p:b><p:d/></p:a>"),
                        9 => self.out.push_str("<a xmlns:q='u:&lt;&amp;&#9;&quot;'><q:b><![CDATA[<x> & ]]]>]]&gt;</q:b></a><e xmlns:q=\"u:3\"><q:b/></e>"),
                        10 => self.out.push_str("<?pi with=\"<data>\" ?><a>  <b/>\t\n</a>"),
                        0 => {
                            let t: String = self.text().chars().filter(|&c| c.is_ascii_alphanumeric() || " <>&'\"\n".contains(c)).collect();
                            self.content(&t);
                        }
                        1 => self.out.push_str("<br/>"),
                        2 => self.out.push_str("<b class=\"x\">bold <i>and &lt;</i></b>"),
                        3 => self.out.push_str("<svg:g xmlns:svg=\"http://svg.example/\" svg:a='1' b=\"2\"/>"),
                        _ => self.out.push_str("<p xmlns=\"http://html.example/\">text</p>"),
                    }
                }
                self.out.push_str(&format!("</{q}>"));
            }
            7 => {
                self.rdf_attr("parseType", "Resource");
                let n = if depth > 4 { 1 } else { self.c.rng.range(0, 3) };
                if n == 0 {
                    self.empty(&q);
                } else {
                    self.end_open();
                    self.ws();
                    for _ in 0..n {
                        self.property(depth - 1);
                        self.ws();
                    }
                    self.out.push_str(&format!("</{q}>"));
                }
            }
            8 => {
                self.rdf_attr("parseType", "Collection");
                let (n, depth) = match depth {
                    1..=4 if self.c.rng.chance(1, 1000) => (self.c.rng.range(50, 250), 1),
                    1..=4 => (self.c.rng.range(0, 3), depth),
                    _ => (1, depth),
                };
                if n == 0 {
                    self.empty(&q);
                } else {
                    self.end_open();
                    self.ws();
                    for _ in 0..n {
                        self.node(depth - 1);
                        self.ws();
                    }
                    self.out.push_str(&format!("</{q}>"));
                }
            }
            _ => {
                self.end_open();
                self.ws();
                self.node(depth - 1);
                self.ws();
                self.out.push_str(&format!("</{q}>"));
            }
        }
    }

    fn document(&mut self) {
        let decl = match self.c.rng.below(4) {
            0 => "",
            1 => "<?xml version=\"1.0\"?>",
            2 => "<?xml version='1.0' encoding='utf-8' standalone='yes'?>\n",
            _ => {
                self.v11 = true;
                "<?xml version=\"1.1\" encoding=\"UTF-8\"?>\n"
            }
        };
        self.out.push_str(decl);
        if self.c.rng.chance(1, 6) {
            self.out.push_str("<!-- first -->\n");
        }
        if self.c.rng.chance(1, 4) {
            self.out.push_str("<!DOCTYPE rdf [\n");
            for (n, v) in [("ex", "http://example.org/"), ("word", "words and more")] {
                if self.c.rng.bool() {
                    self.out.push_str(&format!("  <!ENTITY {n} \"{v}\">\n"));
                    self.entities.push((n.to_string(), v.to_string()));
                }
            }
            self.out.push_str("]>\n");
        }
        let q = format!("{}:RDF", self.rdf);
        self.out.push_str(&format!("<{q}"));
        let r = format!("xmlns:{}", self.rdf);
        self.attr(&r, RDF);
        for (p, ns) in self.prefixes.clone() {
            self.attr(&format!("xmlns:{p}"), &ns);
        }
        if self.base {
            let b = *self.c.rng.pick(&["http://base.example/doc", "http://base.example/a/b?q=r", "http://base.example/x#frag"]);
            self.attr("xml:base", b);
        }
        self.lang();
        self.end_open();
        self.ws();
        let (n, depth) = match self.c.rng.below(2000) {
            0 => (self.c.rng.range(100, 500), 2),
            1..=4 => (1, self.c.rng.range(10, 60)),
            _ => (self.c.rng.range(0, 4), 3),
        };
        for _ in 0..n {
            self.node(depth);
            self.ws();
        }
        self.out.push_str(&format!("</{q}>"));
        if self.c.rng.chance(1, 4) {
            self.out.push_str("\n<!-- last -->\n");
        }
    }
}

fn must_ref(c: char) -> bool {
    matches!(c, '\u{1}'..='\u{8}' | '\u{b}'..='\u{1f}' | '\u{7f}'..='\u{9f}' | '\u{2028}')
}

pub fn generate(c: &mut Case<'_>) -> String {
    let rdf = c.rng.pick(&["rdf", "rdf", "rdf", "r", "RDF"]).to_string();
    let mut prefixes = vec![];
    for (p, ns) in [("ex", 0), ("ns", 1), ("v-1.0", 2), ("é", 4), ("x", 3)] {
        if prefixes.is_empty() || c.rng.bool() {
            prefixes.push((p.to_string(), NSS[ns].to_string()));
        }
    }
    let base = c.rng.chance(1, 3);
    let made = if c.rng.chance(1, 4) { (0..3).map(|_| rdfmodel::gen::next_label(&mut c.rng)).collect() } else { vec![] };
    let mut g = Gen { c, out: String::new(), rdf, prefixes, base, ids: 0, entities: vec![], v11: false, made };
    g.document();
    g.out
}

/// The triples with the library's form of their IRIs; None when it refuses one.
fn normalize(ts: &[Triple]) -> Option<Vec<Triple>> {
    let node = |n: &Node| {
        Some(match n {
            Node::Iri(i) => Node::Iri(normal_iri(i)?),
            Node::Lit(l) => {
                let dt = match &l.dt {
                    Some(d) => Some(normal_iri(d)?),
                    None => None,
                };
                Node::Lit(Lit { dt, ..l.clone() })
            }
            n => n.clone(),
        })
    };
    ts.iter().map(|t| Some(Triple { s: node(&t.s)?, p: normal_iri(&t.p)?, o: node(&t.o)? })).collect()
}

/// Whether the canonical form of an XML literal has an attribute with a control character.
fn has_control_escape(v: &str) -> bool {
    v.split("\\u{").skip(1).any(|t| t.split_once('}').and_then(|(h, _)| u32::from_str_radix(h, 16).ok()).and_then(char::from_u32).is_some_and(|c| c.is_control() && !matches!(c, '\t' | '\n')))
}

/// Whether no IRI has a character that no IRI has.
fn plain_iris(ts: &[Triple]) -> bool {
    let ok = |i: &str| !i.contains(|c: char| c <= ' ' || "<>\"{}|\\^`".contains(c));
    ts.iter().all(|t| {
        ok(&t.p)
            && [&t.s, &t.o].iter().all(|n| match n {
                Node::Iri(i) => ok(i),
                // nor an XML literal a control character, which an XML document has only as a reference
                Node::Lit(Lit { dt: Some(d), value, .. }) => ok(d) && (*d != rdf("XMLLiteral") || !has_control_escape(value) && !value.contains(|c: char| c.is_control() && !matches!(c, '\t' | '\n'))),
                _ => true,
            })
    })
}

fn judge_xml(text: &str, ts: &[Triple]) -> Check {
    let want = normalize(ts).ok_or_else(|| format!("the generator made an IRI that the library refuses, in {text:?}"))?;
    let got = XmlReader::default().read_from_string(text).map_err(|e| format!("{text:?} is refused: {e}"))?;
    let got = rdfxml::canonical_literals(&from_lib_graph(&got)).map_err(|e| format!("an XML literal that is not XML: {e}; {text:?}"))?;
    same_graph(&lower_langs(&got), &lower_langs(&want), &format!("reading {text:?}"))?;
    ensure_eq!(got.len(), want.len(), "statements of {text:?}");
    Ok(())
}

/// Containers of very many members, with others in between and within, and a text and a value that are long.
fn long_containers(rng: &mut vmon::Rng, longest: bool) -> String {
    let n = if longest { rng.range(66_000, 70_000) } else { rng.range(300, 9_000) };
    let mut text = format!("<rdf:RDF xmlns:rdf='{RDF}' xmlns:ex='http://example.org/'>\n<rdf:Seq rdf:about='http://example.org/c'>\n");
    for k in 0..n {
        match rng.below(if longest { 400 } else { 40 }) {
            0 => text.push_str(&format!("<ex:p>{k}</ex:p>")),
            1 => text.push_str(&format!("<rdf:li><rdf:Bag rdf:about='http://example.org/b{k}'><rdf:li>a</rdf:li><rdf:li>b</rdf:li></rdf:Bag></rdf:li>")),
            2 => text.push_str(&format!("<rdf:li rdf:resource='http://example.org/r{k}'/>")),
            3 => text.push_str(&format!("<rdf:li xml:lang='en'>{k}</rdf:li>")),
            4 => text.push_str(&format!("<rdf:_{}>x</rdf:_{0}>", rng.range(1, 2 * n))),
            _ => text.push_str(&format!("<rdf:li>{k}</rdf:li>")),
        }
        if rng.chance(1, 10) {
            text.push('\n');
        }
    }
    text.push_str("</rdf:Seq>\n");
    let long = |rng: &mut vmon::Rng| {
        let word = rng.pick(&["a", "0123456789", "é", "word ", "x&lt;y", "&#x1F468;"]).to_string();
        word.repeat(rng.range(60_000, 140_000) / word.len())
    };
    let (a, b) = (long(rng), long(rng));
    text.push_str(&format!("<rdf:Description rdf:about='http://example.org/t' ex:q='{a}'><ex:p>{b}</ex:p></rdf:Description>\n</rdf:RDF>"));
    text
}

/// Are there relative references, other than by rdf:ID?
fn relative(e: &El) -> bool {
    e.attrs.iter().any(|(ns, l, v)| ((ns == RDF && ["about", "resource", "datatype", "type"].contains(&l.as_str())) || (ns == rdfxml::XML_NS && l == "base")) && !ttl::has_scheme(v))
        || e.children.iter().any(|n| matches!(n, Nd::El(x) if relative(x)))
}

/// The first language tag that is none.
fn bad_language(e: &El) -> Option<&str> {
    let bad = |v: &&str| !v.is_empty() && rdftk_core::model::literal::LanguageTag::parse(v).is_err();
    let here = e.attrs.iter().filter(|(ns, l, _)| ns == rdfxml::XML_NS && l == "lang").map(|a| a.2.as_str()).find(bad);
    here.or_else(|| e.children.iter().find_map(|n| if let Nd::El(x) = n { bad_language(x) } else { None }))
}

/// Is there an attribute without a namespace next to a parse type, where the reader reads no other attributes?
fn beside_parse_type(e: &El) -> bool {
    e.attrs.iter().any(|(ns, l, _)| ns == RDF && l == "parseType") && e.attrs.iter().any(|(ns, _, _)| ns.is_empty()) || e.children.iter().any(|n| matches!(n, Nd::El(x) if beside_parse_type(x)))
}

/// Are there attributes without a namespace, where the element is not the content of an XML literal?
fn unqualified(e: &El) -> bool {
    let literal = e.attrs.iter().any(|(ns, l, v)| ns == RDF && l == "parseType" && v != "Resource" && v != "Collection");
    e.attrs.iter().any(|(ns, l, _)| ns.is_empty() && !l.starts_with("xml")) || !literal && e.children.iter().any(|n| matches!(n, Nd::El(x) if unqualified(x)))
}

pub fn w06(r: &mut Runner) {
    r.rule("Documents generated from the RDF/XML grammar in all the forms the reader supports, and the W3C's tests; the statements read are compared with those an independent parser of XML and RDF/XML finds. Distinct by the document.");
    r.assume("Names of the RDF namespace where they have no meaning are not errors to the reader; attributes without a namespace are, also those that the grammar keeps for old documents. Relative IRI references other than rdf:ID are not supported by the reader, and neither are a document without rdf:RDF and rdf:ID without xml:base. XML literals are compared in canonical form. xml-rs does not turn raw carriage returns into line feeds, nor raw white space of an attribute into spaces: documents where that matters are not judged.");
    let n = r.n(16_000, 12);
    r.section("documents", n, |c| {
        let text = generate(c);
        let doc = rdfxml::parse(&text, None).unwrap_or_else(|e| panic!("the oracle refuses {text:?}: {e}"));
        judge_xml(&text, &doc.triples)?;
        for (k, v) in &doc.stats {
            c.count(k, *v as u64);
        }
        c.count("documents", 1);
        c.count("statements", doc.triples.len() as u64);
        if !doc.triples.is_empty() {
            c.distinct(&text);
        }
        c.sample(|| text.clone());
        Ok(())
    });
    let n = r.n(4, 2);
    r.section("long containers", n, |c| {
        let text = long_containers(&mut c.rng, c.index % 4 == 0);
        let doc = rdfxml::parse(&text, None).unwrap_or_else(|e| panic!("the oracle refuses a long container: {e}"));
        let want = normalize(&doc.triples).expect("IRIs the library accepts");
        let got = match XmlReader::default().read_from_string(&text) {
            Ok(g) => from_lib_graph(&g),
            Err(e) => fail!("a container of {} members is refused: {e}", want.len()),
        };
        same_graph(&lower_langs(&got), &lower_langs(&want), "reading a long container")?;
        ensure_eq!(got.len(), want.len(), "statements of a long container");
        c.count("members of long containers", want.len() as u64);
        c.distinct(&text.len());
        Ok(())
    });
    let n = r.n(16_000, 12);
    r.section("mutations", n, |c| {
        let text = generate(c);
        let text = crate::lines::mutate(&mut c.rng, &text);
        let got = XmlReader::default().read_from_string(&text);
        let root = rdfxml::parse_xml(&text);
        match root.and_then(|r| Ok((rdfxml::triples_of(&r, None)?, r))) {
            // xml-rs leaves the line ends of a text as they are (see the assumption above), and what a changed
            // document may be refused for (language tags, references) is wider than what this oracle checks.
            Ok((doc, root)) if got.is_ok() && root.local == "RDF" && !text.contains('\r') && !root.folded && !relative(&root) && plain_iris(&doc.triples) && normalize(&doc.triples).is_some() => {
                judge_xml(&text, &doc.triples)?;
                c.count("mutations accepted", 1);
            }
            Ok(_) => c.count("mutations not judged", 1),
            Err(_) if got.is_err() => c.count("mutations refused", 1),
            Err(e) => c.count(&format!("accepted: {}", e.chars().take(18).collect::<String>()), 1),
        }
        c.distinct(&text);
        Ok(())
    });
    let n = r.n(10_000, 12);
    r.section("syntax", n, |c| {
        let text = generate(c);
        let rdf = ["rdf:RDF", "r:RDF", "RDF:RDF"].into_iter().find(|q| text.contains(&format!("<{q}"))).expect("the root").split_once(':').unwrap().0;
        let from = loop {
            let q = |l: &str| format!("{rdf}:{l}");
            let t = match c.rng.below(16) {
                0 => q("RDF"),
                1 => q("Description"),
                2 => q("about"),
                3 => q("nodeID"),
                4 => q("ID"),
                5 => q("resource"),
                6 => q("datatype"),
                7 => q("parseType"),
                8 => q("li"),
                9 => q("type"),
                10 => "Collection".to_string(),
                11 => "Resource".to_string(),
                12 => "Literal".to_string(),
                13 => "xml:lang".to_string(),
                14 => "xml:base".to_string(),
                _ => RDF.to_string(),
            };
            if text.contains(&t) {
                break t;
            }
        };
        let (head, local) = match from.split_once(':') {
            Some((p, l)) if from != RDF => (format!("{p}:"), l.to_string()),
            _ => (String::new(), from.clone()),
        };
        const LOCALS: &[&str] = &["RDF", "Description", "about", "nodeID", "ID", "resource", "datatype", "parseType", "li", "type", "aboutEach", "bagID", "Seq", "lang", "base", "_1", "_0", "_01", "other"];
        let to = match c.rng.below(7) {
            0 => format!("{head}{}", local.to_lowercase()),
            1 => format!("{head}{}", local.to_uppercase()),
            2 => format!("{head}{}{}", local[..1].to_uppercase(), &local[1..]),
            3 => local.clone(),
            4 => format!("ex:{local}"),
            5 if !head.is_empty() => format!("{head}{}", c.rng.pick(LOCALS)),
            _ => format!("{head}{}", c.rng.pick(&[&local[..local.len() - 1], &format!("{local}s"), &format!("{local}2")])),
        };
        if from == to {
            return Ok(());
        }
        // everywhere, so that an element ends as it began; or in one place
        let text = if c.rng.chance(3, 4) {
            text.replace(&from, &to)
        } else {
            let places: Vec<usize> = text.match_indices(&from).map(|m| m.0).collect();
            let at = *c.rng.pick(&places);
            format!("{}{to}{}", &text[..at], &text[at + from.len()..])
        };
        let got = XmlReader::default().read_from_string(&text);
        let root = rdfxml::parse_xml(&text);
        let what = format!("{} for {}", to, from);
        if root.as_ref().is_ok_and(beside_parse_type) {
            c.count("syntax not judged", 1);
            return Ok(());
        }
        match root.and_then(|r| Ok((rdfxml::triples_of(&r, None)?, r))) {
            Ok((_, root)) if unqualified(&root) => {
                ensure!(got.is_err(), "{what}: an attribute without a namespace is read: {text:?}");
                c.count("syntax refused", 1);
            }
            Ok((_, root)) if bad_language(&root).is_some() => {
                // (when it is within an XML literal, it is no language of the reader's)
                c.count("syntax with a bad language", 1);
            }
            Ok((doc, root)) if root.local == "RDF" && root.ns == RDF && !root.folded && !relative(&root) && plain_iris(&doc.triples) && normalize(&doc.triples).is_some() => {
                judge_xml(&text, &doc.triples).map_err(|e| format!("{what}: {}", e.msg))?;
                c.count("syntax read", 1);
            }
            Ok((_, root)) if root.local != "RDF" || root.ns != RDF => {
                ensure!(got.is_err(), "{what}: without rdf:RDF: is read: {text:?}");
                c.count("syntax not supported", 1);
            }
            Ok(_) => c.count("syntax not judged", 1),
            Err(e) => {
                // the reader knows no names that have no meaning where they are, and lets them be properties or types
                let lenient = e.starts_with("rdf:") || e.starts_with("attributes next") || e.starts_with("a node element with") || e.starts_with("an empty property") || e.starts_with("the relative reference") || e.contains("between elements") || e.ends_with("of rdf:RDF");
                ensure!(got.is_err() || lenient, "{what}: {e}: is read: {text:?}");
                if got.is_ok() {
                    c.count("syntax in error, read", 1);
                }
                c.count("syntax refused", 1);
            }
        }
        c.distinct(&text);
        Ok(())
    });
    let n = r.n(8_000, 12);
    r.section("refused", n, |c| {
        const NODE: &str = "<rdf:Description rdf:about='http://example.org/x'/>";
        const NAMES: &[&str] = &["Description", "Seq", "Statement"];
        let e = if c.rng.chance(1, 4) {
            // a document cut in two, or with two ends changed about
            let text = generate(c);
            let end = text.rfind("RDF").expect("the end of the root");
            let mut cut = c.rng.below(end);
            while !text.is_char_boundary(cut) {
                cut -= 1;
            }
            let got = XmlReader::default().read_from_string(&text[..cut]);
            ensure!(got.is_err(), "a document cut after {cut} bytes of {end} is read: {:?}", &text[..cut]);
            c.count("refused: cut", 1);
            c.distinct(&text[..cut]);
            return Ok(());
        } else {
            c.rng.below(10)
        };
        // (in a property element or not, what cannot be there)
        let (name, in_property, bad): (&str, bool, String) = match e {
            0 => ("two elements in one property", true, format!("{NODE} {NODE}")),
            1 => ("text before an element", true, format!("text {NODE}")),
            2 => ("text after an element", true, format!("{NODE} text")),
            3 => ("element without a namespace", true, "<plain/>".to_string()),
            4 => ("property element without a namespace", false, "<plain>x</plain>".to_string()),
            5 => ("unbound prefix", false, "<unbound:p>x</unbound:p>".to_string()),
            6 => ("ends the wrong way about", false, "<ex:p><rdf:Description></ex:p></rdf:Description>".to_string()),
            7 => ("element in a property element with a resource", false, format!("<ex:p rdf:resource='http://example.org/y'>{NODE}</ex:p>")),
            8 => ("rdf:ID without a base", false, c.rng.pick(&["<ex:p rdf:ID='i'>x</ex:p>", "<ex:p><rdf:Description rdf:ID='i'/></ex:p>"]).to_string()),
            _ => ("what is no IRI", false, c.rng.pick(&["<ex:p rdf:resource='http://'/>", "<ex:p rdf:datatype='::'>x</ex:p>", "<ex:p><rdf:Description rdf:about='1:'/></ex:p>", "<ex:p rdf:nodeID='-a b'/>", "<ex:p xml:lang='-'>x</ex:p>"]).to_string()),
        };
        let fill = |c: &mut Case<'_>, of: &str| -> String {
            let mut t = String::new();
            for _ in 0..c.rng.range(0, 2) {
                t += match c.rng.below(3) {
                    0 => of,
                    1 => "<!-- c -->",
                    _ => "\n",
                };
            }
            t
        };
        let mut t = if in_property { format!("<ex:q>{bad}</ex:q>") } else { bad };
        // whether it is alone in its element or beside others, and how deep it is
        for _ in 0..c.rng.range(0, 4) {
            let n = c.rng.pick(NAMES);
            t = format!("{}{t}{}", fill(c, "<ex:p>x</ex:p>"), fill(c, "<rdf:li>x</rdf:li>"));
            t = match c.rng.below(3) {
                0 => format!("<ex:r rdf:parseType='Resource'>{t}</ex:r>"),
                1 => format!("<ex:r rdf:parseType='Collection'>{}<rdf:{n}>{t}</rdf:{n}></ex:r>", fill(c, NODE)),
                _ => format!("<ex:r><rdf:{n}>{t}</rdf:{n}></ex:r>"),
            };
        }
        t = format!("{}{t}{}", fill(c, "<ex:p>x</ex:p>"), fill(c, "<rdf:li>x</rdf:li>"));
        let text = format!(
            "<rdf:RDF xmlns:rdf='http://www.w3.org/1999/02/22-rdf-syntax-ns#' xmlns:ex='http://example.org/'>{}<rdf:Description>{t}</rdf:Description>{}</rdf:RDF>",
            fill(c, NODE),
            fill(c, NODE)
        );
        let got = XmlReader::default().read_from_string(&text);
        ensure!(got.is_err(), "{name}: is read: {text:?}");
        c.count(&format!("refused: {name}"), 1);
        c.distinct(&text);
        Ok(())
    });
    r.section_seq("XML literals", 2, |c| {
        let q = ["'", "\""][c.index as usize];
        let text = format!("<rdf:RDF xmlns:rdf='{RDF}' xmlns:ex='http://example.org/'><rdf:Description rdf:about='http://example.org/s'><ex:p rdf:parseType='Literal'><b c={q}d&#9;e{q}/></ex:p></rdf:Description></rdf:RDF>");
        let doc = rdfxml::parse(&text, None).unwrap_or_else(|e| panic!("the oracle refuses {text:?}: {e}"));
        c.count("XML literals", 1);
        judge_xml(&text, &doc.triples)
    });
    let files = crate::w3c::files("xml", "rdf");
    r.section("W3C", files.len() as u64, |c| {
        let p = &files[c.index as usize];
        let Some(text) = crate::w3c::text(p) else { return Ok(()) };
        let root = rdfxml::parse_xml(&text);
        match root.and_then(|r| Ok((rdfxml::triples_of(&r, None)?, r))) {
            Ok((doc, root)) if root.local == "RDF" && relative(&root) => {
                if XmlReader::default().read_from_string(&text).is_ok() {
                    judge_xml(&text, &doc.triples).map_err(|f| format!("{}: {}", p.display(), f.msg))?;
                }
                c.count("W3C, relative references", 1);
            }
            Ok((doc, root)) if root.local == "RDF" => {
                judge_xml(&text, &doc.triples).map_err(|f| format!("{}: {}", p.display(), f.msg))?;
                c.count("W3C documents", 1);
            }
            _ => {
                let _ = XmlReader::default().read_from_string(&text);
                c.count("W3C, not judged", 1);
            }
        }
        c.distinct(p);
        Ok(())
    });
    for e in ["cut", "two elements in one property", "text before an element", "text after an element", "element without a namespace", "property element without a namespace", "unbound prefix", "ends the wrong way about", "element in a property element with a resource", "rdf:ID without a base", "what is no IRI"] {
        r.require(&format!("refused: {e}"), 300);
    }
    for e in ["rdf:ID", "rdf:nodeID", "anonymous", "typed node", "property attribute", "reification", "rdf:li", "parseType Resource", "parseType Collection", "parseType Literal", "nested node", "rdf:datatype", "empty property element with attributes"] {
        r.require(e, 500);
    }
    for e in ["syntax read", "syntax refused", "syntax not supported"] {
        r.require(e, 400);
    }
    r.require("W3C documents", 60);
}
