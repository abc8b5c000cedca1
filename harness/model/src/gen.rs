//! Random graphs of the reference model.

use crate::{rdf, xsd, Lit, Node, Triple, OWL, RDFS};
use vmon::gen as vg;
use std::str::FromStr;
use vmon::Rng;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub max_statements: usize,
    pub lists: bool,
    pub nested: bool,
    /// Only predicates and types that RDF/XML can write as element names.
    pub xml_predicates: bool,
    /// Only text that XML can carry.
    pub xml_text: bool,
    pub language: bool,
    pub iris: usize,
    pub blanks: usize,
    /// Blank node labels that are valid XML NCNames.
    pub simple_blanks: bool,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            max_statements: 14,
            lists: false,
            nested: false,
            xml_predicates: false,
            xml_text: false,
            language: true,
            iris: 4,
            blanks: 4,
            simple_blanks: false,
        }
    }
}

pub const NAMESPACES: &[&str] = &[
    "http://example.org/",
    "http://example.org/ns#",
    "http://example.org/a/b/",
    "http://other.example/v1.0/",
    "urn:x:",
    "https://example.com/q?x=1#",
];

/// Prefixes for some of the namespaces.
pub const PREFIXES: &[(&str, &str)] = &[
    ("ex", "http://example.org/"),
    ("ns", "http://example.org/ns#"),
    ("ab", "http://example.org/a/b/"),
];

pub const LANGS: &[&str] = &["en", "en-US", "de", "zh-Hant-TW", "de-CH-1996", "sr-Latn", "x-private", "fr-CA", "es-419"];

/// A language tag of RFC 5646, in its recommended case, of one to all of the kinds of subtag it has.
pub fn lang_tag(rng: &mut Rng) -> String {
    fn some(rng: &mut Rng, of: &[u8], from: usize, to: usize) -> String {
        (0..rng.range(from, to)).map(|_| *rng.pick(of) as char).collect()
    }
    const ALPHA: &[u8] = b"abcdefghijklmnopqrstuvwxyz";
    const ANY: &[u8] = b"abcdefghijklmnopqrstuvwxyz0123456789";
    if rng.chance(1, 2) {
        return rng.pick(LANGS).to_string();
    }
    let private = |rng: &mut Rng| {
        let mut s = "x".to_string();
        for _ in 0..rng.range(1, 3) {
            s += &format!("-{}", some(rng, ANY, 1, 8));
        }
        s
    };
    if rng.chance(1, 8) {
        return private(rng);
    }
    let mut s = some(rng, ALPHA, 2, 3);
    if rng.chance(1, 6) {
        s += &format!("-{}", some(rng, ALPHA, 3, 3));
    }
    if rng.chance(1, 4) {
        let t = some(rng, ALPHA, 4, 4);
        s += &format!("-{}{}", t[..1].to_uppercase(), &t[1..]);
    }
    if rng.chance(1, 3) {
        s += &if rng.bool() { format!("-{}", some(rng, ALPHA, 2, 2).to_uppercase()) } else { format!("-{}", some(rng, b"0123456789", 3, 3)) };
    }
    let mut used: Vec<String> = vec![];
    for _ in 0..rng.below(3) {
        let v = if rng.chance(1, 4) { format!("{}{}", rng.pick(&["1", "9"]), some(rng, ANY, 3, 3)) } else { some(rng, ANY, 5, 8) };
        if !used.contains(&v) {
            s += &format!("-{v}");
            used.push(v);
        }
    }
    for singleton in ["a", "u", "0"] {
        if rng.chance(1, 8) {
            s += &format!("-{singleton}");
            for _ in 0..rng.range(1, 2) {
                s += &format!("-{}", some(rng, ANY, 2, 8));
            }
        }
    }
    if rng.chance(1, 4) {
        s += &format!("-{}", private(rng));
    }
    s
}

/// The pool one graph draws its terms from.
pub struct Pool {
    pub iris: Vec<String>,
    pub preds: Vec<String>,
    pub blanks: Vec<String>,
    pub cfg: Cfg,
}

fn local(rng: &mut Rng) -> String {
    vg::pn_local(rng, true)
}

/// A name that is valid as an XML element name.
pub fn nc_name(rng: &mut Rng) -> String {
    let n = rng.range(1, 7);
    let mut s = String::new();
    for i in 0..n {
        s.push(*rng.pick(if i == 0 { b"abcdEFGH_z" } else { b"abc-_.9Z12" }) as char);
    }
    s.trim_end_matches(['.', '-']).to_string()
}

pub fn some_iri(rng: &mut Rng) -> String {
    let s = match rng.below(8) {
        6 if rng.chance(1, 3) => match rng.below(4) {
            0 => format!("{RDFS}{}", rng.pick(&["Resource", "Class", "Literal", "member", "label"])),
            1 => xsd(rng.pick(&["string", "integer", "anyURI", "boolean", "dayTimeDuration"])),
            2 => format!("{OWL}{}", rng.pick(&["Class", "Thing", "Ontology", "sameAs"])),
            _ => rdf(rng.pick(&["nil", "List", "first", "rest", "Statement", "subject", "object", "Bag", "Seq", "type", "Property", "langString", "XMLLiteral", "HTML", "li", "_1", "Description", "about"])),
        },
        0 => vg::iri(rng),
        1 => format!("{}{}", rng.pick(NAMESPACES), nc_name(rng)),
        2 => rng.pick(NAMESPACES).to_string() + if rng.bool() { "" } else { "x/y" },
        3 => format!("http://example.org/{}/{}", local(rng), rng.pick(&["a-b", "1", "x.y", "a%20b", "(z)", "a,b", "q?r=s&t=u"])),
        // characters that the URL parser keeps, and IRIREF does not allow
        5 if rng.chance(1, 3) => format!("{}{}", rng.pick(&["urn:x/", "ex:/a/", "http://example.org/", "http://example.org/ns#", "file:///a/"]), rng.pick(&["a:b", "./x", "../x", "a/../b", "x:y/z", "//x", "", ".", "?x", "#x", "a//b", "%2E%2E/x", "..x", "1:2", "//[x"])),
        // as a name with a prefix looks
        7 if rng.chance(1, 8) => format!("{}:{}", rng.pick(&["xsd", "rdf", "rdfs", "owl", "ex", "x-y", "base", "prefix", "a"]), rng.pick(&["string", "integer", "type", "label", "nil", "a", "Thing", "first", "1", ""])),
        4 => format!("http://example.org/p?{}#{}", rng.pick(&["a|b", "a{b}", "a^b", "`"]), rng.pick(&["x", "a|b", "{}"])),
        _ => format!("{}{}", rng.pick(&NAMESPACES[..3]), local(rng)),
    };
    // in normal form
    rdftk_iri::Iri::from_str(&s).map(|i| format!("{i:#}")).unwrap_or(s)
}

pub fn predicate(rng: &mut Rng, xml: bool) -> String {
    match rng.below(10) {
        0 => rdf("type"),
        1 => format!("{RDFS}{}", rng.pick(&["label", "comment", "seeAlso", "subClassOf", "subPropertyOf", "domain", "range"])),
        2 => format!("{OWL}{}", rng.pick(&["sameAs", "imports", "onProperty"])),
        3 => rdf(rng.pick(&["value", "_1", "_2", "_12", "first", "rest", "subject", "predicate", "object"])),
        _ if xml => format!("{}{}", rng.pick(&NAMESPACES[..4]), nc_name(rng)),
        4 => some_iri(rng),
        _ => format!("{}{}", rng.pick(&NAMESPACES[..4]), local(rng)),
    }
}

/// One of the labels that the library is going to generate next.
pub fn next_label(rng: &mut Rng) -> String {
    let made = rdftk_core::model::statement::BlankNode::generate();
    match made.as_ref().strip_prefix('B').and_then(|n| n.parse::<u64>().ok()) {
        Some(n) => format!("B{}", n + rng.below(40) as u64 + 1),
        None => made.as_ref().to_string(),
    }
}

/// Another IRI, that looks much like this one.
pub fn near_iri(rng: &mut Rng, iri: &str) -> String {
    let mut s = iri.to_string();
    match rng.below(4) {
        0 => match rng.below(8) {
            0 => s.push('#'),
            1 => s.push('/'),
            2 => s.push('?'),
            3 => s = s.trim_end_matches(['/', '#']).to_string(),
            4 => s = s.replacen("http:", "https:", 1),
            5 => s = s.replacen("://", "://u@", 1),
            6 => s = s.replacen("example.org", "example.org:8080", 1),
            _ => s = s.replacen('/', "//", 4),
        },
        // the case of any letter of it
        1 => {
            let at = rng.below(s.len().max(1));
            s = s.char_indices().map(|(i, c)| if i != at { c } else if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
        }
        _ => match s.pop() {
            Some(c) if c.is_ascii_lowercase() && rng.chance(2, 3) => s.push(c.to_ascii_uppercase()),
            Some(c) if c.is_ascii_uppercase() && rng.chance(2, 3) => s.push(c.to_ascii_lowercase()),
            Some(c) => s.extend([c, *rng.pick(&['a', '0', '_'])]),
            None => {}
        },
    }
    match rdftk_iri::Iri::from_str(&s) {
        Ok(i) if format!("{i:#}") == s => s,
        _ => iri.to_string(),
    }
}

/// Another label, that looks much like this one.
pub fn near_label(rng: &mut Rng, label: &str) -> String {
    let case = |c: char| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
    match rng.below(6) {
        3 => format!("_{label}"),
        4 => format!("__{label}"),
        0 if label.chars().any(|c| c.is_ascii_alphabetic()) => label.chars().map(case).collect(),
        1 => format!("{label}-"),
        2 => format!("{label}_"),
        _ => format!("{label}0"),
    }
}

/// Another text, that looks much like this one.
fn near_text(rng: &mut Rng, text: &str) -> String {
    let chars: Vec<char> = text.chars().collect();
    let at = rng.below(chars.len().max(1));
    match rng.below(14) {
        0 => format!("{text} "),
        1 => format!(" {text}"),
        2 => format!("{text}\\"),
        3 if text.is_ascii() && text.to_uppercase() != text => text.to_uppercase(),
        4 if text.contains('\n') => text.replace('\n', "\\n"),
        4 if text.contains('"') => text.replace('"', "\\\""),
        // one character of it: its case, another, none, twice
        5 | 6 => chars.iter().enumerate().flat_map(|(i, c)| if i == at { swap_case(*c) } else { vec![*c] }).collect(),
        7 if !chars.is_empty() => chars.iter().enumerate().map(|(i, c)| if i == at { *rng.pick(&['0', ' ', '\u{e9}', '\t', '\0']) } else { *c }).collect(),
        8 if !chars.is_empty() => chars.iter().enumerate().filter(|(i, _)| *i != at).map(|(_, c)| *c).collect(),
        9 if !chars.is_empty() => chars.iter().enumerate().flat_map(|(i, c)| vec![*c; if i == at { 2 } else { 1 }]).collect(),
        10 => chars.iter().rev().collect(),
        11 => format!("{text}\n"),
        12 => text.trim().to_string(),
        _ => format!("{text}0"),
    }
}

/// The same text, in a language that is a kind of this one, or of which this is one.
fn near_language(rng: &mut Rng, l: &Lit) -> Lit {
    let tag = l.lang.clone().unwrap_or_default();
    let other = match tag.rsplit_once('-') {
        Some((shorter, _)) if rng.bool() => shorter.to_string(),
        _ => format!("{tag}-{}", rng.pick(&["GB", "x-a", "Latn"])),
    };
    match rdftk_core::model::literal::LanguageTag::parse(&other) {
        Ok(tag) => Lit::lang(&l.value, &tag.to_string()),
        Err(_) => l.clone(),
    }
}

fn swap_case(c: char) -> Vec<char> {
    if c.is_lowercase() { c.to_uppercase().collect() } else { c.to_lowercase().collect() }
}

impl Pool {
    /// Another term that looks much like this one, and of the same kind.
    pub fn near(&self, rng: &mut Rng, node: &Node) -> Node {
        match node {
            Node::Iri(i) => Node::Iri(near_iri(rng, i)),
            Node::Blank(b) => Node::Blank(near_label(rng, b)),
            Node::Lit(l) => Node::Lit(match rng.below(6) {
                0 | 4 | 5 => {
                    let t = near_text(rng, &l.value);
                    let value = if self.cfg.xml_text { t.chars().filter(|&c| vg::is_xml_char(c)).collect() } else { t };
                    Lit { value, ..l.clone() }
                }
                1 if self.cfg.language && l.lang.is_some() && rng.bool() => near_language(rng, l),
                1 if self.cfg.language && l.lang.is_some() => Lit::lang(&l.value, &lang_tag(rng)),
                2 => Lit::plain(&l.value),
                _ => Lit::typed(&l.value, &xsd(rng.pick(&["string", "int", "byte", "long", "short", "float", "integer", "double", "decimal", "boolean", "anyURI"]))),
            }),
            Node::List(vs) => {
                let mut vs = vs.clone();
                let at = rng.below(vs.len() + 1);
                match rng.below(4) {
                    0 if at < vs.len() => {
                        vs.remove(at);
                    }
                    1 if at < vs.len() => {
                        let again = vs[at].clone();
                        vs.push(again);
                    }
                    2 => vs.reverse(),
                    _ if at < vs.len() => vs[at] = self.near(rng, &vs[at].clone()),
                    _ => vs.push(Node::List(vec![])),
                }
                Node::List(vs)
            }
            Node::Triple(t) => Node::Triple(Box::new(self.near_triple(rng, t))),
        }
    }

    /// Another statement, of which one term differs a little.
    pub fn near_triple(&self, rng: &mut Rng, t: &Triple) -> Triple {
        match rng.below(5) {
            0 => Triple { p: near_iri(rng, &t.p), ..t.clone() },
            1 | 2 => Triple { s: self.near(rng, &t.s), ..t.clone() },
            _ => Triple { o: self.near(rng, &t.o), ..t.clone() },
        }
    }

    pub fn new(rng: &mut Rng, cfg: &Cfg) -> Pool {
        let iris = (0..rng.range(1, cfg.iris.max(1))).map(|_| some_iri(rng)).collect();
        let preds = (0..rng.range(1, cfg.iris.max(4))).map(|_| predicate(rng, cfg.xml_predicates)).collect();
        let mut blanks = Vec::new();
        // sometimes with labels of the form that the library is about to generate
        let generated = rng.chance(1, 5);
        for i in 0..rng.range(0, cfg.blanks) {
            blanks.push(if generated && rng.bool() {
                next_label(rng)
            } else if cfg.simple_blanks || rng.chance(2, 3) {
                format!("n{i}{}", rng.pick(&["", "a", "_x", "-9"]))
            } else {
                let ascii = rng.chance(2, 3);
                format!("{}z{i}", vg::pn_local(rng, ascii))
            });
        }
        let (mut iris, mut preds): (Vec<String>, Vec<String>) = (iris, preds);
        // and some that are much alike
        for v in [&mut iris, &mut preds] {
            if rng.chance(1, 8) {
                let like = rng.pick(v).clone();
                v.push(near_iri(rng, &like));
            }
        }
        if !blanks.is_empty() && rng.chance(1, 8) {
            let like = rng.pick(&blanks).clone();
            blanks.push(near_label(rng, &like));
        }
        Pool { iris, preds, blanks, cfg: cfg.clone() }
    }

    pub fn text(&self, rng: &mut Rng) -> String {
        let t = vg::text(rng);
        if self.cfg.xml_text {
            t.chars().filter(|&c| vg::is_xml_char(c)).collect()
        } else {
            t
        }
    }

    pub fn literal(&self, rng: &mut Rng) -> Lit {
        match rng.below(10) {
            0..=2 => Lit::plain(&self.text(rng)),
            3 if self.cfg.language => Lit::lang(&self.text(rng), &lang_tag(rng)),
            4 => Lit::typed(&self.text(rng), &xsd("string")),
            5..=7 => typed_value(rng),
            8 => {
                let dts = crate::known_data_types();
                let dt = rng.pick(&dts).1.clone();
                Lit::typed(&self.text(rng), &dt)
            }
            _ => Lit::typed(&self.text(rng), &some_iri(rng)),
        }
    }

    pub fn subject(&self, rng: &mut Rng, depth: usize) -> Node {
        if self.cfg.nested && depth > 0 && rng.chance(1, 8) {
            return Node::Triple(Box::new(self.triple(rng, depth - 1)));
        }
        if !self.blanks.is_empty() && rng.chance(1, 2) {
            Node::Blank(rng.pick(&self.blanks).clone())
        } else {
            Node::Iri(rng.pick(&self.iris).clone())
        }
    }

    pub fn object(&self, rng: &mut Rng, depth: usize) -> Node {
        if depth > 0 {
            if self.cfg.lists && rng.chance(1, 7) {
                let n = if rng.chance(1, 60) { if rng.chance(1, 40) { rng.range(60, 300) } else { rng.range(9, 40) } } else { *rng.pick(&[0, 1, 1, 2, 3, 5]) };
                return Node::List((0..n).map(|_| self.object(rng, if n > 8 { 0 } else { depth - 1 })).collect());
            }
            if self.cfg.nested && rng.chance(1, 8) {
                return Node::Triple(Box::new(self.triple(rng, depth - 1)));
            }
        }
        match rng.below(5) {
            0 | 1 => Node::Lit(self.literal(rng)),
            2 | 3 if !self.blanks.is_empty() => Node::Blank(rng.pick(&self.blanks).clone()),
            _ => Node::Iri(if rng.chance(1, 8) { some_iri(rng) } else { rng.pick(&self.iris).clone() }),
        }
    }

    pub fn triple(&self, rng: &mut Rng, depth: usize) -> Triple {
        Triple {
            s: self.subject(rng, depth),
            p: rng.pick(&self.preds).clone(),
            o: self.object(rng, depth),
        }
    }

    pub fn triples(&self, rng: &mut Rng) -> Vec<Triple> {
        let n = match rng.below(10) {
            0 => 0,
            1 => 1,
            _ => rng.range(1, self.cfg.max_statements),
        };
        let mut v: Vec<Triple> = Vec::new();
        for _ in 0..n {
            if !v.is_empty() && rng.chance(1, 12) {
                let again = rng.pick(&v).clone();
                v.push(again);
            } else if !v.is_empty() && rng.chance(1, 10) {
                let like = rng.pick(&v).clone();
                v.push(self.near_triple(rng, &like));
            } else {
                let depth = rng.range(0, 3);
                v.push(self.triple(rng, depth));
            }
        }
        v
    }
}

/// Values of the data types of XML Schema that are not numbers.
const OTHER_VALUES: &[(&str, &[&str])] = &[
    ("language", &["en", "en-US", "de-ch", "x-a", "a b", ""]),
    ("anyURI", &["http://example.org/", "urn:x:y", "x", "a b", "", "<http://example.org/>"]),
    ("QName", &["ex:a", "a", "ns:type", "1"]),
    ("Name", &["ex:a", "a", "_"]),
    ("NCName", &["a", "_b"]),
    ("NMTOKEN", &["a", "1-2"]),
    ("token", &["a b", "a"]),
    ("normalizedString", &["a b", " a", "a\tb"]),
    ("unsignedInt", &["0", "4294967295", "007"]),
    ("unsignedShort", &["0", "65535"]),
    ("unsignedByte", &["0", "255", "256"]),
    ("nonNegativeInteger", &["0", "7"]),
    ("positiveInteger", &["1", "18446744073709551616"]),
    ("nonPositiveInteger", &["0", "-7"]),
    ("negativeInteger", &["-1"]),
    ("date", &["2020-02-29", "2020-02-29Z", "-0044-03-15", "x"]),
    ("dateTime", &["2020-02-29T12:00:00", "2020-02-29T12:00:00.000Z", "2020-02-29T24:00:00+14:00"]),
    ("dateTimeStamp", &["2020-02-29T12:00:00Z"]),
    ("time", &["12:00:00", "12:00:00.5Z"]),
    ("gYear", &["2020"]),
    ("gMonth", &["--02"]),
    ("gDay", &["---29"]),
    ("gYearMonth", &["2020-02"]),
    ("gMonthDay", &["--02-29"]),
    ("duration", &["P1D", "-P1Y2M3DT4H5M6.7S", "PT0S"]),
    ("yearMonthDuration", &["P1Y2M"]),
    ("dayTimeDuration", &["P1DT2H"]),
    ("hexBinary", &["00ff", "FF", "f"]),
    ("base64Binary", &["AAECAw==", "x"]),
];

/// A literal whose lexical form is valid for its data type, mostly.
/// What is, or nearly is, a number: signs, digits, period and exponent, or some of them, short or long.
fn numeral(rng: &mut Rng) -> String {
    let digits = |rng: &mut Rng| {
        let n = match rng.below(8) {
            0 => 0,
            7 if rng.chance(1, 20) => rng.range(60, 400),
            7 => rng.range(12, 45),
            _ => rng.range(1, 4),
        };
        let zeros = rng.chance(1, 5);
        (0..n).map(|_| if zeros { '0' } else { (b'0' + rng.below(10) as u8) as char }).collect::<String>()
    };
    let sign = |rng: &mut Rng| *rng.pick(&["", "", "", "-", "+"]);
    let mut s = format!("{}{}", sign(rng), digits(rng));
    if rng.chance(2, 3) {
        s.push('.');
        s.push_str(&digits(rng));
    }
    if rng.bool() {
        s.push(*rng.pick(&['e', 'E']));
        s.push_str(sign(rng));
        s.push_str(&digits(rng));
    }
    match rng.below(24) {
        0 => s.insert(0, ' '),
        1 => s.push(*rng.pick(&[' ', '\n', 'f', '.', '-', '\u{660}'])),
        2 => s.insert(rng.below(s.len() + 1), *rng.pick(&['_', '-', '+', ',', '.', 'e'])),
        _ => {}
    }
    s
}

pub fn typed_value(rng: &mut Rng) -> Lit {
    if rng.chance(1, 4) {
        let dt = *rng.pick(&["decimal", "decimal", "double", "double", "float", "integer", "long", "unsignedByte", "nonNegativeInteger"]);
        return Lit::typed(&numeral(rng), &xsd(dt));
    }
    let (dt, v): (&str, String) = match rng.below(14) {
        0 => ("boolean", rng.pick(&["true", "false", "1", "0"]).to_string()),
        1 => ("integer", format!("{}", rng.u64() as i64)),
        2 => ("decimal", rng.pick(&["1.0", "-3.14", "+2.50", "0.0", "12", ".5", "5."]).to_string()),
        3 => ("double", rng.pick(&["1.0E0", "-1.5e-10", "INF", "-INF", "NaN", "3", "2.5", "1e6", "+1.0E+3"]).to_string()),
        4 => ("float", rng.pick(&["1.5", "INF", "-0", "1e3"]).to_string()),
        5 => ("long", format!("{}", rng.u64() as i64)),
        6 => ("int", format!("{}", rng.u64() as i32)),
        7 => ("short", format!("{}", rng.u64() as i16)),
        8 => ("byte", rng.pick(&["-128", "127", "0", "007", "+5", "abc", ""]).to_string()),
        9 => ("unsignedLong", format!("{}", rng.u64())),
        10 => ("dateTime", "2020-02-29T12:00:00Z".into()),
        _ => {
            let (dt, vs) = rng.pick(OTHER_VALUES);
            if rng.chance(1, 6) {
                // a value of another type
                let (_, vs) = rng.pick(OTHER_VALUES);
                (*dt, rng.pick(vs).to_string())
            } else {
                (*dt, rng.pick(vs).to_string())
            }
        }
    };
    Lit::typed(&v, &xsd(dt))
}
