//! A strict parser of Turtle and TriG, from the grammars of the W3C recommendations.

use crate::nt::{P, R};
use crate::{rdf, xsd, Lit, Node, Triple};
use std::collections::BTreeMap;

pub struct T<'a> {
    p: P<'a>,
    base: Option<String>,
    pub prefixes: BTreeMap<String, String>,
    graph: Option<Node>,
    out: Vec<(Triple, Option<Node>)>,
    fresh: usize,
    pub stats: Stats,
}

/// What the document was made of.
#[derive(Default, Debug, Clone)]
pub struct Stats {
    pub anon: usize,
    pub property_lists: usize,
    pub collections: usize,
    pub prefixed: usize,
    pub relative: usize,
    pub bare: usize,
    pub a: usize,
    pub graphs: usize,
}

impl<'a> T<'a> {
    fn ws(&mut self) {
        loop {
            match self.p.peek() {
                Some(' ' | '\t' | '\n' | '\r') => self.p.i += 1,
                Some('#') => {
                    while !matches!(self.p.peek(), None | Some('\n' | '\r')) {
                        self.p.i += 1;
                    }
                }
                _ => return,
            }
        }
    }
    fn punct(&mut self, t: &str) -> R<()> {
        self.ws();
        if self.p.eat(t) {
            Ok(())
        } else {
            self.p.err(t)
        }
    }
    fn at_punct(&mut self, t: &str) -> bool {
        self.ws();
        self.p.at(t)
    }
    fn new_blank(&mut self, kind: &str) -> Node {
        self.fresh += 1;
        Node::Blank(format!("{kind}#{}", self.fresh))
    }
    fn emit(&mut self, s: &Node, p: &str, o: Node) {
        self.out.push((Triple { s: s.clone(), p: p.to_string(), o }, self.graph.clone()));
    }
    fn name_char(c: Option<char>) -> bool {
        c.is_some_and(|c| vmon::gen::pn_chars(c) || c == ':')
    }
    /// A keyword that is not the start of a longer name.
    fn keyword(&mut self, k: &str, ignore_case: bool) -> bool {
        let n = k.chars().count();
        if self.p.i + n > self.p.s.len() {
            return false;
        }
        let word: String = self.p.s[self.p.i..self.p.i + n].iter().collect();
        let same = if ignore_case { word.eq_ignore_ascii_case(k) } else { word == k };
        if same && !Self::name_char(self.p.s.get(self.p.i + n).copied()) {
            self.p.i += n;
            return true;
        }
        false
    }
    fn iriref(&mut self) -> R<String> {
        let r = self.p.iriref()?;
        if has_scheme(&r) {
            return Ok(r);
        }
        self.stats.relative += 1;
        match &self.base {
            Some(b) => Ok(resolve(b, &r)),
            None => Err(format!("the relative reference <{r}> without a base")),
        }
    }
    /// PNAME_NS without its ':'; None if there is none here.
    fn pname_ns(&mut self) -> Option<String> {
        let mut k = self.p.i;
        let get = |k: usize| self.p.s.get(k).copied();
        if get(k) != Some(':') {
            if !get(k).is_some_and(vmon::gen::pn_chars_base) {
                return None;
            }
            while get(k).is_some_and(|c| c == '.' || vmon::gen::pn_chars(c)) {
                k += 1;
            }
            if get(k) != Some(':') || get(k - 1) == Some('.') {
                return None;
            }
        }
        let s: String = self.p.s[self.p.i..k].iter().collect();
        self.p.i = k + 1;
        Some(s)
    }
    fn pn_local(&mut self) -> R<String> {
        let mut out = String::new();
        let mut dots = 0;
        let mut first = true;
        while let Some(c) = self.p.peek() {
            if c == '.' && !first {
                dots += 1;
                self.p.i += 1;
                continue;
            }
            let add = match c {
                '%' => {
                    let hex: String = self.p.s[self.p.i + 1..(self.p.i + 3).min(self.p.s.len())].iter().collect();
                    if hex.len() != 2 || !hex.chars().all(|c| c.is_ascii_hexdigit()) {
                        return self.p.err("percent escape in a local name");
                    }
                    self.p.i += 3;
                    format!("%{hex}")
                }
                '\\' => {
                    let e = self.p.s.get(self.p.i + 1).copied();
                    match e {
                        Some(e) if "_~.-!$&'()*+,;=/?#@%".contains(e) => {
                            self.p.i += 2;
                            e.to_string()
                        }
                        _ => return self.p.err("local name escape"),
                    }
                }
                c if c == ':' || c == '_' || c.is_ascii_digit() || vmon::gen::pn_chars_base(c) || (!first && vmon::gen::pn_chars(c)) => {
                    self.p.i += 1;
                    c.to_string()
                }
                _ => break,
            };
            out.extend(std::iter::repeat_n('.', dots));
            dots = 0;
            out.push_str(&add);
            first = false;
        }
        self.p.i -= dots;
        Ok(out)
    }
    fn iri(&mut self) -> R<String> {
        self.ws();
        if self.p.peek() == Some('<') {
            return self.iriref();
        }
        let Some(prefix) = self.pname_ns() else { return self.p.err("IRI") };
        let local = self.pn_local()?;
        self.stats.prefixed += 1;
        match self.prefixes.get(&prefix) {
            Some(ns) => Ok(format!("{ns}{local}")),
            None => Err(format!("the prefix {prefix:?} is not declared")),
        }
    }
    fn blank(&mut self) -> R<Node> {
        if self.p.s.get(self.p.i + 2) == Some(&':') {
            return self.p.err("first character of a blank node label");
        }
        let mark = self.p.i;
        let mut b = self.p.blank()?;
        // PN_CHARS of Turtle has no ':', which starts what follows
        if let Some(k) = b.find(':') {
            b.truncate(k);
            let dots = b.len() - b.trim_end_matches('.').len();
            b.truncate(k - dots);
            self.p.i = mark + 2 + b.chars().count();
        }
        Ok(Node::Blank(b))
    }
    fn string(&mut self) -> R<String> {
        for q in ["\"\"\"", "'''"] {
            if self.p.eat(q) {
                let mut body = String::new();
                while !self.p.at(q) {
                    let Some(c) = self.p.peek() else { return self.p.err(q) };
                    self.p.i += 1;
                    body.push(c);
                    if c == '\\' {
                        let Some(c) = self.p.peek() else { return self.p.err("escape") };
                        self.p.i += 1;
                        body.push(c);
                    }
                }
                self.p.i += 3;
                return unescape(&body);
            }
        }
        if self.p.peek() == Some('\'') {
            self.p.i += 1;
            let mut body = String::new();
            loop {
                let Some(c) = self.p.peek() else { return self.p.err("'") };
                self.p.i += 1;
                match c {
                    '\'' => return unescape(&body),
                    '\n' | '\r' => return self.p.err("a character of STRING_LITERAL_SINGLE_QUOTE"),
                    '\\' => {
                        body.push(c);
                        let Some(c) = self.p.peek() else { return self.p.err("escape") };
                        self.p.i += 1;
                        body.push(c);
                    }
                    c => body.push(c),
                }
            }
        }
        self.p.string()
    }
    fn number(&mut self) -> R<Node> {
        let at = |k: usize| self.p.s.get(k).copied();
        let digits = |mut k: usize| {
            let s = k;
            while at(k).is_some_and(|c| c.is_ascii_digit()) {
                k += 1;
            }
            (k - s, k)
        };
        let start = self.p.i;
        let mut k = start;
        if matches!(at(k), Some('+' | '-')) {
            k += 1;
        }
        let (whole, after_whole) = digits(k);
        let mut end = after_whole;
        let mut kind = "integer";
        if whole == 0 && at(end) != Some('.') {
            return self.p.err("number");
        }
        let mut mantissa_end = after_whole;
        let mut fraction = 0;
        if at(after_whole) == Some('.') {
            let (n, e) = digits(after_whole + 1);
            fraction = n;
            mantissa_end = e;
            if n > 0 {
                end = e;
                kind = "decimal";
            }
        }
        if whole + fraction > 0 && matches!(at(mantissa_end), Some('e' | 'E')) {
            let mut e = mantissa_end + 1;
            if matches!(at(e), Some('+' | '-')) {
                e += 1;
            }
            let (n, e2) = digits(e);
            if n > 0 {
                end = e2;
                kind = "double";
            }
        }
        if whole == 0 && fraction == 0 {
            return self.p.err("number");
        }
        self.p.i = end;
        if Self::name_char(self.p.peek()) {
            return self.p.err("end of a number");
        }
        let v: String = self.p.s[start..end].iter().collect();
        self.stats.bare += 1;
        Ok(Node::Lit(Lit::typed(&v, &xsd(kind))))
    }
    fn object(&mut self) -> R<Node> {
        self.ws();
        match self.p.peek() {
            Some('_') => self.blank(),
            Some('(') => self.collection(),
            Some('[') => self.property_list_or_anon().map(|(n, _)| n),
            Some('"' | '\'') => {
                let value = self.string()?;
                if self.p.eat("@") {
                    Ok(Node::Lit(Lit { value, dt: None, lang: Some(self.p.langtag()?) }))
                } else if self.p.eat("^^") {
                    let dt = self.iri()?;
                    Ok(Node::Lit(Lit { value, dt: Some(dt), lang: None }))
                } else {
                    Ok(Node::Lit(Lit { value, dt: None, lang: None }))
                }
            }
            Some('+' | '-' | '.' | '0'..='9') => self.number(),
            _ => {
                for b in ["true", "false"] {
                    if self.keyword(b, false) {
                        self.stats.bare += 1;
                        return Ok(Node::Lit(Lit::typed(b, &xsd("boolean"))));
                    }
                }
                Ok(Node::Iri(self.iri()?))
            }
        }
    }
    fn collection(&mut self) -> R<Node> {
        self.punct("(")?;
        self.stats.collections += 1;
        let mut cells: Vec<Node> = Vec::new();
        while !self.at_punct(")") {
            let o = self.object()?;
            let cell = self.new_blank("list");
            if let Some(last) = cells.last().cloned() {
                self.emit(&last, &rdf("rest"), cell.clone());
            }
            self.emit(&cell, &rdf("first"), o);
            cells.push(cell);
        }
        self.punct(")")?;
        match (cells.first().cloned(), cells.last().cloned()) {
            (Some(first), Some(last)) => {
                self.emit(&last, &rdf("rest"), Node::Iri(rdf("nil")));
                Ok(first)
            }
            _ => Ok(Node::Iri(rdf("nil"))),
        }
    }
    /// The node, and whether it had properties.
    fn property_list_or_anon(&mut self) -> R<(Node, bool)> {
        self.punct("[")?;
        let b = self.new_blank("anon");
        if self.at_punct("]") {
            self.punct("]")?;
            self.stats.anon += 1;
            return Ok((b, false));
        }
        self.stats.property_lists += 1;
        self.predicate_object_list(&b)?;
        self.punct("]")?;
        Ok((b, true))
    }
    fn predicate_object_list(&mut self, s: &Node) -> R<()> {
        loop {
            self.ws();
            let p = if self.keyword("a", false) {
                self.stats.a += 1;
                rdf("type")
            } else {
                self.iri()?
            };
            loop {
                let o = self.object()?;
                self.emit(s, &p, o);
                if !self.at_punct(",") {
                    break;
                }
                self.punct(",")?;
            }
            let mut more = false;
            while self.at_punct(";") {
                self.punct(";")?;
                more = true;
            }
            self.ws();
            if !more || matches!(self.p.peek(), None | Some('.' | ']' | '}')) {
                return Ok(());
            }
        }
    }
    fn directive(&mut self) -> R<bool> {
        self.ws();
        let (prefix, sparql) = if self.p.eat("@prefix") {
            (true, false)
        } else if self.p.eat("@base") {
            (false, false)
        } else if self.keyword("PREFIX", true) {
            (true, true)
        } else if self.keyword("BASE", true) {
            (false, true)
        } else {
            return Ok(false);
        };
        self.ws();
        if prefix {
            let Some(name) = self.pname_ns() else { return self.p.err("prefix") };
            self.ws();
            let i = self.iriref()?;
            self.prefixes.insert(name, i);
        } else {
            let i = self.iriref()?;
            self.base = Some(i);
        }
        if !sparql {
            self.punct(".")?;
        }
        Ok(true)
    }
    /// Triples without their '.'.
    fn triples(&mut self) -> R<()> {
        self.ws();
        let s = match self.p.peek() {
            Some('[') => {
                let (n, full) = self.property_list_or_anon()?;
                self.ws();
                if full && matches!(self.p.peek(), None | Some('.' | '}')) {
                    return Ok(());
                }
                n
            }
            Some('(') => self.collection()?,
            Some('_') => self.blank()?,
            _ => Node::Iri(self.iri()?),
        };
        self.predicate_object_list(&s)
    }
    fn wrapped_graph(&mut self, name: Option<Node>) -> R<()> {
        self.stats.graphs += 1;
        self.punct("{")?;
        self.graph = name;
        while !self.at_punct("}") {
            self.triples()?;
            if !self.at_punct("}") {
                self.punct(".")?;
            }
        }
        self.punct("}")?;
        self.graph = None;
        Ok(())
    }
    fn document(&mut self, trig: bool) -> R<()> {
        loop {
            self.ws();
            if self.p.peek().is_none() {
                return Ok(());
            }
            if self.directive()? {
                continue;
            }
            if trig {
                if self.at_punct("{") {
                    self.wrapped_graph(None)?;
                    continue;
                }
                if self.keyword("GRAPH", true) {
                    let name = self.graph_name()?;
                    self.wrapped_graph(Some(name))?;
                    continue;
                }
                let mark = (self.p.i, self.fresh);
                if matches!(self.p.peek(), Some('<' | '_' | '[')) || !matches!(self.p.peek(), Some('(')) {
                    if let Ok(name) = self.graph_name() {
                        if self.at_punct("{") {
                            self.wrapped_graph(Some(name))?;
                            continue;
                        }
                    }
                    self.p.i = mark.0;
                    self.fresh = mark.1;
                }
            }
            self.triples()?;
            self.punct(".")?;
        }
    }
    fn graph_name(&mut self) -> R<Node> {
        self.ws();
        match self.p.peek() {
            Some('_') => self.blank(),
            Some('[') => {
                self.punct("[")?;
                self.punct("]")?;
                Ok(self.new_blank("anon"))
            }
            _ => Ok(Node::Iri(self.iri()?)),
        }
    }
}

fn unescape(s: &str) -> R<String> {
    let chars: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < chars.len() {
        if chars[i] != '\\' {
            out.push(chars[i]);
            i += 1;
            continue;
        }
        let e = chars.get(i + 1).copied().unwrap_or(' ');
        let n = match e {
            'u' => 6,
            'U' => 10,
            _ => 2,
        };
        let esc: String = chars[i..(i + n).min(chars.len())].iter().collect();
        match crate::decode_escapes(&esc) {
            Some(d) => out.push_str(&d),
            None => return Err(format!("the escape {esc:?}")),
        }
        i += n;
    }
    Ok(out)
}

pub struct Doc {
    pub quads: Vec<(Triple, Option<Node>)>,
    pub prefixes: BTreeMap<String, String>,
    pub stats: Stats,
}

impl Doc {
    pub fn triples(&self) -> Vec<Triple> {
        self.quads.iter().map(|(t, _)| t.clone()).collect()
    }
}

pub fn parse(text: &str, trig: bool, base: Option<&str>) -> R<Doc> {
    let chars: Vec<char> = text.chars().collect();
    let mut t = T {
        p: P::new(&chars, false),
        base: base.map(|b| b.to_string()),
        prefixes: BTreeMap::new(),
        graph: None,
        out: vec![],
        fresh: 0,
        stats: Stats::default(),
    };
    t.document(trig)?;
    Ok(Doc { quads: t.out, prefixes: t.prefixes, stats: t.stats })
}

// ------------------------------------------------------------------------------------------------
// Reference resolution, RFC 3986, section 5

pub fn has_scheme(s: &str) -> bool {
    match s.find([':', '/', '?', '#']) {
        Some(k) if s.as_bytes()[k] == b':' => {
            k > 0
                && s.as_bytes()[0].is_ascii_alphabetic()
                && s[..k].bytes().all(|b| b.is_ascii_alphanumeric() || matches!(b, b'+' | b'-' | b'.'))
        }
        _ => false,
    }
}

/// scheme, authority, path, query, fragment
type Five<'a> = (Option<&'a str>, Option<&'a str>, &'a str, Option<&'a str>, Option<&'a str>);

fn five(s: &str) -> Five<'_> {
    let (scheme, rest) = if has_scheme(s) {
        let k = s.find(':').unwrap();
        (Some(&s[..k]), &s[k + 1..])
    } else {
        (None, s)
    };
    let (rest, fragment) = match rest.find('#') {
        Some(k) => (&rest[..k], Some(&rest[k + 1..])),
        None => (rest, None),
    };
    let (rest, query) = match rest.find('?') {
        Some(k) => (&rest[..k], Some(&rest[k + 1..])),
        None => (rest, None),
    };
    match rest.strip_prefix("//") {
        Some(a) => {
            let k = a.find('/').unwrap_or(a.len());
            (scheme, Some(&a[..k]), &a[k..], query, fragment)
        }
        None => (scheme, None, rest, query, fragment),
    }
}

fn remove_dot_segments(path: &str) -> String {
    let mut input = path.to_string();
    let mut out = String::new();
    while !input.is_empty() {
        if let Some(r) = input.strip_prefix("../").or_else(|| input.strip_prefix("./")) {
            input = r.to_string();
        } else if input.starts_with("/./") {
            input = input[2..].to_string();
        } else if input == "/." {
            input = "/".into();
        } else if input.starts_with("/../") || input == "/.." {
            input = if input == "/.." { "/".into() } else { input[3..].to_string() };
            let k = out.rfind('/').unwrap_or(0);
            out.truncate(k);
        } else if input == "." || input == ".." {
            input.clear();
        } else {
            let from = usize::from(input.starts_with('/'));
            let k = input[from..].find('/').map(|k| k + from).unwrap_or(input.len());
            out.push_str(&input[..k]);
            input = input[k..].to_string();
        }
    }
    out
}

pub fn resolve(base: &str, reference: &str) -> String {
    let b = five(base);
    let r = five(reference);
    let (scheme, authority, path, query);
    if r.0.is_some() {
        (scheme, authority, path, query) = (r.0, r.1, remove_dot_segments(r.2), r.3);
    } else if r.1.is_some() {
        (scheme, authority, path, query) = (b.0, r.1, remove_dot_segments(r.2), r.3);
    } else if r.2.is_empty() {
        (scheme, authority, path, query) = (b.0, b.1, b.2.to_string(), r.3.or(b.3));
    } else {
        let p = if r.2.starts_with('/') {
            remove_dot_segments(r.2)
        } else {
            let merged = if b.1.is_some() && b.2.is_empty() {
                format!("/{}", r.2)
            } else {
                let k = b.2.rfind('/').map(|k| k + 1).unwrap_or(0);
                format!("{}{}", &b.2[..k], r.2)
            };
            remove_dot_segments(&merged)
        };
        (scheme, authority, path, query) = (b.0, b.1, p, r.3);
    }
    let mut s = String::new();
    if let Some(x) = scheme {
        s += x;
        s += ":";
    }
    if let Some(x) = authority {
        s += "//";
        s += x;
    }
    s += &path;
    if let Some(x) = query {
        s += "?";
        s += x;
    }
    if let Some(x) = r.4 {
        s += "#";
        s += x;
    }
    s
}

#[cfg(test)]
mod tests {
    use super::*;

    #[test]
    fn rfc3986_examples() {
        let base = "http://a/b/c/d;p?q";
        for (r, want) in [
            ("g:h", "g:h"),
            ("g", "http://a/b/c/g"),
            ("./g", "http://a/b/c/g"),
            ("g/", "http://a/b/c/g/"),
            ("/g", "http://a/g"),
            ("//g", "http://g"),
            ("?y", "http://a/b/c/d;p?y"),
            ("g?y", "http://a/b/c/g?y"),
            ("#s", "http://a/b/c/d;p?q#s"),
            ("", "http://a/b/c/d;p?q"),
            (".", "http://a/b/c/"),
            ("..", "http://a/b/"),
            ("../g", "http://a/b/g"),
            ("../../../g", "http://a/g"),
            ("/./g", "http://a/g"),
            ("g.", "http://a/b/c/g."),
            ("./../g", "http://a/b/g"),
            ("g;x=1/../y", "http://a/b/c/y"),
            ("g?y/../x", "http://a/b/c/g?y/../x"),
        ] {
            assert_eq!(resolve(base, r), want, "{r}");
        }
    }
}
