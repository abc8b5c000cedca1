//! A small XML (1.0 and 1.1) parser with namespaces, and RDF/XML on top of it, from the W3C recommendations.

use crate::nt::R;
use crate::ttl::{has_scheme, resolve};
use crate::{rdf, Lit, Node, Triple, RDF};
use std::collections::{BTreeMap, HashMap, HashSet};

pub const XML_NS: &str = "http://www.w3.org/XML/1998/namespace";

#[derive(Clone, Debug, PartialEq)]
pub struct El {
    pub ns: String,
    pub local: String,
    /// namespace ("" for none), local name, value
    pub attrs: Vec<(String, String, String)>,
    pub children: Vec<Nd>,
    /// whether white space in a value of an attribute was made a space
    pub folded: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Nd {
    El(El),
    Text(String),
    Comment(String),
    Pi(String),
}

struct X {
    s: Vec<char>,
    i: usize,
    v11: bool,
    entities: HashMap<String, String>,
    depth: usize,
    folded: bool,
}

fn name_start(c: char) -> bool {
    matches!(c, ':' | '_' | 'A'..='Z' | 'a'..='z' | '\u{C0}'..='\u{D6}' | '\u{D8}'..='\u{F6}' | '\u{F8}'..='\u{2FF}'
        | '\u{370}'..='\u{37D}' | '\u{37F}'..='\u{1FFF}' | '\u{200C}'..='\u{200D}' | '\u{2070}'..='\u{218F}'
        | '\u{2C00}'..='\u{2FEF}' | '\u{3001}'..='\u{D7FF}' | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}'
        | '\u{10000}'..='\u{EFFFF}')
}

fn name_char(c: char) -> bool {
    name_start(c) || matches!(c, '-' | '.' | '0'..='9' | '\u{B7}' | '\u{300}'..='\u{36F}' | '\u{203F}'..='\u{2040}')
}

pub fn is_nc_name(s: &str) -> bool {
    let mut it = s.chars();
    it.next().is_some_and(|c| name_start(c) && c != ':') && it.all(|c| name_char(c) && c != ':')
}

fn char_10(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | ' '..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}

impl X {
    fn err<T>(&self, what: &str) -> R<T> {
        let from = self.i.saturating_sub(30);
        let to = (self.i + 30).min(self.s.len());
        Err(format!(
            "XML: {what} at {} after {:?} before {:?}",
            self.i,
            self.s[from..self.i.min(self.s.len())].iter().collect::<String>(),
            self.s[self.i.min(to)..to].iter().collect::<String>()
        ))
    }
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn at(&self, t: &str) -> bool {
        t.chars().enumerate().all(|(k, c)| self.s.get(self.i + k) == Some(&c))
    }
    fn eat(&mut self, t: &str) -> bool {
        let y = self.at(t);
        if y {
            self.i += t.chars().count();
        }
        y
    }
    fn sp(&mut self) -> bool {
        let n = self.i;
        while matches!(self.peek(), Some(' ' | '\t' | '\n' | '\r')) {
            self.i += 1;
        }
        self.i > n
    }
    fn name(&mut self) -> R<String> {
        let n = self.i;
        if !self.peek().is_some_and(name_start) {
            return self.err("name expected");
        }
        while self.peek().is_some_and(name_char) {
            self.i += 1;
        }
        Ok(self.s[n..self.i].iter().collect())
    }
    /// A character as it stands in the document, not by reference.
    fn literal_char(&self, c: char) -> bool {
        if self.v11 {
            char_10(c) && !matches!(c, '\u{7F}'..='\u{84}' | '\u{86}'..='\u{9F}')
        } else {
            char_10(c)
        }
    }
    fn until(&mut self, end: &str) -> R<String> {
        let n = self.i;
        while !self.at(end) {
            match self.peek() {
                None => return self.err(&format!("{end} expected")),
                Some(c) if !self.literal_char(c) => return self.err(&format!("the character {c:?}")),
                _ => self.i += 1,
            }
        }
        let s = self.s[n..self.i].iter().collect();
        self.i += end.chars().count();
        Ok(s)
    }
    /// After the '&'. `Ok(Err(text))` for an entity's replacement text.
    fn reference(&mut self) -> R<Result<char, String>> {
        if self.eat("#") {
            let hex = self.eat("x");
            let body = self.until(";")?;
            let v = u32::from_str_radix(&body, if hex { 16 } else { 10 }).map_err(|e| format!("character reference {body:?}: {e}"))?;
            let c = char::from_u32(v).ok_or_else(|| format!("character reference to {v:x}"))?;
            let ok = if self.v11 { v != 0 && v != 0xFFFE && v != 0xFFFF } else { char_10(c) };
            if !ok {
                return self.err(&format!("a reference to {c:?}"));
            }
            return Ok(Ok(c));
        }
        let n = self.until(";")?;
        Ok(match n.as_str() {
            "lt" => Ok('<'),
            "gt" => Ok('>'),
            "amp" => Ok('&'),
            "quot" => Ok('"'),
            "apos" => Ok('\''),
            other => match self.entities.get(other) {
                Some(t) => Err(t.clone()),
                None => return self.err(&format!("the entity {other:?}")),
            },
        })
    }
    fn att_value(&mut self) -> R<String> {
        let q = match self.peek() {
            Some(q @ ('"' | '\'')) => q,
            _ => return self.err("attribute value expected"),
        };
        self.i += 1;
        let mut out = String::new();
        loop {
            let Some(c) = self.peek() else { return self.err("end of an attribute value") };
            self.i += 1;
            match c {
                c if c == q => return Ok(out),
                '<' => return self.err("< in an attribute value"),
                '&' => match self.reference()? {
                    Ok(c) => out.push(c),
                    Err(t) => out.push_str(&t),
                },
                '\t' | '\n' | '\r' => {
                    self.folded = true;
                    out.push(' ');
                }
                c if !self.literal_char(c) => return self.err(&format!("the character {c:?}")),
                c => out.push(c),
            }
        }
    }
    fn misc(&mut self) -> R<()> {
        loop {
            self.sp();
            if self.eat("<!--") {
                self.comment()?;
            } else if self.at("<?") {
                self.i += 2;
                self.until("?>")?;
            } else {
                return Ok(());
            }
        }
    }
    fn comment(&mut self) -> R<String> {
        let c = self.until("-->")?;
        if c.contains("--") || c.ends_with('-') {
            return self.err("-- in a comment");
        }
        Ok(c)
    }
    fn doctype(&mut self) -> R<()> {
        let mut depth = 0;
        loop {
            if self.eat("<!ENTITY") {
                self.sp();
                let n = self.name()?;
                self.sp();
                let v = self.att_value()?;
                self.sp();
                if !self.eat(">") {
                    return self.err("end of an entity declaration");
                }
                self.entities.insert(n, v);
                continue;
            }
            match self.peek() {
                None => return self.err("end of the document type"),
                Some('[') => depth += 1,
                Some(']') => depth -= 1,
                Some('>') if depth == 0 => {
                    self.i += 1;
                    return Ok(());
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn element(&mut self, scope: &BTreeMap<String, String>) -> R<El> {
        self.depth += 1;
        if self.depth > 7000 {
            return self.err("too deep");
        }
        if !self.eat("<") {
            return self.err("element expected");
        }
        let name = self.name()?;
        let mut raw: Vec<(String, String)> = vec![];
        let empty;
        loop {
            let space = self.sp();
            if self.eat("/>") {
                empty = true;
                break;
            }
            if self.eat(">") {
                empty = false;
                break;
            }
            if !space {
                return self.err("space expected");
            }
            let n = self.name()?;
            self.sp();
            if !self.eat("=") {
                return self.err("= expected");
            }
            self.sp();
            let v = self.att_value()?;
            if raw.iter().any(|(m, _)| *m == n) {
                return self.err(&format!("attribute {n} again"));
            }
            raw.push((n, v));
        }
        let mut scope = scope.clone();
        for (n, v) in &raw {
            if n == "xmlns" {
                scope.insert(String::new(), v.clone());
            } else if let Some(p) = n.strip_prefix("xmlns:") {
                if v.is_empty() && !self.v11 {
                    return self.err("an empty namespace");
                }
                if p == "xmlns" || (p == "xml") != (v == XML_NS) {
                    return self.err(&format!("the prefix {p} declared as {v}"));
                }
                scope.insert(p.to_string(), v.clone());
            }
        }
        let expand = |x: &X, n: &str, default: bool| -> R<(String, String)> {
            match n.split_once(':') {
                None => Ok((if default { scope.get("").cloned().unwrap_or_default() } else { String::new() }, n.to_string())),
                Some((p, l)) => {
                    if !is_nc_name(p) || !is_nc_name(l) {
                        return x.err(&format!("the name {n:?}"));
                    }
                    match scope.get(p) {
                        Some(ns) => Ok((ns.clone(), l.to_string())),
                        None => x.err(&format!("the prefix {p:?} is not declared")),
                    }
                }
            }
        };
        let (ns, local) = expand(self, &name, true)?;
        let mut attrs = vec![];
        for (n, v) in &raw {
            if n == "xmlns" || n.starts_with("xmlns:") {
                continue;
            }
            let (ns, local) = expand(self, n, false)?;
            if attrs.iter().any(|(a, b, _)| *a == ns && *b == local) {
                return self.err(&format!("attribute {n} again"));
            }
            attrs.push((ns, local, v.clone()));
        }
        let mut el = El { ns, local, attrs, children: vec![], folded: false };
        if empty {
            self.depth -= 1;
            return Ok(el);
        }
        let mut text = String::new();
        macro_rules! flush {
            () => {
                if !text.is_empty() {
                    el.children.push(Nd::Text(std::mem::take(&mut text)));
                }
            };
        }
        loop {
            let Some(c) = self.peek() else { return self.err(&format!("end of the element {name}")) };
            if self.eat("</") {
                flush!();
                let n = self.name()?;
                if n != name {
                    return self.err(&format!("the end of {n} in {name}"));
                }
                self.sp();
                if !self.eat(">") {
                    return self.err("> expected");
                }
                self.depth -= 1;
                return Ok(el);
            } else if self.eat("<!--") {
                flush!();
                let c = self.comment()?;
                el.children.push(Nd::Comment(c));
            } else if self.eat("<![CDATA[") {
                let t = self.until("]]>")?;
                text.push_str(&t);
            } else if self.eat("<?") {
                flush!();
                let p = self.until("?>")?;
                el.children.push(Nd::Pi(p));
            } else if c == '<' {
                flush!();
                let child = self.element(&scope)?;
                el.children.push(Nd::El(child));
            } else if self.at("]]>") {
                return self.err("]]> in text");
            } else if c == '&' {
                self.i += 1;
                match self.reference()? {
                    Ok(c) => text.push(c),
                    Err(t) => text.push_str(&t),
                }
            } else if !self.literal_char(c) {
                return self.err(&format!("the character {c:?}"));
            } else {
                text.push(c);
                self.i += 1;
            }
        }
    }
}

pub fn parse_xml(text: &str) -> R<El> {
    let v11 = text.trim_start_matches('\u{FEFF}').starts_with("<?xml version=\"1.1\"");
    // end-of-line handling, before anything else
    let mut s: Vec<char> = Vec::with_capacity(text.len());
    let mut it = text.trim_start_matches('\u{FEFF}').chars().peekable();
    while let Some(c) = it.next() {
        if c == '\r' {
            match it.peek() {
                Some('\n') => {
                    it.next();
                }
                Some('\u{85}') if v11 => {
                    it.next();
                }
                _ => {}
            }
            s.push('\n');
        } else if v11 && matches!(c, '\u{85}' | '\u{2028}') {
            s.push('\n');
        } else {
            s.push(c);
        }
    }
    let mut x = X { s, i: 0, v11, entities: HashMap::new(), depth: 0, folded: false };
    if x.eat("<?xml ") {
        x.until("?>")?;
    }
    x.misc()?;
    if x.eat("<!DOCTYPE") {
        x.doctype()?;
        x.misc()?;
    }
    let scope: BTreeMap<String, String> = [("xml".to_string(), XML_NS.to_string())].into_iter().collect();
    let mut el = x.element(&scope)?;
    el.folded = x.folded;
    x.misc()?;
    if x.i < x.s.len() {
        return x.err("end of the document expected");
    }
    Ok(el)
}

/// One text for XML content that is the same but for prefixes, the order of attributes, and the like.
pub fn canonical(children: &[Nd]) -> String {
    let mut out = String::new();
    for c in children {
        match c {
            Nd::Text(t) => {
                for c in t.chars() {
                    match c {
                        '&' => out.push_str("&amp;"),
                        '<' => out.push_str("&lt;"),
                        '>' => out.push_str("&gt;"),
                        c => out.push(c),
                    }
                }
            }
            Nd::Comment(_) => {}
            Nd::Pi(p) => out.push_str(&format!("<?{}?>", p.trim())),
            Nd::El(e) => {
                out.push_str(&format!("<{{{}}}{}", e.ns, e.local));
                let mut a = e.attrs.clone();
                a.sort();
                for (ns, l, v) in a {
                    out.push_str(&format!(" {{{ns}}}{l}={v:?}"));
                }
                out.push('>');
                out.push_str(&canonical(&e.children));
                out.push_str("</>");
            }
        }
    }
    out
}

/// The canonical form of an XML literal.
pub fn canonical_literal(v: &str) -> R<String> {
    let e = parse_xml(&format!("<r>{v}</r>"))?;
    Ok(canonical(&e.children))
}

pub fn canonical_literals(ts: &[Triple]) -> R<Vec<Triple>> {
    ts.iter()
        .map(|t| {
            let mut t = t.clone();
            if let Node::Lit(l) = &mut t.o {
                if l.dt.as_deref() == Some(&rdf("XMLLiteral")) {
                    l.value = canonical_literal(&l.value)?;
                }
            }
            Ok(t)
        })
        .collect()
}

// ------------------------------------------------------------------------------------------------
// RDF/XML

#[derive(Clone)]
struct Scope {
    base: Option<String>,
    lang: Option<String>,
}

struct G {
    out: Vec<Triple>,
    fresh: usize,
    ids: HashSet<String>,
    pub stats: BTreeMap<&'static str, usize>,
}

const CORE: &[&str] = &["RDF", "ID", "about", "parseType", "resource", "nodeID", "datatype"];
const OLD: &[&str] = &["aboutEach", "aboutEachPrefix", "bagID"];

impl Scope {
    fn nest(&self, e: &El) -> Scope {
        let mut s = self.clone();
        for (ns, l, v) in &e.attrs {
            if ns == XML_NS && l == "base" {
                let v = v.split('#').next().unwrap_or("");
                s.base = Some(if has_scheme(v) { v.to_string() } else { s.base.as_deref().map(|b| resolve(b, v)).unwrap_or_default() });
            }
            if ns == XML_NS && l == "lang" {
                s.lang = if v.is_empty() { None } else { Some(v.clone()) };
            }
        }
        s
    }
    fn iri(&self, v: &str) -> R<String> {
        if has_scheme(v) {
            return Ok(v.to_string());
        }
        match &self.base {
            Some(b) if v.is_empty() => Ok(b.clone()),
            Some(b) => Ok(resolve(b, v)),
            None => Err(format!("the relative reference {v:?} without a base")),
        }
    }
    fn literal(&self, v: &str) -> Node {
        Node::Lit(match &self.lang {
            Some(l) => Lit::lang(v, l),
            None => Lit::plain(v),
        })
    }
}

/// The RDF attributes of an element, and the others but for those of XML.
struct Attrs<'a> {
    rdf: BTreeMap<&'a str, &'a str>,
    props: Vec<(String, &'a str)>,
}

fn attrs(e: &El) -> R<Attrs<'_>> {
    let mut a = Attrs { rdf: BTreeMap::new(), props: vec![] };
    for (ns, l, v) in &e.attrs {
        if ns == XML_NS || (ns.is_empty() && l.to_ascii_lowercase().starts_with("xml")) {
            continue;
        }
        if ns.is_empty() {
            if ["ID", "about", "resource", "parseType", "type"].contains(&l.as_str()) {
                a.rdf.insert(l, v);
                continue;
            }
            return Err(format!("the attribute {l} without a namespace"));
        }
        if ns == RDF && CORE.contains(&l.as_str()) {
            if l == "RDF" {
                return Err("rdf:RDF as an attribute".into());
            }
            a.rdf.insert(l, v);
        } else {
            if ns == RDF && (OLD.contains(&l.as_str()) || ["Description", "li"].contains(&l.as_str())) {
                return Err(format!("rdf:{l} as an attribute"));
            }
            a.props.push((format!("{ns}{l}"), v));
        }
    }
    Ok(a)
}

impl G {
    fn stat(&mut self, k: &'static str) {
        *self.stats.entry(k).or_default() += 1;
    }
    fn blank(&mut self) -> Node {
        self.fresh += 1;
        Node::Blank(format!("gen#{}", self.fresh))
    }
    fn emit(&mut self, s: &Node, p: &str, o: Node) {
        self.out.push(Triple { s: s.clone(), p: p.to_string(), o });
    }
    fn id(&mut self, v: &str, sc: &Scope) -> R<String> {
        if !is_nc_name(v) {
            return Err(format!("rdf:ID {v:?}"));
        }
        let i = sc.iri(&format!("#{v}"))?;
        if !self.ids.insert(i.clone()) {
            return Err(format!("rdf:ID {v:?} again"));
        }
        Ok(i)
    }
    fn node_id(v: &str) -> R<Node> {
        if is_nc_name(v) {
            Ok(Node::Blank(v.to_string()))
        } else {
            Err(format!("rdf:nodeID {v:?}"))
        }
    }
    fn node(&mut self, e: &El, sc: &Scope) -> R<Node> {
        let sc = sc.nest(e);
        if e.ns.is_empty() {
            return Err(format!("the node element {} without a namespace", e.local));
        }
        if e.ns == RDF && (CORE.contains(&e.local.as_str()) || OLD.contains(&e.local.as_str()) || e.local == "li") {
            return Err(format!("rdf:{} as a node element", e.local));
        }
        let a = attrs(e)?;
        let naming: Vec<&&str> = a.rdf.keys().filter(|k| ["ID", "about", "nodeID"].contains(k)).collect();
        if naming.len() > 1 {
            return Err(format!("a node element with {naming:?}"));
        }
        for k in ["resource", "parseType", "datatype"] {
            if a.rdf.contains_key(k) {
                return Err(format!("rdf:{k} of a node element"));
            }
        }
        let subject = if let Some(v) = a.rdf.get("ID") {
            self.stat("rdf:ID");
            Node::Iri(self.id(v, &sc)?)
        } else if let Some(v) = a.rdf.get("about") {
            Node::Iri(sc.iri(v)?)
        } else if let Some(v) = a.rdf.get("nodeID") {
            self.stat("rdf:nodeID");
            Self::node_id(v)?
        } else {
            self.stat("anonymous");
            self.blank()
        };
        if !(e.ns == RDF && e.local == "Description") {
            self.stat("typed node");
            self.emit(&subject, &rdf("type"), Node::Iri(format!("{}{}", e.ns, e.local)));
        }
        if let Some(v) = a.rdf.get("type") {
            let t = sc.iri(v)?;
            self.emit(&subject, &rdf("type"), Node::Iri(t));
        }
        self.prop_attrs(&a, &subject, &sc)?;
        self.props(e, &subject, &sc)?;
        Ok(subject)
    }
    fn prop_attrs(&mut self, a: &Attrs<'_>, subject: &Node, sc: &Scope) -> R<()> {
        for (p, v) in &a.props {
            self.stat("property attribute");
            if *p == rdf("type") {
                let t = sc.iri(v)?;
                self.emit(subject, p, Node::Iri(t));
            } else {
                self.emit(subject, p, sc.literal(v));
            }
        }
        Ok(())
    }
    fn elements<'a>(e: &'a El) -> R<Vec<&'a El>> {
        let mut v = vec![];
        for c in &e.children {
            match c {
                Nd::El(e) => v.push(e),
                Nd::Text(t) if !t.trim_matches([' ', '\t', '\n', '\r']).is_empty() => return Err(format!("the text {t:?} between elements")),
                _ => {}
            }
        }
        Ok(v)
    }
    fn props(&mut self, e: &El, subject: &Node, sc: &Scope) -> R<()> {
        let mut li = 0;
        for p in Self::elements(e)? {
            self.prop(p, subject, sc, &mut li)?;
        }
        Ok(())
    }
    fn reify(&mut self, id: Option<String>, s: &Node, p: &str, o: &Node) {
        if let Some(id) = id {
            self.stat("reification");
            let id = Node::Iri(id);
            self.emit(&id, &rdf("type"), Node::Iri(rdf("Statement")));
            self.emit(&id, &rdf("subject"), s.clone());
            self.emit(&id, &rdf("predicate"), Node::Iri(p.to_string()));
            self.emit(&id, &rdf("object"), o.clone());
        }
    }
    fn prop(&mut self, e: &El, subject: &Node, sc: &Scope, li: &mut usize) -> R<()> {
        let sc = sc.nest(e);
        if e.ns.is_empty() {
            return Err(format!("the property element {} without a namespace", e.local));
        }
        let p = if e.ns == RDF {
            if CORE.contains(&e.local.as_str()) || OLD.contains(&e.local.as_str()) || e.local == "Description" {
                return Err(format!("rdf:{} as a property element", e.local));
            }
            if e.local == "li" {
                *li += 1;
                self.stat("rdf:li");
                rdf(&format!("_{li}"))
            } else {
                rdf(&e.local)
            }
        } else {
            format!("{}{}", e.ns, e.local)
        };
        let a = attrs(e)?;
        let has = |k: &str| a.rdf.contains_key(k);
        if has("about") {
            return Err("rdf:about of a property element".into());
        }
        let id = match a.rdf.get("ID") {
            Some(v) => Some(self.id(v, &sc)?),
            None => None,
        };
        if let Some(pt) = a.rdf.get("parseType") {
            if has("resource") || has("nodeID") || has("datatype") || !a.props.is_empty() {
                return Err("attributes next to rdf:parseType".into());
            }
            let o = match *pt {
                "Resource" => {
                    self.stat("parseType Resource");
                    let b = self.blank();
                    self.props(e, &b, &sc)?;
                    b
                }
                "Collection" => {
                    self.stat("parseType Collection");
                    let mut cells: Vec<Node> = vec![];
                    for c in Self::elements(e)? {
                        let m = self.node(c, &sc)?;
                        let cell = self.blank();
                        if let Some(l) = cells.last().cloned() {
                            self.emit(&l, &rdf("rest"), cell.clone());
                        }
                        self.emit(&cell, &rdf("first"), m);
                        cells.push(cell);
                    }
                    let nil = Node::Iri(rdf("nil"));
                    if let Some(l) = cells.last().cloned() {
                        self.emit(&l, &rdf("rest"), nil.clone());
                    }
                    cells.first().cloned().unwrap_or(nil)
                }
                _ => {
                    self.stat("parseType Literal");
                    Node::Lit(Lit::typed(&canonical(&e.children), &rdf("XMLLiteral")))
                }
            };
            self.emit(subject, &p, o.clone());
            self.reify(id, subject, &p, &o);
            return Ok(());
        }
        let has_elements = e.children.iter().any(|c| matches!(c, Nd::El(_)));
        let text: String = e.children.iter().map(|c| if let Nd::Text(t) = c { t.as_str() } else { "" }).collect();
        let o = if has_elements {
            if has("resource") || has("nodeID") || has("datatype") || !a.props.is_empty() {
                return Err("a property element with a node element and attributes".into());
            }
            let els = Self::elements(e)?;
            if els.len() != 1 {
                return Err("a property element with many node elements".into());
            }
            self.stat("nested node");
            // the property comes first, in the order of the document
            let at = self.out.len();
            let o = self.node(els[0], &sc)?;
            self.out.insert(at, Triple { s: subject.clone(), p: p.clone(), o: o.clone() });
            self.reify(id, subject, &p, &o);
            return Ok(());
        } else if let (Some(dt), true) = (a.rdf.get("datatype"), !has("resource") && !has("nodeID") && a.props.is_empty()) {
            self.stat("rdf:datatype");
            Node::Lit(Lit::typed(&text, &sc.iri(dt)?))
        } else if !has("resource") && !has("nodeID") && a.props.is_empty() {
            sc.literal(&text)
        } else {
            // an empty property element
            if !text.is_empty() || has("datatype") {
                return Err("an empty property element that is not empty".into());
            }
            if has("resource") && has("nodeID") {
                return Err("rdf:resource and rdf:nodeID".into());
            }
            let o = if let Some(v) = a.rdf.get("resource") {
                Node::Iri(sc.iri(v)?)
            } else if let Some(v) = a.rdf.get("nodeID") {
                Self::node_id(v)?
            } else {
                self.blank()
            };
            if !a.props.is_empty() {
                self.stat("empty property element with attributes");
            }
            self.prop_attrs(&a, &o, &sc)?;
            o
        };
        self.emit(subject, &p, o.clone());
        self.reify(id, subject, &p, &o);
        Ok(())
    }
}

pub struct Doc {
    pub triples: Vec<Triple>,
    pub stats: BTreeMap<&'static str, usize>,
}

pub fn triples_of(root: &El, base: Option<&str>) -> R<Doc> {
    let mut g = G { out: vec![], fresh: 0, ids: HashSet::new(), stats: BTreeMap::new() };
    let sc = Scope { base: base.map(|b| b.to_string()), lang: None };
    if root.ns == RDF && root.local == "RDF" {
        let sc = sc.nest(root);
        for (ns, l, _) in &root.attrs {
            if ns != XML_NS {
                return Err(format!("the attribute {l} of rdf:RDF"));
            }
        }
        for e in G::elements(root)? {
            g.node(e, &sc)?;
        }
    } else {
        g.node(root, &sc)?;
    }
    Ok(Doc { triples: g.out, stats: g.stats })
}

pub fn parse(text: &str, base: Option<&str>) -> R<Doc> {
    triples_of(&parse_xml(text)?, base)
}
