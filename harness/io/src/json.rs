//! W04: RDF/JSON.

use crate::lines::mutate;
use crate::util::*;
use objio::{ObjectReader, ObjectWriter};
use rdfmodel::gen::{Cfg, Pool};
use rdfmodel::*;
use rdftk_core::model::literal::LanguageTag;
use rdftk_io::json::{JsonOptions, JsonReader, JsonWriter};
use std::collections::BTreeMap;
use vmon::{ensure, ensure_eq, fail, Case, Check, Fail, Rng, Runner};

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

/// RFC 8259, nothing more.
pub fn parse_json(text: &str) -> Result<J, String> {
    let v: Vec<char> = text.chars().collect();
    let mut p = Jp { v: &v, i: 0 };
    p.ws();
    let j = p.value()?;
    p.ws();
    if p.i != v.len() {
        return Err(format!("more after the value, at {}", p.i));
    }
    Ok(j)
}

struct Jp<'a> {
    v: &'a [char],
    i: usize,
}

impl Jp<'_> {
    fn ws(&mut self) {
        while matches!(self.v.get(self.i), Some(' ' | '\t' | '\n' | '\r')) {
            self.i += 1;
        }
    }
    fn peek(&self) -> Option<char> {
        self.v.get(self.i).copied()
    }
    fn need(&mut self, c: char) -> Result<(), String> {
        if self.peek() == Some(c) {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("expected {c:?} at {}", self.i))
        }
    }
    fn word(&mut self, w: &str, j: J) -> Result<J, String> {
        for c in w.chars() {
            self.need(c)?;
        }
        Ok(j)
    }
    fn value(&mut self) -> Result<J, String> {
        match self.peek() {
            Some('{') => {
                self.i += 1;
                let mut out: Vec<(String, J)> = vec![];
                self.ws();
                if self.peek() == Some('}') {
                    self.i += 1;
                    return Ok(J::Obj(out));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    self.need(':')?;
                    self.ws();
                    let v = self.value()?;
                    out.push((k, v));
                    self.ws();
                    if self.peek() == Some(',') {
                        self.i += 1;
                    } else {
                        self.need('}')?;
                        return Ok(J::Obj(out));
                    }
                }
            }
            Some('[') => {
                self.i += 1;
                let mut out = vec![];
                self.ws();
                if self.peek() == Some(']') {
                    self.i += 1;
                    return Ok(J::Arr(out));
                }
                loop {
                    self.ws();
                    out.push(self.value()?);
                    self.ws();
                    if self.peek() == Some(',') {
                        self.i += 1;
                    } else {
                        self.need(']')?;
                        return Ok(J::Arr(out));
                    }
                }
            }
            Some('"') => Ok(J::Str(self.string()?)),
            Some('t') => self.word("true", J::Bool(true)),
            Some('f') => self.word("false", J::Bool(false)),
            Some('n') => self.word("null", J::Null),
            Some('-' | '0'..='9') => self.number(),
            _ => Err(format!("no value at {}", self.i)),
        }
    }
    fn digits(&mut self) -> Result<(), String> {
        let from = self.i;
        while matches!(self.peek(), Some('0'..='9')) {
            self.i += 1;
        }
        if from == self.i {
            Err(format!("no digit at {from}"))
        } else {
            Ok(())
        }
    }
    fn number(&mut self) -> Result<J, String> {
        let from = self.i;
        if self.peek() == Some('-') {
            self.i += 1;
        }
        if self.peek() == Some('0') {
            self.i += 1;
        } else {
            self.digits()?;
        }
        if self.peek() == Some('.') {
            self.i += 1;
            self.digits()?;
        }
        if matches!(self.peek(), Some('e' | 'E')) {
            self.i += 1;
            if matches!(self.peek(), Some('+' | '-')) {
                self.i += 1;
            }
            self.digits()?;
        }
        Ok(J::Num(self.v[from..self.i].iter().collect()))
    }
    fn hex4(&mut self) -> Result<u32, String> {
        let mut n = 0;
        for _ in 0..4 {
            let d = self.peek().and_then(|c| c.to_digit(16)).ok_or_else(|| format!("no hex digit at {}", self.i))?;
            n = n * 16 + d;
            self.i += 1;
        }
        Ok(n)
    }
    fn string(&mut self) -> Result<String, String> {
        self.need('"')?;
        let mut s = String::new();
        loop {
            let c = self.peek().ok_or("an open string")?;
            self.i += 1;
            match c {
                '"' => return Ok(s),
                '\\' => {
                    let e = self.peek().ok_or("an open string")?;
                    self.i += 1;
                    match e {
                        '"' | '\\' | '/' => s.push(e),
                        'b' => s.push('\u{8}'),
                        'f' => s.push('\u{c}'),
                        'n' => s.push('\n'),
                        'r' => s.push('\r'),
                        't' => s.push('\t'),
                        'u' => {
                            let mut n = self.hex4()?;
                            if (0xD800..0xDC00).contains(&n) {
                                self.need('\\')?;
                                self.need('u')?;
                                let lo = self.hex4()?;
                                if !(0xDC00..0xE000).contains(&lo) {
                                    return Err("a lone surrogate".into());
                                }
                                n = 0x10000 + ((n - 0xD800) << 10) + (lo - 0xDC00);
                            }
                            s.push(char::from_u32(n).ok_or("a lone surrogate")?);
                        }
                        _ => return Err(format!("the escape {e:?}")),
                    }
                }
                '\0'..='\u{1f}' => return Err("a control character in a string".into()),
                c => s.push(c),
            }
        }
    }
}

pub enum Verdict {
    Triples(Vec<Triple>),
    Bad(String),
    /// The specification is silent.
    Open,
}

fn blank_label(s: &str) -> Option<&str> {
    let chars: Vec<char> = format!("_:{s}").chars().collect();
    let mut p = nt::P::new(&chars, false);
    let ok = p.blank().is_ok_and(|b| b == s);
    ok.then_some(s)
}

fn repeats(j: &J) -> bool {
    match j {
        J::Arr(v) => v.iter().any(repeats),
        J::Obj(v) => v.iter().enumerate().any(|(k, x)| repeats(&x.1) || v[..k].iter().any(|y| y.0 == x.0)),
        _ => false,
    }
}

/// What an RDF/JSON document says.
pub fn triples(j: &J) -> Verdict {
    use Verdict::*;
    if repeats(j) {
        return Open;
    }
    let mut out = vec![];
    let J::Obj(subjects) = j else { return Bad("no object".into()) };
    let mut open = false;
    for (s, preds) in subjects {
        let J::Obj(preds) = preds else { return Bad(format!("the value of {s:?}")) };
        let s = if let Some(b) = s.strip_prefix("_:") {
            open |= b.contains(':');
            match blank_label(b) {
                Some(b) => blank(b),
                None => return Bad(format!("the blank node {b:?}")),
            }
        } else {
            open |= s.starts_with('<');
            match normal_iri(s) {
                Some(i) => Node::Iri(i),
                None => return Bad(format!("the subject {s:?}")),
            }
        };
        for (p, objects) in preds {
            let J::Arr(objects) = objects else { return Bad(format!("the value of {p:?}")) };
            open |= p.starts_with('<');
            let Some(p) = normal_iri(p) else { return Bad(format!("the predicate {p:?}")) };
            for o in objects {
                let J::Obj(o) = o else { return Bad("an object that is none".into()) };
                open |= o.iter().any(|x| !["type", "value", "lang", "datatype"].contains(&x.0.as_str()));
                let get = |k: &str| o.iter().find(|x| x.0 == k).map(|x| &x.1);
                let value = match get("value") {
                    Some(J::Str(v)) => v,
                    _ => return Bad("the value".into()),
                };
                let (lang, dt) = (get("lang"), get("datatype"));
                let o = match get("type") {
                    Some(J::Str(t)) if t == "uri" => {
                        open |= lang.is_some() || dt.is_some() || value.starts_with('<');
                        match normal_iri(value) {
                            Some(i) => Node::Iri(i),
                            None => return Bad(format!("the object {value:?}")),
                        }
                    }
                    Some(J::Str(t)) if t == "bnode" => {
                        open |= value.strip_prefix("_:").unwrap_or(value).contains(':') || lang.is_some() || dt.is_some();
                        match blank_label(value.strip_prefix("_:").unwrap_or(value)) {
                            Some(b) => blank(b),
                            None => return Bad(format!("the blank node {value:?}")),
                        }
                    }
                    Some(J::Str(t)) if t == "literal" => match (lang, dt) {
                        (None, None) => Node::Lit(Lit::plain(value)),
                        (Some(J::Str(l)), None) => match LanguageTag::parse(l) {
                            Ok(l) => Node::Lit(Lit::lang(value, l.as_str())),
                            Err(_) => return Bad(format!("the language {l:?}")),
                        },
                        (None, Some(J::Str(d))) => {
                            open |= d.starts_with('<');
                            match normal_iri(d) {
                                Some(d) => Node::Lit(Lit::typed(value, &d)),
                                None => return Bad(format!("the data type {d:?}")),
                            }
                        }
                        _ => return Bad("lang and datatype".into()),
                    },
                    _ => return Bad("the type".into()),
                };
                out.push(Triple { s: s.clone(), p: p.clone(), o });
            }
        }
    }
    if open {
        Open
    } else {
        Triples(out)
    }
}

/// The triples of what the writer wrote: exact in its members, subjects in angle brackets or not.
pub fn written(j: &J) -> Result<(Vec<Triple>, usize), String> {
    let J::Obj(subjects) = j else { return Err("no object".into()) };
    let mut out = vec![];
    let mut keys: BTreeMap<&str, usize> = BTreeMap::new();
    let mut bracketed = 0;
    for (s, preds) in subjects {
        *keys.entry(s).or_default() += 1;
        let s = match (s.strip_prefix("_:"), s.strip_prefix('<').and_then(|s| s.strip_suffix('>'))) {
            (Some(b), _) => blank(b),
            (_, Some(_)) => {
                bracketed += 1;
                match nt::parse(&format!("{s} <x:p> <x:o> ."), false, false) {
                    Ok(ts) => ts[0].0.s.clone(),
                    Err(e) => return Err(format!("the subject key {s:?}: {e}")),
                }
            }
            _ => iri(s),
        };
        let J::Obj(preds) = preds else { return Err("predicates".into()) };
        if preds.is_empty() {
            return Err(format!("no predicates for {s:?}"));
        }
        let mut pkeys: Vec<&String> = vec![];
        for (p, objects) in preds {
            if pkeys.contains(&p) {
                return Err(format!("the predicate {p:?} twice"));
            }
            pkeys.push(p);
            let J::Arr(objects) = objects else { return Err("objects".into()) };
            if objects.is_empty() {
                return Err(format!("no objects for {p:?}"));
            }
            for o in objects {
                let J::Obj(o) = o else { return Err("object".into()) };
                let mut m: BTreeMap<&str, &str> = BTreeMap::new();
                for (k, v) in o {
                    let J::Str(v) = v else { return Err(format!("the member {k:?}")) };
                    if m.insert(k, v).is_some() {
                        return Err(format!("the member {k:?} twice"));
                    }
                }
                let ks: Vec<&str> = m.keys().copied().collect();
                let o = match (m.get("type").copied(), ks.as_slice()) {
                    (Some("uri"), ["type", "value"]) => iri(m["value"]),
                    (Some("bnode"), ["type", "value"]) => match m["value"].strip_prefix("_:") {
                        Some(b) => blank(b),
                        None => return Err(format!("the blank node {:?}", m["value"])),
                    },
                    (Some("literal"), ["type", "value"]) => Node::Lit(Lit::plain(m["value"])),
                    (Some("literal"), ["lang", "type", "value"]) => Node::Lit(Lit::lang(m["value"], m["lang"])),
                    (Some("literal"), ["datatype", "type", "value"]) => Node::Lit(Lit::typed(m["value"], m["datatype"])),
                    other => return Err(format!("an object with {other:?}")),
                };
                out.push(Triple { s: s.clone(), p: p.clone(), o });
            }
        }
    }
    if let Some(k) = keys.iter().find(|k| *k.1 > 1) {
        return Err(format!("the subject {:?} twice", k.0));
    }
    Ok((out, bracketed))
}

fn show_str(rng: &mut Rng, s: &str, out: &mut String) {
    out.push('"');
    let esc = rng.chance(1, 4);
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\0'..='\u{1f}' => match (c, rng.bool()) {
                ('\n', true) => out.push_str("\\n"),
                ('\t', true) => out.push_str("\\t"),
                ('\r', true) => out.push_str("\\r"),
                ('\u{8}', true) => out.push_str("\\b"),
                ('\u{c}', true) => out.push_str("\\f"),
                _ => out.push_str(&format!("\\u{:04x}", c as u32)),
            },
            '/' if esc => out.push_str("\\/"),
            c if esc && rng.chance(1, 3) => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    out.push_str(&if rng.bool() { format!("\\u{u:04x}") } else { format!("\\u{u:04X}") });
                }
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

fn space(rng: &mut Rng, out: &mut String) {
    if rng.chance(1, 3) {
        for _ in 0..rng.range(0, 2) {
            out.push(*rng.pick(&[' ', '\n', '\t', '\r']));
        }
    }
}

fn show_json(rng: &mut Rng, j: &J, out: &mut String) {
    space(rng, out);
    match j {
        J::Null => out.push_str("null"),
        J::Bool(b) => out.push_str(&b.to_string()),
        J::Num(n) => out.push_str(n),
        J::Str(s) => show_str(rng, s, out),
        J::Arr(v) => {
            out.push('[');
            for (k, x) in v.iter().enumerate() {
                if k > 0 {
                    out.push(',');
                }
                show_json(rng, x, out);
            }
            space(rng, out);
            out.push(']');
        }
        J::Obj(v) => {
            out.push('{');
            for (k, (n, x)) in v.iter().enumerate() {
                if k > 0 {
                    out.push(',');
                }
                space(rng, out);
                show_str(rng, n, out);
                space(rng, out);
                out.push(':');
                show_json(rng, x, out);
            }
            space(rng, out);
            out.push('}');
        }
    }
    space(rng, out);
}

fn document_of(rng: &mut Rng, ts: &[Triple]) -> J {
    let mut subjects: Vec<(String, Vec<(String, Vec<J>)>)> = vec![];
    for t in ts {
        let s = match &t.s {
            Node::Iri(i) => i.clone(),
            Node::Blank(b) => format!("_:{b}"),
            _ => unreachable!(),
        };
        let str = |s: &str| J::Str(s.to_string());
        let mut o: Vec<(String, J)> = match &t.o {
            Node::Iri(i) => vec![("type".into(), str("uri")), ("value".into(), str(i))],
            Node::Blank(b) => vec![("type".into(), str("bnode")), ("value".into(), J::Str(format!("_:{b}")))],
            Node::Lit(l) => {
                let mut v = vec![("type".to_string(), str("literal")), ("value".to_string(), str(&l.value))];
                if let Some(t) = &l.lang {
                    v.push(("lang".into(), str(t)));
                }
                if let Some(d) = &l.dt {
                    v.push(("datatype".into(), str(d)));
                }
                v
            }
            _ => unreachable!(),
        };
        rng.shuffle(&mut o);
        let k = match subjects.iter().position(|x| x.0 == s) {
            Some(k) => k,
            None => {
                subjects.push((s, vec![]));
                subjects.len() - 1
            }
        };
        let preds = &mut subjects[k].1;
        match preds.iter_mut().find(|x| x.0 == t.p) {
            Some(x) => x.1.push(J::Obj(o)),
            None => preds.push((t.p.clone(), vec![J::Obj(o)])),
        }
    }
    if rng.chance(1, 12) {
        subjects.push(("x:none".into(), if rng.bool() { vec![] } else { vec![("x:none".into(), vec![])] }));
    }
    J::Obj(subjects.into_iter().map(|(s, ps)| (s, J::Obj(ps.into_iter().map(|(p, os)| (p, J::Arr(os))).collect()))).collect())
}

const KINDS: &[&str] = &["iri", "IRI", "URI", "Uri", "uri ", "url", "bNode", "blank", "_", "Bnode", "bnode ", "LITERAL", "literal ", "typed-literal", "string", "triple", "list", "resource", ""];

/// Break the tree somewhere.
fn around(rng: &mut Rng, s: &str) -> String {
    let (a, b) = *rng.pick(&[(" ", ""), ("", " "), ("\t", ""), ("", "\n"), ("", "\r\n"), (" ", " "), ("<", ">"), ("\"", "\""), ("_:", ""), ("\u{FEFF}", ""), ("", "\u{A0}"), ("", "\0"), ("@", ""), ("", ".")]);
    format!("{a}{s}{b}")
}

fn damage(rng: &mut Rng, j: &mut J) {
    let other = |rng: &mut Rng| {
        let kind = rng.pick(KINDS).to_string();
        let text = rng.pick(&["_:a", "a", "EN", "en_US", "x:", "x:y", "<x:y>", "http://example.org/ x", "_:a:b", "_: a", "é"]).to_string();
        rng.pick(&[
            J::Null,
            J::Bool(true),
            J::Num("1".into()),
            J::Num("-0.5e3".into()),
            J::Str("x".into()),
            J::Str("".into()),
            J::Str("uri".into()),
            J::Str("bnode".into()),
            J::Str("literal".into()),
            J::Str("_:b".into()),
            J::Str("_:".into()),
            J::Str("http://example.org/x".into()),
            J::Str("en".into()),
            J::Str("Literal".into()),
            J::Str(kind),
            J::Str(text),
            J::Arr(vec![]),
            J::Obj(vec![]),
        ])
        .clone()
    };
    match j {
        // a language and a data type, or what may be taken for none
        J::Obj(v) if v.iter().any(|x| x.0 == "lang") != v.iter().any(|x| x.0 == "datatype") && rng.chance(1, 3) => {
            let (key, text) = if v.iter().any(|x| x.0 == "lang") { ("datatype", "http://www.w3.org/1999/02/22-rdf-syntax-ns#langString") } else { ("lang", "en") };
            let x = rng.pick(&[J::Null, J::Null, J::Str(text.into()), J::Str(String::new()), J::Bool(false), J::Arr(vec![])]).clone();
            v.insert(rng.below(v.len() + 1), (key.to_string(), x));
        }
        // nearly a kind of node
        J::Obj(v) if v.iter().any(|x| x.0 == "type") && rng.chance(1, 3) => {
            for (k, x) in v {
                if k == "type" {
                    *x = J::Str(rng.pick(KINDS).to_string());
                }
            }
        }
        // nearly a language or a data type
        J::Obj(v) if v.iter().any(|x| x.0 == "lang" || x.0 == "datatype") && rng.chance(1, 3) => {
            for (k, x) in v {
                match k.as_str() {
                    "lang" => *x = J::Str(rng.pick(&["@en", " en", "en ", "en_US", "en--US", "-en", "en-", "e n", "\"en\"", "english-language", "1", "*"]).to_string()),
                    "datatype" => *x = J::Str(rng.pick(&["xsd:string", "xsd:integer", "rdf:type", "string", "x", "_:x", "#string", "<http://www.w3.org/2001/XMLSchema#string>", "^^x:y", " x:y", "x:y "]).to_string()),
                    _ => {}
                }
            }
        }
        // a value where a list of it has to be, and the other way round
        J::Arr(v) if v.len() == 1 && rng.chance(1, 4) => *j = v.remove(0),
        J::Obj(v) if !v.is_empty() && rng.chance(1, 12) => {
            let k = rng.below(v.len());
            let x = std::mem::replace(&mut v[k].1, J::Null);
            v[k].1 = J::Arr(vec![x]);
        }
        // a member that says nothing
        J::Obj(v) if v.iter().any(|x| x.0 == "type") && rng.chance(1, 8) => {
            let key = rng.pick(&["type", "value", "lang", "datatype"]).to_string();
            let x = rng.pick(&[J::Null, J::Str(String::new()), J::Bool(false), J::Num("0".into()), J::Arr(vec![]), J::Obj(vec![])]).clone();
            match v.iter().position(|m| m.0 == key) {
                Some(k) => v[k].1 = x,
                None => v.insert(rng.below(v.len() + 1), (key, x)),
            }
        }
        // a text with something around it
        J::Str(s) if rng.chance(1, 3) => *s = around(rng, s),
        J::Obj(v) if !v.is_empty() && rng.chance(4, 5) => {
            let k = rng.below(v.len());
            match rng.below(24) {
                10 => v[k].0 = around(rng, &v[k].0),
                0 => {
                    v.remove(k);
                }
                1 => v[k].1 = other(rng),
                2 => v[k].0 = rng.pick(&["type", "value", "lang", "datatype", "_:x", "x", "", "_:", "_:a b", "http://example.org/ x", "x:y", "<x:y>"]).to_string(),
                3 => {
                    let key = rng.pick(&["type", "value", "lang", "datatype", "more"]).to_string();
                    let x = other(rng);
                    v.push((key, x));
                }
                _ => damage(rng, &mut v[k].1),
            }
        }
        J::Arr(v) if !v.is_empty() && rng.chance(4, 5) => {
            let k = rng.below(v.len());
            damage(rng, &mut v[k]);
        }
        J::Arr(v) if rng.bool() => {
            let x = other(rng);
            v.push(x);
        }
        _ => *j = other(rng),
    }
}

fn judge(c: &mut Case<'_>, text: &str) -> Check {
    let got = JsonReader::default().read_from_string(text);
    let verdict = match parse_json(text) {
        Err(e) => Verdict::Bad(format!("no JSON: {e}")),
        Ok(j) => triples(&j),
    };
    match (verdict, got) {
        (Verdict::Open, _) => c.count("not judged", 1),
        (Verdict::Bad(why), Ok(g)) => fail!("{text:?} is no such document ({why}), and is read as {} statements", g.len()),
        (Verdict::Bad(_), Err(_)) => c.count("refused", 1),
        (Verdict::Triples(_), Err(e)) => fail!("{text:?} is refused: {e}"),
        (Verdict::Triples(ts), Ok(g)) => {
            same_multiset(&lower_langs(&from_lib_graph(&g)), &lower_langs(&ts), &format!("reading {text:?}"))?;
            c.count("accepted", 1);
        }
    }
    Ok(())
}

fn surface(rng: &mut Rng) -> Vec<Triple> {
    let cfg = Cfg { iris: 4, blanks: 4, max_statements: 8, ..Cfg::default() };
    let large = Cfg { iris: 200, blanks: 300, max_statements: 1500, ..Cfg::default() };
    let cfg = if rng.chance(1, 4000) { large } else { cfg };
    Pool::new(rng, &cfg).triples(rng)
}

pub fn w04(r: &mut Runner) {
    r.rule("Random graphs, written plainly and pretty, parsed with a strict JSON parser that sees duplicate keys, compared with the model's flattening and read back; documents generated as JSON trees, and trees and texts damaged, for the reader. Distinct by the graph or document; non-trivial when it has statements.");
    r.assume("Keys that occur twice, members RDF/JSON does not define and IRIs in angle brackets are accepted or not, and so are blank node labels with ':'; the property is silent about them. Subject keys in angle brackets are judged apart.");
    let body = |c: &mut Case<'_>, ts: Vec<Triple>| -> Check {
        let (map, _) = mappings(&mut c.rng);
        let unique = c.rng.bool();
        let g = graph_of(&ts, Some(map), None, unique);
        let plain = JsonWriter::default().write_to_string(&g).map_err(|e| e.to_string())?;
        let mut options = JsonOptions::default();
        if c.rng.bool() {
            options = options.with_pretty_print(true);
        } else {
            options.set_pretty_print(true);
        }
        ensure!(options.pretty_print() && !JsonOptions::default().pretty_print(), "pretty_print");
        let pretty = JsonWriter::default().with_options(options).write_to_string(&g).map_err(|e| e.to_string())?;
        let tree = parse_json(&plain).map_err(|e| format!("what is written is not JSON: {e}: {plain:?}"))?;
        let (observed, bracketed) = written(&tree).map_err(|e| format!("what is written is not RDF/JSON: {e}: {plain:?}"))?;
        let ts = if unique { dedup(&ts) } else { ts };
        same_graph(&observed, &flatten(&ts, true), &format!("the RDF/JSON written for [{}]", show_all(&ts)))?;
        let back = JsonReader::default().read_from_string(&plain).map_err(|e| format!("reading back {plain:?}: {e}"))?;
        same_multiset(&from_lib_graph(&back), &observed, "the graph read back")?;
        let tree2 = parse_json(&pretty).map_err(|e| format!("what is written pretty is not JSON: {e}: {pretty:?}"))?;
        let (observed2, _) = written(&tree2).map_err(|e| format!("what is written pretty is not RDF/JSON: {e}: {pretty:?}"))?;
        same_graph(&observed2, &observed, "the pretty RDF/JSON")?;
        if !is_nested(&ts) {
            same_multiset(&observed2, &observed, "the pretty RDF/JSON")?;
        }
        ensure!(observed.is_empty() || pretty.lines().count() > plain.lines().count(), "pretty is not: {pretty:?}");
        c.count("subject keys in brackets", bracketed as u64);
        c.count(if is_nested(&ts) { "nested graphs" } else { "flat graphs" }, 1);
        c.count("statements", observed.len() as u64);
        if !ts.is_empty() {
            c.distinct(&ts);
        }
        c.sample(|| plain.clone());
        Ok(())
    };
    let n = r.n(16_000, 12);
    r.section("graphs", n, |c| {
        let cfg = some_cfg(c);
        let ts = some_triples(c, &cfg);
        body(c, ts)
    });
    let n = r.n(3, 4);
    r.section("huge graphs", n, |c| {
        let ts = huge_triples(c);
        body(c, ts)
    });
    r.section_seq("subject keys", 1, |c| {
        let ts = vec![Triple::new(iri("http://example.org/s"), "http://example.org/p", iri("http://example.org/o"))];
        let text = JsonWriter::default().write_to_string(&graph_of(&ts, None, None, false)).map_err(|e| e.to_string())?;
        c.count("subject keys", 1);
        if text == r#"{"<http://example.org/s>":{"http://example.org/p":[{"type":"uri","value":"http://example.org/o"}]}}"# {
            return Err(Fail { sig: "bracketed-subject-key".into(), msg: format!("the subject key has angle brackets: {text}") });
        }
        ensure_eq!(text, r#"{"http://example.org/s":{"http://example.org/p":[{"type":"uri","value":"http://example.org/o"}]}}"#, "one statement");
        Ok(())
    });
    let n = r.n(16_000, 12);
    r.section("documents", n, |c| {
        let ts = surface(&mut c.rng);
        let j = document_of(&mut c.rng, &ts);
        let mut text = String::new();
        show_json(&mut c.rng, &j, &mut text);
        match parse_json(&text).map(|j| triples(&j)) {
            Ok(Verdict::Triples(_)) => {}
            Ok(Verdict::Bad(_)) => {
                c.count("IRI or language tag refused", 1);
            }
            _ => panic!("the oracle and the generator disagree on {text:?}"),
        }
        judge(c, &text)?;
        c.count("documents", 1);
        c.distinct(&text);
        c.sample(|| text.clone());
        Ok(())
    });
    let n = r.n(60_000, 8);
    r.section("damaged trees", n, |c| {
        let ts = surface(&mut c.rng);
        let mut j = document_of(&mut c.rng, &ts);
        for _ in 0..c.rng.range(1, 2) {
            damage(&mut c.rng, &mut j);
        }
        let mut text = String::new();
        show_json(&mut c.rng, &j, &mut text);
        judge(c, &text)?;
        c.distinct(&text);
        Ok(())
    });
    let n = r.n(30_000, 12);
    r.section("damaged text", n, |c| {
        let ts = surface(&mut c.rng);
        let j = document_of(&mut c.rng, &ts);
        let mut text = String::new();
        show_json(&mut c.rng, &j, &mut text);
        let text = mutate(&mut c.rng, &text);
        judge(c, &text)?;
        c.distinct(&text);
        Ok(())
    });
    r.require("nested graphs", 2000);
    r.require("flat graphs", 2000);
    r.require("documents", 8000);
    r.require("accepted", 8000);
    r.require("refused", 8000);
}
