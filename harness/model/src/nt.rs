//! A strict parser of N-Triples and N-Quads, from the grammars of the W3C recommendations.
//! Embedded triples (`<< s p o >>`) are accepted when asked for.

use crate::{Lit, Node, Triple};

pub struct P<'a> {
    pub s: &'a [char],
    pub i: usize,
    pub star: bool,
    /// White space of any kind, and comments, anywhere between the tokens.
    pub lenient: bool,
}

pub type R<T> = Result<T, String>;

fn pn_chars_base(c: char) -> bool {
    vmon::gen::pn_chars_base(c)
}

fn pn_chars_u_nt(c: char) -> bool {
    // PN_CHARS_U of N-Triples and N-Quads 1.1 has ':' as well
    pn_chars_base(c) || c == '_' || c == ':'
}

fn pn_chars_nt(c: char) -> bool {
    pn_chars_u_nt(c) || vmon::gen::pn_chars(c)
}

impl<'a> P<'a> {
    pub fn new(s: &'a [char], star: bool) -> Self {
        P { s, i: 0, star, lenient: false }
    }
    pub fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    pub fn at(&self, t: &str) -> bool {
        t.chars().enumerate().all(|(k, c)| self.s.get(self.i + k) == Some(&c))
    }
    pub fn eat(&mut self, t: &str) -> bool {
        let yes = self.at(t);
        if yes {
            self.i += t.chars().count();
        }
        yes
    }
    pub fn err<T>(&self, what: &str) -> R<T> {
        let from = self.i.saturating_sub(20);
        let to = (self.i + 30).min(self.s.len());
        Err(format!(
            "{what} expected at {} after {:?} before {:?}",
            self.i,
            self.s[from..self.i].iter().collect::<String>(),
            self.s[self.i..to].iter().collect::<String>()
        ))
    }
    pub fn ws(&mut self) {
        loop {
            match self.peek() {
                Some(' ' | '\t') => self.i += 1,
                Some('\n' | '\r') if self.lenient => self.i += 1,
                Some('#') if self.lenient => {
                    while !matches!(self.peek(), None | Some('\n' | '\r')) {
                        self.i += 1;
                    }
                }
                _ => return,
            }
        }
    }
    fn uchar(&mut self) -> R<char> {
        // after the backslash
        let n = match self.peek() {
            Some('u') => 4,
            Some('U') => 8,
            _ => return self.err("u or U"),
        };
        self.i += 1;
        let mut v = 0u32;
        for _ in 0..n {
            let Some(d) = self.peek().and_then(|c| c.to_digit(16)) else { return self.err("hex digit") };
            v = v.wrapping_mul(16) + d;
            self.i += 1;
        }
        char::from_u32(v).ok_or_else(|| format!("\\u escape of {v:x}"))
    }
    pub fn iriref(&mut self) -> R<String> {
        if !self.eat("<") {
            return self.err("<");
        }
        let mut out = String::new();
        loop {
            let Some(c) = self.peek() else { return self.err(">") };
            self.i += 1;
            match c {
                '>' => return Ok(out),
                '\\' => out.push(self.uchar()?),
                '\0'..=' ' | '<' | '"' | '{' | '}' | '|' | '^' | '`' => {
                    self.i -= 1;
                    return self.err("a character of IRIREF");
                }
                c => out.push(c),
            }
        }
    }
    pub fn blank(&mut self) -> R<String> {
        if !self.eat("_:") {
            return self.err("_:");
        }
        let mut out = String::new();
        match self.peek() {
            Some(c) if pn_chars_u_nt(c) || c.is_ascii_digit() => out.push(c),
            _ => return self.err("first character of a blank node label"),
        }
        self.i += 1;
        let mut dots = 0;
        while let Some(c) = self.peek() {
            if c == '.' {
                dots += 1;
            } else if pn_chars_nt(c) {
                out.extend(std::iter::repeat_n('.', dots));
                dots = 0;
                out.push(c);
            } else {
                break;
            }
            self.i += 1;
        }
        self.i -= dots;
        Ok(out)
    }
    pub fn string(&mut self) -> R<String> {
        if !self.eat("\"") {
            return self.err("\"");
        }
        let mut out = String::new();
        loop {
            let Some(c) = self.peek() else { return self.err("\"") };
            self.i += 1;
            match c {
                '"' => return Ok(out),
                '\n' | '\r' => {
                    self.i -= 1;
                    return self.err("a character of STRING_LITERAL_QUOTE");
                }
                '\\' => {
                    let e = self.peek();
                    let v = match e {
                        Some('t') => '\t',
                        Some('b') => '\u{8}',
                        Some('n') => '\n',
                        Some('r') => '\r',
                        Some('f') => '\u{c}',
                        Some(c @ ('"' | '\'' | '\\')) => c,
                        _ => {
                            out.push(self.uchar()?);
                            continue;
                        }
                    };
                    self.i += 1;
                    out.push(v);
                }
                c => out.push(c),
            }
        }
    }
    pub fn langtag(&mut self) -> R<String> {
        // after the '@'
        let start = self.i;
        while matches!(self.peek(), Some(c) if c.is_ascii_alphabetic()) {
            self.i += 1;
        }
        if self.i == start {
            return self.err("language tag");
        }
        loop {
            let mark = self.i;
            if !self.eat("-") {
                break;
            }
            let n = self.i;
            while matches!(self.peek(), Some(c) if c.is_ascii_alphanumeric()) {
                self.i += 1;
            }
            if self.i == n {
                self.i = mark;
                break;
            }
        }
        Ok(self.s[start..self.i].iter().collect())
    }
    pub fn literal(&mut self) -> R<Lit> {
        let value = self.string()?;
        if self.lenient {
            self.ws();
        }
        if self.eat("^^") {
            if self.lenient {
                self.ws();
            }
            Ok(Lit { value, dt: Some(self.iriref()?), lang: None })
        } else if self.eat("@") {
            Ok(Lit { value, dt: None, lang: Some(self.langtag()?) })
        } else {
            Ok(Lit { value, dt: None, lang: None })
        }
    }
    fn embedded(&mut self) -> R<Node> {
        self.i += 2;
        let t = self.triple()?;
        self.ws();
        if !self.eat(">>") {
            return self.err(">>");
        }
        Ok(Node::Triple(Box::new(t)))
    }
    pub fn subject(&mut self) -> R<Node> {
        self.ws();
        if self.star && self.at("<<") {
            return self.embedded();
        }
        match self.peek() {
            Some('<') => Ok(Node::Iri(self.iriref()?)),
            Some('_') => Ok(Node::Blank(self.blank()?)),
            _ => self.err("subject"),
        }
    }
    pub fn object(&mut self) -> R<Node> {
        self.ws();
        if self.peek() == Some('"') {
            Ok(Node::Lit(self.literal()?))
        } else {
            self.subject()
        }
    }
    pub fn triple(&mut self) -> R<Triple> {
        let s = self.subject()?;
        self.ws();
        let p = self.iriref()?;
        let o = self.object()?;
        Ok(Triple { s, p, o })
    }
    pub fn document(&mut self, quads: bool) -> R<Vec<(Triple, Option<Node>)>> {
        let mut out = Vec::new();
        loop {
            self.ws();
            match self.peek() {
                None => return Ok(out),
                Some('\n' | '\r') => {
                    self.i += 1;
                    continue;
                }
                Some('#') => {
                    while !matches!(self.peek(), None | Some('\n' | '\r')) {
                        self.i += 1;
                    }
                    continue;
                }
                _ => {}
            }
            let t = self.triple()?;
            self.ws();
            let g = if quads && matches!(self.peek(), Some('<' | '_')) { Some(self.subject()?) } else { None };
            self.ws();
            if !self.eat(".") {
                return self.err(".");
            }
            self.ws();
            if self.peek() == Some('#') {
                while !matches!(self.peek(), None | Some('\n' | '\r')) {
                    self.i += 1;
                }
            }
            match self.peek() {
                None | Some('\n' | '\r') => {}
                _ if self.lenient => {}
                _ => return self.err("end of line"),
            }
            out.push((t, g));
        }
    }
}

pub fn parse(text: &str, quads: bool, star: bool) -> R<Vec<(Triple, Option<Node>)>> {
    let chars: Vec<char> = text.chars().collect();
    P::new(&chars, star).document(quads)
}

/// As `parse`, with white space of any kind, and comments, anywhere between the tokens.
pub fn parse_lenient(text: &str, quads: bool) -> R<Vec<(Triple, Option<Node>)>> {
    let chars: Vec<char> = text.chars().collect();
    let mut p = P::new(&chars, false);
    p.lenient = true;
    p.document(quads)
}

/// One literal, and nothing else.
pub fn parse_literal(text: &str) -> R<Lit> {
    let chars: Vec<char> = text.chars().collect();
    let mut p = P::new(&chars, false);
    let l = p.literal()?;
    if p.i == chars.len() {
        Ok(l)
    } else {
        p.err("end")
    }
}
