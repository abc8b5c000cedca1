//! W10, W11, W12: hostile input, failing I/O, and instances used again.

use crate::util::*;
use crate::{lines, turtle, w3c, xml};
use objio::{HasOptions, ObjectReader, ObjectWriter};
use rdfmodel::*;
use rdftk_core::error::Error;
use rdftk_core::model::data_set::DataSet;
use rdftk_core::model::graph::Graph;
use rdftk_io::dot::DotWriter;
use rdftk_io::json::{JsonOptions, JsonReader, JsonWriter};
use rdftk_io::nq::{NQuadReader, NQuadWriter};
use rdftk_io::nt::{NTripleReader, NTripleWriter};
use rdftk_io::trig::{TrigWriter, TrigWriterOptions};
use rdftk_io::turtle::TurtleWriter;
use rdftk_io::xml::{XmlOptions, XmlReader, XmlWriter};
use std::collections::BTreeSet;
use std::io::{self, Read, Write};
use vmon::{ensure, ensure_eq, fail, Case, Check, Fail, Rng, Runner};

/// The readers that there are; those of Turtle, TriG and N3 are not written, as the crate's table of formats says.
pub const READERS: &[&str] = &["nt", "nq", "json", "xml"];

pub fn read_with(kind: &str, r: &mut impl Read) -> Result<Vec<Quad>, String> {
    let graph = |g: Graph| from_lib_graph(&g).into_iter().map(|t| (t, None)).collect();
    match kind {
        "nt" => NTripleReader::default().read(r).map(graph),
        "nq" => NQuadReader::default().read(r).map(|d| from_lib_data_set(&d)),
        "json" => JsonReader::default().read(r).map(graph),
        _ => XmlReader::default().read(r).map(graph),
    }
    .map_err(|e| e.to_string())
}

fn same_result(a: &Result<Vec<Quad>, String>, b: &Result<Vec<Quad>, String>, what: &str) -> Check {
    match (a, b) {
        (Ok(a), Ok(b)) => same_quads(a, b, what),
        (Err(_), Err(_)) => Ok(()),
        (Ok(a), Err(b)) => fail!("{what}: read as {} statements, and refused: {b}", a.len()),
        (Err(a), Ok(b)) => fail!("{what}: refused, {a}, and read as {} statements", b.len()),
    }
}

// ------------------------------------------------------------------------------------------------
// Documents

fn flat_triples(c: &mut Case<'_>) -> Vec<Triple> {
    let mut cfg = some_cfg(c);
    (cfg.lists, cfg.nested) = (false, false);
    some_triples(c, &cfg)
}

/// A document of the kind, and the statements in it when they are known.
pub fn document(c: &mut Case<'_>, kind: &str) -> String {
    loop {
        let ts = flat_triples(c);
        let g = graph_of(&ts, None, None, true);
        let text = match kind {
            "nt" if c.rng.bool() => lines::write_document(&mut c.rng, &ts.iter().map(|t| (t.clone(), None)).collect::<Vec<_>>()),
            "nt" => NTripleWriter::default().write_to_string(&g).unwrap(),
            "nq" => {
                let mut cfg = some_cfg(c);
                (cfg.lists, cfg.nested) = (false, false);
                let gs = some_quads(c, &cfg);
                ObjectWriter::<DataSet>::write_to_string(&NQuadWriter::default(), &data_set_of(&gs, &mut c.rng)).unwrap()
            }
            "json" => {
                // without the subjects that JsonWriter writes as JsonReader does not read
                let ts: Vec<Triple> = ts.into_iter().filter(|t| matches!(t.s, Node::Blank(_))).collect();
                let g = graph_of(&ts, None, None, true);
                JsonWriter::default().with_options(if c.rng.bool() { JsonOptions::default().with_pretty_print(true) } else { JsonOptions::default() }).write_to_string(&g).unwrap()
            }
            _ if c.rng.bool() => xml::generate(c),
            _ => match XmlWriter::default().with_options(XmlOptions::default().striped()).write_to_string(&g) {
                Ok(t) => t,
                Err(_) => continue,
            },
        };
        return text;
    }
}

pub fn mutate_bytes(rng: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..rng.range(1, 4) {
        let n = b.len();
        match rng.below(11) {
            _ if n == 0 => b.push(rng.below(256) as u8),
            0 => b[rng.below(n)] = rng.below(256) as u8,
            1 => b[rng.below(n)] ^= 1 << rng.below(8),
            2 => {
                b.remove(rng.below(n));
            }
            3 => b.insert(rng.below(n), rng.below(256) as u8),
            4 => b.truncate(rng.below(n)),
            5 => {
                let (i, j) = (rng.below(n), rng.below(n));
                let part = b[i.min(j)..i.max(j)].to_vec();
                let at = rng.below(n);
                b.splice(at..at, part);
            }
            6 => {
                let (i, j) = (rng.below(n), rng.below(n));
                b.drain(i.min(j)..i.max(j));
            }
            7 => {
                let at = rng.below(n);
                let t: &[u8] = *rng.pick(&[&b"\xff"[..], b"\xed\xa0\x80", b"\xc0\x80", b"\xf4\x90\x80\x80", b"\xef\xbb\xbf", b"\0", b"\xe2\x80\xa8", b"\\uD800", b"&#0;", b"&#xD800;", b"]]>", b"<!--", b"<![CDATA[", b"<?xml?>", b"\"", b"\\", b"^^", b"@", b"_:", b"\\u", b"&", b"<!DOCTYPE a [<!ENTITY b \"c\">]>", b"\r", b"\n.", b"1e999", b"{\"a\":", b"[[[["]);
                b.splice(at..at, t.iter().copied());
            }
            8 | 9 => {
                // what is between two quotes, brackets or tags, for something else of that kind or none
                let ends: Vec<usize> = (0..n).filter(|&i| matches!(b[i], b'"' | b'\'' | b'<' | b'>' | b'@' | b' ' | b'\n')).collect();
                if ends.len() < 2 {
                    continue;
                }
                let span = |rng: &mut Rng| {
                    let k = rng.below(ends.len() - 1);
                    (ends[k] + 1, ends[k + 1])
                };
                let (i, j) = span(rng);
                let to: Vec<u8> = if rng.bool() {
                    let (x, y) = span(rng);
                    b[x..y].to_vec()
                } else {
                    rng.pick(&["", "not a tag", "-", "en-", "abcdefghij", "e", "1", "a:", "::", "http://", "http://[", "http://a:b/", "//", "_:", "_:-", "_:a b", "_:a.", "x:y", "literal", "uri", "bnode", "\\u0000", "rdf:li", "RDF", ":", "a:b:c", "xmlns", "xmlns:xmlns", "xml:lang", "http://a/%", "http://a/\u{0}", "http://\u{ad}/", "http://a/\\u0020"]).as_bytes().to_vec()
                };
                b.splice(i..j, to);
            }
            _ => {
                let i = rng.below(n);
                let part = b.split_off(i);
                b.splice(0..0, part);
            }
        }
    }
}

/// What is wrong, or only just right, for an IRI, a label, a tag or a name.
const HOSTILE: &[&str] = &[
    "", " ", "not a tag", "-", "en-", "-en", "abcdefghij", "en-abcdefghij", "e", "1", "1-a", "x", "x-", "en-x", "en-a", "en-u-", "é", "a:", "::", ":", ":a", "http://", "http:", "http:a", "http://[", "http://[::1]", "http://[z]/", "http://a:b/", "http://a:99999/", "http://a b/", "//", "//a", "/a", "?a", "#a", "_:", "_:-", "_:a b", "_:a.",
    "_:.", "_", "a.", "x:y", "literal", "uri", "bnode", "\0", "\u{1}", "\n", "a\nb", "\u{feff}", "\u{ad}", "\u{10ffff}", "http://a/%", "http://a/%zz", "http://a/\0", "http://\u{ad}/", "http://%41/", "http://xn--/", "http://a\u{200d}b/", "http://é/", "file:", "file://", "file:///", "urn:", "data:,", "mailto:", "javascript:", "blob:", "1:a", "a_b:c", "a:b:c", "xmlns", "xml", "rdf:li", "{}",
    "http://example.org/", "http://example.org/a", "http://example.org/a#", "http://example.org/a#b#c", "urn:x:y", "a", "B1", "en", "x-a",
];

/// A document with one or more statements of which any part may be hostile.
fn values(rng: &mut Rng, kind: &str) -> String {
    fn slot(rng: &mut Rng, good: &str) -> String {
        if rng.chance(1, 3) { rng.pick(HOSTILE).to_string() } else { good.to_string() }
    }
    fn iri(rng: &mut Rng) -> String {
        slot(rng, "http://example.org/x")
    }
    match kind {
        "json" => {
            let q = |s: &str| {
                let mut t = String::from("\"");
                for ch in s.chars() {
                    match ch {
                        '"' | '\\' => t.extend(['\\', ch]),
                        c if c < ' ' => t += &format!("\\u{:04x}", c as u32),
                        c => t.push(c),
                    }
                }
                t + "\""
            };
            let mut subjects = vec![];
            for k in 0..rng.range(1, 2) {
                let mut o = vec![];
                for _ in 0..rng.range(1, 2) {
                    let ty = rng.pick(&["literal", "uri", "bnode"]).to_string();
                    let v = match ty.as_str() {
                        "uri" => iri(rng),
                        "bnode" => slot(rng, "_:b"),
                        _ => slot(rng, "v"),
                    };
                    let mut t = format!("{{\"type\":{},\"value\":{}", q(&slot(rng, &ty)), q(&v));
                    if rng.chance(2, 5) {
                        t += &format!(",\"lang\":{}", q(&slot(rng, "en")));
                    }
                    if rng.chance(1, 5) {
                        t += &format!(",\"datatype\":{}", q(&iri(rng)));
                    }
                    o.push(t + "}");
                }
                let s = if rng.bool() { iri(rng) } else { slot(rng, &format!("_:s{k}")) };
                subjects.push(format!("{}:{{{}:[{}]}}", q(&s), q(&iri(rng)), o.join(",")));
            }
            format!("{{{}}}", subjects.join(","))
        }
        "xml" => {
            let q = |s: &str| format!("'{}'", s.replace('&', "&amp;").replace('<', "&lt;").replace('\'', "&#39;"));
            let mut s = format!("<r:RDF xmlns:r='http://www.w3.org/1999/02/22-rdf-syntax-ns#' xmlns:e='http://e/' xmlns:f={}", q(&iri(rng)));
            let common = |rng: &mut Rng| {
                let mut s = String::new();
                if rng.chance(1, 4) {
                    s += &format!(" xml:lang={}", q(&slot(rng, "en")));
                }
                if rng.chance(1, 4) {
                    s += &format!(" xml:base={}", q(&iri(rng)));
                }
                s
            };
            s += &common(rng);
            s += "><r:Description";
            s += &match rng.below(4) {
                0 => format!(" r:about={}", q(&iri(rng))),
                1 => format!(" r:nodeID={}", q(&slot(rng, "b"))),
                2 => format!(" r:ID={}", q(&slot(rng, "i"))),
                _ => String::new(),
            };
            s += &common(rng);
            if rng.chance(1, 4) {
                s += &format!(" r:type={}", q(&iri(rng)));
            }
            s += ">";
            for _ in 0..rng.range(1, 2) {
                let name = rng.pick(&["e:p", "f:p", "r:li", "r:_1"]);
                s += &format!("<{name}{}", common(rng));
                if rng.chance(1, 6) {
                    s += &format!(" r:ID={}", q(&slot(rng, "j")));
                }
                s += &match rng.below(6) {
                    0 => format!(" r:resource={}/>", q(&iri(rng))),
                    1 => format!(" r:nodeID={}/>", q(&slot(rng, "b"))),
                    2 => format!(" r:datatype={}>v</{name}>", q(&iri(rng))),
                    3 => format!(" r:parseType={}><f:T f:q='v'/></{name}>", {
                        let good = *rng.pick(&["Literal", "Resource", "Collection"]);
                        q(&slot(rng, good))
                    }),
                    4 => " f:q='v'/>".to_string(),
                    _ => format!(">v</{name}>"),
                };
            }
            s + "</r:Description></r:RDF>"
        }
        _ => {
            let mut s = String::new();
            for _ in 0..rng.range(1, 2) {
                let subject = if rng.bool() { format!("<{}>", iri(rng)) } else { format!("_:{}", slot(rng, "b")) };
                let object = match rng.below(4) {
                    0 => format!("<{}>", iri(rng)),
                    1 => format!("_:{}", slot(rng, "b")),
                    2 => format!("\"{}\"@{}", slot(rng, "v"), slot(rng, "en")),
                    _ => format!("\"{}\"^^<{}>", slot(rng, "v"), iri(rng)),
                };
                let graph = match rng.below(3) {
                    0 if kind == "nq" => format!(" <{}>", iri(rng)),
                    1 if kind == "nq" => format!(" _:{}", slot(rng, "g")),
                    _ => String::new(),
                };
                s += &format!("{subject} <{}> {object}{graph} .\n", iri(rng));
            }
            s
        }
    }
}

pub fn w10(r: &mut Runner) {
    r.rule("Bytes of every kind given to every reader that is written: mutated documents, W3C tests of all formats, cut at every byte, random tokens and bytes, text that is not UTF-8, and large and deep documents; each must be read or refused, the same way each time, and never panic, hang or crash. Distinct by the bytes and reader.");
    r.assume("The readers of Turtle, TriG and N3 are not written yet, as the crate's documentation says.");
    let n = r.n(48_000, 10);
    r.section("mutated bytes", n, |c| {
        let kind = READERS[c.index as usize % 4];
        let mut b = document(c, kind).into_bytes();
        mutate_bytes(&mut c.rng, &mut b);
        total(c, kind, &b)
    });
    let n = r.n(40_000, 10);
    r.section("values", n, |c| {
        let kind = READERS[c.index as usize % 4];
        let text = values(&mut c.rng, kind);
        c.count("documents of values", 1);
        total(c, kind, text.as_bytes())
    });
    let n = r.n(30_000, 10);
    r.section("tokens", n, |c| {
        let kind = READERS[c.index as usize % 4];
        let tokens: &[&str] = match kind {
            "json" => &["{", "}", "[", "]", ":", ",", "\"a\"", "\"type\"", "\"value\"", "\"uri\"", "\"literal\"", "\"bnode\"", "\"_:a\"", "\"http://e/\"", "\"lang\"", "\"en\"", "\"datatype\"", "1", "-1e9", "true", "null", "\"\\u0000\"", "\"\\uD800\"", "\"", " "],
            "xml" => &[
                "<r:RDF xmlns:r='http://www.w3.org/1999/02/22-rdf-syntax-ns#' xmlns:e='http://e/'>", "</r:RDF>", "<r:Description>", "</r:Description>", "<r:Description r:nodeID='a'>", "<e:p>", "</e:p>", "<e:p/>", "<e:p r:parseType='Literal'>", "<e:p r:parseType='Resource'>", "<e:p r:parseType='Collection'>", "<r:li/>",
                "<r:Seq>", "</r:Seq>", "text", " ", "&amp;", "&#65;", "<!-- c -->", "<![CDATA[x]]>", "<?p i?>", "<?xml version='1.1'?>", "<e:p r:resource='http://e/x'/>", "<e:p r:ID='i'>", "<a>", "</a>",
            ],
            _ => &["<http://e/a>", "<a>", "_:b", "_:", "\"x\"", "\"", "^^", "@en", "@", ".", "\n", " ", "#", "# c\n", "\\u0041", "\\", "<<", ">>", "\t", "\r\n", "1", "true", "a"],
        };
        let mut s = String::new();
        for _ in 0..c.rng.range(0, 16) {
            s.push_str(c.rng.pick(tokens));
            if c.rng.chance(1, 3) {
                s.push(' ');
            }
        }
        if kind == "xml" && c.rng.bool() {
            s = format!("{}{s}</r:RDF>", tokens[0]);
        }
        total(c, kind, s.as_bytes())
    });
    let n = r.n(16_000, 10);
    r.section("random bytes", n, |c| {
        let kind = READERS[c.index as usize % 4];
        let n = c.rng.range(0, 40);
        let ascii = c.rng.bool();
        let b: Vec<u8> = (0..n).map(|_| if ascii { c.rng.range(9, 126) as u8 } else { c.rng.below(256) as u8 }).collect();
        total(c, kind, &b)
    });
    let n = r.n(160, 6);
    r.section("cut at every byte", n, |c| {
        let kind = READERS[c.index as usize % 4];
        let mut b = document(c, kind).into_bytes();
        b.truncate(1500);
        for k in 0..b.len() {
            total(c, kind, &b[..k])?;
        }
        c.count("documents cut", 1);
        Ok(())
    });
    let mut files = vec![];
    for (d, e) in [("nt", "nt"), ("nq", "nq"), ("turtle", "ttl"), ("trig", "trig"), ("xml", "rdf")] {
        files.extend(w3c::files(d, e));
    }
    r.section("W3C, every format to every reader", files.len() as u64 * 4, |c| {
        let kind = READERS[c.index as usize % 4];
        let b = std::fs::read(&files[c.index as usize / 4]).map_err(|e| e.to_string())?;
        total(c, kind, &b)?;
        let mut b = b;
        mutate_bytes(&mut c.rng, &mut b);
        total(c, kind, &b)?;
        c.count("W3C files", 1);
        Ok(())
    });
    r.section("large", 4, |c| {
        let kind = READERS[c.index as usize];
        let n = if c.thorough() { 30_000 } else { 4_000 };
        let mut s = String::new();
        let long = "x".repeat(200_000);
        match kind {
            "json" => {
                s.push('{');
                for k in 0..n {
                    s += &format!("\"_:b{k}\":{{\"http://e/p\":[{{\"type\":\"literal\",\"value\":\"{k}\"}}]}},");
                }
                s += &format!("\"_:c\":{{\"http://e/p\":[{{\"type\":\"literal\",\"value\":\"{long}\"}}]}}}}");
            }
            "xml" => {
                s += "<r:RDF xmlns:r='http://www.w3.org/1999/02/22-rdf-syntax-ns#' xmlns:e='http://e/'>";
                for k in 0..n {
                    s += &format!("<r:Description r:nodeID='b{k}'><e:p>{k}</e:p></r:Description>");
                }
                s += &format!("<r:Description r:nodeID='c'><e:p>{long}</e:p></r:Description></r:RDF>");
            }
            _ => {
                for k in 0..n {
                    s += &format!("_:b{k} <http://e/p> \"{k}\" .\n");
                }
                s += &format!("_:c <http://e/p> \"{long}\" .\n");
            }
        }
        let got = read_with(kind, &mut s.as_bytes()).map_err(|e| format!("a large {kind} document is refused: {e}"))?;
        ensure_eq!(got.len(), n + 1, "statements of a large {kind} document");
        c.count("large documents", 1);
        c.distinct(&("large", kind));
        Ok(())
    });
    // in processes of their own, which they may end
    r.section_seq("deep", 3 * 4, |c| {
        let (what, depth) = (["xml", "xml-literal", "json"][c.index as usize / 4], [20, 200, 5_000, 50_000][c.index as usize % 4]);
        let exe = std::env::current_exe().map_err(|e| e.to_string())?;
        let out = std::process::Command::new(exe).args(["deep", what, &depth.to_string()]).output().map_err(|e| e.to_string())?;
        c.count("deep documents", 1);
        c.distinct(&(what, depth));
        if !out.status.success() {
            let msg = format!("{what} nested {depth} deep: {}: {}", out.status, String::from_utf8_lossy(&out.stderr).chars().take(300).collect::<String>());
            let sig = if depth > 4_000 { format!("deep-{what}") } else { format!("less-deep-{what}") };
            return Err(Fail { sig, msg });
        }
        Ok(())
    });
    for e in ["nt read", "nq read", "json read", "xml read", "nt refused", "nq refused", "json refused", "xml refused", "not UTF-8"] {
        r.require(e, 400);
    }
    r.require("documents of values", 20_000);
    r.require("deep documents", 12);
    r.require("large documents", 4);
}

/// Read a deep document; the process ends with it when the reader cannot.
pub fn deep(what: &str, depth: usize) {
    let text = match what {
        "xml" => {
            let mut s = "<r:RDF xmlns:r='http://www.w3.org/1999/02/22-rdf-syntax-ns#' xmlns:e='http://e/'>".to_string();
            s += &"<r:Description><e:p>".repeat(depth);
            s += &"</e:p></r:Description>".repeat(depth);
            s + "</r:RDF>"
        }
        "xml-literal" => {
            let mut s = "<r:RDF xmlns:r='http://www.w3.org/1999/02/22-rdf-syntax-ns#' xmlns:e='http://e/'><r:Description><e:p r:parseType='Literal'>".to_string();
            s += &"<a>".repeat(depth);
            s += &"</a>".repeat(depth);
            s + "</e:p></r:Description></r:RDF>"
        }
        _ => "[".repeat(depth),
    };
    let kind = if what == "json" { "json" } else { "xml" };
    match read_with(kind, &mut text.as_bytes()) {
        Ok(v) => println!("{} statements", v.len()),
        Err(e) => println!("refused: {e}"),
    }
}

fn total(c: &mut Case<'_>, kind: &str, b: &[u8]) -> Check {
    let first = read_with(kind, &mut &b[..]);
    let second = read_with(kind, &mut &b[..]);
    same_result(&first, &second, &format!("{kind}: {:?} twice", String::from_utf8_lossy(b)))?;
    if std::str::from_utf8(b).is_err() {
        c.count("not UTF-8", 1);
        // XML has other encodings
        if kind != "xml" {
            ensure!(first.is_err(), "{kind}: bytes that are not UTF-8 are read: {:?}", String::from_utf8_lossy(b));
        }
    }
    c.count(&format!("{kind} {}", if first.is_ok() { "read" } else { "refused" }), 1);
    if let Err(e) = &first {
        ensure!(!e.is_empty(), "an error without a text");
    }
    c.distinct(&(kind, b));
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// I/O that fails

/// Gives what it has a few bytes at a time, is interrupted now and then, and fails at a place.
struct Source<'a> {
    data: &'a [u8],
    at: usize,
    fail_at: Option<usize>,
    rng: Rng,
    chunk: usize,
    interrupted: usize,
    failures: usize,
    kind: io::ErrorKind,
    /// Fails once, and then goes on as if it had not.
    once: bool,
}

impl Read for Source<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.rng.chance(1, 6) {
            self.interrupted += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        let end = self.fail_at.unwrap_or(self.data.len()).min(self.data.len());
        if self.at >= end && self.fail_at.is_some() {
            self.failures += 1;
            if self.once {
                self.fail_at = None;
            }
            return Err(io::Error::new(self.kind, "planned"));
        }
        let n = self.rng.range(1, self.chunk).min(end - self.at).min(buf.len());
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

/// Takes a few bytes at a time, is interrupted now and then, and fails at a place, or when flushed.
struct Sink {
    got: Vec<u8>,
    fail_at: Option<usize>,
    rng: Rng,
    chunk: usize,
    interrupted: usize,
    failures: usize,
    /// What it had when it failed first.
    at_failure: usize,
    kind: io::ErrorKind,
    once: bool,
    flush_fails: bool,
}

impl Sink {
    fn failed(&mut self) {
        if self.failures == 0 {
            self.at_failure = self.got.len();
        }
        self.failures += 1;
        if self.once {
            self.fail_at = None;
        }
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.rng.chance(1, 8) {
            self.interrupted += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = self.rng.range(1, self.chunk).min(buf.len());
        if let Some(f) = self.fail_at {
            if self.got.len() >= f {
                self.failed();
                if self.kind == io::ErrorKind::WriteZero {
                    return Ok(0);
                }
                return Err(io::Error::new(self.kind, "planned"));
            }
            n = n.min(f - self.got.len());
        }
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.failures > 0 && !self.once {
            return Err(io::Error::new(self.kind, "planned"));
        }
        if self.flush_fails {
            self.failed();
            return Err(io::Error::new(self.kind, "planned"));
        }
        Ok(())
    }
}

pub const WRITERS: &[&str] = &["nt", "nq graph", "nq", "json", "json pretty", "xml flat", "xml striped", "turtle", "trig", "trig graph", "dot"];

/// Writers of each kind, to be used again and again.
pub struct Writers {
    nt: NTripleWriter,
    nq: NQuadWriter,
    json: [JsonWriter; 2],
    xml: [XmlWriter; 2],
    turtle: TurtleWriter,
    trig: TrigWriter,
    dot: DotWriter,
}

impl Writers {
    pub fn new(c: &mut Case<'_>) -> Writers {
        let (_, o) = turtle::some_setting(c);
        Writers {
            nt: NTripleWriter::default(),
            nq: NQuadWriter::default(),
            json: [JsonWriter::default(), JsonWriter::default().with_options(JsonOptions::default().with_pretty_print(true))],
            xml: [XmlWriter::default(), XmlWriter::default().with_options(XmlOptions::default().striped().pretty())],
            turtle: TurtleWriter::default().with_options(o.clone()),
            trig: TrigWriter::default().with_options(TrigWriterOptions::from(o)),
            dot: DotWriter::default(),
        }
    }
    pub fn again(&self) -> Writers {
        let o = self.turtle.options().clone();
        Writers {
            nt: NTripleWriter::default(),
            nq: NQuadWriter::default(),
            json: [JsonWriter::default(), JsonWriter::default().with_options(JsonOptions::default().with_pretty_print(true))],
            xml: [XmlWriter::default(), XmlWriter::default().with_options(XmlOptions::default().striped().pretty())],
            turtle: TurtleWriter::default().with_options(o.clone()),
            trig: TrigWriter::default().with_options(TrigWriterOptions::from(o)),
            dot: DotWriter::default(),
        }
    }
    pub fn write(&self, kind: &str, w: &mut impl Write, g: &Graph, d: &DataSet) -> Result<(), Error> {
        match kind {
            "nt" => self.nt.write(w, g),
            "nq graph" => self.nq.write(w, g),
            "nq" => self.nq.write(w, d),
            "json" => self.json[0].write(w, g),
            "json pretty" => self.json[1].write(w, g),
            "xml flat" => self.xml[0].write(w, g),
            "xml striped" => self.xml[1].write(w, g),
            "turtle" => self.turtle.write(w, g),
            "trig" => self.trig.write(w, d),
            "trig graph" => self.trig.write(w, g),
            "dot" => self.dot.write(w, g),
            _ => unreachable!(),
        }
    }
    pub fn text(&self, kind: &str, g: &Graph, d: &DataSet) -> Result<String, Error> {
        let mut b = vec![];
        self.write(kind, &mut b, g, d)?;
        Ok(String::from_utf8(b).unwrap_or_else(|e| panic!("{kind}: not UTF-8: {e}")))
    }
}

/// The lines, in any order, and the characters in them in any order too for those whose order is a hash table's.
fn form(kind: &str, text: &str) -> Vec<String> {
    let mut v: Vec<String> = match kind {
        "turtle" | "trig" | "trig graph" => text.lines().map(str::to_string).collect(),
        "dot" => return vec![text.lines().count().to_string()],
        _ => text
            .split(['\n', '<', '{', ',', '}', '[', ']'])
            .map(|l| l.trim().to_string())
            .filter(|l| !l.is_empty())
            .collect(),
    };
    v.sort();
    v
}

const KINDS: &[io::ErrorKind] = &[io::ErrorKind::BrokenPipe, io::ErrorKind::Other, io::ErrorKind::UnexpectedEof, io::ErrorKind::WouldBlock, io::ErrorKind::OutOfMemory, io::ErrorKind::WriteZero];

fn flat_data(c: &mut Case<'_>) -> (Vec<Triple>, Graph, DataSet) {
    let mut cfg = some_cfg(c);
    (cfg.lists, cfg.nested) = (false, false);
    let ts = loop {
        let ts = some_triples(c, &cfg);
        if ts.iter().all(|t| xml::is_property(&t.p)) {
            break ts;
        }
    };
    let (map, _) = mappings(&mut c.rng);
    let g = graph_of(&ts, Some(map), None, true);
    let gs = some_quads(c, &cfg);
    let d = data_set_of(&gs, &mut c.rng);
    (ts, g, d)
}

pub fn w11(r: &mut Runner) {
    r.rule("Every writer with sinks, and every reader with sources, that take or give a few bytes at a time, are interrupted, and fail at every place in turn (quick: at sampled places) with various errors; a failure must be reported as an error by the call, what was written before it must be a prefix of the whole, and interruptions must change nothing. Distinct by document, kind and place of the failure.");
    r.assume("A source that fails after the last byte the reader asks for has not failed; the XML and JSON readers need not ask for more than the document.");
    let n = r.n(5_500, 8);
    r.section("writing", n, |c| {
        let kind = WRITERS[c.index as usize % WRITERS.len()];
        let (_, g, d) = flat_data(c);
        let w = Writers::new(c);
        let Ok(whole) = w.text(kind, &g, &d) else {
            c.count("refused", 1);
            return Ok(());
        };
        let sink = |rng: &mut Rng, fail_at| Sink {
            got: vec![],
            fail_at,
            rng: Rng::new(rng.u64()),
            chunk: *rng.pick(&[1, 3, 64, 100_000]),
            interrupted: 0,
            failures: 0,
            at_failure: 0,
            kind: *rng.pick(KINDS),
            once: rng.bool(),
            flush_fails: false,
        };
        // without a failure
        let mut s = sink(&mut c.rng, None);
        w.write(kind, &mut s, &g, &d).map_err(|e| format!("{kind}: an error with a sink that does not fail: {e}"))?;
        let got = String::from_utf8(s.got).map_err(|e| format!("{kind}: not UTF-8: {e}"))?;
        ensure_eq!(form(kind, &got), form(kind, &whole), "{kind}: with a slow sink");
        c.count("interruptions", s.interrupted as u64);
        // with one when it is flushed, if it is
        let mut s = sink(&mut c.rng, None);
        s.flush_fails = true;
        let result = w.write(kind, &mut s, &g, &d);
        ensure_eq!(result.is_err(), s.failures > 0, "{kind}: is an error, with a sink that fails when it is flushed");
        c.count("flushes that fail", s.failures as u64);
        // with one
        let places: Vec<usize> = match c.rng.below(4) {
            0 => vec![0],
            1 => vec![whole.len().saturating_sub(1)],
            _ if c.thorough() && whole.len() < 600 => (0..whole.len()).collect(),
            _ => (0..6).map(|_| c.rng.below(whole.len().max(1))).collect(),
        };
        for at in places.into_iter().filter(|p| *p < whole.len()) {
            let mut s = sink(&mut c.rng, Some(at));
            let result = w.write(kind, &mut s, &g, &d);
            if result.is_ok() && s.failures == 0 && s.got.len() < whole.len() {
                // another order of statements, another length
                c.count("shorter", 1);
                continue;
            }
            ensure!(result.is_err(), "{kind}: the sink failed with {:?} after {at} bytes of {}, and the writer did not", s.kind, whole.len());
            ensure!(s.failures > 0, "{kind}: an error without a failure: {:?}", result);
            let e = result.unwrap_err().to_string();
            ensure!(!e.is_empty(), "an error without a text");
            if s.once {
                c.count("failures that pass", 1);
            }
            if matches!(kind, "turtle" | "trig graph") {
                ensure!(whole.as_bytes().starts_with(&s.got[..s.at_failure]), "{kind}: what was written before the failure at {at} is not the start of the whole");
            }
            c.count("write failures reported", 1);
            c.count(&format!("{kind} failures"), 1);
            c.distinct(&(kind, at, &whole));
            // and the writer is as good as new
            let after = w.text(kind, &g, &d).map_err(|e| format!("{kind}: after a failure: {e}"))?;
            ensure_eq!(form(kind, &after), form(kind, &whole), "{kind}: after a failure at {at}");
        }
        Ok(())
    });
    let n = r.n(6_000, 8);
    r.section("reading", n, |c| {
        let kind = READERS[c.index as usize % 4];
        let text = document(c, kind);
        let data = text.as_bytes();
        let whole = read_with(kind, &mut &data[..]);
        let source = |rng: &mut Rng, fail_at| Source {
            data,
            at: 0,
            fail_at,
            rng: Rng::new(rng.u64()),
            chunk: *rng.pick(&[1, 2, 5, 64, 10_000]),
            interrupted: 0,
            failures: 0,
            kind: *rng.pick(&KINDS[..5]),
            once: rng.bool(),
        };
        let mut s = source(&mut c.rng, None);
        let slow = read_with(kind, &mut s);
        same_result(&slow, &whole, &format!("{kind}: a slow source of {text:?}"))?;
        c.count("interruptions", s.interrupted as u64);
        let places: Vec<usize> = if c.thorough() && data.len() < 300 { (0..data.len()).collect() } else { (0..6).map(|_| c.rng.below(data.len().max(1))).collect() };
        for at in places {
            let mut s = source(&mut c.rng, Some(at));
            let result = read_with(kind, &mut s);
            if s.failures == 0 {
                // all that the reader asked for was there
                ensure!(result.is_err() || at >= data.len(), "{kind}: read {} bytes of {}, and is content", at, data.len());
                c.count("not asked for", 1);
                continue;
            }
            if result.is_ok() {
                // the document may end before its last white space
                let tail = &text.as_bytes()[at.min(data.len())..];
                ensure!(kind == "xml" && tail.iter().all(u8::is_ascii_whitespace), "{kind}: the source failed with {:?} after {at} bytes of {}, and the reader did not: {text:?}", s.kind, data.len());
                continue;
            }
            c.count("read failures reported", 1);
            if s.once {
                c.count("failures that pass", 1);
            }
            c.distinct(&(kind, at, &text));
        }
        Ok(())
    });
    for k in WRITERS {
        r.require(&format!("{k} failures"), 300);
    }
    r.require("read failures reported", 5_000);
    r.require("interruptions", 10_000);
}

// ------------------------------------------------------------------------------------------------

/// What is read and written first is read and written the same after hundreds of others, most of which fail.
fn long_history(c: &mut Case<'_>) -> Check {
    let w = Writers::new(c);
    let (nt, nq, json, xml) = (NTripleReader::default(), NQuadReader::default(), JsonReader::default(), XmlReader::default());
    let graph = |g: Graph| from_lib_graph(&g).into_iter().map(|t| (t, None)).collect::<Vec<Quad>>();
    let read = |kind: &str, b: &[u8]| {
        let mut b = b;
        match kind {
            "nt" => nt.read(&mut b).map(graph),
            "nq" => nq.read(&mut b).map(|d| from_lib_data_set(&d)),
            "json" => json.read(&mut b).map(graph),
            _ => xml.read(&mut b).map(graph),
        }
        .map_err(|e| e.to_string())
    };
    let docs: Vec<(&str, Vec<u8>)> = (0..8).map(|k| (READERS[k % 4], document(c, READERS[k % 4]).into_bytes())).collect();
    let data: Vec<(Graph, DataSet)> = (0..3)
        .map(|_| {
            let (_, g, d) = flat_data(c);
            (g, d)
        })
        .collect();
    let all_read = || docs.iter().map(|(k, b)| read(k, b)).collect::<Vec<_>>();
    let all_written = || data.iter().map(|(g, d)| WRITERS.iter().map(|k| w.text(k, g, d).ok().map(|t| form(k, &t))).collect::<Vec<_>>()).collect::<Vec<_>>();
    let (first_read, first_written) = (all_read(), all_written());
    // all of one kind, or of all
    let only = c.rng.chance(3, 4).then(|| c.index as usize % 8);
    let n = c.rng.range(400, 1600);
    let mut failed = 0u64;
    let mut source: Vec<Vec<u8>> = docs.iter().map(|d| d.1.clone()).collect();
    for i in 0..n {
        let k = only.unwrap_or_else(|| c.rng.below(8));
        if k < 4 {
            let kind = READERS[k];
            if i % 20 == 19 {
                source[k] = document(c, kind).into_bytes();
            }
            let mut b = source[if c.rng.bool() { k } else { k + 4 }].clone();
            if c.rng.bool() && !b.is_empty() {
                b.truncate(c.rng.below(b.len()));
            } else {
                mutate_bytes(&mut c.rng, &mut b);
            }
            let r = if c.rng.chance(1, 4) {
                // a source that fails
                let at = c.rng.below(b.len() + 1);
                let mut src = (&b[..at]).chain(Failing);
                match kind {
                    "nt" => nt.read(&mut src).map(graph),
                    "nq" => nq.read(&mut src).map(|d| from_lib_data_set(&d)),
                    "json" => json.read(&mut src).map(graph),
                    _ => xml.read(&mut src).map(graph),
                }
                .map_err(|e| e.to_string())
            } else {
                read(kind, &b)
            };
            failed += r.is_err() as u64;
        } else {
            let kind = *c.rng.pick(WRITERS);
            let (g, d) = &data[c.rng.below(data.len())];
            let mut s = Sink { got: vec![], fail_at: Some(c.rng.below(600)), rng: Rng::new(c.rng.u64()), chunk: 50, interrupted: 0, failures: 0, at_failure: 0, kind: io::ErrorKind::Other, once: c.rng.bool(), flush_fails: false };
            failed += w.write(kind, &mut s, g, d).is_err() as u64;
        }
        if i == n / 2 || i == n - 1 {
            for (((kind, b), was), now) in docs.iter().zip(&first_read).zip(all_read()) {
                same_result(&now, was, &format!("{kind} after {i} others, {failed} of which failed: {:?}", String::from_utf8_lossy(b)))?;
                c.count("documents read again", 1);
            }
            ensure_eq!(all_written(), first_written, "what is written after {i} others, {failed} of which failed");
            c.count("documents written again", (data.len() * WRITERS.len()) as u64);
        }
    }
    c.count("failures before", failed);
    c.distinct(&("long", c.index));
    Ok(())
}

struct Failing;

impl Read for Failing {
    fn read(&mut self, _: &mut [u8]) -> io::Result<usize> {
        Err(io::Error::new(io::ErrorKind::Other, "planned"))
    }
}

pub fn w12(r: &mut Runner) {
    r.rule("One set of writers and readers used for a history of documents of all kinds, one after another and with failures between them, each result compared with that of new instances; and readers and writers shared by threads that use them at once. Distinct by history.");
    r.assume("TurtleWriter and DotWriter are not Sync, and so are moved between threads and not shared.");
    let n = r.n(1_600, 10);
    r.section("histories", n, |c| {
        let w = Writers::new(c);
        let mut kinds = vec![];
        for step in 0..c.rng.range(4, 16) {
            let kind = *c.rng.pick(WRITERS);
            let (_, g, d) = flat_data(c);
            if c.rng.chance(1, 4) {
                // one that fails on the way
                let mut s = Sink { got: vec![], fail_at: Some(c.rng.below(400)), rng: Rng::new(c.rng.u64()), chunk: 50, interrupted: 0, failures: 0, at_failure: 0, kind: io::ErrorKind::Other, once: c.rng.bool(), flush_fails: false };
                let _ = w.write(kind, &mut s, &g, &d);
                c.count("failures on the way", s.failures as u64);
                kinds.push(format!("!{kind}"));
                continue;
            }
            let used = w.text(kind, &g, &d);
            let new = w.again().text(kind, &g, &d);
            match (used, new) {
                (Ok(a), Ok(b)) => {
                    ensure_eq!(form(kind, &a), form(kind, &b), "{kind} at step {step} after {kinds:?}, and by a new writer");
                    c.count("documents written", 1);
                }
                (Err(_), Err(_)) => c.count("refused", 1),
                (a, b) => fail!("{kind} at step {step} after {kinds:?}: {a:?}, and by a new writer {b:?}"),
            }
            kinds.push(kind.to_string());
        }
        c.distinct(&(kinds, c.index));
        Ok(())
    });
    let n = r.n(1_600, 10);
    r.section("readers", n, |c| {
        let (nt, nq, json, xml) = (NTripleReader::default(), NQuadReader::default(), JsonReader::default(), XmlReader::default());
        for step in 0..c.rng.range(4, 16) {
            let kind = *c.rng.pick(READERS);
            let mut b = document(c, kind).into_bytes();
            if c.rng.chance(1, 3) {
                mutate_bytes(&mut c.rng, &mut b);
            }
            let graph = |g: Graph| from_lib_graph(&g).into_iter().map(|t| (t, None)).collect::<Vec<Quad>>();
            let used = match kind {
                "nt" => nt.read(&mut &b[..]).map(graph),
                "nq" => nq.read(&mut &b[..]).map(|d| from_lib_data_set(&d)),
                "json" => json.read(&mut &b[..]).map(graph),
                _ => xml.read(&mut &b[..]).map(graph),
            }
            .map_err(|e| e.to_string());
            same_result(&used, &read_with(kind, &mut &b[..]), &format!("{kind} at step {step}: {:?}", String::from_utf8_lossy(&b)))?;
            c.count("documents read", 1);
        }
        c.distinct(&("readers", c.index));
        Ok(())
    });
    let n = r.n(24, 8);
    r.section("long histories", n, |c| {
        // in a thread of its own, which has nothing left from other cases
        let c = &mut *c;
        std::thread::scope(|s| std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || long_history(c)).expect("a thread").join().unwrap_or_else(|e| std::panic::resume_unwind(e)))
    });
    let n = r.n(60, 8);
    r.section_seq("threads", n, |c| {
        // a graph, a data set, their documents, and what they should be, shared by all threads
        let shared: Vec<(Graph, DataSet)> = (0..4)
            .map(|_| {
                let (_, g, d) = flat_data(c);
                (g, d)
            })
            .collect();
        let docs: Vec<(&str, Vec<u8>)> = (0..8)
            .map(|k| {
                let kind = READERS[k % 4];
                (kind, document(c, kind).into_bytes())
            })
            .collect();
        let model = Writers::new(c);
        let want: Vec<Vec<Option<Vec<String>>>> = shared.iter().map(|(g, d)| WRITERS.iter().map(|k| model.text(k, g, d).ok().map(|t| form(k, &t))).collect()).collect();
        let want_docs: Vec<Result<Vec<Quad>, String>> = docs.iter().map(|(k, b)| read_with(k, &mut &b[..])).collect();
        let (nt, nq, json, trig, xml) = (NTripleWriter::default(), NQuadWriter::default(), JsonWriter::default(), TrigWriter::default().with_options(TrigWriterOptions::from(model.turtle.options().clone())), XmlWriter::default());
        let barrier = std::sync::Barrier::new(8);
        let mut own: Vec<Writers> = (0..8).map(|_| model.again()).collect();
        let errors = std::sync::Mutex::new(BTreeSet::new());
        let done = std::sync::atomic::AtomicU64::new(0);
        std::thread::scope(|s| {
            for (t, own) in own.drain(..).enumerate() {
                let (shared, docs, want, want_docs, barrier, errors, done) = (&shared, &docs, &want, &want_docs, &barrier, &errors, &done);
                let (nt, nq, json, trig, xml) = (&nt, &nq, &json, &trig, &xml);
                s.spawn(move || {
                    barrier.wait();
                    for k in 0..40 {
                        let i = (k * 7 + t) % shared.len();
                        let (g, d) = &shared[i];
                        let j = (k * 5 + t) % WRITERS.len();
                        let kind = WRITERS[j];
                        let text = match kind {
                            "nt" => nt.write_to_string(g),
                            "nq" => ObjectWriter::<DataSet>::write_to_string(nq, d),
                            "nq graph" => ObjectWriter::<Graph>::write_to_string(nq, g),
                            "json" => json.write_to_string(g),
                            "trig" => ObjectWriter::<DataSet>::write_to_string(trig, d),
                            "trig graph" => ObjectWriter::<Graph>::write_to_string(trig, g),
                            "xml flat" => xml.write_to_string(g),
                            k => own.text(k, g, d),
                        };
                        if text.as_ref().ok().map(|t| form(kind, t)) != want[i][j] {
                            errors.lock().unwrap().insert(format!("{kind}: {text:?}"));
                        }
                        let i = (k * 3 + t) % docs.len();
                        let got = read_with(docs[i].0, &mut &docs[i].1[..]);
                        if let Err(e) = same_result(&got, &want_docs[i], docs[i].0) {
                            errors.lock().unwrap().insert(e.msg);
                        }
                        done.fetch_add(2, std::sync::atomic::Ordering::Relaxed);
                    }
                });
            }
        });
        if let Some(e) = errors.into_inner().unwrap().into_iter().next() {
            fail!("by 8 threads at once, as by none: {e}");
        }
        c.count("documents by threads", done.into_inner());
        c.distinct(&("threads", c.index));
        Ok(())
    });
    r.require("documents written", 5_000);
    r.require("documents read", 5_000);
    r.require("failures on the way", 1_000);
    r.require("documents by threads", 10_000);
    r.require("documents read again", 300);
    r.require("failures before", 3_000);
}
