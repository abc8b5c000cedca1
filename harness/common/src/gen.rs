//! Generators of strings, independent of the code under test.

use crate::Rng;

/// `PN_CHARS_BASE` of SPARQL/Turtle as inclusive ranges, from the grammar.
pub const PN_CHARS_BASE: &[(u32, u32)] = &[
    (0x41, 0x5A),
    (0x61, 0x7A),
    (0xC0, 0xD6),
    (0xD8, 0xF6),
    (0xF8, 0x2FF),
    (0x370, 0x37D),
    (0x37F, 0x1FFF),
    (0x200C, 0x200D),
    (0x2070, 0x218F),
    (0x2C00, 0x2FEF),
    (0x3001, 0xD7FF),
    (0xF900, 0xFDCF),
    (0xFDF0, 0xFFFD),
    (0x10000, 0xEFFFF),
];

/// What `PN_CHARS` adds to `PN_CHARS_BASE`.
pub const PN_CHARS_MORE: &[(u32, u32)] = &[
    (0x2D, 0x2D),
    (0x30, 0x39),
    (0x5F, 0x5F),
    (0xB7, 0xB7),
    (0x300, 0x36F),
    (0x203F, 0x2040),
];

pub fn in_ranges(c: char, ranges: &[(u32, u32)]) -> bool {
    let c = c as u32;
    ranges.iter().any(|&(a, b)| a <= c && c <= b)
}

pub fn pn_chars_base(c: char) -> bool {
    in_ranges(c, PN_CHARS_BASE)
}

pub fn pn_chars(c: char) -> bool {
    pn_chars_base(c) || in_ranges(c, PN_CHARS_MORE)
}

/// `PN_LOCAL` of SPARQL 1.0, as quoted by the crate's documentation.
pub fn is_pn_local(s: &str) -> bool {
    let v: Vec<char> = s.chars().collect();
    match v.as_slice() {
        [] => false,
        [first, rest @ ..] => {
            (pn_chars_base(*first) || *first == '_' || first.is_ascii_digit())
                && rest.iter().all(|&c| pn_chars(c) || c == '.')
                && rest.last().map(|&c| c != '.').unwrap_or(true)
        }
    }
}

/// `PN_PREFIX`.
pub fn is_pn_prefix(s: &str) -> bool {
    let v: Vec<char> = s.chars().collect();
    match v.as_slice() {
        [] => false,
        [first, rest @ ..] => {
            pn_chars_base(*first)
                && rest.iter().all(|&c| pn_chars(c) || c == '.')
                && rest.last().map(|&c| c != '.').unwrap_or(true)
        }
    }
}

/// A character at or next to an end of a range of the grammar.
pub fn boundary_char(rng: &mut Rng) -> char {
    loop {
        let ranges = if rng.bool() {
            PN_CHARS_BASE
        } else {
            PN_CHARS_MORE
        };
        let (a, b) = *rng.pick(ranges);
        let v = match rng.below(5) {
            0 => a.wrapping_sub(1),
            1 => a,
            2 => b,
            3 => b + 1,
            _ => a + (rng.u64() % (b - a + 1) as u64) as u32,
        };
        if let Some(c) = char::from_u32(v) {
            return c;
        }
    }
}

/// A valid `PN_LOCAL`; ASCII only when asked for.
pub fn pn_local(rng: &mut Rng, ascii: bool) -> String {
    pn(rng, ascii, true)
}

pub fn pn_prefix(rng: &mut Rng, ascii: bool) -> String {
    pn(rng, ascii, false)
}

fn pn(rng: &mut Rng, ascii: bool, local: bool) -> String {
    let n = match rng.below(8) {
        0 => 1,
        1 => 2,
        7 if rng.chance(1, 30) => rng.range(60, 400),
        7 => rng.range(9, 40),
        _ => rng.range(2, 8),
    };
    loop {
        let mut s = String::new();
        for i in 0..n {
            loop {
                let c = if ascii || rng.chance(2, 3) {
                    *rng.pick(if i == 0 {
                        if local {
                            b"abcXYZ_019"
                        } else {
                            b"abcdefXYZq"
                        }
                    } else {
                        b"aZ_-9.bcde"
                    }) as char
                } else {
                    boundary_char(rng)
                };
                if i > 0 && !(pn_chars(c) || c == '.') {
                    continue;
                }
                s.push(c);
                break;
            }
        }
        if if local { is_pn_local(&s) } else { is_pn_prefix(&s) } {
            return s;
        }
    }
}

/// Text with the characters that formats have to escape, and others.
pub fn text(rng: &mut Rng) -> String {
    let n = match rng.below(6) {
        0 => 0,
        1 => 1,
        5 if rng.chance(1, 2000) => 70_000,
        5 if rng.chance(1, 40) => rng.range(200, 3000),
        5 => rng.range(10, 60),
        _ => rng.range(2, 9),
    };
    let mut s = String::new();
    for _ in 0..n {
        match rng.below(40) {
            0 => {
                let c = text_char(rng);
                s.extend(std::iter::repeat(c).take(rng.range(2, 9)));
            }
            1 => s.push_str(rng.pick(PHRASES)),
            _ => s.push(text_char(rng)),
        }
    }
    s
}

/// What means something to one format or another.
const PHRASES: &[&str] = &[
    "]]>", "<![CDATA[", "-->", "<!--", "<?x?>", "&amp;", "&#10;", "&lt", "\\u0041", "\\U0001F600", "\\n", "\\\"", "\"\"\"", "'''",
    "\" .\n", "\"@en", "\"^^<x:y>", "%20", "%", "_:b", "<<", ">>", "{}", "{0}", "{:?}", "#", "# a comment\n", "\r\n", "\n\n", "//",
    "/*", "*/", "\\l", "true", "1.0", "<http://example.org/>", "http://example.org/", "ex:a", "null", "<b>x</b>", "xmlns:a=\"b\"",
];

pub fn text_char(rng: &mut Rng) -> char {
    match rng.below(14) {
        0..=3 => *rng.pick(b"abcxyzABC 0123") as char,
        4 => *rng.pick(&['"', '\\', '\n', '\r', '\t']),
        5 => *rng.pick(&['\\', '"', '\'', 'u', 'U', 'n', 't', 'r', 'b', 'f', '0']),
        6 => *rng.pick(&['<', '>', '&', ';', '#', ']', '[', '{', '}', '|', '@', '^', '_', ':', '.', ',', '/', '%']),
        7 => *rng.pick(&['\u{8}', '\u{c}', '\0', '\u{1}', '\u{1b}', '\u{7f}', '\u{b}', '\u{1f}']),
        8 => *rng.pick(&['é', 'ß', 'Ω', 'ж', 'ñ', '\u{a0}', '\u{85}', '\u{ad}']),
        9 => *rng.pick(&['中', '日', '\u{2028}', '\u{2029}', '\u{feff}', '\u{fffd}', '\u{fffe}', '\u{ffff}', '\u{d7ff}', '\u{e000}', '\u{300}', '\u{200d}']),
        10 => *rng.pick(&['😀', '𐀀', '\u{10ffff}', '\u{1f468}', '\u{e0001}']),
        11 => *rng.pick(&[' ', '\u{2003}', '\u{3000}', '\t']),
        _ => loop {
            let v = match rng.below(3) {
                0 => rng.u64() % 0x80,
                1 => rng.u64() % 0x3000,
                _ => rng.u64() % 0x110000,
            };
            if let Some(c) = char::from_u32(v as u32) {
                break c;
            }
        },
    }
}

/// Text of characters that XML 1.0 can carry, without carriage returns.
pub fn is_xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}

const UNRESERVED: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_~";

fn segment(rng: &mut Rng, extra: &[u8]) -> String {
    let n = rng.range(0, 7);
    let mut s = String::new();
    for _ in 0..n {
        match rng.below(10) {
            0 if !extra.is_empty() => s.push(*rng.pick(extra) as char),
            1 => s.push_str(rng.pick(&["%20", "%C3%A9", "%2F", "%23", "%25"])),
            2 => s.push('.'),
            _ => s.push(*rng.pick(UNRESERVED) as char),
        }
    }
    // dot segments are removed by the URL parser
    if s.bytes().all(|b| b == b'.') || s.is_empty() {
        s = format!("s{s}");
    }
    s
}

/// The parts of an absolute IRI in its normal form: parsing it changes nothing.
#[derive(Clone, Debug, Default)]
pub struct Parts {
    pub scheme: String,
    /// With the leading `//`, or empty.
    pub authority: String,
    pub path: String,
    pub query: Option<String>,
    pub fragment: Option<String>,
}

impl Parts {
    pub fn join(&self) -> String {
        let mut s = format!("{}:{}{}", self.scheme, self.authority, self.path);
        if let Some(q) = &self.query {
            s.push('?');
            s.push_str(q);
        }
        if let Some(f) = &self.fragment {
            s.push('#');
            s.push_str(f);
        }
        s
    }

    /// RFC 3986, appendix B.
    pub fn split(s: &str) -> Option<Parts> {
        let (rest, fragment) = match s.split_once('#') {
            Some((a, b)) => (a, Some(b.to_string())),
            None => (s, None),
        };
        let (rest, query) = match rest.split_once('?') {
            Some((a, b)) => (a, Some(b.to_string())),
            None => (rest, None),
        };
        let (scheme, rest) = rest.split_once(':')?;
        let (authority, path) = if let Some(r) = rest.strip_prefix("//") {
            match r.find('/') {
                Some(i) => (format!("//{}", &r[..i]), r[i..].to_string()),
                None => (rest.to_string(), String::new()),
            }
        } else {
            (String::new(), rest.to_string())
        };
        Some(Parts {
            scheme: scheme.to_string(),
            authority,
            path,
            query,
            fragment,
        })
    }
}

/// An IRI in normal form (ASCII), with hierarchical or opaque path.
pub fn iri_parts(rng: &mut Rng) -> Parts {
    let mut p = Parts::default();
    match rng.below(12) {
        1 => {
            // a path with structure, and no authority
            p.scheme = rng.pick(&["ex", "x-y.z", "urn", "did"]).to_string();
            if rng.chance(1, 5) {
                // that starts with "//", and so has to have a guard
                p.path.push_str("/./");
            }
            for _ in 0..rng.range(1, 4) {
                p.path.push('/');
                p.path.push_str(&segment(rng, b"@!$&'()*+,;=:"));
            }
            if rng.bool() {
                p.path.push('/');
            }
        }
        2 if rng.chance(1, 3) => {
            p.scheme = "file".to_string();
            p.authority = "//".to_string();
            for _ in 0..rng.range(1, 4) {
                p.path.push('/');
                p.path.push_str(&segment(rng, b"@!$&'()*+,;="));
            }
        }
        0 => {
            p.scheme = rng.pick(&["urn", "mailto", "tag", "data", "did"]).to_string();
            let n = rng.range(1, 3);
            p.path = (0..n)
                .map(|_| segment(rng, b"@!$&'*+,;="))
                .collect::<Vec<_>>()
                .join(if rng.bool() { ":" } else { "/" });
        }
        _ => {
            let special = rng.chance(5, 6);
            p.scheme = if special {
                rng.pick(&["http", "https", "ftp", "ws"]).to_string()
            } else {
                rng.pick(&["ex", "coap", "git+ssh", "x-y.z"]).to_string()
            };
            let user = match rng.below(12) {
                0 => "user@",
                1 => "u:p@",
                _ => "",
            };
            let host = *rng.pick(&[
                "example.org",
                "example.com",
                "a.b.c",
                "localhost",
                "192.168.0.1",
                "[::1]",
                "w3.org",
            ]);
            let port = match rng.below(12) {
                0 => ":8081".to_string(),
                1 => format!(":{}", rng.pick(&[0, 1, 21, 22, 80, 443, 3000, 3030, 7474, 8000, 8080, 8443, 8888, 65535])),
                2 => format!(":{}", rng.below(65536)),
                _ => String::new(),
            };
            // in normal form
            let default = match p.scheme.as_str() {
                "http" | "ws" => ":80",
                "https" => ":443",
                "ftp" => ":21",
                _ => "",
            };
            let port = if port == default { "" } else { &port };
            p.authority = format!("//{user}{host}{port}");
            let n = if rng.chance(1, 80) { rng.range(20, 80) } else { rng.range(0, 4) };
            for _ in 0..n {
                p.path.push('/');
                p.path.push_str(&segment(rng, b"@!$&'()*+,;=:"));
            }
            if rng.chance(1, 2) || (special && p.path.is_empty()) {
                p.path.push('/');
            }
        }
    }
    if rng.chance(1, 5) {
        p.query = Some(match rng.below(4) {
            0 => String::new(),
            _ => format!("{}={}", segment(rng, b"/?:@&"), segment(rng, b"/?:@&")),
        });
    }
    match rng.below(6) {
        0 => p.fragment = Some(String::new()),
        1 => p.fragment = Some(segment(rng, b"/?:@&")),
        2 => p.fragment = Some(pn_local(rng, true)),
        _ => {}
    }
    // a final name, often
    if p.fragment.is_none() && p.query.is_none() && p.path.ends_with('/') && rng.chance(1, 3) {
        let n = pn_local(rng, true);
        p.path.push_str(&n);
    }
    p
}

pub fn iri(rng: &mut Rng) -> String {
    iri_parts(rng).join()
}
