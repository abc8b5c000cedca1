//! C04, C05, C06: literals and their data types.

use rdfmodel::gen::{lang_tag, near_iri, some_iri, Cfg, Pool};
use rdfmodel::*;
use rdftk_core::model::literal::{DataType, LanguageTag, Literal};
use rdftk_core::model::statement::{Collection, ObjectNode, Statement};
use rdftk_iri::{Iri, LocalName, Name};
use std::str::FromStr;
use std::time::Duration;
use vmon::gen as vg;
use vmon::{ensure, ensure_eq, fail, Check, Rng, Runner};

/// What holds of a literal made from `value`.
fn literal_holds(l: &Literal, expected: &Lit) -> Check {
    let lex = l.lexical_form();
    match decode_escapes(lex) {
        None => fail!("{:?}: the lexical form {lex:?} is not a validly escaped string", expected.value),
        Some(v) => ensure_eq!(v, expected.value, "the string that the lexical form {lex:?} stands for"),
    }
    if let Some(c) = lex.chars().find(|c| c.is_control()) {
        fail!("the lexical form of {:?} has the control character {c:?}", expected.value);
    }
    ensure_eq!(l.unescaped(), expected.value, "unescaped, lexical form {lex:?}");
    ensure_eq!(l.has_data_type(), expected.dt.is_some(), "has_data_type");
    ensure_eq!(l.has_language(), expected.lang.is_some(), "has_language");
    ensure_eq!(l.data_type().map(|d| from_lib_iri(d.as_iri())), expected.dt, "data type");
    ensure_eq!(l.language().map(|t| t.to_string()), expected.lang, "language");
    let long = format!("{l:#}");
    match nt::parse_literal(&long) {
        Err(e) => fail!("{expected:?} displays as {long:?}, not a literal of N-Triples: {e}"),
        Ok(v) => ensure_eq!(&v, expected, "the literal that {long:?} stands for"),
    }
    let in_node = format!("{:#}", ObjectNode::from(l.clone()));
    ensure_eq!(in_node, long, "alternate form of an object");
    ensure_eq!(l, &l.clone(), "clone");
    ensure!(l == &lib_literal(expected), "made again, not equal: {expected:?}");
    ensure_eq!(vmon::hash_of(l), vmon::hash_of(&lib_literal(expected)), "hash of an equal literal");
    let stringy = expected.dt.as_deref().is_none_or(|d| d == xsd("string"));
    ensure_eq!(*l == *expected.value.as_str(), stringy, "{expected:?} == &str");
    ensure_eq!(*l == expected.value.clone(), stringy, "{expected:?} == String");
    Ok(())
}

/// A string that looks like the escaped form of another.
fn tricky(rng: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..rng.range(1, 8) {
        s.push_str(*rng.pick(&[
            "\\", "\\\\", "\\n", "\\\"", "\"", "\\u0041", "\\u", "\\U0001F600", "u0041", "n", "t", "\n", "\r", "\t", "\u{0}", "\u{7f}", "\u{85}",
            "\u{9f}", "\u{a0}", "\u{2028}", "\u{feff}", "\u{fffd}", "\u{fffe}", "\u{10ffff}", "\u{1f600}", "'", "^^", "@en", ">", "<", " ", "",
        ]));
    }
    s
}

pub fn c04(r: &mut Runner) {
    r.rule("Every Unicode scalar value as the text of a literal, alone and between others; random and hostile texts (backslashes, quotes, escapes of escapes, line ends, controls) in plain, language-tagged and typed literals. The lexical form is decoded by an independent decoder, and the long form by an independent N-Triples parser. Distinct by the literal.");
    r.exhaustive("all 1112064 Unicode scalar values as a text of one character, and between two others");
    const CHUNK: u32 = 0x800;
    r.section("every-code-point", (0x110000 / CHUNK) as u64, |c| {
        let base = c.index as u32 * CHUNK;
        let mut n = 0;
        for v in base..base + CHUNK {
            let Some(ch) = char::from_u32(v) else { continue };
            for s in [ch.to_string(), format!("4{ch}a")] {
                let l = Literal::plain(s.as_str());
                ensure_eq!(l.unescaped(), s, "unescaped of U+{v:04X}, lexical form {:?}", l.lexical_form());
                ensure_eq!(decode_escapes(l.lexical_form()), Some(s.clone()), "lexical form of U+{v:04X}");
                ensure!(!l.lexical_form().chars().any(|c| c.is_control()), "control character in the lexical form of U+{v:04X}");
                n += 1;
            }
        }
        c.distinct_enumerated(n);
        c.count("texts", n);
        Ok(())
    });
    let n = r.n(60_000, 14);
    r.section("literals", n, |c| {
        let pool = Pool::new(&mut c.rng, &Cfg::default());
        let mut l = pool.literal(&mut c.rng);
        if c.rng.bool() {
            l.value = tricky(&mut c.rng);
        }
        let made = match (&l.dt, &l.lang) {
            (Some(dt), _) if dt == &xsd("string") && c.rng.bool() => {
                if c.rng.bool() {
                    Literal::from(l.value.as_str())
                } else {
                    Literal::from(l.value.clone())
                }
            }
            (Some(dt), _) => {
                if c.rng.bool() {
                    Literal::with_data_type(l.value.as_str(), DataType::from(lib_iri(dt)))
                } else {
                    Literal::with_data_type_iri(l.value.as_str(), lib_iri(dt))
                }
            }
            (None, Some(lang)) => Literal::with_language(l.value.as_str(), LanguageTag::parse(lang).unwrap()),
            (None, None) => Literal::plain(l.value.as_str()),
        };
        literal_holds(&made, &l)?;
        c.count(
            match (&l.dt, &l.lang) {
                (Some(_), _) => "typed",
                (_, Some(_)) => "language-tagged",
                _ => "plain",
            },
            1,
        );
        if made.lexical_form().contains('\\') {
            c.count("escaped", 1);
        }
        // equality is that of the components
        let mut other = l.clone();
        match c.rng.below(5) {
            0 => other.value = tricky(&mut c.rng),
            1 => {
                other.dt = None;
                other.lang = None;
            }
            2 => {
                other.dt = Some(xsd("string"));
                other.lang = None;
            }
            3 => {
                other.dt = None;
                other.lang = Some(lang_tag(&mut c.rng));
            }
            // the text of the lexical form itself
            _ => other.value = made.lexical_form().clone(),
        }
        let b = lib_literal(&other);
        ensure_eq!(made == b, l == other, "equality of {l:?} and {other:?}");
        ensure_eq!(made.cmp(&b) == std::cmp::Ordering::Equal, l == other, "order of {l:?} and {other:?}");
        c.count(if l == other { "equal" } else { "unequal" }, 1);
        for text in [made.lexical_form().clone(), tricky(&mut c.rng)] {
            let same = text == l.value && l.dt.as_deref().is_none_or(|d| d == xsd("string"));
            ensure_eq!(made == *text.as_str(), same, "{l:?} == {text:?}");
            ensure_eq!(made == text, same, "{l:?} == {text:?}, a String");
            if text != l.value {
                c.count("texts of escapes", 1);
            }
        }
        ensure_eq!(b == *l.value.as_str(), other.value == l.value && other.dt.as_deref().is_none_or(|d| d == xsd("string")), "{other:?} == {:?}", l.value);
        c.distinct(&l);
        c.sample(|| format!("{l:?}"));
        Ok(())
    });
    let n = r.n(15_000, 14);
    r.section("display", n, |c| {
        // statements of IRIs, blank nodes, plain, language-tagged and other typed literals display as N-Triples
        let cfg = Cfg { nested: true, ..Cfg::default() };
        let pool = Pool::new(&mut c.rng, &cfg);
        let t = pool.triple(&mut c.rng, 2);
        fn long_only(t: &Triple) -> bool {
            let ok = |n: &Node| match n {
                Node::Lit(l) => l.dt.as_deref().is_none_or(|d| d == xsd("string") || !d.starts_with(XSD)),
                Node::Triple(t) => long_only(t),
                Node::List(_) => false,
                _ => true,
            };
            ok(&t.s) && ok(&t.o)
        }
        if !long_only(&t) {
            return Ok(());
        }
        let text = format!("{} .", lib_statement(&t));
        match nt::parse(&text, false, true) {
            Err(e) => fail!("{} displays as {text:?}, not a statement of N-Triples-star: {e}", show(&t)),
            Ok(v) => ensure_eq!(v, vec![(t.clone(), None)], "the statement that {text:?} stands for"),
        }
        let members: Vec<Node> = (0..c.rng.below(4)).map(|_| Node::Iri(c.rng.pick(&pool.iris).clone())).collect();
        let shown = Collection::from(members.iter().map(lib_object).collect::<Vec<_>>()).to_string();
        let inner = members.iter().map(|m| lib_object(m).to_string()).collect::<Vec<_>>().join(" ");
        ensure_eq!(shown, format!("( {inner} )"), "display of a collection");
        c.count("statements displayed", 1);
        c.distinct(&t);
        Ok(())
    });
    r.require("escaped", 5000);
    r.require("texts of escapes", 5000);
    r.require("equal", 500);
    r.require("unequal", 5000);
    r.require("typed", 5000);
    r.require("language-tagged", 1000);
    r.require("plain", 1000);
    r.require("statements displayed", 2000);
}

// ------------------------------------------------------------------------------------------------

fn digits(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit())
}

fn is_decimal(s: &str) -> bool {
    let s = s.strip_prefix(['+', '-']).unwrap_or(s);
    match s.split_once('.') {
        None => digits(s),
        Some((a, b)) => (digits(a) || a.is_empty()) && (digits(b) || b.is_empty()) && !(a.is_empty() && b.is_empty()),
    }
}

fn is_double(s: &str) -> bool {
    if ["INF", "-INF", "NaN"].contains(&s) {
        return true;
    }
    let (m, e) = match s.find(['e', 'E']) {
        Some(i) => (&s[..i], Some(&s[i + 1..])),
        None => (s, None),
    };
    is_decimal(m) && e.is_none_or(|e| digits(e.strip_prefix(['+', '-']).unwrap_or(e)))
}

fn double_value(s: &str) -> f64 {
    match s {
        "INF" => f64::INFINITY,
        "-INF" => f64::NEG_INFINITY,
        "NaN" => f64::NAN,
        s => s.parse().unwrap(),
    }
}

/// Nanoseconds of a duration without years and months.
fn duration_value(s: &str) -> Option<i128> {
    let (neg, s) = match s.strip_prefix('-') {
        Some(s) => (true, s),
        None => (false, s),
    };
    let s = s.strip_prefix('P')?;
    let (date, time) = match s.split_once('T') {
        Some((d, t)) => (d, Some(t)),
        None => (s, None),
    };
    let mut total = 0i128;
    let mut any = false;
    if !date.is_empty() {
        let d = date.strip_suffix('D')?;
        if !digits(d) {
            return None;
        }
        total += d.parse::<i128>().ok()? * 86400 * 1_000_000_000;
        any = true;
    }
    if let Some(mut t) = time {
        if t.is_empty() {
            return None;
        }
        for (unit, secs) in [('H', 3600), ('M', 60)] {
            if let Some((n, rest)) = t.split_once(unit) {
                if !digits(n) {
                    return None;
                }
                total += n.parse::<i128>().ok()? * secs * 1_000_000_000;
                t = rest;
            }
        }
        if !t.is_empty() {
            let n = t.strip_suffix('S')?;
            let (a, b) = n.split_once('.').unwrap_or((n, "0"));
            if !digits(a) || !digits(b) || b.len() > 9 {
                return None;
            }
            total += a.parse::<i128>().ok()? * 1_000_000_000 + format!("{b:0<9}").parse::<i128>().ok()?;
        }
        any = true;
    }
    any.then_some(if neg { -total } else { total })
}

fn b64_decode(s: &str) -> Option<Vec<u8>> {
    const A: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    if s.len() % 4 != 0 {
        return None;
    }
    let pad = s.bytes().rev().take_while(|b| *b == b'=').count();
    let body = &s[..s.len() - pad];
    let mut bits = 0u32;
    let mut n = 0;
    let mut out = vec![];
    for c in body.chars() {
        bits = (bits << 6) | A.find(c)? as u32;
        n += 6;
        if n >= 8 {
            n -= 8;
            out.push((bits >> n) as u8);
            bits &= (1 << n) - 1;
        }
    }
    (pad <= 2 && bits == 0).then_some(out)
}

fn bytes(rng: &mut Rng) -> Vec<u8> {
    (0..*rng.pick(&[0, 1, 2, 3, 4, 5, 31, 64, 255])).map(|_| if rng.chance(1, 4) { *rng.pick(&[0u8, 255, 15, 16]) } else { rng.u64() as u8 }).collect()
}

fn edge_i64(rng: &mut Rng) -> i64 {
    let v = match rng.below(6) {
        0 => 0,
        1 => i64::MIN,
        2 => i64::MAX,
        3 => rng.u64() as i64,
        4 => (rng.u64() as i64) >> rng.below(60),
        _ => *rng.pick(&[-128i64, 127, 128, 255, 256, -32768, 32767, 65535, 65536, i32::MIN as i64, i32::MAX as i64, u32::MAX as i64, 1, -1, 10]),
    };
    v
}

macro_rules! int_type {
    ($c:expr, $t:ty, $name:expr, $v:expr) => {{
        let v = $v as $t;
        let l = Literal::from(v);
        let text = v.to_string();
        typed(&l, &text, $name)?;
        ensure_eq!(l.lexical_form().parse::<$t>().ok(), Some(v), "value of {}", $name);
        ensure!(l == v, "{v} as xsd:{} is not equal to the value", $name);
        let w = v.wrapping_add(1);
        ensure!(l != w, "{v} as xsd:{} is equal to {w}", $name);
        ensure!(Literal::plain(text.as_str()) != v, "plain {text:?} is equal to {v} as xsd:{}", $name);
        ensure!(Literal::from(text.as_str()) != v, "string {text:?} is equal to {v} as xsd:{}", $name);
        for (dt, iri) in known_data_types() {
            let same = iri == xsd($name);
            ensure_eq!(Literal::with_data_type(text.as_str(), dt) == v, same, "{text:?} of {iri} == {v} as xsd:{}", $name);
        }
        $c.count("integers", 1);
    }};
}

/// A text that looks much like this name.
fn near_name(rng: &mut Rng, text: &str) -> String {
    match rng.below(8) {
        0 => format!(":{text}"),
        1 => format!("{text}:"),
        2 => format!(" {text}"),
        3 => format!("{text} "),
        4 => text.replacen(':', "", 1),
        5 => text.to_uppercase(),
        6 => text.split_once(':').map_or(format!("x:{text}"), |(_, n)| n.to_string()),
        _ => text.to_string(),
    }
}

fn typed(l: &Literal, text: &str, dt: &str) -> Check {
    literal_holds(l, &Lit::typed(text, &xsd(dt)))
}

pub fn c05(r: &mut Runner) {
    r.rule("Random and boundary values of every Rust type that converts to a literal: the lexical form must be in the lexical space of the XML Schema data type and denote the value (independent parsers), equality with the value must hold for that data type only, and decoding must give the value back. Malformed binary and IRI literals must fail with an error. Distinct by the value and type.");
    let n = r.n(12_000, 14);
    r.section("numbers", n, |c| {
        let v = edge_i64(&mut c.rng);
        c.distinct(&v);
        int_type!(c, i64, "long", v);
        int_type!(c, i32, "int", v);
        int_type!(c, i16, "short", v);
        int_type!(c, i8, "byte", v);
        int_type!(c, u64, "unsignedLong", v);
        int_type!(c, u32, "unsignedInt", v);
        int_type!(c, u16, "unsignedShort", v);
        int_type!(c, u8, "unsignedByte", v);
        let b = v % 2 == 0;
        let l = Literal::from(b);
        typed(&l, if b { "true" } else { "false" }, "boolean")?;
        ensure!(l == b && l != !b && Literal::plain(b.to_string()) != b && Literal::from(b.to_string()) != b, "boolean equality");
        Ok(())
    });
    r.section("floats", n, |c| {
        let f = match c.rng.below(5) {
            0 => *c.rng.pick(&[0.0, -0.0, 1.0, -1.5, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MIN, f64::MAX, f64::MIN_POSITIVE, f64::EPSILON, 5e-324, 0.1, 1e21, 1e-7, 123456789.125]),
            1 => edge_i64(&mut c.rng) as f64,
            2 => (edge_i64(&mut c.rng) as f64) / 1000.0,
            _ => f64::from_bits(c.rng.u64()),
        };
        c.distinct(&f.to_bits());
        let l = Literal::from(f);
        let s = l.lexical_form().clone();
        ensure!(is_double(&s), "{f:?} has the lexical form {s:?}, which is not one of xsd:double");
        let v = double_value(&s);
        ensure!(v.to_bits() == f.to_bits() || (v.is_nan() && f.is_nan()), "{f:?} has the lexical form {s:?}, with the value {v:?}");
        literal_holds(&l, &Lit::typed(&s, &xsd("double")))?;
        ensure!(l == f, "{f:?} is not equal to its literal");
        ensure!(f == 1.25 || f.is_nan() || l != 1.25f64, "{f:?} == 1.25");
        ensure!(Literal::with_data_type(s.as_str(), DataType::Float) != f, "an xsd:float is equal to an f64");
        ensure!(Literal::plain(s.as_str()) != f, "a plain literal is equal to an f64");
        let f = if c.rng.bool() { f as f32 } else { f32::from_bits(c.rng.u64() as u32) };
        let l = Literal::from(f);
        let s = l.lexical_form().clone();
        ensure!(is_double(&s), "{f:?} has the lexical form {s:?}, which is not one of xsd:float");
        let v: f32 = if ["INF", "-INF", "NaN"].contains(&s.as_str()) { double_value(&s) as f32 } else { s.parse().unwrap() };
        ensure!(v.to_bits() == f.to_bits() || (v.is_nan() && f.is_nan()), "{f:?}f32 has the lexical form {s:?}, with the value {v:?}");
        literal_holds(&l, &Lit::typed(&s, &xsd("float")))?;
        ensure!(l == f, "{f:?}f32 is not equal to its literal");
        ensure!(Literal::with_data_type(s.as_str(), DataType::Double) != f, "an xsd:double is equal to an f32");
        // decimals
        let d = rust_decimal::Decimal::from_parts(c.rng.u64() as u32, c.rng.u64() as u32 >> c.rng.below(32), c.rng.u64() as u32 >> c.rng.below(32), c.rng.bool(), c.rng.below(29) as u32);
        let l = Literal::from(d);
        let s = l.lexical_form().clone();
        ensure!(is_decimal(&s), "{d:?} has the lexical form {s:?}, which is not one of xsd:decimal");
        ensure_eq!(rust_decimal::Decimal::from_str_exact(&s).ok(), Some(d), "value of {s:?}");
        literal_holds(&l, &Lit::typed(&s, &xsd("decimal")))?;
        ensure!(l == d && l == Literal::from(&d), "{d:?} is not equal to its literal");
        ensure!(Literal::with_data_type(s.as_str(), DataType::Double) != d, "an xsd:double is equal to a Decimal");
        c.count("floats", 1);
        Ok(())
    });
    r.section("durations", n, |c| {
        let secs = *c.rng.pick(&[0u64, 1, 59, 60, 3599, 3600, 86399, 86400, u64::MAX, 63542]);
        let secs = if c.rng.bool() { c.rng.u64() >> c.rng.below(64) } else { secs };
        let nanos = if c.rng.bool() { *c.rng.pick(&[0u32, 1, 999_999_999, 5, 50_000_000, 500_000_000, 123_000]) } else { c.rng.below(1_000_000_000) as u32 };
        let d = Duration::new(secs, nanos);
        c.distinct(&d);
        let l = Literal::from(d);
        let s = l.lexical_form().clone();
        ensure_eq!(duration_value(&s), Some(d.as_nanos() as i128), "nanoseconds of {d:?}, lexical form {s:?}");
        literal_holds(&l, &Lit::typed(&s, &xsd("duration")))?;
        ensure!(l == d && l == Literal::from(&d), "{d:?} is not equal to its literal {s:?}");
        let other = Duration::new(secs ^ 1, nanos);
        ensure!(l != other, "{d:?} is equal to {other:?}");
        let other = Duration::new(secs, nanos ^ 1);
        ensure!(nanos == 999_999_999 || l != other, "{d:?} is equal to {other:?}");
        ensure!(Literal::plain(s.as_str()) != d, "a plain literal is equal to a Duration");
        let ms = edge_i64(&mut c.rng) >> c.rng.range(1, 40);
        let d = chrono::Duration::milliseconds(ms) + chrono::Duration::nanoseconds(c.rng.below(1000) as i64);
        let l = Literal::from(d);
        let s = l.lexical_form().clone();
        let ns = d.num_seconds() as i128 * 1_000_000_000 + d.subsec_nanos() as i128;
        ensure_eq!(duration_value(&s), Some(ns), "nanoseconds of {d:?}, lexical form {s:?}");
        literal_holds(&l, &Lit::typed(&s, &xsd("duration")))?;
        ensure!(l == d && l == Literal::from(&d), "{d:?} is not equal to its literal {s:?}");
        ensure!(l != d + chrono::Duration::seconds(1), "{d:?} is equal to one second more");
        c.count("durations", 1);
        Ok(())
    });
    r.section("names", n, |c| {
        let i = if c.rng.bool() { vg::iri(&mut c.rng) } else { some_iri(&mut c.rng) };
        let i = lib_iri(&i);
        c.distinct(&i.to_string());
        let text = from_lib_iri(&i);
        let l = Literal::from(i.clone());
        typed(&l, &text, "anyURI")?;
        ensure!(l == i && l == Literal::from(&i), "{i} is not equal to its literal");
        ensure!(Literal::from(text.as_str()) != i && Literal::plain(text.as_str()) != i, "a string is equal to an IRI");
        ensure_eq!(Iri::try_from(l).ok(), Some(i.clone()), "IRI of its literal");
        for (dt, iri) in known_data_types() {
            if dt != DataType::Iri {
                ensure!(Iri::try_from(Literal::with_data_type(text.as_str(), dt)).is_err(), "a literal of {iri} converts to an Iri");
            }
        }
        ensure!(Iri::try_from(Literal::plain(text.as_str())).is_err(), "a plain literal converts to an Iri");
        let bad = vg::text(&mut c.rng);
        let l = Literal::with_data_type(bad.as_str(), DataType::Iri);
        ensure_eq!(Iri::try_from(l).ok(), Iri::from_str(&bad).ok(), "IRI of the literal {bad:?}");
        let ascii = c.rng.bool();
        let n = vg::pn_local(&mut c.rng, ascii);
        let p = vg::pn_prefix(&mut c.rng, ascii);
        let name = Name::from_str(&n).unwrap();
        let l = Literal::from(name.clone());
        typed(&l, &n, "Name")?;
        ensure!(l == name && l == Literal::from(&name), "{name} is not equal to its literal");
        ensure!(Literal::from(n.as_str()) != name, "a string is equal to a Name");
        let q = LocalName::from_str(&format!("{p}:{n}")).unwrap();
        let l = Literal::from(q.clone());
        typed(&l, &format!("{p}:{n}"), "QName")?;
        ensure!(l == q && l == Literal::from(&q), "{q} is not equal to its literal");
        ensure!(Literal::from(q.to_string()) != q, "a string is equal to a QName");
        // other lexical forms, that look much like those
        for text in [n.clone(), format!("{p}:{n}")] {
            let near = near_name(&mut c.rng, &text);
            ensure_eq!(Literal::with_data_type(near.as_str(), DataType::Name) == name, near == n, "the Name {near:?} is equal to {name}");
            ensure_eq!(Literal::with_data_type(near.as_str(), DataType::QName) == q, near == format!("{p}:{n}"), "the QName {near:?} is equal to {q}");
        }
        let near = near_iri(&mut c.rng, &text);
        ensure_eq!(Literal::with_data_type(near.as_str(), DataType::Iri) == i, near == text, "the anyURI {near:?} is equal to {i}");
        let t = LanguageTag::parse(&lang_tag(&mut c.rng)).unwrap();
        let l = Literal::from(t.clone());
        typed(&l, &t.to_string(), "language")?;
        ensure!(l == t, "{t} is not equal to its literal");
        ensure!(Literal::from(t.to_string()) != t, "a string is equal to a LanguageTag");
        c.count("names", 1);
        Ok(())
    });
    r.section("binary", n, |c| {
        let b = bytes(&mut c.rng);
        c.distinct(&b);
        let l = Literal::hex_encoded(&b);
        let hex: String = b.iter().map(|x| format!("{x:02X}")).collect();
        typed(&l, &hex, "hexBinary")?;
        ensure_eq!(Vec::<u8>::try_from(l).ok().as_ref(), Some(&b), "bytes of {hex}");
        let mixed: String = hex.chars().map(|ch| if c.rng.bool() { ch.to_ascii_lowercase() } else { ch }).collect();
        ensure_eq!(Vec::<u8>::try_from(Literal::with_data_type(mixed.as_str(), DataType::HexBinary)).ok().as_ref(), Some(&b), "bytes of {mixed}");
        let l = Literal::base64_encoded(&b);
        let s = l.lexical_form().clone();
        ensure_eq!(b64_decode(&s).as_ref(), Some(&b), "bytes of the base64 {s}");
        typed(&l, &s, "base64Binary")?;
        ensure_eq!(Vec::<u8>::try_from(l).ok().as_ref(), Some(&b), "bytes of {s}");
        // malformed
        let mut m: Vec<char> = hex.chars().collect();
        match c.rng.below(3) {
            0 => m.insert(c.rng.below(m.len() + 1), '0'),
            1 => m.insert(c.rng.below(m.len() + 1), *c.rng.pick(&['g', '-', '+', 'é', '\u{1f600}', '\\', '"', 'G'])),
            _ => {
                let at = c.rng.below(m.len() + 1);
                m.insert(at, *c.rng.pick(&['+', '-', 'x', '0', 'é']));
                m.insert(at, *c.rng.pick(&['0', '+', 'x', 'é']));
            }
        }
        let m: String = m.into_iter().collect();
        let valid = m.len() % 2 == 0 && m.chars().all(|c| c.is_ascii_hexdigit());
        ensure_eq!(Vec::<u8>::try_from(Literal::with_data_type(m.as_str(), DataType::HexBinary)).is_ok(), valid, "hexBinary {m:?} decodes");
        let mut m = s.clone();
        let bad = *c.rng.pick(&['-', '_', '*', 'é', '\\']);
        let at = c.rng.below(m.len() + 1);
        m.insert(at, bad);
        ensure!(Vec::<u8>::try_from(Literal::with_data_type(m.as_str(), DataType::Base64Binary)).is_err(), "base64Binary {m:?} decodes");
        for (dt, iri) in known_data_types() {
            if dt != DataType::HexBinary && dt != DataType::Base64Binary {
                ensure!(Vec::<u8>::try_from(Literal::with_data_type(hex.as_str(), dt)).is_err(), "a literal of {iri} converts to bytes");
            }
        }
        ensure!(Vec::<u8>::try_from(Literal::plain(hex.as_str())).is_err(), "a plain literal converts to bytes");
        c.count("binary", 1);
        Ok(())
    });
    for e in ["integers", "floats", "durations", "names", "binary"] {
        r.require(e, 5000);
    }
}

/// Every data type that XML Schema defines.
const XSD_TYPES: &[&str] = &[
    "anyType", "anySimpleType", "anyAtomicType", "anyURI", "base64Binary", "boolean", "byte", "date", "dateTime", "dateTimeStamp", "dayTimeDuration", "decimal", "double", "duration",
    "ENTITIES", "ENTITY", "error", "float", "gDay", "gMonth", "gMonthDay", "gYear", "gYearMonth", "hexBinary", "ID", "IDREF", "IDREFS", "int", "integer", "language", "long", "Name", "NCName",
    "negativeInteger", "NMTOKEN", "NMTOKENS", "nonNegativeInteger", "nonPositiveInteger", "normalizedString", "NOTATION", "positiveInteger", "precisionDecimal", "QName", "short", "string",
    "time", "token", "unsignedByte", "unsignedInt", "unsignedLong", "unsignedShort", "untypedAtomic", "yearMonthDuration",
];

pub fn c06(r: &mut Runner) {
    r.rule("Every known data type against the IRI its W3C recommendation publishes, both ways; random other IRIs, among them IRIs one edit away from a known one; pairs of data types compared. Distinct by the IRI.");
    r.exhaustive("all 24 known data types");
    let all = known_data_types();
    let n = all.len() as u64;
    r.section("known", n, move |c| {
        let (dt, iri) = &all[c.index as usize];
        ensure_eq!(from_lib_iri(dt.as_iri()), iri.clone(), "IRI of {dt:?}");
        ensure_eq!(&DataType::from(lib_iri(iri)), dt, "data type of {iri}");
        let name = iri.rsplit('#').next().unwrap();
        let prefix = if iri.starts_with(XSD) { "xsd" } else { "rdf" };
        ensure_eq!(dt.to_string(), format!("{prefix}:{name}"), "display of {dt:?}");
        ensure_eq!(Literal::with_data_type_iri("1", lib_iri(iri)), Literal::with_data_type("1", dt.clone()), "literal with the IRI {iri}");
        for (other, oiri) in known_data_types() {
            ensure_eq!(*dt == other, *iri == oiri, "equality of {dt:?} and {other:?}");
            ensure_eq!(dt.cmp(&other).reverse(), other.cmp(dt), "order of {dt:?} and {other:?}");
            ensure_eq!(dt.cmp(&other).is_eq(), *iri == oiri, "order of {dt:?} and {other:?}");
            ensure_eq!(Literal::with_data_type("1", dt.clone()) == Literal::with_data_type("1", other), *iri == oiri, "literals of {iri} and {oiri}");
        }
        c.distinct(iri);
        c.count("known", 1);
        c.sample(|| iri.clone());
        Ok(())
    });
    let n = r.n(40_000, 14);
    r.section("others", n, |c| {
        let all = known_data_types();
        let s = match c.rng.below(4) {
            0 => some_iri(&mut c.rng),
            1 if c.rng.chance(1, 4) => rdf(c.rng.pick(&["langString", "dirLangString", "HTML", "JSON", "XMLLiteral", "PlainLiteral", "CompoundLiteral", "Seq", "value", "type"])),
            1 => xsd(c.rng.pick(XSD_TYPES)),
            _ => {
                let mut s = c.rng.pick(&all).1.clone();
                let at = c.rng.range(s.find('#').unwrap(), s.len() - 1);
                match c.rng.below(4) {
                    0 => s.insert(at + 1, *c.rng.pick(&['a', 'X', '1'])),
                    1 if at > s.find('#').unwrap() => {
                        s.remove(at);
                    }
                    2 => s = s.to_lowercase(),
                    _ => s = s.replace("XMLSchema#", "XMLSchema/").replace("http:", "https:"),
                }
                s
            }
        };
        let i = lib_iri(&s);
        let known = all.iter().find(|(_, k)| *k == from_lib_iri(&i));
        let dt = DataType::from(i.clone());
        ensure_eq!(from_lib_iri(dt.as_iri()), from_lib_iri(&i), "IRI of the data type of {s}");
        match known {
            Some((k, _)) => ensure_eq!(&dt, k, "data type of {s}"),
            None => {
                ensure_eq!(dt, DataType::Other(i.clone()), "data type of {s}");
                ensure_eq!(dt.to_string(), from_lib_iri(&i), "display of the data type {s}");
                for (k, _) in &all {
                    ensure!(*k != dt, "{k:?} is equal to {dt:?}");
                }
                c.count("others", 1);
            }
        }
        let l = Literal::with_data_type_iri("v", i.clone());
        ensure_eq!(l.data_type(), Some(&dt), "data type of the literal with the IRI {s}");
        let st = Statement::new(lib_iri("g:s"), lib_iri("g:p"), l);
        ensure!(format!("{st}").contains(if known.is_some() { "v" } else { "^^<" }), "display of {st}");
        c.distinct(&s);
        Ok(())
    });
    r.require("known", 24);
    r.require("others", 1000);
}
