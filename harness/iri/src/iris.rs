//! I03, I04, I05, I09: `Iri`.

use rdftk_iri::{Iri, IriRef, Name};
use std::collections::HashSet;
use std::str::FromStr;
use vmon::gen::{self, is_pn_local, Parts};
use vmon::{ensure, ensure_eq, fail, hash_of, Case, Check, Rng, Runner};

fn bare(i: &Iri) -> String {
    format!("{i:#}")
}

fn parse(s: &str) -> Result<Iri, vmon::Fail> {
    Iri::from_str(s).map_err(|e| format!("Iri::from_str({s:?}) fails: {e}").into())
}

/// IRIREF ::= '<' ([^#x00-#x20<>"{}|^`\] | UCHAR)* '>'; its value.
fn iriref_value(s: &str) -> Option<String> {
    let inner: Vec<char> = s.strip_prefix('<')?.strip_suffix('>')?.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < inner.len() {
        let c = inner[i];
        if c == '\\' {
            let n = match inner.get(i + 1)? {
                'u' => 4,
                'U' => 8,
                _ => return None,
            };
            let hex: String = inner.get(i + 2..i + 2 + n)?.iter().collect();
            if !hex.chars().all(|c| c.is_ascii_hexdigit()) {
                return None;
            }
            out.push(char::from_u32(u32::from_str_radix(&hex, 16).ok()?)?);
            i += 2 + n;
        } else if (c as u32) <= 0x20 || "<>\"{}|^`".contains(c) {
            return None;
        } else {
            out.push(c);
            i += 1;
        }
    }
    Some(out)
}

/// IRIs that are not in normal form, and things that are not IRIs.
fn hostile(rng: &mut Rng) -> String {
    let mut s = match rng.below(8) {
        0 => gen::text(rng),
        1 => format!("x:{}", gen::text(rng)),
        2 => format!("http://example.org/{}", gen::text(rng)),
        3 => format!("http://example.org/p?{}#{}", gen::text(rng), gen::text(rng)),
        4 => format!("ex://h/{}#{}", gen::text(rng), gen::text(rng)),
        5 => format!("{}{}", *rng.pick(&["", "/", "//h/", "#", "?q", "a/b", "http:", "http://", "HTTP://EX.org", "urn:"][..]), gen::text(rng)),
        6 => {
            let mut s = gen::iri(rng);
            let mut i = rng.below(s.len() + 1);
            while !s.is_char_boundary(i) {
                i -= 1;
            }
            s.insert(i, gen::text_char(rng));
            s
        }
        _ => {
            // cut
            let mut s = gen::iri(rng);
            let i = rng.below(s.len() + 1);
            s.truncate(i);
            s
        }
    };
    if rng.chance(1, 8) {
        s = format!("<{s}>");
    }
    s
}

/// What holds of every IRI value, however it was made.
fn iri_value(c: &mut Case<'_>, i: &Iri) -> Check {
    let u: &url::Url = i.as_ref();
    let s: &str = i.as_ref();
    ensure_eq!(s, u.as_str(), "AsRef<str>");
    ensure_eq!(bare(i), s, "alternate form");
    let angle = i.to_string();
    match iriref_value(&angle) {
        None => fail!("{s:?} displays as {angle:?}, which is not an IRIREF"),
        Some(v) => ensure_eq!(v, s, "value of the IRIREF {angle:?}"),
    }
    ensure_eq!(IriRef::from(i).to_string(), angle, "IriRef form");
    // the dependency does not promise parse(serialize(x)) == x for every x
    if url::Url::parse(s).as_ref() == Ok(u) {
        ensure_eq!(&parse(s)?, i, "parse of the bare form of {s:?}");
        ensure_eq!(&parse(&angle)?, i, "parse of the <> form of {s:?}");
        ensure_eq!(Iri::try_from(angle.as_str()).ok().as_ref(), Some(i), "try_from the <> form of {s:?}");
        c.count("text round trips", 2);
        if angle.contains('\\') {
            c.count("round trips with escapes", 1);
        }
    }
    ensure_eq!(&Iri::from(u), i, "From<&Url>");
    ensure_eq!(&Iri::from(url::Url::from(i)), i, "From<Url>");
    ensure_eq!(&url::Url::from(i.clone()), u, "Url::from(Iri)");
    Ok(())
}

pub fn i03(r: &mut Runner) {
    r.rule("IRIs in RFC 3986 normal form (11 schemes, user, host, port, path, query, fragment), strings that are not in normal form, and strings that are not IRIs, bare and in angle brackets. Distinct by the string; non-trivial when it was accepted, or refused by both this crate and the URL parser.");
    r.assume("the url crate implements the IRI grammar; what it accepts is what an Iri may be");
    let n = r.n(150_000, 12);
    r.section("normal-form", n, |c| {
        let p = gen::iri_parts(&mut c.rng);
        let s = p.join();
        c.distinct(&s);
        c.sample(|| s.clone());
        let i = parse(&s)?;
        ensure_eq!(bare(&i), s, "bare form of a normal-form IRI");
        ensure_eq!(i.to_string(), format!("<{s}>"), "<> form of a normal-form IRI");
        ensure_eq!(parse(&format!("<{s}>"))?, i, "parse of <{s}>");
        // one character written as a UCHAR
        let at = c.rng.below(s.len());
        let ch = s.as_bytes()[at];
        for esc in [format!("\\u{ch:04X}"), format!("\\U{ch:08x}")] {
            let t = format!("<{}{}{}>", &s[..at], esc, &s[at + 1..]);
            ensure_eq!(parse(&t)?, i, "parse of {t:?}");
        }
        iri_value(c, &i)
    });
    let n = r.n(250_000, 12);
    r.section("hostile", n, |c| {
        let s = hostile(&mut c.rng);
        c.distinct(&s);
        c.sample(|| format!("{s:?}"));
        let r = Iri::from_str(&s);
        let angle = s.len() >= 2 && s.starts_with('<') && s.ends_with('>');
        if !angle {
            let expected = url::Url::parse(&s);
            ensure_eq!(r.is_ok(), expected.is_ok(), "Iri::from_str({s:?}).is_ok()");
            if let (Ok(i), Ok(u)) = (&r, expected) {
                ensure_eq!(url::Url::from(i), u, "value of {s:?}");
            }
        } else if let Some(v) = iriref_value(&s) {
            let expected = url::Url::parse(&v);
            ensure_eq!(r.is_ok(), expected.is_ok(), "Iri::from_str({s:?}).is_ok()");
            c.count("angle-bracket inputs", 1);
        }
        match &r {
            Ok(i) => {
                c.count("accepted", 1);
                iri_value(c, i)?;
            }
            Err(_) => c.count("rejected", 1),
        }
        Ok(())
    });
    let n = r.n(60_000, 12);
    r.section("comparison", n, |c| {
        let p = gen::iri_parts(&mut c.rng);
        let mut q = p.clone();
        match c.rng.below(7) {
            0 if !q.path.is_empty() => q.path.push('x'),
            1 => q.fragment = if q.fragment.is_some() { None } else { Some(String::new()) },
            2 => q.query = if q.query.is_some() { None } else { Some(String::new()) },
            3 => q = gen::iri_parts(&mut c.rng),
            4 => q.fragment = q.fragment.map(|f| f.to_uppercase()),
            5 => q.path = q.path.trim_end_matches('/').to_string(),
            _ => {}
        }
        let (a, b) = (parse(&p.join())?, parse(&q.join())?);
        let same = bare(&a) == bare(&b);
        c.distinct(&(bare(&a), bare(&b)));
        ensure_eq!(a == b, same, "{a} == {b}");
        ensure_eq!(a.cmp(&b) == std::cmp::Ordering::Equal, same, "{a} cmp {b} is Equal");
        ensure_eq!(a.cmp(&b), b.cmp(&a).reverse(), "{a} cmp {b} and back");
        if same {
            c.count("equal pairs", 1);
            ensure_eq!(hash_of(&a), hash_of(&b), "hashes of equal IRIs {a}");
        } else {
            c.count("unequal pairs", 1);
        }
        Ok(())
    });
    r.require("rejected", 5000);
    r.require("accepted", 5000);
    r.require("round trips with escapes", 500);
    r.require("equal pairs", 1000);
}

fn parts_of(i: &Iri) -> Result<Parts, vmon::Fail> {
    Parts::split(i.as_ref()).ok_or_else(|| format!("{i} has no scheme").into())
}

fn same_but(what: &str, before: &Parts, after: &Parts, path: bool, fragment: bool) -> Check {
    ensure_eq!(after.scheme, before.scheme, "{what}: scheme");
    ensure_eq!(after.authority, before.authority, "{what}: authority");
    ensure_eq!(after.query, before.query, "{what}: query");
    if !path {
        ensure_eq!(after.path, before.path, "{what}: path");
    }
    if !fragment {
        ensure_eq!(after.fragment, before.fragment, "{what}: fragment");
    }
    Ok(())
}

/// The bytes a component stands for, but for the tabs and line ends that no IRI has.
fn meant(text: &str) -> Vec<u8> {
    let text: Vec<u8> = text.bytes().filter(|b| !b"\t\n\r".contains(b)).collect();
    let mut out = Vec::new();
    let mut i = 0;
    while i < text.len() {
        let hex = |k: usize| text.get(i + k).and_then(|b| (*b as char).to_digit(16));
        match (text[i], hex(1), hex(2)) {
            (b'%', Some(h), Some(l)) => {
                out.push((h * 16 + l) as u8);
                i += 3;
            }
            (b, ..) => {
                out.push(b);
                i += 1;
            }
        }
    }
    out
}

pub fn i04(r: &mut Runner) {
    r.rule("Random normal-form IRIs, each given new fragments and paths, both in normal form (the exact result is known) and hostile (the other components must not change). The result is taken apart with the RFC 3986 appendix B decomposition. Distinct by the IRI and the new component.");
    let n = r.n(150_000, 12);
    r.section("fragment", n, |c| {
        let p = gen::iri_parts(&mut c.rng);
        let s = p.join();
        let i = parse(&s)?;
        // a fragment in normal form
        let q = gen::iri_parts(&mut c.rng);
        let f = match c.rng.below(3) {
            0 => gen::pn_local(&mut c.rng, true),
            _ => q.fragment.unwrap_or_else(|| "x".into()),
        };
        c.distinct(&(&s, &f));
        c.sample(|| format!("{s} with fragment {f:?}"));
        let without = s.split('#').next().unwrap();
        let before = i.clone();
        ensure_eq!(bare(&i.with_new_fragment(&f)), format!("{without}#{f}"), "{s}: with_new_fragment({f:?})");
        ensure_eq!(bare(&i.with_new_fragment(f.clone())), format!("{without}#{f}"), "{s}: with_new_fragment({f:?})");
        ensure_eq!(bare(&i.with_empty_fragment()), format!("{without}#"), "{s}: with_empty_fragment");
        ensure_eq!(bare(&i.with_no_fragment()), without, "{s}: with_no_fragment");
        ensure_eq!(i.with_new_fragment(&f).with_no_fragment(), i.with_no_fragment(), "{s}: fragment removed");
        ensure_eq!(i.with_no_fragment().with_no_fragment(), i.with_no_fragment(), "{s}: idempotent");
        ensure_eq!(i, before, "the receiver");
        // hostile
        let mut f = gen::text(&mut c.rng);
        for _ in 0..c.rng.below(3) {
            f.insert_str(0, c.rng.pick(&["#", "?", "/", "\t", "\n", " ", "%", "%4", "%41"]));
        }
        if c.rng.chance(1, 6) {
            f.push_str(c.rng.pick(&[" ", "#", "\n", "%", "\0"]));
        }
        let j = i.with_new_fragment(&f);
        let after = parts_of(&j)?;
        same_but(&format!("{s} with_new_fragment({f:?})"), &parts_of(&i)?, &after, false, true)?;
        ensure!(after.fragment.is_some(), "{s}: with_new_fragment({f:?}) has no fragment");
        ensure!(!f.chars().any(|c| c.is_alphanumeric()) || after.fragment.as_deref() != Some(""), "{s}: with_new_fragment({f:?}) is empty");
        ensure_eq!(meant(after.fragment.as_deref().unwrap_or("")), meant(&f), "what the fragment of {s} with_new_fragment({f:?}), {j}, stands for");
        ensure_eq!(parse(&bare(&j))?, j, "the text of {s} with_new_fragment({f:?}), parsed");
        ensure_eq!(j.with_no_fragment(), i.with_no_fragment(), "{s}: with_new_fragment({f:?}) removed");
        c.count("fragment edits", 6);
        Ok(())
    });
    let n = r.n(150_000, 12);
    r.section("path", n, |c| {
        let p = gen::iri_parts(&mut c.rng);
        let s = p.join();
        let i = parse(&s)?;
        let before = parts_of(&i)?;
        let mut q = gen::iri_parts(&mut c.rng);
        if !q.path.starts_with('/') {
            q.path.insert(0, '/');
        }
        if let Some(unguarded) = q.path.strip_prefix("/.").filter(|u| u.starts_with("//")) {
            q.path = unguarded.to_string();
        }
        let hierarchical = !p.authority.is_empty() && p.scheme != "file";
        c.distinct(&(&s, &q.path));
        c.sample(|| format!("{s} with path {:?}", q.path));
        let j = i.with_new_path(&q.path);
        let after = parts_of(&j)?;
        same_but(&format!("{s} with_new_path({:?})", q.path), &before, &after, true, false)?;
        if hierarchical {
            ensure_eq!(after.path, q.path, "{s}: with_new_path");
            // without the leading slash
            let k = i.with_new_path(&q.path[1..]);
            if q.path.len() > 1 && !q.path[1..].starts_with('/') {
                ensure_eq!(k, j, "{s}: with_new_path({:?}) without the leading '/'", &q.path[1..]);
            }
            c.count("hierarchical path edits", 1);
        } else if p.authority.is_empty() && p.path.starts_with('/') {
            // a path that starts with "//" has a guard, or it would be an authority
            let guard = if q.path.starts_with("//") { "/." } else { "" };
            ensure_eq!(after.path, format!("{guard}{}", q.path), "{s}: with_new_path({:?})", q.path);
            c.count("path edits without an authority", 1);
        }
        let mut text = gen::text(&mut c.rng);
        // what the start of a path could be taken for
        for _ in 0..c.rng.below(4) {
            text.insert_str(0, c.rng.pick(&["/", "//", "\t", "\n", "?", "#", "/.", "/..", "\\", ":", " ", "C:", "%2F"]));
        }
        if c.rng.chance(1, 6) {
            text.push_str(c.rng.pick(&[" ", "  ", "/", "/.", "/..", "\n", "?", "#"]));
        }
        let j = i.with_new_path(&text);
        ensure_eq!(parse(&bare(&j))?, j, "the text of {s} with_new_path({text:?}), parsed");
        c.count("edits of any text", 1);
        let after = parts_of(&j)?;
        same_but(&format!("{s} with_new_path({text:?})"), &before, &after, true, false)?;
        let want = meant(&text);
        let dots = want.split(|b| b"/\\".contains(b)).any(|p| p == b"." || p == b"..");
        if !dots && p.scheme != "file" {
            // but for the separator that an IRI with an authority may take from either slash, and have to have
            let slashes = |b: &[u8]| b.iter().map(|b| if *b == b'\\' { b'/' } else { *b }).collect::<Vec<_>>();
            let (got, want) = (slashes(&meant(&after.path)), slashes(&want));
            let got = got.strip_prefix(b"/.").filter(|_| p.authority.is_empty() && got.starts_with(b"/.//")).unwrap_or(&got);
            ensure!(
                got == want || got.strip_prefix(b"/") == Some(&want),
                "the path of {s} with_new_path({text:?}), {j}, stands for another"
            );
            c.count("paths that stand for the text", 1);
        }
        ensure_eq!(bare(&i), s, "the receiver");
        Ok(())
    });
    let n = r.n(60_000, 8);
    r.section("looks-like-namespace", n, |c| {
        let p = gen::iri_parts(&mut c.rng);
        let s = p.join();
        let i = parse(&s)?;
        let l = i.looks_like_namespace();
        c.distinct(&s);
        match p.fragment.as_deref() {
            Some("") => {
                ensure!(l, "{s} ends with '#', and does not look like a namespace");
                c.count("hash namespaces", 1);
            }
            Some(_) => {
                ensure!(!l, "{s} ends in a fragment, and looks like a namespace");
                c.count("fragments", 1);
            }
            None if p.query.is_some() => ensure!(!l, "{s} has a query, and looks like a namespace"),
            None => {
                ensure_eq!(l, p.path.ends_with('/'), "{s} looks_like_namespace");
                c.count(if l { "slash namespaces" } else { "other" }, 1);
            }
        }
        Ok(())
    });
    r.require("path edits without an authority", 1000);
    r.require("edits of any text", 10_000);
    r.require("paths that stand for the text", 10_000);
    r.require("hash namespaces", 100);
    r.require("slash namespaces", 100);
    r.require("fragments", 100);
    r.require("hierarchical path edits", 1000);
}

/// The namespace and name of an IRI, from its text alone.
fn expected_split(s: &str) -> Option<(String, String)> {
    if let Some((before, f)) = s.split_once('#') {
        return if is_pn_local(f) {
            Some((format!("{before}#"), f.to_string()))
        } else {
            None
        };
    }
    if s.contains('?') {
        return None;
    }
    let p = Parts::split(s)?;
    let (_, last) = p.path.rsplit_once('/')?;
    if is_pn_local(last) {
        Some((s[..s.len() - last.len()].to_string(), last.to_string()))
    } else {
        None
    }
}

fn judge_split(c: &mut Case<'_>, s: &str) -> Check {
    let i = parse(s)?;
    let s: &str = i.as_ref();
    let observed = i.split().map(|(a, b)| (bare(&a), b.to_string()));
    ensure_eq!(observed, expected_split(s), "{s}: split()");
    ensure_eq!(i.namespace(), i.split().map(|x| x.0), "{s}: namespace()");
    ensure_eq!(i.name(), i.split().map(|x| x.1), "{s}: name()");
    if let Some((ns, name)) = i.split() {
        ensure!(ns.looks_like_namespace(), "{s}: the namespace {ns} does not look like one");
        ensure_eq!(ns.make_name(name.clone()).as_ref(), Some(&i), "{s}: make_name of its parts");
        c.count("split", 1);
    } else {
        c.count("not split", 1);
    }
    Ok(())
}

pub fn i05(r: &mut Runner) {
    r.rule("Random IRIs, opaque ones included, with and without a valid last name; namespaces with every kind of ending and random names. Distinct by the IRI, or by the namespace and name.");
    let n = r.n(250_000, 12);
    r.section("split", n, |c| {
        let mut s = gen::iri(&mut c.rng);
        if c.rng.chance(1, 4) {
            s.push_str(&gen::pn_local(&mut c.rng, true));
        }
        if c.rng.chance(1, 8) {
            s.push(*c.rng.pick(&['.', ':', '~', '!', '@', '/', '-', '%'][..]));
            if s.ends_with('%') {
                s.push_str("41");
            }
        }
        c.distinct(&s);
        c.sample(|| s.clone());
        match Iri::from_str(&s) {
            Ok(_) => judge_split(c, &s),
            Err(_) => Ok(()),
        }
    });
    let n = r.n(100_000, 12);
    r.section("split-hostile", n, |c| {
        let s = hostile(&mut c.rng);
        match Iri::from_str(&s) {
            Ok(i) => {
                // opaque paths may end with spaces, which the URL parser drops with the fragment
                if bare(&i).contains(' ') || i.split().is_some_and(|(n, _)| bare(&n).contains(' ')) {
                    let _ = (i.namespace(), i.name(), i.looks_like_namespace());
                    return Ok(());
                }
                c.distinct(&s);
                judge_split(c, &s)
            }
            Err(_) => Ok(()),
        }
    });
    let n = r.n(150_000, 12);
    r.section("make-name", n, |c| {
        let mut p = gen::iri_parts(&mut c.rng);
        if c.rng.bool() {
            p.query = None;
        }
        match c.rng.below(5) {
            0 | 1 => p.fragment = Some(String::new()),
            2 if !p.authority.is_empty() => {
                p.fragment = None;
                if !p.path.ends_with('/') {
                    p.path.push('/');
                }
            }
            3 => p.fragment = None,
            _ => {}
        }
        let s = p.join();
        let ns = parse(&s)?;
        let ascii = c.rng.chance(3, 4);
        let n = gen::pn_local(&mut c.rng, ascii);
        let name = Name::from_str(&n).map_err(|e| format!("{n:?}: {e}"))?;
        c.distinct(&(&s, &n));
        c.sample(|| format!("{s} + {n}"));
        let made = ns.make_name(name.clone());
        ensure_eq!(bare(&ns), s, "the receiver");
        let is_hash = p.fragment.as_deref() == Some("");
        let is_slash = p.fragment.is_none() && p.query.is_none() && p.path.ends_with('/');
        if is_hash || is_slash {
            let Some(made) = made else {
                fail!("{s} is a namespace, and make_name({n:?}) is None");
            };
            c.count("names made", 1);
            if ascii {
                ensure_eq!(bare(&made), format!("{s}{n}"), "{s}: make_name({n:?})");
                ensure_eq!(made.split(), Some((ns.clone(), name)), "{made}: split() of make_name");
            } else {
                // percent-encoded
                let enc: String = n
                    .chars()
                    .map(|ch| {
                        if ch.is_ascii() {
                            ch.to_string()
                        } else {
                            ch.to_string().bytes().map(|b| format!("%{b:02X}")).collect()
                        }
                    })
                    .collect();
                ensure_eq!(bare(&made), format!("{s}{enc}"), "{s}: make_name({n:?})");
            }
        } else {
            ensure_eq!(made, None, "{s} is not a namespace: make_name({n:?})");
            c.count("refused", 1);
        }
        Ok(())
    });
    r.require("split", 5000);
    r.require("not split", 5000);
    r.require("names made", 5000);
    r.require("refused", 1000);
}

pub fn i09(r: &mut Runner) {
    r.rule("Every generated IRI of every thread is recorded; the log is then checked for format, origin and duplicates. Distinct by the generated IRI.");
    let per = r.n(4000, 10);
    r.section_seq("threads", 6, |c| {
        let base_parts: Vec<Parts> = (0..8)
            .map(|_| loop {
                let p = gen::iri_parts(&mut c.rng);
                if !p.authority.is_empty() {
                    break p;
                }
            })
            .collect();
        let logs: Vec<Result<Vec<(usize, String)>, String>> = std::thread::scope(|scope| {
            let hs: Vec<_> = (0..8)
                .map(|t| {
                    let base_parts = &base_parts;
                    scope.spawn(move || {
                        let bases: Vec<Iri> = base_parts.iter().map(|p| Iri::from_str(&p.join()).unwrap()).collect();
                        (0..per as usize)
                            .map(|k| {
                                let b = (k + t) % bases.len();
                                bases[b].genid().map(|g| (b, format!("{g:#}"))).map_err(|e| format!("{}: genid: {e}", bases[b]))
                            })
                            .collect()
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panic in genid".into()))).collect()
        });
        let mut ids: HashSet<String> = HashSet::new();
        for log in logs {
            for (b, g) in log? {
                let p = &base_parts[b];
                let prefix = format!("{}:{}/.well-known/genid/", p.scheme, p.authority);
                let Some(id) = g.strip_prefix(&prefix) else {
                    fail!("genid of {} is {g:?}, expected it to start with {prefix:?}", p.join());
                };
                ensure!(
                    id.len() == 32 && id.bytes().all(|b| b.is_ascii_digit() || (b'a'..=b'f').contains(&b)),
                    "genid {g:?}: {id:?} is not 32 lowercase hexadecimal digits"
                );
                ensure!(ids.insert(id.to_string()), "genid {g:?} was generated twice");
                c.count("generated", 1);
            }
        }
        for id in ids.iter() {
            c.distinct(id);
        }
        // not degenerate: every position of the identifier varies, but for the version and variant
        let n = ids.len();
        for at in (0..32).filter(|&i| i != 12) {
            let d: HashSet<u8> = ids.iter().map(|i| i.as_bytes()[at]).collect();
            ensure!(n < 1000 || d.len() >= 4, "digit {at} of {n} generated identifiers only takes {} values", d.len());
        }
        c.sample(|| format!("{} identifiers, such as {:?}", n, ids.iter().next()));
        Ok(())
    });
    let n = r.n(20_000, 10);
    r.section("bases", n, |c| {
        // every kind of base keeps its scheme and its authority, and nothing else
        let p = gen::iri_parts(&mut c.rng);
        if p.authority.is_empty() {
            return Ok(());
        }
        let i = parse(&p.join())?;
        let g = format!("{:#}", i.genid().map_err(|e| format!("{i}: genid: {e}"))?);
        let prefix = format!("{}:{}/.well-known/genid/", p.scheme, p.authority);
        let Some(id) = g.strip_prefix(&prefix) else {
            fail!("genid of {} is {g:?}, expected it to start with {prefix:?}", p.join());
        };
        ensure!(id.len() == 32 && id.bytes().all(|b| b.is_ascii_digit() || (b'a'..=b'f').contains(&b)), "genid {g:?}: {id:?} is not 32 lowercase hexadecimal digits");
        ensure_eq!(format!("{i:#}"), p.join(), "the base after genid");
        c.count("bases", 1);
        Ok(())
    });
    r.require("bases", 1000);
    r.section("opaque-base", 2000, |c| {
        // an IRI that cannot be a base is refused, with an error
        let s = format!("urn:{}", gen::pn_local(&mut c.rng, true));
        let i = parse(&s)?;
        ensure!(i.genid().is_err(), "genid of {s} does not fail");
        Ok(())
    });
    r.require("generated", 50_000);
}
