//! I01, I02: the name types.

use rdftk_iri::error::NameParseError;
use rdftk_iri::{Iri, IriRef, LocalName, Name, Namespace, PrefixedName};
use std::str::FromStr;
use vmon::gen::{self, is_pn_local, is_pn_prefix};
use vmon::{ensure, ensure_eq, hash_of, Case, Check, Rng, Runner};

/// What the grammar says about a string as a `Namespace`: PNAME_NS ::= PN_PREFIX? ':'.
fn namespace_ok(s: &str) -> bool {
    match s.strip_suffix(':') {
        Some("") => true,
        Some(p) => is_pn_prefix(p),
        None => false,
    }
}

fn local_ok(s: &str) -> bool {
    match s.split_once(':') {
        Some((p, n)) => (p.is_empty() || is_pn_prefix(p)) && is_pn_local(n),
        None => false,
    }
}

fn judge(s: &str) -> Check {
    // Name
    let r = Name::from_str(s);
    let ok = is_pn_local(s);
    ensure_eq!(r.is_ok(), ok, "Name::from_str({s:?}).is_ok()");
    ensure_eq!(Name::is_valid_str(s), ok, "Name::is_valid_str({s:?})");
    ensure_eq!(Name::try_from(s.to_string()).is_ok(), ok, "Name::try_from({s:?})");
    match r {
        Ok(n) => {
            ensure_eq!(n.as_ref(), s, "Name {s:?} as_ref");
            ensure_eq!(n.to_string(), s, "Name {s:?} to_string");
        }
        Err(e) => ensure!(
            matches!(
                (&e, s.is_empty()),
                (NameParseError::EmptyString, true)
                    | (NameParseError::InvalidCharacter(_), false)
                    | (NameParseError::TooManySeparators(_), false)
            ),
            "Name::from_str({s:?}) is rejected with {e:?}"
        ),
    }
    // Namespace
    let r = Namespace::from_str(s);
    let ok = namespace_ok(s);
    ensure_eq!(r.is_ok(), ok, "Namespace::from_str({s:?}).is_ok()");
    ensure_eq!(Namespace::is_valid_str(s), ok, "Namespace::is_valid_str({s:?})");
    ensure_eq!(Namespace::try_from(s.to_string()).is_ok(), ok, "Namespace::try_from({s:?})");
    match r {
        Ok(n) => {
            ensure_eq!(n.as_ref(), s, "Namespace {s:?} as_ref");
            ensure_eq!(n.to_string(), s, "Namespace {s:?} to_string");
        }
        Err(e) => {
            let expected = if s.is_empty() {
                matches!(e, NameParseError::EmptyString)
            } else if !s.ends_with(':') {
                matches!(e, NameParseError::MissingSeparator(_) | NameParseError::InvalidCharacter(_) | NameParseError::TooManySeparators(_))
            } else {
                matches!(e, NameParseError::InvalidCharacter(_) | NameParseError::TooManySeparators(_))
            };
            ensure!(expected, "Namespace::from_str({s:?}) is rejected with {e:?}");
        }
    }
    // new_named supplies the separator when there is none
    let with = if s.ends_with(':') { s.to_string() } else { format!("{s}:") };
    let r = Namespace::new_named(s);
    ensure_eq!(r.is_ok(), namespace_ok(&with), "Namespace::new_named({s:?}).is_ok()");
    if let Ok(n) = r {
        ensure_eq!(n.as_ref(), with, "Namespace::new_named({s:?})");
    }
    // LocalName
    let r = LocalName::from_str(s);
    ensure_eq!(r.is_ok(), local_ok(s), "LocalName::from_str({s:?}).is_ok()");
    match r {
        Ok(l) => {
            let (p, n) = s.split_once(':').unwrap();
            ensure_eq!(l.to_string(), s, "LocalName {s:?} to_string");
            ensure_eq!(l.name().as_ref(), n, "LocalName {s:?} name");
            ensure_eq!(l.namespace().as_ref(), format!("{p}:"), "LocalName {s:?} namespace");
        }
        Err(e) => {
            let expected = if s.is_empty() {
                matches!(e, NameParseError::EmptyString)
            } else if !s.contains(':') {
                matches!(e, NameParseError::MissingSeparator(_) | NameParseError::InvalidCharacter(_))
            } else {
                true
            };
            ensure!(expected, "LocalName::from_str({s:?}) is rejected with {e:?}");
        }
    }
    Ok(())
}

/// Mostly valid pieces, with what breaks them.
fn candidate(rng: &mut Rng) -> String {
    let mut s = String::new();
    let parts = rng.range(0, 4);
    for _ in 0..parts {
        match rng.below(8) {
            0 => s.push(':'),
            1 => s.push('.'),
            2 => s.push(gen::boundary_char(rng)),
            3 => s.push(gen::text_char(rng)),
            4 => s.push_str(&gen::pn_prefix(rng, false)),
            _ => s.push_str(&gen::pn_local(rng, rng.clone().bool())),
        }
    }
    if rng.chance(1, 3) {
        s.push(':');
    }
    if rng.chance(1, 6) {
        s.push('.');
    }
    s
}

pub fn i01(r: &mut Runner) {
    r.rule("Every Unicode scalar value alone, first, in the middle and last, for Name, Namespace and LocalName; then strings assembled from valid pieces, range boundaries, ':' and '.'. A case is non-trivial when the string is not empty; distinct by the string.");
    r.exhaustive("all 1112064 Unicode scalar values in each of 5 positions of a name, for three parsers");
    const CHUNK: u32 = 0x1000;
    r.section("every-code-point", (0x110000 / CHUNK) as u64, |c| {
        let base = c.index as u32 * CHUNK;
        let mut n = 0;
        for v in base..base + CHUNK {
            let Some(ch) = char::from_u32(v) else { continue };
            for s in [
                format!("{ch}"),
                format!("{ch}b"),
                format!("a{ch}b"),
                format!("a{ch}"),
                format!("{ch}:"),
                format!("{ch}b:"),
                format!("a{ch}b:"),
                format!("a{ch}:"),
                format!("a:{ch}"),
                format!("a:b{ch}"),
                format!("a.{ch}.b:c.{ch}.d"),
            ] {
                judge(&s)?;
                n += 1;
            }
        }
        c.count("strings judged", n);
        c.distinct_enumerated(n);
        Ok(())
    });
    let n = r.n(300_000, 12);
    r.section("assembled", n, |c| {
        let s = candidate(&mut c.rng);
        judge(&s)?;
        if !s.is_empty() {
            c.distinct(&s);
        }
        c.count("strings judged", 1);
        if is_pn_local(&s) || namespace_ok(&s) || local_ok(&s) {
            c.count("accepted", 1);
        } else {
            c.count("rejected", 1);
        }
        c.sample(|| format!("{s:?}"));
        Ok(())
    });
    r.section("long", 200, |c| {
        let n = c.rng.range(200, 20_000);
        let mut s: String = (0..n).map(|_| *c.rng.pick(&['a', 'b', '.', '-', '9', '_'])).collect();
        s.insert(0, 'a');
        if c.rng.bool() {
            s.push('z');
        }
        judge(&s)?;
        judge(&format!("{s}:"))?;
        judge(&format!("{s}:{s}"))?;
        c.distinct(&s);
        Ok(())
    });
    r.require("accepted", 1000);
    r.require("rejected", 1000);
}

fn pair(c: &mut Case<'_>) -> (String, String) {
    let ascii = c.rng.bool();
    let p = if c.rng.chance(1, 5) {
        String::new()
    } else {
        gen::pn_prefix(&mut c.rng, ascii)
    };
    (p, gen::pn_local(&mut c.rng, ascii))
}

pub fn i02(r: &mut Runner) {
    r.rule("Random valid prefixes and names (ASCII and not); every constructor, accessor, conversion and comparison of the name types against the strings they were made from. Distinct by the pair of strings.");
    let n = r.n(150_000, 12);
    r.section("parts", n, |c| {
        let (p, n) = pair(c);
        let ns_text = format!("{p}:");
        let text = format!("{p}:{n}");
        c.distinct(&text);
        c.sample(|| text.clone());
        let ns = Namespace::from_str(&ns_text).map_err(|e| format!("{ns_text:?}: {e}"))?;
        let name = Name::from_str(&n).map_err(|e| format!("{n:?}: {e}"))?;
        ensure_eq!(ns.is_default(), p.is_empty(), "{ns_text:?} is_default");
        ensure_eq!(ns.name_string(), if p.is_empty() { None } else { Some(p.as_str()) }, "{ns_text:?} name_string");
        ensure_eq!(ns == Namespace::new_default(), p.is_empty(), "{ns_text:?} == default");
        ensure_eq!(Namespace::new_unchecked(p.as_str()), ns, "Namespace::new_unchecked({p:?})");
        ensure_eq!(Namespace::new_unchecked(ns_text.as_str()), ns, "Namespace::new_unchecked({ns_text:?})");
        if !p.is_empty() {
            ensure_eq!(Namespace::new_named(p.as_str()).ok(), Some(ns.clone()), "Namespace::new_named({p:?})");
        }
        ensure_eq!(Namespace::new_named(ns_text.as_str()).ok(), Some(ns.clone()), "Namespace::new_named({ns_text:?})");
        ensure_eq!(String::from(&ns), ns_text, "String::from(&Namespace)");
        ensure_eq!(String::from(ns.clone()), ns_text, "String::from(Namespace)");
        ensure_eq!(Name::new_unchecked(n.as_str()), name, "Name::new_unchecked({n:?})");
        ensure_eq!(String::from(&name), n, "String::from(&Name)");
        ensure_eq!(String::from(name.clone()), n, "String::from(Name)");

        let local = LocalName::new(ns.clone(), name.clone());
        for (how, l) in [
            ("parsed", LocalName::from_str(&text).map_err(|e| format!("{text:?}: {e}"))?),
            ("ns.qualify", ns.qualify(&name)),
            ("name.qualify", name.qualify(&ns)),
            ("new_unchecked", LocalName::new_unchecked(p.as_str(), n.as_str())),
            ("new_unchecked with ':'", LocalName::new_unchecked(ns_text.as_str(), n.as_str())),
        ] {
            ensure!(l == local, "{text:?}: {how} differs from LocalName::new: {l:?}");
            ensure!(hash_of(&l) == hash_of(&local), "{text:?}: {how}: equal values hash differently");
        }
        if p.is_empty() {
            ensure_eq!(LocalName::new_in_default(name.clone()), local, "new_in_default");
        }
        ensure_eq!(local.namespace(), &ns, "{text:?} namespace()");
        ensure_eq!(local.name(), &name, "{text:?} name()");
        ensure_eq!(local.is_namespace_default(), p.is_empty(), "{text:?} is_namespace_default");
        ensure_eq!(local.to_string(), text, "LocalName to_string");
        ensure_eq!(String::from(&local), text, "String::from(&LocalName)");
        ensure_eq!(String::from(local.clone()), text, "String::from(LocalName)");
        ensure_eq!(local.as_curie(), format!("[{text}]"), "as_curie");

        let pl = PrefixedName::from(&local);
        ensure_eq!(pl, PrefixedName::from(local.clone()), "PrefixedName::from");
        ensure!(pl.is_local() && !pl.is_namespace(), "{text:?}: variant of {pl:?}");
        ensure_eq!(pl.to_string(), text, "PrefixedName to_string");
        let pn = PrefixedName::from(&ns);
        ensure_eq!(pn, PrefixedName::from(ns.clone()), "PrefixedName::from");
        ensure!(pn.is_namespace() && !pn.is_local(), "{ns_text:?}: variant of {pn:?}");
        ensure_eq!(pn.to_string(), ns_text, "PrefixedName to_string");
        let ir = IriRef::from(&pl);
        ensure_eq!(ir, IriRef::from(pl.clone()), "IriRef::from");
        ensure!(ir.is_prefixed_name() && !ir.is_iri(), "variant of {ir:?}");
        ensure_eq!(ir.to_string(), text, "IriRef to_string");
        ensure_eq!(IriRef::from(pn).to_string(), ns_text, "IriRef to_string");
        Ok(())
    });
    let n = r.n(20_000, 12);
    r.section("unchecked", n, |c| {
        // Parts taken without validation are kept to the letter: only the missing ':' is added.
        fn raw(c: &mut Case<'_>) -> String {
            const ODD: [&str; 14] = [
                "", "_", ":", "_:", "::", " ", " x", "x ", "x y", "a:b", "a.", ".", "%20", "\\~",
            ];
            match c.rng.below(4) {
                0 => (*c.rng.pick(&ODD)).to_string(),
                1 => {
                    let ascii = c.rng.bool();
                    let s = gen::pn_local(&mut c.rng, ascii);
                    if c.rng.bool() { s } else { format!("{s}{}", c.rng.pick(&ODD)) }
                }
                2 => candidate(&mut c.rng),
                _ => {
                    let a = *c.rng.pick(&ODD);
                    let b = *c.rng.pick(&ODD);
                    format!("{a}{b}")
                }
            }
        }
        let (p, n) = (raw(c), raw(c));
        c.distinct(&(&p, &n));
        let full = if p.ends_with(':') { p.clone() } else { format!("{p}:") };
        let ns = Namespace::new_unchecked(p.as_str());
        ensure_eq!(ns.to_string(), full, "Namespace::new_unchecked({p:?})");
        let nsr: &str = ns.as_ref();
        ensure_eq!(nsr, full.as_str(), "Namespace::new_unchecked({p:?}) as_ref");
        ensure_eq!(ns.is_default(), full == ":", "Namespace::new_unchecked({p:?}) is_default");
        let bare = &full[..full.len() - 1];
        ensure_eq!(ns.name_string(), Some(bare).filter(|s| !s.is_empty()), "Namespace::new_unchecked({p:?}) name_string");
        let name = Name::new_unchecked(n.as_str());
        ensure_eq!(name.to_string(), n, "Name::new_unchecked({n:?})");
        let nr: &str = name.as_ref();
        ensure_eq!(nr, n.as_str(), "Name::new_unchecked({n:?}) as_ref");
        for (how, l) in [
            ("new", LocalName::new(ns.clone(), name.clone())),
            ("ns.qualify", ns.qualify(&name)),
            ("name.qualify", name.qualify(&ns)),
            ("new_unchecked", LocalName::new_unchecked(p.as_str(), n.as_str())),
        ] {
            ensure_eq!(l.namespace(), &ns, "{how} of {p:?}, {n:?}: namespace()");
            ensure_eq!(l.name(), &name, "{how} of {p:?}, {n:?}: name()");
            ensure_eq!(l.to_string(), format!("{full}{n}"), "{how} of {p:?}, {n:?}: to_string");
            ensure_eq!(l.is_namespace_default(), full == ":", "{how} of {p:?}, {n:?}: is_namespace_default");
        }
        let d = LocalName::new_in_default(name.clone());
        ensure_eq!((d.namespace().to_string(), d.name()), (":".to_string(), &name), "new_in_default of {n:?}");
        if Namespace::from_str(&full).is_err() || Name::from_str(&n).is_err() {
            c.count("unchecked parts outside the grammar", 1);
        }
        Ok(())
    });
    r.require("unchecked parts outside the grammar", 1000);
    let n = r.n(100_000, 12);
    r.section("order", n, |c| {
        let (p1, n1) = pair(c);
        let (mut p2, mut n2) = pair(c);
        match c.rng.below(4) {
            0 => p2 = p1.clone(),
            1 => n2 = n1.clone(),
            2 => {
                p2 = p1.clone();
                n2 = n1.clone();
            }
            _ => {}
        }
        let a = LocalName::new_unchecked(p1.as_str(), n1.as_str());
        let b = LocalName::new_unchecked(p2.as_str(), n2.as_str());
        c.distinct(&(&p1, &n1, &p2, &n2));
        let same = p1 == p2 && n1 == n2;
        ensure_eq!(a == b, same, "{a} == {b}");
        ensure_eq!(a.cmp(&b) == std::cmp::Ordering::Equal, same, "{a} cmp {b}");
        ensure_eq!(a.cmp(&b), b.cmp(&a).reverse(), "{a} cmp {b} and back");
        ensure_eq!(a.partial_cmp(&b), Some(a.cmp(&b)), "{a} partial_cmp {b}");
        ensure_eq!(a.name() == b.name(), n1 == n2, "names of {a}, {b}");
        ensure_eq!(a.namespace() == b.namespace(), p1 == p2, "namespaces of {a}, {b}");
        ensure_eq!(a.name().cmp(b.name()), n1.cmp(&n2), "order of names {n1:?}, {n2:?}");
        if same {
            c.count("equal pairs", 1);
            ensure_eq!(hash_of(&a), hash_of(&b), "hash of equal {a}");
        } else {
            c.count("unequal pairs", 1);
        }
        Ok(())
    });
    r.section("iriref-iri", 2000, |c| {
        let s = gen::iri(&mut c.rng);
        let i = Iri::from_str(&s).map_err(|e| format!("{s:?}: {e}"))?;
        let ir = IriRef::from(&i);
        ensure_eq!(ir, IriRef::from(i.clone()), "IriRef::from");
        ensure!(ir.is_iri() && !ir.is_prefixed_name(), "variant of {ir:?}");
        ensure_eq!(ir.to_string(), i.to_string(), "IriRef to_string");
        ensure_eq!(format!("{ir:#}"), format!("{i:#}"), "IriRef alternate");
        Ok(())
    });
    r.require("equal pairs", 1000);
    r.require("unequal pairs", 1000);
}
