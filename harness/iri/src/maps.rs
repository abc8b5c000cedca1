//! I06, I07, I08, I10: prefix maps, serde, vocabularies.

use rdftk_iri::vocab::{self, Vocabulary};
use rdftk_iri::{Iri, IriPrefixMap, IriRef, LocalName, Name, Namespace, PrefixedName};
use std::collections::BTreeMap;
use std::str::FromStr;
use vmon::gen::{self, is_pn_local, is_pn_prefix};
use vmon::{ensure, ensure_eq, fail, Case, Check, Runner};

fn parse(s: &str) -> Result<Iri, vmon::Fail> {
    Iri::from_str(s).map_err(|e| format!("Iri::from_str({s:?}) fails: {e}").into())
}

/// The model: prefix text -> IRI text, one to one.
#[derive(Default, Clone, Debug, PartialEq)]
struct Model(BTreeMap<String, String>);

impl Model {
    fn insert(&mut self, p: &str, i: &str) {
        self.0.retain(|_, v| v != i);
        self.0.insert(p.to_string(), i.to_string());
    }
}

const DEFAULTS: &[(&str, &str)] = &[
    ("rdf:", "http://www.w3.org/1999/02/22-rdf-syntax-ns#"),
    ("rdfs:", "http://www.w3.org/2000/01/rdf-schema#"),
    ("xsd:", "http://www.w3.org/2001/XMLSchema#"),
    ("owl:", "http://www.w3.org/2002/07/owl#"),
];
const COMMON: &[(&str, &str)] = &[
    ("dcterms:", "http://purl.org/dc/terms/"),
    ("skos:", "http://www.w3.org/2004/02/skos/core#"),
    ("void:", "http://rdfs.org/ns/void#"),
];

fn agrees(m: &IriPrefixMap, model: &Model, prefixes: &[String], iris: &[String]) -> Check {
    ensure_eq!(m.len(), model.0.len(), "len()");
    ensure_eq!(m.is_empty(), model.0.is_empty(), "is_empty()");
    let pairs: Vec<(String, String)> = m.mappings().map(|(p, i)| (p.to_string(), format!("{i:#}"))).collect();
    let mut sorted = pairs.clone();
    sorted.sort();
    let expected: Vec<(String, String)> = model.0.clone().into_iter().collect();
    ensure_eq!(sorted, expected, "mappings()");
    let mut ps: Vec<String> = m.prefixes().map(|p| p.to_string()).collect();
    ps.sort();
    ensure_eq!(ps, expected.iter().map(|e| e.0.clone()).collect::<Vec<_>>(), "prefixes()");
    let mut is: Vec<String> = m.iris().map(|p| format!("{p:#}")).collect();
    is.sort();
    let mut ei: Vec<String> = expected.iter().map(|e| e.1.clone()).collect();
    ei.sort();
    ensure_eq!(is, ei, "iris()");
    for p in prefixes {
        let ns = Namespace::from_str(p).map_err(|e| format!("{p:?}: {e}"))?;
        ensure_eq!(m.get_namespace(&ns).map(|i| format!("{i:#}")), model.0.get(p).cloned(), "get_namespace({p})");
    }
    for i in iris {
        let iri = parse(i)?;
        ensure_eq!(
            m.get_prefix(&iri).map(|p| p.to_string()),
            model.0.iter().find(|e| e.1 == i).map(|e| e.0.clone()),
            "get_prefix({i})"
        );
    }
    ensure_eq!(m.get_default_namespace().map(|i| format!("{i:#}")), model.0.get(":").cloned(), "get_default_namespace()");
    let text = m.to_string();
    for (p, i) in &model.0 {
        ensure!(text.contains(&format!("{p}  <{i}>")) || text.contains(i.as_str()), "Display does not show {p} {i}: {text}");
    }
    Ok(())
}

pub fn i06(r: &mut Runner) {
    r.rule("Random histories of the map's operations over few prefixes and few IRIs, so that they collide on both sides; after every operation, every observer is compared with a model. Distinct by the history; non-trivial when it overwrote a mapping on both sides.");
    let n = r.n(12_000, 12);
    r.section("histories", n, |c| {
        let prefixes: Vec<String> = {
            let mut v = vec![":".to_string(), "rdf:".into(), "owl:".into(), "skos:".into()];
            for _ in 0..3 {
                let ascii = c.rng.bool();
                v.push(format!("{}:", gen::pn_prefix(&mut c.rng, ascii)));
            }
            v
        };
        let iris: Vec<String> = {
            let mut v = vec![DEFAULTS[0].1.to_string(), DEFAULTS[1].1.into(), COMMON[1].1.into()];
            for _ in 0..3 {
                v.push(gen::iri(&mut c.rng));
            }
            v
        };
        let (mut m, mut model) = match c.rng.below(4) {
            0 => (IriPrefixMap::default(), Model::default()),
            1 => (IriPrefixMap::common(), Model::default()),
            _ => (IriPrefixMap::empty(), Model::default()),
        };
        if !m.is_empty() {
            for (p, i) in DEFAULTS {
                model.insert(p, i);
            }
            if m.len() > DEFAULTS.len() {
                for (p, i) in COMMON {
                    model.insert(p, i);
                }
            }
        }
        let mut history = String::new();
        let many = c.rng.chance(1, 5000);
        let mut prefixes = prefixes;
        let mut iris = iris;
        if many {
            c.count("large maps", 1);
            prefixes.extend((0..1200).map(|k| format!("m{k}:")));
            iris.extend((0..1200).map(|k| format!("http://example.org/m/{k}#")));
            for k in 0..1200 {
                let (p, i) = (format!("m{k}:"), format!("http://example.org/m/{}#", (k * 7) % 1200));
                m.insert(Namespace::from_str(&p).unwrap(), parse(&i)?);
                model.insert(&p, &i);
            }
        }
        let steps = c.rng.range(5, 40);
        let mut overwrote = false;
        for _ in 0..steps {
            let p = c.rng.pick(&prefixes).clone();
            let i = c.rng.pick(&iris).clone();
            let ns = Namespace::from_str(&p).map_err(|e| format!("{p:?}: {e}"))?;
            let iri = parse(&i)?;
            let had = (model.0.contains_key(&p), model.0.values().any(|v| *v == i));
            let op;
            match c.rng.below(14) {
                0..=3 => {
                    op = format!("insert({p},{i})");
                    m.insert(ns, iri);
                    model.insert(&p, &i);
                    overwrote |= had == (true, true);
                }
                4 => {
                    op = format!("with({p},{i})");
                    m = m.with(ns, iri);
                    model.insert(&p, &i);
                }
                5 => {
                    op = format!("set_default_namespace({i})");
                    m.set_default_namespace(iri);
                    model.insert(":", &i);
                }
                6 => {
                    op = format!("with_default({i})");
                    m = m.with_default(iri);
                    model.insert(":", &i);
                }
                7 => {
                    op = "remove_default_namespace()".into();
                    m.remove_default_namespace();
                    model.0.remove(":");
                }
                8 | 9 => {
                    op = format!("remove({p})");
                    m.remove(&ns);
                    model.0.remove(&p);
                }
                10 => {
                    let v = c.rng.pick(VOCABS);
                    op = format!("insert_vocabulary({})", v.1);
                    m.insert_vocabulary(&v.0);
                    model.insert(&format!("{}:", v.1), v.2);
                }
                11 => {
                    let v = c.rng.pick(VOCABS);
                    op = format!("with_vocabulary({})", v.1);
                    m = m.with_vocabulary(&v.0);
                    model.insert(&format!("{}:", v.1), v.2);
                }
                12 if c.rng.chance(1, 4) => {
                    op = "clear()".into();
                    m.clear();
                    model.0.clear();
                }
                _ => {
                    op = "clone".into();
                    let k = m.clone();
                    ensure!(k == m, "after {history}: a clone is not equal");
                    let mut other = k.clone();
                    other.insert(Namespace::from_str("zzzz:").unwrap(), parse("http://zzzz.example/")?);
                    ensure!(other != m, "after {history}: a map with another mapping is equal");
                    m = k;
                }
            }
            history.push_str(&op);
            history.push(' ');
            c.count("operations", 1);
            if let Err(e) = agrees(&m, &model, &prefixes, &iris) {
                fail!("after {history}: {}", e.msg);
            }
        }
        // the same mappings, made in another order, are the same map
        let mut again = IriPrefixMap::empty();
        for (p, i) in model.0.iter().rev() {
            again.insert(Namespace::from_str(p).unwrap(), parse(i)?);
        }
        ensure!(again == m, "after {history}: not equal to a map with the same mappings");
        if overwrote {
            c.count("histories with two-sided overwrites", 1);
            c.distinct(&history);
        }
        c.sample(|| history.clone());
        Ok(())
    });
    r.require("operations", 50_000);
    r.require("histories with two-sided overwrites", 500);
    r.min_distinct(500);
}

fn random_map(c: &mut Case<'_>) -> Result<(IriPrefixMap, Model), vmon::Fail> {
    let mut m = IriPrefixMap::empty();
    let mut model = Model::default();
    let n = c.rng.range(1, 6);
    for _ in 0..n {
        let ascii = c.rng.bool();
        let p = if c.rng.chance(1, 4) {
            ":".to_string()
        } else {
            format!("{}:", gen::pn_prefix(&mut c.rng, ascii))
        };
        let mut parts = gen::iri_parts(&mut c.rng);
        match c.rng.below(6) {
            0 => {}
            1 | 2 => {
                parts.query = None;
                parts.fragment = Some(String::new());
            }
            _ => {
                parts.query = None;
                parts.fragment = None;
                if !parts.authority.is_empty() && !parts.path.ends_with('/') {
                    parts.path.push('/');
                }
            }
        }
        let i = parts.join();
        m.insert(Namespace::from_str(&p).map_err(|e| format!("{p}: {e}"))?, parse(&i)?);
        model.insert(&p, &i);
    }
    // namespaces that are prefixes of one another
    if c.rng.bool() {
        for (p, i) in [("p:", "http://h.example/a/"), ("q:", "http://h.example/a/b/"), ("r:", "http://h.example/a/b#"), ("s:", "http://h.example/")] {
            m.insert(Namespace::from_str(p).unwrap(), parse(i)?);
            model.insert(p, i);
        }
    }
    Ok((m, model))
}

fn is_namespace(i: &str) -> bool {
    match i.split_once('#') {
        Some((_, f)) => f.is_empty(),
        None => !i.contains('?') && gen::Parts::split(i).is_some_and(|p| p.path.ends_with('/')),
    }
}

pub fn i07(r: &mut Runner) {
    r.rule("Random maps, with namespaces nested in one another and IRIs that are not namespaces; names in and outside the map expanded, IRIs in and outside the mapped namespaces compressed, against text concatenation. Distinct by the map and the name or IRI.");
    let n = r.n(60_000, 12);
    r.section("expand", n, |c| {
        let (m, model) = random_map(c)?;
        for _ in 0..4 {
            let keys: Vec<&String> = model.0.keys().collect();
            let p = if c.rng.chance(1, 6) {
                "absent-prefix:".to_string()
            } else {
                c.rng.pick(&keys).to_string()
            };
            let n = gen::pn_local(&mut c.rng, true);
            let text = format!("{p}{n}");
            let local = LocalName::from_str(&text).map_err(|e| format!("{text:?}: {e}"))?;
            c.distinct(&(format!("{model:?}"), &text));
            c.sample(|| format!("{text} in {model:?}"));
            let observed = m.expand(&local).map(|i| format!("{i:#}"));
            match model.0.get(&p) {
                None => {
                    ensure_eq!(observed, None, "expand({text}) without its prefix");
                    c.count("prefix not mapped", 1);
                }
                Some(ns) if is_namespace(ns) => {
                    ensure_eq!(observed, Some(format!("{ns}{n}")), "expand({text}), {p} is {ns}");
                    let e = m.expand(&local).unwrap();
                    ensure_eq!(m.compress(&e), Some(local.clone()), "compress(expand({text})), {model:?}");
                    c.count("expanded", 1);
                }
                Some(ns) => {
                    ensure_eq!(observed, None, "expand({text}), {p} is {ns}, not a namespace");
                    c.count("not a namespace", 1);
                }
            }
        }
        Ok(())
    });
    let n = r.n(60_000, 12);
    r.section("compress", n, |c| {
        let (m, model) = random_map(c)?;
        for _ in 0..4 {
            let values: Vec<&String> = model.0.values().collect();
            let s = match c.rng.below(5) {
                0 => gen::iri(&mut c.rng),
                1 => {
                    let v = c.rng.pick(&values).to_string();
                    let n = gen::pn_local(&mut c.rng, true);
                    format!("{v}{n}/{}", gen::pn_local(&mut c.rng, true))
                }
                2 => {
                    let v = c.rng.pick(&values).to_string();
                    format!("{v}{}", *c.rng.pick(&["", "a:b", ".a", "a.", "-a", "%41", "~", "a?b"][..]))
                }
                _ => {
                    let v = c.rng.pick(&values).to_string();
                    format!("{v}{}", gen::pn_local(&mut c.rng, true))
                }
            };
            let Ok(iri) = Iri::from_str(&s) else { continue };
            let s = format!("{iri:#}");
            c.distinct(&(format!("{model:?}"), &s));
            // every (prefix, name) whose expansion this is
            let expected: Vec<String> = model
                .0
                .iter()
                .filter(|(_, v)| is_namespace(v))
                .filter_map(|(p, v)| s.strip_prefix(v.as_str()).map(|n| (p, n)))
                .filter(|(_, n)| is_pn_local(n))
                .map(|(p, n)| format!("{p}{n}"))
                .collect();
            let observed = m.compress(&iri);
            match &observed {
                Some(l) => {
                    ensure_eq!(m.expand(l).as_ref(), Some(&iri), "expand(compress({s})), compressed to {l}, {model:?}");
                    ensure!(expected.contains(&l.to_string()), "compress({s}) is {l}, expected one of {expected:?}");
                    c.count("compressed", 1);
                }
                None => {
                    ensure!(expected.is_empty(), "compress({s}) is None, expected one of {expected:?}");
                    c.count("not compressed", 1);
                }
            }
            let expected_ref = match observed {
                Some(l) => IriRef::PrefixedName(PrefixedName::Local(l)),
                None => IriRef::Iri(iri.clone()),
            };
            ensure_eq!(m.compress_to_iriref(&iri), expected_ref, "compress_to_iriref({s})");
            c.sample(|| format!("{s} in {model:?}"));
        }
        Ok(())
    });
    r.require("expanded", 5000);
    r.require("compressed", 5000);
    r.require("not compressed", 5000);
    r.require("not a namespace", 500);
    r.require("prefix not mapped", 500);
}

fn round<T>(what: &str, v: &T) -> Check
where
    T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug,
{
    let s = serde_json::to_string(v).map_err(|e| format!("{what} {v:?} is not serialized: {e}"))?;
    let back: T = serde_json::from_str(&s).map_err(|e| format!("{what} {v:?} is serialized as {s}, which is refused: {e}"))?;
    ensure_eq!(back, *v, "{what} deserialized from {s}");
    let value = serde_json::to_value(v).map_err(|e| format!("{what} {v:?}: {e}"))?;
    let back: T = serde_json::from_value(value).map_err(|e| format!("{what} {v:?} through a Value: {e}"))?;
    ensure_eq!(back, *v, "{what} deserialized from a Value");
    Ok(())
}

pub fn i08(r: &mut Runner) {
    r.rule("Random values of every serializable type through JSON text and JSON values; random strings, valid or not, deserialized as names, namespaces and IRIs, compared with what the parsers accept. Distinct by the value.");
    let n = r.n(50_000, 12);
    r.section("round-trip", n, |c| {
        let s = gen::iri(&mut c.rng);
        let i = parse(&s)?;
        let ascii = c.rng.bool();
        let p = if c.rng.chance(1, 5) { String::new() } else { gen::pn_prefix(&mut c.rng, ascii) };
        let n = gen::pn_local(&mut c.rng, ascii);
        c.distinct(&(&s, &p, &n));
        c.sample(|| format!("{s} {p}:{n}"));
        let ns = Namespace::new_unchecked(p.as_str());
        let name = Name::new_unchecked(n.as_str());
        let local = LocalName::new(ns.clone(), name.clone());
        round("Iri", &i)?;
        round("Namespace", &ns)?;
        round("Name", &name)?;
        round("LocalName", &local)?;
        round("PrefixedName", &PrefixedName::from(&ns))?;
        round("PrefixedName", &PrefixedName::from(&local))?;
        round("IriRef", &IriRef::from(&i))?;
        round("IriRef", &IriRef::from(PrefixedName::from(&local)))?;
        round("IriRef", &IriRef::from(PrefixedName::from(&ns)))?;
        let (m, _) = random_map(c)?;
        round("IriPrefixMap", &m)?;
        for (what, value, text) in [
            ("Iri", serde_json::to_value(&i), i.as_ref()),
            ("Namespace", serde_json::to_value(&ns), ns.as_ref()),
            ("Name", serde_json::to_value(&name), name.as_ref()),
        ] {
            ensure_eq!(value.map_err(|e| e.to_string())?, serde_json::Value::String(text.to_string()), "{what} serialized");
        }
        round("Vec<Iri>", &vec![i.clone(), i])?;
        c.count("round trips", 11);
        Ok(())
    });
    let n = r.n(150_000, 12);
    r.section("validation", n, |c| {
        let s = match c.rng.below(6) {
            0 => gen::text(&mut c.rng),
            1 => gen::pn_local(&mut c.rng, false),
            2 => format!("{}:", gen::pn_prefix(&mut c.rng, false)),
            3 => format!("{}.", gen::pn_local(&mut c.rng, false)),
            4 => gen::iri(&mut c.rng),
            _ => format!("{}{}", gen::pn_local(&mut c.rng, true), *c.rng.pick(&[":", "::", ".:", " ", "a:b", ""][..])),
        };
        c.distinct(&s);
        let json = serde_json::to_string(&s).unwrap();
        let name: Result<Name, _> = serde_json::from_str(&json);
        ensure_eq!(name.is_ok(), is_pn_local(&s), "Name deserialized from {json}");
        let ns: Result<Namespace, _> = serde_json::from_str(&json);
        let ok = match s.strip_suffix(':') {
            Some("") => true,
            Some(p) => is_pn_prefix(p),
            None => false,
        };
        ensure_eq!(ns.is_ok(), ok, "Namespace deserialized from {json}");
        let iri: Result<Iri, _> = serde_json::from_str(&json);
        ensure_eq!(iri.is_ok(), url::Url::parse(&s).is_ok(), "Iri deserialized from {json}");
        if let Ok(n) = name {
            ensure_eq!(n.as_ref(), s, "Name deserialized");
            c.count("accepted", 1);
        } else {
            c.count("rejected", 1);
        }
        if let Ok(n) = ns {
            ensure_eq!(n.as_ref(), s, "Namespace deserialized");
        }
        // within a structure
        let l: Result<LocalName, _> = serde_json::from_value(serde_json::json!({"namespace": "ex:", "name": s}));
        ensure_eq!(l.is_ok(), is_pn_local(&s), "LocalName with the name {json}");
        let l: Result<LocalName, _> = serde_json::from_value(serde_json::json!({"namespace": s, "name": "x"}));
        ensure_eq!(l.is_ok(), ok, "LocalName with the namespace {json}");
        // within a map, as it is serialized
        let mut one = IriPrefixMap::empty();
        one.insert(Namespace::new_unchecked("placeholder"), parse("http://h.example/placeholder#")?);
        let text = serde_json::to_string(&one).unwrap();
        for (placeholder, allowed) in [("\"placeholder:\"", ok), ("\"http://h.example/placeholder#\"", url::Url::parse(&s).is_ok())] {
            ensure!(text.contains(placeholder), "{text} does not hold {placeholder}");
            let m: Result<IriPrefixMap, _> = serde_json::from_str(&text.replace(placeholder, &json));
            ensure_eq!(m.is_ok(), allowed, "IriPrefixMap with {json} for {placeholder}");
        }
        Ok(())
    });
    r.require("accepted", 5000);
    r.require("rejected", 5000);
}

/// Every vocabulary constant, with the prefix and IRI its documentation states.
const VOCABS: &[(Vocabulary, &str, &str)] = &[
    (vocab::VOCABULARY_CAL, "cal", "http://www.w3.org/2002/12/cal/ical#"),
    (vocab::VOCABULARY_DBPEDIA, "dbpedia", "http://dbpedia.org/ontology/"),
    (vocab::VOCABULARY_DC_ELEMENTS, "dc", "http://purl.org/dc/elements/1.1/"),
    (vocab::VOCABULARY_DC_TERMS, "dcterms", "http://purl.org/dc/terms/"),
    (vocab::VOCABULARY_DOAP, "doap", "http://usefulinc.com/ns/doap#"),
    (vocab::VOCABULARY_FOAF, "foaf", "http://xmlns.com/foaf/0.1/"),
    (vocab::VOCABULARY_GEO_NAMES, "geonames", "http://www.geonames.org/ontology#"),
    (vocab::VOCABULARY_ISO_SKOS, "isothes", "http://purl.org/iso25964/skos-thes#"),
    (vocab::VOCABULARY_OPEN_GIS, "opengis", "http://www.opengis.net/ont/geosparql#"),
    (vocab::VOCABULARY_ORG, "org", "http://www.w3.org/ns/org#"),
    (vocab::VOCABULARY_OWL, "owl", "http://www.w3.org/2002/07/owl#"),
    (vocab::VOCABULARY_RDF, "rdf", "http://www.w3.org/1999/02/22-rdf-syntax-ns#"),
    (vocab::VOCABULARY_RDF_SCHEMA, "rdfs", "http://www.w3.org/2000/01/rdf-schema#"),
    (vocab::VOCABULARY_SIOC, "sioc", "http://rdfs.org/sioc/ns#"),
    (vocab::VOCABULARY_SKOS, "skos", "http://www.w3.org/2004/02/skos/core#"),
    (vocab::VOCABULARY_SKOS_XL, "skosxl", "http://www.w3.org/2008/05/skos-xl#"),
    (vocab::VOCABULARY_VANN, "vann", "http://purl.org/vocab/vann/"),
    (vocab::VOCABULARY_VOID, "void", "http://rdfs.org/ns/void#"),
    (vocab::VOCABULARY_WOT, "wot", "http://xmlns.com/wot/0.1/"),
    (vocab::VOCABULARY_XML, "xml", "http://www.w3.org/XML/1998/namespace"),
    (vocab::VOCABULARY_XML_SCHEMA, "xsd", "http://www.w3.org/2001/XMLSchema#"),
];

pub fn i10(r: &mut Runner) {
    r.rule("Every vocabulary constant against the table of published prefixes and namespace IRIs, used from maps in random combinations and orders; the default and common maps. Distinct by the vocabularies combined and their order.");
    r.exhaustive("all 21 vocabulary constants");
    r.section("constants", VOCABS.len() as u64, |c| {
        let (v, p, i) = &VOCABS[c.index as usize];
        ensure_eq!(v.prefix(), *p, "prefix of {p}");
        ensure_eq!(v.iri(), *i, "IRI of {p}");
        ensure_eq!(v.prefix_as_namespace().to_string(), format!("{p}:"), "prefix_as_namespace of {p}");
        ensure_eq!(format!("{:#}", v.iri_as_iri()), *i, "iri_as_iri of {p}");
        if *p != "xml" {
            ensure!(v.iri_as_iri().looks_like_namespace(), "{i} does not look like a namespace");
        }
        if let Some(d) = v.description() {
            ensure!(!d.is_empty(), "empty description of {p}");
        }
        ensure_eq!(*v == VOCABS[(c.index as usize + 1) % VOCABS.len()].0, false, "{p} and its neighbour");
        c.distinct(p);
        c.count("constants", 1);
        c.sample(|| format!("{p} {i}"));
        Ok(())
    });
    r.section("maps", 1, |c| {
        let e = IriPrefixMap::empty();
        ensure!(e.is_empty() && e.len() == 0 && e.get_default_namespace().is_none(), "empty() is not empty");
        let mut model = Model::default();
        for (p, i) in DEFAULTS {
            model.insert(p, i);
        }
        let none: &[String] = &[];
        agrees(&IriPrefixMap::default(), &model, none, none).map_err(|e| format!("default(): {}", e.msg))?;
        for (p, i) in COMMON {
            model.insert(p, i);
        }
        agrees(&IriPrefixMap::common(), &model, none, none).map_err(|e| format!("common(): {}", e.msg))?;
        c.count("constants", 1);
        Ok(())
    });
    let n = r.n(5_000, 12);
    r.section("combined", n, |c| {
        let mut v: Vec<&(Vocabulary, &str, &str)> = VOCABS.iter().collect();
        c.rng.shuffle(&mut v);
        v.truncate(c.rng.range(1, VOCABS.len()));
        let mut m = IriPrefixMap::empty();
        for x in &v {
            if c.rng.bool() {
                m.insert_vocabulary(&x.0);
            } else {
                m = m.with_vocabulary(&x.0);
            }
        }
        ensure_eq!(m.len(), v.len(), "vocabularies in the map");
        c.distinct(&v.iter().map(|x| x.1).collect::<Vec<_>>());
        for (_, p, i) in v {
            let n = gen::pn_local(&mut c.rng, true);
            let l = LocalName::new_unchecked(*p, n.as_str());
            if *p == "xml" {
                continue;
            }
            let e = m.expand(&l);
            ensure_eq!(e.as_ref().map(|e| format!("{e:#}")), Some(format!("{i}{n}")), "expand({l})");
            ensure_eq!(m.compress(&e.unwrap()), Some(l), "compress({i}{n})");
            c.count("names", 1);
        }
        Ok(())
    });
    let n = r.n(3_000, 12);
    r.section("own-vocabularies", n, |c| {
        // constants need 'static strings
        let p = gen::pn_prefix(&mut c.rng, true);
        let i = format!("http://h.example/{}#", gen::pn_local(&mut c.rng, true));
        let d = "described";
        let (sp, si): (&'static str, &'static str) = (Box::leak(p.clone().into_boxed_str()), Box::leak(i.clone().into_boxed_str()));
        let v = Vocabulary::new(sp, si);
        ensure_eq!((v.prefix(), v.iri(), v.description()), (sp, si, None), "Vocabulary::new");
        let w = v.with_description(d);
        ensure_eq!((w.prefix(), w.iri(), w.description().copied()), (sp, si, Some(d)), "with_description");
        ensure_eq!(w.prefix_as_namespace().to_string(), format!("{p}:"), "prefix_as_namespace");
        ensure_eq!(format!("{:#}", w.iri_as_iri()), i, "iri_as_iri");
        c.distinct(&(p, i));
        Ok(())
    });
}
