//! C08, C09, C10: reification, simplification and skolemization.

use crate::graphs::{from_lib_name, lib_name};
use rdfmodel::gen::{Cfg, Pool, PREFIXES};
use rdfmodel::*;
use rdftk_core::model::data_set::DataSet;
use rdftk_core::model::graph::Graph;
use rdftk_core::model::statement::Collection;
use rdftk_iri::{IriPrefixMap, Namespace};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::str::FromStr;
use vmon::gen as vg;
use vmon::{ensure, ensure_eq, fail, Case, Check, Runner};

fn labels(ts: &[Triple]) -> BTreeSet<String> {
    let mut v = BTreeSet::new();
    for t in ts {
        for n in [&t.s, &t.o] {
            n.visit(&mut |n| {
                if let Node::Blank(b) = n {
                    v.insert(b.clone());
                }
            });
        }
    }
    v
}

/// `observed` is `expected` with its fresh- labels replaced by new ones, and no other label changed.
fn same_with_fresh(observed: &[Triple], expected: &[Triple], old: &BTreeSet<String>, what: &str) -> Check {
    same_multiset(observed, expected, what)?;
    // blank nodes that were there keep their labels: pin each of them by a statement of its own
    let pin = |ts: &[Triple]| {
        let mut v = ts.to_vec();
        for l in old {
            v.push(Triple::new(Node::Blank(l.clone()), "pin:label", Node::Lit(Lit::plain(l))));
        }
        v
    };
    same_multiset(&pin(observed), &pin(expected), &format!("{what}, with labels kept"))
}

fn nested_pool(c: &mut Case<'_>) -> Pool {
    if c.rng.chance(1, 6000) {
        c.count("large pools", 1);
        let cfg = Cfg { lists: true, nested: true, max_statements: 3000, iris: 500, blanks: 1500, ..Cfg::default() };
        return Pool::new(&mut c.rng, &cfg);
    }
    let cfg = Cfg { lists: true, nested: true, max_statements: 6, ..Cfg::default() };
    Pool::new(&mut c.rng, &cfg)
}

pub fn c08(r: &mut Runner) {
    r.rule("Random statements and collections, nested in one another to depth 4; their reification is compared, up to the labels of new blank nodes, with a model's flattening, as multisets of flat statements. Distinct by the statement or collection; non-trivial when nested.");
    let n = r.n(60_000, 14);
    r.section("statements", n, |c| {
        let pool = nested_pool(c);
        let depth = c.rng.range(0, 4);
        let t = pool.triple(&mut c.rng, depth);
        let s = lib_statement(&t);
        let (id, sts) = s.reify().map_err(|e| format!("reify of {}: {e}", show(&t)))?;
        let observed: Vec<Triple> = sts.iter().map(from_lib_statement).collect();
        let old = labels(&[t.clone()]);
        let Node::Blank(id) = from_lib_subject(&id) else { fail!("reify of {} is named by {id}", show(&t)) };
        ensure!(!old.contains(&id), "reify of {} is named by one of its own blank nodes", show(&t));
        for u in &observed {
            ensure!(u.is_flat(), "reify of {} has the statement {}", show(&t), show(u));
        }
        let mut expected = vec![];
        let mut fresh = Fresh::default();
        let root = flatten_node(&Node::Triple(Box::new(t.clone())), &mut fresh, true, &mut expected);
        // the name of the whole
        let mut observed = observed;
        observed.push(Triple::new(Node::Blank(id), "pin:root", iri("pin:root")));
        expected.push(Triple::new(root, "pin:root", iri("pin:root")));
        same_with_fresh(&observed, &expected, &old, &format!("reify of {}", show(&t)))?;
        ensure_eq!(from_lib_statement(&s), t, "the statement after reify");
        // again: other names
        let (id2, sts2) = s.reify().unwrap();
        let new1: BTreeSet<String> = labels(&observed).difference(&old).cloned().collect();
        let new2: BTreeSet<String> = labels(&sts2.iter().map(from_lib_statement).collect::<Vec<_>>()).difference(&old).cloned().collect();
        ensure!(new1.is_disjoint(&new2), "two reifications of {} share blank nodes ({id2})", show(&t));
        c.count(if t.is_flat() { "flat" } else { "nested" }, 1);
        if !t.is_flat() {
            c.distinct(&t);
        }
        c.sample(|| show(&t));
        Ok(())
    });
    r.section("collections", n, |c| {
        let pool = nested_pool(c);
        let depth = c.rng.range(0, 3);
        let members: Vec<Node> = (0..if c.rng.chance(1, 3000) { 1100 } else { *c.rng.pick(&[0usize, 1, 2, 3, 8, 30]) }).map(|_| pool.object(&mut c.rng, depth)).collect();
        let col = Collection::from(members.iter().map(lib_object).collect::<Vec<_>>());
        let (head, sts) = col.reify().map_err(|e| format!("reify of {col}: {e}"))?;
        let mut observed: Vec<Triple> = sts.iter().map(from_lib_statement).collect();
        for u in &observed {
            ensure!(u.is_flat(), "reify of {col} has the statement {}", show(u));
        }
        let list = Node::List(members.clone());
        let mut expected = vec![];
        let mut fresh = Fresh::default();
        let root = flatten_node(&list, &mut fresh, true, &mut expected);
        let old = labels(&[Triple::new(iri("x:x"), "x:x", list.clone())]);
        if members.is_empty() {
            ensure_eq!(from_lib_subject(&head), root, "head of the empty collection");
            c.count("empty", 1);
        }
        observed.push(Triple::new(from_lib_subject(&head), "pin:root", iri("pin:root")));
        expected.push(Triple::new(root, "pin:root", iri("pin:root")));
        same_with_fresh(&observed, &expected, &old, &format!("reify of {col}"))?;
        ensure_eq!(col.iter().map(from_lib_object).collect::<Vec<_>>(), members, "the collection after reify");
        c.count("collections", 1);
        c.distinct(&members);
        Ok(())
    });
    // a long list: every member, in order, and nothing twice
    let n = r.n(6, 6);
    r.section("long collections", n, |c| {
        let pool = nested_pool(c);
        let n = if c.index == 0 { 70_000 } else { c.rng.range(2000, 20_000) };
        let members: Vec<Node> = (0..n)
            .map(|k| match k % 5 {
                0 => pool.object(&mut c.rng, 0),
                1 if k % 100 == 1 => pool.object(&mut c.rng, 2),
                _ => Node::Lit(Lit::plain(&format!("{k}"))),
            })
            .collect();
        let objects: Vec<_> = members.iter().map(lib_object).collect();
        let col = if c.rng.bool() { Collection::from(objects) } else { Collection::from_iter(objects) };
        ensure_eq!(col.len(), n, "length of a collection of {n}");
        let (head, sts) = col.reify().map_err(|e| format!("reify of a collection of {n}: {e}"))?;
        let mut first: BTreeMap<Node, Vec<Node>> = BTreeMap::new();
        let mut rest: BTreeMap<Node, Vec<Node>> = BTreeMap::new();
        let (mut types, mut other) = (BTreeSet::new(), 0);
        for st in &sts {
            let t = from_lib_statement(st);
            ensure!(t.is_flat(), "reify of a collection of {n} has the statement {}", show(&t));
            if t.p == rdf("first") {
                first.entry(t.s).or_default().push(t.o);
            } else if t.p == rdf("rest") {
                rest.entry(t.s).or_default().push(t.o);
            } else if t.p == rdf("type") && t.o == Node::Iri(rdf("List")) {
                types.insert(t.s);
            } else {
                other += 1;
            }
        }
        let mut at = from_lib_subject(&head);
        for (k, member) in members.iter().enumerate() {
            let (f, r) = (first.remove(&at).unwrap_or_default(), rest.remove(&at).unwrap_or_default());
            ensure!(f.len() == 1 && r.len() == 1, "member {k} of a collection of {n}: {} first, {} rest", f.len(), r.len());
            ensure!(types.contains(&at), "member {k} of a collection of {n}: its node is not an rdf:List");
            if member.is_flat() {
                ensure_eq!(&f[0], member, "member {k} of a collection of {n}");
            } else {
                ensure!(f[0].is_flat(), "member {k} of a collection of {n} is {}", show_node(&f[0]));
            }
            at = r[0].clone();
        }
        ensure_eq!(at, Node::Iri(rdf("nil")), "the end of a collection of {n}");
        if members.iter().all(|m| m.is_flat()) {
            ensure!(first.is_empty() && rest.is_empty() && types.len() == n && other == 0, "reify of a collection of {n} has other statements");
        }
        let again = from_lib_object(&col.into());
        ensure!(again == Node::List(members), "the collection of {n} after reify");
        c.count("long collections", 1);
        Ok(())
    });
    r.require("long collections", 6);
    r.require("nested", 2000);
    r.require("flat", 2000);
    r.require("collections", 5000);
    r.require("empty", 200);
}

fn a_graph(c: &mut Case<'_>, ts: &[Triple]) -> (Graph, Option<Node>, BTreeMap<String, String>) {
    let name = match c.rng.below(3) {
        0 => None,
        1 => Some(iri("http://example.org/g")),
        // now and then a label that the library is about to generate
        _ if c.rng.chance(1, 4) => Some(blank(&rdfmodel::gen::next_label(&mut c.rng))),
        _ => Some(blank("g")),
    };
    let mut map = IriPrefixMap::empty();
    let mut model = BTreeMap::new();
    for (p, i) in PREFIXES {
        if c.rng.bool() {
            map.insert(Namespace::from_str(&format!("{p}:")).unwrap(), lib_iri(i));
            model.insert(format!("{p}:"), i.to_string());
        }
    }
    let unique = c.rng.chance(1, 4);
    let mut g = if unique { Graph::unique() } else { Graph::default() }
        .with_mappings(map)
        .with_statements(ts.iter().map(lib_statement).collect());
    if let Some(n) = &name {
        g.set_name(lib_name(n));
    }
    (g, name, model)
}

fn envelope(g: &Graph, name: &Option<Node>, map: &BTreeMap<String, String>, what: &str) -> Check {
    ensure_eq!(g.name().map(from_lib_name), name.clone(), "{what}: name");
    let m: BTreeMap<String, String> = g.prefix_mappings().mappings().map(|(k, v)| (k.to_string(), from_lib_iri(v))).collect();
    ensure_eq!(&m, map, "{what}: prefix mappings");
    Ok(())
}

fn is_unique(g: &Graph) -> bool {
    use rdftk_core::model::features::{Featured, FEATURE_GRAPH_DUPLICATES};
    !g.supports_feature(&FEATURE_GRAPH_DUPLICATES)
}

pub fn c09(r: &mut Runner) {
    r.rule("Random graphs of nested statements and collections, named or not, with and without prefix mappings; the simplified graph is compared with a model's flattening, up to new blank nodes. Distinct by the graph; non-trivial when something was nested.");
    let n = r.n(60_000, 14);
    r.section("graphs", n, |c| {
        let pool = nested_pool(c);
        let mut ts = pool.triples(&mut c.rng);
        if c.rng.chance(1, 4) {
            ts.retain(|t| t.is_flat());
        }
        let (g, name, map) = a_graph(c, &ts);
        let source: Vec<Triple> = if is_unique(&g) { dedup(&ts) } else { ts.clone() };
        let s = g.simplify().map_err(|e| format!("simplify of {}: {e}", show_all(&ts)))?;
        let observed = from_lib_graph(&s);
        for t in &observed {
            ensure!(t.is_flat(), "simplify leaves {}", show(t));
        }
        let what = format!("simplify of {}", show_all(&ts));
        same_with_fresh(&observed, &flatten(&source, true), &labels(&ts), &what)?;
        envelope(&s, &name, &map, &what)?;
        let mut after = from_lib_graph(&g);
        let mut before = source.clone();
        after.sort();
        before.sort();
        ensure_eq!(after, before, "the graph after simplify");
        // a flat graph is a fixed point
        let s2 = s.simplify().map_err(|e| e.to_string())?;
        let (mut a, mut b) = (from_lib_graph(&s2), observed);
        a.sort();
        b.sort();
        ensure_eq!(a, b, "simplify of a simplified graph");
        let nested = ts.iter().filter(|t| !t.is_flat()).count();
        c.count(if nested > 0 { "nested" } else { "flat" }, 1);
        if nested > 0 {
            c.distinct(&ts);
        }
        c.sample(|| show_all(&ts));
        Ok(())
    });
    // the graphs of a data set, which share their blank nodes
    let n = r.n(15_000, 14);
    r.section("data sets", n, |c| {
        let pool = nested_pool(c);
        let mut parts: BTreeMap<Option<Node>, (Vec<Triple>, BTreeMap<String, String>)> = BTreeMap::new();
        let mut ds = DataSet::default();
        for k in 0..c.rng.range(0, 4) {
            let mut ts = pool.triples(&mut c.rng);
            if c.rng.chance(1, 4) {
                // flat, of labels that the library is about to generate
                ts = (0..c.rng.range(1, 30)).map(|_| Triple::new(blank(&rdfmodel::gen::next_label(&mut c.rng)), &pool.preds[0], iri("http://example.org/o"))).collect();
            }
            let (mut g, mut name, map) = a_graph(c, &ts);
            if let Some(Node::Iri(i)) = &name {
                let n = iri(&format!("{i}{k}"));
                g.set_name(lib_name(&n));
                name = Some(n);
            }
            let ts = if is_unique(&g) { dedup(&ts) } else { ts };
            ds.insert(g);
            parts.insert(name, (ts, map));
        }
        let what = format!("simplify of the data set of {:?}", parts.iter().map(|(n, (ts, _))| format!("{n:?}: {}", show_all(ts))).collect::<Vec<_>>());
        let simple = ds.simplify().map_err(|e| format!("{what}: {e}"))?;
        ensure_eq!(simple.len(), parts.len(), "{what}: graphs");
        ensure_eq!(ds.len(), parts.len(), "{what}: the graphs after it");
        // all of them together: new blank nodes are of one graph only, and are not those of another
        let (mut observed, mut expected) = (vec![], vec![]);
        let mut old = BTreeSet::new();
        let fold = |name: &Option<Node>, t: Triple| Triple::new(name.clone().unwrap_or(iri("x:default")), "x:in", Node::Triple(Box::new(t)));
        for (k, (name, (ts, map))) in parts.iter().enumerate() {
            let key = name.as_ref().map(lib_name);
            let (Some(g), Some(before)) = (simple.graph(&key), ds.graph(&key)) else { fail!("{what}: no graph {name:?}") };
            envelope(g, name, map, &what)?;
            envelope(before, name, map, &format!("{what}: the original"))?;
            let (mut b, mut a) = (from_lib_graph(before), ts.clone());
            a.sort();
            b.sort();
            ensure_eq!(b, a, "{what}: the original");
            for t in from_lib_graph(g) {
                ensure!(t.is_flat(), "{what} leaves {}", show(&t));
                observed.push(fold(name, t));
            }
            for t in flatten(ts, true) {
                let fresh = |l: &str| if l.starts_with("fresh-") { blank(&format!("fresh-{k}-{}", &l[6..])) } else { blank(l) };
                expected.push(fold(name, Triple { s: replace(&t.s, &fresh), p: t.p.clone(), o: replace(&t.o, &fresh) }));
            }
            old.extend(labels(ts));
            if let Some(Node::Blank(b)) = name {
                old.insert(b.clone());
            }
        }
        same_with_fresh(&observed, &expected, &old, &what)?;
        if parts.len() > 1 {
            c.count("data sets of several graphs", 1);
            c.distinct(&parts.values().map(|p| &p.0).collect::<Vec<_>>());
        }
        Ok(())
    });
    r.require("data sets of several graphs", 1000);
    r.require("nested", 3000);
    r.require("flat", 1000);
}

fn replace(n: &Node, f: &impl Fn(&str) -> Node) -> Node {
    match n {
        Node::Blank(b) => f(b),
        Node::List(v) => Node::List(v.iter().map(|n| replace(n, f)).collect()),
        Node::Triple(t) => Node::Triple(Box::new(Triple { s: replace(&t.s, f), p: t.p.clone(), o: replace(&t.o, f) })),
        o => o.clone(),
    }
}

pub fn c10(r: &mut Runner) {
    r.rule("Random graphs with blank nodes at every position, inside nested statements and collections too, and random base IRIs; every blank node must become one IRI of its own, generated from the base, wherever it occurs, and nothing else may change. Distinct by the graph; non-trivial when a blank node occurs twice.");
    let n = r.n(50_000, 14);
    r.section("graphs", n, |c| {
        let pool = nested_pool(c);
        let ts = pool.triples(&mut c.rng);
        let (g, name, map) = a_graph(c, &ts);
        let source: Vec<Triple> = if is_unique(&g) { dedup(&ts) } else { ts.clone() };
        let parts = loop {
            let p = vg::iri_parts(&mut c.rng);
            if !p.authority.is_empty() {
                break p;
            }
        };
        let base = lib_iri(&parts.join());
        let what = format!("skolemize of {}", show_all(&ts));
        let s = g.skolemize(&base).map_err(|e| format!("{what}: {e}"))?;
        envelope(&s, &name, &map, &what)?;
        let observed = from_lib_graph(&s);
        let old = labels(&ts);
        ensure!(labels(&observed).is_empty(), "{what}: blank nodes are left: {:?}", labels(&observed));
        // turn the generated IRIs back into blank nodes
        let prefix = format!("{}:{}/.well-known/genid/", parts.scheme, parts.authority);
        let mut generated: HashSet<String> = HashSet::new();
        fn back(n: &Node, prefix: &str, generated: &mut HashSet<String>) -> Node {
            match n {
                Node::Iri(i) => match i.strip_prefix(prefix) {
                    Some(id) => {
                        generated.insert(id.to_string());
                        Node::Blank(format!("sk{id}"))
                    }
                    None => n.clone(),
                },
                Node::List(v) => Node::List(v.iter().map(|n| back(n, prefix, generated)).collect()),
                Node::Triple(t) => Node::Triple(Box::new(Triple { s: back(&t.s, prefix, generated), p: t.p.clone(), o: back(&t.o, prefix, generated) })),
                o => o.clone(),
            }
        }
        let unsk: Vec<Triple> = observed
            .iter()
            .map(|t| Triple { s: back(&t.s, &prefix, &mut generated), p: t.p.clone(), o: back(&t.o, &prefix, &mut generated) })
            .collect();
        ensure_eq!(generated.len(), old.len(), "{what}: generated IRIs, one for every blank node");
        same_multiset(&unsk, &source, &what)?;
        let _ = replace(&blank("x"), &|b| blank(b));
        c.count("blank nodes", old.len() as u64);
        c.count("graphs", 1);
        // a graph without blank nodes is kept
        let again = s.skolemize(&base).map_err(|e| e.to_string())?;
        let (mut a, mut b) = (from_lib_graph(&again), observed);
        a.sort();
        b.sort();
        ensure_eq!(a, b, "skolemize of a graph without blank nodes");
        // two graphs do not share generated IRIs
        if !old.is_empty() {
            let twice = g.skolemize(&base).map_err(|e| e.to_string())?;
            let mut g2 = HashSet::new();
            for t in from_lib_graph(&twice) {
                back(&t.s, &prefix, &mut g2);
                back(&t.o, &prefix, &mut g2);
            }
            ensure!(generated.is_disjoint(&g2), "{what}: twice, with the same IRIs");
            c.distinct(&ts);
        }
        c.sample(|| show_all(&ts));
        Ok(())
    });
    r.section("opaque-base", 500, |c| {
        let base = lib_iri("urn:example:base");
        let pool = nested_pool(c);
        let ts = pool.triples(&mut c.rng);
        let g = lib_graph(&ts);
        ensure_eq!(g.skolemize(&base).is_err(), !labels(&ts).is_empty(), "skolemize with an opaque base fails");
        Ok(())
    });
    r.require("blank nodes", 5000);
    r.require("graphs", 5000);
}
