//! C01, C02, C03: graphs and data sets, against models.

use rdfmodel::gen::{near_iri, some_iri, Cfg, Pool};
use rdfmodel::*;
use rdftk_core::model::data_set::DataSet;
use rdftk_core::model::features::{
    Featured, FEATURE_GRAPH_DUPLICATES, FEATURE_RDF_STAR, FEATURE_STMT_OBJECT_COLLECTIONS,
};
use rdftk_core::model::graph::{Graph, GraphName};
use rdftk_core::model::statement::{BlankNode, ObjectNode, Statement, SubjectNode};
use rdftk_iri::{Iri, IriPrefixMap, Name, Namespace};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::str::FromStr;
use vmon::{ensure, ensure_eq, fail, hash_of, Case, Check, Rng, Runner};

#[derive(Clone, Debug, PartialEq)]
pub struct GModel {
    pub unique: bool,
    /// With multiplicity; at most one of each in a unique graph.
    pub ts: BTreeMap<Triple, usize>,
    pub name: Option<Node>,
    pub map: BTreeMap<String, String>,
}

impl GModel {
    pub fn new(unique: bool) -> Self {
        GModel { unique, ts: BTreeMap::new(), name: None, map: BTreeMap::new() }
    }
    pub fn insert(&mut self, t: &Triple) {
        let n = self.ts.entry(t.clone()).or_insert(0);
        *n = if self.unique { 1 } else { *n + 1 };
    }
    pub fn len(&self) -> usize {
        self.ts.values().sum()
    }
}

pub fn lib_name(n: &Node) -> GraphName {
    match n {
        Node::Iri(i) => GraphName::from(lib_iri(i)),
        Node::Blank(b) => GraphName::from(lib_blank(b)),
        _ => panic!(),
    }
}

pub fn from_lib_name(n: &GraphName) -> Node {
    match (n.as_iri(), n.as_blank()) {
        (Some(i), None) => Node::Iri(from_lib_iri(i)),
        (None, Some(b)) => Node::Blank(b.as_ref().to_string()),
        _ => panic!("a graph name that is neither or both: {n:?}"),
    }
}

fn counted(ts: impl Iterator<Item = Triple>) -> BTreeMap<Triple, usize> {
    let mut m = BTreeMap::new();
    for t in ts {
        *m.entry(t).or_insert(0) += 1;
    }
    m
}

fn show_counted(m: &BTreeMap<Triple, usize>) -> String {
    m.iter().map(|(t, n)| format!("{n}x {}", show(t))).collect::<Vec<_>>().join(" . ")
}

/// The graph's state agrees with the model's.
pub fn graph_agrees(g: &Graph, m: &GModel, what: &str) -> Check {
    let observed = counted(g.statements().map(from_lib_statement));
    if observed != m.ts {
        fail!("{what}: the graph holds {}, expected {}", show_counted(&observed), show_counted(&m.ts));
    }
    ensure_eq!(g.len(), m.len(), "{what}: len");
    ensure_eq!(g.statements().count(), m.len(), "{what}: statements().count()");
    ensure_eq!(g.is_empty(), m.len() == 0, "{what}: is_empty");
    ensure_eq!(g.is_named(), m.name.is_some(), "{what}: is_named");
    ensure_eq!(g.name().map(from_lib_name), m.name.clone(), "{what}: name");
    let map: BTreeMap<String, String> =
        g.prefix_mappings().mappings().map(|(k, v)| (k.to_string(), from_lib_iri(v))).collect();
    ensure_eq!(map, m.map, "{what}: prefix mappings");
    ensure_eq!(g.supports_feature(&FEATURE_GRAPH_DUPLICATES), !m.unique, "{what}: supports FEATURE_GRAPH_DUPLICATES");
    ensure!(g.supports_feature(&FEATURE_RDF_STAR), "{what}: does not support FEATURE_RDF_STAR");
    Ok(())
}

fn subjects(ts: &BTreeMap<Triple, usize>) -> BTreeSet<Node> {
    ts.keys().map(|t| t.s.clone()).collect()
}

fn set_of<'a, T: 'a>(it: impl IntoIterator<Item = &'a T>, f: impl Fn(&T) -> Node) -> BTreeSet<Node> {
    it.into_iter().map(f).collect()
}

fn iri_node(i: &Iri) -> Node {
    Node::Iri(from_lib_iri(i))
}

/// Every query of the graph, for the given terms, against filters over the model.
fn queries_agree(c: &mut Case<'_>, g: &Graph, m: &GModel, terms: &[Triple], what: &str) -> Check {
    let ts = &m.ts;
    ensure_eq!(set_of(g.subjects(), from_lib_subject), subjects(ts), "{what}: subjects");
    ensure_eq!(g.subjects().len(), subjects(ts).len(), "{what}: number of subjects");
    ensure_eq!(
        set_of(g.blank_node_subjects(), from_lib_subject),
        subjects(ts).into_iter().filter(|n| matches!(n, Node::Blank(_))).collect(),
        "{what}: blank_node_subjects"
    );
    ensure_eq!(
        set_of(g.node_subjects(), from_lib_subject),
        subjects(ts).into_iter().filter(|n| !matches!(n, Node::Blank(_))).collect(),
        "{what}: node_subjects"
    );
    ensure_eq!(set_of(g.predicates(), iri_node), ts.keys().map(|t| Node::Iri(t.p.clone())).collect(), "{what}: predicates");
    ensure_eq!(set_of(g.objects(), from_lib_object), ts.keys().map(|t| t.o.clone()).collect(), "{what}: objects");
    ensure_eq!(g.objects().len(), ts.keys().map(|t| &t.o).collect::<BTreeSet<_>>().len(), "{what}: number of objects");
    for t in terms {
        let (s, p, o) = (lib_subject(&t.s), lib_iri(&t.p), lib_object(&t.o));
        let st = Statement::new(s.clone(), p.clone(), o.clone());
        let present = ts.contains_key(t);
        c.count(if present { "present" } else { "absent" }, 1);
        ensure_eq!(g.contains(&st), present, "{what}: contains {}", show(t));
        ensure_eq!(g.contains_all(&s, &p, &o), present, "{what}: contains_all {}", show(t));
        ensure_eq!(g.contains_subject(&s), ts.keys().any(|u| u.s == t.s), "{what}: contains_subject {}", show_node(&t.s));
        ensure_eq!(
            set_of(g.predicates_for(&s), iri_node),
            ts.keys().filter(|u| u.s == t.s).map(|u| Node::Iri(u.p.clone())).collect(),
            "{what}: predicates_for {}",
            show_node(&t.s)
        );
        ensure_eq!(
            set_of(g.objects_for(&s, &p), from_lib_object),
            ts.keys().filter(|u| u.s == t.s && u.p == t.p).map(|u| u.o.clone()).collect(),
            "{what}: objects_for {} {}",
            show_node(&t.s),
            t.p
        );
        for mask in 0..8 {
            let (ms, mp, mo) = (mask & 1 != 0, mask & 2 != 0, mask & 4 != 0);
            let found = g.matches(ms.then_some(&s), mp.then_some(&p), mo.then_some(&o));
            let observed: BTreeSet<Triple> = found.iter().map(|s| from_lib_statement(s)).collect();
            let expected: BTreeSet<Triple> = ts
                .keys()
                .filter(|u| (!ms || u.s == t.s) && (!mp || u.p == t.p) && (!mo || u.o == t.o))
                .cloned()
                .collect();
            ensure_eq!(found.len(), expected.len(), "{what}: size of matches {} mask {mask}", show(t));
            ensure_eq!(observed, expected, "{what}: matches {} mask {mask}", show(t));
            c.count("matches", 1);
        }
    }
    Ok(())
}

fn cfg(c: &mut Case<'_>) -> Cfg {
    Cfg {
        max_statements: 10,
        lists: c.rng.bool(),
        nested: c.rng.bool(),
        iris: c.rng.range(1, 3),
        blanks: c.rng.range(0, 3),
        ..Cfg::default()
    }
}

/// A few statements that share their terms, so that an operation on one concerns others.
fn universe(c: &mut Case<'_>) -> Vec<Triple> {
    if c.rng.chance(1, 1500) {
        // and now and then very many
        c.count("large", 1);
        let cfg = Cfg { max_statements: 2500, lists: true, nested: true, iris: 400, blanks: 800, ..Cfg::default() };
        let pool = Pool::new(&mut c.rng, &cfg);
        let size = if c.rng.bool() { c.rng.range(1000, 2500) } else { c.rng.range(130, 1000) };
        let mut v: Vec<Triple> = (0..size).map(|_| pool.triple(&mut c.rng, 2)).collect();
        // with twins, that differ in a detail, or that look the same when they are written
        for i in 0..size / 3 {
            let t = pool.near_triple(&mut c.rng, &v[i]);
            v.push(t);
        }
        for i in 0..size {
            let look = match &v[i].o {
                Node::Lit(l) => {
                    let other = *c.rng.pick(&["long", "int", "short", "byte", "float", "double", "decimal", "boolean", "unsignedInt"]);
                    vec![Lit { dt: Some(xsd(other)), lang: None, ..l.clone() }, Lit { dt: Some(xsd("long")), lang: None, ..l.clone() }]
                }
                Node::Iri(text) if i % 4 == 0 => vec![Lit::typed(text, &xsd("anyURI"))],
                _ => vec![],
            };
            for l in look {
                let t = Triple { o: Node::Lit(l), ..v[i].clone() };
                v.push(t);
            }
        }
        v.sort();
        v.dedup();
        c.rng.shuffle(&mut v);
        return v;
    }
    let cfg = cfg(c);
    let pool = Pool::new(&mut c.rng, &cfg);
    let s: Vec<Node> = (0..c.rng.range(1, 4)).map(|_| pool.subject(&mut c.rng, 2)).collect();
    let o: Vec<Node> = (0..c.rng.range(1, 5)).map(|_| pool.object(&mut c.rng, 2)).collect();
    let mut v: Vec<Triple> = (0..c.rng.range(2, 14))
        .map(|_| Triple { s: c.rng.pick(&s).clone(), p: c.rng.pick(&pool.preds).clone(), o: c.rng.pick(&o).clone() })
        .collect();
    // an object that is like another in all but one component of the literal
    if let Some(Node::Lit(l)) = o.iter().find(|o| matches!(o, Node::Lit(_))) {
        let other = match c.rng.below(4) {
            0 => Lit::plain(&l.value),
            1 => Lit::typed(&l.value, &xsd("string")),
            2 => Lit::lang(&l.value, "en"),
            _ => Lit { value: format!("{}x", l.value), ..l.clone() },
        };
        let t = c.rng.pick(&v).clone();
        v.push(Triple { o: Node::Lit(other), ..t });
    }
    // and statements like others, but for a detail of a term
    for _ in 0..c.rng.below(4) {
        let t = c.rng.pick(&v).clone();
        v.push(pool.near_triple(&mut c.rng, &t));
    }
    v
}

fn a_name(c: &mut Case<'_>) -> Node {
    if c.rng.bool() {
        Node::Iri(some_iri(&mut c.rng))
    } else {
        Node::Blank(format!("g{}", c.rng.below(4)))
    }
}

fn a_map(c: &mut Case<'_>) -> (IriPrefixMap, BTreeMap<String, String>) {
    let mut m = IriPrefixMap::empty();
    let mut model = BTreeMap::new();
    for i in 0..c.rng.below(3) {
        let p = format!("p{i}:");
        let v = format!("http://example.org/{i}/{}#", c.rng.below(3));
        m.insert(Namespace::from_str(&p).unwrap(), lib_iri(&v));
        model.insert(p, v);
    }
    (m, model)
}

fn new_graph(c: &mut Case<'_>, universe: &[Triple]) -> (Graph, GModel) {
    let unique = c.rng.bool();
    let mut m = GModel::new(unique);
    let mut default_map = BTreeMap::new();
    for (k, v) in Graph::default().prefix_mappings().mappings() {
        default_map.insert(k.to_string(), from_lib_iri(v));
    }
    m.map = default_map;
    let name = c.rng.bool().then(|| a_name(c));
    m.name = name.clone();
    let g = match (unique, &name) {
        (true, None) => Graph::unique(),
        (true, Some(n)) => Graph::unique_named(lib_name(n)),
        (false, Some(n)) => Graph::named(lib_name(n)),
        (false, None) => {
            let k = c.rng.below(4);
            let some: Vec<Triple> = (0..c.rng.below(4)).map(|_| c.rng.pick(universe).clone()).collect();
            match k {
                0 => Graph::default(),
                1 => {
                    m.insert(&universe[0]);
                    Graph::from(lib_statement(&universe[0]))
                }
                2 => {
                    some.iter().for_each(|t| m.insert(t));
                    Graph::from(some.iter().map(lib_statement).collect::<Vec<_>>())
                }
                _ => {
                    some.iter().for_each(|t| m.insert(t));
                    let some = some.iter().map(lib_statement).collect();
                    Graph::from_iter(shaped(&mut c.rng, some))
                }
            }
        }
    };
    (g, m)
}

/// The items, in an iterator that knows how many there are, or only bounds for that, or nothing.
fn shaped<T: Clone + 'static>(rng: &mut Rng, items: Vec<T>) -> Box<dyn Iterator<Item = T>> {
    struct Bounded<T>(std::vec::IntoIter<T>, usize, Option<usize>);
    impl<T> Iterator for Bounded<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.next()
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            let n = self.0.len();
            (n.min(self.1), self.2.map(|more| n + more))
        }
    }
    match rng.below(5) {
        0 => Box::new(items.into_iter()),
        1 => Box::new(items.into_iter().filter(|_| true)),
        2 => {
            let mut items = items.into_iter();
            Box::new(std::iter::from_fn(move || items.next()))
        }
        _ => {
            let more = if rng.bool() { Some(rng.below(9)) } else { None };
            Box::new(Bounded(items.into_iter(), rng.below(3), more))
        }
    }
}

/// Operations on a graph and on its model, one after another; with or without queries between them.
fn history(c: &mut Case<'_>, queries: bool) -> Check {
    let u = universe(c);
    let (mut g, mut m) = new_graph(c, &u);
    graph_agrees(&g, &m, "new")?;
    let mut log: Vec<(&'static str, u64)> = vec![("unique", m.unique as u64)];
    let mut snapshots: Vec<(Graph, GModel)> = vec![];
    let mut interesting = false;
    if u.len() > 100 {
        let all = u.iter().map(lib_statement).collect();
        g.extend(shaped(&mut c.rng, all));
        u.iter().for_each(|t| m.insert(t));
    }
    for step in 0..c.rng.range(1, 30) {
        let t = c.rng.pick(&u).clone();
        let st = lib_statement(&t);
        let op = match c.rng.below(20) {
            0..=5 => {
                interesting |= m.ts.contains_key(&t);
                g.insert(st);
                m.insert(&t);
                "insert"
            }
            6 | 7 => {
                let some: Vec<Triple> = (0..c.rng.below(5)).map(|_| c.rng.pick(&u).clone()).collect();
                if c.rng.bool() {
                    let some = some.iter().map(lib_statement).collect();
                    g.extend(shaped(&mut c.rng, some));
                } else {
                    g.extend(some.iter().map(lib_statement).collect::<HashSet<_>>().into_iter().flat_map(|s| {
                        let n = some.iter().filter(|t| lib_statement(t) == s).count();
                        vec![s; n]
                    }));
                }
                some.iter().for_each(|t| m.insert(t));
                "extend"
            }
            8 | 9 => {
                let (mut g2, mut m2) = new_graph(c, &u);
                for _ in 0..c.rng.below(4) {
                    let t = c.rng.pick(&u);
                    g2.insert(lib_statement(t));
                    m2.insert(t);
                }
                g.merge(&g2);
                for (t, n) in &m2.ts {
                    for _ in 0..*n {
                        m.insert(t);
                    }
                }
                graph_agrees(&g2, &m2, "the graph merged from")?;
                "merge"
            }
            10 => {
                let dropped = counted(g.dedup().iter().map(from_lib_statement));
                let expected: BTreeMap<Triple, usize> =
                    m.ts.iter().filter(|(_, n)| **n > 1).map(|(t, n)| (t.clone(), n - 1)).collect();
                interesting |= !expected.is_empty();
                ensure_eq!(dropped, expected, "dedup returns");
                m.ts.values_mut().for_each(|n| *n = 1);
                "dedup"
            }
            11 | 12 => {
                g.remove(&st);
                c.count(if m.ts.remove(&t).is_some() { "removed" } else { "removed absent" }, 1);
                "remove"
            }
            13 => {
                let removed = counted(g.remove_all_for(&lib_subject(&t.s)).iter().map(from_lib_statement));
                let expected: BTreeMap<Triple, usize> =
                    m.ts.iter().filter(|(u, _)| u.s == t.s).map(|(t, n)| (t.clone(), *n)).collect();
                ensure_eq!(removed, expected, "remove_all_for({}) returns", show_node(&t.s));
                m.ts.retain(|u, _| u.s != t.s);
                "remove_all_for"
            }
            14 if c.rng.chance(1, 3) => {
                g.clear();
                m.ts.clear();
                "clear"
            }
            15 => {
                if c.rng.bool() {
                    g.unset_name();
                    m.name = None;
                } else {
                    let n = a_name(c);
                    g.set_name(lib_name(&n));
                    m.name = Some(n);
                }
                "name"
            }
            16 => {
                let (map, model) = a_map(c);
                if c.rng.bool() {
                    g.set_prefix_mappings(map);
                } else {
                    g = g.with_mappings(map);
                }
                m.map = model;
                "mappings"
            }
            17 if c.rng.chance(1, 3) => {
                let some: Vec<Triple> = (0..c.rng.below(6)).map(|_| c.rng.pick(&u).clone()).collect();
                g = g.with_statements(some.iter().map(lib_statement).collect());
                m.ts.clear();
                some.iter().for_each(|t| m.insert(t));
                "with_statements"
            }
            18 => {
                snapshots.push((g.clone(), m.clone()));
                "clone"
            }
            _ => {
                // statements one after another, from the graph itself
                let own: Vec<Statement> = g.statements().cloned().collect();
                let k = c.rng.below(own.len() + 1);
                for s in &own[..k] {
                    m.insert(&from_lib_statement(s));
                }
                g.extend(own[..k].to_vec());
                "extend from itself"
            }
        };
        log.push((op, hash_of(&t)));
        c.count(op, 1);
        c.count("operations", 1);
        graph_agrees(&g, &m, &format!("after operation {step} ({op}) of {:?}", log.iter().map(|l| l.0).collect::<Vec<_>>()))?;
        ensure_eq!(g.contains(&lib_statement(&t)), m.ts.contains_key(&t), "contains after {op}");
        // the same answers as from a graph that was never asked, or changed, before
        if queries && c.rng.chance(2, 3) {
            let mut terms = vec![t.clone(), c.rng.pick(&u).clone()];
            let other = c.rng.pick(&u).clone();
            terms.push(Triple { s: t.s.clone(), ..other });
            queries_agree(c, &g, &m, &terms, &format!("after operation {step} ({op})"))?;
            c.count("queries between operations", 1);
        }
    }
    for (g, m) in &snapshots {
        graph_agrees(g, m, "a clone, after operations on the original")?;
        if queries {
            let terms = vec![c.rng.pick(&u).clone(), c.rng.pick(&u).clone()];
            queries_agree(c, g, m, &terms, "a clone, after operations on the original")?;
        }
    }
    if interesting {
        c.distinct(&log);
    }
    c.sample(|| format!("{:?}", log.iter().map(|l| l.0).collect::<Vec<_>>()));
    Ok(())
}

pub fn c01(r: &mut Runner) {
    r.rule("Random histories of 1 to 30 operations on graphs that do and do not hold duplicates, over statements that share their subjects, predicates and objects (nested statements and collections included); after every operation the statements with their multiplicity, the size, the name and the prefix mappings are compared with a model, and clones taken on the way are checked to be unchanged at the end. Distinct by the history; non-trivial when the graph held a duplicate or refused one.");
    let n = r.n(40_000, 14);
    r.section("histories", n, |c| history(c, false));
    r.require("operations", 20_000);
    r.require("removed", 500);
    for op in ["merge", "dedup", "remove_all_for", "clear", "with_statements", "clone"] {
        r.require(op, 300);
    }
    r.min_distinct(1000);
}

pub fn c02(r: &mut Runner) {
    r.rule("Random graphs, unique and not, with nested statements and collections; every query method, and matches with every combination of given and absent components, for statements that are in the graph, share some components with it, or none; the same between the operations of random histories, and of clones taken on the way. Distinct by the graph and the terms asked for.");
    let n = r.n(40_000, 14);
    r.section("queries", n, |c| {
        let u = universe(c);
        let (mut g, mut m) = new_graph(c, &u);
        for _ in 0..if u.len() > 100 { 2 * u.len() } else { c.rng.below(14) } {
            let t = c.rng.pick(&u);
            g.insert(lib_statement(t));
            m.insert(t);
        }
        let mut terms: Vec<Triple> = (0..3).map(|_| c.rng.pick(&u).clone()).collect();
        let (a, b) = (c.rng.pick(&u).clone(), c.rng.pick(&u).clone());
        terms.push(Triple { s: a.s.clone(), p: b.p.clone(), o: c.rng.pick(&u).o.clone() });
        terms.push(Triple { s: Node::Iri("http://example.org/nowhere".into()), ..a });
        terms.push(Triple { o: Node::Lit(Lit::plain("nowhere")), ..b.clone() });
        // a nested node equal to a node of the graph, made separately
        terms.push(Triple { s: Node::Triple(Box::new(b.clone())), ..b });
        // and some that are nearly statements of it
        let pool = Pool::new(&mut c.rng, &Cfg::default());
        for _ in 0..2 {
            let t = c.rng.pick(&u).clone();
            terms.push(pool.near_triple(&mut c.rng, &t));
        }
        queries_agree(c, &g, &m, &terms, "graph")?;
        graph_agrees(&g, &m, "after the queries")?;
        c.distinct(&(m.ts.iter().collect::<Vec<_>>(), terms.iter().collect::<Vec<_>>()));
        c.sample(|| show_counted(&m.ts));
        Ok(())
    });
    let n = r.n(8_000, 14);
    r.section("queries in histories", n, |c| history(c, true));
    r.require("queries between operations", 20_000);
    r.require("present", 5000);
    r.require("absent", 5000);
    r.require("matches", 50_000);
}

/// The data set agrees with the model: by default, by name, and by iteration.
fn data_set_agrees(d: &DataSet, m: &BTreeMap<Option<Node>, GModel>, names: &[Node], what: &str) -> Check {
    ensure_eq!(d.len(), m.len(), "{what}: len");
    ensure_eq!(d.is_empty(), m.is_empty(), "{what}: is_empty");
    ensure_eq!(d.has_default_graph(), m.contains_key(&None), "{what}: has_default_graph");
    ensure_eq!(d.graphs().count(), m.len(), "{what}: graphs().count()");
    let mut seen = BTreeSet::new();
    for g in d.graphs() {
        let key = g.name().map(from_lib_name);
        let Some(gm) = m.get(&key) else { fail!("{what}: graphs() has a graph named {key:?}") };
        graph_agrees(g, gm, &format!("{what}: graph {key:?} of graphs()"))?;
        ensure!(seen.insert(key.clone()), "{what}: graphs() has graph {key:?} twice");
    }
    for key in names.iter().cloned().map(Some).chain([None]) {
        let lib_key = key.as_ref().map(lib_name);
        let expected = m.get(&key);
        ensure_eq!(d.contains_graph(&lib_key), expected.is_some(), "{what}: contains_graph({key:?})");
        let found = d.graph(&lib_key);
        ensure_eq!(found.is_some(), expected.is_some(), "{what}: graph({key:?}) is some");
        if let (Some(g), Some(gm)) = (found, expected) {
            graph_agrees(g, gm, &format!("{what}: graph({key:?})"))?;
        }
        let same = match &lib_key {
            Some(k) => {
                ensure_eq!(d.has_graph_named(k), expected.is_some(), "{what}: has_graph_named({key:?})");
                d.graph_named(k)
            }
            None => d.default_graph(),
        };
        ensure!(
            match (same, found) {
                (Some(a), Some(b)) => std::ptr::eq(a, b),
                (None, None) => true,
                _ => false,
            },
            "{what}: graph_named/default_graph and graph({key:?}) differ"
        );
    }
    Ok(())
}

pub fn c03(r: &mut Runner) {
    r.rule("Random histories of 1 to 20 operations on data sets, over few graph names (IRIs and blank nodes, some with the same text), with graphs changed in place between them; after every operation every lookup is compared with a model. Distinct by the history; non-trivial when a graph was replaced.");
    let n = r.n(25_000, 14);
    r.section("histories", n, |c| {
        let u = universe(c);
        // a blank node and an IRI may look alike
        let mut names: Vec<Node> = vec![iri("g:g1"), blank("g1"), blank("g2")];
        for _ in 0..2 {
            names.push(a_name(c));
        }
        let many = c.rng.chance(1, 1000);
        if many {
            c.count("many graphs", 1);
            names.extend((0..800).map(|k| if k % 3 == 0 { blank(&format!("m{k}")) } else { iri(&format!("http://example.org/m/{k}")) }));
        }
        let like = match c.rng.pick(&names) {
            Node::Iri(i) => i.clone(),
            _ => "http://example.org/g".to_string(),
        };
        let near = near_iri(&mut c.rng, &like);
        names.push(Node::Iri(near));
        names.sort();
        names.dedup();
        let graph = |c: &mut Case<'_>| {
            let (mut g, mut m) = new_graph(c, &u);
            for _ in 0..c.rng.below(5) {
                let t = c.rng.pick(&u);
                g.insert(lib_statement(t));
                m.insert(t);
            }
            if c.rng.chance(1, 4) {
                g.unset_name();
                m.name = None;
            } else {
                let n = c.rng.pick(&names).clone();
                g.set_name(lib_name(&n));
                m.name = Some(n);
            }
            (g, m)
        };
        let mut d = DataSet::default();
        let mut m: BTreeMap<Option<Node>, GModel> = BTreeMap::new();
        let first: Vec<(Graph, GModel)> = (0..if many { 1500 } else { c.rng.below(4) }).map(|_| graph(c)).collect();
        let by_name = |gs: &[(Graph, GModel)]| gs.iter().map(|(_, m)| (m.name.clone(), m.clone())).collect::<BTreeMap<_, _>>();
        match c.rng.below(5) {
            0 => {
                d = DataSet::from(first.iter().map(|x| x.0.clone()).collect::<Vec<_>>());
                m = by_name(&first);
            }
            1 => {
                let first_graphs = first.iter().map(|x| x.0.clone()).collect();
                d = DataSet::from_iter(shaped(&mut c.rng, first_graphs));
                m = by_name(&first);
            }
            2 => {
                d = DataSet::from(first.iter().map(|x| (x.0.name().cloned(), x.0.clone())).collect::<HashMap<_, _>>());
                m = by_name(&first);
            }
            3 => {
                let (g, gm) = graph(c);
                d = DataSet::from(g);
                m.insert(gm.name.clone(), gm);
            }
            _ => {}
        }
        data_set_agrees(&d, &m, &names, "new")?;
        let mut log: Vec<(&'static str, u64)> = vec![];
        let mut replaced = false;
        let mut snapshots = vec![];
        for step in 0..c.rng.range(1, 20) {
            let key = if c.rng.chance(1, 4) { None } else { Some(c.rng.pick(&names).clone()) };
            let lib_key = key.as_ref().map(lib_name);
            let op = match c.rng.below(12) {
                0..=3 => {
                    let (g, gm) = graph(c);
                    replaced |= m.insert(gm.name.clone(), gm).is_some();
                    d.insert(g);
                    "insert"
                }
                4 | 5 => {
                    let gs: Vec<(Graph, GModel)> = (0..c.rng.below(4)).map(|_| graph(c)).collect();
                    d.extend(gs.iter().map(|g| g.0.clone()).collect());
                    for (_, gm) in gs {
                        replaced |= m.insert(gm.name.clone(), gm).is_some();
                    }
                    "extend"
                }
                6 | 7 => {
                    d.remove(&lib_key);
                    m.remove(&key);
                    "remove"
                }
                8 if c.rng.chance(1, 4) => {
                    d.clear();
                    m.clear();
                    "clear"
                }
                9 => {
                    snapshots.push((d.clone(), m.clone()));
                    "clone"
                }
                _ => {
                    let t = c.rng.pick(&u).clone();
                    let (found, expected) = (d.graph_mut(&lib_key), m.get_mut(&key));
                    ensure_eq!(found.is_some(), expected.is_some(), "graph_mut({key:?}) is some");
                    if let (Some(g), Some(gm)) = (found, expected) {
                        if c.rng.chance(1, 4) {
                            g.remove(&lib_statement(&t));
                            gm.ts.remove(&t);
                        } else {
                            g.insert(lib_statement(&t));
                            gm.insert(&t);
                        }
                        c.count("graphs changed in place", 1);
                    }
                    "graph_mut"
                }
            };
            log.push((op, hash_of(&key)));
            c.count("operations", 1);
            data_set_agrees(&d, &m, &names, &format!("after operation {step} ({op})"))?;
        }
        for (d, m) in &snapshots {
            data_set_agrees(d, m, &names, "a clone, after operations on the original")?;
        }
        if replaced {
            c.distinct(&log);
        }
        c.sample(|| format!("{:?}", log.iter().map(|l| l.0).collect::<Vec<_>>()));
        Ok(())
    });
    let n = r.n(3_000, 14);
    r.section("names", n, |c| {
        let n = a_name(c);
        let g = lib_name(&n);
        let shown = match &n {
            Node::Iri(i) => lib_iri(i).to_string(),
            Node::Blank(b) => format!("_:{b}"),
            _ => unreachable!(),
        };
        ensure_eq!(g.to_string(), shown, "display of a graph name");
        ensure_eq!(from_lib_name(&g), n, "graph name");
        ensure_eq!(g.is_iri(), matches!(n, Node::Iri(_)), "is_iri");
        ensure_eq!(g.is_blank(), matches!(n, Node::Blank(_)), "is_blank");
        match &n {
            Node::Iri(i) => {
                ensure_eq!(GraphName::named(lib_iri(i)), g, "named");
                ensure_eq!(GraphName::from(&lib_iri(i)), g, "From<&Iri>");
                ensure_eq!(GraphName::from(SubjectNode::from(lib_iri(i))), g, "From<SubjectNode>");
            }
            Node::Blank(b) => {
                ensure_eq!(GraphName::blank_named(b).ok().as_ref(), Some(&g), "blank_named");
                ensure_eq!(GraphName::blank_named(format!("_:{b}")).ok().as_ref(), Some(&g), "blank_named with _:");
                ensure_eq!(GraphName::from(&lib_blank(b)), g, "From<&BlankNode>");
                ensure_eq!(GraphName::from(Name::from_str(b).unwrap()), g, "From<Name>");
                ensure_eq!(GraphName::from(&Name::from_str(b).unwrap()), g, "From<&Name>");
                ensure_eq!(GraphName::from(SubjectNode::from(lib_blank(b))), g, "From<SubjectNode>");
                for bad in ["", " ", "a b", "<x>", "_:", "a:b"] {
                    ensure!(GraphName::blank_named(bad).is_err(), "blank_named({bad:?}) is accepted");
                }
            }
            _ => {}
        }
        let (x, y) = (GraphName::blank(), GraphName::blank());
        ensure!(x.is_blank() && x != y, "two generated graph names are equal");
        c.distinct(&n);
        Ok(())
    });
    // features of the other parts
    r.section_seq("features", 1, |c| {
        let st = Statement::new(BlankNode::generate(), lib_iri("g:p"), BlankNode::generate());
        for f in [&*FEATURE_RDF_STAR, &*FEATURE_STMT_OBJECT_COLLECTIONS] {
            ensure!(st.supports_feature(f), "statement does not support {f}");
            ensure!(ObjectNode::from(lib_iri("g:o")).supports_feature(f), "object does not support {f}");
        }
        ensure!(SubjectNode::from(lib_iri("g:o")).supports_feature(&FEATURE_RDF_STAR), "subject does not support RDF-star");
        let other = lib_iri("http://example.org/feature");
        ensure!(!st.supports_feature(&other) && !Graph::default().supports_feature(&other) && !DataSet::default().supports_feature(&other), "an unknown feature is supported");
        c.count("features", 1);
        Ok(())
    });
    r.require("operations", 20_000);
    r.require("graphs changed in place", 1000);
    r.min_distinct(500);
}
