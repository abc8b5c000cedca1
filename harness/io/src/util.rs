use rdfmodel::gen::{near_iri, near_label, Cfg, Pool, PREFIXES};
use rdfmodel::*;
use rdftk_core::model::data_set::DataSet;
use rdftk_core::model::graph::{Graph, GraphName};
use rdftk_iri::{IriPrefixMap, Namespace};
use std::str::FromStr;
use vmon::{fail, Case, Check, Fail, Rng};

pub type Quad = (Triple, Option<Node>);

pub fn lib_name(n: &Node) -> GraphName {
    match n {
        Node::Iri(i) => GraphName::from(lib_iri(i)),
        Node::Blank(b) => GraphName::from(lib_blank(b)),
        _ => panic!("not a graph name"),
    }
}

pub fn from_lib_name(n: &GraphName) -> Node {
    match (n.as_iri(), n.as_blank()) {
        (Some(i), None) => Node::Iri(from_lib_iri(i)),
        (None, Some(b)) => Node::Blank(b.as_ref().to_string()),
        _ => panic!("a graph name that is neither or both: {n:?}"),
    }
}

pub fn from_lib_data_set(d: &DataSet) -> Vec<Quad> {
    let mut v = vec![];
    for g in d.graphs() {
        let name = g.name().map(from_lib_name);
        v.extend(g.statements().map(|s| (from_lib_statement(s), name.clone())));
    }
    v
}

/// Quads as flat-enough triples, so that graph names take part in the isomorphism.
pub fn fold_quads(v: &[Quad]) -> Vec<Triple> {
    v.iter()
        .map(|(t, g)| Triple::new(g.clone().unwrap_or(iri("x:default")), "x:in", Node::Triple(Box::new(t.clone()))))
        .collect()
}

pub fn same_quads(a: &[Quad], b: &[Quad], what: &str) -> Check {
    same_graph(&fold_quads(a), &fold_quads(b), what)
}

fn lower_node(n: &mut Node) {
    match n {
        Node::Lit(l) => {
            if let Some(t) = &mut l.lang {
                t.make_ascii_lowercase();
            }
        }
        Node::List(v) => v.iter_mut().for_each(lower_node),
        Node::Triple(t) => {
            lower_node(&mut t.s);
            lower_node(&mut t.o);
        }
        _ => {}
    }
}

/// Language tags are the same whatever their case.
pub fn lower_langs(ts: &[Triple]) -> Vec<Triple> {
    let mut v = ts.to_vec();
    for t in &mut v {
        lower_node(&mut t.s);
        lower_node(&mut t.o);
    }
    v
}

pub fn lower_langs_quads(ts: &[Quad]) -> Vec<Quad> {
    ts.iter().map(|(t, g)| (lower_langs(std::slice::from_ref(t)).remove(0), g.clone())).collect()
}

/// Prefixes for a graph: those of the namespaces that the pools use, and others.
pub fn mappings(rng: &mut Rng) -> (IriPrefixMap, Vec<(String, String)>) {
    let mut map = IriPrefixMap::empty();
    let mut out = vec![];
    let mut add = |map: &mut IriPrefixMap, p: &str, i: &str| {
        map.insert(Namespace::from_str(&format!("{p}:")).unwrap(), lib_iri(i));
        out.push((p.to_string(), i.to_string()));
    };
    for (p, i) in PREFIXES {
        if rng.bool() {
            add(&mut map, p, i);
        }
    }
    if rng.chance(1, 4) {
        map.set_default_namespace(lib_iri(rng.pick(&["http://example.org/ns#", "http://example.org/default/", "http://example.org/"])));
    }
    for (p, i) in [
        ("rdf", RDF),
        ("rdfs", RDFS),
        ("xsd", XSD),
        ("owl", OWL),
        ("v", "http://other.example/v1.0/"),
        ("x-1.y", "http://example.org/a/"),
        ("é", "http://example.org/e/"),
    ] {
        if rng.chance(1, 3) {
            add(&mut map, p, i);
        }
    }
    if rng.chance(1, 100) {
        for k in 0..60 {
            add(&mut map, &format!("p{k}"), &format!("http://example.org/ns{k}/"));
        }
    }
    (map, out)
}

pub fn graph_of(ts: &[Triple], map: Option<IriPrefixMap>, name: Option<&Node>, unique: bool) -> Graph {
    let mut g = if unique { Graph::unique() } else { Graph::default() };
    if let Some(m) = map {
        g = g.with_mappings(m);
    }
    g = g.with_statements(ts.iter().map(lib_statement).collect());
    if let Some(n) = name {
        g.set_name(lib_name(n));
    }
    g
}

/// A configuration for the statements of a graph: flat, with collections, nested, or all of it.
pub fn some_cfg(c: &mut Case<'_>) -> Cfg {
    let k = c.rng.below(6);
    if c.rng.chance(1, 2500) {
        c.count("very large graphs", 1);
        return Cfg { lists: k == 1, nested: k == 2, max_statements: 2500, iris: 400, blanks: 1200, ..Cfg::default() };
    }
    if c.rng.chance(1, 150) {
        c.count("large graphs", 1);
        return Cfg { lists: k == 1, nested: k == 2, max_statements: 300, iris: 60, blanks: 60, ..Cfg::default() };
    }
    Cfg {
        lists: matches!(k, 1 | 3),
        nested: matches!(k, 2 | 3),
        max_statements: *c.rng.pick(&[4, 10, 24]),
        iris: c.rng.range(1, 6),
        blanks: *c.rng.pick(&[0, 2, 4, 8]),
        ..Cfg::default()
    }
}

pub fn some_triples(c: &mut Case<'_>, cfg: &Cfg) -> Vec<Triple> {
    let pool = Pool::new(&mut c.rng, cfg);
    pool.triples(&mut c.rng)
}

/// A graph of about ten thousand statements and terms, more than any table of a small size holds.
pub fn huge_triples(c: &mut Case<'_>) -> Vec<Triple> {
    let n = c.rng.range(8_000, 11_000);
    let (subjects, blanks) = (c.rng.range(n / 4, n / 2), c.rng.range(200, 3_000));
    let node = |rng: &mut Rng, i: usize| if rng.chance(1, 3) { blank(&format!("n{}", i % blanks)) } else { iri(&format!("http://example.org/s{}", i % subjects)) };
    let mut ts: Vec<Triple> = (0..n)
        .map(|i| {
            let s = if c.rng.chance(1, 8) {
                let any = c.rng.below(n);
                node(&mut c.rng, any)
            } else {
                node(&mut c.rng, i)
            };
            let o = match c.rng.below(3) {
                0 => {
                    let any = c.rng.below(n);
                    node(&mut c.rng, any)
                }
                1 => Node::Lit(Lit::plain(&format!("text {i}"))),
                _ => iri(&format!("http://example.org/o{i}")),
            };
            Triple::new(s, &format!("http://example.org/p{}", c.rng.below(40)), o)
        })
        .collect();
    ts.sort();
    ts.dedup();
    c.rng.shuffle(&mut ts);
    c.count("huge graphs", 1);
    ts
}

pub fn is_nested(ts: &[Triple]) -> bool {
    ts.iter().any(|t| !t.is_flat())
}

/// A data set: the default graph or not, and named graphs, which share blank nodes.
pub fn some_quads(c: &mut Case<'_>, cfg: &Cfg) -> Vec<(Option<Node>, Vec<Triple>)> {
    let pool = Pool::new(&mut c.rng, cfg);
    let mut names: Vec<Option<Node>> = vec![None, Some(iri("http://example.org/g1")), Some(iri("urn:x:g2")), Some(blank("g3")), Some(blank("0.g-4"))];
    names.extend(pool.iris.iter().take(1).map(|i| Some(Node::Iri(i.clone()))));
    names.extend(pool.blanks.iter().take(1).map(|b| Some(Node::Blank(b.clone()))));
    let many = c.rng.chance(1, 100) && cfg.max_statements < 100;
    if many {
        names.extend((0..40).map(|k| Some(if k % 3 == 0 { blank(&format!("g{k}x")) } else { iri(&format!("http://example.org/g{k}")) })));
    }
    // names that look much like others
    for _ in 0..2 {
        let near = match c.rng.pick(&names).clone() {
            Some(Node::Iri(i)) => iri(&near_iri(&mut c.rng, &i)),
            Some(Node::Blank(b)) => blank(&near_label(&mut c.rng, &b)),
            _ => iri("http://example.org/g1#"),
        };
        names.push(Some(near));
    }
    names.sort();
    names.dedup();
    c.rng.shuffle(&mut names);
    let n = if many { 40 } else { c.rng.range(0, 4) };
    names.truncate(n);
    names.into_iter().map(|g| (g, pool.triples(&mut c.rng))).collect()
}

pub fn data_set_of(gs: &[(Option<Node>, Vec<Triple>)], rng: &mut Rng) -> DataSet {
    let mut d = DataSet::default();
    for (name, ts) in gs {
        let (m, _) = mappings(rng);
        d.insert(graph_of(ts, Some(m), name.as_ref(), false));
    }
    d
}

/// The flat quads of a data set.
pub fn flat_quads(gs: &[(Option<Node>, Vec<Triple>)], typed_lists: impl Fn(&[Triple]) -> bool) -> Vec<Quad> {
    let mut fresh = Fresh::default();
    let mut out = vec![];
    for (name, ts) in gs {
        let typed = typed_lists(ts);
        for t in ts {
            let mut flat = vec![];
            let s = flatten_node(&t.s, &mut fresh, typed, &mut flat);
            let o = flatten_node(&t.o, &mut fresh, typed, &mut flat);
            flat.push(Triple { s, p: t.p.clone(), o });
            out.extend(flat.into_iter().map(|t| (t, name.clone())));
        }
    }
    out
}

pub fn normal_iri(s: &str) -> Option<String> {
    rdftk_iri::Iri::from_str(s).ok().map(|i| from_lib_iri(&i))
}

/// Run it in a thread with the stack that threads have, and no more processor time than is many times what it needs.
pub fn in_thread<T: Send + 'static>(what: &str, f: impl FnOnce() -> T + Send + 'static) -> Result<T, Fail> {
    use std::sync::mpsc::{channel, RecvTimeoutError::Timeout};
    let (tx, rx) = channel();
    let (id_tx, id_rx) = channel();
    let run = move || {
        let _ = id_tx.send(std::fs::read_link("/proc/thread-self"));
        tx.send(f()).is_ok()
    };
    let t = std::thread::Builder::new().stack_size(2 << 20).spawn(run).map_err(|e| e.to_string())?;
    let stat = match id_rx.recv() {
        Ok(Ok(id)) => format!("/proc/{}/stat", id.display()),
        _ => fail!("{what}: no thread"),
    };
    loop {
        match rx.recv_timeout(std::time::Duration::from_secs(1)) {
            Ok(v) => {
                let _ = t.join();
                return Ok(v);
            }
            Err(Timeout) if vmon::cpu_ticks(&stat) < 4_000 => {}
            Err(Timeout) => fail!("{what}: not done in 40 s of processor time"),
            Err(_) => fail!("{what}: panicked"),
        }
    }
}

/// Chains, trees and rings of blank nodes, as long as they come: (what it is, its triples).
pub fn long_shape(c: &mut Case<'_>, longest: usize) -> (String, Vec<Triple>) {
    let n = match c.rng.below(4) {
        0 => c.rng.range(2, 30),
        1 => c.rng.range(30, 140),
        2 => c.rng.range(60, 70),
        _ => c.rng.range(140, longest),
    };
    let p = |k: usize| format!("http://example.org/p{k}");
    let b = |k: usize| blank(&format!("n{k}"));
    let kind = *c.rng.pick(&["chain", "chain with leaves", "chain with a twin", "tree", "ring", "ring with a tail", "ladder", "chains"]);
    let mut ts = vec![];
    for k in 0..n {
        match kind {
            "tree" => {
                if 2 * k + 2 < n {
                    ts.push(Triple::new(b(k), &p(0), b(2 * k + 1)));
                    ts.push(Triple::new(b(k), &p(0), b(2 * k + 2)));
                } else {
                    ts.push(Triple::new(b(k), &p(1), Node::Lit(Lit::plain(&k.to_string()))));
                }
            }
            "ring" => ts.push(Triple::new(b(k), &p(0), b((k + 1) % n))),
            "ring with a tail" => ts.push(Triple::new(b(k), &p(0), b(if k + 1 < n { k + 1 } else { n / 2 }))),
            "ladder" => {
                ts.push(Triple::new(b(k), &p(0), b(k + 1)));
                if k % 7 == 3 {
                    ts.push(Triple::new(b(k), &p(1), b((k + 9) % n)));
                }
            }
            "chains" => {
                // many that are as deep as writers nest, and some that are deeper
                if k % 67 != 66 {
                    ts.push(Triple::new(b(k), &p(0), b(k + 1)));
                }
            }
            _ => {
                ts.push(Triple::new(b(k), &p(0), b(k + 1)));
                if kind == "chain with leaves" {
                    ts.push(Triple::new(b(k), &p(0), iri(&format!("http://example.org/leaf{}", k % 5))));
                }
                if kind == "chain with a twin" {
                    ts.push(Triple::new(b(k), &p(0), blank(&format!("twin{k}"))));
                    ts.push(Triple::new(blank(&format!("twin{k}")), &p(1), Node::Lit(Lit::plain(&k.to_string()))));
                }
            }
        }
    }
    if c.rng.bool() {
        ts.push(Triple::new(iri("http://example.org/top"), &p(2), b(0)));
    }
    c.rng.shuffle(&mut ts);
    c.count(&format!("shape: {kind}"), 1);
    (format!("{kind} of {n}"), ts)
}
