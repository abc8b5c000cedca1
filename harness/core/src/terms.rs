//! C07, C12: the order and equality of terms, their conversions, and blank nodes.

use rdfmodel::gen::{Cfg, Pool};
use rdfmodel::*;
use rdftk_core::model::graph::GraphName;
use rdftk_core::model::literal::{DataType, Literal};
use rdftk_core::model::statement::{BlankNode, Collection, ObjectNode, Statement, SubjectNode};
use rdftk_iri::{Iri, Name};
use std::cmp::Ordering;
use std::collections::{BTreeSet, HashSet};
use std::fmt::Debug;
use std::hash::Hash;
use std::str::FromStr;
use std::sync::{Arc, Barrier};
use vmon::gen as vg;
use vmon::{ensure, ensure_eq, fail, hash_of, Case, Check, Runner};

fn laws<L, M>(c: &mut Case<'_>, kind: &str, lib: &[L], model: &[M], order: impl Fn(&M, &M) -> Option<Ordering>) -> Check
where
    L: Ord + Hash + Clone + Debug,
    M: Eq + Ord + Debug,
{
    let n = lib.len();
    for i in 0..n {
        for j in 0..n {
            let (a, b) = (&lib[i], &lib[j]);
            let same = model[i] == model[j];
            ensure_eq!(a == b, same, "{kind}: {a:?} == {b:?}");
            ensure_eq!(a != b, !same, "{kind}: {a:?} != {b:?}");
            let o = a.cmp(b);
            ensure_eq!(a.partial_cmp(b), Some(o), "{kind}: partial_cmp of {a:?} and {b:?}");
            ensure_eq!(o == Ordering::Equal, same, "{kind}: order {o:?} of {a:?} and {b:?}, and equality");
            ensure_eq!(b.cmp(a), o.reverse(), "{kind}: order of {b:?} and {a:?}, reversed");
            if same {
                ensure_eq!(hash_of(a), hash_of(b), "{kind}: hashes of equal {a:?} and {b:?}");
                c.count("equal pairs", (i != j) as u64);
            }
            if let Some(e) = order(&model[i], &model[j]) {
                ensure_eq!(o, e, "{kind}: order of {a:?} and {b:?}");
            }
            for k in 0..n {
                let x = &lib[k];
                if o != Ordering::Greater && b.cmp(x) != Ordering::Greater {
                    ensure!(a.cmp(x) != Ordering::Greater, "{kind}: not transitive: {a:?}, {b:?}, {x:?}");
                }
            }
            c.count("pairs", 1);
        }
    }
    let distinct: BTreeSet<&M> = model.iter().collect();
    ensure_eq!(lib.iter().collect::<BTreeSet<_>>().len(), distinct.len(), "{kind}: members of a BTreeSet");
    ensure_eq!(lib.iter().collect::<HashSet<_>>().len(), distinct.len(), "{kind}: members of a HashSet");
    let mut a = lib.to_vec();
    let mut b = lib.to_vec();
    c.rng.shuffle(&mut b);
    a.sort();
    b.sort();
    ensure_eq!(a, b, "{kind}: two sorts of the same values");
    Ok(())
}

/// The documented order; None where only the laws of an order are claimed.
fn node_order(a: &Node, b: &Node) -> Option<Ordering> {
    let rank = |n: &Node| match n {
        Node::Blank(_) => 0,
        Node::Iri(_) => 1,
        Node::Lit(_) => 2,
        Node::List(_) => 3,
        Node::Triple(_) => 4,
    };
    match (a, b) {
        (Node::Blank(a), Node::Blank(b)) | (Node::Iri(a), Node::Iri(b)) => Some(a.cmp(b)),
        (Node::Lit(a), Node::Lit(b)) => (a == b).then_some(Ordering::Equal),
        (Node::List(a), Node::List(b)) => {
            for (x, y) in a.iter().zip(b) {
                match node_order(x, y) {
                    Some(Ordering::Equal) => {}
                    o => return o,
                }
            }
            Some(a.len().cmp(&b.len()))
        }
        (Node::Triple(a), Node::Triple(b)) => triple_order(a, b),
        _ => Some(rank(a).cmp(&rank(b))),
    }
}

fn triple_order(a: &Triple, b: &Triple) -> Option<Ordering> {
    match node_order(&a.s, &b.s) {
        Some(Ordering::Equal) => {}
        o => return o,
    }
    match a.p.cmp(&b.p) {
        Ordering::Equal => node_order(&a.o, &b.o),
        o => Some(o),
    }
}

fn variant(c: &mut Case<'_>, l: &Lit) -> Lit {
    let mut l = l.clone();
    match c.rng.below(6) {
        0 => l.value.push('\\'),
        1 => l.value.push('"'),
        2 => {
            l.dt = Some(xsd(c.rng.pick(&["string", "long", "integer"])));
            l.lang = None
        }
        3 => {
            l.dt = None;
            l.lang = Some((*c.rng.pick(&["en", "de"])).into())
        }
        4 => {
            l.dt = None;
            l.lang = None
        }
        _ => {}
    }
    l
}

pub fn c07(r: &mut Runner) {
    r.rule("Sets of 3 to 9 statements, subjects, objects, collections, literals, data types and blank nodes drawn from small pools, so that many are equal or differ in one component only; all pairs and triples of each set are compared with one another, and with a model's equality. Distinct by the set.");
    let n = r.n(20_000, 14);
    r.section("laws", n, |c| {
        let cfg = Cfg { lists: true, nested: true, iris: 2, blanks: 2, ..Cfg::default() };
        let pool = Pool::new(&mut c.rng, &cfg);
        let k = c.rng.range(3, 9);
        let mut objects: Vec<Node> = (0..k).map(|_| pool.object(&mut c.rng, 3)).collect();
        // all that differ in one part
        let mut lits: Vec<Lit> = vec![pool.literal(&mut c.rng)];
        while lits.len() < k {
            let l = c.rng.pick(&lits).clone();
            let l = variant(c, &l);
            lits.push(l);
        }
        objects[0] = Node::Lit(lits[0].clone());
        objects[1] = Node::List(vec![objects[0].clone()]);
        objects[2] = Node::List(vec![objects[0].clone(), objects[k - 1].clone()]);
        let mut subjects: Vec<Node> = (0..k).map(|_| pool.subject(&mut c.rng, 3)).collect();
        if c.rng.bool() {
            // an IRI and a blank node with the same text
            subjects[0] = iri("x:y");
            subjects[1] = blank("x");
        }
        let mut triples: Vec<Triple> = vec![];
        while triples.len() < k {
            triples.push(Triple { s: c.rng.pick(&subjects).clone(), p: c.rng.pick(&pool.preds).clone(), o: c.rng.pick(&objects).clone() });
        }
        subjects.push(Node::Triple(Box::new(triples[0].clone())));
        objects.push(Node::Triple(Box::new(triples[0].clone())));
        objects.push(Node::Triple(Box::new(triples[1].clone())));
        // and for some of each another that nearly is it, or that looks the same when written
        for _ in 0..c.rng.below(4) {
            let t = c.rng.pick(&triples).clone();
            let inner = Node::Triple(Box::new(c.rng.pick(&triples).clone()));
            let t = match c.rng.below(3) {
                0 => Triple { s: inner, ..t },
                1 => Triple { o: inner, ..t },
                _ => t,
            };
            triples.push(pool.near_triple(&mut c.rng, &t));
            let short = if let Node::Lit(l) = &t.o {
                // its twin in another type that is written without the type
                let types = ["long", "int", "short", "byte", "float", "double", "decimal"];
                let (a, b) = (*c.rng.pick(&types), *c.rng.pick(&types));
                [a, b].iter().map(|dt| Triple { o: Node::Lit(Lit::typed(&l.value, &xsd(dt))), ..t.clone() }).collect()
            } else {
                vec![]
            };
            triples.extend(short);
            triples.push(t);
            let o = c.rng.pick(&objects).clone();
            objects.push(pool.near(&mut c.rng, &o));
            let s = c.rng.pick(&subjects).clone();
            subjects.push(pool.near(&mut c.rng, &s));
            c.count("twins", 1);
        }

        laws(c, "objects", &objects.iter().map(lib_object).collect::<Vec<_>>(), &objects, node_order)?;
        laws(c, "subjects", &subjects.iter().map(lib_subject).collect::<Vec<_>>(), &subjects, node_order)?;
        laws(c, "statements", &triples.iter().map(lib_statement).collect::<Vec<_>>(), &triples, triple_order)?;
        laws(c, "literals", &lits.iter().map(lib_literal).collect::<Vec<_>>(), &lits, |_, _| None)?;
        let mut lists: Vec<Vec<Node>> = (0..4).map(|_| (0..c.rng.below(3)).map(|_| c.rng.pick(&objects).clone()).collect()).collect();
        if c.rng.chance(1, 200) {
            // long ones, that differ in length or at the end
            let n = c.rng.range(100, 5000);
            lists[0] = (0..n).map(|_| c.rng.pick(&objects).clone()).collect();
            lists[1] = lists[0][..n - 1].to_vec();
            lists[2] = lists[0].clone();
            lists[2][n - 1] = c.rng.pick(&objects).clone();
            c.count("long lists", 1);
        }
        laws(
            c,
            "collections",
            &lists.iter().map(|v| Collection::from(v.iter().map(lib_object).collect::<Vec<_>>())).collect::<Vec<_>>(),
            &lists,
            |a, b| node_order(&Node::List(a.clone()), &Node::List(b.clone())),
        )?;
        let labels: Vec<String> = (0..4).map(|_| (*c.rng.pick(&["a", "b", "a1", "A", "_a"])).to_string()).collect();
        laws(c, "blank nodes", &labels.iter().map(|s| lib_blank(s)).collect::<Vec<_>>(), &labels, |a, b| Some(a.cmp(b)))?;
        let dts: Vec<String> = (0..5).map(|_| c.rng.pick(&known_data_types()).1.clone()).chain(["http://example.org/dt".to_string()]).collect();
        laws(c, "data types", &dts.iter().map(|s| DataType::from(lib_iri(s))).collect::<Vec<_>>(), &dts, |_, _| None)?;
        // graph names: equality and hash
        let names: Vec<GraphName> = subjects.iter().filter(|s| s.is_flat()).map(crate::graphs::lib_name).collect();
        let flat: BTreeSet<&Node> = subjects.iter().filter(|s| s.is_flat()).collect();
        ensure_eq!(names.iter().collect::<HashSet<_>>().len(), flat.len(), "graph names in a HashSet");
        c.distinct(&triples);
        c.sample(|| show_all(&triples));
        Ok(())
    });
    let n = r.n(20_000, 14);
    r.section("conversions", n, |c| {
        let cfg = Cfg { lists: true, nested: true, ..Cfg::default() };
        let pool = Pool::new(&mut c.rng, &cfg);
        let (a, b) = (pool.object(&mut c.rng, 2), pool.object(&mut c.rng, 2));
        // the other node: any, the same, or one that is nearly the same
        let b = match c.rng.below(4) {
            0 => b,
            1 => a.clone(),
            _ => {
                let mut near = near(&a);
                for _ in 0..3 {
                    near.push(pool.near(&mut c.rng, &a));
                }
                c.count("near pairs", 1);
                c.rng.pick(&near).clone()
            }
        };
        node_conversions(&a, &b)?;
        if c.rng.bool() {
            node_conversions(&b, &a)?;
        }
        let t = pool.triple(&mut c.rng, 2);
        statement_conversions(c, &t)?;
        c.count("conversions", 1);
        c.distinct(&(a, t));
        Ok(())
    });
    r.require("pairs", 50_000);
    r.require("equal pairs", 5000);
    r.require("conversions", 5000);
    r.require("near pairs", 5000);
}

/// Nodes that are not `a` and hold or share its parts: the collections of it, its members, and the
/// nodes of the other kinds that have its text.
fn near(a: &Node) -> Vec<Node> {
    let mut nodes = vec![
        Node::List(vec![a.clone()]),
        Node::List(vec![a.clone(), a.clone()]),
        Node::List(vec![]),
        Node::List(vec![Node::List(vec![a.clone()])]),
    ];
    match a {
        Node::Blank(x) => {
            nodes.push(iri(&from_lib_iri(&lib_iri(&format!("urn:x:{x}")))));
            nodes.extend([x.clone(), format!("_:{x}")].map(|text| Node::Lit(Lit { value: text, dt: None, lang: None })));
            nodes.push(blank(&x.to_uppercase()));
        }
        Node::Iri(x) => {
            nodes.extend([x.clone(), format!("<{x}>")].map(|text| Node::Lit(Lit { value: text, dt: None, lang: None })));
            nodes.push(Node::Lit(Lit { value: x.clone(), dt: Some("http://www.w3.org/2001/XMLSchema#anyURI".to_string()), lang: None }));
        }
        Node::Lit(x) => {
            nodes.push(Node::Lit(Lit::plain(&x.value)));
            nodes.push(Node::Lit(Lit { value: x.value.clone(), dt: Some("http://www.w3.org/2001/XMLSchema#string".to_string()), lang: None }));
            nodes.push(Node::Lit(Lit { value: format!("{} ", x.value), dt: x.dt.clone(), lang: x.lang.clone() }));
        }
        Node::List(x) => {
            nodes.extend(x.iter().cloned());
            nodes.push(Node::List(x.iter().rev().cloned().collect()));
            if let Some((_, rest)) = x.split_last() {
                nodes.push(Node::List(rest.to_vec()));
            }
        }
        Node::Triple(x) => {
            nodes.extend([x.s.clone(), x.o.clone()]);
            nodes.push(Node::Triple(Box::new(Triple { s: a.clone(), p: x.p.clone(), o: x.o.clone() })));
            nodes.push(Node::Triple(Box::new(Triple { o: a.clone(), ..(**x).clone() })));
            nodes.push(Node::Triple(Box::new(Triple { o: Node::List(vec![x.o.clone()]), ..(**x).clone() })));
        }
    }
    nodes
}

/// Everything that an object, and the subject or collection made from it, says of itself.
fn node_conversions(a: &Node, b: &Node) -> Check {
    let o = lib_object(a);
    let what = show_node(a);
    ensure_eq!(from_lib_object(&o), a.clone(), "round trip of {what}");
    ensure_eq!(ObjectNode::from(&o), o, "From<&ObjectNode> of {what}");
    let is = |n: &Node| {
        [
            matches!(n, Node::Blank(_)),
            matches!(n, Node::Iri(_)),
            matches!(n, Node::Lit(_)),
            matches!(n, Node::List(_)),
            matches!(n, Node::Triple(_)),
        ]
    };
    ensure_eq!([o.is_blank(), o.is_resource(), o.is_literal(), o.is_collection(), o.is_statement()], is(a), "kind of {what}");
    ensure_eq!(
        [o.as_blank().is_some(), o.as_resource().is_some(), o.as_literal().is_some(), o.as_collection().is_some(), o.as_statement().is_some()],
        is(a),
        "parts of {what}"
    );
    let same = a == b;
    match b {
        Node::Blank(x) => {
            let v = lib_blank(x);
            ensure_eq!(o == v, same, "{what} == blank node {v}");
            ensure_eq!(o.as_blank() == Some(&v), same, "{what} as_blank");
            for w in [ObjectNode::from(v.clone()), ObjectNode::from(&v), ObjectNode::from(Name::from_str(x).unwrap()), ObjectNode::from(&Name::from_str(x).unwrap())] {
                ensure_eq!(from_lib_object(&w), b.clone(), "object from a blank node");
            }
            for w in [Collection::from(v.clone()), Collection::from(&v), Collection::from(Name::from_str(x).unwrap()), Collection::from(&Name::from_str(x).unwrap())] {
                one(&w, b)?;
            }
        }
        Node::Iri(x) => {
            let v = lib_iri(x);
            ensure_eq!(o == v, same, "{what} == IRI {v}");
            ensure_eq!(o.as_resource() == Some(&v), same, "{what} as_resource");
            for w in [ObjectNode::from(v.clone()), ObjectNode::from(&v)] {
                ensure_eq!(from_lib_object(&w), b.clone(), "object from an IRI");
            }
            one(&Collection::from(v.clone()), b)?;
            one(&Collection::from(&v), b)?;
        }
        Node::Lit(x) => {
            let v = lib_literal(x);
            ensure_eq!(o == v, same, "{what} == literal {v:?}");
            ensure_eq!(o.as_literal() == Some(&v), same, "{what} as_literal");
            for w in [ObjectNode::from(v.clone()), ObjectNode::from(&v)] {
                ensure_eq!(from_lib_object(&w), b.clone(), "object from a literal");
            }
            one(&Collection::from(v.clone()), b)?;
            one(&Collection::from(&v), b)?;
        }
        Node::List(x) => {
            let members: Vec<ObjectNode> = x.iter().map(lib_object).collect();
            let v = Collection::from(members.clone());
            ensure_eq!(o == v, same, "{what} == collection {v}");
            ensure_eq!(o.as_collection() == Some(&v), same, "{what} as_collection");
            for w in [ObjectNode::from(v.clone()), ObjectNode::from(&v), ObjectNode::from(Collection::from_iter(members.clone()))] {
                ensure_eq!(from_lib_object(&w), b.clone(), "object from a collection");
            }
            ensure_eq!(v.len(), x.len(), "length of {v}");
            ensure_eq!(v.is_empty(), x.is_empty(), "is_empty of {v}");
            ensure_eq!(v == Collection::nil(), x.is_empty(), "{v} is nil");
            ensure_eq!(v.iter().cloned().collect::<Vec<_>>(), members, "members of {v}");
            ensure_eq!(Vec::<ObjectNode>::from(v), members, "members of a collection");
        }
        Node::Triple(x) => {
            let v = lib_statement(x);
            ensure_eq!(o == v, same, "{what} == statement {v}");
            ensure_eq!(o == Arc::new(v.clone()), same, "{what} == Arc<Statement> {v}");
            ensure_eq!(o.as_statement().is_some_and(|s| *s == v), same, "{what} as_statement");
            let arc = Arc::new(v.clone());
            for w in [ObjectNode::from(v.clone()), ObjectNode::from(&v), ObjectNode::from(&arc), ObjectNode::from(arc.clone())] {
                ensure_eq!(from_lib_object(&w), b.clone(), "object from a statement");
            }
            for w in [Collection::from(v.clone()), Collection::from(&v), Collection::from(&arc), Collection::from(arc.clone())] {
                one(&w, b)?;
            }
            for w in [SubjectNode::from(v.clone()), SubjectNode::from(&v), SubjectNode::from(&arc), SubjectNode::from(arc.clone())] {
                ensure_eq!(from_lib_subject(&w), b.clone(), "subject from a statement");
            }
        }
    }
    one(&Collection::from(o.clone()), a)?;
    one(&Collection::from(&o), a)?;
    let s = o.to_subject();
    ensure_eq!(s.as_ref().map(from_lib_subject), (!matches!(a, Node::Lit(_) | Node::List(_))).then(|| a.clone()), "to_subject of {what}");
    if let Some(s) = s {
        ensure_eq!(s.to_object(), o, "to_object of to_subject of {what}");
        ensure_eq!(SubjectNode::from(&s), s, "From<&SubjectNode> of {what}");
        ensure_eq!([s.is_blank(), s.is_resource(), s.is_statement()], [is(a)[0], is(a)[1], is(a)[4]], "kind of the subject {what}");
        ensure_eq!(
            [s.as_blank().is_some(), s.as_resource().is_some(), s.as_statement().is_some()],
            [is(a)[0], is(a)[1], is(a)[4]],
            "parts of the subject {what}"
        );
        ensure_eq!(s.to_string(), o.to_string(), "display of the subject and object {what}");
        match b {
            Node::Blank(x) => {
                ensure_eq!(s == lib_blank(x), same, "subject {what} == {b:?}");
                for w in [SubjectNode::from(&lib_blank(x)), SubjectNode::from(Name::from_str(x).unwrap()), SubjectNode::from(&Name::from_str(x).unwrap())] {
                    ensure_eq!(from_lib_subject(&w), b.clone(), "subject from a blank node");
                }
            }
            Node::Iri(x) => {
                ensure_eq!(s == lib_iri(x), same, "subject {what} == {b:?}");
                ensure_eq!(SubjectNode::from(&lib_iri(x)) == s, same, "subject {what} == {b:?}");
            }
            Node::Triple(x) => {
                ensure_eq!(s == lib_statement(x), same, "subject {what} == {b:?}");
                ensure_eq!(s == Arc::new(lib_statement(x)), same, "subject {what} == {b:?}");
            }
            _ => {}
        }
    }
    Ok(())
}

fn one(col: &Collection, member: &Node) -> Check {
    ensure_eq!(col.iter().map(from_lib_object).collect::<Vec<_>>(), vec![member.clone()], "collection of one");
    Ok(())
}

fn statement_conversions(c: &mut Case<'_>, t: &Triple) -> Check {
    let s = lib_statement(t);
    ensure_eq!(from_lib_statement(&s), t.clone(), "round trip of a statement");
    ensure_eq!(s.is_nested(), matches!(t.s, Node::Triple(_)) || matches!(t.o, Node::Triple(_)), "is_nested of {}", show(t));
    let cfg = Cfg { lists: true, nested: true, ..Cfg::default() };
    let pool = Pool::new(&mut c.rng, &cfg);
    let u = pool.triple(&mut c.rng, 2);
    let mut m = s.clone();
    m.set_subject(lib_subject(&u.s));
    ensure_eq!(from_lib_statement(&m), Triple { s: u.s.clone(), ..t.clone() }, "set_subject");
    m.set_predicate(lib_iri(&u.p));
    ensure_eq!(from_lib_statement(&m), Triple { o: t.o.clone(), ..u.clone() }, "set_predicate");
    m.set_object(lib_object(&u.o));
    ensure_eq!(from_lib_statement(&m), u, "set_object");
    ensure_eq!(from_lib_statement(&s), t.clone(), "the statement that was cloned");
    let ty = Statement::rdf_type(lib_subject(&t.s), lib_object(&t.o));
    ensure_eq!(from_lib_statement(&ty), Triple { p: rdf("type"), ..t.clone() }, "rdf_type");
    Ok(())
}

// ------------------------------------------------------------------------------------------------

pub fn c12(r: &mut Runner) {
    r.rule("Every blank node generated by every one of 2 to 16 threads at once is recorded, and the log checked for duplicates and invalid labels; random strings parsed as blank node labels, with and without _:, against the grammar of names. Distinct by the label.");
    let per = r.n(8_000, 10);
    r.section_seq("threads", 6, |c| {
        let threads = *c.rng.pick(&[2usize, 4, 8, 16]);
        let barrier = Arc::new(Barrier::new(threads));
        let burst = c.rng.below(3);
        let handles: Vec<_> = (0..threads)
            .map(|t| {
                let b = barrier.clone();
                std::thread::spawn(move || {
                    b.wait();
                    let mut v = Vec::with_capacity(per as usize);
                    for i in 0..per {
                        v.push(match (i + t as u64) % 3 {
                            0 => GraphName::blank().as_blank().unwrap().clone(),
                            _ => BlankNode::generate(),
                        });
                        if burst > 0 && i % (64 * burst as u64) == 0 {
                            std::thread::yield_now();
                        }
                    }
                    v
                })
            })
            .collect();
        let mut seen = HashSet::new();
        for h in handles {
            for b in h.join().map_err(|_| "a generating thread panicked".to_string())? {
                let label: &str = b.as_ref();
                ensure!(vg::is_pn_local(label), "the generated label {label:?} is not a valid name");
                ensure!(seen.insert(label.to_string()), "the blank node {label:?} was generated twice");
                c.distinct(label);
                c.count("generated", 1);
            }
        }
        c.sample(|| format!("{} labels from {threads} threads", seen.len()));
        Ok(())
    });
    // a long run: what comes round only after many
    let per = r.n(160_000, 16);
    r.section_seq("long run", 1, |c| {
        let handles: Vec<_> = (0..8)
            .map(|_| {
                std::thread::spawn(move || {
                    (0..per).map(|_| String::from(BlankNode::generate()).into_boxed_str()).collect::<Vec<_>>()
                })
            })
            .collect();
        let mut seen: HashSet<Box<str>> = HashSet::with_capacity(8 * per as usize);
        for h in handles {
            for label in h.join().map_err(|_| "a generating thread panicked".to_string())? {
                c.count("generated in the long run", 1);
                if let Some(l) = seen.replace(label) {
                    fail!("the blank node {l:?} was generated twice, among {}", seen.len() + 1);
                }
            }
        }
        Ok(())
    });
    let n = r.n(60_000, 14);
    r.section("parse", n, |c| {
        let ascii = c.rng.bool();
        let mut s = match c.rng.below(5) {
            0 => vg::text(&mut c.rng),
            1 => {
                let mut s = vg::pn_local(&mut c.rng, ascii);
                let at = c.rng.below(s.len() + 1);
                if s.is_char_boundary(at) {
                    s.insert(at, vg::boundary_char(&mut c.rng));
                }
                s
            }
            _ => vg::pn_local(&mut c.rng, ascii),
        };
        let label = s.clone();
        let prefixed = c.rng.bool();
        if prefixed {
            s = format!("_:{s}");
        }
        let inner = s.strip_prefix("_:").unwrap_or(&s).to_string();
        let valid = vg::is_pn_local(&inner);
        ensure_eq!(BlankNode::is_valid_str(&s), valid, "is_valid_str({s:?})");
        let parsed = BlankNode::from_str(&s);
        ensure_eq!(parsed.is_ok(), valid, "from_str({s:?}) accepts");
        c.count(if valid { "accepted" } else { "rejected" }, 1);
        if let Ok(b) = parsed {
            ensure_eq!(b.as_ref() as &str, inner, "label of {s:?}");
            ensure_eq!(b.to_string(), inner, "display of {s:?}");
            ensure_eq!(String::from(b.clone()), inner, "String::from({s:?})");
            ensure_eq!(String::from(&b), inner, "String::from(&{s:?})");
            ensure_eq!(BlankNode::from_str(&inner).unwrap(), b, "{s:?} without prefix");
            ensure_eq!(BlankNode::from_str(&format!("_:{inner}")).unwrap(), b, "{s:?} with prefix");
            ensure_eq!(b.to_qname().to_string(), format!("_:{inner}"), "to_qname of {s:?}");
            ensure_eq!(ObjectNode::from(&b).to_string(), format!("_:{inner}"), "display of the object {s:?}");
            ensure_eq!(SubjectNode::from(&b).to_string(), format!("_:{inner}"), "display of the subject {s:?}");
            let name = Name::from_str(&inner).unwrap();
            ensure_eq!(BlankNode::from(&name), b, "From<&Name>");
            ensure_eq!(BlankNode::from(name), b, "From<Name>");
        }
        c.distinct(&(label, prefixed));
        Ok(())
    });
    let _ = (Iri::from_str("a:b"), Literal::plain(""));
    r.require("generated", 50_000);
    r.require("generated in the long run", 1_200_000);
    r.require("accepted", 5000);
    r.require("rejected", 1000);
}
