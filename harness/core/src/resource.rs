//! C11: the resource builder.

use rdfmodel::gen::{lang_tag, typed_value, Cfg, Pool};
use rdfmodel::*;
use rdftk_core::model::literal::{DataType, LanguageTag, Literal};
use rdftk_core::model::resource::{Predicate, Resource};
use rdftk_core::model::statement::Statement;
use vmon::{ensure_eq, Case, Runner};

/// A model of a resource: its subject and its properties.
#[derive(Clone, Debug, Hash)]
struct Res {
    /// None for an anonymous one
    subject: Option<Node>,
    props: Vec<(String, Obj)>,
}

#[derive(Clone, Debug, Hash)]
enum Obj {
    Lit(Lit),
    Res(Res),
    Lits(String, Vec<Lit>),
    Ress(String, Vec<Res>),
}

fn expect(r: &Res, fresh: &mut Fresh, out: &mut Vec<Triple>) -> Node {
    let s = r.subject.clone().unwrap_or_else(|| fresh.next());
    expect_as(r, &s, fresh, out);
    s
}

fn expect_as(r: &Res, s: &Node, fresh: &mut Fresh, out: &mut Vec<Triple>) {
    for (p, o) in &r.props {
        let value = match o {
            Obj::Lit(l) => Node::Lit(l.clone()),
            Obj::Res(r) => expect(r, fresh, out),
            Obj::Lits(kind, ls) => {
                let b = fresh.next();
                out.push(Triple::new(b.clone(), &rdf("type"), iri(kind)));
                for (i, l) in ls.iter().enumerate() {
                    out.push(Triple::new(b.clone(), &rdf(&format!("_{}", i + 1)), Node::Lit(l.clone())));
                }
                b
            }
            Obj::Ress(kind, rs) => {
                let b = fresh.next();
                out.push(Triple::new(b.clone(), &rdf("type"), iri(kind)));
                for (i, r) in rs.iter().enumerate() {
                    let m = expect(r, fresh, out);
                    out.push(Triple::new(b.clone(), &rdf(&format!("_{}", i + 1)), m));
                }
                b
            }
        };
        out.push(Triple::new(s.clone(), p, value));
    }
}

fn some_lit(c: &mut Case<'_>, pool: &Pool) -> Lit {
    if c.rng.bool() {
        pool.literal(&mut c.rng)
    } else {
        typed_value(&mut c.rng)
    }
}

fn build(c: &mut Case<'_>, pool: &Pool, depth: usize) -> (Resource, Res) {
    let (mut lib, mut model) = match c.rng.below(4) {
        0 => (Resource::anonymous(), Res { subject: None, props: vec![] }),
        1 => {
            let b = format!("r{}", c.rng.below(3));
            (Resource::semi_anonymous(lib_blank(&b)), Res { subject: Some(blank(&b)), props: vec![] })
        }
        2 => {
            let i = c.rng.pick(&pool.iris).clone();
            (Resource::individual(lib_iri(&i)), Res { subject: Some(iri(&i)), props: vec![] })
        }
        _ => {
            let n = pool.subject(&mut c.rng, 0);
            (Resource::new(lib_subject(&n)), Res { subject: Some(n), props: vec![] })
        }
    };
    let many = depth == 0 && c.rng.chance(1, 20_000);
    for _ in 0..if many { 1000 } else { c.rng.below(5) } {
        let p = c.rng.pick(&pool.preds).clone();
        if c.rng.chance(1, 3) {
            let mut b = Predicate::new(lib_iri(&p));
            for _ in 0..c.rng.below(4) {
                let o = fill(c, pool, depth, &mut Target::Predicate(&mut b), &p);
                model.props.push((o.0, o.1));
            }
            lib.predicate(b);
            c.count("predicates", 1);
        } else {
            let o = fill(c, pool, depth, &mut Target::Resource(&mut lib), &p);
            model.props.push((o.0, o.1));
        }
    }
    (lib, model)
}

enum Target<'a> {
    Resource(&'a mut Resource),
    Predicate(&'a mut Predicate),
}

fn fill(c: &mut Case<'_>, pool: &Pool, depth: usize, t: &mut Target<'_>, p: &str) -> (String, Obj) {
    let pi = lib_iri(p);
    let own = |o: Obj| (p.to_string(), o);
    let mut kind = c.rng.below(if depth > 0 { 16 } else { 10 });
    if matches!(t, Target::Predicate(_)) && [1, 2, 3, 9].contains(&kind) {
        kind = 0;
    }
    let container = ["Alt", "Bag", "Seq", ""][c.rng.below(4)];
    let custom = match c.rng.below(6) {
        0 => rdf(c.rng.pick(&["Bag", "Seq", "Alt", "List", "Statement", "Property", "nil"])),
        1 => format!("http://www.w3.org/2000/01/rdf-schema#{}", c.rng.pick(&["Container", "Resource", "Class"])),
        k => format!("http://example.org/Container{}", k % 2),
    };
    let kind_iri = if container.is_empty() { custom.clone() } else { rdf(container) };
    match kind {
        0 => {
            let l = some_lit(c, pool);
            let v = lib_literal(&l);
            match t {
                Target::Resource(r) => {
                    match c.rng.below(3) {
                        0 => r.property(pi, v),
                        1 => r.value_of(pi, v),
                        _ => r.literal(pi, v),
                    };
                }
                Target::Predicate(b) => {
                    b.property(v);
                }
            }
            own(Obj::Lit(l))
        }
        1 => {
            let s = pool.text(&mut c.rng);
            if let Target::Resource(r) = t {
                r.literal_str(pi, &s);
            }
            own(Obj::Lit(Lit::plain(&s)))
        }
        2 => {
            let all = known_data_types();
            let (dt, i) = if c.rng.chance(1, 4) {
                (DataType::Other(lib_iri("http://example.org/dt")), "http://example.org/dt".to_string())
            } else {
                c.rng.pick(&all).clone()
            };
            let s = pool.text(&mut c.rng);
            if let Target::Resource(r) = t {
                r.literal_typed_str(pi, &s, dt);
            }
            own(Obj::Lit(Lit::typed(&s, &i)))
        }
        3 => {
            let (s, l) = (pool.text(&mut c.rng), lang_tag(&mut c.rng));
            let l = l.as_str();
            if let Target::Resource(r) = t {
                if c.rng.bool() {
                    r.literal_language_str(pi, &s, LanguageTag::parse(l).unwrap());
                } else {
                    r.literal_language_str_str(pi, &s, l);
                }
            }
            own(Obj::Lit(Lit::lang(&s, l)))
        }
        4 | 5 => {
            let ls: Vec<Lit> = (0..c.rng.below(4) + if c.rng.chance(1, 10) { 11 } else if c.rng.chance(1, 3000) { 1100 } else { 0 }).map(|_| some_lit(c, pool)).collect();
            let vs: Vec<Literal> = ls.iter().map(lib_literal).collect();
            c.count("containers", 1);
            match t {
                Target::Resource(r) => match container {
                    "Alt" => r.property_alternatives(pi, &vs),
                    "Bag" => r.property_bag(pi, &vs),
                    "Seq" => r.property_sequence(pi, &vs),
                    _ => r.property_container(pi, &vs, lib_iri(&custom)),
                },
                Target::Predicate(b) => {
                    match container {
                        "Alt" => b.property_alternatives(&vs),
                        "Bag" => b.property_bag(&vs),
                        "Seq" => b.property_sequence(&vs),
                        _ => b.property_container(&vs, lib_iri(&custom)),
                    };
                    return own(Obj::Lits(kind_iri, ls));
                }
            };
            own(Obj::Lits(kind_iri, ls))
        }
        6 | 7 => {
            let i = c.rng.pick(&pool.iris).clone();
            match t {
                Target::Resource(r) => {
                    r.resource_named(pi, lib_iri(&i));
                }
                Target::Predicate(b) => {
                    b.resource_named(lib_iri(&i));
                }
            }
            own(Obj::Res(Res { subject: Some(iri(&i)), props: vec![] }))
        }
        8 => {
            let b = format!("r{}", c.rng.below(3));
            match t {
                Target::Resource(r) => {
                    r.resource_blank_named(pi, &lib_blank(&b));
                }
                Target::Predicate(x) => {
                    x.resource_blank_named(&lib_blank(&b));
                }
            }
            own(Obj::Res(Res { subject: Some(blank(&b)), props: vec![] }))
        }
        9 => {
            let i = c.rng.pick(&pool.iris).clone();
            if let Target::Resource(r) = t {
                r.instance_of(lib_iri(&i));
            }
            (rdf("type"), Obj::Res(Res { subject: Some(iri(&i)), props: vec![] }))
        }
        10 | 11 => {
            let rs: Vec<(Resource, Res)> = (0..c.rng.below(4)).map(|_| build(c, pool, depth - 1)).collect();
            let vs: Vec<Resource> = rs.iter().map(|r| r.0.clone()).collect();
            c.count("containers", 1);
            match t {
                Target::Resource(r) => {
                    match container {
                        "Alt" => r.resource_alternatives(pi, &vs),
                        "Bag" => r.resource_bag(pi, &vs),
                        "Seq" => r.resource_sequence(pi, &vs),
                        _ => r.resource_container(pi, &vs, lib_iri(&custom)),
                    };
                }
                Target::Predicate(b) => {
                    match container {
                        "Alt" => b.resource_alternatives(&vs),
                        "Bag" => b.resource_bag(&vs),
                        "Seq" => b.resource_sequence(&vs),
                        _ => b.resource_container(&vs, lib_iri(&custom)),
                    };
                }
            }
            own(Obj::Ress(kind_iri, rs.into_iter().map(|r| r.1).collect()))
        }
        _ => {
            let (lib, model) = build(c, pool, depth - 1);
            c.count("nested", 1);
            match t {
                Target::Resource(r) => {
                    r.resource(pi, lib);
                }
                Target::Predicate(b) => {
                    b.resource(lib);
                }
            }
            own(Obj::Res(model))
        }
    }
}

pub fn c11(r: &mut Runner) {
    r.rule("Random resources built by random sequences of the builders' methods (literals of all forms, named, blank and nested resources, containers of every kind, predicates), three levels deep; the statements are compared, as multisets and up to new blank nodes, with those of a model. Distinct by the resource; non-trivial when it has a property.");
    let n = r.n(60_000, 14);
    r.section("resources", n, |c| {
        let cfg = Cfg { blanks: 0, ..Cfg::default() };
        let pool = Pool::new(&mut c.rng, &cfg);
        let depth = c.rng.range(0, 3);
        let (lib, model) = build(c, &pool, depth);
        ensure_eq!(lib.is_a_resource(), matches!(model.subject, Some(Node::Iri(_))), "is_a_resource");
        ensure_eq!(lib.is_an_individual(), model.props.iter().any(|(p, _)| *p == rdf("type")), "is_an_individual");
        let copy = lib.clone();
        let sts: Vec<Statement> = lib.into();
        let observed: Vec<Triple> = sts.iter().map(from_lib_statement).collect();
        let mut expected = vec![];
        let mut fresh = Fresh::default();
        let s = expect(&model, &mut fresh, &mut expected);
        same_multiset(&observed, &expected, "statements of the resource")?;
        // named blank nodes keep their names
        let pin = |ts: &[Triple]| {
            let mut v = ts.to_vec();
            for l in ["r0", "r1", "r2"] {
                v.push(Triple::new(blank(l), "pin:label", Node::Lit(Lit::plain(l))));
            }
            v
        };
        same_multiset(&pin(&observed), &pin(&expected), "statements of the resource, with labels kept")?;
        let sts2: Vec<Statement> = copy.into();
        same_multiset(&sts2.iter().map(from_lib_statement).collect::<Vec<_>>(), &expected, "statements of the clone")?;
        c.count("statements", expected.len() as u64);
        c.count("resources", 1);
        let _ = s;
        if !model.props.is_empty() {
            c.distinct(&model);
        }
        c.sample(|| show_all(&expected));
        Ok(())
    });
    r.require("statements", 50_000);
    r.require("containers", 3000);
    r.require("nested", 2000);
    r.require("predicates", 2000);
}
