//! N01: the vocabularies of rdftk_names, and those a user defines with its macro.

use rdftk_iri::{Iri, Name};
use rdftk_names::{dc, foaf, geo, owl, rdf, rdfs, skos, xsd};
use std::collections::HashSet;
use std::str::FromStr;
use std::sync::Barrier;
use vmon::{ensure, ensure_eq, Check, Fail, Runner};

type IriFn = fn() -> &'static Iri;
type StrFn = fn() -> &'static str;

struct Term {
    function: &'static str,
    local: &'static str,
    iri: IriFn,
    str_fn: StrFn,
    qname: StrFn,
}

struct Vocabulary {
    module: &'static str,
    prefix: &'static str,
    namespace: &'static str,
    default_prefix: fn() -> &'static Name,
    namespace_fn: IriFn,
    namespace_str: StrFn,
    terms: Vec<Term>,
}

macro_rules! vocabularies {
    ($(($($path:ident)::+, $prefix:literal, $namespace:literal, [$($function:ident => $local:literal,)*]),)*) => {
        fn vocabularies() -> Vec<Vocabulary> {
            vec![$({
                use $($path)::+ as v;
                Vocabulary {
                    module: stringify!($($path)::+),
                    prefix: $prefix,
                    namespace: $namespace,
                    default_prefix: v::default_prefix,
                    namespace_fn: v::namespace,
                    namespace_str: v::namespace_str,
                    terms: paste::paste! { vec![$(Term {
                        function: stringify!($function),
                        local: $local,
                        iri: v::$function,
                        str_fn: v::[<$function _str>],
                        qname: v::[<$function _qname>],
                    }),*] },
                }
            }),*]
        }
    };
}

include!("terms_table.rs");

/// Functions of rdftk_names whose term is in no published version of the vocabulary.
const UNPUBLISHED: &[&str] =
    &["rdfs:langString", "rdfs:HTML", "rdfs:XMLLiteral", "rdfs:Property", "rdfs:value", "owl:version", "xsd:NS"];

/// Vocabularies defined with the macro, each of which is first used by the case of its number.
macro_rules! user_vocabularies {
    ($($m:ident $ns:literal;)*) => {
        $(mod $m {
            rdftk_names::namespace! {
                "ex-1.a",
                $ns,
                {
                    plain, "plain",
                    upper, "Plain",
                    under, "_under_score",
                    hyphen, "ISO639-2",
                    digits, "_1234567890",
                    dotted, "a.b",
                    same_as_plain, "plain",
                    long_name, "aVeryLongNameIndeedWithManyWordsInItThatGoOnAndOn"
                }
            }
        })*
        fn user_vocabularies() -> Vec<Vocabulary> {
            vec![$(Vocabulary {
                module: stringify!($m),
                prefix: "ex-1.a",
                namespace: $ns,
                default_prefix: $m::default_prefix,
                namespace_fn: $m::namespace,
                namespace_str: $m::namespace_str,
                terms: user_vocabularies!(@ $m plain "plain", upper "Plain", under "_under_score", hyphen "ISO639-2",
                    digits "_1234567890", dotted "a.b", same_as_plain "plain",
                    long_name "aVeryLongNameIndeedWithManyWordsInItThatGoOnAndOn"),
            }),*]
        }
    };
    (@ $m:ident $($f:ident $l:literal),*) => { paste::paste! { vec![$(Term {
        function: stringify!($f), local: $l, iri: $m::$f, str_fn: $m::[<$f _str>], qname: $m::[<$f _qname>],
    }),*] } };
}

user_vocabularies! {
    u01 "http://example.org/ns#"; u02 "http://example.org/ns/"; u03 "http://example.org/"; u04 "http://example.org/a/b/c/";
    u05 "https://example.org:8080/a#"; u06 "http://example.org/a/b#"; u07 "http://example.org/a/?x=1#"; u08 "urn:example:x#";
    u09 "http://example.org/x.y/z/"; u10 "http://example.org/%41/"; u11 "http://example.org/%C3%A9/"; u12 "http://example.org/%C3%A9#";
    u13 "http://user@example.org/a/"; u14 "http://[::1]/a/"; u15 "http://example.org/a/b/"; u16 "http://example.org/a#";
    u17 "http://example.org//"; u18 "http://example.org/a;b/"; u19 "http://example.org/a,b/"; u20 "http://example.org/~a/";
    u21 "ftp://example.org/a/"; u22 "urn:example:y#"; u23 "tag:example.org,2024:a/"; u24 "http://example.org/q#";
}

impl Vocabulary {
    fn check(&self) -> Check {
        let m = self.module;
        ensure_eq!((self.default_prefix)().as_ref(), self.prefix, "{m}: default prefix");
        ensure_eq!((self.namespace_str)(), self.namespace, "{m}: namespace_str");
        ensure_eq!(format!("{:#}", (self.namespace_fn)()), self.namespace, "{m}: namespace");
        ensure_eq!((self.namespace_fn)(), &Iri::from_str(self.namespace).unwrap(), "{m}: namespace");
        for t in &self.terms {
            t.check(self)?;
        }
        Ok(())
    }
}

impl Term {
    fn check(&self, v: &Vocabulary) -> Check {
        let what = format!("{}::{}", v.module, self.function);
        let expected = format!("{}{}", v.namespace, self.local);
        let iri = (self.iri)();
        ensure_eq!(format!("{iri:#}"), expected, "{what}");
        ensure_eq!(iri, &Iri::from_str(&expected).unwrap(), "{what}");
        ensure_eq!((self.str_fn)(), self.local, "{what}_str");
        ensure_eq!((self.qname)(), format!("{}:{}", v.prefix, self.local), "{what}_qname");
        ensure!(std::ptr::eq(iri, (self.iri)()), "{what} is another value when called again");
        Ok(())
    }
}

/// The functions of a vocabulary, called by many threads that start together and each go their own way.
fn concurrent(v: &Vocabulary, rng: &mut vmon::Rng, threads: usize) -> Check {
    let barrier = Barrier::new(threads);
    let orders: Vec<Vec<usize>> = (0..threads)
        .map(|_| {
            let mut o: Vec<usize> = (0..v.terms.len()).collect();
            rng.shuffle(&mut o);
            o
        })
        .collect();
    let results: Vec<Result<Check, String>> = std::thread::scope(|s| {
        let handles: Vec<_> = orders
            .iter()
            .enumerate()
            .map(|(k, order)| {
                let barrier = &barrier;
                s.spawn(move || {
                    barrier.wait();
                    vmon::catch(|| {
                        if k % 3 == 0 {
                            ensure_eq!((v.default_prefix)().as_ref(), v.prefix, "{}: default prefix", v.module);
                        }
                        for &i in order {
                            v.terms[i].check(v)?;
                        }
                        v.check()
                    })
                })
            })
            .collect();
        handles.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for r in results {
        r.map_err(|p| Fail::from(format!("{}: panic: {p}", v.module)))??;
    }
    Ok(())
}

pub fn n01(r: &mut Runner) {
    r.rule("every vocabulary module: its prefix and namespace; every term: its IRI is the namespace followed by its \
            published name, its _str that name, its _qname the default prefix, a colon and the name; the same when \
            first used by many threads at once; a vocabulary defined by a user with namespace! alike");
    r.assume("the table of published names was written from the code, and then reviewed by hand");
    let vocabularies = vocabularies();
    let users = user_vocabularies();
    r.section_seq("first use by concurrent threads", vocabularies.len() as u64, |c| {
        let v = &vocabularies[c.index as usize];
        concurrent(v, &mut c.rng, 12)?;
        c.count("terms checked", 12 * v.terms.len() as u64);
        c.distinct(&v.module);
        Ok(())
    });
    r.section_seq("a user's vocabulary", users.len() as u64, |c| {
        let v = &users[c.index as usize];
        concurrent(v, &mut c.rng, 12)?;
        c.count("user terms checked", 12 * v.terms.len() as u64);
        c.distinct(&v.namespace);
        c.sample(|| format!("{} {}", v.namespace, (v.terms[0].iri)()));
        Ok(())
    });
    let all: Vec<(usize, usize)> =
        vocabularies.iter().enumerate().flat_map(|(i, v)| (0..v.terms.len()).map(move |k| (i, k))).collect();
    r.section("published terms", all.len() as u64, |c| {
        let (i, k) = all[c.index as usize];
        let v = &vocabularies[i];
        let t = &v.terms[k];
        t.check(v)?;
        c.distinct(&(v.module, t.local));
        c.sample(|| format!("{}::{} is {}", v.module, t.function, (t.iri)()));
        let q = (t.qname)();
        if UNPUBLISHED.contains(&q) {
            return Err(Fail {
                sig: format!("unpublished:{q}"),
                msg: format!("{q} is not a term of the published vocabulary"),
            });
        }
        Ok(())
    });
    r.section("distinct terms of a vocabulary", vocabularies.len() as u64, |c| {
        let v = &vocabularies[c.index as usize];
        let iris: HashSet<&Iri> = v.terms.iter().map(|t| (t.iri)()).collect();
        ensure_eq!(iris.len(), v.terms.len(), "{}: distinct IRIs", v.module);
        for t in &v.terms {
            // the name, made by the operation users have for it, is the same IRI
            let made = (v.namespace_fn)().make_name(Name::from_str(t.local).unwrap());
            ensure_eq!(made.as_ref(), Some((t.iri)()), "{}: make_name({})", v.module, t.local);
        }
        Ok(())
    });
    let n = r.n(20_000, 20);
    r.section("rdf container membership", n, |c| {
        let i = if c.index < 12_000 { c.index as usize + 1 } else { (c.rng.u64() >> c.rng.below(63)) as usize };
        let iri = rdf::member(i);
        ensure_eq!(format!("{iri:#}"), format!("http://www.w3.org/1999/02/22-rdf-syntax-ns#_{i}"), "member({i})");
        ensure_eq!(rdf::member_qname(i), format!("rdf:_{i}"), "member_qname({i})");
        c.distinct(&i);
        Ok(())
    });
    r.section("term status values", 1, |_| {
        use skos::term_status::*;
        ensure_eq!(
            [STATUS_ARCHAIC, STATUS_DEPRECATED, STATUS_PROPOSED, STATUS_STABLE, STATUS_TESTING, STATUS_UNSTABLE],
            ["archaic", "deprecated", "proposed", "stable", "testing", "unstable"],
            "the values of term_status"
        );
        Ok(())
    });
    r.require("terms checked", 2000);
    r.require("user terms checked", 2000);
}
