//! W01, W02, W03: N-Triples and N-Quads.

use crate::util::*;
use crate::w3c;
use objio::{HasOptions, ObjectReader, ObjectWriter};
use rdfmodel::gen::{near_iri, Cfg, Pool};
use rdfmodel::*;
use rdftk_core::model::data_set::DataSet;
use rdftk_core::model::graph::Graph;
use rdftk_core::model::literal::LanguageTag;
use rdftk_io::nq::{NQuadReader, NQuadWriter};
use rdftk_io::nt::{NTripleReader, NTripleWriter, NTripleWriterOptions};
use vmon::gen as vg;
use vmon::{ensure, ensure_eq, fail, Case, Check, Rng, Runner};

pub fn w01(r: &mut Runner) {
    r.rule("Random graphs, flat and with nested statements and collections, with every kind of literal, IRI and blank node label; what is written is parsed with a strict N-Triples parser and compared with the model's flattening, then read back with NTripleReader. Distinct by the graph; non-trivial when it has statements.");
    let body = |c: &mut Case<'_>, ts: Vec<Triple>| -> Check {
        let (map, _) = mappings(&mut c.rng);
        let unique = c.rng.chance(1, 3);
        let name = if c.rng.chance(1, 4) { Some(iri("http://example.org/g")) } else { None };
        let g = graph_of(&ts, Some(map), name.as_ref(), unique);
        let w = if c.rng.bool() { NTripleWriter::default() } else { NTripleWriter::default().with_options(NTripleWriterOptions::default().force_string_literals(true)) };
        let text = w.write_to_string(&g).map_err(|e| format!("writing [{}]: {e}", show_all(&ts)))?;
        let doc = nt::parse(&text, false, false).map_err(|e| format!("what is written is not N-Triples: {e}; from [{}]", show_all(&ts)))?;
        let observed: Vec<Triple> = doc.into_iter().map(|x| x.0).collect();
        // no statement twice, when there were no nested nodes
        let expected = flatten(&ts, true);
        if !is_nested(&ts) {
            same_multiset(&observed, &dedup(&expected), "the N-Triples written")?;
            ensure_eq!(text.lines().count(), observed.len(), "lines");
        } else {
            let expected = if unique { flatten(&dedup(&ts), true) } else { expected };
            same_graph(&observed, &expected, &format!("the N-Triples written for [{}]", show_all(&ts)))?;
        }
        ensure!(text.is_empty() || text.ends_with(".\n"), "the end of {text:?}");
        let back = NTripleReader::default().read_from_string(&text).map_err(|e| format!("reading back {text:?}: {e}"))?;
        same_multiset(&from_lib_graph(&back), &observed, "the graph read back")?;
        ensure_eq!(g.statements().map(from_lib_statement).count(), graph_of(&ts, None, None, unique).len(), "statements after writing");
        c.count(if is_nested(&ts) { "nested graphs" } else { "flat graphs" }, 1);
        c.count("lines", observed.len() as u64);
        c.count("escaped", text.matches('\\').count() as u64);
        if !ts.is_empty() {
            c.distinct(&ts);
        }
        c.sample(|| text.clone());
        Ok(())
    };
    let n = r.n(26_000, 12);
    r.section("graphs", n, |c| {
        let cfg = some_cfg(c);
        let ts = some_triples(c, &cfg);
        body(c, ts)
    });
    let n = r.n(3, 4);
    r.section("huge graphs", n, |c| {
        let ts = huge_triples(c);
        body(c, ts)
    });
    // every character, as text and in the middle of it
    let n = r.n(0x1100, 1);
    r.section("characters", n, |c| {
        let from = c.index as u32 * 0x100;
        let mut ts = vec![];
        for (k, ch) in (from..from + 0x100).filter_map(char::from_u32).enumerate() {
            ts.push(Triple::new(iri("http://example.org/s"), "http://example.org/p", Node::Lit(Lit::plain(&format!("{k}{ch}{ch}")))));
        }
        let g = graph_of(&ts, None, None, false);
        let text = NTripleWriter::default().write_to_string(&g).map_err(|e| e.to_string())?;
        let doc = nt::parse(&text, false, false).map_err(|e| format!("not N-Triples: {e}"))?;
        same_multiset(&doc.into_iter().map(|x| x.0).collect::<Vec<_>>(), &ts, "characters")?;
        let back = NTripleReader::default().read_from_string(&text).map_err(|e| format!("reading back: {e}"))?;
        same_multiset(&from_lib_graph(&back), &ts, "characters read back")?;
        c.count("characters", ts.len() as u64);
        c.distinct_enumerated(ts.len() as u64);
        Ok(())
    });
    r.exhaustive("every Unicode character in a literal, written and read back");
    r.require("nested graphs", 3000);
    r.require("flat graphs", 3000);
    r.require("characters", 1_000_000);
}

// ------------------------------------------------------------------------------------------------

fn ws(rng: &mut Rng, at_least: bool) -> String {
    let mut s = String::new();
    let n = match rng.below(6) {
        0 => 0,
        1 => rng.range(2, 4),
        _ => 1,
    };
    for _ in 0..n.max(usize::from(at_least)) {
        s.push(if rng.chance(1, 5) { '\t' } else { ' ' });
    }
    s
}

fn uchar(rng: &mut Rng, c: char) -> String {
    let v = c as u32;
    match (v > 0xFFFF || rng.chance(1, 3), rng.bool()) {
        (true, true) => format!("\\U{v:08x}"),
        (true, false) => format!("\\U{v:08X}"),
        (false, true) => format!("\\u{v:04x}"),
        (false, false) => format!("\\u{v:04X}"),
    }
}

fn write_iri(rng: &mut Rng, i: &str, out: &mut String) {
    let escapes = rng.chance(1, 4);
    out.push('<');
    for ch in i.chars() {
        if matches!(ch, '{' | '}' | '|' | '^' | '`' | '"' | '\\' | '\0'..=' ') || (escapes && rng.chance(1, 6)) {
            out.push_str(&uchar(rng, ch));
        } else {
            out.push(ch);
        }
    }
    out.push('>');
}

fn write_string(rng: &mut Rng, v: &str, out: &mut String) {
    let escapes = rng.chance(1, 3);
    out.push('"');
    for ch in v.chars() {
        let short = match ch {
            '\t' => Some('t'),
            '\u{8}' => Some('b'),
            '\n' => Some('n'),
            '\r' => Some('r'),
            '\u{c}' => Some('f'),
            '"' | '\'' | '\\' => Some(ch),
            _ => None,
        };
        let must = matches!(ch, '"' | '\\' | '\n' | '\r');
        if must || (escapes && rng.chance(1, 4)) {
            match short {
                Some(e) if rng.chance(2, 3) => {
                    out.push('\\');
                    out.push(e);
                }
                _ => out.push_str(&uchar(rng, ch)),
            }
        } else {
            out.push(ch);
        }
    }
    out.push('"');
}

fn write_node(rng: &mut Rng, n: &Node, out: &mut String) {
    match n {
        Node::Iri(i) => write_iri(rng, i, out),
        Node::Blank(b) => {
            out.push_str("_:");
            out.push_str(b);
        }
        Node::Lit(l) => {
            write_string(rng, &l.value, out);
            if let Some(dt) = &l.dt {
                out.push_str("^^");
                write_iri(rng, dt, out);
            } else if let Some(t) = &l.lang {
                out.push('@');
                out.push_str(t);
            }
        }
        _ => unreachable!(),
    }
}

fn comment(rng: &mut Rng) -> String {
    format!("#{}", vg::text(rng).replace(['\n', '\r'], " "))
}

fn eol(rng: &mut Rng) -> &'static str {
    rng.pick(&["\n", "\n", "\n", "\r\n", "\r"])
}

/// A document of the grammar that says these quads, each once in this order.
pub fn write_document(rng: &mut Rng, quads: &[Quad]) -> String {
    let mut out = String::new();
    for (k, (t, g)) in quads.iter().enumerate() {
        if rng.chance(1, 6) {
            out += &ws(rng, false);
            if rng.bool() {
                out += &comment(rng);
            }
            out += eol(rng);
        }
        out += &ws(rng, false);
        write_node(rng, &t.s, &mut out);
        out += &ws(rng, matches!(t.s, Node::Blank(_)));
        write_iri(rng, &t.p, &mut out);
        out += &ws(rng, false);
        write_node(rng, &t.o, &mut out);
        out += &ws(rng, !matches!(t.o, Node::Iri(_)));
        if let Some(g) = g {
            write_node(rng, g, &mut out);
            out += &ws(rng, !matches!(g, Node::Iri(_)));
        }
        out += ".";
        out += &ws(rng, false);
        if rng.chance(1, 8) {
            out += &comment(rng);
        }
        if k + 1 < quads.len() || rng.chance(3, 4) {
            out += eol(rng);
        }
    }
    if rng.chance(1, 6) {
        out += &comment(rng);
    }
    out
}

const MORE_LANGS: &[&str] = &["EN", "en-us", "x-a-b", "i-klingon", "zh-cmn-Hans-CN", "de-DE-u-co-phonebk", "sl-rozaj-biske"];

fn surface_pool(rng: &mut Rng) -> Pool {
    let cfg = Cfg { iris: 5, blanks: 6, ..Cfg::default() };
    let mut p = Pool::new(rng, &cfg);
    for i in p.iris.iter_mut().chain(p.preds.iter_mut()) {
        if rng.chance(1, 6) {
            // beyond ASCII, which the library keeps in another form
            i.push_str(rng.pick(&["é", "/日本", "?ü=ö", "#𝒳", "%C3%A9"]));
        }
    }
    p.blanks.push("0".into());
    p.blanks.push("_x".into());
    p.blanks.push("a.b.c".into());
    p.blanks.push("é·x".into());
    p
}

fn surface_triple(rng: &mut Rng, p: &Pool) -> Triple {
    let mut t = p.triple(rng, 0);
    if let Node::Lit(l) = &mut t.o {
        if l.lang.is_some() && rng.chance(1, 3) {
            l.lang = Some(rng.pick(MORE_LANGS).to_string());
        }
    }
    t
}

/// The quads with their IRIs in the library's normal form; None when it refuses one of them.
fn normalize(quads: &[Quad]) -> Option<Vec<Quad>> {
    fn node(n: &Node) -> Option<Node> {
        Some(match n {
            Node::Iri(i) => Node::Iri(normal_iri(i)?),
            Node::Lit(l) => Node::Lit(Lit {
                value: l.value.clone(),
                dt: match &l.dt {
                    Some(d) => Some(normal_iri(d)?),
                    None => None,
                },
                lang: match &l.lang {
                    Some(t) => Some(LanguageTag::parse(t).ok()?.to_string()),
                    None => None,
                },
            }),
            other => other.clone(),
        })
    }
    let mut v = vec![];
    for (t, g) in quads {
        let g = match g {
            Some(g) => Some(node(g)?),
            None => None,
        };
        v.push((Triple { s: node(&t.s)?, p: normal_iri(&t.p)?, o: node(&t.o)? }, g));
    }
    Some(v)
}

fn absolute(quads: &[Quad]) -> bool {
    let ok = |n: &Node| match n {
        Node::Iri(i) => ttl::has_scheme(i),
        Node::Lit(l) => l.dt.as_deref().map(ttl::has_scheme).unwrap_or(true),
        _ => true,
    };
    quads.iter().all(|(t, g)| ok(&t.s) && ttl::has_scheme(&t.p) && ok(&t.o) && g.as_ref().map(ok).unwrap_or(true))
}

pub fn read(text: &str, quads: bool) -> Result<Vec<Quad>, String> {
    if quads {
        NQuadReader::default().read_from_string(text).map(|d| from_lib_data_set(&d)).map_err(|e| e.to_string())
    } else {
        NTripleReader::default()
            .read_from_string(text)
            .map(|g| from_lib_graph(&g).into_iter().map(|t| (t, None)).collect())
            .map_err(|e| e.to_string())
    }
}

/// A mutation of a document that is likely to leave it a near miss.
pub fn mutate(rng: &mut Rng, text: &str) -> String {
    let mut v: Vec<char> = text.chars().collect();
    let bits: &[&str] = &[
        "\"", "<", ">", ".", "_:", "\\", "\\u12", "\\x", "@", "^^", "#", "\n", "\r", " ", "<<", ">>", "{", "}", "@en", "@-", "@en-", "a", ":", "'", "\"\"\"", ";", ",", "[]", "true", "1",
        "\\U00110000", "\\uD800", "\\U0000000G", "@prefix", "\u{0}", "\t", "é", "^", "_:.", "_:-", "<a>", "<>", "()", "GRAPH", "~",
    ];
    for _ in 0..rng.range(1, 3) {
        let at = rng.range(0, v.len());
        match rng.below(5) {
            0 if !v.is_empty() => {
                v.remove(at.min(v.len() - 1));
            }
            1 => {
                v.truncate(at);
            }
            2 if v.len() > 2 => {
                let k = rng.range(0, v.len() - 2);
                v.swap(k, k + 1);
            }
            3 if !v.is_empty() => {
                let to = (at + rng.range(1, 12)).min(v.len());
                let part: Vec<char> = v[at.min(to)..to].to_vec();
                if rng.bool() {
                    v.drain(at.min(to)..to);
                } else {
                    v.splice(at..at, part);
                }
            }
            _ => {
                let b: Vec<char> = rng.pick(bits).chars().collect();
                v.splice(at..at, b);
            }
        }
    }
    v.into_iter().collect()
}

fn documents(c: &mut Case<'_>, quads: bool) -> Check {
    let pool = surface_pool(&mut c.rng);
    let n = if c.rng.chance(1, 3000) { c.rng.range(500, 2500) } else { c.rng.range(0, 12) };
    let names: Vec<Option<Node>> = vec![None, Some(iri("http://example.org/g")), Some(Node::Iri(pool.iris[0].clone())), Some(blank("g1")), Some(blank("_x"))];
    let near = near_iri(&mut c.rng, "http://example.org/g");
    let names = [names, vec![Some(iri(&near)), Some(iri(&near_iri(&mut c.rng, &near)))]].concat();
    let mut qs: Vec<Quad> = vec![];
    for _ in 0..n {
        let g = if quads { c.rng.pick(&names).clone() } else { None };
        qs.push((surface_triple(&mut c.rng, &pool), g));
    }
    let text = write_document(&mut c.rng, &qs);
    // the oracle agrees with the generator
    let parsed = nt::parse(&text, quads, false);
    match &parsed {
        Ok(p) if *p == qs => {}
        other => panic!("the oracle and the generator disagree on {text:?}: {other:?}"),
    }
    match (read(&text, quads), normalize(&qs)) {
        (Ok(got), Some(want)) => {
            same_quads(&lower_langs_quads(&got), &lower_langs_quads(&want), &format!("reading {text:?}"))?;
            ensure_eq!(got.len(), want.len(), "statements of {text:?}");
            c.count("read", 1);
        }
        (Err(e), Some(_)) => fail!("a document of the grammar is refused: {e}; {text:?}"),
        (_, None) => c.count("IRI or language tag refused", 1),
    }
    c.count("statements", n as u64);
    if n > 0 {
        c.distinct(&text);
    }
    c.sample(|| text.clone());
    Ok(())
}

fn near_misses(c: &mut Case<'_>, quads: bool) -> Check {
    let pool = surface_pool(&mut c.rng);
    let n = c.rng.range(1, 4);
    let qs: Vec<Quad> = (0..n)
        .map(|_| {
            let g = if quads && c.rng.bool() { Some(iri("http://example.org/g")) } else { None };
            (surface_triple(&mut c.rng, &pool), g)
        })
        .collect();
    let text = write_document(&mut c.rng, &qs);
    let text = mutate(&mut c.rng, &text);
    judge(c, &text, quads)?;
    c.distinct(&text);
    Ok(())
}

/// A label with ':', which only some editions of the grammar have.
fn has_colon_label(qs: &[Quad]) -> bool {
    let b = |n: &Node| matches!(n, Node::Blank(b) if b.contains(':'));
    qs.iter().any(|(t, g)| b(&t.s) || b(&t.o) || g.as_ref().is_some_and(b))
}

fn judge(c: &mut Case<'_>, text: &str, quads: bool) -> Check {
    let got = read(text, quads);
    match nt::parse_lenient(text, quads) {
        Err(why) => {
            c.count("refused", 1);
            if let Ok(got) = got {
                fail!("{text:?} is no such document ({why}), and is read as {} statements", got.len());
            }
        }
        Ok(qs) => {
            if has_colon_label(&qs) {
                c.count("not judged", 1);
            } else if !absolute(&qs) {
                c.count("relative", 1);
                ensure!(got.is_err(), "the relative IRIs of {text:?} are accepted");
            } else if let Some(want) = normalize(&qs) {
                let strict = nt::parse(text, quads, false).is_ok();
                match got {
                    Ok(got) => {
                        same_quads(&lower_langs_quads(&got), &lower_langs_quads(&want), &format!("reading {text:?}"))?;
                        ensure_eq!(got.len(), want.len(), "statements of {text:?}");
                        c.count("accepted", 1);
                    }
                    Err(e) if strict => fail!("{text:?} is refused: {e}"),
                    Err(_) => c.count("lenient, refused", 1),
                }
            } else {
                ensure!(got.is_err(), "the IRIs or language tags of {text:?} are refused, but not in a document");
                c.count("invalid IRI or language tag", 1);
            }
        }
    }
    Ok(())
}

fn w3c_suite(r: &mut Runner, name: &'static str, quads: bool) {
    let files = w3c::files(name, name);
    r.section(&format!("W3C {name}"), files.len() as u64, |c| {
        let p = &files[c.index as usize];
        let Some(text) = w3c::text(p) else { return Ok(()) };
        judge(c, &text, quads).map_err(|f| format!("{}: {}", p.display(), f.msg))?;
        // the two readers agree on triples
        if !quads {
            judge(c, &text, true).map_err(|f| format!("{}: {}", p.display(), f.msg))?;
        }
        c.count(&format!("W3C {name}"), 1);
        c.distinct(&p);
        Ok(())
    });
}

pub fn w02(r: &mut Runner) {
    r.rule("Documents generated from the grammar in all its forms (escapes, white space, line ends, comments, labels), near misses made by mutation, and the W3C's N-Triples tests; what the reader makes of them is compared with what they were generated from, and with a parser of the grammar. Distinct by the document.");
    r.assume("White space, line ends and comments between any two tokens are accepted or not; the property is silent about them. A blank node label with ':' is not judged.");
    let n = r.n(24_000, 14);
    r.section("documents", n, |c| documents(c, false));
    let n = r.n(60_000, 14);
    r.section("near misses", n, |c| near_misses(c, false));
    w3c_suite(r, "nt", false);
    r.require("read", 15_000);
    r.require("refused", 15_000);
    r.require("accepted", 3_000);
}

pub fn w03(r: &mut Runner) {
    r.rule("Random data sets and graphs, written, parsed with a strict N-Quads parser, compared with the model, and read back; documents generated from the grammar, near misses and the W3C's N-Quads tests for the reader. Distinct by the data set or document.");
    r.assume("White space, line ends and comments between any two tokens are accepted or not; the property is silent about them. A blank node label with ':' is not judged.");
    let body = |c: &mut Case<'_>, gs: Vec<(Option<Node>, Vec<Triple>)>| -> Check {
        let d = data_set_of(&gs, &mut c.rng);
        let w = NQuadWriter::default();
        let text = ObjectWriter::<DataSet>::write_to_string(&w, &d).map_err(|e| e.to_string())?;
        let observed = nt::parse(&text, true, false).map_err(|e| format!("what is written is not N-Quads: {e}"))?;
        let expected = flat_quads(&gs, |_| true);
        same_quads(&observed, &expected, &format!("the N-Quads written for {gs:?}"))?;
        let back = NQuadReader::default().read_from_string(&text).map_err(|e| format!("reading back {text:?}: {e}"))?;
        same_quads(&from_lib_data_set(&back), &observed, "the data set read back")?;
        // a graph of the data set for each name, and none for another
        let mut names: Vec<Option<Node>> = observed.iter().map(|q| q.1.clone()).collect();
        names.sort();
        names.dedup();
        ensure_eq!(back.len(), names.len(), "graphs read back from {text:?}");
        for n in &names {
            let g = back.graph(&n.as_ref().map(lib_name));
            ensure!(g.is_some_and(|g| g.name().map(from_lib_name) == *n), "the graph {n:?} read back from {text:?}");
        }
        c.count("data sets", 1);
        c.count("named graphs", gs.iter().filter(|g| g.0.is_some()).count() as u64);
        c.count("quads", observed.len() as u64);
        if !gs.is_empty() {
            c.distinct(&gs);
        }
        c.sample(|| text.clone());
        Ok(())
    };
    let n = r.n(14_000, 12);
    r.section("data sets", n, |c| {
        let cfg = some_cfg(c);
        let gs = some_quads(c, &cfg);
        body(c, gs)
    });
    let n = r.n(3, 4);
    r.section("huge data sets", n, |c| {
        let graphs = c.rng.range(2, 700);
        let ts = huge_triples(c);
        let per = ts.len() / graphs + 1;
        let gs = ts.chunks(per).enumerate().map(|(k, ts)| {
            let name = match k % 3 {
                _ if k == 1 => None,
                0 => Some(blank(&format!("g{k}"))),
                _ => Some(iri(&format!("http://example.org/g{k}"))),
            };
            (name, ts.to_vec())
        });
        let gs: Vec<_> = gs.collect();
        body(c, gs)
    });
    let n = r.n(6_000, 12);
    r.section("graphs", n, |c| {
        let cfg = some_cfg(c);
        let ts = some_triples(c, &cfg);
        let name = c.rng.pick(&[None, Some(iri("http://example.org/g")), Some(blank("g"))]).clone();
        let g = graph_of(&ts, None, name.as_ref(), c.rng.bool());
        let text = ObjectWriter::<Graph>::write_to_string(&NQuadWriter::default(), &g).map_err(|e| e.to_string())?;
        let observed = nt::parse(&text, true, false).map_err(|e| format!("what is written is not N-Quads: {e}"))?;
        let ts = if c.rng.bool() { ts } else { dedup(&ts) };
        let distinct = dedup(&ts);
        let expected = flat_quads(&[(name.clone(), distinct)], |_| true);
        if is_nested(&ts) {
            // a statement that occurs twice is reified once or twice
            c.count("nested graphs", 1);
            let names: Vec<_> = observed.iter().map(|q| q.1.clone()).collect();
            ensure!(names.iter().all(|n| *n == name), "graph names in {text:?}");
        } else {
            same_quads(&observed, &expected, &format!("the N-Quads written for [{}]", show_all(&ts)))?;
            c.distinct(&(ts, name));
        }
        c.count("graphs", 1);
        Ok(())
    });
    let n = r.n(12_000, 14);
    r.section("documents", n, |c| documents(c, true));
    let n = r.n(30_000, 14);
    r.section("near misses", n, |c| near_misses(c, true));
    w3c_suite(r, "nq", true);
    r.require("data sets", 5_000);
    r.require("named graphs", 5_000);
    r.require("read", 8_000);
    r.require("refused", 8_000);
}
