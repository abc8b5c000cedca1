//! The W3C's test suites, as they stand in the repository: they calibrate the oracles, and are input
//! for the readers.

use crate::util::same_quads;
use rdfmodel::*;
use std::path::{Path, PathBuf};

pub fn dir(name: &str) -> PathBuf {
    Path::new("/repo/rdftk_io/tests/w3c").join(name)
}

/// All files below with this extension.
pub fn files(name: &str, ext: &str) -> Vec<PathBuf> {
    let mut out = vec![];
    let mut todo = vec![dir(name)];
    while let Some(d) = todo.pop() {
        let Ok(rd) = std::fs::read_dir(&d) else { continue };
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                todo.push(p);
            } else if p.extension().is_some_and(|x| x == ext) {
                out.push(p);
            }
        }
    }
    out.sort();
    out
}

pub fn text(p: &Path) -> Option<String> {
    String::from_utf8(std::fs::read(p).ok()?).ok()
}

pub const TURTLE_BASE: &str = "http://www.w3.org/2013/TurtleTests/";
pub const TRIG_BASE: &str = "http://www.w3.org/2013/TriGTests/";
pub const XML_BASE: &str = "http://www.w3.org/2013/RDFXMLTests/";

/// What the N-Triples beside a document say, as the oracle reads it.
pub fn expected_triples(p: &Path) -> Option<Result<Vec<Triple>, String>> {
    let t = text(&p.with_extension("nt"))?;
    Some(nt::parse(&t, false, false).map(|v| v.into_iter().map(|(t, _)| t).collect()))
}



pub fn calibrate() {
    let mut ok = 0;
    for p in files("turtle", "ttl") {
        let name = p.file_name().unwrap().to_string_lossy().to_string();
        if name == "manifest.ttl" {
            continue;
        }
        let Some(t) = text(&p) else { println!("{name}: not UTF-8"); continue };
        let got = ttl::parse(&t, false, Some(&format!("{TURTLE_BASE}{name}")));
        let bad = name.contains("-bad-");
        match (got, expected_triples(&p)) {
            (Err(_), _) if bad => ok += 1,
            (Ok(_), _) if bad => println!("accepted {name}"),
            (Err(e), _) => println!("refused {name}: {e}"),
            (Ok(d), Some(Ok(x))) => match same_graph(&d.triples(), &x, &name) {
                Ok(()) => ok += 1,
                Err(e) => println!("{e:?}"),
            },
            (Ok(_), Some(Err(e))) => println!("nt of {name}: {e}"),
            (Ok(_), None) => ok += 1,
        }
    }
    println!("turtle {ok}");
    ok = 0;
    for p in files("trig", "trig") {
        let name = p.file_name().unwrap().to_string_lossy().to_string();
        let Some(t) = text(&p) else { println!("{name}: not UTF-8"); continue };
        let got = ttl::parse(&t, true, Some(&format!("{TRIG_BASE}{name}")));
        let bad = name.contains("-bad-");
        let want = text(&p.with_extension("nq")).map(|t| nt::parse(&t, true, false));
        match (got, want) {
            (Err(_), _) if bad => ok += 1,
            (Ok(_), _) if bad => println!("accepted {name}"),
            (Err(e), _) => println!("refused {name}: {e}"),
            (Ok(d), Some(Ok(x))) => match same_quads(&d.quads, &x, &name) {
                Ok(()) => ok += 1,
                Err(e) => println!("{e:?}"),
            },
            (Ok(_), Some(Err(e))) => println!("nq of {name}: {e}"),
            (Ok(_), None) => ok += 1,
        }
    }
    println!("trig {ok}");
    ok = 0;
    for p in files("xml", "rdf") {
        let name = p.strip_prefix(dir("xml")).unwrap().to_string_lossy().to_string();
        let Some(t) = text(&p) else { println!("{name}: not UTF-8"); continue };
        let got = rdfxml::parse(&t, Some(&format!("{XML_BASE}{name}")));
        let bad = name.contains("/error");
        match (got, expected_triples(&p)) {
            (Err(_), _) if bad => ok += 1,
            (Ok(_), _) if bad => println!("accepted {name}"),
            (Err(e), _) => println!("refused {name}: {e}"),
            (Ok(d), Some(Ok(x))) => match rdfxml::canonical_literals(&x).and_then(|x| same_graph(&d.triples, &x, &name).map_err(|e| format!("{e:?}"))) {
                Ok(()) => ok += 1,
                Err(e) => println!("{e}"),
            },
            (Ok(_), Some(Err(e))) => println!("nt of {name}: {e}"),
            (Ok(_), None) => ok += 1,
        }
    }
    println!("xml {ok}");
    ok = 0;
    for (d, quads) in [("nt", false), ("nq", true)] {
        for p in files(d, d) {
            let name = p.file_name().unwrap().to_string_lossy().to_string();
            let Some(t) = text(&p) else { println!("{name}: not UTF-8"); continue };
            match nt::parse(&t, quads, false) {
                Ok(_) if name.contains("-bad-") => println!("accepted {name}"),
                Err(e) if !name.contains("-bad-") => println!("refused {name}: {e}"),
                _ => ok += 1,
            }
        }
    }
    println!("nt, nq {ok}");
}
