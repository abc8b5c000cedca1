//! T01: the command-line tool, in processes of its own.

use crate::robust::{document, mutate_bytes, read_with};
use crate::util::*;
use crate::{dot, json};
use objio::{ObjectReader, ObjectWriter};
use rdfmodel::*;
use rdftk_core::model::graph::Graph;
use rdftk_io::json::JsonReader;
use rdftk_io::nt::NTripleReader;
use rdftk_io::xml::{XmlReader, XmlWriter};
use std::io::{Read, Write};
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;
use vmon::{ensure, ensure_eq, fail, Case, Check, Runner};

const FROM: &[(&str, &str)] = &[("nt", "n-triples"), ("json", "json"), ("xml", "xml"), ("nq", "n-quads")];
const TO: &[&str] = &["json", "n-quads", "n-triples", "trig", "turtle", "xml"];

/// A directory that goes away with it.
struct Scratch(PathBuf);

impl Scratch {
    fn new() -> Scratch {
        let p = std::env::temp_dir().join(format!("vmon-tool-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("a scratch directory");
        Scratch(p)
    }
    fn file(&self, c: &Case<'_>, name: &str) -> PathBuf {
        self.0.join(format!("{}-{name}", c.index))
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn tool() -> Command {
    let exe = std::env::current_exe().expect("the harness's own path");
    let mut c = Command::new(exe.parent().expect("its directory").join("rdftk"));
    c.env_remove("RUST_LOG").env_remove("NO_COLOR").env("RUST_BACKTRACE", "0").stdin(Stdio::null());
    c
}

/// One at a time, so that no process holds, on its way to its program, the end of a pipe made for another.
fn spawn(cmd: &mut Command) -> std::io::Result<Child> {
    static ONE: Mutex<()> = Mutex::new(());
    let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    cmd.spawn()
}

struct Ran {
    code: Option<i32>,
    out: Vec<u8>,
    err: String,
}

/// Run it, with the document as its standard input, in pieces, or with nothing.
fn run(c: &mut Case<'_>, mut cmd: Command, input: Option<&[u8]>, stdout: Option<Stdio>) -> Result<Ran, vmon::Fail> {
    let to_file = stdout.is_some();
    cmd.stdout(stdout.unwrap_or_else(Stdio::piped)).stderr(Stdio::piped());
    if input.is_some() {
        cmd.stdin(Stdio::piped());
    }
    let piece = *c.rng.pick(&[1, 7, 100, 100_000]);
    let mut child = spawn(&mut cmd).map_err(|e| format!("the tool does not start: {e}"))?;
    let stdin = child.stdin.take();
    let (out, err) = (child.stdout.take(), child.stderr.take());
    let (out, err) = std::thread::scope(|s| {
        let feeder = s.spawn(move || {
            if let (Some(mut w), Some(b)) = (stdin, input) {
                for p in b.chunks(piece) {
                    // a tool that has failed reads no more
                    if w.write_all(p).is_err() {
                        break;
                    }
                }
            }
        });
        let errors = s.spawn(move || {
            let mut e = vec![];
            let _ = err.expect("a pipe").read_to_end(&mut e);
            String::from_utf8_lossy(&e).to_string()
        });
        let mut o = vec![];
        if !to_file {
            let _ = out.expect("a pipe").read_to_end(&mut o);
        }
        let _ = feeder.join();
        (o, errors.join().unwrap_or_default())
    });
    let status = child.wait().map_err(|e| e.to_string())?;
    c.count("processes", 1);
    Ok(Ran { code: status.code(), out, err })
}

/// It said what is wrong, in the way that tools do.
fn failed(c: &mut Case<'_>, r: &Ran, what: &str) -> Check {
    ensure!(r.code.is_some_and(|c| c != 0), "{what}: exit status {:?}", r.code);
    ensure!(r.code != Some(101) && !r.err.contains("panicked at"), "{what}: a panic: {}", r.err);
    ensure!(!r.err.trim().is_empty(), "{what}: fails and says nothing");
    c.count("failures told", 1);
    Ok(())
}

fn quads_of(to: &str, text: &str) -> Result<Vec<Quad>, String> {
    let graph = |v: Vec<Triple>| v.into_iter().map(|t| (t, None)).collect();
    Ok(match to {
        "json" => graph(json::written(&json::parse_json(text)?)?.0),
        "n-quads" => nt::parse(text, true, false)?,
        "n-triples" => nt::parse(text, false, false)?,
        "trig" => ttl::parse(text, true, None)?.quads,
        "turtle" => graph(ttl::parse(text, false, None)?.triples()),
        _ => graph(rdfxml::parse(text, None)?.triples),
    })
}

/// Can the graph be written as RDF/XML?
fn writable(kind: &str, b: &[u8]) -> bool {
    let mut b = b;
    let g: Option<Graph> = match kind {
        "nt" => NTripleReader::default().read(&mut b).ok(),
        "json" => JsonReader::default().read(&mut b).ok(),
        _ => XmlReader::default().read(&mut b).ok(),
    };
    g.is_some_and(|g| XmlWriter::default().write_to_string(&g).is_ok())
}

/// A document of some hundred thousand bytes, more than pipes and buffers hold.
fn large_document(c: &mut Case<'_>, kind: &str) -> String {
    let n = c.rng.range(400, 800);
    let lengths = *c.rng.pick(&[(180, 400), (300, 300), (1, 600)]);
    let mut lines: Vec<(String, String, String, usize)> = vec![];
    for i in 0..n {
        let s = if i % 97 == 5 { format!("b{i}") } else { format!("http://example.org/s{}", c.rng.below(n)) };
        let len = c.rng.range(lengths.0, lengths.1);
        let at = c.rng.below(26);
        let text: String = (0..len).map(|k| if (k + i) % 61 == 60 { 'é' } else { (b'a' + ((at + k * 7) % 26) as u8) as char }).collect();
        lines.push((s, format!("http://example.org/p{}", c.rng.below(9)), format!("{i} {text}"), c.rng.below(5)));
    }
    let blank = |s: &str| s.starts_with('b');
    match kind {
        "json" => {
            let mut by: std::collections::BTreeMap<String, std::collections::BTreeMap<String, Vec<String>>> = Default::default();
            for (i, (_, p, o, _)) in lines.into_iter().enumerate() {
                // (the reader takes IRIs as subjects in brackets only, see W04)
                by.entry(format!("_:b{}", i % 40)).or_default().entry(p).or_default().push(o);
            }
            let subjects = by.into_iter().map(|(s, ps)| {
                let ps = ps.into_iter().map(|(p, os)| {
                    let os: Vec<String> = os.into_iter().map(|o| format!("{{\"type\":\"literal\",\"value\":\"{o}\"}}")).collect();
                    format!("\"{p}\":[{}]", os.join(","))
                });
                format!("\"{s}\":{{{}}}", ps.collect::<Vec<_>>().join(","))
            });
            format!("{{{}}}", subjects.collect::<Vec<_>>().join(","))
        }
        "xml" => {
            let nodes = lines.into_iter().map(|(s, p, o, _)| {
                let about = if blank(&s) { format!("rdf:nodeID='{s}'") } else { format!("rdf:about='{s}'") };
                format!("<rdf:Description {about}><ex:{l}>{o}</ex:{l}></rdf:Description>\n", l = p.strip_prefix("http://example.org/").expect("the prefix"))
            });
            format!("<rdf:RDF xmlns:rdf='{}' xmlns:ex='http://example.org/'>\n{}</rdf:RDF>\n", RDF, nodes.collect::<String>())
        }
        _ => lines
            .into_iter()
            .map(|(s, p, o, g)| {
                let s = if blank(&s) { format!("_:{s}") } else { format!("<{s}>") };
                let g = if kind == "nq" && g > 0 { format!(" <http://example.org/g{g}>") } else { String::new() };
                format!("{s} <{p}> \"{o}\"{g} .\n")
            })
            .collect(),
    }
}

fn convert(c: &mut Case<'_>, scratch: &Scratch, large: bool) -> Check {
    let (kind, from) = FROM[c.index as usize % FROM.len()];
    let to = if kind == "nq" { *c.rng.pick(&["n-quads", "trig", "n-quads", "trig", "turtle"]) } else { *c.rng.pick(TO) };
    let mut b = if large { large_document(c, kind) } else { document(c, kind) }.into_bytes();
    if !large && c.rng.chance(1, 5) {
        mutate_bytes(&mut c.rng, &mut b);
    }
    let read = read_with(kind, &mut &b[..]);
    let mut cmd = tool();
    let mut said = vec![];
    if c.rng.chance(1, 5) {
        let level = *c.rng.pick(&["none", "errors", "warnings", "information", "debugging", "tracing"]);
        cmd.args(["--log-filter", level]);
        said.push(level);
        c.count("with a log", 1);
    }
    if c.rng.chance(1, 6) {
        cmd.env("RUST_LOG", c.rng.pick(&["trace", "error", "rdftk_io=debug", "rdftk=trace"]));
        said.push("RUST_LOG");
        c.count("with a log of the environment's", 1);
    }
    if c.rng.chance(1, 8) {
        cmd.arg("--no-color");
    }
    cmd.arg("convert");
    cmd.arg(if c.rng.bool() { "-f" } else { "--from" }).arg(from);
    if to != "turtle" || c.rng.bool() {
        cmd.arg(if c.rng.bool() { "-t" } else { "--to" }).arg(to);
    }
    let (inp, outp) = (scratch.file(c, "in"), scratch.file(c, "out"));
    let by_file = c.rng.bool();
    if by_file {
        std::fs::write(&inp, &b).map_err(|e| e.to_string())?;
        cmd.arg(if c.rng.bool() { "-i" } else { "--input" }).arg(&inp);
    } else if c.rng.bool() {
        cmd.args(["-i", "-"]);
    }
    let to_file = c.rng.bool();
    if to_file {
        if c.rng.bool() {
            // one that is there already, and longer
            std::fs::write(&outp, "x".repeat(100_000)).map_err(|e| e.to_string())?;
            c.count("output files there before", 1);
        }
        cmd.arg(if c.rng.bool() { "-o" } else { "--output" }).arg(&outp);
    } else if c.rng.bool() {
        cmd.args(["-o", "-"]);
    }
    let what = format!("{from} to {to} {said:?} of {:?}", String::from_utf8_lossy(&b));
    let r = run(c, cmd, (!by_file).then_some(&b[..]), None)?;
    let out = if to_file { std::fs::read(&outp).unwrap_or_default() } else { r.out.clone() };
    let kept = if by_file { std::fs::read(&inp).unwrap_or_default() == b } else { true };
    let _ = (std::fs::remove_file(&inp), std::fs::remove_file(&outp));
    ensure!(kept, "{what}: the input file is changed");
    ensure!(!to_file || r.out.is_empty(), "{what}: writes to the standard output as well");
    let can = match (&read, kind, to) {
        (Err(_), _, _) => false,
        (_, "nq", "turtle") => false,
        (_, _, "xml") => writable(kind, &b),
        _ => true,
    };
    if !can {
        failed(c, &r, &what)?;
        if read.is_err() {
            ensure!(out.is_empty() || to_file, "{what}: writes {:?} of a document that it refuses", String::from_utf8_lossy(&out));
        }
        c.count("refused", 1);
        c.distinct(&(from, to, &b));
        return Ok(());
    }
    ensure_eq!(r.code, Some(0), "{what}: the exit status; {}", r.err);
    ensure!(!said.is_empty() || r.err.is_empty(), "{what}: says {:?}", r.err);
    let out = String::from_utf8(out).map_err(|e| format!("{what}: not UTF-8: {e}"))?;
    let got = quads_of(to, &out).map_err(|e| format!("{what}: writes what is not {to}: {e}: {out:?}"))?;
    let mut want = read.unwrap();
    if to != "n-quads" && to != "trig" {
        want.iter_mut().for_each(|q| q.1 = None);
    }
    let dedup = |v: &[Quad]| v.iter().cloned().collect::<std::collections::BTreeSet<_>>().into_iter().collect::<Vec<_>>();
    same_quads(&dedup(&got), &dedup(&want), &format!("{what}: {out:?}"))?;
    c.count(&format!("from {from}"), 1);
    c.count(&format!("to {to}"), 1);
    c.count("statements", want.len() as u64);
    if large {
        ensure!(want.len() >= 300, "{what}: {} statements read", want.len());
        c.count(&format!("large {from}"), 1);
        c.count("large", 1);
    }
    c.distinct(&(from, to, &b));
    c.sample(|| format!("{from} to {to}: {out}"));
    Ok(())
}

fn draw(c: &mut Case<'_>, scratch: &Scratch) -> Check {
    let (kind, from) = FROM[c.index as usize % FROM.len()];
    let mut b = document(c, kind).into_bytes();
    if c.rng.chance(1, 6) {
        mutate_bytes(&mut c.rng, &mut b);
    }
    let (inp, outp) = (scratch.file(c, "in"), scratch.file(c, "out"));
    let mut cmd = tool();
    cmd.args(["draw", "-f", from]);
    let by_file = c.rng.bool();
    if by_file {
        std::fs::write(&inp, &b).map_err(|e| e.to_string())?;
        cmd.arg(if c.rng.bool() { "-i" } else { "--input" }).arg(&inp);
    }
    let to_file = c.rng.bool();
    if to_file {
        if c.rng.bool() {
            std::fs::write(&outp, "x".repeat(50_000)).map_err(|e| e.to_string())?;
        }
        cmd.arg(if c.rng.bool() { "-o" } else { "--output" }).arg(&outp);
    }
    let mut r = run(c, cmd, (!by_file).then_some(&b[..]), None)?;
    let kept = !by_file || std::fs::read(&inp).unwrap_or_default() == b;
    let what = format!("drawing {from}: {:?}", String::from_utf8_lossy(&b));
    ensure!(kept, "{what}: the input file is changed");
    if to_file {
        ensure!(r.out.is_empty(), "{what}: writes to the standard output as well");
        r.out = std::fs::read(&outp).unwrap_or_default();
    }
    let _ = (std::fs::remove_file(&inp), std::fs::remove_file(&outp));
    if kind == "nq" {
        ensure!(r.out.is_empty() || to_file, "{what}: a data set is drawn");
        return failed(c, &r, &what);
    }
    if read_with(kind, &mut &b[..]).is_err() {
        ensure!(r.out.is_empty() || to_file, "{what}: draws what it refuses");
        c.count("drawings refused", 1);
        return failed(c, &r, &what);
    }
    let mut src = &b[..];
    let g: Graph = match kind {
        "nt" => NTripleReader::default().read(&mut src),
        "json" => JsonReader::default().read(&mut src),
        _ => XmlReader::default().read(&mut src),
    }
    .map_err(|e| format!("{what}: {e}"))?;
    ensure_eq!(r.code, Some(0), "{what}: the exit status; {}", r.err);
    let text = String::from_utf8(r.out).map_err(|e| format!("{what}: {e}"))?;
    dot::judge_plain(&text, &from_lib_graph(&g), g.prefix_mappings())?;
    c.count("drawings", 1);
    c.distinct(&("draw", from, &b));
    Ok(())
}

fn faults(c: &mut Case<'_>, scratch: &Scratch) -> Check {
    let (kind, from) = FROM[c.index as usize % FROM.len()];
    let mut b = document(c, kind).into_bytes();
    while read_with(kind, &mut &b[..]).map_or(true, |v| v.is_empty()) {
        b = document(c, kind).into_bytes();
    }
    let to = if kind == "nq" { *c.rng.pick(&["n-quads", "trig"]) } else { *c.rng.pick(&["json", "n-quads", "n-triples", "trig", "turtle"]) };
    let inp = scratch.file(c, "in");
    let mut cmd = tool();
    let drawing = kind != "nq" && c.rng.chance(1, 5);
    if drawing {
        cmd.args(["draw", "-f", from]);
    } else {
        cmd.args(["convert", "-f", from, "-t", to]);
    }
    let fault = *c.rng.pick(&["full device as standard output", "full device as output file", "closed pipe", "no such input", "a directory to read", "no such directory to write", "no such representation"]);
    let what = format!("{fault}: {} of {from} to {to}: {:?}", if drawing { "drawing" } else { "conversion" }, String::from_utf8_lossy(&b));
    let given = !matches!(fault, "no such input" | "a directory to read");
    if given {
        std::fs::write(&inp, &b).map_err(|e| e.to_string())?;
        cmd.arg("-i").arg(&inp);
    }
    let full = || std::fs::OpenOptions::new().write(true).open("/dev/full");
    let mut stdout = None;
    match fault {
        "full device as standard output" => stdout = Some(Stdio::from(full().map_err(|e| e.to_string())?)),
        "full device as output file" => {
            cmd.args(["-o", "/dev/full"]);
        }
        "closed pipe" => {
            // a pipe whose reader has ended
            let mut t = spawn(Command::new("true").stdin(Stdio::piped())).map_err(|e| e.to_string())?;
            let w = t.stdin.take().expect("a pipe");
            t.wait().map_err(|e| e.to_string())?;
            stdout = Some(Stdio::from(w));
        }
        "no such input" => {
            cmd.arg("-i").arg(scratch.0.join("nothing"));
        }
        "a directory to read" => {
            cmd.arg("-i").arg(&scratch.0);
        }
        "no such directory to write" => {
            cmd.arg("-o").arg(scratch.0.join("nothing").join("out"));
        }
        _ => {
            cmd = tool();
            cmd.args(["convert", "-f", c.rng.pick(&["NTriples", "csv", "", "n-triples,xml"]), "-i"]).arg(&inp);
        }
    }
    let to_device = stdout.is_some();
    let r = run(c, cmd, None, Some(stdout.unwrap_or_else(Stdio::null)))?;
    let kept = !given || std::fs::read(&inp).unwrap_or_default() == b;
    let _ = std::fs::remove_file(&inp);
    ensure!(kept, "{what}: the input file is changed");
    if r.code == Some(0) && to_device {
        fail!("{what}: nothing could be written, and the exit status is 0");
    }
    failed(c, &r, &what)?;
    c.count(fault, 1);
    c.distinct(&(fault, from, to, &b));
    Ok(())
}

/// The reader of the tool's output goes away after some bytes of many.
fn cut_off(c: &mut Case<'_>) -> Check {
    let (kind, from) = FROM[c.index as usize % FROM.len()];
    let b = large_document(c, kind).into_bytes();
    let drawing = kind != "nq" && c.rng.chance(1, 4);
    let to = if kind == "nq" { *c.rng.pick(&["n-quads", "trig"]) } else { *c.rng.pick(&["json", "n-quads", "n-triples", "trig", "turtle"]) };
    let mut cmd = tool();
    if drawing {
        cmd.args(["draw", "-f", from]);
    } else {
        cmd.args(["convert", "-f", from, "-t", to]);
    }
    cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let what = format!("{} a large document of {from} to {to}, of which a part is read", if drawing { "drawing" } else { "converting" });
    let mut child = spawn(&mut cmd).map_err(|e| format!("the tool does not start: {e}"))?;
    let (mut stdin, mut stdout, mut stderr) = (child.stdin.take().expect("a pipe"), child.stdout.take().expect("a pipe"), child.stderr.take().expect("a pipe"));
    let wanted = *c.rng.pick(&[1usize, 100, 4096, 20_000]);
    let (out, err) = std::thread::scope(|s| {
        let feeder = s.spawn(move || {
            let _ = stdin.write_all(&b);
        });
        let errors = s.spawn(move || {
            let mut e = vec![];
            let _ = stderr.read_to_end(&mut e);
            String::from_utf8_lossy(&e).to_string()
        });
        let mut o = vec![0; wanted];
        let got = stdout.read_exact(&mut o).map(|_| o.len());
        drop(stdout);
        let _ = feeder.join();
        (got, errors.join().unwrap_or_default())
    });
    let status = child.wait().map_err(|e| e.to_string())?;
    c.count("processes", 1);
    let got = out.map_err(|e| format!("{what}: {e}: {err}"))?;
    ensure_eq!(got, wanted, "{what}");
    failed(c, &Ran { code: status.code(), out: vec![], err }, &what)?;
    c.count("outputs cut off", 1);
    c.distinct(&(from, to, drawing, wanted, c.index));
    Ok(())
}

pub fn t01(r: &mut Runner) {
    r.rule("The tool run as processes on generated and damaged documents, between all representations that have a reader and those that have a writer, by files and by pipes, with and without a log; what it writes is parsed with a strict parser of the representation and compared with what the library reads, and so are its exit status, its messages, and its conduct when it can not read or write. Distinct by document and representations.");
    r.assume("The representations without a reader (Turtle, TriG, N3, JSON-LD) or a writer (N3, JSON-LD), and the namespace command, are not written yet: the tool panics with 'not yet implemented'. The library's readers and writers are judged by W01 to W09.");
    let scratch = Scratch::new();
    ensure_tool();
    let n = r.n(2_000, 10);
    r.section("conversions", n, |c| convert(c, &scratch, false));
    let n = r.n(40, 8);
    r.section("large documents", n, |c| convert(c, &scratch, true));
    let n = r.n(32, 8);
    r.section("outputs cut off", n, cut_off);
    let n = r.n(320, 10);
    r.section("drawings", n, |c| draw(c, &scratch));
    let n = r.n(700, 10);
    r.section("faults", n, |c| faults(c, &scratch));
    for e in ["from n-triples", "from json", "from xml", "from n-quads", "to json", "to n-quads", "to n-triples", "to trig", "to turtle", "to xml", "drawings", "refused", "output files there before", "with a log"] {
        r.require(e, 60);
    }
    r.require("large", 25);
    r.require("outputs cut off", 25);
    r.require("drawings refused", 10);
    for e in ["full device as standard output", "full device as output file", "closed pipe", "no such input", "a directory to read", "no such directory to write", "no such representation"] {
        r.require(e, 30);
    }
    drop(scratch);
}

fn ensure_tool() {
    let r = tool().arg("--version").stdout(Stdio::null()).status();
    if !r.is_ok_and(|s| s.success()) {
        eprintln!("the tool does not run");
        std::process::exit(3);
    }
}
