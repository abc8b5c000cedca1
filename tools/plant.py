#!/usr/bin/env python3
"""plant.py FILE...: make planted bugs from descriptions, in a scratch copy of /repo.

Each FILE is Python that calls bug(id, property, edits, demo, needs, breaks), where edits is a list of
(path, old, new) on /repo and demo the main.rs of a small program (or, for the command line tool, a shell script)
that fails with the change. A bug is kept under seeded/<id> once its demo passes without and fails with the
change, and the tests of the crates pass with it as they do without.
"""
import json, os, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = "/tmp/plant"
REPO = SCRATCH + "/repo"
ENV = dict(os.environ, CARGO_TARGET_DIR=SCRATCH + "/target", CARGO_NET_OFFLINE="true")

CARGO = """[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
rdftk_iri = { path = "@REPO@/rdftk_iri"%s }
rdftk_names = { path = "@REPO@/rdftk_names" }
rdftk_core = { path = "@REPO@/rdftk_core" }
rdftk_io = { path = "@REPO@/rdftk_io" }
%s
[profile.dev]
debug = 0
"""
IRI_ONLY = re.compile(r"^rdftk_(names|core|io).*\n", re.M)

SH = """#!/bin/sh
# Builds the program beside this file against the crates in the current directory, and runs it.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
repo=$(pwd)
work=$(mktemp -d) || exit 2
trap 'rm -r "$work"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
sed "s|@REPO@|$repo|" "$here/Cargo.toml.in" > "$work/Cargo.toml"
if [ -f "$repo/Cargo.lock" ]; then cp "$repo/Cargo.lock" "$work/Cargo.lock"; fi
CARGO_TARGET_DIR=${CARGO_TARGET_DIR:-$work/target} cargo build --offline -q --manifest-path "$work/Cargo.toml" || exit 2
cd "$work" && timeout 120 "${CARGO_TARGET_DIR:-$work/target}/debug/demo"
"""


def sh(cmd, cwd=REPO, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout)


UNITS = [("rdftk_iri", "--lib --tests"), ("rdftk_names", "--lib"),
         ("rdftk_core", "--lib --test data_sets --test literals --test resources --test skolemize --test statements"),
         ("rdftk_io", "--lib --test read_json --test read_nq --test read_nt --test read_xml --test w3c_nt")]


def tests():
    """The tests that fail; None when a crate does not compile."""
    failing = set()
    for package, what in UNITS:
        out = sh("cargo test --offline -q -p %s %s --no-fail-fast 2>&1" % (package, what)).stdout
        if "could not compile" in out:
            return None, out
        failing |= {package + " " + t for t in re.findall(r"^---- (.*) stdout ----$", out, re.M)}
    return failing, ""


def fresh():
    os.makedirs(SCRATCH, exist_ok=True)
    if not os.path.isdir(REPO):
        subprocess.check_call(["git", "clone", "-q", "/repo", REPO])
        if os.path.exists("/repo/Cargo.lock"):
            shutil.copy("/repo/Cargo.lock", REPO)
    sh("git checkout -q -- . && git fetch -q origin && git reset -q --hard origin/HEAD")


BASE = {}


def bug(id, property, edits, demo, needs, breaks, deps="", iri_features="", only=None):
    if WANT and id not in WANT:
        return
    fresh()
    head = sh("git rev-parse HEAD").stdout
    if head not in BASE:
        BASE[head] = tests()[0]
    d = SCRATCH + "/" + id
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    cargo = CARGO % (iri_features, deps)
    if "rdftk_io" not in demo and "rdftk_core" not in demo and "rdftk_names" not in demo:
        cargo = IRI_ONLY.sub("", cargo)
    elif "rdftk_io" not in demo:
        cargo = re.sub(r"^rdftk_io.*\n", "", cargo, flags=re.M)
    if demo.startswith("#!/"):
        open(d + "/demo.sh", "w").write(demo)
    else:
        open(d + "/demo.sh", "w").write(SH)
        open(d + "/main.rs", "w").write(demo)
        open(d + "/Cargo.toml.in", "w").write(cargo)
    os.chmod(d + "/demo.sh", 0o755)
    r = sh(d + "/demo.sh")
    if r.returncode != 0:
        print("FAIL", id, "the demo fails without the change:\n", (r.stdout + r.stderr)[-3000:])
        return
    for path, old, new in edits:
        p = os.path.join(REPO, path)
        s = open(p).read()
        if s.count(old) != 1:
            print("FAIL", id, path, "has", s.count(old), "times", repr(old))
            return
        open(p, "w").write(s.replace(old, new))
    blame = sh("git diff -U0").stdout
    diff = sh("git diff").stdout
    # removed lines must be of the original repository
    for path in {e[0] for e in edits}:
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", sh("git diff -U0 -- " + path).stdout, re.M):
            a, n = int(m[1]), int(m[2] or 1)
            if n:
                for l in sh("git blame -s -L%d,+%d HEAD -- %s" % (a, n, path)).stdout.splitlines():
                    if not l.startswith("^"):
                        print("FAIL", id, "changes a line that is not of the original:", l)
                        return
    failing, out = tests()
    if failing is None:
        print("FAIL", id, "does not compile:\n", out[-3000:])
        return
    if failing - BASE[head]:
        print("FAIL", id, "fails tests:", failing - BASE[head])
        return
    r = sh(d + "/demo.sh")
    if r.returncode in (0, 2):
        print("FAIL", id, "the demo exits", r.returncode, "with the change\n", (r.stdout + r.stderr)[-2000:])
        return
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": property, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    out = os.path.join(ROOT, "seeded", id)
    if os.path.isdir(out):
        shutil.rmtree(out)
    shutil.move(d, out)
    print("kept", id, property, "|", (r.stdout + r.stderr).strip().splitlines()[-1][:150] if (r.stdout + r.stderr).strip() else "")


args = sys.argv[1:]
WANT = set(a for a in args if not a.endswith(".py"))
for f in args:
    if f.endswith(".py"):
        exec(compile(open(f).read(), f, "exec"))
