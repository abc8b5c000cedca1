#!/usr/bin/env python3
"""Mechanical mutants of the sources, to find what the checks do not see.

mutants.py list FILE-REGEX            how many there are
mutants.py run WORKERS OUT [REGEX [EVERY]]   run the checks on copies with each in turn; survivors go to OUT
Copies of /repo and /verif are made under /tmp/mut, and removed at the end.
"""
import re, os, sys, subprocess, shutil, hashlib, threading, queue, json

REPO = "/repo"
CHECKS = [
    (r"rdftk_iri/", "I01 I02 I03 I04 I05 I06 I07 I08 I09 I10"),
    (r"rdftk_names/", "N01 C01 C02"),
    (r"rdftk_core/", "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 W01 W03 W07"),
    (r"rdftk_io/src/nt/|parser/ntriples", "W01 W02 W12 W11 W03"),
    (r"rdftk_io/src/nq/|parser/nquads", "W03 W12 W11"),
    (r"parser/", "W02 W03 W10 W01"),
    (r"rdftk_io/src/json/", "W04 W10 W11 W12"),
    (r"rdftk_io/src/xml/writer|xml/syntax|xml/mod", "W05 W11 W12"),
    (r"rdftk_io/src/xml/reader", "W06 W05 W10 W11"),
    (r"rdftk_io/src/turtle/", "W07 W08 W11 W12"),
    (r"rdftk_io/src/trig/", "W08 W11 W12"),
    (r"rdftk_io/src/common/", "W07 W05 W08"),
    (r"rdftk_io/src/dot/", "W09 W11 W12"),
    (r"rdftk_cli/", "T01"),
]

def files():
    out = subprocess.run(["git", "-C", REPO, "ls-files", "rdftk_iri/src", "rdftk_names/src/lib.rs", "rdftk_core/src", "rdftk_io/src", "rdftk_cli/src"], capture_output=True, text=True).stdout.split()
    skip = ("json_ld/", "n3/", "parser/trig.rs", "parser/turtle.rs", "parser/n3.rs", "turtle/reader", "trig/reader", "formulae", "queries.rs", "namespaces.rs", "simple/")
    return [f for f in out if f.endswith(".rs") and not any(s in f for s in skip)]

OPS = [
    (r" == ", [" != "]), (r" != ", [" == "]),
    (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]),
    (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \+= ", [" -= "]), (r"\.\.=", [".."]), 
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"(?<=[ (])!(?=[a-z(])", [""]),
    (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]), (r"\.is_ok\(\)", [".is_err()"]),
    (r"\.any\(", [".all("]), (r"\.all\(", [".any("]),
    (r"\.starts_with\(", [".ends_with("]), (r"\.ends_with\(", [".starts_with("]),
    (r"\bunwrap_or\(", None),
    (r"(?<![\w.'\"])(\d+)(?![\w.'\"])", "int"),
    (r"0x[0-9A-Fa-f]+|u\{[0-9A-Fa-f]+\}", "hex"),
    (r'"(?:[^"\\]|\\.)+"', "str"),
    (r"'(?:[^'\\]|\\.|\\u\{[0-9A-Fa-f]+\})'", "char"),
    (r"\.rev\(\)", [""]), (r"\.clone\(\)\.or\(", None), (r"\.sort\(\);", [".len();"]), (r"\.dedup\(\);", [".len();"]),
    (r"\bif let Some\((\w+)\) = ", None),
    (r"\bif (?!let)(.*) \{$", "cond"),
    (r"\belse if (?!let)(.*) \{$", "cond"),
    (r"\.min\(", [".max("]), (r"\.max\(", [".min("]),
    (r"\.first\(\)", [".last()"]), (r"\.last\(\)", [".first()"]),
    (r"\.subject\(\)", [".object()"]), (r"\.or_default\(\)", None),
    (r"^\s+[\w.&*]+(?:\.\w+|!)\(.*\)\??;$", "stmt"),
    (r"^\s+[\w.]+ = .*;$", "stmt"),
    (r"^\s+return .*;$", "stmt"),
    (r"^\s+\.\w+\([^()]*\)$", "chain"),
    (r" => ", "arm"),
]

def mutants(f):
    src = open(os.path.join(REPO, f)).read()
    lines = src.split("\n")
    out = []
    in_test = False
    in_macro = False
    for n, line in enumerate(lines):
        s = line.strip()
        if s.startswith("#[cfg(test)]"):
            break
        if not s or s.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod", "trace!", "error!", "trace_event", "info!", "unimplemented", "todo", "unreachable", "debug_assert", "eprintln!")):
            continue
        if re.search(r"\b(trace|error|info|debug|error_event|trace_event|trace_span|panic|unreachable|expect)\b!?\(", line) and not "return" in line:
            continue
        if s.startswith(("pub const", "pub fn", "fn ", "pub(crate) fn", "impl", "where", "pub struct", "struct", "pub enum", "enum", "type ", "pub type")) and not s.startswith("pub const"):
            continue
        code = line
        strings = [(m.start(), m.end()) for m in re.finditer(r'"(?:[^"\\]|\\.)*"', code)]
        inside = lambda i: any(a < i < b for a, b in strings)
        seen = set()
        def add(a, b, new, what):
            m = code[:a] + new + code[b:]
            if m != code and m not in seen:
                seen.add(m)
                out.append((f, n, m, what))
        for pat, to in OPS:
            if to is None:
                continue
            for m in re.finditer(pat, code):
                if inside(m.start()) and to != "str":
                    continue
                if isinstance(to, list):
                    for t in to:
                        add(m.start(), m.end(), t, pat)
                elif to == "int":
                    v = int(m.group(1))
                    add(m.start(1), m.end(1), str(v + 1), "int")
                    if v > 0:
                        add(m.start(1), m.end(1), str(v - 1), "int")
                elif to == "hex":
                    t = m.group(0)
                    h = re.search(r"[0-9A-Fa-f]+(?=\}?$)", t)
                    v = int(h.group(0), 16)
                    for d in (1, -1):
                        if v + d >= 0:
                            add(m.start(), m.end(), t[:h.start()] + ("%X" % (v + d)) + t[h.end():], "hex")
                elif to == "str":
                    t = m.group(0)
                    if t == '"{}"':
                        continue
                    add(m.start(), m.end(), '"' + (t[2:] if t[1] not in "\\{" else "x" + t[1:]), "str")
                    add(m.start(), m.end(), t[:-1] + 'x"', "str")
                elif to == "char":
                    add(m.start(), m.end(), "'§'" , "char")
                elif to == "cond":
                    if re.search(r"&& let|\blet\b", m.group(1)):
                        continue
                    add(m.start(1), m.end(1), "true", "cond")
                    add(m.start(1), m.end(1), "false", "cond")
                elif to == "stmt":
                    add(0, len(code), "", "stmt")
                elif to == "chain":
                    add(0, len(code), "", "chain")
                elif to == "arm":
                    if s.startswith(("_ =>", "Ok(", "Err(")) or "if " in s:
                        continue
                    add(m.start(), m.end(), " if false => ", "arm")
    return out

def all_mutants(rx):
    return [m for f in files() if re.search(rx, f) for m in mutants(f)]

def checks(f):
    for rx, c in CHECKS:
        if re.search(rx, f):
            return c.split()
    return []

def worker(w, q, out, lock, env0):
    base = "/tmp/mut/w%d" % w
    repo, ver = base + "/repo", base + "/verif"
    os.makedirs(base, exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude=target", "--exclude=.git", REPO + "/", repo + "/"], check=True) if shutil.which("rsync") else shutil.copytree(REPO, repo, ignore=shutil.ignore_patterns("target", ".git"), dirs_exist_ok=True)
    shutil.copytree("/verif", ver, ignore=shutil.ignore_patterns("target", ".git", "seeded", "evidence"), dirs_exist_ok=True)
    os.makedirs(ver + "/evidence", exist_ok=True)
    for d, _, fs in os.walk(ver + "/harness"):
        for f in fs:
            if f.endswith((".toml", ".rs")):
                p = os.path.join(d, f)
                s = open(p).read()
                if "/repo" in s:
                    open(p, "w").write(s.replace("/repo/", repo + "/").replace('"/repo', '"' + repo))
    while True:
        try:
            f, n, text, what = q.get_nowait()
        except queue.Empty:
            break
        p = os.path.join(repo, f)
        src = open(p).read()
        lines = src.split("\n")
        old = lines[n]
        lines[n] = text
        open(p, "w").write("\n".join(lines))
        verdict = "SURVIVED"
        for c in checks(f):
            try:
                r = subprocess.run([ver + "/check.sh", c], capture_output=True, text=True, timeout=400)
            except subprocess.TimeoutExpired:
                verdict = "timeout " + c
                break
            if r.returncode == 3:
                verdict = "nobuild" if "does not build" in r.stderr else "noverdict " + c + " " + (r.stdout + r.stderr)[-150:].replace("\n", " ")
                break
            if r.returncode == 1:
                verdict = "caught " + c
                break
        open(p, "w").write(src)
        with lock:
            with open(out, "a") as o:
                o.write("%s\t%s:%d\t%s\t%s\t=>\t%s\n" % (verdict, f, n + 1, what, old.strip(), text.strip()))

if __name__ == "__main__":
    if sys.argv[1] == "list":
        ms = all_mutants(sys.argv[2] if len(sys.argv) > 2 else ".")
        by = {}
        for m in ms:
            by[m[0]] = by.get(m[0], 0) + 1
        for k, v in by.items():
            print(v, k)
        print(len(ms))
    else:
        workers, out = int(sys.argv[2]), sys.argv[3]
        rx = sys.argv[4] if len(sys.argv) > 4 else "."
        every = int(sys.argv[5]) if len(sys.argv) > 5 else 1
        done = set()
        if os.path.exists(out):
            for l in open(out):
                c = l.rstrip("\n").split("\t")
                done.add((c[1], c[3], c[5]))
        ms = [m for m in all_mutants(rx) if int(hashlib.md5(repr(m).encode()).hexdigest(), 16) % every == 0]
        q = queue.Queue()
        k = 0
        for m in ms:
            old = open(os.path.join(REPO, m[0])).read().split("\n")[m[1]].strip()
            if ("%s:%d" % (m[0], m[1] + 1), old, m[2].strip()) in done:
                continue
            q.put(m)
            k += 1
        print(k, "mutants")
        lock = threading.Lock()
        ts = [threading.Thread(target=worker, args=(w, q, out, lock, None)) for w in range(workers)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        for w in range(workers):
            shutil.rmtree("/tmp/mut/w%d" % w, ignore_errors=True)
