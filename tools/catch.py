#!/usr/bin/env python3
"""catch.py [BUG...]: apply each planted bug to /repo, run the check of its property, and undo it."""
import json, os, re, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:] or sorted(os.listdir(ROOT + "/seeded"))
assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout.strip()
missed = []
for b in args:
    d = ROOT + "/seeded/" + b
    prop = json.load(open(d + "/meta.json"))["property"]
    subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    try:
        r = subprocess.run([ROOT + "/check.sh", prop], capture_output=True, text=True, timeout=1200)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    caught = r.returncode == 1 and "VIOLATION property=%s " % prop in r.stdout
    if not caught:
        missed.append(b)
    line = re.search(r"^  section .*", r.stdout, re.M)
    print("caught" if caught else "MISSED rc=%d" % r.returncode, b, prop, (line[0][:160] if line else (r.stdout + r.stderr)[-300:]), flush=True)
print(len(args) - len(missed), "of", len(args), "caught; missed:", missed)
