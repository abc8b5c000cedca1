#!/usr/bin/env python3
"""Writes harness/core/src/terms_table.rs from rdftk_names' sources. Run by hand; the output is reviewed
against the published vocabularies and committed, so that a later change to a source is seen as a difference."""
import re, sys
base = "/repo/rdftk_names/src/"
mods = [("dc::dcam", "dc/dcam.rs", 0), ("dc::dcmi_type", "dc/dcmi_type.rs", 0), ("dc::elements", "dc/elements.rs", 0),
        ("dc::terms", "dc/terms.rs", 0), ("foaf", "foaf.rs", 0), ("geo", "geo.rs", 0), ("owl", "owl.rs", 0),
        ("rdf", "rdf.rs", 0), ("rdfs", "rdfs.rs", 0), ("skos", "skos.rs", 0), ("skos::xl", "skos.rs", 1),
        ("skos::iso", "skos.rs", 2), ("skos::term_status", "skos.rs", 3), ("xsd", "xsd.rs", 0)]
out = ["// Written by tools/gen_terms.py, then reviewed against the published vocabularies.\n", "vocabularies! {\n"]
for path, f, k in mods:
    s = re.sub(r"//[^\n\"]*\n", "\n", open(base + f).read())
    m = re.findall(r'namespace!\s*\{\s*"([^"]+)",\s*"([^"]+)",\s*\{(.*?)\}', s, re.S)[k]
    terms = re.findall(r'(\w+),\s*"([^"]+)"', m[2])
    out.append('    (%s, "%s", "%s", [\n' % (path, m[0], m[1]))
    out += ['        %s => "%s",\n' % t for t in terms]
    out.append("    ]),\n")
out.append("}\n")
open(sys.argv[1], "w").write("".join(out))
