#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md (section 2) from tools/design2.md, seeded/ and the catalogue; run by hand."""
import os, json, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = open(V + "/DESIGN.md").read().split("## 2. Properties")[0]; s = open(V + "/tools/design2.md").read()
t = "| bug | caught by | needs |\n|---|---|---|\n" + "".join("| %s | %s | %s |\n" % (os.path.basename(d), json.load(open(d + "/meta.json"))["property"], json.load(open(d + "/meta.json"))["needs"]) for d in sorted(glob.glob(V + "/seeded/*")))
m = json.load(open(V + "/MANIFEST.json")); n = "".join("* %s: %s\n" % (x["property"], x["reason"]) for x in m["not_applicable"])
open(V + "/DESIGN.md", "w").write(head + s.replace("@TABLE@", t.rstrip()).replace("@NA@", n.rstrip()))
