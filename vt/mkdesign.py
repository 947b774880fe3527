#!/usr/bin/env python3
"""writes DESIGN.md: prose + tables generated from the harnesses and the planted bugs"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = open(V + "/vt/DESIGN.head.md").read()
o += "## What each check explores\n\n"
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]; o += "### %s %s\n\n" % (i, p["title"])
    for h in sorted(glob.glob(V + "/harness/%s[_.]*" % i)):
        s = open(h).read(); m = re.search(r"/\*SPEC\s*(.*?)SPEC\*/", s, re.S)
        if not m:
            o += "* `%s`: the assembled instructions, every register and memory value (see vt/fctx.py); no bound.\n" % os.path.basename(h); continue
        d = json.loads(m.group(1))
        for e, v in d["entries"].items():
            o += "* `%s`%s: %s\n" % (e, " (threads)" if v.get("conc") else "", v["what"])
        o += "* bounds (`%s`): %s\n" % (os.path.basename(h), d.get("bounds", ""))
        for a in d.get("assumptions", []): o += "* assumes: %s\n" % a
    o += "\n"
o += "## Planted bugs\n\nResult of the property's quick check against each (`vt/seedtest.sh`).\n\n| id | property | needs | breaks | caught by |\n|---|---|---|---|---|\n"
R = json.load(open(V + "/vt/seed_results.json")) if os.path.exists(V + "/vt/seed_results.json") else {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f)); n = os.path.basename(os.path.dirname(f)); o += "| %s | %s | %s | %s | %s |\n" % (n, d["property"], d["needs"], d["what_it_breaks"], R.get(n, "?"))
o += open(V + "/vt/DESIGN.tail.md").read()
open(V + "/DESIGN.md", "w").write(o)
