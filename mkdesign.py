"""Writes the part of DESIGN.md from '## Properties' on, from techniques.json, properties.jsonl, the rules and KNOWN_FINDINGS.txt (seeds: names and what they break, from their own descriptions)."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
T = json.load(open(V + "/techniques.json"))
P = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
D = open(V + "/DESIGN.md").read()
D = D[:D.index("## Properties") if "## Properties" in D else D.index("PROPERTY-TABLE")].rstrip() + "\n\n## Properties\n"
for p in P:
    i = p["id"]
    D += "\n### %s %s\n\n" % (i, p["title"])
    if i in T["checks"]:
        m = importlib.import_module("rules." + i.lower())
        doc = " ".join((m.__doc__ or "").split())
        ass = getattr(m, "ASSUME", [])
        D += "* Decided by: %s\n* Rule (`rules/%s.py`): %s\n* Scope: %s\n" % (T["checks"][i]["technique"], i.lower(), doc, T["checks"][i]["note"])
        if ass:
            D += "* Assumed: %s\n" % "; ".join(ass)
    else:
        D += "Not applicable: %s\n" % T["not_applicable"].get(i, "")
K = [l.strip() for l in open(V + "/KNOWN_FINDINGS.txt") if l.startswith(("known:", "fixed:"))]
D += "\n## Genuine defects found on the unchanged tree\n\nRepaired, each by a `fix:` commit of its own:\n\n"
for l in K:
    if l.startswith("fixed:"):
        _, p, h, what = l.split(" ", 3)
        D += "* %s, `%s`: %s\n" % (p.split("=")[1], h, what)
D += "\nRecorded as known findings (the keys contain what is observed, so that another failure at the same place is reported):\n\n"
for l in K:
    if l.startswith("known:"):
        _, p, r = l.split(" ", 2)
        D += "* %s: %s\n" % (p.split("=")[1], r[4:] if r.startswith("key=") else r)
D += "\n## Planted changes\n\nEach compiles, passes the stable tests, has a demonstration, and is reported by the check of its own property.\n\n| change | caught by | what it breaks | what it needs |\n|---|---|---|---|\n"
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    D += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"))
open(V + "/DESIGN.md", "w").write(D)
