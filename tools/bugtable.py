"""Insert tools/bugs/results.txt (lines: id checks...) as a table into DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(V + "/tools/bugs/results.txt"):
    i, *r = l.split()
    res.setdefault(i, {}).update(x.split("=") for x in r)
rows = ["| change | breaks | caught by | missed by |", "|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    r = res.get(i, {})
    rows.append("| %s | %s | %s | %s |" % (i, m["what_it_breaks"], " ".join(sorted(k for k in r if r[k] == "1")) or "-",
                                       " ".join(sorted(k for k in r if r[k] != "1")) or "-"))
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- table -->.*<!-- end -->", lambda _: "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end -->", s, flags=re.S)
open(p, "w").write(s)
