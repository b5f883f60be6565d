"""Rewrites the list of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(os.path.join(H, "seeded", "*", "meta.json")):
    m = json.load(open(f))
    rows.append(f"* {m['property']} `{os.path.basename(os.path.dirname(f))}`: {m['what_it_breaks']}")
p = os.path.join(H, "DESIGN.md")
t = open(p).read()
a = t.index("## Planted bugs")
head, rest = t[:a], t[a:]
intro, _, tail = rest.partition("\n* P")
end = re.search(r"\n\n(?=[^*])", tail)
open(p, "w").write(head + intro + "\n" + "\n".join(sorted(rows)) + ("\n\n" + tail[end.end():] if end else "\n"))
