"""fill the generated parts of DESIGN.md from meta/props.py, the evidence of the last run and seeded/*/meta.json"""
import glob, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "meta"))
import props
out = []
for p in sorted(props.PROPS, key=lambda p: p["id"]):
    f = f"{ROOT}/evidence/{p['id']}.json"
    c = json.load(open(f))["coverage"] if os.path.exists(f) else {"rules": {}}
    out.append(f"### {p['id']} — {p['title']}\n\n*Method:* {p['technique']}.  *Quantifier:* {p['quant']}.  *Why tests cannot:* {p['why']}\n\n*Oracle:* the statement, reduced to these rules over "
               + ", ".join(f"`{x}`" for x in p["files"]) + f" ({c.get('obligations', '?')} obligations on the current tree; bounds: none):\n")
    for n, r in c["rules"].items():
        out.append(f"* `{n}` ({r['obligations']}): {r['text'] or n}")
    out.append("")
na = [f"* **{p['id']} — {p['title']}**: {p['reason']}" for p in sorted(props.NA, key=lambda p: p["id"])]
sd = ["| planted bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
res = json.load(open(f"{ROOT}/meta/seeds/results.json")) if os.path.exists(f"{ROOT}/meta/seeds/results.json") else {}
for f in sorted(glob.glob(f"{ROOT}/seeded/*/meta.json")):
    m = json.load(open(f)); n = os.path.basename(os.path.dirname(f))
    sd.append(f"| {n} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {res.get(n, m['property'])} |")
s = open(f"{ROOT}/DESIGN.md").read()
for k, v in (("rules", out), ("na", na), ("seeds", sd)):
    s = re.sub(rf"(<!-- BEGIN GENERATED: {k} -->\n).*?(<!-- END GENERATED: {k} -->)", lambda m: m[1] + "\n".join(v) + "\n" + m[2], s, flags=re.S)
open(f"{ROOT}/DESIGN.md", "w").write(s)
