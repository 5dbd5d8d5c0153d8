"""Appends the generated part (findings, planted bugs) to DESIGN.md, between the two marks."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mark = "<!-- generated: tools/gen_design_tables.py -->"
out = [mark, "", "## Findings", ""]
d = json.load(open(root + "/known_findings.json"))["findings"]
for x in d:
    if x["status"] == "fixed":
        t = x.get("line") or x["what"]
        t = re.sub(r"^fixed: ", "", t)
        m = re.match(r"property=(\S+) (\S+) (.*)", t, re.S)
        out.append(f"* fixed, {m[1]} ({m[2]}): {m[3]}")
for x in d:
    if x["status"] != "fixed":
        out.append(f"* known, {x['property']}: {x['what']}")
out += ["", "## Planted bugs", "", "All are caught by the check of their own property (`tools/seed.py ID --check`).", "",
        "| Bug | Property | Needs |", "|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    out.append(f"| {f.split('/')[-2]} | {m['property']} | {' '.join(m['needs'].split())} |")
p = root + "/DESIGN.md"
s = open(p).read().split(mark)[0].rstrip()
open(p, "w").write(s + "\n\n" + "\n".join(out) + "\n")
