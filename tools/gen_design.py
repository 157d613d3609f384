"""Writes DESIGN.md from the hand-written parts, the check modules, the findings and the sweep results."""
import ast
import json
from pathlib import Path

here = Path(__file__).resolve().parent
root = here.parent
props = [json.loads(l) for l in (root / "properties.jsonl").read_text().splitlines()]
catch = json.loads((here / "catches.json").read_text())


def module(pid):
    ns = {}
    for node in ast.parse((root / "mc" / "checks" / f"{pid.lower()}.py").read_text()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                ns[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return ns


def bugs():
    out = {}
    for d in sorted((root / "seeded").iterdir()):
        m = json.loads((d / "meta.json").read_text())
        out[d.name] = m
    return out


B = bugs()
o = [(here / "design_head.md").read_text().rstrip(), "", "## 2. Properties and how each is decided", ""]
for p in props:
    m = module(p["id"])
    ev = root / "evidence" / f"{p['id']}.json"
    o += [f"### {p['id']} {p['title']}", "", f"*Specified*: {p['statement']}", "", f"*Quantified over*: {p['quantifier']['text']}", "",
          f"*Decided by* ({m['LEVEL']}): {m['TECHNIQUE']}. {m['NOTE']}", "", f"*Enumerated*: {m['RULE']}", ""]
    if m.get("ASSUMPTIONS"):
        o += ["*Assumptions and exclusions*: " + "; ".join(m["ASSUMPTIONS"]) + ".", ""]
    o += [f"*Beyond the tests*: {p['why_tests_cant']}", ""]
    if ev.exists():
        e = json.loads(ev.read_text())
        if e["tier"] == "quick":
            c = e["coverage"]
            extra = "".join(f", {c[k]} {n}" for k, n in (("states", "states"), ("transitions", "transitions"), ("traces_validated_against_impl", "traces of the implementation")) if c.get(k))
            o += [f"*Quick tier, last measured*: {c['evaluations']} evaluations, {c['distinct_nontrivial']} distinct{extra}.", ""]
    mine = [b for b, d in B.items() if d["property"] == p["id"]]
    if mine:
        o += ["*Planted changes caught*: " + (", ".join(b for b in mine if catch.get(b, {}).get("verdict") == "caught") or "none") + ".", ""]
        bad = [b for b in mine if catch.get(b, {}).get("verdict") != "caught"]
        if bad:
            o += ["*Planted changes missed*: " + ", ".join(bad) + ".", ""]
o += ["## 3. Genuine defects found", "", "All were repaired by `fix:` commits in /repo; `KNOWN_FINDINGS` lists them and has no open entry. Each was shown against the real code first; the check reports it again if it returns.", "",
      "| property | commit | what failed |", "|---|---|---|"]
for l in (root / "KNOWN_FINDINGS").read_text().splitlines():
    if l.startswith("fixed:"):
        _, pr, c, what = l.split(" ", 3)
        o.append(f"| {pr.split('=')[1]} | {c} | {what} |")
o += ["", (here / "design_tail.md").read_text().rstrip(), "", "| change | property | verdict | needs |", "|---|---|---|---|"]
for b, d in B.items():
    o.append(f"| {b} | {d['property']} | {catch.get(b, {}).get('verdict', 'not run')} | {d['needs']} |")
(root / "DESIGN.md").write_text("\n".join(o) + "\n")
print(len(o), "lines", sum(1 for b in B if catch.get(b, {}).get("verdict") == "caught"), "of", len(B), "caught")
