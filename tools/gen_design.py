"""Fills DESIGN.md's generated parts from tools/design.in.md, properties.jsonl, the checks and known_findings.json."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(f"{HERE}/properties.jsonl")]
man = {c["property"]: c for c in json.load(open(f"{HERE}/MANIFEST.json"))["checks"]}


def consts(p):
    out = {}
    for n in ast.parse(open(f"{HERE}/sim/p_{p.lower()}.py").read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


parts = []
for p in props:
    c = consts(p["id"])
    parts.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n*Decided by:* {c['RULE']}.\n\n*Why tests cannot:* {p['why_tests_cant']}\n\n"
                 f"*Assumptions:* {'; '.join(c['ASSUMPTIONS'])}. *Runs:* {c['RUNS']['quick']} quick, {c['RUNS']['thorough']} thorough. {man[p['id']]['level_note']}")
fixed = "\n".join("* " + x.removeprefix("fixed: ") for x in json.load(open(f"{HERE}/known_findings.json"))["fixed"])
def caught(m):
    c = m.get("caught") or {}
    return ", ".join(sorted(k for k, v in c.items() if v == 1)) or "not caught"


rows = []
sd = f"{HERE}/seeded"
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(f"{sd}/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {caught(m)} |")
seeded = "| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n" + "\n".join(rows) if rows else "(none yet)"
s = open(f"{HERE}/tools/design.in.md").read()
s = s.replace("@@PROPS@@", "\n\n".join(parts)).replace("@@FIXED@@", fixed).replace("@@SEEDED@@", seeded)
open(f"{HERE}/DESIGN.md", "w").write(s)
