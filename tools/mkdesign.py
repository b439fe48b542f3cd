"""Writes DESIGN.md from DESIGN.head.md-like text below, the BOUNDS / ASSUMPTIONS of the checks and seeded/*/meta.json."""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = open(os.path.join(V, "tools", "design_head.md")).read()
TAIL = open(os.path.join(V, "tools", "design_tail.md")).read()

# per property: (what decides it: oracle / exploration, why this reaches further than the tests)
from design_text import TEXT


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("BOUNDS", "ASSUMPTIONS"):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
parts = [HEAD, "\n## Per property\n"]
for p in props:
    i = p["id"]
    f = glob.glob(os.path.join(V, "checks", f"{i.lower()}_*.py"))[0]
    c = consts(f)
    t = TEXT[i]
    parts.append(f"### {i} — {p['title']}\n")
    parts.append(f"*Check:* `checks/{os.path.basename(f)}`. {t[0]}\n")
    b = c.get("BOUNDS", {})
    if isinstance(b, str):
        b = {"quick": b}
    if "quick" in b:
        parts.append(f"*Bounds (quick, {t[2]} on 8 cores):* {b['quick']}\n")
    if "thorough" in b and b["thorough"] != b["quick"]:
        parts.append(f"*Bounds (thorough):* {b['thorough']}\n")
    if c.get("ASSUMPTIONS"):
        parts.append("*Assumes:* " + "; ".join(c["ASSUMPTIONS"]) + ".\n")
    parts.append(f"*Beyond the tests:* {t[1]}\n")
parts.append("\n## Planted bugs\n\nEach was confirmed in a scratch copy (demo passes without, fails with it; the 561 stable tests pass with it). "
             "`tools/plant.py` repeats this.\n\n| id | property | needs | caught by |\n|---|---|---|---|\n")
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    parts[-1] += f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} | {m.get('caught_by', m['property'])} |\n"
parts.append(TAIL)
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(parts))
