"""Single source for properties.jsonl, MANIFEST.json and DESIGN's property table.

Run ``python3 /verif/lib/meta.py`` to regenerate both files.
"""
from __future__ import annotations

import ast
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

P: list[dict] = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, technique,
         level_note, design, level="exploration", state=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over,
                  qtext=" ".join(qtext.split()), why=" ".join(why.split()), files=files,
                  mech=mech, observe=observe, technique=technique,
                  level_note=" ".join(level_note.split()), design=" ".join(design.split()),
                  level=level, state=state))




def checkinfo(pid):
    """RULE, ASSUMPTIONS and sub-checks of a check module, without importing it."""
    d = os.path.join(VERIF, "checks")
    fn = next(f for f in os.listdir(d) if f.startswith(pid.lower() + "_"))
    got = {"file": fn, "RULE": "", "ASSUMPTIONS": [], "subs": []}
    for n in ast.parse(open(os.path.join(d, fn)).read()).body:
        if not isinstance(n, ast.Assign):
            continue
        name = getattr(n.targets[0], "id", "")
        if name in ("RULE", "ASSUMPTIONS"):
            got[name] = ast.literal_eval(n.value)
        if name == "SUBS":
            for c in ast.walk(n.value):
                if isinstance(c, ast.Call) and getattr(c.func, "id", "") == "Sub":
                    kw = {k.arg: k.value for k in c.keywords}
                    num = {k: ast.literal_eval(kw[k]) for k in ("quick", "thorough") if k in kw}
                    got["subs"].append((ast.literal_eval(c.args[0]), num.get("quick"), num.get("thorough")))
    return got


def design():
    """Rewrite the per-property part of DESIGN.md."""
    path = os.path.join(VERIF, "DESIGN.md")
    text = open(path).read()
    a, b = "<!-- properties -->", "<!-- end of properties -->"
    head, tail = text[:text.index(a) + len(a)], text[text.index(b):]
    costs = {}
    if os.path.exists(os.path.join(HERE, "costs.json")):
        costs = json.load(open(os.path.join(HERE, "costs.json")))
    fixes = {}
    for k in json.load(open(os.path.join(VERIF, "known_findings.json"))):
        fixes.setdefault(k["property"], []).append(k)
    seeds = {}
    sd = os.path.join(VERIF, "seeded")
    for n in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, n, "meta.json")))
        seeds.setdefault(m["property"], []).append((n, m))
    out = []
    for p in P:
        c = checkinfo(p["id"])
        out.append(f"### {p['id']} {p['title']}\n")
        out.append(f"*Specified.* {p['statement']}\n")
        out.append(f"*Quantified over* {p['qtext']}.\n")
        out.append(f"*Generated and checked* (`checks/{c['file']}`, {p['technique']}). {p['design']} {c['RULE']}\n")
        subs = "; ".join(f"`{n}` {q} quick / {t} thorough cases" for n, q, t in c["subs"])
        cost = costs.get(p["id"], {})
        cost = "".join(f", {k} {v:.0f} s" for k, v in cost.items())
        out.append(f"*Bounds and cost.* {subs}{cost}.\n")
        out.append("*Assumed or not judged.* " + p["level_note"].rstrip(".") + "; " + "; ".join(c["ASSUMPTIONS"]) + ".\n")
        out.append(f"*Beyond the tests.* {p['why']}\n")
        if p["id"] in fixes:
            out.append("*Defects found and repaired.* " + "; ".join(
                f"{k['commit']} ({k['what']})" if k["status"] == "fixed" else f"open: {k['what']}"
                for k in fixes[p["id"]]) + ".\n")
        if p["id"] in seeds:
            out.append("*Planted bugs.* " + "; ".join(
                f"`{n}` ({'caught' if m.get('caught', True) else 'not caught'}): {m['what_it_breaks']}" for n, m in seeds[p["id"]]) + "\n")
    with open(path, "w") as f:
        f.write(head + "\n\n" + "\n".join(out) + "\n" + tail)


def main():
    import meta_props
    meta_props.define(prop)
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            anchors = {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                "observe_at": p["observe"],
                "hook_needed": None,
            }
            if p["state"]:
                anchors["state"] = [
                    {"name": n, "meaning": m, "where": w} for n, m, w in p["state"]
                ]
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"], "anchors": anchors,
            }) + "\n")
    checks, na = [], []
    for p in P:
        if any(fn.startswith(p["id"].lower() + "_")
               for fn in os.listdir(os.path.join(VERIF, "checks"))):
            checks.append({
                "property": p["id"],
                "quick_cmd": f"./check {p['id']} quick",
                "thorough_cmd": f"./check {p['id']} thorough",
                "technique": p["technique"],
                "level": p["level"],
                "level_note": p["level_note"],
            })
        else:
            na.append({"property": p["id"],
                       "reason": "check not built yet (work in progress)"})
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump({
            "version": 1,
            "setup_cmd": "./setup.sh",
            "checks": checks,
            "not_applicable": na,
            "notes": "Property-based testing / fuzzing only. See DESIGN.md. No hooks in /repo are needed: "
                     "the harness uses public seams (transport objects, event loop, injected aiohttp "
                     "session).",
        }, f, indent=1)
        f.write("\n")
    design()
    print(len(P), "properties,", len(checks), "checks,", len(na), "not built")


if __name__ == "__main__":
    main()
