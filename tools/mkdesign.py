#!/opt/venv/bin/python
"""Writes /verif/DESIGN.md from tools/DESIGN.in.md, the checks and the records."""
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from dst import runner  # noqa: E402

MAN = json.load(open(f"{HERE}/MANIFEST.json"))
PROPS = [json.loads(l) for l in open(f"{HERE}/properties.jsonl")]
KF = json.load(open(f"{HERE}/known_findings.json"))["findings"]
WHY = {
    "C01": "the answer depends on the product of locale list, roots, resource ids, which files exist, what they define and what was looked up before; tests sample a handful of layouts and no histories.",
    "C02": "laziness and stability only show when files change or fail between lookups of one long-lived object; the tests never touch the files again.",
    "C03": "no test makes a file operation fail, and the defect class (state left behind by a failure) needs a second lookup after the failure is gone.",
    "C04": "no test uses threads; the failing interleavings have a window of a few byte-code instructions.",
    "C05": "as C04; the admissible results depend on which additions overlap the call.",
    "C06": "needs histories of uses and overrides; tests format after all additions.",
    "C07": "leaks need two calls (or bundles) in a particular order, nesting or interleaving, and a look at what was passed in.",
    "C08": "tests raise one or two exception types in one place; the property is about every exception at every call of every function, formatter and data file.",
    "C09": "an interrupt can arrive at thousands of points of one call; tests interrupt nothing.",
    "C10": "the tests hold one bomb; limits have to hold for every shape, depth, remaining stack, and for other calls meanwhile.",
    "C11": "tests run with one clock, zone, locale and hash seed.",
    "C12": "damage has as many forms as texts have positions; the fixtures hold a few dozen hand-written ones and no restarted application.",
    "C13": "as C12; conservation is about all characters of all texts after repeated damage.",
    "C14": "the tools have no tests at all for failing reads, writes and encodings.",
    "C15": "fluent.docs has no build tests; failures between its dozens of external steps are what matters.",
    "C16": "as C15, and needs a second build after a failed or killed one.",
    "C17": "needs threads or interruptions on shared trees, and a comparison of everything reachable from them.",
    "C18": "tests let transformers succeed; the state after a failure depends on which callback fails where.",
    "C28": "tests use short texts and few calls; work that grows out of proportion shows only at sizes and after histories they never reach.",
    "C27": "tests make a handful of calls per object and drop it; what is kept after a failure or an interruption shows only in its growth over many calls.",
    "C19": "the fixtures round-trip once; corruption that grows, shifts or appears after an edit needs several generations of save and load.",
}
ORACLE = {
    "C01": "dst/model.py (text), errors by class; both on the scenario's own description of the translations",
    "C02": "model + access log of the simulated disk (a lookup that loaded bundles answer makes no access; no location beyond the answering one is accessed)",
    "C03": "model with failures switched off; identity of the raised exception; open handles after each lookup",
    "C04": "the same lookups on a fresh object, one thread; simulated time that a lookup of loaded bundles waits (0)",
    "C05": "set of the model's results over the definitions in force during the call",
    "C06": "model with the add/override history",
    "C07": "model of the call alone; deep comparison of everything passed in and of built-in tables",
    "C08": "model with failed placeables as wildcards; errors by identity; next call exact",
    "C09": "identity of the interrupt; model of the history without interrupted calls",
    "C10": "counts of executed functions against a linear bound; length of the text; model for harmless calls",
    "C11": "model evaluated in the pristine environment; Babel's public functions; zoneinfo",
    "C12": "parse tree of the undamaged text, cut at the damage; model for the application",
    "C13": "conservation of non-blank characters over entries' spans; annotations within junk; second save",
    "C14": "expected output computed from the decoded content by one undisturbed call; exit status; joined token values",
    "C15": "model of tags, cut-off, stable and redirects; provenance recorded in the simulated pages",
    "C16": "published tree of a first, undisturbed build; checkouts and worktrees registered with the simulated git",
    "C17": "the same call alone in a process of its own; fingerprints of all trees",
    "C18": "transformed tree computed by the harness, list by list; identity of the exception",
    "C28": "steps executed in fluent.* at doubling sizes (three doublings in a row of more than 2.5 times the increase), and after ever longer histories against fresh objects; CPU time of 320,000 characters against 10,000 and of calls among 400,000 definitions against 20",
    "C27": "number of objects reachable from the library's objects and modules, and number of values of finished calls still alive, at ever longer histories",
    "C19": "dst/props/c19.py's model of the stored resource, which never sees a fluent tree",
}
design = open(f"{HERE}/tools/DESIGN.in.md").read()


def consts(pid):
    return vars(runner.load_prop(pid))


walls = json.load(open(f"{HERE}/tools/walls.json")) if os.path.exists(f"{HERE}/tools/walls.json") else {}
caught = json.load(open(f"{HERE}/tools/caught.json")) if os.path.exists(f"{HERE}/tools/caught.json") else {}
na = {x["property"]: x["reason"] for x in MAN["not_applicable"]}
parts = []
for p in PROPS:
    pid = p["id"]
    if pid in na:
        continue
    c = consts(pid)
    man = next((x for x in MAN["checks"] if x["property"] == pid), None)
    bugs = sorted(os.path.basename(b) for b in glob.glob(f"{HERE}/seeded/{pid.lower()}-*"))
    w = walls.get(pid)
    parts.append(f"""### {pid} {p['title']}

* Simulated and enumerated: {c['RULE']}.
* Oracle: {ORACLE[pid]}.
* Real code: {'; '.join(c['REAL'])}. Stubs: {'; '.join(c['STUB'])}.
* Assumes: {'; '.join(c.get('ASSUMPTIONS', [])) or '-'}.
* Bounds and cost: {c['RUNS']['quick']} runs quick{f' ({w:.0f} s)' if w else ''}, up to {c['RUNS']['thorough']} thorough. {man['level_note'] if man else ''}
* Why not tests: {WHY[pid]}
* Planted bugs: {', '.join(bugs) or '-'}.
""")
fixes = "\n".join(f"* {e['what'].replace('fixed: property=', '')}" for e in KF if e["status"] == "fixed")
known = " ".join(f"{e['property']}: {e['what']}." for e in KF if e["status"] == "known")
rows = ["| bug | needs | caught by |", "| --- | --- | --- |"]
for b in sorted(glob.glob(f"{HERE}/seeded/*")):
    name = os.path.basename(b)
    m = json.load(open(b + "/meta.json"))
    rows.append(f"| {name} | {m['needs']} | {caught.get(name, '?')} |")
for k, v in {"PROPS": "\n".join(parts), "FIXES": fixes, "KNOWN": known, "BUGS": "\n".join(rows),
             "NA": "\n".join(f"* {k}: {v}" for k, v in na.items()),
             "DET": open(f"{HERE}/tools/determinism.md").read().strip()
             if os.path.exists(f"{HERE}/tools/determinism.md") else "(pending)"}.items():
    assert f"@@{k}@@" in design, k
    design = design.replace(f"@@{k}@@", v)
open(f"{HERE}/DESIGN.md", "w").write(design)
