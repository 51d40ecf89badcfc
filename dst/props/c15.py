"""C15: published documentation always matches the version it is published as."""
import json
import os
import re

from .. import docsim, runner

ID = "C15"
RUNS = {"quick": 4000, "thorough": 80000}
RULE = ("1-4 documentation builds (scripts/build-docs with its options, or build()) of 1-3 projects with 0-8 tags "
        "around the cut-off date, new tags appearing in between, each build with 0-2 faults: git or sphinx failing "
        "at once, half-way, by signal or by not being there, file operations failing, interrupts, kills; "
        "non-trivial: a fault was met, or a release was published")
REAL = ["fluent.docs", "scripts/build-docs", "pathlib, shutil, tempfile, subprocess.run on a scratch directory"]
STUB = ["git (tags, worktrees, checkouts) and sphinx-build (records source, labels and versions in the pages)",
        "processes (each build is a fork that can be killed at a step)"]
ASSUMPTIONS = ["the simulated git and sphinx behave as the real ones do for the invocations made"]
HOWS = ["fail", "fail", "half", "half", "signal", "oserror", "nospace", "interrupt", "kill", "half-kill"]


def generate(rng, idx, tier):
    w = docsim.gen_world(rng)
    builds = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        b = {"faults": [docsim.gen_fault(rng, HOWS) for _ in range(rng.choice([0, 1, 1, 1, 2]))]}
        if builds and rng.random() < .5:
            b["tags"] = docsim.gen_tags(rng, docsim.PROJECTS, rng.randrange(1, 3), w["dates"])
        builds.append(b)
    return {"world": w, "builds": builds}


SPAN = re.compile(r'<span class="version">(.*?)</span>')
LINK = re.compile(r'<a href="(.*?)">(.*?)</a>')


def check_page(w, rec):
    """Is what sphinx was given right for where it wrote to?"""
    top = f"_build/{w['repo']}"
    if rec["dest"] == top:
        if rec["source"] != "docs of . at HEAD":
            return f"the top-level pages were built from {rec['source']!r}"
        return None
    parts = rec["dest"].split("/")
    if rec["dest"][:len(top) + 1] != top + "/" or len(parts) != 4:
        return f"pages were built into {rec['dest']}"
    project, version = parts[2:]
    source = "HEAD" if version == "dev" else f"{project}@{version}"
    if version == "stable":
        return f"pages were built into {rec['dest']}"
    for what, got, exp in (("docs", rec["source"], f"docs of {project} at {source}"),
                           ("code", rec["code"], f"code of {project} at {source}"),
                           ("project", rec["project"], project),
                           ("release", rec["release"], None if version == "dev" else version)):
        if got != exp:
            return f"{rec['dest']} was built with {what} {got!r} instead of {exp!r}"
    v = rec["versions"] or ""
    if SPAN.findall(v) != [version]:
        return f"{rec['dest']} calls itself version {SPAN.findall(v)}"
    return None


def versions_of(w, project):
    r = docsim.releases(w, project)
    return ["dev", "stable"] + r if r else ["dev"]


def check_success(w, base, res):
    top = f"{base}/repo/_build/{w['repo']}"
    snap = docsim.snapshot(base, w)
    built = {r["dest"]: r for r in res["sphinx"]}
    wanted = {}
    for p in w["docs"]:
        for v in ["dev"] + docsim.releases(w, p):
            wanted[f"_build/{w['repo']}/{p}/{v}"] = (p, v)
    if docsim.has_root(w):
        wanted[f"_build/{w['repo']}"] = None
    if set(built) != set(wanted):
        return f"success, but built {sorted(built)} instead of {sorted(wanted)}"
    for dest, pv in wanted.items():
        rel = os.path.relpath(dest, f"_build/{w['repo']}")
        rel = "" if rel == "." else rel + "/"
        try:
            page = json.loads(snap[rel + "index.html"])
        except (KeyError, ValueError):
            return f"success, but {dest}/index.html is not the one built"
        if page != json.loads(json.dumps(built[dest], sort_keys=True)):
            return f"success, but {dest}/index.html is not the one built"
        if pv is None:
            continue
        p, v = pv
        links = LINK.findall(page["versions"])
        exp = [(f"/{w['repo']}/{p}/{x}", x) for x in versions_of(w, p)]
        if links != exp:
            return f"success, but {dest} lists {links} instead of {exp}"
        if rel + "usage.html" not in snap:
            return f"success, but {dest} is incomplete"
    for p in w["docs"]:
        rels = docsim.releases(w, p)
        target = "stable" if rels else "dev"
        m = re.search(r'http-equiv="refresh"[^>]*URL=([^"]*)"', snap.get(f"{p}/index.html", ""))
        if not m or m.group(1).strip("/") != target:
            return f"success, but {p} redirects with {snap.get(f'{p}/index.html')!r} instead of to {target}"
        if rels:
            link = snap.get(f"{p}/stable", "")
            real = os.path.realpath(f"{top}/{p}/stable")
            if link[:3] != "-> " or real != os.path.realpath(f"{top}/{p}/{rels[0]}"):
                return f"success, but {p}/stable is {link!r} instead of a link to {rels[0]}"
    if snap.get(".nojekyll") is None:
        return "success, but .nojekyll is missing"
    return None


def execute(sc):
    w = json.loads(json.dumps(sc["world"]))
    base = docsim.scratch()
    faults, outcomes, digest = {}, {}, []
    published = 0
    try:
        docsim.create(base, w)
        for n, b in enumerate(sc["builds"]):
            docsim.add_tags(w["tags"], b.get("tags", []))
            res = docsim.build_once(base, w, b["faults"])
            digest.append(json.loads(json.dumps(res).replace(base, "BASE")))
            for how, at in res["hit"]:
                k = f"{' '.join(at.split()[:2]) if at.startswith('git') else at.split()[0]}: {how}"
                faults[k] = faults.get(k, 0) + 1
            out = "killed" if res.get("killed") else "ok" if res["ok"] else "failed"
            outcomes[out] = outcomes.get(out, 0) + 1

            def bad(cls, text):
                return runner.fail(cls, f"build {n} (faults met: {res['hit']}, {out} {res.get('exc', '')}): {text}"
                                   .replace(base, ""), digest)

            for rec in res["sphinx"]:
                t = check_page(w, rec)
                if t:
                    return bad("mismatch", t)
            if out == "ok":
                # whether removing the temporary checkout may fail is not said
                if [at for _, at in res["hit"] if not (at.startswith(("unlink ", "rmdir ")) and "_build" not in at)]:
                    return bad("unreported", "a step failed, but the build reports success")
                t = check_success(w, base, res)
                if t:
                    return bad("result", t)
                published += len(res["sphinx"])
            elif out == "failed" and not res["hit"]:
                return bad("failed", f"nothing was made to fail: {res.get('where')}")
    finally:
        docsim.clean(base)
    return {"digest": runner.digest_of(digest), "nontrivial": bool(faults or published > len(w["docs"])),
            "stats": {"builds": len(sc["builds"]), "outcomes": outcomes, "faults": faults,
                      "steps": sum(len(d["steps"]) for d in digest), "page sets published": published},
            "sample": {"world": {k: w[k] for k in ("tags", "docs", "mode", "cut")}, "builds": sc["builds"],
                       "steps of the first build": digest[0]["steps"][:12]}}


shrink = runner.shrinker("builds+", "builds.*.faults", "world.tags", "world.docs+")
