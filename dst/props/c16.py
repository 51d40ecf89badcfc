"""C16: a failed or killed documentation build can simply be run again."""
import json

from .. import docsim, runner
from . import c15

ID = "C16"
RUNS = {"quick": 3000, "thorough": 60000}
RULE = ("as C15 with 1-4 builds that fail, are interrupted or killed at any step, new tags appearing in between; "
        "then a build without faults, and a second one; their published files are compared with those of a first, "
        "undisturbed build on a disk as the first one found it; non-trivial: some build failed or was killed")
REAL, STUB, ASSUMPTIONS = c15.REAL, c15.STUB, c15.ASSUMPTIONS + [
    "temporary checkouts of killed builds stay, and those whose removal itself was made to fail"]
HOWS = ["fail", "half", "signal", "oserror", "nospace", "interrupt", "interrupt", "kill", "kill", "kill", "half-kill"]


def generate(rng, idx, tier):
    w = docsim.gen_world(rng)
    builds = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        b = {"faults": [docsim.gen_fault(rng, HOWS) for _ in range(rng.choice([1, 1, 1, 2, 0]))]}
        if builds and rng.random() < .4:
            b["tags"] = docsim.gen_tags(rng, docsim.PROJECTS, rng.randrange(1, 3), w["dates"])
        builds.append(b)
    last = docsim.gen_tags(rng, docsim.PROJECTS, 1, w["dates"]) if rng.random() < .3 else []
    return {"world": w, "builds": builds, "last": last}


def difference(a, b):
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            return f"{k} is {a.get(k)!r} instead of {b.get(k)!r}"


def execute(sc):
    w = json.loads(json.dumps(sc["world"]))
    base, fresh = docsim.scratch(), docsim.scratch()
    faults, outcomes, digest = {}, {}, []

    def bad(cls, text):
        return runner.fail(cls, text.replace(base, "").replace(fresh, ""), digest)

    try:
        docsim.create(base, w)
        left = docsim.leftovers(base)
        for n, b in enumerate(sc["builds"]):
            docsim.add_tags(w["tags"], b.get("tags", []))
            res = docsim.build_once(base, w, b["faults"])
            digest.append(json.loads(json.dumps(res).replace(base, "BASE")))
            for how, at in res["hit"]:
                k = f"{' '.join(at.split()[:2]) if at.startswith('git') else at.split()[0]}: {how}"
                faults[k] = faults.get(k, 0) + 1
            out = "killed" if res.get("killed") else "ok" if res["ok"] else "failed"
            outcomes[out] = outcomes.get(out, 0) + 1
            now = docsim.leftovers(base)
            removing = any(at.split()[0] in ("unlink", "rmdir", "remove") or at.startswith("git worktree remove")
                           for _, at in res["hit"])
            if out != "killed" and not removing and now != left:
                return bad("leftover", f"build {n} ({out}; faults met: {res['hit']}) left behind "
                           f"{[x for x in now if x not in left]}")
            left = now
        docsim.add_tags(w["tags"], sc["last"])
        snaps = []
        for i in range(2):
            res = docsim.build_once(base, w, [])
            digest.append(json.loads(json.dumps(res).replace(base, "BASE")))
            if not res["ok"]:
                return bad("not-rerun", f"run again without faults, the build failed: {res['where']}; before: {digest[:-1]}"[:3000])
            if docsim.leftovers(base) != left:
                return bad("leftover", f"a successful build left behind {docsim.leftovers(base)}")
            snaps.append(docsim.snapshot(base, w))
        if snaps[0] != snaps[1]:
            return bad("not-idempotent", f"run once more, {difference(snaps[1], snaps[0])}")
        docsim.create(fresh, w)
        res = docsim.build_once(fresh, w, [])
        if not res["ok"]:
            return bad("first", f"a first build failed: {res['where']}")
        d = difference(snaps[0], docsim.snapshot(fresh, w))
        if d:
            return bad("differs", f"after {[x['hit'] for x in digest]}, {d}")
        digest.append(snaps[0])
    finally:
        docsim.clean(base)
        docsim.clean(fresh)
    return {"digest": runner.digest_of(digest), "nontrivial": outcomes.keys() != {"ok"},
            "stats": {"builds": len(sc["builds"]) + 3, "outcomes": outcomes, "faults": faults,
                      "steps": sum(len(d["steps"]) for d in digest if "steps" in d)},
            "sample": {"world": {k: w[k] for k in ("tags", "docs", "mode", "cut")}, "builds": sc["builds"],
                       "hit": [d["hit"] for d in digest if "hit" in d]}}


shrink = runner.shrinker("builds", "builds.*.faults", "world.tags", "last", "world.docs+")
