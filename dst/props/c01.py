"""C01: fallback answers from the first locale and location that can."""
from .. import ftl, l10n, runner

ID = "C01"
RUNS = {"quick": 6000, "thorough": 120000}
RULE = ("a world of 1-5 locales (some unknown to Babel), 1-3 roots, 1-3 resource ids and a random "
        "subset of files with random translations, and a history of 4-24 lookups on one or two "
        "localization objects, which often have different locales and share a loader; non-trivial: at least one lookup was answered by another than the "
        "first bundle, or needed a second location; distinct by world and history")
REAL = ["fluent.runtime (fallback, bundle, resolver, prepare, types)", "fluent.syntax parser",
        "codecs/io text decoding", "babel"]
STUB = ["disk (dst.simfs: contents, short reads)", "custom loaders and functions of the application"]
ASSUMPTIONS = ["the expected text comes from the reference model dst.model, which uses Babel's public "
               "number formatting and plural rules", "references are acyclic (cycles: C10)"]


def generate(rng, idx, tier):
    w = l10n.gen_world(rng, odd=rng.random() < .4)
    w["own"] = rng.random() < .1
    w["short"] = rng.choice([0, 0, 1, 3, 50])
    w["str_root"] = rng.random() < .5
    n = rng.randrange(4, 25)
    ops = l10n.gen_lookups(rng, w, n, odd=rng.random() < .3)
    for o in ops:
        o["obj"] = 0
    sc = {"world": w, "ops": ops}
    if rng.random() < .4:
        # a second object, often for other locales and with the same loader
        share = rng.choice([.15, .5])
        for o in ops:
            o["obj"] = 1 if rng.random() < share else 0
        sc["second"] = l10n.gen_second(rng, w) if rng.random() < .7 else w["locales"]
        sc["shared"] = rng.random() < .7
    return sc


def execute(sc):
    w = sc["world"]
    fs = l10n.make_fs(w)
    objs, mirrors = {}, {}
    shared = l10n.make_loader(w, fs) if sc.get("shared") else None
    second = dict(w, locales=[loc for loc in sc.get("second", []) if loc in w["locales"]] or w["locales"])
    digest, deep = [], 0
    nerr = 0
    for i, op in enumerate(sc["ops"]):
        o = op.get("obj", 0)
        if o not in objs:
            world = second if o else w
            objs[o] = l10n.make_l10n(world, fs, shared)
            mirrors[o] = l10n.Mirror(world, w["files"])
        exp = mirrors[o].lookup(op["msg"], op["args"])
        try:
            got = objs[o].format_value(op["msg"], ftl.build_args(op["args"]))
        except Exception as e:
            got = e
        where = mirrors[o].find(op["msg"])
        if where is None or where > 0:
            deep += 1
        digest.append(repr(got))
        if isinstance(got, Exception) or got != exp or type(got) is not str:
            cls = "raised" if isinstance(got, Exception) else "answer"
            return runner.fail(cls, f"lookup {i} of {op['msg']!r}: got {got!r}, expected {exp!r}", digest)
    dg = runner.digest_of(digest, fs.log)
    return {"digest": dg, "sig": dg, "nontrivial": deep > 0,
            "stats": {"lookups": len(sc["ops"]), "lookups beyond the first bundle": deep,
                      "two objects, one loader": int(bool(shared) and len(objs) > 1),
                      "bundles loaded": sum(len(m.loaded) for m in mirrors.values()),
                      "faults": dict(fs.counts), "loader": {w["loader"]: 1},
                      "file accesses": len(fs.log)},
            "sample": {"locales": w["locales"], "roots": w["roots"], "rids": w["rids"],
                       "files": sorted(w["files"]), "lookups": [o["msg"] for o in sc["ops"]],
                       "answers": digest[:4]}}


shrink = runner.shrinker("ops", "world.locales+", "world.roots+", "world.rids+", "world.files", "world.files.*.doc",
                         "world.files.*.doc.*.v+")
