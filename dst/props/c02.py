"""C02: only what a lookup needs is loaded, and what is loaded stays."""
from .. import ftl, l10n, runner

ID = "C02"
RUNS = {"quick": 6000, "thorough": 120000}
RULE = ("as C01, with a history that mixes lookups with changes of the disk: files of loaded bundles "
        "are rewritten, deleted or made unreadable, files not needed yet are rewritten, damaged or "
        "made unreadable; the access log of the disk is checked after every lookup; non-trivial: "
        "at least one lookup was answered from loaded bundles after such a change")
REAL = ["fluent.runtime", "fluent.syntax parser", "codecs/io", "babel"]
STUB = ["disk (dst.simfs: contents, open and read errors, undecodable bytes, short reads, access log)"]
ASSUMPTIONS = ["existence checks of unneeded files count as touching them",
               "what a location without files would give if files appear there later is not specified"]


def generate(rng, idx, tier):
    w = l10n.gen_world(rng, sparse=.2, loader=rng.choice(["disk"] * 4 + ["gen"]))
    w["short"] = rng.choice([0, 0, 3])
    ops = []
    for o in l10n.gen_lookups(rng, w, rng.randrange(6, 24)):
        ops.append(dict(o, op="get"))
        while rng.random() < .45:
            kind = rng.choice(["rewrite", "delete", "error", "garbage", "poison", "poison-garbage"])
            k = {"op": kind, "pick": rng.randrange(1000), "err": rng.choice(["EIO", "EACCES", "EMFILE"]),
                 "at": rng.choice(["open", "read"])}
            if kind == "rewrite":
                g = ftl.Gen(rng, w["msgs"], ["t0"], f"·new{len(ops)}", variables=l10n.VARS, depth=0)
                k["doc"] = g.doc([m for m in w["msgs"] if rng.random() < .6], ["t0"])
            ops.append(k)
    return {"world": w, "ops": ops}


def execute(sc):
    w = sc["world"]
    fs = l10n.make_fs(w)
    files = dict(w["files"])
    mirror = l10n.Mirror(w, files)
    obj = l10n.make_l10n(w, fs)
    trace, changed, after_change, cached = [], 0, 0, 0
    kinds = {}
    bad = set()                       # paths that fail now
    for i, op in enumerate(sc["ops"]):
        if op["op"] != "get":
            loaded_paths = [x for p, _ in mirror.loaded for x in mirror.paths(p) if x in fs.files]
            fresh = [x for p in range(mirror.next, len(mirror.positions)) for x in mirror.paths(p)
                     if x in fs.files]
            poison = op["op"].startswith("poison")
            pool = sorted(set(fresh if poison else loaded_paths + fresh)
                          - (set(loaded_paths) if poison else set()))
            if not poison and op["op"] in ("error", "garbage"):
                pool = sorted(set(loaded_paths) - set(fresh))
            if not pool:
                continue
            path = pool[op["pick"] % len(pool)]
            kinds[op["op"]] = kinds.get(op["op"], 0) + 1
            changed += 1
            if op["op"] == "rewrite":
                files[path] = {"doc": op["doc"]}
                fs.files[path] = l10n.content(files[path])
                bad.discard(path)
                fs.faults.pop(path, None)
            elif op["op"] == "delete":
                files.pop(path, None)
                fs.files.pop(path, None)
                bad.discard(path)
                fs.faults.pop(path, None)
            elif op["op"] in ("error", "poison"):
                fs.faults[path] = {"op": op["at"], "err": op["err"]}
                bad.add(path)
            else:
                fs.files[path] = b"m0 = \xff\xfe\xc3\n"
                bad.add(path)
            continue
        needs = mirror.needs(op["msg"])
        allowed = {x for p in needs for x in mirror.paths(p)}
        must_fail = any(x in bad and x in files for x in allowed)
        if must_fail:
            continue                  # failing loads are the subject of C03
        if not needs:
            cached += 1
            after_change += changed > 0
        exp = mirror.lookup(op["msg"], op["args"])
        n = len(fs.log)
        try:
            got = obj.format_value(op["msg"], ftl.build_args(op["args"]))
        except Exception as e:
            got = e
        touched = [x for x in fs.log[n:]]
        trace.append((op["msg"], repr(got), touched))
        wrong = sorted({p for _, p in touched} - allowed)
        if wrong:
            return runner.fail("touched", f"op {i}: looking up {op['msg']!r} touched {wrong}, "
                               f"allowed were {sorted(allowed)}", trace)
        if isinstance(got, Exception) or got != exp:
            return runner.fail("raised" if isinstance(got, Exception) else "answer",
                               f"op {i}: lookup of {op['msg']!r}: got {got!r}, expected {exp!r}", trace)
    return {"digest": runner.digest_of(trace), "sig": runner.digest_of(trace),
            "nontrivial": after_change > 0,
            "stats": {"lookups": len(trace), "answered without loading": cached,
                      "of these after a change of the disk": after_change,
                      "disk changes": kinds, "faults": dict(fs.counts), "loader": {w["loader"]: 1}},
            "sample": {"locales": w["locales"], "files": sorted(w["files"]),
                       "ops": [o["op"] + ":" + str(o.get("msg", "")) for o in sc["ops"]],
                       "trace": [str(t)[:200] for t in trace[:3]]}}


shrink = runner.shrinker("ops", "world.locales+", "world.roots+", "world.rids+", "world.files",
                         "world.files.*.doc", "world.files.*.doc.*.v+")
