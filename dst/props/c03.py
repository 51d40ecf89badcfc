"""C03: a failed load is reported to the caller and not remembered."""
from .. import fns, ftl, l10n, runner, sched

ID = "C03"
RUNS = {"quick": 6000, "thorough": 120000}
RULE = ("as C01 with a history of lookups during which files of not yet loaded locations fail to be "
        "opened, read or decoded for a number of accesses or until healed, sequentially (70 %) or from "
        "2-3 threads under the deterministic scheduler (30 %); at the end everything is healed and "
        "every message is looked up once more; non-trivial: at least one injected failure was hit")
REAL = ["fluent.runtime", "fluent.syntax parser", "codecs/io", "babel"]
STUB = ["disk (dst.simfs: open/read errors, undecodable bytes, short reads)", "custom loaders",
        "thread scheduling and locks (dst.sched)"]
ASSUMPTIONS = ["existence probes (stat) do not fail",
               "files that were loaded are not changed while a later location of the same locale fails"]

ERRS = ["EIO", "EACCES", "EMFILE", "ENOMEM", "ESTALE", "TimeoutError", "MemoryError", "EPERM"]


def generate(rng, idx, tier):
    w = l10n.gen_world(rng, sparse=.2)
    w["short"] = rng.choice([0, 0, 2, 9])
    threaded = rng.random() < .3
    ops = []
    paths = sorted(w["files"])

    def fault():
        k = {"op": "fault", "path": rng.choice(paths) if paths else "/simfs/none",
             "at": rng.choice(["open", "open", "read", "read", "read", "read", "bytes", "bytes", "torn"]), "err": rng.choice(ERRS)}
        if rng.random() < .5:
            k["times"] = rng.choice([1, 1, 2])
        if k["at"] == "read" and rng.random() < .5:
            k["skip"] = 1
        if k["at"] in ("bytes", "torn"):
            k["pick"] = rng.randrange(1 << 20)
        return k

    for _ in range(rng.randrange(1, 4)):
        ops.append(fault())
    if threaded:
        ops = [o for o in ops if o["at"] in ("open", "read")]
        n = rng.choice([2, 2, 3])
        threads = [l10n.gen_lookups(rng, w, rng.randrange(1, 5)) for _ in range(n)]
        return {"world": w, "ops": ops, "threads": threads, "policy": rng.randrange(1 << 20),
                "delays": {p: rng.choice([0, 1, 5]) for p in paths},
                "switches": l10n.gen_switches(rng, 3000, rng.randrange(3, 25))}
    for o in l10n.gen_lookups(rng, w, rng.randrange(4, 20)):
        ops.append(dict(o, op="get"))
        if rng.random() < .25:
            ops.append(fault())
        if rng.random() < .25:
            ops.append({"op": "heal"})
        if rng.random() < .1:
            ops.append({"op": "delete", "pick": rng.randrange(1000)})
    return {"world": w, "ops": ops}


def damage(data, how, pick):
    """Content that is not UTF-8: a bad byte inside, or cut inside a character."""
    if how == "torn":
        cuts = [i for i in range(1, len(data)) if data[i] & 0xC0 == 0x80]
        if cuts:
            return data[:cuts[pick % len(cuts)]]
    at = pick % (len(data) + 1)
    while at < len(data) and data[at] & 0xC0 == 0x80:
        at += 1
    return data[:at] + [b"\xff", b"\xc0\xaf", b"\xed\xa0\x80", b"\xe2\x82 "][pick % 4] + data[at:]


def torn_tail(data):
    """True if all that is wrong with data is an incomplete character at its end"""
    import codecs
    try:
        codecs.getincrementaldecoder("utf-8")().decode(data, False)
    except UnicodeDecodeError:
        return False
    return True


def chain(e):
    while e is not None:
        yield e
        e = e.__cause__ or e.__context__


def reported(e, injected):
    return any(x in injected or isinstance(x, UnicodeDecodeError) for x in chain(e))


def final_pass(w, obj, mirror, fs):
    for m in w["msgs"] + ["nosuch"]:
        exp = mirror.lookup(m, {"n": 5, "s": "u", "f": 2.25, "x": "w"})
        try:
            got = obj.format_value(m, {"n": 5, "s": "u", "f": 2.25, "x": "w"})
        except Exception as e:
            got = e
        if isinstance(got, Exception) or got != exp:
            return (m, got, exp)
        if fs.opened:
            return (m, "left open: %s" % [h.path for h in fs.opened], exp)


def execute(sc):
    w = sc["world"]
    fs = l10n.make_fs(w)
    obj = l10n.make_l10n(w, fs)
    if "threads" in sc:
        return execute_threads(sc, w, fs, obj)
    mirror = l10n.Mirror(w, dict(w["files"]))
    good = dict(fs.files)
    trace, raised, cached_ok = [], 0, 0

    for i, op in enumerate(sc["ops"]):
        if op["op"] == "fault":
            path = op["path"]
            if path not in fs.files:
                continue
            if op["at"] in ("bytes", "torn"):
                fs.files[path] = damage(good[path], op["at"], op["pick"])
            else:
                fs.faults[path] = {"op": op["at"], "err": op["err"],
                                   **({"times": op["times"]} if "times" in op else {}),
                                   **({"skip": op["skip"]} if "skip" in op else {})}
            continue
        if op["op"] == "heal":
            fs.faults.clear()
            for p in fs.files:
                fs.files[p] = good[p]
            continue
        if op["op"] == "delete":
            # files of completely loaded locales may go: they are not needed any more
            done = {p for p, _ in mirror.loaded
                    if mirror.next >= len(mirror.positions)
                    or mirror.positions[mirror.next][0] > mirror.positions[p][0]}
            pool = sorted({x for p in done for x in mirror.paths(p) if x in fs.files})
            keep = {x for p in range(mirror.next, len(mirror.positions)) for x in mirror.paths(p)}
            pool = [x for x in pool if x not in keep]
            if pool and len(mirror.loaded):
                p = pool[op["pick"] % len(pool)]
                del fs.files[p]
                fs.faults.pop(p, None)
            continue
        was_cached = not mirror.needs(op["msg"])
        n_inj = len(fs.injected)
        broken = {p for p in fs.files if fs.files[p] != good[p]}
        n_log = len(fs.log)
        try:
            got = obj.format_value(op["msg"], ftl.build_args(op["args"]))
            exc = None
        except BaseException as e:
            exc = got = e
        # checked while the exception is still referenced, as it is for a caller handling it
        opened = [h.path for h in fs.opened]
        inj = fs.injected[n_inj:]
        hit = bool(inj) or any(k in ("read", "open") and p in broken for k, p in fs.log[n_log:])
        trace.append((op["msg"], repr(got), hit))
        if opened:
            return runner.fail("left-open", f"op {i}: lookup of {op['msg']!r} left open {opened}", trace)
        opens = [p for k, p in fs.log[n_log:] if k == "open"]
        accepted = [p for p in (opens if exc is None else opens[:-1]) if p in broken
                    and (exc is None or torn_tail(fs.files[p]))]
        if accepted and not was_cached:
            key = "incomplete-utf8-at-end" if torn_tail(fs.files[accepted[0]]) else None
            return runner.fail("undecodable", f"op {i}: lookup of {op['msg']!r} gave {got!r} and used "
                               f"{accepted[0]}, which is not UTF-8: ...{fs.files[accepted[0]][-12:]!r}",
                               trace, key=key)
        if exc is not None:
            if was_cached or not hit or not reported(exc, inj):
                return runner.fail("raised", f"op {i}: lookup of {op['msg']!r} raised {exc!r}; "
                                   f"injected: {inj!r}, already loaded: {was_cached}", trace)
            raised += 1
            # what the implementation loaded before the failure stays loaded; the mirror
            # catches up when the message is answered
            sync(mirror, w, fs, broken | set(fs.injected_at[n_inj:]))
            continue
        if was_cached:
            cached_ok += 1
        exp = mirror.lookup(op["msg"], op["args"])
        if got != exp:
            return runner.fail("answer", f"op {i}: lookup of {op['msg']!r} gave {got!r}, expected {exp!r}; "
                               f"failures before: {[repr(x) for x in fs.injected]}", trace)
    fs.faults.clear()
    for p in fs.files:
        fs.files[p] = good[p]
    bad = final_pass(w, obj, mirror, fs)
    if bad:
        return runner.fail("not-recovered", f"after all failures were gone, lookup of {bad[0]!r} gave "
                           f"{bad[1]!r}, expected {bad[2]!r}", trace)
    return {"digest": runner.digest_of(trace, fs.log), "sig": runner.digest_of(trace),
            "nontrivial": raised > 0,
            "stats": {"lookups": len(trace), "lookups that raised": raised,
                      "answered by loaded bundles meanwhile": cached_ok, "faults": dict(fs.counts),
                      "undecodable": sum(o.get("at") == "bytes" for o in sc["ops"]),
                      "loader": {w["loader"]: 1}, "mode": {"sequential": 1}},
            "sample": {"locales": w["locales"], "files": sorted(w["files"]),
                       "ops": [o for o in sc["ops"] if o["op"] == "fault"],
                       "trace": [str(t)[:160] for t in trace[:4]]}}


def sync(mirror, w, fs, bad):
    """Positions before the failing one are loaded now: answers from them must not need files."""
    for p, _ in mirror.loaded:
        if mirror.next < len(mirror.positions) and \
                mirror.positions[p][0] == mirror.positions[mirror.next][0] and \
                any(x in bad for x in mirror.paths(p)):
            return  # continuing within a locale starts with reading its first locations again
    while mirror.next < len(mirror.positions):
        paths = [x for x in mirror.paths(mirror.next) if x in fs.files]
        if any(x in bad for x in paths):
            return
        if w["loader"] == "list" and any(
                x in bad for p in range(mirror.next, len(mirror.positions))
                if mirror.positions[p][0] == mirror.positions[mirror.next][0] for x in mirror.paths(p)):
            return
        mirror.step()


def execute_threads(sc, w, fs, obj):
    for op in sc["ops"]:
        if op["path"] in fs.files:
            fs.faults[op["path"]] = {"op": op["at"], "err": op["err"], "times": op.get("times", 1)}
    fs.delays = dict(sc["delays"])
    s = sched.Sched(sc["switches"], sc["policy"])
    bad = []
    results = []
    owner = {}
    raised = [0]
    orig_fault = fs.fault

    def fault(op, path):
        try:
            orig_fault(op, path)
        except BaseException as e:
            owner.setdefault(s.cur.id, []).append(e)
            raise

    fs.fault = fault

    def body(tid, lookups):
        mirror = l10n.Mirror(w, w["files"])
        for o in lookups:
            owner[tid] = []
            exp = mirror.lookup(o["msg"], o["args"])
            try:
                got = obj.format_value(o["msg"], ftl.build_args(o["args"]))
            except Exception as e:
                got = e
                raised[0] += 1
                if not reported(e, owner[tid]):
                    bad.append(f"thread {tid}: lookup of {o['msg']!r} raised {e!r}, "
                               f"injected in it: {owner[tid]!r}")
                results.append((tid, o["msg"], repr(got)))
                continue
            results.append((tid, o["msg"], repr(got)))
            if got != exp:
                bad.append(f"thread {tid}: lookup of {o['msg']!r} gave {got!r}, expected {exp!r}")

    for tid, lookups in enumerate(sc["threads"]):
        s.spawn(lambda tid=tid, lookups=lookups: body(tid, lookups))
    problem = s.run()
    if problem:
        return runner.fail(problem[0], problem[1], s.digest())
    if bad:
        return runner.fail("threads", bad[0], s.digest(), results)
    fs.faults.clear()
    fin = final_pass(w, obj, l10n.Mirror(w, w["files"]), fs)
    if fin:
        return runner.fail("not-recovered", f"after all failures were gone, lookup of {fin[0]!r} gave "
                           f"{fin[1]!r}, expected {fin[2]!r}", s.digest(), results)
    return {"digest": runner.digest_of(s.digest(), results), "sig": s.digest(),
            "nontrivial": raised[0] > 0,
            "stats": {"lookups": len(results), "lookups that raised": raised[0],
                      "faults": dict(fs.counts), "loader": {w["loader"]: 1}, "mode": {"threads": 1},
                      "forced switches": s.n_forced, "blocked on locks": s.n_blocked,
                      "simulated seconds": s.now, "interleavings": [s.digest()]}}


shrink = runner.shrinker("ops", "threads+", "threads.*", "switches", "world.locales+", "world.roots+",
                         "world.rids+", "world.files", "world.files.*.doc")
