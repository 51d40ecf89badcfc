"""C09: an interrupted call leaves nothing behind."""
import asyncio

from .. import bundles, fns, ftl, l10n, model, runner, sched

ID = "C09"
RUNS = {"quick": 1800, "thorough": 40000}
RULE = ("a bundle (half of the runs) or a localization object over the simulated disk; a thread makes 3-9 "
        "calls (add, check, get, format, look up) of which 1-3 are cut short by KeyboardInterrupt, "
        "SystemExit, GeneratorExit, CancelledError or an own BaseException, raised at the n-th function "
        "entry in fluent.runtime or fluent.syntax, or at the n-th point in fluent.runtime at which CPython "
        "delivers interrupts, in a custom function, in a value's format method, or in a file "
        "operation or custom loader; in a third of the runs 1-2 more threads make undisturbed calls under "
        "the deterministic scheduler; in a quarter the same history is repeated for a dozen consecutive "
        "points of interruption, in others the same call is cut short up to 150 times; the exception itself must "
        "arrive, all other calls must give what the reference model gives without the interrupted calls (for an interrupted add: with some leading "
        "part); non-trivial: at least one interruption took place; distinct by points and outcomes")
REAL = ["fluent.runtime", "fluent.syntax parser", "codecs/io", "babel"]
STUB = ["threads and locks (dst.sched)", "disk (dst.simfs)", "custom loaders and functions",
        "the signal or cancellation (raised by sys.monitoring at the chosen point)"]
ASSUMPTIONS = ["interruptions arrive where CPython 3.12 delivers them: at function entries, after calls and "
               "jumps back, and in simulated operations; not inside C code or the standard library",
               "references are acyclic"]


VARS = bundles.VARS + ("c",)


class Stop(BaseException):
    pass


KINDS = {"KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "GeneratorExit": GeneratorExit,
         "CancelledError": asyncio.CancelledError, "Stop": Stop}


def gen_intr(rng, mode, op="use"):
    r = .5 if op == "add" else rng.random()
    kind = rng.choice(sorted(KINDS))
    if r < .25:
        return {"at": "fn", "fn": rng.choice("FG"), "n": rng.choice([1, 1, 2, 3]), "kind": kind}
    if r < .33 and mode == "bundle":
        return {"at": "fn", "fn": "format", "n": rng.choice([1, 1, 2]), "kind": kind}
    if r < .45 and mode == "l10n":
        return {"at": "file", "op": rng.choice(["open", "read", "stat"]), "n": rng.choice([0, 0, 1, 2]),
                "kind": kind}
    how = rng.choice(["call", "point", "point"]) if op != "add" else "point"
    top = {"bundle": 60 if how == "call" else 250, "l10n": 400 if how == "call" else 500}[mode]
    if op == "add":
        top = 40
    return {"at": how, "n": int(top ** rng.random()) + rng.randrange(3), "kind": kind}


def generate(rng, idx, tier):
    mode = rng.choice(["bundle", "l10n"])
    sc = {"mode": mode, "policy": rng.randrange(1 << 20), "switches": []}
    nt = rng.choice([1, 1, 2, 3])
    sc["sweep"] = rng.choice([1, 1, 1, 12])
    if sc["sweep"] > 1:
        nt = 1
    if mode == "bundle":
        msgs = ["m%d" % i for i in range(rng.randrange(2, 5))]
        terms = ["t%d" % i for i in range(rng.randrange(3))]
        docs = bundles.gen_resources(rng, rng.randrange(1, 4), msgs, terms, share=.8, depth=1, missing=.03, variables=VARS)
        sc.update(locale=rng.choice(bundles.LOCS), iso=rng.random() < .5, docs=docs, msgs=msgs,
                  fns={"F": {"do": "join"}, "G": {"do": rng.choice(["join", "first"])}})
        threads = []
        for t in range(nt):
            ops = []
            for _ in range(rng.randrange(3, 9)):
                ops.append({"op": "use", "msg": rng.choice(msgs), "attr": rng.choice([None] * 4 + ["a"]),
                            "args": ftl.gen_args(rng, VARS)})
            threads.append(ops)
        sc["initial"] = list(range(len(docs)))
        if nt == 1:
            sc["initial"] = [0] if rng.random() < .6 else []
            for r in range(len(sc["initial"]), len(docs)):
                threads[0].insert(rng.randrange(min(4, len(threads[0]) + 1)),
                                  {"op": "add", "res": r, "over": rng.random() < .4})
    else:
        w = l10n.gen_world(rng, sparse=.25)
        sc["world"] = w
        threads = [[{"op": "use", **o} for o in l10n.gen_lookups(rng, w, rng.randrange(2, 6))]
                   for _ in range(nt)]
    adds = [k for k, o in enumerate(threads[0]) if o["op"] == "add"]
    first = {rng.choice(adds)} if adds and rng.random() < .5 else set()
    for k in sorted(first | set(rng.sample(range(len(threads[0])), min(len(threads[0]), rng.choice([1, 1, 2, 3]))))):
        threads[0][k]["intr"] = gen_intr(rng, mode, threads[0][k]["op"])
    if nt == 1 and sc["sweep"] == 1 and rng.random() < .2:
        # the same call is cut short again and again
        for o in threads[0]:
            if "intr" in o and o["op"] == "use":
                o["times"] = rng.choice([3, 30, 70, 150])
                if rng.random() < .6:
                    o["intr"].update(at="fn", fn=rng.choice("FG"), n=1)
    if nt > 1:
        sc["switches"] = l10n.gen_switches(rng, 400, rng.randrange(2, 20))
    sc["threads"] = threads
    return sc


class Fire:
    """Raises the pending interruption at the n-th call of a function or file operation."""

    def __init__(self):
        self.pending = None    # (thread id, spec, exception)
        self.fired = False
        self.n = 0

    def arm(self, tid, spec, exc):
        self.pending, self.fired, self.n = (tid, spec, exc), False, 0

    def disarm(self):
        self.pending = None

    def hit(self, at, name):
        if self.pending is None:
            return
        tid, spec, exc = self.pending
        if spec["at"] != at or spec.get("fn", spec.get("op")) != name:
            return
        s = sched.CURRENT
        if s is None or s.me() is None or s.me().id != tid:
            return
        self.n += 1
        if self.n >= spec["n"]:
            self.pending = None
            self.fired = True
            raise exc


def functions(sc_fns, fire):
    f = fns.Fns(sc_fns)
    out = {}
    for name, fn in f.real().items():
        def wrapped(*a, _fn=fn, _name=name, **k):
            fire.hit("fn", _name)
            return _fn(*a, **k)
        out[name] = wrapped
    return out, f.model()


def execute(sc):
    log, stats = [], {"calls": 0, "interruptions": {}, "points (distinct)": [], "not reached": 0,
                      "forced switches": 0, "repeated interruptions": 0}
    for shift in range(sc["sweep"]):
        res = (bundle_episode if sc["mode"] == "bundle" else l10n_episode)(sc, shift, log, stats)
        if res:
            return res
    hits = sum(stats["interruptions"].values())
    return {"digest": runner.digest_of(log), "sig": runner.digest_of(log), "nontrivial": hits > 0,
            "stats": {**stats, "mode": {sc["mode"]: 1}},
            "sample": {"mode": sc["mode"], "log": [str(x)[:160] for x in log[:6]]}}


def run_threads(sc, shift, fire, do, log, stats):
    """Run all threads. do(tid, k, op) makes the call. -> [(tid, k, op, outcome, was interrupted)]"""
    how = {"fluent.runtime": "instr", "fluent.syntax": "call"}
    s = sched.Sched(sc["switches"], sc["policy"], watch=how)
    s.interrupts = True
    out = []
    lost = []

    def body(tid, ops):
        for k, o in ((k, o) for k, o in enumerate(ops) for _ in range(o.get("times", 1))):
            spec = o.get("intr")
            exc = None
            if out and out[-1][:2] == (tid, k):
                if not out[-1][4]:
                    continue    # it got through; made once as often as it is cut short
                stats["repeated interruptions"] += 1
            me = s.me()
            if spec:
                spec = {**spec, "n": spec["n"] + shift}
                exc = KINDS[spec["kind"]]("interrupted")
                if spec["at"] in ("call", "point"):
                    me.interrupt(spec["n"], spec["at"], exc)
                else:
                    fire.arm(tid, spec, exc)
            try:
                got = do(tid, k, o)
            except sched.Aborted:
                raise
            except BaseException as e:
                got = ("raised", e)
            fired = False
            if spec:
                me.intr = None
                fire.disarm()
                fired = me.fired_at is not None or fire.fired
                point = me.fired_at or "%s %s" % (spec["at"], spec.get("fn", spec.get("op")))
                me.fired_at, fire.fired = None, False
                if fired:
                    stats["interruptions"][spec["kind"]] = stats["interruptions"].get(spec["kind"], 0) + 1
                    stats["points (distinct)"].append(point)
                    if got[0] != "raised" or got[1] is not exc:
                        lost.append((tid, k, o, point, got))
                    log.append((tid, k, "interrupted", point))
                else:
                    stats["not reached"] += 1
            out.append((tid, k, o, got, fired))
            stats["calls"] += 1

    for tid, ops in enumerate(sc["threads"]):
        s.spawn(lambda tid=tid, ops=ops: body(tid, ops))
    problem = s.run()
    stats["forced switches"] += s.n_forced
    if problem:
        return None, runner.fail(problem[0], problem[1], log)
    if lost:
        tid, k, o, point, got = lost[0]
        return None, runner.fail("swallowed", f"thread {tid}, call {k} ({brief(o)}): the {o['intr']['kind']} raised at "
                                 f"{point} did not reach the caller, which got {str(got)[:300]}", log)
    return out, None


def brief(o):
    return {k: v for k, v in o.items() if k != "args"}


def bundle_episode(sc, shift, log, stats):
    from fluent.runtime import FluentBundle
    fire = Fire()
    real_fns, model_fns = functions(sc["fns"], fire)
    b = FluentBundle([sc["locale"]], functions=real_fns, use_isolating=sc["iso"])
    m = model.Bundle([sc["locale"]], sc["iso"], model_fns)
    parsed = [bundles.parse(d) for d in sc["docs"]]
    for r in sc["initial"]:
        b.add_resource(parsed[r])
        m.add(sc["docs"][r])

    def do(tid, k, o):
        if o["op"] == "add":
            b.add_resource(parsed[o["res"]], allow_overrides=o["over"])
            return ("added",)
        return bundles.use(b, o["msg"], o["attr"], ftl.build_args(o["args"], lambda v: fire.hit("fn", "format")))

    out, problem = run_threads(sc, shift, fire, do, log, stats)
    if problem:
        return problem
    # what is there now, terms included
    terms = sorted({e["id"] for d in sc["docs"] for e in d if e["k"] == "t"})
    probe = [{"k": "m", "id": "probe-" + t, "v": ["probe ", ["term", t, None, None]], "a": {}} for t in terms]
    b.add_resource(bundles.parse(probe))
    out.append(("later", 0, {"op": "probe"}, None, False))
    for mid in sc["msgs"] + [e["id"] for e in probe]:
        for attr in (None, "a"):
            o = {"op": "use", "msg": mid, "attr": attr, "args": {"n": 5, "s": "u", "f": 2.25, "x": "w"}}
            try:
                got = do("later", 0, o)
            except Exception as e:
                got = ("raised", e)
            out.append(("later", 0, o, got, False))
    states = [m]     # what the bundle may contain
    for tid, k, o, got, fired in out:
        if o["op"] == "probe":
            for st in states:
                st.add(probe)
            continue
        if o["op"] == "add":
            if got[0] == "raised" and not fired:
                return runner.fail("raised", f"thread {tid}, call {k}: add_resource raised {got[1]!r}", log)
            doc = sc["docs"][o["res"]]
            ends = range(len(doc) + 1) if fired else [len(doc)]
            new = {}
            for st in states:
                for end in ends:
                    c = st.copy()
                    c.add(doc[:end], o["over"])
                    new[tuple((n, id(e)) for t in (c.messages, c.terms) for n, e in sorted(t.items()))] = c
            states = list(new.values())
            continue
        if fired:
            continue
        left, exps = [], []
        for st in states:
            exp = expected(st, o)
            exps.append(exp)
            if bundles.same(got, exp):
                left.append(st)
        log.append((tid, k, repr(got[:2])))
        if not left:
            return runner.fail("later", f"thread {tid}, call {k} ({brief(o)}) after interruptions "
                               f"{[x[3] for x in log if x[2] == 'interrupted'][:4]} (shift {shift}): got {got[:2]!r} "
                               f"{bundles.errs(got[2]) if got[0] == 'ok' else ''}, possible {exps[:3]}", log)
        states = left
    return None


def expected(m, o):
    e = m.messages.get(o["msg"])
    if e is None:
        return ("absent",)
    pat = e["v"] if o["attr"] is None else e["a"].get(o["attr"])
    if pat is None:
        return ("nopattern",)
    return ("ok",) + tuple(m.format(o["msg"], o["attr"], o["args"]))


def l10n_episode(sc, shift, log, stats):
    from fluent.runtime import FluentLocalization
    w = sc["world"]
    fire = Fire()
    fs = l10n.make_fs(w)
    orig = fs.fault

    def fault(op, path):
        fire.hit("file", op)
        orig(op, path)

    fs.fault = fault
    real_fns, _ = functions(w["fns"], fire)
    obj = FluentLocalization(list(w["locales"]), list(w["rids"]), l10n.make_loader(w, fs),
                             use_isolating=w["iso"], functions=real_fns)

    def do(tid, k, o):
        return ("ok", obj.format_value(o["msg"], ftl.build_args(o["args"])))

    out, problem = run_threads(sc, shift, fire, do, log, stats)
    if problem:
        return problem
    if fs.opened:
        return runner.fail("open", f"files left open: {[h.path for h in fs.opened]}", log)
    for mid in w["msgs"] + ["nosuch"]:
        o = {"op": "use", "msg": mid, "args": {"n": 5, "s": "u", "f": 2.25, "x": "w"}}
        try:
            got = do("later", 0, o)
        except Exception as e:
            got = ("raised", e)
        out.append(("later", 0, o, got, False))
    mirror = l10n.Mirror(w, w["files"])
    for tid, k, o, got, fired in out:
        if fired:
            continue
        exp = mirror.lookup(o["msg"], o["args"])
        log.append((tid, k, repr(got)))
        if got != ("ok", exp):
            return runner.fail("later", f"thread {tid}, lookup {k} of {o['msg']!r} after interruptions "
                               f"{[x[3] for x in log if x[2] == 'interrupted'][:4]} (shift {shift}): got {got!r}, "
                               f"expected {exp!r}", log)
    return None


shrink = runner.shrinker("threads+", "threads.*", "switches", "docs.*", "docs.*.*.v+", "initial",
                         "world.locales+", "world.roots+", "world.rids+", "world.files", "world.files.*.doc")
