"""C05: one bundle can serve many threads while resources are added."""
from .. import bundles, fns, ftl, l10n, model, runner, sched

ID = "C05"
RUNS = {"quick": 6000, "thorough": 150000}
RULE = ("a bundle with 0-2 resources, then 2-4 threads under the deterministic scheduler that check for, "
        "retrieve and format messages and add further resources (with and without overrides); switches "
        "are forced at random bytecode instructions of fluent.runtime, custom functions take simulated "
        "time; each outcome must be one the reference model allows for definitions in force during the "
        "call; afterwards every message is formatted once more; non-trivial: a format call overlapped "
        "an add or another format call; distinct by the hash of the complete schedule")
REAL = ["fluent.runtime (every bytecode instruction is a possible switch point)", "fluent.syntax parser", "babel"]
STUB = ["threads and locks (dst.sched)", "clock (simulated)", "custom functions of the application"]
ASSUMPTIONS = ["references are acyclic", "switches inside C code and the standard library do not happen"]


def generate(rng, idx, tier):
    msgs = ["m%d" % i for i in range(rng.randrange(2, 6))]
    terms = ["t%d" % i for i in range(rng.randrange(3))]
    nres = rng.randrange(2, 6)
    docs = bundles.gen_resources(rng, nres, msgs, terms, depth=1, missing=.04)
    initial = [[i, rng.random() < .3] for i in range(rng.choice([0, 1, 1, 2]))]
    rest = list(range(len(initial), nres))
    nt = rng.choice([2, 2, 3, 4])
    threads = [[] for _ in range(nt)]
    for t in threads:
        for _ in range(rng.randrange(1, 5)):
            t.append({"op": "use", "msg": rng.choice(msgs), "attr": rng.choice([None] * 4 + ["a", "b"]),
                      "args": ftl.gen_args(rng, bundles.VARS)})
    for r in rest:
        t = threads[rng.randrange(min(nt, 2))]
        t.insert(rng.randrange(len(t) + 1), {"op": "add", "res": r, "over": rng.random() < .5})
    duel = rng.random() < .4
    if duel:
        threads = gen_fight(rng, docs, msgs, initial, nres)
    spec = {"F": {"do": "join", "delay": rng.choice([0, 0, 1])},
            "G": {"do": rng.choice(["join", "first", "count"]), "delay": rng.choice([0, 0, 2])}}
    return {"locale": rng.choice(bundles.LOCS), "iso": rng.random() < .4, "docs": docs, "fns": spec,
            "initial": initial, "threads": threads, "msgs": msgs, "policy": rng.randrange(1 << 20),
            "switches": l10n.gen_duel(rng) if duel else l10n.gen_switches(rng, rng.choice([200, 800, 3000]), rng.randrange(2, 30))}


def gen_fight(rng, docs, msgs, initial, nres):
    """One thread formats a message while the other one changes what it refers to."""
    g = ftl.Gen(rng, msgs, [], "·x", variables=bundles.VARS, missing=0, depth=0)
    first = rng.choice(msgs)
    refs = [m for m in msgs if m > first]
    old, new = docs[0], docs[-1]
    old[:] = [e for e in old if e["k"] != "m" or e["id"] != first]
    m = g.message(first, True)
    for r in refs:
        m["v"] += [" ", ["msg", r, rng.choice([None, "a", "a", "b"])]]
        if rng.random() < .7:
            e = g.message(r)
            e["a"] = {a: e["a"].get(a) or [g.word()] for a in ("a", "b") if rng.random() < .6}
            if e["v"] is not None or e["a"]:
                old.append(e)
        if rng.random() < .7:
            e = g.message(r)
            e["a"] = {a: e["a"].get(a) or [g.word()] for a in ("a", "b") if rng.random() < .5}
            if e["v"] is not None or e["a"]:
                new.append(e)
    old.append(m)
    initial[:] = [[0, False]]
    use = {"op": "use", "msg": first, "attr": None, "args": ftl.gen_args(rng, bundles.VARS)}
    add = {"op": "add", "res": nres - 1, "over": rng.random() < .8}
    t = [[use] + [dict(use)] * rng.randrange(2), [add]]
    if rng.random() < .3:
        t.append([dict(use)])
    return t


def execute(sc):
    from fluent.runtime import FluentBundle
    f = fns.Fns(sc["fns"])
    b = FluentBundle([sc["locale"]], functions=f.real(), use_isolating=sc["iso"])
    m = model.Bundle([sc["locale"]], sc["iso"], f.model())
    docs = sc["docs"]
    parsed = [bundles.parse(d) for d in docs]
    # writes: per entry, [start, end, override, definition]
    writes = {}
    s = sched.Sched(sc["switches"], sc["policy"])
    clock = [0]

    def tickclock():
        clock[0] += 1
        return clock[0]

    def note_add(r, over, start):
        recs = []
        for kind, id, e in bundles.defs(docs[r]):
            rec = [start, float("inf"), over, e]
            writes.setdefault((kind, id), []).append(rec)
            recs.append(rec)
        return recs

    for r, over in sc["initial"]:
        recs = note_add(r, over, tickclock())
        b.add_resource(parsed[r], allow_overrides=over)
        end = tickclock()
        for rec in recs:
            rec[1] = end
    bad, uses = [], []
    inside = [0]
    stats = {"overlap": 0, "multi": 0, "ambiguous": 0}

    def candidates_for(start, end):
        def cands(kind, id):
            ws = writes.get((kind, id), [])
            out = []
            for i, w in enumerate(ws):
                if w[0] > end:
                    continue
                same_add = [x for x in ws if x[0] == w[0]]
                if w[2]:
                    # overridden within the same resource by a later item: only for a moment
                    gone = any(o is not w and o[2] and o[0] > w[1] and o[1] < start for o in ws)
                    later = [x for x in same_add if ws.index(x) > i]
                    if later and w[1] < start:
                        gone = True
                else:
                    gone = any(o is not w and o[1] < w[0] for o in ws)
                    if any(ws.index(x) < i for x in same_add):
                        gone = True
                    if any(o is not w and o[2] and o[0] > w[1] and o[1] < start for o in ws):
                        gone = True
                if not gone:
                    out.append(w[3])
            if not any(w[1] < start for w in ws):
                out.append(None)
            return out
        return cands

    def body(tid, ops):
        for k, op in enumerate(ops):
            inside[0] += 1
            if inside[0] > 1:
                stats["overlap"] += 1
            start = tickclock()
            if op["op"] == "add":
                recs = note_add(op["res"], op["over"], start)
                try:
                    b.add_resource(parsed[op["res"]], allow_overrides=op["over"])
                except Exception as e:
                    bad.append(("add", f"thread {tid}: add_resource raised {e!r}"))
                end = tickclock()
                for rec in recs:
                    rec[1] = end
                inside[0] -= 1
                continue
            try:
                got = bundles.use(b, op["msg"], op["attr"], ftl.build_args(op["args"]))
            except Exception as e:
                got = ("raised", repr(e))
            end = tickclock()
            inside[0] -= 1
            uses.append((tid, k, op, start, end, got))

    for tid, ops in enumerate(sc["threads"]):
        s.spawn(lambda tid=tid, ops=ops: body(tid, ops))
    problem = s.run()
    if problem:
        return runner.fail(problem[0], problem[1], s.digest())
    for mid in sc["msgs"]:
        for attr in (None, "a"):
            start = tickclock()
            args = {"n": 5, "s": "u", "f": 2.25, "x": "w"}
            try:
                got = bundles.use(b, mid, attr, args)
            except Exception as e:
                got = ("raised", repr(e))
            uses.append(("later", 0, {"msg": mid, "attr": attr, "args": args}, start, tickclock(), got))
    log = [(u[0], u[1], u[5][:2]) for u in uses]
    if bad:
        return runner.fail(bad[0][0], bad[0][1], s.digest(), log)
    for tid, k, op, start, end, got in uses:
        exps = bundles.outcomes(m, op["msg"], op["attr"], op["args"], candidates_for(start, end))
        if exps is None:
            stats["ambiguous"] += 1
            continue
        stats["multi"] += len(exps) > 1
        if not any(bundles.same(got, e) for e in exps):
            return runner.fail("raised" if got[0] == "raised" else "outcome",
                               f"thread {tid}, op {k} on {op['msg']!r}.{op['attr']}: got {show(got)}, "
                               f"possible: {[show(e) for e in exps[:4]]}", s.digest(), log)
    # First definitions stay: if an entry was only ever added without overrides, all agree.
    for (kind, id), ws in writes.items():
        if kind == "m" and len(ws) > 1 and not any(w[2] for w in ws):
            seen = {repr(u[5][1:2]) for u in uses
                    if u[2]["msg"] == id and u[2]["attr"] is None and u[5][0] == "ok"
                    and is_plain(ws)}
            if len(seen) > 1:
                return runner.fail("unstable", f"{id!r} changed its definition without overrides: {seen}",
                                   s.digest(), log)
    return {"digest": runner.digest_of(s.digest(), log), "sig": s.digest(),
            "nontrivial": stats["overlap"] > 0,
            "stats": {"calls": len(uses), "overlapping calls": stats["overlap"],
                      "calls with several possible outcomes": stats["multi"],
                      "calls with too many possible outcomes (accepted)": stats["ambiguous"],
                      "forced switches": s.n_forced, "sleeps": s.n_sleep, "waits for a lock": s.n_blocked,
                      "simulated seconds": s.now, "ticks": s.tick,
                      "switch sites (distinct)": [str(x) for x in s.switch_sites if x]},
            "sample": {"threads": [[(o["op"], o.get("msg", o.get("res"))) for o in t] for t in sc["threads"]],
                       "schedule": [str(e) for e in s.log if e[0] in ("switch", "sleep")][:10],
                       "outcomes": [str(x)[:120] for x in log[:3]]}}


def is_plain(ws):
    """All definitions are texts only, hence tell themselves apart."""
    return all(w[3]["v"] is not None and all(isinstance(x, str) for x in w[3]["v"]) for w in ws)


def show(o):
    if o[0] == "ok":
        return (o[1], [e if isinstance(e, tuple) else repr(e) for e in o[2]])
    return o


shrink = runner.shrinker("threads+", "threads.*", "switches", "initial", "docs.*", "docs.*.*.v+")
