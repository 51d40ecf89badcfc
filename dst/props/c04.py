"""C04: one localization object can serve many threads."""
from .. import ftl, l10n, runner, sched

ID = "C04"
RUNS = {"quick": 6000, "thorough": 150000}
RULE = ("a world as in C01, 0-3 warm-up lookups, then 2-4 threads with 1-6 lookups each on one object (in a fifth "
        "of the runs on two that share a loader) "
        "under the deterministic scheduler: forced switches at random bytecode instructions of "
        "fluent.runtime and file accesses, random slow files, and in a fifth of the runs one load that "
        "stalls for 1000 simulated seconds; afterwards every message is looked up once more; "
        "non-trivial: at least one switch was forced while two threads were inside lookups; distinct "
        "by the hash of the complete schedule")
REAL = ["fluent.runtime (every bytecode instruction is a possible switch point)", "fluent.syntax parser",
        "codecs/io", "babel"]
STUB = ["threads and locks (dst.sched: one released at a time)", "disk and its latency (dst.simfs)",
        "clock (simulated)", "custom loaders and functions"]
ASSUMPTIONS = ["switches inside C code and inside the standard library do not happen (as under the GIL, "
               "except where C code calls back)"]


def generate(rng, idx, tier):
    w = l10n.gen_world(rng, sparse=.2)
    n = rng.choice([2, 2, 2, 3, 4])
    warm = l10n.gen_lookups(rng, w, rng.choice([0, 0, 1, 2, 3]))
    threads = [l10n.gen_lookups(rng, w, rng.randrange(1, 7 if n < 4 else 4)) for _ in range(n)]
    paths = sorted(w["files"])
    delays = {p: rng.choice([0, 0, 1, 7]) for p in paths} if rng.random() < .5 else {}
    if paths and rng.random() < .35:
        # a load stalls: answers from loaded bundles must not wait
        delays[rng.choice(paths)] = 1000
    sc = {"world": w, "warm": warm, "threads": threads, "delays": delays, "policy": rng.randrange(1 << 20)}
    if rng.random() < .2:
        sc["second"] = l10n.gen_second(rng, w)
        for o in warm + [o for t in threads for o in t]:
            o["obj"] = rng.randrange(2)
    if rng.random() < .3:
        sc["threads"] = [t[:2] for t in threads[:2]]
        sc["switches"] = l10n.gen_duel(rng)
    else:
        sc["switches"] = l10n.gen_switches(rng, rng.choice([300, 1500, 6000]), rng.randrange(2, 30))
    return sc


def execute(sc):
    w = sc["world"]
    fs = l10n.make_fs(w)
    worlds = [w]
    if "second" in sc:
        worlds.append(dict(w, locales=[loc for loc in sc["second"] if loc in w["locales"]] or w["locales"]))
    loader = l10n.make_loader(w, fs)
    objs = [l10n.make_l10n(x, fs, loader) for x in worlds]

    def mirrors():
        return [l10n.Mirror(x, w["files"]) for x in worlds]

    def which(o):
        return o.get("obj", 0) if len(worlds) > 1 else 0

    base = mirrors()
    for o in sc["warm"]:
        base[which(o)].lookup(o["msg"], o["args"])
        objs[which(o)].format_value(o["msg"], ftl.build_args(o["args"]))
    fs.delays = dict(sc["delays"])
    s = sched.Sched(sc["switches"], sc["policy"])
    bad, results = [], []
    active = [0]
    stats = {"overlap": 0, "fast": 0}

    def body(tid, lookups):
        mirror = mirrors()
        for k, o in enumerate(lookups):
            exp = mirror[which(o)].lookup(o["msg"], o["args"])
            loaded = base[which(o)].find(o["msg"]) is not None
            t0 = s.now
            me = s.cur
            waited0 = me.waits
            active[0] += 1
            if active[0] > 1:
                stats["overlap"] += 1
            try:
                got = objs[which(o)].format_value(o["msg"], ftl.build_args(o["args"]))
            except Exception as e:
                got = e
            active[0] -= 1
            results.append((tid, o["msg"], repr(got)))
            if isinstance(got, Exception):
                bad.append(("raised", f"thread {tid}: lookup {k} of {o['msg']!r} raised {got!r}, expected {exp!r}"))
            elif got != exp:
                bad.append(("answer", f"thread {tid}: lookup {k} of {o['msg']!r} gave {got!r}, expected {exp!r}"))
            elif loaded:
                stats["fast"] += 1
                # (simulated time also passes when a load turns out to be quick after all)
                if me.waits > waited0 and s.now - t0 >= 500:
                    bad.append(("waited", f"thread {tid}: lookup {k} of {o['msg']!r}, answered by a loaded bundle, "
                                f"waited {s.now - t0} s for a load in another thread"))

    for tid, lookups in enumerate(sc["threads"]):
        s.spawn(lambda tid=tid, lookups=lookups: body(tid, lookups))
    problem = s.run()
    if problem:
        return runner.fail(problem[0], problem[1], s.digest())
    if bad:
        return runner.fail(bad[0][0], bad[0][1], s.digest(), results)
    mirror = mirrors()
    args = {"n": 5, "s": "u", "f": 2.25, "x": "w"}
    for j, m in [(j, m) for m in w["msgs"] + ["nosuch"] for j in range(len(objs))]:
        exp = mirror[j].lookup(m, args)
        try:
            got = objs[j].format_value(m, args)
        except Exception as e:
            got = e
        if isinstance(got, Exception) or got != exp:
            return runner.fail("later", f"after the threads ended, lookup of {m!r} gave {got!r}, "
                               f"expected {exp!r}", s.digest(), results)
    return {"digest": runner.digest_of(s.digest(), results), "sig": s.digest(),
            "nontrivial": stats["overlap"] > 0 and s.n_forced + s.n_sleep > 0,
            "stats": {"lookups": len(results), "overlapping lookups": stats["overlap"],
                      "lookups answerable by warm bundles": stats["fast"], "forced switches": s.n_forced,
                      "waits for a lock": s.n_blocked, "sleeps": s.n_sleep,
                      "simulated seconds": round(s.now), "ticks": s.tick, "threads": len(sc["threads"]),
                      "two objects, one loader": int(len(objs) > 1),
                      "stalled loads": sum(d == 1000 for d in sc["delays"].values()),
                      "switch sites (distinct)": [str(x) for x in s.switch_sites if x],
                      "loader": {w["loader"]: 1}},
            "sample": {"locales": w["locales"], "files": sorted(w["files"]),
                       "threads": [[o["msg"] for o in t] for t in sc["threads"]],
                       "schedule": [str(e) for e in s.log if e[0] in ("switch", "sleep", "blocked")][:12]}}


shrink = runner.shrinker("threads+", "threads.*", "warm", "switches", "delays", "world.locales+",
                         "world.roots+", "world.rids+", "world.files", "world.files.*.doc")
