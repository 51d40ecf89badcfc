"""C08: a failure inside a placeable stays inside it."""
import io
import warnings

from .. import bundles, fns, ftl, l10n, model, runner, sched, simfs

ID = "C08"
RUNS = {"quick": 4500, "thorough": 120000}
RULE = ("one bundle and one localization object, 1-3 threads making 2-6 calls each; during a call a fault "
        "plan is in force: custom functions raise one of 17 ordinary exceptions at their n-th call, value "
        "formatters raise, opening or reading time-zone data fails or is torn, warnings are errors, options "
        "are invalid; the text outside the failed placeables, the identity of the raised exceptions in the "
        "error list and all other errors are compared with the reference model, and the next undisturbed "
        "call with its exact answer; non-trivial: at least one fault was injected")
REAL = ["fluent.runtime", "fluent.syntax parser", "babel", "pytz (reading the real time-zone files)"]
STUB = ["threads and locks (dst.sched)", "failing reads of time-zone files", "custom functions and types"]
ASSUMPTIONS = ["references are acyclic", "what a failed placeable shows is not specified"]

VARS = ("n", "s", "f", "x", "d", "c")
BAD = ['NUMBER($n, bogus: 1)', 'NUMBER($n, style: "currency")', 'NUMBER($n, style: "nope")',
       'NUMBER($n, minimumFractionDigits: "x")', 'NUMBER()', 'NUMBER($s)', 'DATETIME($n)',
       'DATETIME($d, timeZone: "Mars/Phobos")', 'DATETIME($d, dateStyle: "nope")', 'DATETIME($d, bogus: 1)',
       'NUMBER($n, maximumFractionDigits: "x")', 'NUMBER($c)', 'DATETIME()', 'NUMBER("5")',
       'NUMBER(NUMBER($n, style: "nope"), style: "currency", currency: 7)']
BAD = BAD[:-1]
WARN = [['NUMBER($n, style: "currency", currency: "EUR", currencyDisplay: "name")',
         ["fn", "NUMBER", [["var", "n"]], {"style": ["str", "currency"], "currency": ["str", "EUR"]}]],
        ['DATETIME($d, weekday: "long")', ["fn", "DATETIME", [["var", "d"]], {}]],
        ['DATETIME($d, hour12: 1, dateStyle: "short")',
         ["fn", "DATETIME", [["var", "d"]], {"dateStyle": ["str", "short"]}]]]
ZONES = ["Europe/Berlin", "America/New_York", "Asia/Kolkata", "Australia/Sydney"]


def spice(rng, doc):
    """Put date-time expressions and invalid or warning ones into patterns of messages."""
    for e in doc:
        if e["k"] != "m":
            continue
        for pat in [e["v"]] + list(e["a"].values()):
            if pat is None or rng.random() < .5:
                continue
            i = rng.randrange(len(pat) + 1)
            r = rng.random()
            if r < .35:
                x = ["bad", rng.choice(BAD)]
            elif r < .5:
                x = ["warn"] + rng.choice(WARN)
            else:
                named = {"timeZone": ["str", rng.choice(ZONES)]}
                if rng.random() < .6:
                    named["timeStyle"] = ["str", rng.choice(["short", "medium"])]
                if rng.random() < .6:
                    named["dateStyle"] = ["str", rng.choice(["short", "medium", "long", "full"])]
                x = ["fn", "DATETIME", [["var", "d"]], named]
            # after a text ending in a blank, so that the blank is kept
            pat.insert(i, x)
            if i == 0 and len(pat) > 1 and isinstance(pat[1], str):
                pat.insert(0, "·")
            if i == len(pat) - 1:
                pat.append("·")


def gen_args(rng):
    out = {"n": rng.choice([0, 1, 2, 1234567]), "s": rng.choice(["u", "v", "zéro"]),
           "f": rng.choice([.5, 2.25]), "x": rng.choice(["u", "w", 3, ["bad"]]),
           "d": ["dt", 2021, rng.choice([1, 7, 10]), rng.randrange(1, 29), rng.randrange(24), 30, 5],
           "c": ["cust", rng.choice(["ü", "w", "x"])]}
    return out


def gen_plan(rng):
    plan = {}
    for n in ("F", "G", "H"):
        if rng.random() < .45:
            plan[n] = {"err": rng.choice(sorted(fns.ERRORS)), "from": rng.choice([1, 1, 1, 2, 3]),
                       "times": rng.choice([1, 1, 2, 10**6])}
    if rng.random() < .4:
        plan["cust"] = {rng.choice(["ü", "w", "x"]): rng.choice(sorted(fns.ERRORS)) for _ in range(2)}
    if rng.random() < .4:
        plan["tz"] = rng.choice(["EIO", "EMFILE", "EACCES", "ENOENT", "ENOMEM", "torn", "torn"])
    return plan


def generate(rng, idx, tier):
    msgs = ["m%d" % i for i in range(rng.randrange(2, 6))]
    terms = ["t%d" % i for i in range(rng.randrange(3))]
    docs = bundles.gen_resources(rng, 1, msgs, terms, share=.95, depth=1, missing=.03, variables=VARS,
                                 functions=["F", "G", "H", "F", "NUMBER", "DATETIME"])
    for d in docs:
        spice(rng, d)
    threads = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        ops = []
        for _ in range(rng.randrange(2, 7)):
            ops.append({"msg": rng.choice(msgs), "attr": rng.choice([None] * 4 + ["a"]), "args": gen_args(rng),
                        "plan": gen_plan(rng) if rng.random() < .65 else {},
                        "via": "l10n" if rng.random() < .2 else "bundle"})
            if rng.random() < .5:   # the same again, undisturbed
                ops.append({**ops[-1], "plan": {}})
        threads.append(ops)
    return {"locale": rng.choice(bundles.LOCS), "iso": rng.random() < .5, "docs": docs,
            "do": {"F": "join", "G": rng.choice(["first", "count", "join"]), "H": "join"},
            "werr": rng.random() < .5, "threads": threads, "policy": rng.randrange(1 << 20),
            "switches": l10n.gen_switches(rng, 1500, rng.randrange(2, 20)) if len(threads) > 1 else []}


class World:
    def __init__(self, sc):
        self.sc = sc
        self.plans = {}        # thread -> the call's state

    def state(self):
        s = sched.CURRENT
        t = s.me() if s is not None else None
        return self.plans.get(t.id if t is not None else -1)

    def failing(self, spec, k):
        return spec is not None and spec["from"] <= k < spec["from"] + spec["times"]

    def real(self, name):
        def fn(*args, **kwargs):
            from fluent.runtime.types import FluentInt
            st = self.state()
            cur = sched.CURRENT
            if cur is not None:
                cur.yield_point("fn " + name)
            k = st["n"][name] = st["n"].get(name, 0) + 1
            if self.failing(st["plan"].get(name), k):
                e = fns.ERRORS[st["plan"][name]["err"]](f"boom {name}#{k}")
                st["raised"].append(e)
                raise e
            do = self.sc["do"][name]
            if do == "first":
                return args[0] if args else ""
            if do == "count":
                return FluentInt(len(args))
            return fns.join(name, [fns.real_show(a) for a in args],
                            {k: fns.real_show(v) for k, v in kwargs.items()})
        return fn

    def model(self, name):
        def fn(pos, named):
            st = self.mstate
            k = st["n"][name] = st["n"].get(name, 0) + 1
            if self.failing(st["plan"].get(name), k):
                raise fns.SimError()
            do = self.sc["do"][name]
            if do == "first":
                return pos[0] if pos else ("str", "")
            if do == "count":
                return ("num", len(pos), {})
            return ("str", fns.join(name, [model.show(a) for a in pos],
                                    {k: model.show(v) for k, v in named.items()}))
        return fn

    def before_format(self, value):
        st = self.state()
        err = (st or {"plan": {}})["plan"].get("cust", {}).get(value.cust)
        if err:
            e = fns.ERRORS[err](f"boom format {value.cust}")
            st["raised"].append(e)
            raise e

    def tz_hook(self, path):
        if "/zoneinfo/" not in path or "pytz" not in path:
            return None
        st = self.state()
        kind = st["plan"].get("tz") if st else None
        if not kind:
            return None
        st["zones"].append(path.split("/zoneinfo/")[1])
        if kind == "torn":
            st["torn"] += 1
            with simfs._real["open"](path, "rb") as f:
                return io.BytesIO(f.read()[:(sum(path.encode()) % 40)])
        import errno
        import os
        no = getattr(errno, kind)
        e = OSError(no, os.strerror(no), path)
        st["raised"].append(e)
        raise e

    def args(self, spec):
        out = ftl.build_args(spec)
        if spec and "c" in spec:
            out["c"] = ftl.custom(spec["c"][1], self.before_format)
        return out


def compare(got, exp, st):
    """None, or what is wrong."""
    if got[0] != exp[0]:
        return "outcome"
    if got[0] != "ok":
        return None
    if not model.matches_lost(str(got[1]), exp[1]):
        return "text"
    if got[2] is None:      # a localization call
        return None
    errors = list(got[2])
    for r in st["raised"]:
        if not any(e is r for e in errors):
            return f"the exception {r!r} is not in the error list"
    rest = [fns.error_key(e) for e in errors if not any(e is r for r in st["raised"])]
    wild = st["torn"]
    for e in exp[2]:
        if e[0] == "raised":
            continue
        if e[0] is None:
            wild += 1
            continue
        hit = [x for x in rest if x[0] == e[0] and (e[1] is None or x[1] == e[1])]
        if not hit:
            return f"no error {e} reported"
        rest.remove(hit[0])
    if len(rest) != wild:
        return f"errors {rest} instead of {wild} unspecified ones"
    return None


def execute(sc):
    from fluent.runtime import FluentBundle, FluentLocalization
    simfs.install(simfs.SimFS())
    w = World(sc)
    simfs.real_hook = w.tz_hook
    names = list(sc["do"])
    table = {n: w.real(n) for n in names}
    b = FluentBundle([sc["locale"]], functions=table, use_isolating=sc["iso"])
    m = model.Bundle([sc["locale"]], sc["iso"], {n: w.model(n) for n in names})
    m.lose, m.werr = True, sc["werr"]
    parsed = [bundles.parse(d) for d in sc["docs"]]
    for d, p in zip(sc["docs"], parsed):
        b.add_resource(p)
        m.add(d)

    class Loader:
        def resources(self, locale, ids):
            yield list(parsed)

    l10n_obj = FluentLocalization([sc["locale"]], ["r"], Loader(), use_isolating=sc["iso"], functions=table)
    for z in ZONES:
        model.zone(z)
    log = []
    s = sched.Sched(sc["switches"], sc["policy"])

    def body(tid, ops):
        for k, o in enumerate(ops):
            st = {"plan": o["plan"], "n": {}, "raised": [], "torn": 0, "zones": []}
            w.plans[tid] = st
            try:
                if o["via"] == "l10n":
                    got = ("ok", l10n_obj.format_value(o["msg"], w.args(o["args"])), None)
                else:
                    got = bundles.use(b, o["msg"], o["attr"], w.args(o["args"]))
            except Exception as e:
                got = ("raised", repr(e))
            st["plan"] = {}
            log.append((tid, k, o, got, st))

    with warnings.catch_warnings():
        warnings.simplefilter("error" if sc["werr"] else "ignore")
        for tid, ops in enumerate(sc["threads"]):
            s.spawn(lambda tid=tid, ops=ops: body(tid, ops))
        problem = s.run()
    simfs.real_hook = None
    if problem:
        return runner.fail(problem[0], problem[1], s.digest())
    dig = [(x[0], x[1], x[3][:2]) for x in log]
    faults = {}
    for tid, k, o, got, st in log:
        w.mstate = {"plan": o["plan"], "n": {}}
        m.lost_zones = set(st["zones"])
        m.cust_fails = o["plan"].get("cust", {})
        e = m.messages.get(o["msg"])
        attr = None if o["via"] == "l10n" else o["attr"]
        pat = None if e is None else e["v"] if attr is None else e["a"].get(attr)
        if o["via"] == "l10n" and pat is None:
            exp = ("ok", o["msg"], [])
        elif e is None:
            exp = ("absent",)
        elif pat is None:
            exp = ("nopattern",)
        else:
            exp = ("ok",) + tuple(m.format(o["msg"], attr, o["args"]))
        wrong = compare(got, exp, st)
        if wrong:
            return runner.fail(wrong if wrong in ("outcome", "text") else "errors",
                               f"thread {tid}, call {k} on {o['msg']!r}.{attr} ({o['via']}, faults "
                               f"{o['plan']}): {wrong}: got {got[:2]} "
                               f"{bundles.errs(got[2]) if got[0] == 'ok' and got[2] is not None else ''}, expected "
                               f"{str(exp).replace(model.LOST, '<lost>')}", s.digest(), dig)
        for r in st["raised"]:
            kind = ("tz " if isinstance(r, OSError) and r.errno else "raised ") + type(r).__name__
            faults[kind] = faults.get(kind, 0) + 1
        if st["torn"]:
            faults["tz torn"] = faults.get("tz torn", 0) + st["torn"]
        nb = sum(x[0] is None for x in exp[2]) if len(exp) > 2 else 0
        if nb:
            faults["invalid options or warnings"] = faults.get("invalid options or warnings", 0) + nb
    return {"digest": runner.digest_of(s.digest(), dig), "sig": runner.digest_of(s.digest(), dig),
            "nontrivial": bool(faults),
            "stats": {"calls": len(log), "faults injected": faults, "forced switches": s.n_forced,
                      "simulated seconds": s.now, "ticks": s.tick},
            "sample": {"calls": [str(x)[:160] for x in dig[:4]], "faults": faults}}


shrink = runner.shrinker("threads+", "threads.*", "threads.*.*.plan", "switches", "docs.*", "docs.*.*.v+")
