"""C07: calls and bundles do not leak into each other."""
import attr

from .. import bundles, fns, ftl, l10n, model, runner, sched

ID = "C07"
RUNS = {"quick": 4500, "thorough": 120000}
RULE = ("2-4 bundles that differ in locale, isolation and functions and share resources, one function "
        "table, argument dictionaries and argument values (numbers and dates with options, custom types); "
        "1-4 threads under the deterministic scheduler format messages, custom functions format further "
        "messages from inside; each call's text and errors must be those the reference model gives for "
        "that call alone; afterwards everything passed in, the built-in tables and all error lists are "
        "compared with their state before; non-trivial: calls overlapped or were nested")
REAL = ["fluent.runtime (every bytecode instruction is a possible switch point)", "fluent.syntax parser", "babel"]
STUB = ["threads and locks (dst.sched)", "clock (simulated)", "custom functions and types of the application"]
ASSUMPTIONS = ["references are acyclic", "switches inside C code and the standard library do not happen"]

VARS = ("n", "s", "f", "x", "d", "c")
NUMOPTS = [{"minimumFractionDigits": 2}, {"maximumFractionDigits": 4}, {"useGrouping": False},
           {"style": "percent"}, {"style": "currency", "currency": "EUR"},
           {"style": "currency", "currency": "JPY"},
           {"style": "currency", "currency": "EUR", "currencyDisplay": "code"},
           {"style": "currency", "currency": "USD", "currencyDisplay": "code", "useGrouping": 0},
           {"style": "percent", "useGrouping": False}, {"maximumFractionDigits": 0},
           {"minimumIntegerDigits": 4}, {"minimumIntegerDigits": 2, "minimumFractionDigits": 1},
           {"type": "ordinal"}, {"type": "ordinal", "minimumFractionDigits": 1},
           {"minimumSignificantDigits": 2}, {"minimumSignificantDigits": 2, "maximumSignificantDigits": 4}]


def gen_args(rng):
    out = ftl.gen_args(rng, VARS)
    for v in list(out):
        if v in "nf" and rng.random() < .5:
            out[v] = ["fnum", out[v], rng.choice(NUMOPTS + [{}] * 3)]
        elif v == "c" and out[v][0] == "dec" and rng.random() < .6:
            out[v] = ["fnum", out[v], rng.choice(NUMOPTS + [{}] * 4)]
        elif v == "d" and rng.random() < .5:
            out[v] = ["fdate", out[v], {"dateStyle": rng.choice(["full", "long", "short"])}]
    return out


def generate(rng, idx, tier):
    msgs = ["m%d" % i for i in range(rng.randrange(2, 6))]
    terms = ["t%d" % i for i in range(rng.randrange(3))]
    nb = rng.choice([2, 2, 3, 4])
    nres = rng.randrange(1, 4)
    names = ["F", "G", "N"]
    docs = bundles.gen_resources(rng, nres, msgs, terms, share=.8, depth=1, missing=.05, variables=VARS,
                                 functions=names + ["NUMBER"] * 4 + ["DATETIME"], numopts=NUMOPTS)
    bs = []
    for i in range(nb):
        res = [r for r in range(nres) if rng.random() < .8] or [0]
        bs.append({"locale": rng.choice(bundles.LOCS), "iso": rng.random() < .5, "res": res,
                   "fns": rng.choice(["shared", "shared", "own", "none"])})
    shared = {"F": {"do": "join", "delay": rng.choice([0, 0, 1])},
              "G": {"do": rng.choice(["first", "count"])},
              "N": {"do": "nest", "b": rng.randrange(nb), "msg": rng.choice(msgs), "args": rng.choice([None, 0, 1]),
                    "delay": rng.choice([0, 0, 1])}}
    own = {"G": {"do": "join", "delay": 1},
           "N": {"do": "nest", "b": rng.randrange(nb), "msg": rng.choice(msgs), "args": 1}}
    if rng.random() < .2:
        own["NUMBER"] = {"do": "first"}
    nt = rng.choice([1, 2, 2, 3, 4])
    threads = []
    for _ in range(nt):
        threads.append([{"b": rng.randrange(nb), "msg": rng.choice(msgs),
                         "attr": rng.choice([None] * 4 + ["a"]),
                         "args": gen_args(rng) if rng.random() < .3 else rng.choice([None, 0, 0, 1, 1, 2])}
                        for _ in range(rng.randrange(1, 6))])
    return {"docs": docs, "bundles": bs, "shared": shared, "own": own, "args": [gen_args(rng) for _ in range(3)],
            "threads": threads, "msgs": msgs, "policy": rng.randrange(1 << 20),
            "switches": l10n.gen_switches(rng, rng.choice([300, 1500, 5000]), rng.randrange(2, 30))
            if nt > 1 else []}


class Depth:
    """How deep the current thread is in nested calls."""

    def __init__(self):
        self.d = {}

    def key(self):
        s = sched.CURRENT
        return s.me().id if s is not None and s.me() is not None else -1


def nest_text(text, errors):
    errors = ",".join(x[0] if x[0] == "ValueError" else "%s:%s" % x for x in errors if x[0] != "TypeError")
    if len(text) + len(errors) > 80:   # far from the limit of 2500 characters
        return "(" + text[:20] + "#" + runner.digest_of(str(text), errors) + ")"
    return "(" + text + "|" + errors + ")"


def snapshot(x):
    """The observable state of an argument value."""
    opts = getattr(x, "options", None)
    return (type(x).__name__, repr(x), repr(attr.asdict(opts)) if opts is not None else None,
            sorted((k, repr(v)) for k, v in getattr(x, "__dict__", {}).items() if k != "options"))


def execute(sc):
    from fluent.runtime import FluentBundle, builtins
    from fluent.runtime.types import FluentNumber
    world = {"real": [], "model": []}
    args = [ftl.build_args(a) for a in sc["args"]]
    held = [dict(a) for a in args]
    depth = Depth()
    results = []   # (errors list, copy)
    nested = [0]

    def nest_real(s):
        def fn(*pos, **named):
            k = depth.key()
            if depth.d.get(k, 0) >= 2:
                return "deep"
            cur = sched.CURRENT
            if cur is not None:
                cur.sleep(s["delay"], "N") if s.get("delay") else cur.yield_point("N")
            depth.d[k] = depth.d.get(k, 0) + 1
            nested[0] += 1
            try:
                b = world["real"][s["b"]]
                if not b.has_message(s["msg"]):
                    return "absent"
                m = b.get_message(s["msg"])
                if m.value is None:
                    return "novalue"
                t, e = b.format_pattern(m.value, None if s["args"] is None else args[s["args"]])
                results.append((e, list(e)))
                return nest_text(t, [fns.error_key(x) for x in e])
            finally:
                depth.d[k] -= 1
        return fn

    mdepth = [0]

    def nest_model(s):
        def fn(pos, named):
            if mdepth[0] >= 2:
                return ("str", "deep")
            mdepth[0] += 1
            try:
                b = world["model"][s["b"]]
                e = b.messages.get(s["msg"])
                if e is None:
                    return ("str", "absent")
                if e["v"] is None:
                    return ("str", "novalue")
                t, errs = b.format(s["msg"], None, None if s["args"] is None else sc["args"][s["args"]])
                return ("str", nest_text(t, errs))
            finally:
                mdepth[0] -= 1
        return fn

    def tables(spec):
        f = fns.Fns({k: v for k, v in spec.items() if v["do"] != "nest"})
        real, mod = f.real(), f.model()
        for k, v in spec.items():
            if v["do"] == "nest":
                real[k], mod[k] = nest_real(v), nest_model(v)
        return real, mod

    shared_real, shared_model = tables(sc["shared"])
    own_real, own_model = tables(sc["own"])
    parsed = [bundles.parse(d) for d in sc["docs"]]
    before = {"res": [p.to_json() for p in parsed],
              "shared": list(shared_real.items()), "own": list(own_real.items()),
              "args": [[(k, snapshot(v)) for k, v in a.items()] for a in args],
              "builtins": list(builtins.BUILTINS.items()),
              "defaults": attr.asdict(FluentNumber.default_number_format_options)}

    def make(i):
        c = sc["bundles"][i]
        table = {"shared": shared_real, "own": own_real, "none": None}[c["fns"]]
        mtable = {"shared": shared_model, "own": own_model, "none": None}[c["fns"]]
        locs = [c["locale"]]
        b = FluentBundle(locs, functions=table, use_isolating=c["iso"])
        m = model.Bundle([c["locale"]], c["iso"], mtable)
        for r in c["res"]:
            b.add_resource(parsed[r])
            m.add(sc["docs"][r])
        return b, m

    for i in range(len(sc["bundles"])):
        b, m = make(i)
        world["real"].append(b)
        world["model"].append(m)
    log = []
    s = sched.Sched(sc["switches"], sc["policy"])
    inside, overlap = [0], [0]

    def call(tid, k, o, b):
        inside[0] += 1
        overlap[0] += inside[0] > 1
        try:
            # values made for one call are gone after it
            got = bundles.use(b, o["msg"], o["attr"], pick(o["args"], args, ftl.build_args))
        except Exception as e:
            got = ("raised", repr(e))
        inside[0] -= 1
        if got[0] == "ok":
            results.append((got[2], list(got[2])))
        log.append((tid, k, o, got))

    def body(tid, ops):
        for k, o in enumerate(ops):
            call(tid, k, o, world["real"][o["b"]])

    for tid, ops in enumerate(sc["threads"]):
        s.spawn(lambda tid=tid, ops=ops: body(tid, ops))
    problem = s.run()
    if problem:
        return runner.fail(problem[0], problem[1], s.digest())
    # ... and once more, each call on a bundle of its own
    for tid, k, o, got in list(log)[:6]:
        call("fresh", k, o, make(o["b"])[0])
    dig = [(x[0], x[1], x[3][:2]) for x in log]
    for tid, k, o, got in log:
        exp = expected(world["model"][o["b"]], o, sc["args"])
        if not bundles.same(got, exp):
            return runner.fail("outcome", f"thread {tid}, call {k} ({o}): got {got[:2]} "
                               f"{bundles.errs(got[2]) if got[0] == 'ok' else ''}, alone it gives {exp}",
                               s.digest(), dig)
    seen = {}
    for e, copy in results:
        if [id(x) for x in e] != [id(x) for x in copy]:
            return runner.fail("errors", f"an error list changed after its call: {copy} became {e}", s.digest(), dig)
        if id(e) in seen:
            return runner.fail("errors", f"two calls returned the same error list {e}", s.digest(), dig)
        seen[id(e)] = e
    after = {"res": [p.to_json() for p in parsed],
             "shared": list(shared_real.items()), "own": list(own_real.items()),
             "args": [[(k, snapshot(v)) for k, v in a.items()] for a in args],
             "builtins": list(builtins.BUILTINS.items()),
             "defaults": attr.asdict(FluentNumber.default_number_format_options)}
    if any(a.get(k) is not v for a, orig in zip(args, held) for k, v in orig.items()):
        return runner.fail("modified", "an argument dictionary holds other values than before", s.digest(), dig)
    for k in before:
        if before[k] != after[k]:
            return runner.fail("modified", f"{k} was modified: {str(before[k])[:300]} became {str(after[k])[:300]}",
                               s.digest(), dig)
    return {"digest": runner.digest_of(s.digest(), dig), "sig": runner.digest_of(s.digest(), dig),
            "nontrivial": overlap[0] > 0 or nested[0] > 0,
            "stats": {"calls": len(log), "overlapping calls": overlap[0], "nested calls": nested[0],
                      "forced switches": s.n_forced, "sleeps": s.n_sleep, "simulated seconds": s.now,
                      "ticks": s.tick, "switch sites (distinct)": [str(x) for x in s.switch_sites if x]},
            "sample": {"calls": [str(x)[:160] for x in dig[:4]],
                       "schedule": [str(e) for e in s.log if e[0] in ("switch", "sleep")][:10]}}


def pick(which, shared, make=lambda a: a):
    if which is None:
        return None
    return make(which) if isinstance(which, dict) else shared[which]


def expected(m, o, args):
    e = m.messages.get(o["msg"])
    if e is None:
        return ("absent",)
    pat = e["v"] if o["attr"] is None else e["a"].get(o["attr"])
    if pat is None:
        return ("nopattern",)
    return ("ok",) + tuple(m.format(o["msg"], o["attr"], pick(o["args"], args)))


shrink = runner.shrinker("threads+", "threads.*", "switches", "docs.*", "docs.*.*.v+", "args.*", "bundles.*.res")
