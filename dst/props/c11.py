"""C11: formatting does not depend on the host's clock, zone, locale or hashing."""
import ctypes
import json
import locale
import os
import subprocess
import sys
import time

from .. import bundles, env, fns, ftl, model, runner

ID = "C11"
RUNS = {"quick": 4000, "thorough": 100000}
RULE = ("messages with numbers, plurals, dates and times in all styles, display zones and custom functions, "
        "formatted with naive, fixed-offset, zoneinfo and pytz date-times, many of them in repeated or skipped "
        "hours; before every call the simulated wall clock (LD_PRELOAD), TZ, LANG/LC_* and the C locale are "
        "changed at random; each result is compared with the reference model, which was evaluated in the "
        "pristine environment and converts zones by zoneinfo; every 50th run instead executes a dozen "
        "such cases in two freshly started interpreters with other hash seeds, clocks, zones and locales; "
        "non-trivial: a result with a number or date was compared under a changed environment")
REAL = ["fluent.runtime", "fluent.syntax parser", "babel", "pytz", "the C library's zone and locale handling"]
STUB = ["the wall clock (dst/simclock.c)", "environment variables", "custom functions"]
ASSUMPTIONS = ["Babel knows at least one of the bundle's locales",
               "which names zones have is Babel's business (compared with Babel's for the zoneinfo zone)",
               "only the C locales are installed, other process locales are simulated by variables only"]

VARS = ("n", "s", "f", "d", "e", "d2")
ZONES = ["Europe/Berlin", "America/New_York", "Asia/Kolkata", "Australia/Sydney", "America/Sao_Paulo",
         "Australia/Lord_Howe", "Europe/London"]
# local times around changes of the offset
TRICKY = {"Europe/Berlin": [(2021, 10, 31, 2, 30), (2021, 3, 28, 2, 30)],
          "America/New_York": [(2021, 11, 7, 1, 30), (2021, 3, 14, 2, 30)],
          "Australia/Sydney": [(2021, 4, 4, 2, 30), (2021, 10, 3, 2, 15)],
          "America/Sao_Paulo": [(2018, 2, 17, 23, 30), (2018, 11, 4, 0, 30)],
          "Australia/Lord_Howe": [(2021, 4, 4, 1, 45), (2021, 10, 3, 2, 15)],
          "Europe/London": [(2021, 10, 31, 1, 30), (2021, 3, 28, 1, 30)],
          "Asia/Kolkata": [(2021, 6, 1, 0, 15)]}
ENVS = ["de_DE.UTF-8", "pl_PL", "ar_EG.UTF-8", "en_US.UTF-8", "C", "ja_JP.eucJP", "tlh", ""]
STYLES = ["full", "long", "medium", "short"]


def gen_dt(rng):
    r = rng.random()
    name = rng.choice(ZONES)
    t = list(rng.choice(TRICKY[name])) if rng.random() < .5 else \
        [rng.choice([1970, 1999, 2021, 2024]), rng.randrange(1, 13), rng.randrange(1, 29),
         rng.randrange(24), rng.randrange(60)]
    t.append(rng.randrange(60))
    fold = rng.randrange(2)
    if r < .25:
        return ["dtz", t, fold, "naive", ""]
    if r < .4:
        return ["dtz", t, fold, "fix", rng.choice([0, 60, -210, 345, 720, -90])]
    if r < .75:
        return ["dtz", t, fold, "zi", name]
    return ["dtz", t, fold, "pytz", name]


def gen_case(rng):
    msgs = ["m%d" % i for i in range(rng.randrange(1, 4))]
    g = ftl.Gen(rng, msgs, ["t0"], "·", variables=("n", "s", "f", "d", "e"), missing=.05, junk=0,
                functions=["F", "NUMBER", "DATETIME"])
    doc = g.doc(msgs, ["t0"])
    for e in doc:
        if e["k"] != "m" or e["v"] is None:
            continue
        for _ in range(rng.randrange(1, 3)):
            named = {}
            if rng.random() < .6:
                named["dateStyle"] = ["str", rng.choice(STYLES)]
            if rng.random() < .7:
                named["timeStyle"] = ["str", rng.choice(STYLES)]
            if rng.random() < .6:
                named["timeZone"] = ["str", rng.choice(ZONES + ["UTC"])]
            e["v"] += ["/", ["fn", "DATETIME", [["var", rng.choice(["d2", "e", "d2", "e", "d"])]], named]]
        if rng.random() < .4:
            named = rng.choice([{"style": ["str", "percent"]},
                                {"style": ["str", "currency"], "currency": ["str", "EUR"]},
                                {"minimumFractionDigits": ["num", "2"]}])
            e["v"] += ["/", ["fn", "NUMBER", [["var", rng.choice("nf")]], named]]
    args = ftl.gen_args(rng, ("s",))
    args.update(n=rng.choice([0, 1, 2, 3, 5, 11, 1234567]), f=rng.choice([.5, 1.0, 12345.75]),
                d=rng.choice([["date", 2024, 2, 29], ["dt", 2021, 7, 4, 12, 30, 5]]), e=gen_dt(rng), d2=gen_dt(rng))
    locs = [rng.choice(bundles.LOCS)]
    while rng.random() < .3:
        locs.insert(0, rng.choice(["xx-Test", "tlh", "qqq"]))
    locs += rng.sample(bundles.LOCS, rng.randrange(2))
    return {"locales": locs, "iso": rng.random() < .5, "doc": doc, "msgs": msgs, "args": args}


def gen_env(rng):
    e = {}
    if rng.random() < .7:
        e["clock"] = rng.choice([0, 86399, 951782400, 1616893200, 1635642000, 1635645600, 4102444800,
                                 rng.randrange(1 << 32)])
    if rng.random() < .7:
        e["TZ"] = rng.choice(ZONES + ["UTC", "XYZ-5:30", ":bogus", ""])
    if rng.random() < .5:
        e["LANG"] = rng.choice(ENVS)
    if rng.random() < .4:
        e["LC_ALL"] = rng.choice(ENVS)
    if rng.random() < .3:
        e["LC_TIME"] = rng.choice(ENVS)
    if rng.random() < .3:
        e["setlocale"] = rng.choice(["C", "C.utf8", "POSIX"])
    return e


def generate(rng, idx, tier):
    if idx % 50 == 49:
        kids = []
        for _ in range(2):
            e = gen_env(rng)
            e["PYTHONHASHSEED"] = str(rng.randrange(1, 1 << 32))
            kids.append(e)
        return {"kind": "interpreters", "cases": [gen_case(rng) for _ in range(12)], "envs": kids}
    case = gen_case(rng)
    calls = []
    for _ in range(rng.randrange(2, 8)):
        calls.append({"msg": rng.choice(case["msgs"]), "env": gen_env(rng)})
        if rng.random() < .4:
            calls.append({"msg": calls[-1]["msg"], "env": gen_env(rng)})
    return {"kind": "calls", "case": case, "calls": calls}


def build(a):
    import datetime

    import pytz
    _, t, fold, kind, name = a
    if kind == "naive":
        return datetime.datetime(*t, fold=fold)
    if kind == "fix":
        return datetime.datetime(*t, tzinfo=datetime.timezone(datetime.timedelta(minutes=name)))
    if kind == "zi":
        return datetime.datetime(*t, fold=fold, tzinfo=model.zone(name))
    return pytz.timezone(name).localize(datetime.datetime(*t), is_dst=not fold)


def build_args(spec):
    return {k: build(v) if isinstance(v, list) and v[0] == "dtz" else ftl.build_arg(v) for k, v in spec.items()}


FUNCS = {"F": {"do": "join"}}


def real_bundle(case):
    from fluent.runtime import FluentBundle
    b = FluentBundle(case["locales"], functions=fns.Fns(FUNCS).real(), use_isolating=case["iso"])
    b.add_resource(bundles.parse(case["doc"]))
    return b


def expectations(case):
    """{msg: outcome} by the model"""
    m = model.Bundle(case["locales"], case["iso"], fns.Fns(FUNCS).model())
    m.add(case["doc"])
    out = {}
    for mid in case["msgs"]:
        e = m.messages.get(mid)
        if e is None:
            out[mid] = ("absent",)
        elif e["v"] is None:
            out[mid] = ("nopattern",)
        else:
            call = model._Call(m, {})
            for k, v in case["args"].items():
                call.args[k] = model_value(v)
            out[mid] = ("ok", call.run(e["v"], ("m", mid, None)), call.errors)
    return out


def model_value(v):
    import datetime
    if not (isinstance(v, list) and v[0] == "dtz"):
        return model.conv(v)
    d = build(v)
    if v[3] == "pytz":   # the same instant, in the same zone as zoneinfo knows it
        utc = d.astimezone(datetime.timezone.utc)
        z = utc.astimezone(model.zone(v[4]))
        # localize() leaves imaginary times as they are, zoneinfo has none of them
        if z.replace(tzinfo=None) == d.replace(tzinfo=None):
            d = z
    return ("date", d, {})


CLOCK = None


def apply_env(e):
    """Change the simulated host; what is not mentioned gets its pristine value back."""
    global CLOCK
    if CLOCK is None and "simclock" in os.environ.get("LD_PRELOAD", ""):
        CLOCK = ctypes.CDLL(os.environ["LD_PRELOAD"])
        CLOCK.simclock_set.argtypes = [ctypes.c_longlong, ctypes.c_longlong]
    if CLOCK is not None:
        if "clock" in e:
            CLOCK.simclock_set(e["clock"], 5)
        else:
            CLOCK.simclock_off()
    os.environ["TZ"] = e.get("TZ", "UTC")
    time.tzset()
    for k in ("LANG", "LC_ALL", "LC_TIME"):
        if k in e:
            os.environ[k] = e[k]
        else:
            os.environ.pop(k, None)
    locale.setlocale(locale.LC_ALL, e.get("setlocale", "C.utf8"))


def kid():
    """Executed in a fresh interpreter: format all cases, print the outcomes."""
    from .. import env
    cases = json.load(sys.stdin)
    out = []
    for case in cases:
        b = real_bundle(case)
        row = {}
        for mid in case["msgs"]:
            try:
                got = bundles.use(b, mid, None, build_args(case["args"]))
                row[mid] = [got[0], str(got[1]), bundles.errs(got[2])] if got[0] == "ok" else list(got)
            except Exception as e:
                row[mid] = ["raised", repr(e)]
        out.append(row)
    sys.stdout.buffer.write(json.dumps([env.REPO, out]).encode())


def start_kid(cases, e):
    environ = {"PATH": os.environ.get("PATH", ""), "PYTHONPATH": runner.VERIF, "VERIF_REPO": env.REPO,
               "PYTHONHASHSEED": e["PYTHONHASHSEED"], "LD_PRELOAD": os.environ.get("LD_PRELOAD", "")}
    for k in ("TZ", "LANG", "LC_ALL", "LC_TIME"):
        if k in e:
            environ[k] = e[k]
    if "clock" in e:
        environ["SIMCLOCK"] = str(e["clock"])
    p = subprocess.run([sys.executable, "-c", "from dst import env; from dst.props import c11; c11.kid()"], env=environ,
                       input=json.dumps(cases).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=50)
    if p.returncode:
        raise runner.HarnessError(p.stderr.decode("utf-8", "replace")[-1500:])
    repo, out = json.loads(p.stdout)
    assert repo == env.REPO
    return out


def differs(got, exp):
    if got[0] != exp[0]:
        return True
    if got[0] != "ok":
        return False
    return got[1] != exp[1] or not model.same_errors([tuple(x) for x in got[2]], exp[2])


def execute(sc):
    log = []
    if sc["kind"] == "interpreters":
        exps = [expectations(c) for c in sc["cases"]]
        n = 0
        for e in sc["envs"]:
            for case, row, exp in zip(sc["cases"], start_kid(sc["cases"], e), exps):
                for mid, got in row.items():
                    n += 1
                    log.append(got)
                    if differs(got, exp[mid]):
                        return runner.fail("interpreter", f"in an interpreter with {e}, {mid!r} with "
                                           f"{case['args']} gave {got}, expected {exp[mid]}", log)
        return {"digest": runner.digest_of(log), "sig": runner.digest_of(log), "nontrivial": True,
                "stats": {"interpreters started": len(sc["envs"]), "calls in other interpreters": n},
                "sample": {"envs": sc["envs"], "outcomes": [str(x)[:200] for x in log[:2]]}}
    case = sc["case"]
    exps = expectations(case)
    b = None
    changes = {}
    for k, c in enumerate(sc["calls"]):
        apply_env(c["env"])
        for x in c["env"]:
            changes[x] = changes.get(x, 0) + 1
        if b is None or k % 3 == 2:
            b = real_bundle(case)
        try:
            got = bundles.use(b, c["msg"], None, build_args(case["args"]))
            if got[0] == "ok":
                got = ("ok", got[1], bundles.errs(got[2]))
        except Exception as e:
            got = ("raised", repr(e))
        log.append(got)
        if differs(got, exps[c["msg"]]):
            apply_env({})
            return runner.fail("outcome", f"call {k} on {c['msg']!r} in {c['env']} with {case['args']}: "
                               f"got {got}, expected {exps[c['msg']]}", log)
    apply_env({})
    return {"digest": runner.digest_of(log), "sig": runner.digest_of(log, sc["calls"]),
            "nontrivial": any(x[0] == "ok" for x in log) and bool(changes),
            "stats": {"calls": len(log), "changes of the environment": changes,
                      "simulated clock": {"on" if CLOCK is not None else "missing": 1}},
            "sample": {"calls": [(c["msg"], c["env"]) for c in sc["calls"]][:3], "outcomes": [str(x)[:200] for x in log[:2]]}}


shrink = runner.shrinker("calls+", "calls.*.env", "case.doc", "case.doc.*.v+", "envs+", "cases+")
