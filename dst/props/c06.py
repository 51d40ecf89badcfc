"""C06: the definition in force depends on what was added, not on what was used."""
from .. import bundles, fns, ftl, model, runner

ID = "C06"
RUNS = {"quick": 6000, "thorough": 120000}
RULE = ("a history of 6-40 operations on one or two bundles sharing resources: add a resource (parsed, or "
        "built from nodes, possibly added before; with or without overrides), check for, retrieve and "
        "format messages and attributes; every outcome is compared with the reference model; non-trivial: "
        "a definition that had been used before was overridden, or shadowed by a later addition")
REAL = ["fluent.runtime", "fluent.syntax parser and AST", "babel"]
STUB = ["custom functions of the application"]
ASSUMPTIONS = ["references are acyclic (cycles: C10)"]


def generate(rng, idx, tier):
    msgs = ["m%d" % i for i in range(rng.randrange(2, 6))]
    terms = ["t%d" % i for i in range(rng.randrange(3))] + (["m1"] if rng.random() < .3 else [])
    nres = rng.randrange(2, 7)
    docs = bundles.gen_resources(rng, nres, msgs, sorted(terms), depth=1, junk=.25)
    ops = []
    for _ in range(rng.randrange(6, 40)):
        r = rng.random()
        o = {"b": 1 if rng.random() < .2 else 0}
        if r < .25:
            o.update(op="add", res=rng.randrange(nres), over=rng.random() < .5,
                     how=rng.choice(["parsed", "parsed", "again", "nodes"]))
        elif r < .35:
            o.update(op="has", msg=rng.choice(msgs + terms + ["nosuch", "-t0"]))
        else:
            o.update(op="use", msg=rng.choice(msgs), attr=rng.choice([None] * 4 + ["a", "b"]),
                     args=ftl.gen_args(rng, bundles.VARS))
        ops.append(o)
    return {"locale": rng.choice(bundles.LOCS), "iso": rng.random() < .4, "docs": docs, "ops": ops,
            "fns": {"F": {"do": "join"}, "G": {"do": "first"}}}


def execute(sc):
    from fluent.runtime import FluentBundle
    from fluent.syntax import ast as FTL
    f = fns.Fns(sc["fns"])
    real, mod = [], []
    for _ in range(2):
        real.append(FluentBundle([sc["locale"]], functions=f.real(), use_isolating=sc["iso"]))
        mod.append(model.Bundle([sc["locale"]], sc["iso"], f.model()))
    parsed = [bundles.parse(d) for d in sc["docs"]]
    used, overridden, log = set(), 0, []
    for i, o in enumerate(sc["ops"]):
        b, m = real[o["b"]], mod[o["b"]]
        if o["op"] == "add":
            doc = sc["docs"][o["res"]]
            res = parsed[o["res"]]
            if o["how"] == "again":
                res = bundles.parse(doc)
            elif o["how"] == "nodes":
                res = FTL.Resource([e.clone() for e in parsed[o["res"]].body])
            for kind, id, e in bundles.defs(doc):
                if (o["b"], kind, id) in used:
                    overridden += 1
            b.add_resource(res, allow_overrides=o["over"])
            m.add(doc, o["over"])
        elif o["op"] == "has":
            got, exp = b.has_message(o["msg"]), o["msg"] in m.messages
            if got is not exp:
                return runner.fail("has", f"op {i}: has_message({o['msg']!r}) is {got}", log)
            if not exp:
                try:
                    x = b.get_message(o["msg"])
                    return runner.fail("get", f"op {i}: get_message({o['msg']!r}) gave {x!r}", log)
                except LookupError:
                    pass
        else:
            try:
                got = bundles.use(b, o["msg"], o["attr"], ftl.build_args(o["args"]))
            except Exception as e:
                got = ("raised", repr(e))
            exp = expected(m, o["msg"], o["attr"], o["args"], used, o["b"])
            log.append((i, got[:2]))
            if not bundles.same(got, exp):
                return runner.fail("outcome", f"op {i} on {o['msg']!r}.{o['attr']}: got "
                                   f"{got[:2]} {bundles.errs(got[2]) if got[0] == 'ok' else ''}, expected {exp}", log)
    return {"digest": runner.digest_of(log), "sig": runner.digest_of(log, [o.get("res") for o in sc["ops"]]),
            "nontrivial": overridden > 0,
            "stats": {"operations": len(sc["ops"]), "formatted": len(log),
                      "definitions added again after use": overridden},
            "sample": {"ops": [(o["op"], o.get("msg", o.get("res")), o.get("over")) for o in sc["ops"]][:20],
                       "outcomes": [str(x)[:120] for x in log[:3]]}}


def expected(m, mid, attr, args, used, bi):
    e = m.messages.get(mid)
    if e is None:
        return ("absent",)
    pat = e["v"] if attr is None else e["a"].get(attr)
    if pat is None:
        return ("nopattern",)
    call = model._Call(m, args)
    text = call.run(pat, ("m", mid, attr))
    used |= {(bi, "m", mid)} | {(bi,) + u for u in call.used}
    return ("ok", text, call.errors)


shrink = runner.shrinker("ops", "docs.*", "docs.*.*.v+")
