"""C10: hostile translations cost a bounded amount of work."""
import sys
import threading

import babel.numbers

from .. import bundles, fns, ftl, l10n, model, runner, sched

ID = "C10"
RUNS = {"quick": 900, "thorough": 30000}
RULE = ("a bundle with hostile messages - random reference graphs with cycles, bombs of 5-60 layers, chains "
        "of up to 3000 links, very wide patterns, long texts, each through messages, terms, attributes, "
        "selectors, variants, function arguments and nested placeables - formatted with all of the stack or "
        "as little as 80 frames left, in two fifths of the runs while another thread formats harmless "
        "messages under the deterministic scheduler; or numbers written with or formatted with up to 10**400 "
        "digits; the function entries executed are counted and must "
        "stay below a bound linear in the size of the source, the text below one too; harmless or small "
        "calls, also afterwards, must be exact; non-trivial: the evaluation was cut short")
REAL = ["fluent.runtime", "fluent.syntax parser", "babel"]
STUB = ["threads and locks (dst.sched)", "the remaining stack (frames of the harness)", "custom functions"]
ASSUMPTIONS = ["work is counted in entries of functions of fluent.runtime and fluent.syntax, and in digits that "
               "babel is asked for",
               "at least 80 frames of stack are left"]

K_SOURCE = 45      # function entries per element of the source (compiling and evaluating it once)
K_PARTS = 12        # function entries per part evaluated
PARTS = 1000        # Pattern.MAX_PARTS, by design
PLACEABLE = 2500    # MAX_PART_LENGTH


def g_ref(rng, kind, name, n):
    """An element referring to entry `name` in one of the possible ways."""
    m, t = "m" + name, "t" + name
    if kind == "msg":
        return ["msg", m, None]
    if kind == "attr":
        return ["msg", m, "a"]
    if kind == "term":
        return ["term", t, None, rng.choice([None, {}, {"n": ["num", "1"]}])]
    if kind == "variant":
        return ["sel", ["num", "1"], [["0", ["no"], False], ["1", [["msg", m, None]], True]]]
    if kind == "default":
        return ["sel", ["var", "s"], [["one", ["no"], False], ["other", [" ", ["term", t, None, None], " "], True]]]
    if kind == "selector":
        return ["sel", ["term", t, "a", None], [["u", ["U"], False], ["other", ["O"], True]]]
    if kind == "fn":
        return ["fn", "F", [["msg", m, None]] * n, {}]
    if kind == "fnsel":
        return ["sel", ["fn", "F", [["msg", m, None]] * n, {}], [["u", ["U"], False], ["other", ["O"], True]]]
    if kind == "pl":
        return ["pl", ["pl", ["msg", m, None]]]
    raise AssertionError(kind)


KINDS = ["msg", "msg", "attr", "term", "variant", "default", "selector", "fn", "fnsel", "pl"]


def g_entries(rng, name, value):
    """The message and the term called name, with the same hostile value."""
    attr = value() if rng.random() < .7 else ["u"]
    return [{"k": "m", "id": "m" + name, "v": value(), "a": {"a": attr}},
            {"k": "t", "id": "t" + name, "v": value(), "a": {"a": attr}}]


MANY = ["3", "20", "1500", "2499", "2500", "2501", "3000", "100000", "1" + "0" * 7, "1" + "0" * 12, "9" * 400,
        "7" * 4300, "7" * 5000]


def g_digits(rng):
    """A placeable with very many digits."""
    k = rng.randrange(6)
    if k == 0:
        n = ["num", rng.choice(["1", "9"]) * rng.choice([300, 4299, 4301, 6000]) + rng.choice(["", ".5"])]
        return rng.choice([n, n, ["fn", "F", [n], {}], ["fn", "NUMBER", [n], {}],
                           ["sel", n, [["one", ["one"], False], ["other", ["o"], True]]],
                           ["sel", ["var", "n"], [[n[1], ["n"], False], ["other", ["o"], True]]]])
    opts = {o: ["num", rng.choice(MANY)] for o in rng.choice([["minimumIntegerDigits"], ["minimumFractionDigits"],
                                                             ["minimumIntegerDigits", "minimumFractionDigits"],
                                                             ["minimumFractionDigits", "maximumFractionDigits"],
                                                             ["minimumSignificantDigits"], ["maximumSignificantDigits"]])}
    if rng.random() < .2:
        opts["style"] = ["str", "percent"]
    e = ["fn", "NUMBER", [rng.choice([["var", "n"], ["num", "2.5"]])], opts]
    if k == 1:
        return ["fn", "F", [e], {}]
    if k == 2:
        return ["sel", e, [["0", ["none"], False], ["other", ["o ", e], True]]]
    return e


def asked(pat):
    """The largest number of digits that is asked for where a value is shown"""
    most = 0
    for e in pat:
        if e[0] == "sel" and e[1][0] == "fn":
            e = e[2][1][1][1]
        if e[0] == "fn" and e[1] == "NUMBER":
            for o, v in e[3].items():
                if o in ("minimumIntegerDigits", "minimumFractionDigits"):
                    most = max(most, int(v[1]) if len(v[1]) <= 20 else 10**20)
    return most


def gen_doc(rng):
    fam = rng.choice(["graph", "graph", "bomb", "bomb", "chain", "wide", "long", "digits"])
    doc = []
    if fam == "graph":
        n = rng.randrange(1, 7)
        for i in range(n):
            def value():
                out = []
                for _ in range(rng.randrange(1, 4)):
                    if rng.random() < .4:
                        out.append("x ")
                    out.append(g_ref(rng, rng.choice(KINDS), str(rng.randrange(n)), rng.randrange(1, 3))
                               if rng.random() < .85 else ["var", rng.choice("ns")])
                return out
            doc += g_entries(rng, str(i), value)
    elif fam == "bomb":
        layers, width = rng.choice([5, 10, 20, 60]), rng.choice([2, 2, 3, 10])
        kinds = rng.choice([KINDS, ["msg"], ["fn"], ["term"], ["selector"], ["fnsel"], ["variant"], ["attr"]])
        text = rng.random() < .5
        single = rng.choice([0, .5, 1])
        if single == 1:   # nothing but one placeable in every pattern
            kinds = rng.choice([["fn"], ["fn", "fnsel"]])
        for i in range(layers):
            def value():
                out = []
                k = rng.choice(kinds)
                if k in ("fn", "fnsel") and rng.random() < single:
                    out = [g_ref(rng, k, str(i + 1), width)]
                else:
                    for _ in range(width):
                        if text:
                            out.append("x")
                        out.append(g_ref(rng, rng.choice(kinds), str(i + 1), 1))
                return out
            doc += g_entries(rng, str(i), value)
        leaf = rng.choice([["lol"], [["var", "s"]], [["msg", "m0", None]], ["a", ["var", "n"]], [["str", ""]],
                           [["str", ""], ["str", ""], ["var", "s"]], [["var", "zz"]], [["fn", "NOSUCH", [], {}]]])
        doc += g_entries(rng, str(layers), lambda: leaf)
    elif fam == "chain":
        n = rng.choice([50, 150, 400, 1000, 3000])
        kinds = rng.choice([["msg"], ["term"], ["pl"], ["fn"], ["variant"], ["selector"], KINDS])
        text = rng.random() < .5
        for i in range(n):
            def value():
                e = g_ref(rng, rng.choice(kinds), str(i + 1), 1)
                return ["x", e] if text else [e]
            if kinds == ["msg"] or kinds == ["fn"]:
                doc.append({"k": "m", "id": f"m{i}", "v": value(), "a": {}})
            else:
                v = value()
                doc += [{"k": "m", "id": f"m{i}", "v": v, "a": {"a": v}},
                        {"k": "t", "id": f"t{i}", "v": v, "a": {"a": v}}]
        end = rng.choice([["end"], [["msg", "m0", None]], [["var", "n"]]])
        doc += g_entries(rng, str(n), lambda: end)
    elif fam == "wide":
        n = rng.choice([400, 990, 1010, 3000])
        doc += g_entries(rng, "0", lambda: [g_ref(rng, rng.choice(["msg", "term", "attr", "fn"]), "1", 1)
                                            for _ in range(n)])
        doc += g_entries(rng, "1", lambda: rng.choice([["lol"], ["l", ["var", "n"]], [["var", "s"]]]))
    elif fam == "digits":
        def value():
            out = ["x "] if rng.random() < .7 else []
            for _ in range(rng.randrange(1, 4)):
                out.append(g_digits(rng))
                if rng.random() < .5:
                    out.append(" y ")
            return out
        doc += g_entries(rng, "0", value)
        doc += g_entries(rng, "1", lambda: ["<", ["msg", "m0", None], ["fn", "F", [["msg", "m0", "a"]], {}]])
    else:
        doc += g_entries(rng, "0", lambda: ["<"] + [["msg", "m1", None]] * rng.choice([1, 3, 300]) + [">"])
        doc += g_entries(rng, "1", lambda: [["msg", "m2", None]] * rng.choice([1, 2]) + ["."])
        doc += g_entries(rng, "2", lambda: [rng.choice([["var", "s"], ["fn", "F", [["var", "s"]] * 3, {}],
                                                        ["str", "x" * 2600]])])
    return fam, doc


def generate(rng, idx, tier):
    fam, doc = gen_doc(rng)
    good = [ftl.Gen(rng, ["g0", "g1", "g2"], ["g0t"], "·g", depth=1, missing=0, attrs=())
            .doc(["g0", "g1", "g2"], ["g0t"])][0]
    calls = []
    for _ in range(rng.choice([1, 2, 3])):
        calls.append({"msg": "m0" if rng.random() < .8 else "m1", "attr": rng.choice([None, None, "a"]),
                      "stack": rng.choice([None, None, 80, 150, 300, 600]),
                      "args": {"n": rng.choice([1, 1234567]),
                               "s": rng.choice(["u", "", "v" * 20, "w" * 2490, "y" * 2510, "z" * 100000])}})
    nt = rng.random() < .4
    return {"family": fam, "locale": rng.choice(bundles.LOCS), "iso": rng.random() < .5, "doc": doc, "good": good,
            "calls": calls,
            "other": [{"msg": rng.choice(["g0", "g1", "g2"]), "args": ftl.gen_args(rng, bundles.VARS, long=0)}
                      for _ in range(rng.randrange(1, 6))] if nt else [],
            "policy": rng.randrange(1 << 20),
            "switches": l10n.gen_switches(rng, rng.choice([1000, 20000]), rng.randrange(2, 30)) if nt else []}


def size(doc):
    """-> (elements of the source, largest number of variants or arguments)"""
    total, widest = 0, 1

    def expr(e):
        nonlocal total, widest
        total += 1
        if e[0] == "sel":
            widest = max(widest, len(e[2]))
            expr(e[1])
            for v in e[2]:
                pattern(v[1])
        elif e[0] == "fn":
            widest = max(widest, len(e[2]))
            for a in e[2]:
                expr(a)
        elif e[0] == "pl":
            expr(e[1])

    def pattern(p):
        nonlocal total
        for x in p or []:
            total += 1
            if not isinstance(x, str):
                expr(x)

    for e in doc:
        if e["k"] in "mt":
            total += 3
            pattern(e["v"])
            for a in e["a"].values():
                pattern(a)
    return total, widest


class TooMuch(BaseException):
    pass


class Budget(Exception):
    pass


class Limited(model._Call):
    """The reference model without limits of its own, given up after many parts."""
    max_len = 10**9
    budget = 30000
    longest = 0
    count = 0

    def pattern(self, pat, key):
        self.count += len(pat) + 1
        if self.count > self.budget:
            raise Budget
        out = super().pattern(pat, key)
        if len(out) > 6_000_000:
            raise Budget
        self.longest = max(self.longest, len(out))
        return out

    def expr(self, e):
        v = super().expr(e)
        if v[0] == "str":
            self.longest = max(self.longest, len(v[1]))
            if len(v[1]) > 6_000_000:
                raise Budget
        return v


def predict(m, pat, args, key):
    """-> ("exact"|"any"|"cut", text, errors)"""
    call = Limited(m, args)
    call.depth = 0
    box = []

    def run():
        limit = sys.getrecursionlimit()
        sys.setrecursionlimit(200000)
        try:
            box.append(call.pattern(pat, key))
        except Budget:
            box.append(None)
        finally:
            sys.setrecursionlimit(limit)

    old = threading.stack_size(256 << 20)
    t = threading.Thread(target=run)
    t.start()
    t.join()
    threading.stack_size(old)
    text = box[0]
    if text is None:
        return ("cut", None, None)
    if call.count < PARTS // 2 and call.longest < PLACEABLE - 10:
        return ("exact", text, call.errors)
    return ("any", text, call.errors)


def deep(n, f):
    return f() if n <= 0 else deep(n - 1, f)


def frames():
    f, n = sys._getframe(), 0
    while f:
        n += 1
        f = f.f_back
    return n


def execute(sc):
    from fluent.runtime import FluentBundle
    table = fns.Fns({"F": {"do": "join"}, "G": {"do": "join"}})
    b = FluentBundle([sc["locale"]], functions=table.real(), use_isolating=sc["iso"])
    m = model.Bundle([sc["locale"]], sc["iso"], table.model())
    m.lose = True   # what is shown where a cycle was cut is not specified
    for d in (sc["doc"], sc["good"]):
        b.add_resource(bundles.parse(d))
        m.add(d)
    total, widest = size(sc["doc"])
    work_bound = K_SOURCE * total + K_PARTS * PARTS * (1 + widest) + 20000
    source = len(ftl.render(sc["doc"]))
    text_bound = source + (PARTS + 1) * (PLACEABLE + 10)
    s = sched.Sched(sc["switches"], sc["policy"], tick_limit=10**9,
                    watch={"fluent.runtime": "instr" if sc["other"] else "call", "fluent.syntax": "call"})
    log, bad = [], []
    stats = {"calls": 0, "cut short": 0, "entries executed": 0, "family": {sc["family"]: 1},
             "little stack": 0}

    def hostile():
        for k, o in enumerate(sc["calls"]):
            if not b.has_message(o["msg"]):
                continue
            try:
                msg = b.get_message(o["msg"])
            except Exception as e:
                bad.append(("raised", f"getting {o['msg']!r} raised {type(e).__name__}: {str(e)[:80]}"))
                return
            pat = msg.value if o["attr"] is None else msg.attributes.get(o["attr"])
            if pat is None:
                continue
            args = ftl.build_args(o["args"])
            me = s.me()
            me.interrupt(work_bound, "call", TooMuch())
            what = f"call {k} on {o['msg']!r}.{o['attr']} ({o['stack']} frames left, {sc['family']})"
            down = 0
            if o["stack"]:
                down = max(0, sys.getrecursionlimit() - frames() - o["stack"])
                stats["little stack"] += 1
            try:
                text, errors = deep(down, lambda: b.format_pattern(pat, args))
            except sched.Aborted:
                raise
            except TooMuch:
                bad.append(("work", f"{what}: more than {work_bound} function entries, or digits, the source "
                            f"has {total} elements"))
                return
            except BaseException as e:
                bad.append(("raised", f"{what}: raised {type(e).__name__}: {e}"))
                return
            finally:
                me.intr = None
            stats["calls"] += 1
            stats["entries executed"] += me.calls
            log.append((k, str(text)[:300], len(text), [fns.error_key(e) for e in errors][:20], me.calls))
            checks.append((k, o, what, text, errors))

    checks, others = [], []
    apply = babel.numbers.NumberPattern.apply

    def counted(pattern, *a, **k):
        # each digit is work; far too many would take hours or all of the memory
        for n in () if "@" in pattern.pattern else (pattern.int_prec[0], pattern.frac_prec[0]):
            if isinstance(n, (int, float)) and n > work_bound:
                raise TooMuch
        return apply(pattern, *a, **k)

    def harmless():
        for k, o in enumerate(sc["other"]):
            try:
                got = bundles.use(b, o["msg"], None, ftl.build_args(o["args"]))
            except Exception as e:
                got = ("raised", repr(e))
            others.append((k, o, got))

    s.spawn(hostile)
    if sc["other"]:
        s.spawn(harmless)
    babel.numbers.NumberPattern.apply = counted
    try:
        problem = s.run()
    finally:
        babel.numbers.NumberPattern.apply = apply
    if problem:
        return runner.fail(problem[0], problem[1], log)
    if bad:
        return runner.fail(bad[0][0], bad[0][1], log)
    for mid in ("g0", "g1", "g2"):
        o = {"msg": mid, "args": {"n": 5, "s": "u", "f": 2.25, "x": "w"}}
        try:
            got = bundles.use(b, mid, None, o["args"])
        except Exception as e:
            got = ("raised", repr(e))
        others.append(("later", o, got))
    for k, o, what, text, errors in checks:
        if len(text) > text_bound:
            return runner.fail("length", f"{what}: a text of {len(text)} characters", log)
        e = m.messages[o["msg"]]
        pat = e["v"] if o["attr"] is None else e["a"][o["attr"]]
        if sc["family"] == "digits":
            if not errors and asked(pat) > 3 * PLACEABLE:
                return runner.fail("silent", f"{what}: {asked(pat)} digits asked for, {len(text)} characters "
                                   "without an error", log)
            stats["cut short"] += bool(errors)
            continue
        kind, exp, exp_errors = predict(m, pat, o["args"], ("m", o["msg"], o["attr"]))
        got_errors = [fns.error_key(x) for x in errors]
        match = kind != "cut" and model.matches_lost(text, exp)
        same = match and model.same_errors(got_errors, exp_errors)
        if same:
            continue
        stats["cut short"] += 1
        if kind == "exact" and o["stack"] is None and sc["family"] != "chain":
            return runner.fail("outcome", f"{what}: got {text[:300]!r} {got_errors[:8]}, "
                               f"expected {exp[:300]!r} {exp_errors[:8]}", log)
        if not errors:
            return runner.fail("silent", f"{what}: cut short to {text[:300]!r} without an error", log)
        if kind != "cut" and model.same_errors(got_errors, exp_errors):
            return runner.fail("silent", f"{what}: cut short to {text[:300]!r} without an error for it, "
                               f"complete it is {exp[:300]!r}", log)
    for k, o, got in others:
        exp = ("ok",) + tuple(m.format(o["msg"], None, o["args"])) if m.messages[o["msg"]]["v"] is not None \
            else ("nopattern",)
        if got[0] != exp[0] or got[0] == "ok" and not (
                model.matches_lost(got[1], exp[1]) and model.same_errors(bundles.errs(got[2]), exp[2])):
            return runner.fail("harmless", f"harmless call {k} on {o['msg']!r}: got {got[:2]}, expected {exp}", log)
    return {"digest": runner.digest_of(s.digest(), log), "sig": runner.digest_of(s.digest(), log),
            "nontrivial": stats["cut short"] > 0,
            "stats": {**stats, "forced switches": s.n_forced,
                      "highest work per bound, %": [int(100 * x[4] / work_bound) for x in log]},
            "sample": {"family": sc["family"], "elements": total, "calls": [str(x)[:200] for x in log[:2]]}}


shrink = runner.shrinker("calls+", "other", "switches", "doc.*", "doc.*.*.v+")
