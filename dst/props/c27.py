"""C27: finished calls leave nothing to hold on to."""
import asyncio
import builtins
import decimal
import gc
import sys
import types
import weakref

from .. import bundles, fns, ftl, l10n, runner, sched, storage, trees

ID = "C27"
RUNS = {"quick": 700, "thorough": 12000}
RULE = ("a long-running application: a cycle of 2-12 calls on one bundle, one localization object over the "
        "simulated disk, one parser, serializer, lexer, visitor and transformer, or on objects made for the "
        "moment, repeated for hundreds of calls with ever new texts, numbers, ids, values, functions' "
        "exceptions and results; calls fail (functions, formatters, disk, handlers, syntax), run out of stack "
        "or are interrupted at the n-th function entry, in one thread, in short-lived threads or in two at a "
        "time; after a warm-up, neither the number of objects reachable from the library's objects and "
        "modules nor that of values given to, or made in, finished calls and still alive may go on growing, "
        "for which it is watched over up to 5000 calls, and no argument, result of a function, error or exception of a "
        "finished call may be alive; non-trivial: something failed or was interrupted")
REAL = ["fluent.runtime", "fluent.syntax", "fluent.pygments lexer", "codecs/io", "babel", "garbage collector"]
STUB = ["threads and locks (dst.sched)", "disk (dst.simfs)", "custom functions, types, handlers",
        "interrupts (raised by sys.monitoring at function entries)"]
ASSUMPTIONS = ["caches of bounded size are allowed: only growth that goes on is reported",
               "what Babel, pytz and Pygments keep is not counted",
               "the error lists and texts that a call returned belong to the caller"]

KINDS = {"KeyboardInterrupt": KeyboardInterrupt, "GeneratorExit": GeneratorExit,
         "CancelledError": asyncio.CancelledError}
PACKAGES = ("fluent.runtime", "fluent.syntax", "fluent.pygments")
BATCH = 100          # calls between two measurements
MOST = 5000


def generate(rng, idx, tier):
    app = rng.choice(["bundle", "bundle", "l10n", "tools", "tools", "churn"])
    sc = {"app": app, "threads": rng.choice(["one", "one", "each", "two"]), "policy": rng.randrange(1 << 20),
          "switches": l10n.gen_switches(rng, rng.choice([200, 2000]), rng.randrange(1, 8))}
    trouble = rng.sample(["fn", "fmt", "intr", "stack", "io", "new"], rng.choice([0, 1, 1, 2, 3]))
    n = rng.randrange(2, 13)
    ops = []
    if app in ("bundle", "churn"):
        msgs = ["m%d" % i for i in range(rng.randrange(2, 5))]
        docs = bundles.gen_resources(rng, rng.randrange(1, 3), msgs, ["t0", "t1"][:rng.randrange(3)], share=.8, depth=1,
                                     missing=.1, variables=bundles.VARS + ("c",),
                                     functions=["F", "G", "NUMBER", "NUMBER"])
        if rng.random() < .2:
            docs[0].append({"k": "m", "id": "m0", "v": ["cyc ", ["msg", "m1", None]], "a": {}})
            docs[0].append({"k": "m", "id": "m1", "v": [["msg", "m0", None]], "a": {}})
        sc.update(docs=docs, msgs=msgs, locale=rng.choice(bundles.LOCS), iso=rng.random() < .5)
        sc["reload"] = rng.random() < .35
        for _ in range(n):
            if sc["reload"] and app == "bundle" and rng.random() < .3:
                ops.append({"op": "add", "doc": rng.randrange(len(docs)), "over": rng.random() < .7})
                continue
            ops.append({"op": "use", "msg": rng.choice(msgs), "attr": rng.choice([None] * 4 + ["a"]),
                        "args": ftl.gen_args(rng, bundles.VARS + ("c",), long=.01)})
    elif app == "l10n":
        w = l10n.gen_world(rng, loader="disk", sparse=.25)
        sc["world"] = w
        paths = sorted(w["files"])
        for o in l10n.gen_lookups(rng, w, n):
            ops.append({"op": "use", **o})
            if paths and "io" in trouble and rng.random() < .5:
                ops[-1]["io"] = rng.choice(["open", "read"])
        if paths and "io" in trouble:
            sc["broken"] = rng.choice(paths + [None])
        elif paths and rng.random() < .3:
            sc["torn"] = rng.choice(paths)
    else:
        sc["texts"] = ["".join(c for c in storage.wild(rng)[:400] if not "\ud800" <= c <= "\udfff")
                       for _ in range(rng.choice([1, 2]))]
        for _ in range(n):
            ops.append({"op": rng.choice(["parse", "entry", "serialize", "equals", "clone", "json", "from_json",
                                          "visit", "transform", "highlight", "format"]),
                        "t": rng.randrange(len(sc["texts"])), "v": rng.randrange(2)})
    for o in ops:
        for k, a in (o.get("args") or {}).items():
            if rng.random() < .3 and (isinstance(a, (int, float)) and not isinstance(a, bool) or
                                      isinstance(a, list) and a[0] == "dec"):
                o["args"][k] = ["fnum", a, rng.choice([{}, {"minimumFractionDigits": 2}, {"style": "percent"}])]
            elif rng.random() < .3 and isinstance(a, list) and a[0] in ("date", "dt"):
                o["args"][k] = ["fdate", a, rng.choice([{}, {"dateStyle": "full"}])]
        if "fn" in trouble and rng.random() < .5:
            o["fn"] = rng.choice(sorted(fns.ERRORS))
        if "fmt" in trouble and rng.random() < .5:
            o["fmt"] = rng.choice(sorted(fns.ERRORS))
        if "new" in trouble and rng.random() < .4:
            o["new"] = 1
        if "stack" in trouble and rng.random() < .3:
            o["stack"] = rng.choice([25, 40, 80, 120])
        if "intr" in trouble and rng.random() < .5:
            o["intr"] = {"n": int(rng.choice([10, 80, 400]) ** rng.random()), "kind": rng.choice(sorted(KINDS))}
    sc["ops"] = ops
    return sc


def reach(roots):
    """How many objects can be reached from roots"""
    mine = {id(builtins.__dict__)}
    todo = list(roots)
    for name, mod in list(sys.modules.items()):
        mine.add(id(getattr(mod, "__dict__", None)))
        if name.startswith("fluent."):
            todo += [v for k, v in vars(mod).items() if not k.startswith("__")]
    seen, count = mine, 0
    while todo:
        o = todo.pop()
        if id(o) in seen or isinstance(o, types.ModuleType):
            continue
        seen.add(id(o))
        t = o if isinstance(o, (type, types.FunctionType)) else type(o)
        home = getattr(t, "__module__", None)
        if isinstance(home, str) and home.partition(".")[0] not in ("fluent", "builtins", "collections", "functools",
                                                                    "types", "weakref", "_thread", "_weakref",
                                                                    "_functools", "_collections", "attr", "itertools"):
            if not isinstance(o, (BaseException, Tracked)) and not (
                    isinstance(t, type) and any(c.__module__.startswith("fluent.") for c in t.__mro__)):
                count += 1
                continue
        count += 1
        todo += gc.get_referents(o)
    return count


class Tracked:
    """Mixed into the values the application makes for one call"""


def tracked(base, cache={}):
    if base not in cache:
        cache[base] = type(base.__name__, (base, Tracked), {})
    return cache[base]


class World:
    """The application, its long-lived objects, and what is watched"""

    def __init__(self, sc):
        self.sc = sc
        self.alive = weakref.WeakSet()
        self.values = weakref.WeakSet()
        self.k = 0
        self.op = {}
        self.failures = 0
        self.inspect = False
        self.left = [0, []]
        self.roots = []
        getattr(self, "start_" + sc["app"])()

    # -- values -----------------------------------------------------------------------
    def see(self, o, value=False):
        """o should go when its owner lets it go, and a value at the end of the call"""
        try:
            self.alive.add(o)
            if value:
                self.values.add(o)
        except TypeError:    # numbers and built-in exceptions cannot be watched
            pass

    def error(self, name):
        self.failures += 1
        e = tracked(fns.ERRORS[name])(f"boom {self.k}")
        self.see(e, True)
        return e

    def fresh(self, args):
        """The arguments of one call: as described, but with texts and numbers never seen before"""
        import datetime

        from fluent.runtime.types import FluentType, fluent_date, fluent_number
        if args is None:
            return None

        class Value(Tracked, FluentType):
            def __init__(self, text, op):
                self.text = text
                self.op = op

            def format(value, locale):
                if value.op.get("fmt"):
                    raise self.error(value.op["fmt"])
                return value.text

        out = {}
        for k, a in args.items():
            v = ftl.build_arg(a)
            options = {}
            if isinstance(a, list) and a[0] in ("fnum", "fdate"):
                v, options = ftl.build_arg(a[1]), dict(a[2])
            if isinstance(v, str) and len(v) < 100:
                v = Text(v + str(self.k))
            elif isinstance(v, bool):
                pass
            elif isinstance(v, int):
                v = v + self.k * 1000
            elif isinstance(v, float):
                v = v + self.k
            elif isinstance(v, decimal.Decimal):
                v = v + self.k
            elif isinstance(v, datetime.date):
                v = v.replace(year=1900 + self.k % 8000)
            elif hasattr(v, "cust"):
                v = Value(v.cust + str(self.k), self.op)
            if isinstance(a, list) and a[0] in ("fnum", "fdate"):
                # options that have not been seen before, either
                if a[0] == "fnum":
                    v = fluent_number(v, **{**options, "currency": "X%d" % self.k})
                else:
                    if self.op.get("new") and isinstance(v, datetime.datetime):
                        options["timeZone"] = "Zone/Z%d" % self.k
                    v = fluent_date(v, **options)
            out[k] = v
            self.see(v, True)
        return out

    def functions(self):
        def F(*pos, **named):
            if self.op.get("fn"):
                raise self.error(self.op["fn"])
            return "F%d" % self.k + fns.join("F", [fns.real_show(p) for p in pos],
                                             {k: fns.real_show(v) for k, v in named.items()})

        def G(*pos, **named):
            if self.op.get("fn"):
                raise self.error(self.op["fn"])
            v = Text("G%d" % self.k)
            self.see(v, True)
            return v

        return {"F": F, "G": G}

    def name(self, msg):
        return f"new{self.k}" if self.op.get("new") else msg

    # -- kinds of applications ----------------------------------------------------------
    def start_bundle(self):
        from fluent.runtime import FluentBundle, FluentResource
        self.resource = FluentResource
        self.rendered = [ftl.render(d) for d in self.sc["docs"]]
        b = self.bundle = FluentBundle([self.sc["locale"]], functions=self.functions(), use_isolating=self.sc["iso"])
        for d in self.sc["docs"]:
            b.add_resource(bundles.parse(d))
        self.roots.append(b)
        for m in self.sc["msgs"]:   # everything has been used once
            for a in (None, "a"):
                bundles.use(b, m, a, {})

    def do_bundle(self, o):
        if o["op"] == "add":
            # the translations have been edited, or are loaded again
            r = self.resource(self.rendered[o["doc"]].replace("·", f"·{self.k}") if o.get("new") else
                              self.rendered[o["doc"]])
            self.bundle.add_resource(r, allow_overrides=o["over"])
            for e in r.body if o["over"] is False else []:
                self.see(e)
            return
        got = bundles.use(self.bundle, self.name(o["msg"]), o["attr"], self.fresh(o["args"]))
        if got[0] == "ok":
            self.failures += bool(got[2])
            for e in got[2]:
                self.see(e, True)

    def start_churn(self):
        from fluent.runtime import FluentBundle, FluentLocalization, FluentResource, FluentResourceLoader
        self.classes = FluentBundle, FluentLocalization, FluentResource, FluentResourceLoader
        self.rendered = [ftl.render(d) for d in self.sc["docs"]]

    def do_churn(self, o):
        Bundle, L10n, Resource, Loader = self.classes

        class Own(Bundle):
            pass

        own = Bundle if o.get("attr") is None else Own
        b = own([self.sc["locale"]], functions=self.functions(), use_isolating=self.sc["iso"])
        self.see(b)
        res = []
        for t in self.rendered:
            r = Resource(t.replace("m0", f"m{self.k}x") if o.get("new") else t)
            self.see(r)
            res.append(r)
            b.add_resource(r, allow_overrides=bool(o.get("new")))
        got = bundles.use(b, o["msg"], o["attr"], self.fresh(o["args"]))
        if got[0] == "ok":
            self.failures += bool(got[2])
            for e in got[2]:
                self.see(e, True)

        class Mine:
            def resources(self, locale, resource_ids):
                yield res

        ld = Mine()
        obj = L10n([self.sc["locale"], "en"], [f"a{self.k}.ftl"], ld, bundle_class=own)
        for x in (ld, obj):
            self.see(x)
        obj.format_value(o["msg"], self.fresh(o["args"]))
        self.see(Loader(f"/simfs/{self.k}/{{locale}}"))

    def start_l10n(self):
        from fluent.runtime import FluentLocalization
        w = self.sc["world"]
        fs = self.fs = l10n.make_fs(w)
        if self.sc.get("torn"):
            fs.files[self.sc["torn"]] = fs.files[self.sc["torn"]] + b"m9 = \xff"
        orig = fs.fault

        def fault(op, path):
            if path == self.sc.get("broken") and op == "read" or self.op.get("io") == op:
                self.failures += 1
                e = tracked(OSError)(5, f"disk {self.k}")
                self.see(e, True)
                raise e
            orig(op, path)

        fs.fault = fault
        self.obj = FluentLocalization(list(w["locales"]), list(w["rids"]), l10n.make_loader(w, fs),
                                      use_isolating=w["iso"], functions=self.functions())
        self.roots.append(self.obj)

    def do_l10n(self, o):
        self.obj.format_value(self.name(o["msg"]), self.fresh(o["args"]))

    def start_tools(self):
        from fluent.pygments.lexer import FluentLexer
        from fluent.syntax import FluentParser, FluentSerializer, ast
        from fluent.syntax.visitor import Transformer, Visitor
        world = self

        class Look(Visitor):
            def visit_TextElement(self, node):
                if world.op.get("fn") and world.k % 3 == 0:
                    raise world.error(world.op["fn"])
                self.generic_visit(node)

        class Change(Transformer):
            def visit_TextElement(self, node):
                if world.op.get("fn") and world.k % 3 == 0:
                    raise world.error(world.op["fn"])
                return ast.TextElement(node.value + str(world.k))

        self.ast = ast
        self.parsers = [FluentParser(), FluentParser(with_spans=False)]
        self.serializers = [FluentSerializer(), FluentSerializer(with_junk=True)]
        self.lexer = FluentLexer()
        self.visitors = [Look(), Change()]
        self.old = self.parsers[0].parse(self.sc["texts"][0])
        self.roots += self.parsers + self.serializers + [self.lexer, self.old] + self.visitors

    def do_tools(self, o):
        text = self.sc["texts"][o["t"]]
        if o.get("new"):
            text = text.replace("m0", f"m{self.k}")
        text += f"\nid{self.k} = {{ $v{self.k} }} text{self.k}\n    .a = {{ -t{self.k} }}\n# c {self.k}\n?? j{self.k}\n"
        op = o["op"]
        if op == "highlight":
            for _ in self.lexer.get_tokens(text):
                pass
            return
        if op == "entry":
            self.see(self.parsers[o["v"]].parse_entry(text))
            return
        tree = self.parsers[o["v"]].parse(text)
        self.see(tree)
        for e in tree.body:
            self.see(e)
        if op == "serialize":
            self.serializers[o["v"]].serialize(tree)
        elif op == "equals":
            tree.equals(self.old)
            self.old.equals(tree, [f"span{self.k}"])
        elif op == "clone":
            self.see(tree.clone())
            self.see(self.old.clone())
        elif op in ("json", "from_json"):
            j = tree.to_json(lambda x: x)
            self.old.to_json()
            if op == "from_json":
                self.see(self.ast.from_json(j))
        elif op == "visit":
            self.visitors[0].visit(tree)
            self.visitors[0].visit(self.old)
        elif op == "transform":
            self.visitors[1].visit(tree)
        elif op == "format":
            from fluent.runtime import FluentBundle
            b = FluentBundle(["pl"])
            self.see(b)
            b.add_resource(tree)
            b.add_resource(self.old)
            b.format_pattern(b.get_message(f"id{self.k}").value, {})

    # -- running ------------------------------------------------------------------------
    def call(self, o):
        """One call of the application, whatever comes of it"""
        self.k += 1
        self.op = o
        f = getattr(self, "do_" + self.sc["app"])
        try:
            if o.get("stack"):
                deep(max(0, sys.getrecursionlimit() - frames() - o["stack"]), lambda: f(o))
            else:
                f(o)
        except sched.Aborted:
            raise
        except BaseException as e:
            self.failures += 1
            return type(e).__name__
        return "returned"

    def cycle(self, log):
        """All calls once, as the scenario's threads make them."""
        ops = self.sc["ops"]
        parts = [ops[::2], ops[1::2]] if self.sc["threads"] == "two" else [ops]
        watch = {p: "call" for p in PACKAGES} if any("intr" in o for o in ops) or len(parts) > 1 else {}
        s = sched.Sched(self.sc["switches"] if len(parts) > 1 else [], self.sc["policy"], watch=watch)
        s.interrupts = True

        def body(tid, part, times):
            me = s.threads[tid]
            for o in part * times:
                if "intr" in o:
                    exc = tracked(KINDS[o["intr"]["kind"]])("interrupted")
                    self.see(exc, True)
                    me.interrupt(o["intr"]["n"], "call", exc)
                    del exc
                log.append(self.call(o))
                me.intr = me.kind = None
            if self.inspect:
                # what a thread keeps to itself goes with it: look before it ends
                gc.collect()
                self.left = max(self.left, [len(self.values), what(self.values)])

        times = 1 if self.sc["threads"] != "one" else BATCH // len(ops) + 1
        for i, part in enumerate(parts):
            s.spawn(lambda i=i, part=part: body(i, part, times))
        problem = s.run()
        for t in s.threads:
            t.fn = None
        return problem

    def measure(self):
        self.op = {}
        gc.collect()
        return reach(self.roots), len(self.alive)


class Text(Tracked, str):
    pass


def deep(n, f):
    return f() if n <= 0 else deep(n - 1, f)


def frames():
    f, n = sys._getframe(), 0
    while f:
        n += 1
        f = f.f_back
    return n


def growing(series):
    """Is it still growing in its last third? series: (calls made so far, number)"""
    last = series[-max(2, len(series) // 3 + 1):]
    return all((y[1] - x[1]) * 25 >= y[0] - x[0] for x, y in zip(last, last[1:]))


def execute(sc):
    if not sc["ops"]:
        return {"digest": "", "nontrivial": False, "stats": {}}
    # reference cycles are the garbage collector's
    w = World(sc)
    log = []

    def batch(n):
        while w.k < n:
            problem = w.cycle(log)
            if problem:
                return problem
        return None

    series = []
    stats = {"calls": 0, "app": {sc["app"]: 1}, "threads": {sc["threads"]: 1}}
    while True:
        problem = batch(w.k + (BATCH if len(series) < 4 else w.k // 2))
        if problem:
            return runner.fail(problem[0], problem[1], log[-5:])
        series.append((w.k,) + w.measure())
        if len(series) < 4:
            continue
        suspects = [i for i in (1, 2) if growing([(x[0], x[i]) for x in series[1:]])]
        if not suspects:
            break
        if w.k >= MOST or w.k >= MOST // 3 and any(series[-1][i] - series[-2][i] > 30000 for i in suspects):
            i = suspects[0]
            return runner.fail("grows", f"{['objects reachable from the library', 'values of finished calls alive'][i - 1]} "
                               f"after so many calls: {[(x[0], x[i]) for x in series]}; calls ended with "
                               f"{sorted(set(log))}", what(w.alive))
    w.left = max(w.left, [len(w.values), what(w.values)])
    if sc["threads"] != "two":
        w.inspect = True
        problem = batch(w.k + 1)
        if problem:
            return runner.fail(problem[0], problem[1], log[-5:])
    if w.left[0]:
        return runner.fail("kept", f"after {w.k} calls and their end, {w.left[0]} of their arguments, results of functions, "
                           f"errors and exceptions are alive; calls ended with {sorted(set(log))}", w.left[1])
    stats["calls"] = w.k
    stats["calls that failed or were interrupted"] = w.failures
    stats["watched for longer"] = int(len(series) > 4)
    ends = {}
    for x in log:
        ends[x] = ends.get(x, 0) + 1
    stats["ends"] = ends
    return {"digest": runner.digest_of(log, series), "sig": runner.digest_of(sc["app"], sc["threads"], sc["ops"], log[:200]), "nontrivial": w.failures > 0,
            "stats": stats, "sample": {"app": sc["app"], "ops": sc["ops"][:3], "reachable": [x[1] for x in series]}}


def what(alive):
    """Types of the values still alive"""
    out = {}
    for x in alive:
        out[type(x).__name__] = out.get(type(x).__name__, 0) + 1
    return sorted(out.items())


shrink = runner.shrinker("ops+", "switches")
