"""C28: work stays in proportion to what there is to do."""
import gc
import sys
import time

from .. import env, runner, storage
from . import c27

ID = "C28"
RUNS = {"quick": 1500, "thorough": 30000}
RULE = ("half of the runs: a stored text whose beginning, middle or end is damaged and in which one stretch is "
        "repeated 80, 160 and 320 times (on suspicion up to 1280) is parsed, and its tree is serialized, highlighted, "
        "cloned, compared, converted, visited, transformed or added to a bundle; the steps executed in fluent.* may not "
        "grow faster than the text. The other half: an application as in C27 makes hundreds of calls with failing "
        "functions, formatters and disks, interrupts, stack ends and unknown ids, in one or two threads; once the faults stop, each of its calls may "
        "not take more steps than on fresh objects, nor more on objects with thousands of other messages. In an eighth of the "
        "runs what C functions do is weighed, too, by the CPU time of the thread, the shortest of several attempts: a text "
        "of 10,000 characters, repeated 16 and 32 times, may not take twice and 3.5 times the time per character, and a call among "
        "200,000 and 400,000 other definitions not ever more than among 20; "
        "non-trivial: a text, or a history in which calls failed")
REAL = ["fluent.syntax", "fluent.runtime", "fluent.pygments lexer", "codecs/io", "babel"]
STUB = ["disk (dst.simfs, dst.storage)", "threads and locks (dst.sched)", "custom functions, types",
        "interrupts (raised by sys.monitoring at function entries)"]
ASSUMPTIONS = ["work is counted in executed lines, jumps and function entries of fluent.*; what is done inside C functions is "
               "seen only where it outweighs the rest in very long texts and large bundles, by CPU time, which is "
               "measured and not simulated: its thresholds are far from what linear work shows on a busy machine",
               "work that is larger after some calls, but does not go on growing with their number, is accepted"]
LONG = 10_000        # characters; 16 and 32 times as many are measured as well
CROWD = 100_000      # other messages, and other terms
WALL = 150           # of a run, in seconds
MEASURED = ("slower", "crowd")   # violations that count only if a replay confirms them
STEPS = 150_000_000  # lines that a run may execute if it takes longer
MON = sys.monitoring
TOOL = 4
EVENTS = (MON.events.LINE, MON.events.JUMP, MON.events.PY_START, MON.events.PY_RESUME)

FRAGMENTS = ["a", "a", "\n", "\n ", "\n  ", "=", "{", "}", "{ ", " }", "$x", " ->", "\n [a] b", "\n *[a] b", "[", "]", "*", "#",
             "# ", "##", " c", ".", "\n .a = b", '"', '\\"', "\\u00e9", "\\", "-", "1", ".5", "(", ")", ",", ":", " ",
             "\r\n", "é", "m = ", "\nm = ", "\n-t = ", "\n# c", "\n## g\n", "{ m }", '{ "" }', "{ $x ->\n *[a] b\n }",
             "F(", "-t.a", "m.b", "\r"]
OPS = ["serialize", "junk", "highlight", "clone", "equals", "json", "visit", "transform", "add", "spanless"]
BEGIN = ["", "", "m = ", "m = { $n ->\n", "m = {", 'm = {"', "m = { F(", "# c\n", "m =\n  ", "m = x\n .a = ", "m = { $n ->\n *[a] ",
         "m = x\n", "m = { -t(a: ", "-t = "]
# what can be repeated in valid texts; % is a number
LISTS = [("", "m = a\n", ""), ("", "m% = { $a }\n", ""), ("", "-t% = a\n    .a = b\n", ""), ("", "# c\nm% = { m }\n", ""),
         ("", "## g%\n", ""), ("# a\n", "# c %\n", "m = x\n"), ("m = x\n", "    .a% = { $b } c\n", ""),
         ("m =\n", "    a { $b } % c\n", ""), ("m = ", "a { $b }", "\n"), ("m = ", '{ "\\u00e9%" }', "\n"),
         ("m = { $n ->\n", "    [k%] v { $a }\n", "   *[other] b\n }\n"),
         ("m = { NUMBER($n) ->\n   *[other] b\n", "    [%] { $n }\n", " }\n"),
         ("m = { F(", "$a%, ", "1) }\n"), ("m = { F(1, ", "a%: %, ", "z: 1) }\n"), ("m = { -t(", '\n  a%: "x", ', ") }\n"),
         ("m = a\n", "\n", "    b\n"), ("m = a\n", "   \n", "    b\n"), ("m = a", " b", "\n"), ("m = ", "{ $n ->\n *[a] x\n } ", "\n"),
         ("m = \n", "    [[ \n", ""), ("", "?? j\n", "m = a\n"), ("", "m = { \n", "z = a\n"), ("", "?? j\nm% = a\n", ""),
         ("", "m% = { $n ->\n    [a] b\n }\n", ""), ('m = { "', "x", '" }\n'), ("m = { -t.", "a", " }\n"),
         ("m = { 1", "0", " }\n"), ("m = x\n", "    .a = \n", ""), ("m", "m", " = x\n"), ("", "\n", "m = a\n"),
         ("", "# c\n\n", ""), ("m = a\n    .a = { $n ->\n", "     [k%] { $n ->\n *[x] y\n }\n", "    *[z] y\n }\n")]


def generate(rng, idx, tier):
    timed = rng.random()
    if timed < .08:
        begin, unit, end = rng.choice(LISTS)
        return {"kind": "long", "begin": begin, "unit": unit, "end": end, "numbered": 1,
                "ops": [rng.choice(["parse", "highlight", "serialize"] + OPS)]}
    if timed < .13 or rng.random() < .5:
        while True:
            sc = c27.generate(rng, idx, tier)
            if sc["app"] in ("bundle", "l10n"):
                break
        sc["reload"] = False
        sc["ops"] = [o for o in sc["ops"] if o["op"] == "use"]
        sc["calls"] = rng.choice([40, 150])
        if timed < .13:
            return {"kind": "crowd", **sc}
        return {"kind": "history", **sc}

    def some(n):
        if rng.random() < .35:
            t = storage.wild(rng)
            a = rng.randrange(len(t) + 1)
            return t[a:a + rng.randrange(60)]
        return "".join(rng.choice(FRAGMENTS) for _ in range(rng.randrange(n)))

    if rng.random() < .4:
        begin, unit, end = rng.choice(LISTS)
        damage = rng.random()
        if damage < .25:
            at = rng.randrange(len(unit) + 1)
            unit = unit[:at] + rng.choice(FRAGMENTS) + unit[at:]
        elif damage < .5:
            begin, end = begin + (some(3) if damage < .3 else ""), (end + some(3))[rng.randrange(3):]
        return {"kind": "text", "begin": begin, "unit": unit, "end": end, "numbered": 1,
                "ops": rng.sample(OPS, rng.randrange(2, 5))}
    return {"kind": "text", "begin": rng.choice(BEGIN) + some(5), "unit": some(6) or rng.choice(FRAGMENTS), "end": some(4),
            "ops": rng.sample(OPS, rng.randrange(1, 4))}


def lines(f):
    """Executed lines, jumps and (re-)entered functions of fluent.*"""
    n = 0
    home = env.REPO + "/"

    def line(code, *where):
        nonlocal n
        if "/fluent/" in code.co_filename and code.co_filename.startswith(home):
            n += 1
            return None
        return MON.DISABLE

    MON.use_tool_id(TOOL, "lines")
    for e in EVENTS:
        MON.register_callback(TOOL, e, line)
    MON.set_events(TOOL, sum(EVENTS))
    try:
        f()
    finally:
        MON.set_events(TOOL, 0)
        for e in EVENTS:
            MON.register_callback(TOOL, e, None)
        MON.free_tool_id(TOOL)
    return n


def seconds(f, least=1):
    """CPU time of this thread, the shortest of some attempts"""
    gc.collect()
    gc.disable()
    try:
        out = []
        for _ in range(least):
            t = time.thread_time()
            f()
            out.append(time.thread_time() - t)
        return min(out)
    finally:
        gc.enable()


# -- texts --------------------------------------------------------------------------------
def text(sc):
    from fluent.pygments.lexer import FluentLexer
    from fluent.runtime import FluentBundle
    from fluent.syntax import FluentParser, FluentSerializer, ast
    from fluent.syntax.visitor import Transformer, Visitor
    stats = {"apply": 0, "junk": 0, "longest text": 0}
    digest = []
    clean = "".join(c for c in sc["unit"] if not "\ud800" <= c <= "\udfff")
    if not clean:
        return None

    def units(k):
        if not sc.get("numbered"):
            return sc["unit"] * k
        return "".join(sc["unit"].replace("%", str(i)) for i in range(k))

    def make(k):
        return "".join(c for c in sc["begin"] + units(k) + sc["end"] if not "\ud800" <= c <= "\udfff")

    def work(op, k):
        t = make(k)
        stats["longest text"] = max(stats["longest text"], len(t))
        if op == "parse":
            return lambda: FluentParser().parse(t)
        if op == "spanless":
            return lambda: FluentParser(with_spans=False).parse(t)
        if op == "highlight":
            return lambda: [None for _ in FluentLexer().get_tokens_unprocessed(t)]
        tree = FluentParser().parse(t)
        if op == "serialize":
            return lambda: FluentSerializer().serialize(tree)
        if op == "junk":
            return lambda: FluentSerializer(with_junk=True).serialize(tree)
        if op == "clone":
            return tree.clone
        if op == "equals":
            other = FluentParser().parse(t)
            return lambda: tree.equals(other)
        if op == "json":
            return lambda: ast.from_json(tree.to_json())
        if op == "visit":
            return lambda: Visitor().visit(tree)
        if op == "transform":
            return lambda: Transformer().visit(tree)
        return lambda: FluentBundle(["en"]).add_resource(tree)

    if sc["kind"] == "long":
        # Work in C functions, of the interpreter's too, is not seen in steps.
        k = 200
        while len(make(k)) < LONG and k < LONG:
            k *= 2
        # four bytes for each character: what is copied weighs more
        sc = dict(sc, end=sc["end"] + "# \U0001f600\n")
        for op in sc["ops"]:
            def cost(k, least):
                return seconds(work(op, k), least)

            def ratio(k, cost):
                return cost / len(make(k)) / (few / n)

            n, few = len(make(k)), cost(k, 7)
            many = cost(16 * k, 1)
            if many < .02 or ratio(16 * k, many) < 2.2:
                continue
            few = min(few, cost(k, 20))
            many = min(many, cost(16 * k, 1))
            sure = ratio(16 * k, many)
            if sure < 2 or sure < 8 and ratio(32 * k, cost(32 * k, 2)) < 3.5:
                continue
            return runner.fail("slower", f"{op} of {make(2)!r} with {sc['unit']!r} repeated {k} and {16 * k} times "
                               "takes ever more time per character", sc["unit"])
        return {"digest": runner.digest_of(sc), "sig": runner.digest_of(sc), "nontrivial": True,
                "stats": {"long texts": 1, "longest text": stats["longest text"]},
                "sample": {"begin": sc["begin"], "unit": sc["unit"], "end": sc["end"], "characters": stats["longest text"]}}

    stats["junk"] = any(isinstance(e, ast.Junk) for e in FluentParser().parse(make(80)).body)
    for op in ["parse"] + sc["ops"]:
        costs = []
        for k in (80, 160, 320):
            costs.append(lines(work(op, k)))
            gc.collect()
        while len(costs) < 5 and steep(costs) and not (len(costs) == 4 and costs[-1] > 5_000_000):
            k *= 2
            costs.append(lines(work(op, k)))
        stats["apply"] += 1
        digest.append(costs)
        if len(costs) > 3 and steep(costs):
            return runner.fail("disproportionate", f"{op} of {make(2)!r} with {sc['unit']!r} repeated 80, 160, 320... times "
                               f"takes {costs} steps", sc["unit"])
    return {"digest": runner.digest_of(digest), "sig": runner.digest_of(sc), "nontrivial": True,
            "stats": {"texts": 1, "operations": stats["apply"], "texts with junk": int(stats["junk"]),
                      "lines": sum(sum(x) for x in digest)},
            "sample": {"begin": sc["begin"], "unit": sc["unit"], "end": sc["end"], "costs": digest[0]}}


def steep(costs):
    """Does twice as much text take much more than twice the work, again and again?"""
    (a, b, c), n = costs[-3:], costs[-1]
    return n > 5000 and c - b > 2.5 * max(b - a, 1)


# -- histories ----------------------------------------------------------------------------
CLEAN = ("fn", "fmt", "intr", "stack", "io", "new")


def history(sc):
    ops = [{k: v for k, v in o.items() if k not in CLEAN} for o in sc["ops"]]
    if not ops:
        return None

    def settled(w):
        """Faults have stopped."""
        w.sc["broken"] = None
        for _ in range(2):
            for o in ops:
                w.k = 999_999
                w.call(o)
        return w

    def measure(w):
        out = []
        for o in ops:
            w.k = 999_999
            how = []
            out.append(lines(lambda: how.append(w.call(o))))
            if how != ["returned"]:
                return how
        return out

    def world(filler=0):
        w = c27.World(dict(sc, broken=None, filler=filler) if filler else dict(sc))
        if filler:
            more = "\n" + "".join(f"f{i} = x {{ $a }}\n    .a = y\n-f{i} = t\n" for i in range(filler))
            if sc["app"] == "bundle":
                w.bundle.add_resource(w.resource(more))
            else:
                for p in w.fs.files:
                    w.fs.files[p] += more.encode()
        return w

    fresh = measure(settled(world()))
    if not all(isinstance(x, int) for x in fresh):
        return None   # a torn file: lookups that need it fail, and load again
    stats = {"histories": 1, "app": {sc["app"]: 1}, "threads": {sc["threads"]: 1}, "calls": 0}
    # (a) other messages
    other = [measure(settled(world(n))) for n in (100, 1000)]
    # (b) earlier calls
    used = world()
    used.failures = 0
    log = []
    series = []
    goal = sc["calls"]
    while True:
        while used.k < goal:
            problem = used.cycle(log)
            if problem:
                return runner.fail(problem[0], problem[1], log[-5:])
        at, broken = used.k, used.sc.get("broken")
        series.append((at, measure(settled(used))))
        used.k, used.sc["broken"] = at, broken
        last = series[-1][1]
        if len(last) != len(ops) or not all(isinstance(x, int) for x in last):
            return runner.fail("call-fails", f"after {at} calls, {last}", last)
        if len(series) == 1 or growing(series) and len(series) < 4:
            goal = at * 3
        else:
            break
    stats["calls"] = used.k
    stats["calls that failed or were interrupted"] = used.failures
    if len(series) == 4 and growing(series):
        return runner.fail("history", f"the calls {ops} execute {fresh} lines on fresh objects, but "
                           f"{series} after so many calls", sorted(set(log)))
    if growing([(100, other[0]), (1000, other[1])]):
        return runner.fail("other-messages", f"the calls {ops} execute {other[0]} lines with 100 other messages and terms, "
                           f"{other[1]} with 1000", 0)
    return {"digest": runner.digest_of(fresh, other, series, log), "sig": runner.digest_of(sc), "nontrivial": used.failures > 0,
            "stats": stats, "sample": {"ops": ops[:2], "fresh": fresh, "used": series}}


def crowd(sc):
    """The time that calls take among few and among very many other messages and terms"""
    from fluent.runtime import FluentLocalization
    from fluent.syntax import ast
    ops = [{k: v for k, v in o.items() if k not in CLEAN} for o in sc["ops"]]
    if not ops:
        return None

    def world(n):
        w = c27.World(dict(sc, broken=None, torn=None))
        value = ast.Pattern([ast.TextElement("x")])
        res = ast.Resource([e for i in range(n) for e in (
            ast.Message(ast.Identifier(f"f{i}"), value), ast.Term(ast.Identifier(f"f{i}"), value))])
        if sc["app"] == "bundle":
            w.bundle.add_resource(res)
        else:
            inner = w.obj.resource_loader

            class Loader:
                def resources(self, locale, resource_ids):
                    for r in inner.resources(locale, resource_ids):
                        yield r + [res]

            w.obj = FluentLocalization(w.obj.locales, w.obj.resource_ids, Loader(), use_isolating=sc["world"]["iso"],
                                       functions=w.functions())
        w.k = 999_999
        for o in ops * 2:
            if w.call(o) != "returned":
                return None
        return w

    def cost(n, least):
        w = world(n)
        return w and [seconds(lambda: w.call(o), least) for o in ops]

    if not cost(10, 1):
        return None
    for _ in range(3):
        few, many = cost(10, 20), cost(CROWD, 10)
        late = [i for i in range(len(ops)) if many[i] > 2 * few[i] + .0002]
        if not late:
            break
        more = cost(2 * CROWD, 10)
        late = [i for i in late if more[i] > 1.5 * many[i]]
        if not late:
            break
    else:
        return runner.fail("crowd", f"the call {ops[late[0]]} takes ever more time among {CROWD} and {2 * CROWD} other messages "
                           "and terms", late[0])
    return {"digest": runner.digest_of(sc), "sig": runner.digest_of(sc), "nontrivial": True,
            "stats": {"crowds": 1, "app": {sc["app"]: 1}}, "sample": {"ops": ops[:2], "others": CROWD}}


def growing(series):
    a, b = series[-2][1], series[-1][1]
    return any(y > x * 1.05 + 15 for x, y in zip(a, b))


def execute(sc):
    r = {"text": text, "long": text, "history": history, "crowd": crowd}[sc["kind"]](sc)
    return r or {"digest": "", "nontrivial": False, "stats": {}}


def shrink(sc):
    return (_text if sc["kind"] in ("text", "long") else _history)(sc)


_text = runner.shrinker("ops")
_history = runner.shrinker("ops+", "switches")
