"""C17: reading a shared syntax tree never changes it."""
import json

from .. import ftl, fns, l10n, runner, sched, storage, trees
from .c09 import KINDS

ID = "C17"
RUNS = {"quick": 2500, "thorough": 60000}
RULE = ("2-3 threads (a quarter of the runs: one) make 3-8 calls each on 1-3 shared trees with shared parsers, "
        "serializers, lexer and visitor classes: parse, parse an entry, serialize, compare, clone and spoil the "
        "clone, convert to and from JSON and spoil the result, visit, highlight, add to a bundle and format; "
        "preempted at seeded byte-code instructions or lines, some calls cut short at the n-th function entry or "
        "interrupt point and made again; every result is compared with that of the same call made alone in a "
        "process of its own, and the trees with what they were, part by part; non-trivial: a call was preempted "
        "or cut short")
REAL = ["fluent.syntax", "fluent.pygments lexer", "fluent.runtime (compiling and formatting)"]
STUB = ["threads and locks (dst.sched)", "interrupts (raised at the chosen point)"]
ASSUMPTIONS = ["attributes whose names begin with an underscore are not part of a tree's visible state"]
OPS = ["parse", "parse", "parse", "entry", "serialize", "serialize", "serialize", "serialize_entry", "equals", "equals", "clone", "clone", "json", "json",
       "from_json", "visit", "highlight", "highlight", "format", "format", "str"]


def generate(rng, idx, tier):
    texts = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        if rng.random() < .4:
            msgs = ["m%d" % i for i in range(rng.randrange(1, 4))]
            t = ftl.render(ftl.Gen(rng, msgs, ["t0"], "·", depth=1, junk=.2, multiline=.3).doc(msgs, ["t0"]))
        else:
            t = storage.wild(rng)
        texts.append("".join(c for c in t[:600] if not "\ud800" <= c <= "\udfff"))
    n = rng.choice([1, 2, 2, 2, 3])
    instr = rng.random() < .5
    threads = []
    for _ in range(n):
        ops = []
        for _ in range(rng.randrange(3, 9)):
            o = {"op": rng.choice(OPS), "t": rng.randrange(len(texts)), "k": rng.randrange(8), "u": rng.randrange(len(texts)),
                 "v": rng.randrange(2)}
            if rng.random() < (.5 if n == 1 else .2):
                o["intr"] = {"n": int(rng.choice([30, 300, 2000]) ** rng.random()) + rng.randrange(3),
                             "at": rng.choice(["call", "point"]) if instr else "call", "kind": rng.choice(sorted(KINDS))}
            ops.append(o)
        threads.append(ops)
    est = rng.choice([500, 3000, 20000, 60000])
    return {"texts": texts, "threads": threads, "policy": rng.randrange(1 << 20), "how": "instr" if instr else "line",
            "switches": [] if n == 1 else l10n.gen_duel(rng) if rng.random() < .25
            else l10n.gen_switches(rng, est if instr else est // 5 + 20, rng.choice([3, 8, 20, 60]))}


class Tools:
    """What the threads share (or, alone, have for themselves)"""

    def __init__(self, texts):
        from fluent.pygments.lexer import FluentLexer
        from fluent.syntax import FluentParser, FluentSerializer
        from fluent.syntax.visitor import Visitor

        self.texts = texts
        self.parsers = [FluentParser(), FluentParser(with_spans=False)]
        self.serializers = [FluentSerializer(), FluentSerializer(with_junk=True)]
        self.lexer = FluentLexer()
        self.trees = [FluentParser().parse(t) for t in texts]
        self.spanless = [FluentParser(with_spans=False).parse(t) for t in texts]
        self.ignored = [["span"], None, ["span", "comment"], ["value"]]

        class Names(Visitor):
            def __init__(self):
                self.seen = []

            def visit_Identifier(self, node):
                self.seen.append(node.name)

            def visit_TextElement(self, node):
                self.seen.append(node.value)
                self.generic_visit(node)

            def generic_visit(self, node):
                self.seen.append(type(node).__name__)
                super().generic_visit(node)

        self.Names = Names

    def node(self, o):
        tree = self.trees[o["t"]]
        if not o["k"]:
            return tree
        nodes = trees.nodes_in_order(tree)
        return nodes[o["k"] * 7 % len(nodes)]

    def do(self, o):
        """-> the (JSON) result of one call"""
        op = o["op"]
        tree, text = self.trees[o["t"]], self.texts[o["t"]]
        if op == "parse":
            return plain(self.parsers[o["v"]].parse(text))
        if op == "entry":
            lines = text.split("\n")
            return plain(self.parsers[o["v"]].parse_entry("\n".join(lines[o["k"] % len(lines):])))
        if op == "serialize":
            return self.serializers[o["v"]].serialize(tree)
        if op == "serialize_entry":
            if not tree.body:
                return None
            return self.serializers[o["v"]].serialize_entry(tree.body[o["k"] % len(tree.body)], o["v"])
        if op == "equals":
            ignored = self.ignored[o["k"] % 4]
            other = (self.spanless if o["k"] & 4 else self.trees)[o["u"]]
            return [tree.equals(other, ignored), [a.equals(b, ignored) for a, b in zip(tree.body, other.body)]]
        if op == "clone":
            node = self.node(o)
            clone = node.clone()
            common = set(trees.parts(node)) & set(trees.parts(clone))
            out = [plain(clone), len(common), clone.equals(node, None)]
            trees.spoil(clone)
            return out
        if op in ("json", "from_json"):
            from fluent.syntax import ast
            node = self.node(o)
            seen = []
            j = node.to_json(lambda x: seen.append(x["type"]) or x) if o["v"] else node.to_json()
            out = [json.dumps(j), seen]
            if op == "from_json":
                back = ast.from_json(j)
                out += [plain(back), json.dumps(j)]
                trees.spoil(back)
                out.append(json.dumps(j))
            spoil_json(j)
            return out
        if op == "str":
            return str(self.node(o))
        if op == "visit":
            v = self.Names()
            v.visit(self.node(o))
            return v.seen
        if op == "highlight":
            return [[pos, str(tok), val] for pos, tok, val in self.lexer.get_tokens_unprocessed(text)]
        if op == "format":
            from fluent.runtime import FluentBundle
            b = FluentBundle(["en-US", "pl"][o["v"]:], use_isolating=bool(o["k"] & 1),
                             functions=fns.Fns({"F": {"do": "join"}, "G": {"do": "join"}}).real())
            b.add_resource(tree, allow_overrides=bool(o["k"] & 2))
            out = []
            for id in ("m0", "m1", "m2", "a-b_c", "Z"):
                if not b.has_message(id):
                    continue
                m = b.get_message(id)
                for p in ([m.value] if m.value else []) + list(m.attributes.values()):
                    v, errs = b.format_pattern(p, {"n": 1, "s": "x", "x": "u", "f": 2.5})
                    out.append([id, str(v), [[type(e).__name__, str(e)] for e in errs]])
            return out
        raise AssertionError(op)


def plain(node):
    """A tree as JSON, without the code under test"""
    base = trees.node_types()

    def walk(v):
        if isinstance(v, base):
            return [type(v).__name__, {k: walk(x) for k, x in trees.fields(v).items()}]
        if isinstance(v, (list, tuple)):
            return [walk(x) for x in v]
        return v

    return walk(node)


def spoil_json(j):
    if isinstance(j, dict):
        for v in j.values():
            spoil_json(v)
        j["spoilt"] = 1
    elif isinstance(j, list):
        for v in j:
            spoil_json(v)
        j.append("spoilt")


def key(o):
    return json.dumps({k: v for k, v in o.items() if k != "intr"}, sort_keys=True)


def attempt(tools, o):
    try:
        return tools.do(o)
    except Exception as e:
        return ["raised", type(e).__name__, str(e)]


def execute(sc):
    texts = sc["texts"]
    calls = {key(o): o for ops in sc["threads"] for o in ops}

    def baseline():
        out = {}
        for k, o in sorted(calls.items()):
            out[k] = attempt(Tools(texts), o)   # everything fresh for every call
        return out

    expected = trees.alone(baseline)
    for k, e in expected.items():
        o = calls[k]
        if o["op"] == "clone" and (e[1:2] != [0] or e[2] is not True):
            return runner.fail("clone", f"{k}: {e[1]} parts of the clone are the original's, or it is not equal: {e}")
        if o["op"] == "from_json" and e[0] != "raised" and not e[0] == e[3] == e[4]:
            return runner.fail("json", f"{k}: the JSON {e[0]} was changed by rebuilding a tree from it ({e[3]}), "
                               f"or by changing that tree ({e[4]})")
    tools = Tools(texts)
    before = [trees.snapshot(t) for t in tools.trees + tools.spanless]
    ignored = json.dumps(tools.ignored)
    s = sched.Sched(sc["switches"], sc["policy"],
                    watch={p: sc["how"] for p in ("fluent.syntax", "fluent.runtime", "fluent.pygments")})
    s.interrupts = any("intr" in o for ops in sc["threads"] for o in ops)
    bad, log = [], []
    interrupted = [0]
    points = []

    def body(tid, ops):
        me = s.threads[tid]
        for i, o in enumerate(ops):
            if "intr" in o:
                exc = KINDS[o["intr"]["kind"]]("interrupted")
                me.interrupt(o["intr"]["n"], o["intr"]["at"], exc)
                try:
                    tools.do(o)
                except sched.Aborted:
                    raise
                except BaseException as e:
                    if e is not exc and me.fired_at is not None:
                        bad.append(("swallowed", f"thread {tid}, call {i} ({key(o)}): the interrupt at {me.fired_at} "
                                    f"did not reach the caller, which got {e!r}"))
                me.intr = None
                if me.fired_at is not None:
                    interrupted[0] += 1
                    points.append(me.fired_at)
                    log.append((tid, i, me.fired_at))
                    me.fired_at = None
            got = attempt(tools, o)
            got = json.loads(json.dumps(got))
            log.append((tid, i, o["op"]))
            if got != expected[key(o)]:
                bad.append(("result", f"thread {tid}, call {i} ({key(o)}) gave {got!r}, alone {expected[key(o)]!r}; "
                            f"texts {texts!r}"))

    for tid, ops in enumerate(sc["threads"]):
        s.spawn(lambda tid=tid, ops=ops: body(tid, ops))
    problem = s.run()
    if problem:
        return runner.fail(problem[0], problem[1], s.digest())
    if bad:
        return runner.fail(bad[0][0], bad[0][1], s.digest(), log)
    if json.dumps(tools.ignored) != ignored:
        return runner.fail("changed", f"the lists of fields to ignore {ignored} are now {tools.ignored}", log)
    for i, t in enumerate(tools.trees + tools.spanless):
        if trees.snapshot(t) != before[i]:
            return runner.fail("changed", f"the tree of {texts[i % len(texts)]!r} was changed: it was {strip(before[i])}, "
                               f"is {strip(trees.snapshot(t))}", log)
    ops = {}
    for _, _, x in log:
        if x in OPS:
            ops[x] = ops.get(x, 0) + 1
    return {"digest": runner.digest_of(s.digest(), log), "sig": s.digest() + runner.digest_of(log),
            "nontrivial": s.n_forced > 0 or interrupted[0] > 0,
            "stats": {"calls": sum(ops.values()), "kinds of calls": ops, "calls cut short": interrupted[0],
                      "interrupt points (distinct)": points, "forced switches": s.n_forced,
                      "switch sites (distinct)": [x for x in s.switch_sites if x], "interleavings": [s.digest()]},
            "sample": {"texts": [t[:200] for t in texts], "log": [str(x) for x in log[:10]]}}


def strip(snap):
    if isinstance(snap, tuple) and len(snap) == 3:
        return (snap[0], [strip(x) for x in snap[2]])
    if isinstance(snap, tuple):
        return (snap[0], strip(snap[1]))
    return snap


shrink = runner.shrinker("threads+", "threads.*", "switches")
