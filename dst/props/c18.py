"""C18: a failing transformation leaves a complete, usable tree."""
import sys

from .. import ftl, runner, sched, storage, trees
from .c09 import KINDS

ID = "C18"
RUNS = {"quick": 6000, "thorough": 150000}
RULE = ("a transformer with 1-4 rules (rename in place or by new nodes, rewrite texts, replace literals, remove list "
        "items or properties, leave out a subtree; before or after descending) is run over a parsed tree or a part of "
        "one and cut short 1-4 times: a callback raises at its n-th call, an interrupt arrives at the n-th function "
        "entry or interrupt point in fluent.syntax, or the stack ends; the same or a new transformer runs again; a "
        "visitor is cut short likewise; after each cut the tree is compared, list by list, with the old one and the "
        "completely transformed one, which the harness computes itself; in the end an undisturbed run must complete "
        "it; non-trivial: at least one run was cut short after the first callback")
REAL = ["fluent.syntax visitor, ast, parser"]
STUB = ["the raising callbacks", "interrupts (raised at the chosen point)", "the end of the stack (recursion limit)"]
ASSUMPTIONS = ["the transformation is insensitive to being applied twice"]

EXC = {"ValueError": ValueError, "KeyError": KeyError, "RuntimeError": RuntimeError, "StopIteration": StopIteration,
       "AttributeError": AttributeError, "MemoryError": MemoryError, "LookupError": LookupError, "TypeError": TypeError,
       **KINDS}
# type -> what may be done to it
RULES = {
    "Identifier": ["rename", "rename-new"],
    "TextElement": ["text", "text-new", "drop"],
    "StringLiteral": ["literal"],
    "Attribute": ["drop", "drop-some", "keep"],
    "Comment": ["drop", "content", "content-new"],
    "GroupComment": ["drop", "content"],
    "ResourceComment": ["drop", "content-new"],
    "Junk": ["drop"],
    "Annotation": ["drop"],
    "Message": ["drop-some", "keep", "visit", "no-comment"],
    "Term": ["drop-some", "visit", "no-comment"],
    "Pattern": ["visit", "drop"],
    "Placeable": ["visit", "drop"],
    "Span": ["drop", "shift-new"],
    "Variant": ["visit", "drop"],
    "NamedArgument": ["drop", "visit"],
    "CallArguments": ["visit", "drop"],
    "SelectExpression": ["visit", "keep"],
}


def generate(rng, idx, tier):
    k = rng.random()
    if k < .45:
        msgs = ["m%d" % i for i in range(rng.randrange(1, 4))]
        t = ftl.render(ftl.Gen(rng, msgs, ["t0"], "·", depth=2, junk=.3, multiline=.3).doc(msgs, ["t0"]))
    elif k < .9:
        t = storage.wild(rng)
    else:
        d = rng.randrange(5, 40)
        t = "# c\nm = a " + "{" * d + " $x " + "}" * d + " b\n    .a = c\n"
    rules = {}
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        ty = rng.choice(sorted(RULES))
        rules[ty] = {"do": rng.choice(RULES[ty]), "order": rng.choice(["pre", "post", "none", "post"]), "x": rng.choice("amtTZ")}
    if rng.random() < .5:
        rules.setdefault("Identifier", {"do": "rename", "order": "post", "x": "a"})
    cuts = []
    for _ in range(rng.choice([1, 1, 2, 4])):
        kind = rng.choice(["raise", "raise", "raise", "intr", "intr", "stack"])
        c = {"kind": kind, "n": rng.randrange(1, 6) if rng.random() < .4 else int(rng.choice([20, 150, 600]) ** rng.random()) + 1,
             "exc": rng.choice(sorted(EXC)) if kind == "raise" else rng.choice(sorted(KINDS)),
             "at": rng.choice(["pre", "post"]), "new": rng.random() < .3, "point": rng.random() < .5,
             "visitor": rng.random() < .2}
        if kind == "intr" and c["point"]:
            c["n"] = c["n"] * 5 + rng.randrange(5)
        if kind == "stack":
            c["n"] = rng.randrange(4, 40)
        cuts.append(c)
    return {"text": "".join(c for c in t[:700] if not "\ud800" <= c <= "\udfff"), "root": rng.choice([0, 0, 0, rng.randrange(1, 30)]),
            "rules": rules, "cuts": cuts}


# -- the transformation, as the harness sees it ------------------------------------------

def first(node_or_plain):
    """The first letter of the name of a thing that has one"""
    n = node_or_plain
    if isinstance(n, dict):
        return (n["f"]["id"] or {"f": {"name": "?"}})["f"]["name"][:1]
    return n.id.name[:1] if n.id is not None else "?"


def renamed(name):
    return name if name.endswith("Xx") else name + "Xx"


def rewritten(text):
    return text.upper() if text.upper().upper() == text.upper() else text


def noted(text):
    return text if text is None or text.endswith("!") else text + "!"


def transformed(p, rules):
    """What becomes of a plain tree; None if it is removed"""
    if isinstance(p, list):
        return [y for y in (transformed(x, rules) for x in p) if y is not None]
    if not isinstance(p, dict):
        return p
    ty = p["type"]
    rule = rules.get(ty)

    def down(p):
        return {"type": ty, "f": {k: transformed(v, rules) for k, v in p["f"].items()}}

    if rule is None:
        return down(p)
    do = rule["do"]
    if do == "keep":
        return p
    q = p if rule["order"] == "none" else down(p)
    f = dict(q["f"])
    if do == "drop" or do == "drop-some" and first(p) == rule["x"]:
        return None
    if do == "rename":
        f["name"] = renamed(f["name"])
    elif do == "text":
        f["value"] = rewritten(f["value"])
    elif do == "content":
        f["content"] = noted(f["content"])
    elif do == "no-comment":
        f["comment"] = None
    elif do == "rename-new":
        f = {"span": None, "name": renamed(f["name"])}
    elif do == "text-new":
        f = {"span": None, "value": rewritten(f["value"])}
    elif do == "content-new":
        f = {"span": None, "content": noted(f["content"])}
    elif do == "literal":
        return {"type": "NumberLiteral", "f": {"span": None, "value": "0"}}
    elif do == "shift-new":
        f = {"start": 7, "end": 7}
    return {"type": ty, "f": f}


def plain(v):
    base = trees.node_types()
    if isinstance(v, base):
        return {"type": type(v).__name__, "f": {k: plain(x) for k, x in trees.fields(v).items()}}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


# -- the transformation, as an application writes it --------------------------------------

class Cut:
    """Decides at which callback something is raised"""

    def __init__(self):
        self.n = 0
        self.at = None
        self.exc = None
        self.count = 0

    def here(self, when):
        self.count += 1
        if self.exc is not None and when == self.at:
            self.n -= 1
            if self.n == 0:
                raise self.exc


def make(rules, cut):
    from fluent.syntax import ast
    from fluent.syntax.visitor import Transformer

    def method(ty, rule):
        do, order, x = rule["do"], rule["order"], rule["x"]

        def callback(self, node):
            cut.here("pre")
            if do == "keep":
                return node
            gone = do == "drop" or do == "drop-some" and first(node) == x
            if order == "post":
                self.generic_visit(node)
            if do == "rename":
                node.name = renamed(node.name)
            elif do == "text":
                node.value = rewritten(node.value)
            elif do == "content":
                node.content = noted(node.content)
            elif do == "no-comment":
                node.comment = None
            if order == "pre":
                self.generic_visit(node)
            cut.here("post")
            if gone:
                return None
            if do == "rename-new":
                return node if node.name.endswith("Xx") and node.span is None else ast.Identifier(renamed(node.name))
            if do == "text-new":
                return ast.TextElement(rewritten(node.value))
            if do == "content-new":
                return type(node)(noted(node.content))
            if do == "literal":
                return ast.NumberLiteral("0")
            if do == "shift-new":
                return ast.Span(7, 7)
            return node

        return callback

    body = {"visit_" + ty: method(ty, rule) for ty, rule in rules.items()}
    return type("T", (Transformer,), body)()


def make_visitor(cut):
    from fluent.syntax.visitor import Visitor

    class V(Visitor):
        def __init__(self):
            self.seen = []

        def generic_visit(self, node):
            cut.here("pre")
            self.seen.append(id(node))
            super().generic_visit(node)
            cut.here("post")

    return V()


# -- the state of a tree after a cut -------------------------------------------------------

class Rec:
    """What a node was, the node itself kept alive"""

    def __init__(self, node, rules):
        base = trees.node_types()
        self.obj = node
        self.plain = plain(node)
        self.after = transformed(self.plain, rules)
        self.f = {}
        for k, v in trees.fields(node).items():
            if isinstance(v, base):
                self.f[k] = Rec(v, rules)
            elif isinstance(v, list):
                self.f[k] = [Rec(x, rules) if isinstance(x, base) else x for x in v]
            else:
                self.f[k] = v

    def check(self, rules, path="tree"):
        """What is wrong with the node now, if anything"""
        now = trees.fields(self.obj)
        new = {k: transformed(v, rules) for k, v in self.plain["f"].items()}
        final = self.after["f"] if self.after is not None and self.after["type"] == self.plain["type"] else {}
        if set(now) != set(self.f):
            return f"{path}: has the properties {list(now)} instead of {list(self.f)}"
        for k, old in self.f.items():
            v, p = now[k], path + "." + k
            if isinstance(old, Rec):
                if v is old.obj:
                    bad = old.check(rules, p)
                    if bad:
                        return bad
                elif plain(v) != old.after and not (k in final and plain(v) == final[k]):
                    return f"{p}: is {plain(v)}, neither what it was ({old.plain}) nor transformed ({old.after})"
            elif isinstance(old, list):
                if not isinstance(v, list):
                    return f"{p}: is no list any more: {v!r}"
                if len(v) == len(old) and all(x is (o.obj if isinstance(o, Rec) else o) for x, o in zip(v, old)):
                    for i, o in enumerate(old):
                        bad = isinstance(o, Rec) and o.check(rules, f"{p}[{i}]")
                        if bad:
                            return bad
                elif plain(v) != new[k]:
                    return (f"{p}: has neither all its old nor all its transformed children: {plain(v)}, was "
                            f"{self.plain['f'][k]}, transformed {new[k]}")
            elif v != old and not (k in final and v == final[k]):
                return f"{p}: is {v!r}, neither {old!r} nor {final.get(k)!r}"
        return None


def doubled(tree):
    nodes = trees.nodes_in_order(tree)
    return len(nodes) - len({id(n) for n in nodes})


def execute(sc):
    from fluent.syntax import FluentParser

    rules = sc["rules"]
    tree = FluentParser().parse(sc["text"])
    if sc["root"]:
        nodes = trees.nodes_in_order(tree)
        tree = nodes[sc["root"] * 5 % len(nodes)]
        if transformed(plain(tree), rules) is None or type(tree).__name__ in ("Span",):
            return {"digest": "", "stats": {}}
    rec = Rec(tree, rules)
    want = rec.after
    if transformed(want, rules) != want:
        return {"digest": "", "stats": {"transformations skipped (not idempotent)": 1}}
    if doubled(tree):
        return {"digest": "", "stats": {"trees skipped (a node used twice)": 1}}
    cut = Cut()
    tr = make(rules, cut)
    log, sites = [], []
    state = {"now": tree, "cuts": 0, "late": 0}
    counts = {}
    problem = []

    def one(c):
        nonlocal tr
        now = state["now"]
        if c["new"]:
            tr = make(rules, cut)
        what = make_visitor(cut) if c["visitor"] else tr
        before = trees.snapshot(now) if c["visitor"] else None
        exc = EXC[c["exc"]]("cut")
        cut.count, cut.exc = 0, None
        me = s.threads[0]
        limit = sys.getrecursionlimit()
        if c["kind"] == "raise":
            cut.n, cut.at, cut.exc = c["n"], c["at"], exc
        elif c["kind"] == "intr":
            me.interrupt(c["n"], "point" if c["point"] else "call", exc)
        got = res = None
        try:
            if c["kind"] == "stack":
                depth = 0
                f = sys._getframe()
                while f:
                    depth, f = depth + 1, f.f_back
                sys.setrecursionlimit(depth + c["n"])
            res = what.visit(now)
        except sched.Aborted:
            raise
        except BaseException as e:
            got = e
        finally:
            sys.setrecursionlimit(limit)
            fired, me.intr, me.fired_at, cut.exc, n = me.fired_at, None, None, None, cut.n
        due = n == 0 if c["kind"] == "raise" else fired is not None if c["kind"] == "intr" else isinstance(got, RecursionError)
        log.append((c["kind"], cut.count, due, type(got).__name__, fired))
        if due:
            state["cuts"] += 1
            state["late"] += cut.count > 0
            k = c["kind"] + (" (visitor)" if c["visitor"] else "")
            counts[k] = counts.get(k, 0) + 1
            if fired:
                sites.append(fired)
        if due and c["kind"] != "stack" and got is not exc:
            return ("swallowed", f"{exc!r} ({c}) did not reach the caller, which got {got!r} / {res!r}")
        if not due and got is not None:
            return ("raised", f"visit() raised {got!r}")
        if c["visitor"]:
            if trees.snapshot(now) != before:
                return ("visitor", f"a visitor changed the tree {before}")
        elif not due:
            state["now"] = res
            if plain(res) != want:
                return ("result", f"a completed run gave {plain(res)}, should be {want}")
        else:
            bad = rec.check(rules) if now is tree else plain(now) != want and f"{plain(now)} should be {want}"
            if bad:
                return ("half", f"after {c} in callback {cut.count}: {bad}")
        if doubled(state["now"]):
            return ("doubled", f"after {c}: a node is in the tree twice: {plain(state['now'])}")
        return None

    def body():
        for c in sc["cuts"]:
            bad = one(c)
            if bad:
                problem.append(bad)
                return
        end = {"kind": "none", "n": 0, "exc": "ValueError", "at": "pre", "new": False, "point": False, "visitor": False}
        order = [id(n) for n in trees.nodes_in_order(state["now"])]
        v = make_visitor(cut)
        v.visit(state["now"])
        if sorted(v.seen) != sorted(order):
            problem.append(("visited", f"a visitor saw {len(v.seen)} nodes, the tree has {len(order)}"))
            return
        bad = one(end)
        if bad:
            problem.append(bad)

    instr = any(c["kind"] == "intr" for c in sc["cuts"])
    s = sched.Sched([], 0, watch={"fluent.syntax": "instr"} if instr else {})
    s.interrupts = instr
    s.spawn(body)
    bad = s.run()
    if bad:
        return runner.fail(bad[0], bad[1])
    if problem:
        return runner.fail(problem[0][0], f"{problem[0][1]}; rules {rules}, text {sc['text']!r}", log)
    return {"digest": runner.digest_of(log, plain(state["now"])), "sig": runner.digest_of(log, sc["text"], sorted(rules)),
            "nontrivial": state["late"] > 0,
            "stats": {"runs cut short": state["cuts"], "cuts by kind": counts, "interrupt points (distinct)": sites,
                      "rules (distinct)": [f"{t}:{r['do']}:{r['order']}" for t, r in rules.items()]},
            "sample": {"text": sc["text"][:200], "rules": rules, "log": [str(x) for x in log]}}


shrink = runner.shrinker("cuts", "rules")
