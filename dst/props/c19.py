"""C19: edited resources survive saving, crashes and reloading."""
import json
import traceback

from .. import ftl, runner, sched, storage, trees
from .c09 import KINDS

ID = "C19"
RUNS = {"quick": 4000, "thorough": 120000}
RULE = ("1-2 stored resources (generated, or as people leave them behind, some with junk or damaged) go through 8-30 "
        "steps of editing sessions sharing parsers and serializers: load, replace, add, remove, reorder, rename, "
        "comment or copy entries, attributes and texts with parsed, built, cloned or JSON-restored nodes, save, save cut "
        "short by an interrupt or a crash (before, while or after the new file replaces the old one), crash, rewriting "
        "and appending by another editor; everything is tracked by a model that never sees the trees; every load must "
        "give the model's stored resource, every save of an unedited one the stored text; non-trivial: something "
        "edited was saved and loaded again")
REAL = ["fluent.syntax serializer, parser, ast"]
STUB = ["disk (a table of bytes, atomic rename)", "crashes (all unsaved trees, parsers and serializers are lost)",
        "interrupts (raised at the chosen point)"]
ASSUMPTIONS = ["texts set by applications are ones Fluent can express: without braces, lone carriage returns, blanks "
               "at the ends, or special characters at the start of continuation lines",
               "where junk is kept, entries are only edited in place or added at the end; how a stretch of junk is "
               "divided, and the blank lines in it, may change"]

CHARS = ["a", "b", "Z", "0", "é", "フ", "😀", "\t", "\u00a0", "\x85", "\u2028", "\u2029", "\x0b", "\x0c", "\x1c", "\x1e",
         "\u3000", "\\", "\"", "#", "-", "=", "$", "'", ":", ">", "(", ")", "<", "\ufeff", "\0", "\x7f", "ß", "İ", "…"]
SPECIAL = ["[", ".", "*"]


# -- what applications put into resources ------------------------------------------------

def odd_line(r, special):
    s = "".join(r.choice(CHARS) if r.random() < .5 else r.choice(ftl.WORDS) for _ in range(r.randrange(1, 5)))
    if r.random() < .3:
        s += r.choice([" ", "  "]) + r.choice(CHARS) + r.choice(["", "]", "*", ".", "x"])
    return (r.choice(SPECIAL) if special and r.random() < .2 else "") + s


def odd_text(r):
    lines = [odd_line(r, True)]
    for _ in range(r.choice([0, 0, 0, 1, 1, 2, 4])):
        if r.random() < .2:
            lines.append("")
        lines.append((" " * r.choice([0, 0, 0, 1, 4, 5])) + odd_line(r, False))
        if r.random() < .1:
            lines[-2] += " " if lines[-2] else ""
    return "\n".join(lines)


def odd_pattern(r, gen, depth=0):
    """A pattern (JSON) with unusual texts"""
    out = []
    for _ in range(r.choice([1, 1, 2, 3, 4])):
        if r.random() < .5:
            t = odd_text(r)
            if out and r.random() < .4:
                t = r.choice(["\n", " ", "\n\n", "  ", "\n  "]) + t.lstrip(".[*")
            if r.random() < .3:
                t += r.choice(["\n", " ", "\n\n", "\n "])
            out.append(t)
        else:
            e = gen.inline("", False)
            k = r.random()
            if k < .25 and depth < 3:
                keys = r.sample(["one", "other", "x", "0", "-1.50", "k-e_y"], r.randrange(1, 4))
                d = r.randrange(len(keys))
                sel = r.choice([["var", "n"], ["num", "1"], ["str", "s"], ["term", "t0", "a", None], ["term", "t0", "a", {"k": ["num", "1"]}],
                                ["fn", "F", [], {}], ["fn", "NUMBER", [["var", "n"], ["pl", ["num", "3"]]], {"a-b": ["str", "é"]}]])
                e = ["sel", sel, [[k2, odd_pattern(r, gen, depth + 1), i == d] for i, k2 in enumerate(keys)]]
                if r.random() < .1:
                    e = ["pl", e]
            elif k < .35:
                e = ["str", r.choice(["", " ", "{", "}", "\\", '"', "  x ", "\t", "#", "é\x85", "\u2028", "[", "\0"])]
            elif k < .4:
                e = ["raw", r.choice(["\\u00e9", "\\U01F602", "\\\\\\\"", "{\\u007d"])]
            elif k < .5:
                e = ["pl", e]
            elif k < .55:
                e = ["term", "t0", None, {}]
            out.append(e)
    return norm(out)


def norm(pat):
    """A pattern Fluent can express, nearest to the given one"""
    out = []
    for el in pat:
        if isinstance(el, str) and out and isinstance(out[-1], str):
            out[-1] += el
        elif el != "":
            out.append(el)
    if not out:
        return ["x"]
    if isinstance(out[0], str):
        out[0] = out[0].lstrip(" \n")
        if not out[0]:
            return norm(out[1:])
    if isinstance(out[-1], str):
        out[-1] = out[-1].rstrip(" \n\r")
        if not out[-1]:
            return norm(out[:-1])
    special = isinstance(out[0], str) and out[0][0] in ".[*"
    for i, el in enumerate(out):
        if not isinstance(el, str) or "\n" not in el:
            continue
        lines = el.split("\n")
        for j in range(1, len(lines)):
            last = j == len(lines) - 1
            if not lines[j].strip(" ") and not last:
                lines[j] = ""
            elif special:
                lines[j] = lines[j].lstrip(" ")
        el = "\n".join(lines)
        for c in "[.*":
            while True:
                new = el
                for n in ("\n", "\n ", "\n  ", "\n   ", "\n    ", "\n     "):
                    new = new.replace(n + c, n + "x")
                if new == el:
                    break
                el = new
        out[i] = el
    return out


def gen_entry(r, gen, n):
    k = r.random()
    if k < .2:
        return {"k": "c", "l": r.choice([1, 1, 2, 3]), "text": gen_comment(r)}
    term = k < .35
    e = {"k": "t" if term else "m", "id": r.choice(["n%d" % n, "m0", "m1", "t0", "A-_9"]), "v": odd_pattern(r, gen), "a": {}}
    for a in ("a", "b", "c-_1"):
        if r.random() < .25:
            e["a"][a] = odd_pattern(r, gen)
    if not term and e["a"] and r.random() < .3:
        e["v"] = None
    if r.random() < .3:
        e["c"] = gen_comment(r)
    return e


def gen_comment(r):
    return "\n".join(r.choice(["", "", " "]) + (odd_line(r, True) if r.random() < .8 else "") for _ in range(r.choice([1, 1, 2, 4])))


# -- shapes: entries as plain data; from JSON without the code under test --------------------

def S(ty, **f):
    return {"type": ty, "f": f}


def ident(n):
    return S("Identifier", name=n)


def s_expr(e):
    k = e[0]
    if k == "var":
        return S("VariableReference", id=ident(e[1]))
    if k == "msg":
        return S("MessageReference", id=ident(e[1]), attribute=ident(e[2]) if e[2] else None)
    if k == "term":
        return S("TermReference", id=ident(e[1]), attribute=ident(e[2]) if e[2] else None,
                 arguments=None if e[3] is None else s_args([], e[3]))
    if k == "fn":
        return S("FunctionReference", id=ident(e[1]), arguments=s_args(e[2], e[3]))
    if k == "str":
        return S("StringLiteral", value=ftl.esc(e[1]))
    if k == "raw":
        return S("StringLiteral", value=e[1])
    if k == "num":
        return S("NumberLiteral", value=e[1])
    if k == "pl":
        return S("Placeable", expression=s_expr(e[1]))
    if k == "sel":
        return S("SelectExpression", selector=s_expr(e[1]),
                 variants=[S("Variant", key=S("NumberLiteral", value=key) if key[0] in "-0123456789" else ident(key),
                             value=s_pattern(p), default=bool(d)) for key, p, d in e[2]])
    raise AssertionError(e)


def s_args(pos, named):
    return S("CallArguments", positional=[s_expr(x) for x in pos],
             named=[S("NamedArgument", name=ident(n), value=s_expr(v)) for n, v in named.items()])


def s_pattern(p):
    return S("Pattern", elements=[S("TextElement", value=x) if isinstance(x, str) else S("Placeable", expression=s_expr(x))
                                  for x in norm(p)])


def s_entry(e):
    if e["k"] == "c":
        return S({1: "Comment", 2: "GroupComment", 3: "ResourceComment"}[e["l"]], content=e["text"])
    f = dict(id=ident(e["id"]), value=None if e["v"] is None else s_pattern(e["v"]),
             attributes=[S("Attribute", id=ident(n), value=s_pattern(p)) for n, p in e["a"].items()],
             comment=S("Comment", content=e["c"]) if e.get("c") is not None else None)
    return S("Term" if e["k"] == "t" else "Message", **f)


def shape(v):
    """The shape of a real node"""
    base = trees.node_types()
    if isinstance(v, base):
        return {"type": type(v).__name__, "f": {k: shape(x) for k, x in trees.fields(v).items() if k not in ("span", "annotations")}}
    if isinstance(v, (list, tuple)):
        return [shape(x) for x in v]
    return v


def build(p):
    """A real node of a shape, built by its constructors"""
    from fluent.syntax import ast
    if isinstance(p, list):
        return [build(x) for x in p]
    if not isinstance(p, dict):
        return p
    return getattr(ast, p["type"])(**{k: build(v) for k, v in p["f"].items()})


def as_json(p):
    """What to_json() would give for a shape"""
    if isinstance(p, list):
        return [as_json(x) for x in p]
    if not isinstance(p, dict):
        return p
    return {"type": p["type"], **{k: as_json(v) for k, v in p["f"].items()}}


def copy(p):
    return json.loads(json.dumps(p))


def lone_cr(text):
    return "\r" in text.replace("\r\n", "")


# -- scenarios -----------------------------------------------------------------------------

EDITS = ["value", "value", "attr", "attr", "delattr", "comment", "add", "add", "add", "remove", "move", "copy", "rename", "text", "text",
         "novalue", "tree", "sort"]
IN_PLACE = ["value", "attr", "delattr", "comment", "append", "rename", "text", "tree"]


def generate(rng, idx, tier):
    junk = rng.random() < .3
    files = []
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.random()
        if k < .35:
            msgs = ["m%d" % i for i in range(rng.randrange(1, 5))]
            t = ftl.render(ftl.Gen(rng, msgs, ["t0"], "·", depth=2, junk=.3, multiline=.3).doc(msgs, ["t0"]))
        elif k < .4:
            t = ""
        else:
            t = storage.wild(rng)
            if rng.random() < (.3 if junk else .1):
                t = storage.join(storage.plan(rng, t, storage.wild(rng), 2)[1], t)
        t = "".join(c for c in t[:900] if not "\ud800" <= c <= "\udfff")
        files.append(t)
    gen = ftl.Gen(rng, ["m0", "m1", "n3"], ["t0"], "+", depth=2, multiline=.3)
    steps = []
    for _ in range(rng.randrange(8, 31 if tier == "quick" else 60)):
        r = rng.random()
        f = rng.randrange(len(files))
        if r < .12:
            st = {"op": "load", "f": f}
        elif r < .36:
            st = {"op": "save", "f": f}
            if rng.random() < .2:
                st["crash"] = rng.choice(["before", "torn", "unrenamed", "after"])
        elif r < .42:
            st = {"op": "crash"}
        elif r < .46:
            st = {"op": "eol", "f": f, "to": rng.choice(["\r\n", "\n"])}
        elif r < .49:
            st = {"op": "appended", "f": f, "e": {"k": "m", "id": "x%d" % len(steps), "v": [gen.text()], "a": {}}}
        else:
            op = rng.choice(IN_PLACE if junk else EDITS)
            st = {"op": op, "f": f, "i": rng.randrange(12), "j": rng.randrange(12), "how": rng.choice(["built", "built", "parsed", "json", "rendered"])}
            if op in ("value", "attr"):
                st["p"] = odd_pattern(rng, gen) if rng.random() < .6 else norm(gen.pattern(""))
                st["a"] = rng.choice("abz")
            elif op in ("add", "append"):
                st["e"] = gen_entry(rng, gen, len(steps))
            elif op == "comment":
                st["c"] = gen_comment(rng) if rng.random() < .7 else None
            elif op == "text":
                st["t"] = odd_text(rng)
            elif op == "rename":
                st["id"] = rng.choice(["r%d" % len(steps), "m0", "t0"])
        if st["op"] in ("load", "save") and rng.random() < .25:
            st["intr"] = {"n": int(rng.choice([20, 200, 1500]) ** rng.random()) + rng.randrange(2),
                          "kind": rng.choice(sorted(KINDS)), "point": rng.random() < .4}
        steps.append(st)
    return {"files": files, "steps": steps, "junk": junk, "spans": rng.random() < .5}


# -- execution -----------------------------------------------------------------------------

class Failed(Exception):
    pass


class Life:
    """What lives from one crash to the next"""

    def __init__(self, sc):
        from fluent.syntax import FluentParser, FluentSerializer
        self.parser = FluentParser(with_spans=sc["spans"])
        self.serializer = FluentSerializer(with_junk=sc["junk"])
        self.mem = {}     # file -> [tree, model, edited]


def execute(sc):
    from fluent.syntax import FluentParser, FluentSerializer

    if any(lone_cr(t) for t in sc["files"]):
        return {"digest": "", "stats": {"runs skipped (lone carriage return)": 1}}
    keep = sc["junk"]
    # the disk: file -> [bytes, model, written by the serializer]; a first look finds out what is there
    disk = []
    for t in sc["files"]:
        body = [shape(e) for e in FluentParser().parse(t).body]
        disk.append([t.encode(), body, False, False])
    life = Life(sc)
    n = {"loads": 0, "saves": 0, "saves of unedited": 0, "crashes": 0, "cut short": 0, "edited and loaded again": 0}
    sites, log, ops = [], [], {}

    def guarded(st, call, untouched=None):
        """call(), cut short before if the step says so"""
        if "intr" in st:
            me = s.threads[0]
            exc = KINDS[st["intr"]["kind"]]("interrupted")
            before = trees.snapshot(untouched) if untouched is not None else None
            me.interrupt(st["intr"]["n"], "point" if st["intr"]["point"] else "call", exc)
            got = None
            try:
                call()
            except sched.Aborted:
                raise
            except BaseException as e:
                got = e
            fired, me.intr, me.fired_at = me.fired_at, None, None
            if fired is not None:
                n["cut short"] += 1
                sites.append(fired)
                log.append(fired)
                if got is not exc:
                    raise Failed("swallowed", f"the interrupt at {fired} did not reach the caller, which got {got!r}")
            elif got is not None:
                raise got
            if untouched is not None and trees.snapshot(untouched) != before:
                raise Failed("changed", f"an interrupted save (at {fired}) changed the tree")
        return call()

    def diff(got, want):
        if len(got) != len(want):
            return f"{len(got)} entries {[brief(x) for x in got]} instead of {len(want)} {[brief(x) for x in want]}"
        for i, (a, b) in enumerate(zip(got, want)):
            if a != b:
                return f"entry {i} is {a} instead of {b}"

    def compare(got, want, what):
        a, b = squeeze(got), squeeze(want)
        if a != b:
            raise Failed("tree", f"{what}: {diff(a, b)}")

    def load(f, st={}):
        data, model, canonical, edited = disk[f]
        text = data.decode()
        tree = guarded(st, lambda: life.parser.parse(text))
        got = [shape(e) for e in tree.body]
        n["loads"] += 1
        n["edited and loaded again"] += edited
        compare(got, model, f"file {f} loaded from {text!r}")
        if keep:
            model = got   # junk is kept up to the blank lines around it
        life.mem[f] = [tree, copy(model), False]
        if canonical:
            for ser in (life.serializer, FluentSerializer(with_junk=keep)):
                again = ser.serialize(tree)
                n["saves of unedited"] += 1
                if again != text:
                    raise Failed("rewritten", f"file {f}, loaded from {text!r} and not edited, is saved as {again!r}")
        compare([shape(e) for e in tree.body], model, f"file {f} after saving it")

    def save(f, st):
        tree, model, edited = life.mem[f]
        crash = st.get("crash")
        if crash == "before":
            return die()
        text = guarded(st, lambda: life.serializer.serialize(tree), tree)
        compare([shape(e) for e in tree.body], model, f"the tree of file {f} after saving it")
        if crash in ("torn", "unrenamed"):
            return die()         # only the temporary file was written
        disk[f] = [text.encode(), [copy(e) for e in model if keep or e["type"] != "Junk"], True, edited or disk[f][3]]
        life.mem[f][2] = False
        n["saves"] += 1
        if crash == "after":
            die()

    def die():
        nonlocal life
        n["crashes"] += 1
        life = Life(sc)

    def get(f):
        if f not in life.mem:
            load(f)
        return life.mem[f]

    def made(sh, how, e=None):
        """A real node of the given shape, made as an application may"""
        from fluent.syntax import ast
        if how == "json":
            return ast.from_json(as_json(sh))
        node = build(sh)
        if how == "parsed" or how == "rendered":
            if how == "rendered" and e is not None:
                text = ftl.render([e])
            else:
                text = None
            if text is None:
                return node.clone()
            try:
                body = life.parser.parse(text).body
            except RecursionError:
                return node
            if len(body) == 1 and shape(body[0]) == sh:
                return body[0]
            log.append("rendered otherwise")
            n["rendered otherwise"] = n.get("rendered otherwise", 0) + 1
        return node

    def step(st):
        op = st["op"]
        f = st.get("f", 0) % len(disk)
        if op == "load":
            return load(f, st)
        if op == "save":
            get(f)
            return save(f, st)
        if op == "crash":
            return die()
        if op == "eol":
            data, model, canonical, edited = disk[f]
            text = data.decode().replace("\r\n", "\n").replace("\n", st["to"])
            if any(e["type"] == "Junk" for e in model):
                return
            disk[f] = [text.encode(), model, canonical and text.encode() == data, edited]
            life.mem.pop(f, None)
            return load(f)
        if op == "appended":
            data, model, canonical, edited = disk[f]
            if any(e["type"] == "Junk" for e in model):
                return
            text = data.decode()
            text += "\n\n" + ftl.render([st["e"]])
            disk[f] = [text.encode(), model + [s_entry(st["e"])], False, edited]
            life.mem.pop(f, None)
            return load(f)
        mem = get(f)
        tree, model, edited = mem
        if keep and op not in IN_PLACE:
            return
        how = st["how"]
        body = tree.body
        if op == "tree":
            if how in ("json", "parsed"):
                from fluent.syntax import ast
                mem[0] = ast.from_json(json.loads(json.dumps(tree.to_json())))
            else:
                mem[0] = tree.clone()
            return
        if op in ("add", "append"):
            sh = s_entry(st["e"])
            k = st["i"] % (len(body) + 1) if op == "add" else len(body)
            body.insert(k, made(sh, how, st["e"]))
            model.insert(k, sh)
            mem[2] = True
            return
        if op == "sort":
            order = sorted(range(len(model)), key=lambda i: (model[i]["f"].get("id") or {"f": {"name": ""}})["f"]["name"])
            body[:] = [body[i] for i in order]
            model[:] = [model[i] for i in order]
            mem[2] = True
            return
        if op == "copy":
            g = st["j"] % len(disk)
            other = get(g)
            real = [i for i, e in enumerate(other[1]) if e["type"] != "Junk"]
            if not real:
                return
            k = real[st["i"] % len(real)]
            body.insert(st["j"] % (len(body) + 1), other[0].body[k].clone())
            model.insert(st["j"] % (len(model) + 1), copy(other[1][k]))
            mem[2] = True
            return
        if not body:
            return
        if op in ("remove", "move"):
            i = st["i"] % len(body)
            e, m = body.pop(i), model.pop(i)
            if op == "move":
                j = st["j"] % (len(body) + 1)
                body.insert(j, e)
                model.insert(j, m)
            mem[2] = True
            return
        real = [i for i, e in enumerate(model) if e["type"] in ("Message", "Term")]
        if not real:
            return
        i = real[st["i"] % len(real)]
        e, m = body[i], model[i]["f"]
        mem[2] = True
        if op == "value":
            m["value"] = s_pattern(st["p"])
            e.value = made(m["value"], how)
        elif op == "novalue":
            if m["attributes"] and model[i]["type"] == "Message":
                m["value"] = e.value = None
        elif op == "attr":
            sh = S("Attribute", id=ident(st["a"]), value=s_pattern(st["p"]))
            at = [k for k, a in enumerate(m["attributes"]) if a["f"]["id"]["f"]["name"] == st["a"]]
            if at:
                m["attributes"][at[0]] = sh
                e.attributes[at[0]] = made(sh, how)
            else:
                k = st["j"] % (len(m["attributes"]) + 1)
                m["attributes"].insert(k, sh)
                e.attributes.insert(k, made(sh, how))
        elif op == "delattr":
            if m["attributes"] and (m["value"] is not None or len(m["attributes"]) > 1):
                k = st["j"] % len(m["attributes"])
                del m["attributes"][k], e.attributes[k]
        elif op == "comment":
            m["comment"] = None if st["c"] is None else S("Comment", content=st["c"])
            e.comment = None if st["c"] is None else made(m["comment"], how)
        elif op == "rename":
            m["id"] = ident(st["id"])
            if how == "built":
                e.id.name = st["id"]
            else:
                e.id = made(m["id"], how)
        elif op == "text":
            if m["value"] is None:
                return
            pairs = [(a, b) for a, b in zip(m["value"]["f"]["elements"], e.value.elements) if a["type"] == "TextElement"]
            if pairs and not pairs[0][0]["f"]["value"].startswith(" "):   # not expressible without its less indented lines
                a, b = pairs[st["j"] % len(pairs)]
                old = a["f"]["value"]
                a["f"]["value"] = b.value = st["t"].split("\n")[0].lstrip(".[* ").rstrip(" ") or old

    def run():
        try:
            history()
        except sched.Aborted:
            raise
        except Exception as e:
            tb = e.__traceback__
            while tb.tb_next:
                tb = tb.tb_next
            if sched._kind_of(tb.tb_frame.f_code.co_filename):
                bad.append(("raised", f"after {log[-3:]}: {traceback.format_exc()[-1500:]}"))
            else:
                broken.append(e)

    def history():
        for k, st in enumerate(sc["steps"]):
            ops[st["op"]] = ops.get(st["op"], 0) + 1
            try:
                step(st)
            except Failed as e:
                bad.append((e.args[0], f"step {k} ({st['op']}): {e.args[1]}"))
                return
            f = st.get("f", 0) % len(disk)
            if f in life.mem:
                tree, model, _ = life.mem[f]
                if [shape(e) for e in tree.body] != model:
                    bad.append(("edit", f"step {k} ({st}): an edit of the tree gave something else: "
                                f"{diff([shape(e) for e in tree.body], model)}"))
                    return
            log.append((k, st["op"]))
        try:
            life.mem.clear()
            for f in range(len(disk)):
                load(f)
        except Failed as e:
            bad.append((e.args[0], f"at the end: {e.args[1]}"))

    bad, broken = [], []
    how = "call"
    if any(st.get("intr", {}).get("point") for st in sc["steps"]):
        how = "instr"
    intr = any("intr" in st for st in sc["steps"])
    s = sched.Sched([], 0, watch={"fluent.syntax": how} if intr else {})
    s.interrupts = intr
    s.spawn(run)
    problem = s.run()
    if broken:
        raise broken[0]
    if problem:
        return runner.fail(problem[0], problem[1])
    if bad:
        return runner.fail(bad[0][0], bad[0][1], log)
    return {"digest": runner.digest_of(log, disk), "sig": runner.digest_of([d[0] for d in disk]), "nontrivial": n["edited and loaded again"] > 0,
            "stats": {**n, "steps": ops, "interrupt points (distinct)": sites},
            "sample": {"files": [t[:150] for t in sc["files"]], "steps": [st["op"] for st in sc["steps"]],
                       "stored in the end": [d[0].decode()[:200] for d in disk]}}


def squeeze(entries):
    """Entries with what stands as junk between them in one piece, without blank lines"""
    out = []
    for e in entries:
        if e["type"] == "Junk":
            text = "\n".join(x for x in e["f"]["content"].split("\n") if x.strip(" \r")).strip(" \r\n")
            if out and out[-1]["type"] == "Junk":
                text = out.pop()["f"]["content"] + "\n" + text
            e = {"type": "Junk", "f": {"content": text}}
        out.append(e)
    return out


def brief(e):
    f = e["f"]
    return f["id"]["f"]["name"] if "id" in f else e["type"]


shrink = runner.shrinker("steps", "files+", "steps.*.p+", "steps.*.e.v+", "steps.*.e.a")
