"""Structured translations: generator, renderer to Fluent syntax, and argument values.

Entries are JSON: {"k": "m"|"t"|"c"|"j", "id", "v": pattern|None, "a": {name: pattern}}.
Patterns are lists of text (str) or expressions:
    ["var", name] ["msg", id, attr] ["term", id, attr, {named}] ["fn", NAME, [args], {named}]
    ["str", text] ["str", text, "u"|"U": as escapes] ["num", "1.5"] ["sel", expr, [[key, pattern, is_default], ...]] ["pl", expr]
Only a pattern element may be a "sel".  Rendering is independent of fluent.syntax.serializer.
"""


def esc(s):
    return s.replace("\\", "\\\\").replace('"', '\\"')


def r_lit(x):
    if x[0] != "str":
        return x[1]
    if len(x) > 2:   # spelled as escapes
        return '"' + "".join(f"\\u{ord(c):04x}" if x[2] == "u" and ord(c) < 0x10000 else f"\\U{ord(c):06X}"
                             for c in x[1]) + '"'
    return '"' + esc(x[1]) + '"'


def r_expr(e, ind):
    k = e[0]
    if k == "var":
        return "$" + e[1]
    if k == "msg":
        return e[1] + ("." + e[2] if e[2] else "")
    if k == "term":
        s = "-" + e[1] + ("." + e[2] if e[2] else "")
        if e[3] is not None:
            s += "(" + ", ".join(f"{n}: {r_lit(v)}" for n, v in e[3].items()) + ")"
        return s
    if k == "fn":
        parts = [r_expr(a, ind) for a in e[2]]
        parts += [f"{n}: {r_lit(v)}" for n, v in e[3].items()]
        return e[1] + "(" + ", ".join(parts) + ")"
    if k in ("str", "num"):
        return r_lit(e)
    if k in ("bad", "warn"):
        return e[1]
    if k == "raw":
        return '"' + e[1] + '"'
    if k == "pl":
        return "{ " + r_expr(e[1], ind) + " }"
    if k == "sel":
        out = r_expr(e[1], ind) + " ->"
        for key, pat, default in e[2]:
            out += "\n" + " " * (ind + 4) + ("*" if default else "") + "[" + key + "] "
            out += r_pattern(pat, ind + 8)
        return out + "\n" + " " * ind
    raise AssertionError(e)


def r_pattern(pat, ind=4):
    out = ""
    for i, el in enumerate(pat):
        if isinstance(el, str):
            if i == 0 and el[:1] == " ":   # only minimised scenarios have these
                out, el = '{ " " }', el[1:]
            if i == len(pat) - 1 and el[-1:] == " ":
                out += el[:-1].replace("\n", "\n" + " " * ind) + '{ " " }'
                continue
            out += el.replace("\n", "\n" + " " * ind)
        else:
            out += "{ " + r_expr(el, ind) + " }"
    return out


def r_entry(e):
    k = e["k"]
    if k == "c":
        return "#" * e["l"] + " " + e["text"].replace("\n", "\n" + "#" * e["l"] + " ") + "\n"
    if k == "j":
        return e["text"] + "\n"
    out = ""
    if e.get("c"):
        out += "# " + e["c"].replace("\n", "\n# ") + "\n"
    out += ("-" if k == "t" else "") + e["id"] + " ="
    if e.get("v") is not None:
        out += " " + r_pattern(e["v"])
    for name, pat in (e.get("a") or {}).items():
        out += "\n    ." + name + " = " + r_pattern(pat, 8)
    return out + "\n"


def render(entries):
    out = ""
    for e in entries:
        if e["k"] in ("c", "j"):
            if out and not out.endswith("\n\n"):
                out += "\n"
            out += r_entry(e) + "\n"
        else:
            out += r_entry(e)
    return out


# -- generator ------------------------------------------------------------------------

WORDS = ["alfa", "brío", "çelik", "δοκιμή", "echo", "フグ", "golf", "h'otel", "indìa", "😀", "kilo"]
CATS = ["zero", "one", "two", "few", "many"]


class Gen:
    def __init__(self, rng, msgs, terms, tag, variables=("n", "s", "f", "x"),
                 functions=("F", "G", "NUMBER"), attrs=("a", "b"), junk=0.1, missing=0.08,
                 depth=2, multiline=0.15, numopts=None):
        self.numopts = numopts
        self.rng = rng
        self.msgs = list(msgs)
        self.terms = list(terms)
        self.tag = tag
        self.vars = list(variables)
        self.fns = list(functions)
        self.attrs = list(attrs)
        self.junk = junk
        self.missing = missing
        self.maxdepth = depth
        self.multiline = multiline
        self.n = 0

    def word(self):
        self.n += 1
        return f"{self.rng.choice(WORDS)}{self.n}{self.tag}"

    def text(self):
        r = self.rng
        s = self.word()
        for _ in range(r.randrange(3)):
            s += " " + self.word()
        if r.random() < self.multiline:
            s += "\n" + self.word()
        return s

    def named(self, fn):
        r = self.rng
        if fn == "NUMBER":
            opts = {}
            if self.numopts and r.random() < .5:
                return {k: ["num" if isinstance(v, int) else "str", str(int(v) if isinstance(v, bool) else v)]
                        for k, v in r.choice(self.numopts).items()}
            if r.random() < .4:
                opts["minimumFractionDigits"] = ["num", str(r.randrange(4))]
            if r.random() < .3:
                opts["useGrouping"] = ["num", "0"]
            if r.random() < .2:
                opts["type"] = ["str", r.choice(["ordinal", "ordinal", "cardinal"])]
            return opts
        if fn == "DATETIME":
            opts = {}
            if r.random() < .6:
                opts["dateStyle"] = ["str", r.choice(["full", "long", "medium", "short"])]
            return opts
        return {k: r.choice([["str", self.word()], ["num", str(r.randrange(9))]])
                for k in ("k", "j") if r.random() < .3}

    def inline(self, after, in_term, depth=0):
        r = self.rng
        kinds = ["var"] * 4 + ["msg"] * 3 + ["term"] * 2 + ["str", "num"]
        if self.fns:
            kinds += ["fn"] * 3
        while True:
            k = r.choice(kinds)
            if k == "var":
                if r.random() < self.missing:
                    return ["var", "zz"]
                if not self.vars:
                    continue
                return ["var", r.choice(self.vars)]
            if k in ("msg", "term"):
                pool = [x for x in (self.msgs if k == "msg" else self.terms) if x > after]
                if r.random() < self.missing:
                    ref = "zmissing"
                elif pool:
                    ref = r.choice(pool)
                else:
                    continue
                attr = r.choice(self.attrs) if self.attrs and r.random() < .25 else None
                if k == "msg":
                    return ["msg", ref, attr]
                if attr:
                    continue  # term attributes are for selectors only
                args = None
                if r.random() < .5:
                    args = {v: r.choice([["str", self.word()], ["num", str(r.randrange(6))]])
                            for v in self.vars if r.random() < .4}
                return ["term", ref, None, args]
            if k == "fn":
                fn = r.choice(self.fns)
                if r.random() < self.missing:
                    fn = "NOSUCH"
                if fn == "NUMBER":
                    nums = [v for v in self.vars if v in ("n", "f") or v == "c" and self.numopts]
                    if not nums:
                        continue
                    return ["fn", fn, [["var", r.choice(nums)]], self.named(fn)]
                if fn == "DATETIME":
                    return ["fn", fn, [["var", "d"]], self.named(fn)]
                n = r.randrange(3)
                args = [self.inline(after, in_term, depth + 1) for _ in range(n)] if depth < 2 else []
                return ["fn", fn, args, self.named(fn)]
            if k == "str":
                s = ["str", self.word()]
                return s if r.random() < .85 else s + [r.choice("uU")]
            return ["num", r.choice(["0", "1", "2", "5", "1.0", "3.14", "-7"])]

    def selector(self, after):
        r = self.rng
        k = r.choice(["var", "var", "var", "num", "term", "fn"])
        if k == "term":
            pool = [x for x in self.terms if x > after]
            if pool and self.attrs:
                return ["term", r.choice(pool), r.choice(self.attrs), None]
        if k == "fn" and "NUMBER" in self.fns and "n" in self.vars:
            return ["fn", "NUMBER", [["var", "n"]], self.named("NUMBER")]
        if k == "num":
            return ["num", r.choice(["0", "1", "2", "5"])]
        return ["var", r.choice(self.vars)] if self.vars else ["num", "1"]

    def select(self, after, in_term, depth):
        r = self.rng
        sel = self.selector(after)
        keys = []
        for _ in range(r.randrange(1, 4)):
            if sel[0] == "var" and sel[1] in ("s", "x") or sel[0] == "term":
                k = r.choice(["u", "v", "w", "word"])
            else:
                k = r.choice(CATS + ["0", "1", "2", "5"])
            if k not in keys:
                keys.append(k)
        d = r.randrange(len(keys))
        return ["sel", sel, [[k, self.pattern(after, in_term, depth + 1), i == d]
                             for i, k in enumerate(keys)]]

    def pattern(self, after, in_term=False, depth=0):
        r = self.rng
        if r.random() < .25:
            return [self.text()]
        if r.random() < .2:
            return [self.element(after, in_term, depth)]
        out = []
        n = r.randrange(1, 4)
        for i in range(n):
            out.append(self.word() + " ")
            out.append(self.element(after, in_term, depth))
        if r.random() < .7:
            out.append(" " + self.text())
        if r.random() < .2:
            out = out[1:]
        return out

    def element(self, after, in_term, depth):
        r = self.rng
        if depth < self.maxdepth and r.random() < .2:
            return self.select(after, in_term, depth)
        e = self.inline(after, in_term)
        if r.random() < .06:
            return ["pl", e]
        return e

    def message(self, id, value=None):
        r = self.rng
        attrs = {a: self.pattern(id) for a in self.attrs if r.random() < .35}
        v = self.pattern(id)
        if value is False or (value is None and attrs and r.random() < .2):
            v = None
            attrs = attrs or {self.attrs[0]: self.pattern(id)}
        e = {"k": "m", "id": id, "v": v, "a": attrs}
        if r.random() < .15:
            e["c"] = self.word()
        return e

    def term(self, id):
        r = self.rng
        attrs = {}
        for a in self.attrs:
            if r.random() < .5:
                attrs[a] = [r.choice(["u", "v", "w", "word"])]
        return {"k": "t", "id": id, "v": self.pattern(id, True), "a": attrs}

    def filler(self):
        r = self.rng
        if r.random() < .5:
            return {"k": "c", "l": r.choice([1, 2, 3]), "text": self.word()}
        return {"k": "j", "text": r.choice(["?? " + self.word(), "junk1 {", "-bad ", "foo bar " + self.word(),
                                            "err1 = {", "m0 = { $n ->\n   [one] x\n}"])}

    def doc(self, msgs, terms):
        r = self.rng
        entries = [self.message(m) for m in msgs] + [self.term(t) for t in terms]
        r.shuffle(entries)
        i = 0
        while i <= len(entries):
            if r.random() < self.junk:
                entries.insert(i, self.filler())
                i += 1
            i += 1
        return entries


# -- arguments ------------------------------------------------------------------------

def gen_args(rng, variables=("n", "s", "f", "x"), long=.04):
    out = {}
    for v in variables:
        if rng.random() < .15:
            continue
        if v == "n":
            out[v] = rng.choice([0, 1, 2, 5, 11, 1234567, -3])
        elif v == "f":
            out[v] = rng.choice([0.5, 1.0, 2.25, 12345.75])
        elif v == "s":
            out[v] = rng.choice(["u", "v", "w", "straße", "", "zéro"])
            if rng.random() < long:   # at the limit of what a placeable may give
                out[v] = ["long", rng.choice([3000, 2501, 2500, 2499, 2498, 2497, 1250, 1249])]
        elif v == "x":
            out[v] = rng.choice(["u", "w", 1, ["bad"], 3])
            if out[v] == 3 and rng.random() < .5:
                out[v] = ["bad", rng.choice(["two", "two", "dict", "bytes", "set", "none"])]
        elif v == "d":
            out[v] = rng.choice([["date", 2024, 2, 29], ["dt", 2021, 7, 4, 12, 30, 5],
                                 ["date", 1999, rng.randrange(1, 13), 3], ["dt", 1970, 1, rng.randrange(1, 29), 0, 0, 0]])
        elif v == "c":
            out[v] = ["cust", rng.choice(["ü", "w", "x"])] if rng.random() < .6 else \
                ["dec", rng.choice(["0", "2.50", "12345.75", "-3", "1.1"])]
    return out


def build_arg(a, before=None):
    import datetime
    import decimal
    if isinstance(a, list):
        k = a[0]
        if k == "dec":
            return decimal.Decimal(a[1])
        if k == "long":
            return "l" * a[1]
        if k == "bad":
            return {"list": ["unsupported"], "two": ["z", "a"], "dict": {"z": [1], "a": {}}, "none": None,
                    "bytes": bytearray(b"z"), "set": {"z"}}[a[1] if len(a) > 1 else "list"]
        if k == "date":
            return datetime.date(*a[1:])
        if k == "dt":
            return datetime.datetime(*a[1:])
        if k == "fnum":
            from fluent.runtime.types import fluent_number
            return fluent_number(build_arg(a[1]), **a[2])
        if k == "fdate":
            from fluent.runtime.types import fluent_date
            return fluent_date(build_arg(a[1]), **a[2])
        if k == "cust":
            return custom(a[1], before)
        raise AssertionError(a)
    return a


def custom(text, before=None):
    """A FluentType of the simulated application."""
    from fluent.runtime.types import FluentType

    from . import model

    class Custom(FluentType):
        def __init__(self):
            self.cust = text

        def format(self, locale):
            if before is not None:
                before(self)
            return model.cust_text(self.cust, locale)

    return Custom()


def build_args(args, before=None):
    return None if args is None else {k: build_arg(v, before) for k, v in args.items()}
