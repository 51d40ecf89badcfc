"""Simulated damage of stored resources.

A damaged text is a list of pieces: [a, b] (the stretch a..b of the undamaged text survived) or
a string (something else is there).  Which stretch survived where is thus known to the oracle
without looking at the text.
"""
from . import ftl

GARBAGE = ["\0", "\0\0\0\0", "{", "}", "{ ", " }", "\n", "\n\n", "=", " = ", "#", "# ", "-", "-x", "*", "[", "]",
           ".", "\n.", "\n    .", "\"", "\\", "\\u", "\\u00", "(", ")", ",", ":", "->", " ->\n", "$", "$x", "//",
           "[[", "\r", "\r\n", "\t", " ", "    ", "\ufeff", "é", "😀", "foo", "foo =", "foo = bar\n", "\nfoo = bar",
           "\n# c\n", "\n## c\n", "\n### c", "m0", "\nm1 = ", "\n-t0 = x\n", "\n}", "\n{ ", "\n    [one] x",
           "\n   *[other] y\n    }", "NUMBER($x, ", "\x85", "\u2028", "\x1f", "\f", "\n\f\n", "\v", "\x1a", "\n\xa0", "\u3000", "\u200b", "0", "{ $n ->", "{ \"", "\n    more"]


NESTS = ["{", "F(", "{F(", "{ $x ->\n *[a] ", "-t(", "{-t0(", "{ ", "{\n", "{m0.a ->\n*[b]{"]
CLOSE = {"{": "}", "F(": ")", "{F(": ")}", "{ $x ->\n *[a] ": "\n }", "-t(": ")", "{-t0(": ")}", "{ ": " }", "{\n": "}",
         "{m0.a ->\n*[b]{": "}\n}"}


def nest(rng):
    """Something nested deeply, as a stuck or hostile writer leaves it."""
    if rng.random() < .1:
        return "{ " + rng.choice(["", "-", "0."]) + rng.choice("189") * rng.choice([400, 4300, 4301, 5000]) + rng.choice([" }", ".5 }", " ->\n *[a] x\n }"])
    o = rng.choice(NESTS)
    n = rng.choice([8, 20, 49, 50, 51, 60, 90, 120, 170, 250, 400, 1000])
    n = min(n, 2500 // len(o))
    end = CLOSE[o] * rng.choice([n, n, n, n - 1, 0, 1, n + 1])
    t = rng.choice(["$x", '"s"', "1", "", "m0"]) if o != "{ $x ->\n *[a] " else "v"
    return ("{ " if o in ("F(", "-t(") else "") + o * n + t + end + (" }" if o in ("F(", "-t(") else "")


def wild(rng, tag=""):
    """Text in the style people and merge tools leave behind: all spacings, some of it broken."""
    r = rng
    out = []
    ids = ["m%d" % i for i in range(5)] + ["a-b_c", "Z"]

    def blank():
        return r.choice(["", "", "", " ", "  "])

    def space():
        # inside placeables, where line breaks are blank space too
        return r.choice(["", "", "", " ", " ", "  ", "\n", "\n    ", "\n \n  "][:r.choice([6, 6, 9])])

    def word():
        return r.choice(ftl.WORDS) + tag

    def placeable(d=0):
        k = r.randrange(9)
        b, c = space(), space()
        if k == 0:
            e = "$" + r.choice("nsfx")
        elif k == 1:
            e = r.choice(ids) + r.choice(["", ".a"])
        elif k == 2:
            e = "-t" + str(r.randrange(3)) + r.choice(["", f"{space()}({space()}n{space()}:{space()}1{space()})", '(k: "v", n: 2)'])
        elif k == 3:
            e = '"' + r.choice(["", " ", "{", "}", "\\\"", "\\\\", "\\u00e9", "\\U01F602", word(), "#"]) + '"'
        elif k == 4:
            e = r.choice(["0", "-1", "3.14", "007"])
        elif k == 5:
            e = "F" + space() + "(" + ",".join(space() + r.choice(["$n", '"s"', "1", "m0"]) for _ in range(r.randrange(3))) + space() + ")"
        elif k == 6 and d < 2:
            e = placeable(d + 1)
        elif d < 2:
            ind = r.choice([" ", "    ", "  ", "        "])
            e = "$" + r.choice("ns") + space() + "->" + blank()
            keys = r.sample(["one", "other", "0", "3.5", "few", "x"], r.randrange(1, 4))
            star = r.randrange(len(keys))
            for i, key in enumerate(keys):
                e += r.choice(["\n", "\n", "\n", "\n\n", "\n  \n"]) + r.choice([ind, ind, "", " "]) + ("*" if i == star else "") + "[" + space() + key + space() + "]"
                e += r.choice([" ", "", "\n" + ind + "  "]) + pattern(d + 1).lstrip("\n")
            e += "\n" + r.choice([ind, ""])
        else:
            e = "$n"
        return "{" + b + e + c + "}"

    def pattern(d=0):
        p = ""
        for _ in range(r.randrange(1, 4)):
            p += r.choice([word(), word() + " ", " " + word(), placeable(d), placeable(d), word() + "\n" + " " * r.choice([1, 2, 4, 7]) + word(),
                           "\n" + " " * r.choice([1, 4]) + word(), "\n\n    " + word()])
        return p

    for _ in range(r.randrange(2, 9)):
        k = r.random()
        if k < .45:
            e = r.choice(ids) + blank() + "=" + blank()
            if r.random() < .85:
                e += pattern()
            else:
                e += "\n    .a = " + word()
            for _ in range(r.choice([0, 0, 1, 2])):
                e += "\n" + r.choice(["    ", " ", "\t", "\n  "][:r.choice([2, 2, 4])]) + "." + r.choice("abz") + blank() + "=" + blank() + pattern()
        elif k < .6:
            e = "-t" + str(r.randrange(3)) + blank() + "=" + blank() + pattern()
        elif k < .604:
            e = r.choice(ids) + " = " + nest(r)
        elif k < .78:
            lv = r.choice(["#", "#", "##", "###"])
            e = "\n".join(lv + r.choice([" " + word(), "", " ", " " + word() + "  ", "  indented"]) for _ in range(r.choice([1, 1, 2, 3])))
        elif k < .9:
            e = r.choice(["??", "junk", "bad {", "foo bar", "= x", "-", "#bad", "####", "// old", "[[ s ]]", "m9 = { $", "m9 = {\n}",
                          "    indented = x", "m8", "m7 = ", "m6 =\n", "}", "m5 = a } b", "m4 = { $n ->\n    [one] a\n}", "\tx = y",
                          "0x = y", "é = z", 'm3 = { "\\q" }', "m3 = { -t0.a }", "m2 = { F(a: 1, a: 2) }", "m2 = { f() }",
                          "m2 = { F(a: 1, $x) }", "m1 = { m0 ->\n   *[x] y\n}"]) + r.choice(["", " " + word()])
        else:
            e = r.choice(["", " ", "   ", "\n", "", "\n", r.choice(["\f", "\xa0", " \f", "\v", "\t", "\u2028", "\x1a", "\ufeff", "\x85"])])
        out.append(e + r.choice(["\n"] * 8 + ["\n\n", "\n\n\n", "\n  \n", " \n", "\n "]))
    text = "".join(out)
    k = r.random()
    if k < .12:
        text = text.replace("\n", "\r\n")
    elif k < .2:
        text = "".join(c if c != "\n" or r.random() < .5 else "\r\n" for c in text)
    elif k < .24:
        text = text.rstrip("\n")
    elif k < .26:
        text = "\ufeff" + text
    return text


def join(pieces, text):
    return "".join(p if isinstance(p, str) else text[p[0]:p[1]] for p in pieces)


def cut(pieces, a, b, text):
    """The part a..b (offsets in the joined text) of pieces"""
    out, at = [], 0
    for p in pieces:
        n = len(p) if isinstance(p, str) else p[1] - p[0]
        lo, hi = max(a, at), min(b, at + n)
        if lo < hi:
            out.append(p[lo - at:hi - at] if isinstance(p, str) else [p[0] + lo - at, p[0] + hi - at])
        at += n
    return out


KINDS = ["truncate", "lose", "zero", "insert", "flip", "duplicate", "move", "torn-write", "blocks", "digit",
         "insert", "flip", "duplicate", "move", "truncate", "lose", "repeat", "blocks", "torn-write", "nest"]


def point(rng, text):
    """A position: often near line ends and braces, where it matters"""
    n = len(text)
    if rng.random() < .5 and n:
        c = rng.choice("\n\n\n{}=#[*.\"-")
        spots = [i for i, x in enumerate(text) if x == c]
        if spots:
            return max(0, min(n, rng.choice(spots) + rng.choice([-2, -1, 0, 0, 1, 1, 2])))
    return rng.randrange(n + 1)


def gen_damage(rng, pieces, text, other=""):
    """Damage the text once more. -> (kind, pieces)"""
    now = join(pieces, text)
    n = len(now)
    kind = rng.choice(KINDS)
    a = point(rng, now)
    b = min(n, a + rng.choice([1, 1, 2, 3, 5, 8, 16, 40, 100])) if rng.random() < .6 else point(rng, now)
    a, b = min(a, b), max(a, b)

    def sub(x, y):
        return cut(pieces, x, y, text)

    if kind == "truncate":
        return kind, sub(0, a)
    if kind == "lose":
        return kind, sub(0, a) + sub(b, n)
    if kind == "zero":
        return kind, sub(0, a) + (["\0" * (b - a)] if b > a else []) + sub(b, n)
    if kind == "insert":
        return kind, sub(0, a) + [rng.choice(GARBAGE)] + sub(a, n)
    if kind == "nest":
        return "insert nested", sub(0, a) + [nest(rng)] + sub(a, n)
    if kind == "repeat":
        # a write that was repeated without its position having been reset
        b = min(b, a + 40)
        times = min(rng.choice([2, 3, 8, 60, 200]), 2500 // max(1, b - a))
        return kind, sub(0, a) + sub(a, b) * times + sub(b, n)
    if kind == "flip":
        if a >= n:
            return "insert", sub(0, n) + [rng.choice(GARBAGE)]
        c = chr(ord(now[a]) ^ (1 << rng.randrange(6)))
        return kind, sub(0, a) + [c] + sub(a + 1, n)
    if kind == "digit":
        spots = [i for i, c in enumerate(now) if c in "0123456789abcdefABCDEF"]
        if not spots:
            return "insert", sub(0, n) + ["0"]
        a = rng.choice(spots)
        if rng.random() < .06:
            return "many digits", sub(0, a) + [rng.choice("189") * rng.choice([20, 400, 4299, 4301, 5000])] + sub(a, n)
        return kind, sub(0, a) + [rng.choice("0123456789ABCDEF")] + sub(a + 1, n)
    if kind == "duplicate":
        return kind, sub(0, b) + sub(a, n)
    if kind == "move":
        at = point(rng, now)
        rest = sub(0, a) + sub(b, n)
        return kind, cut(rest, 0, at, text) + sub(a, b) + cut(rest, at, n, text)
    if kind == "torn-write":
        # a rewrite in place of the file by another version reached the disk up to some point
        at = min(point(rng, now), len(other))
        return kind, ([other[:at]] if at else []) + sub(at, n)
    # a rewrite of which only some blocks reached the disk; the size is the old or the new one
    size = rng.choice([4, 16, 32, 64])
    out = []
    end = rng.choice([n, len(other)])
    for at in range(0, end, size):
        hi = min(at + size, end)
        if rng.random() < .5:
            out += sub(at, min(hi, n))
            if hi > n:
                out.append("\0" * (hi - max(at, n)))
        else:
            out.append(other[at:hi])
            if hi > len(other):
                out.append("\0" * (hi - max(at, len(other))))
    return kind, [p for p in out if p != ""]


def merge(pieces):
    """Join stretches that continue each other."""
    out = []
    for p in pieces:
        if out and not isinstance(p, str) and not isinstance(out[-1], str) and out[-1][1] == p[0]:
            out[-1] = [out[-1][0], p[1]]
        elif p != "" and (isinstance(p, str) or p[0] < p[1]):
            out.append(p if isinstance(p, str) else list(p))
    return out


def find_stretch(pieces, a, b):
    """Offsets in the damaged text at which the stretch a..b survived as a whole"""
    at, out = 0, []
    for p in pieces:
        if isinstance(p, str):
            at += len(p)
            continue
        if p[0] <= a and b <= p[1]:
            out.append(at + a - p[0])
        at += p[1] - p[0]
    return out


def shape(node, spans=False):
    """A syntax tree as plain data."""
    j = node.to_json()

    def strip(x):
        if isinstance(x, dict):
            return {k: strip(v) for k, v in x.items() if k != "span"}
        if isinstance(x, list):
            return [strip(v) for v in x]
        return x

    return j if spans else strip(j)


def plan(rng, text, other, most=3):
    """Pieces and kinds of one random damage of 1..most steps"""
    pieces, kinds = [[0, len(text)]] if text else [], []
    for _ in range(rng.choice([1, 1, 1, 2, 3][:most + 2])):
        k, pieces = gen_damage(rng, pieces, text, other)
        pieces = merge(pieces)
        kinds.append(k)
    return kinds, pieces
