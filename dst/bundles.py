"""Simulation B: fluent.runtime.FluentBundle, its functions and arguments."""
from . import fns, ftl, model

LOCS = ["en-US", "de", "fr", "pl", "ar", "cs", "ja", "en-GB"]
VARS = ("n", "s", "f", "x")


def gen_resources(rng, n, msgs, terms, share=.6, **kw):
    out = []
    kw.setdefault("variables", VARS)
    for i in range(n):
        g = ftl.Gen(rng, msgs, terms, f"·{i}", **kw)
        ms = [m for m in msgs if rng.random() < share]
        ts = [t for t in terms if rng.random() < share]
        doc = g.doc(ms, ts)
        if ms and rng.random() < .15:
            doc.append(g.message(rng.choice(ms)))
        out.append(doc)
    return out


def defs(doc):
    """[(kind, id, entry)] in order"""
    return [(e["k"], e["id"], e) for e in doc if e["k"] in "mt"]


def parse(doc):
    from fluent.runtime import FluentResource
    return FluentResource(ftl.render(doc))


def errs(errors):
    return [fns.error_key(e) for e in errors]


def use(bundle, mid, attr, args):
    """has_message, get_message and format_pattern, as an application does. -> outcome"""
    if not bundle.has_message(mid):
        return ("absent",)
    msg = bundle.get_message(mid)
    pat = msg.value if attr is None else msg.attributes.get(attr)
    if pat is None:
        return ("nopattern",)
    text, errors = bundle.format_pattern(pat, args)
    return ("ok", text, errors)


class Table:
    """Stands in for the model's message or term table: several candidates per entry."""

    def __init__(self, kind, candidates, chooser):
        self.kind, self.candidates, self.chooser = kind, candidates, chooser

    def get(self, id):
        c = self.candidates(self.kind, id)
        return c[self.chooser(len(c))]


def outcomes(b, mid, attr, args, candidates, limit=300, reset=None):
    """All outcomes of use() if every lookup may give any of candidates(kind, id)."""
    prefix, res = [], []
    while True:
        pos, taken = [0], []

        def choose(n):
            k = pos[0]
            pos[0] += 1
            c = prefix[k] if k < len(prefix) else 0
            taken.append((c, n))
            return c

        b.messages = Table("m", candidates, choose)
        b.terms = Table("t", candidates, choose)
        if reset:
            reset()
        has = b.messages.get(mid)
        e = b.messages.get(mid) if has is not None else None
        if has is None:
            res.append(("absent",))
        elif e is None:
            res.append(("keyerror",))
        else:
            pat = e["v"] if attr is None else e["a"].get(attr)
            if pat is None:
                res.append(("nopattern",))
            else:
                res.append(("ok",) + tuple(b.format_pattern(pat, args, ("m", mid, attr))))
        # next choice sequence
        while taken and taken[-1][0] + 1 >= taken[-1][1]:
            taken.pop()
        if not taken:
            return res
        prefix = [c for c, _ in taken]
        prefix[-1] += 1
        if len(res) >= limit:
            return None


def same(got, exp):
    if got[0] != exp[0]:
        return False
    if got[0] != "ok":
        return True
    return got[1] == exp[1] and model.same_errors(errs(got[2]), exp[2])
