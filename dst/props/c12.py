"""C12: a damaged entry of a stored resource costs only itself."""
import re

from .. import fns, ftl, l10n, model, runner, simfs, storage

ID = "C12"
RUNS = {"quick": 3000, "thorough": 60000}
RULE = ("a stored resource (rendered translations or loosely written text) is damaged 24 times: torn, "
        "truncated, zeroed, lost, flipped, duplicated, moved or inserted stretches, single digits, "
        "half-finished rewrites by another version; each damaged text is parsed, and for rendered translations also used by an "
        "application restarted on a simulated disk with an intact second locale; non-trivial: some entry "
        "was lost and another survived after the damage")
REAL = ["fluent.syntax (stream, parser, ast)", "fluent.runtime", "codecs/io", "babel"]
STUB = ["disk (dst.simfs, dst.storage)", "application functions"]
ASSUMPTIONS = ["the undamaged text's own parse tree is the reference for what has to survive",
               "comment lines directly above a damaged entry count as part of it",
               "texts that are not UTF-8 any more belong to C03 and C14"]
DAMAGES = 24


def generate(rng, idx, tier):
    msgs = ["m%d" % i for i in range(rng.randrange(2, 7))]
    terms = ["t%d" % i for i in range(rng.randrange(3))]
    if rng.random() < .6:
        def doc(tag, junk):
            return ftl.Gen(rng, msgs, terms, tag, depth=1, missing=0, junk=junk, multiline=.3).doc(msgs, terms)
        sc = {"doc": doc("·0", .15), "second": doc("·1", 0), "args": ftl.gen_args(rng)}
        text = ftl.render(sc["doc"])
        if rng.random() < .15:
            sc["crlf"] = True
            text = text.replace("\n", "\r\n")
        other = ftl.render(doc("·2", .1))
        sc["short"] = rng.choice([0, 0, 3])
    else:
        sc = {"text": storage.wild(rng)}
        text = sc["text"]
        other = storage.wild(rng)
    sc["fns"] = l10n.gen_fns(rng)
    sc["locales"] = rng.sample(l10n.LOCALES, 2)
    sc["damages"] = []
    for _ in range(DAMAGES):
        kinds, pieces = storage.plan(rng, text, other)
        sc["damages"].append({"kinds": kinds, "pieces": pieces})
    sc["eols"] = rng.randrange(1 << 30)
    return sc


def text_of(sc):
    if "text" in sc:
        return sc["text"]
    t = ftl.render(sc["doc"])
    return t.replace("\n", "\r\n") if sc.get("crlf") else t


def line_start(text, at):
    while at > 0 and text[at - 1] != "\n":
        at -= 1
    return at


def entry_start(e):
    return e.span.start


def refs(pattern, out):
    for el in pattern or []:
        if isinstance(el, list):
            if el[0] in ("msg", "term"):
                out.add(("-" if el[0] == "term" else "") + el[1])
            for x in el[1:]:
                if el[0] == "sel":
                    refs([el[1]], out)
                    for v in el[2]:
                        refs(v[1], out)
                    break
                if isinstance(x, list):
                    refs([x] if x and isinstance(x[0], str) and el[0] == "pl" else x, out)
    return out


def entry_refs(e):
    out = refs(e["v"], set())
    for p in e["a"].values():
        refs(p, out)
    return out


def value_shape(e):
    return (type(e).__name__, e.id.name, None if e.value is None else storage.shape(e.value),
            [storage.shape(a) for a in e.attributes])


def execute(sc):
    from fluent.syntax import FluentParser
    from fluent.syntax import ast
    text = text_of(sc)
    parser = FluentParser()
    whole = parser.parse(text)
    body = whole.body
    bounds = [entry_start(e) for e in body] + [len(text)]
    # Junk can begin with blanks: what follows them tells whether the entry before has ended
    firsts = [len(text) - len(text[b:].lstrip(" \r\n")) for b in bounds]
    kinds = {}
    lost = kept = lookups = fallbacks = 0
    digest = []

    def bad(cls, n, detail, damaged):
        return runner.fail(cls, f"damage {n}: {detail}; undamaged text {text!r}; damaged text {damaged!r}")

    # rewriting the line ends changes no message
    plain = text.replace("\r\n", "\n")
    h = sc["eols"]
    variants = [plain.replace("\n", "\r\n"),
                "".join("\r\n" if c == "\n" and (h >> (i % 29)) & 1 else c for i, c in enumerate(plain))]
    entries = [value_shape(e) + (e.comment and storage.shape(e.comment),)
               for e in body if not isinstance(e, (ast.Junk, ast.BaseComment))]
    for v in [plain] + variants:
        got = [value_shape(e) + (e.comment and storage.shape(e.comment),)
               for e in parser.parse(v).body if not isinstance(e, (ast.Junk, ast.BaseComment))]
        if got != entries:
            return bad("line-ends", -1, f"messages {got!r} instead of {entries!r}", v)

    for n, d in enumerate(sc["damages"]):
        pieces = [p if isinstance(p, str) else [min(p[0], len(text)), min(p[1], len(text))] for p in d["pieces"]]
        pieces = storage.merge(pieces)
        damaged = storage.join(pieces, text)
        if "\ud800" <= max(damaged, default="") <= "\udfff":
            continue
        for k in d["kinds"]:
            kinds[k] = kinds.get(k, 0) + 1
        try:
            res = parser.parse(damaged)
        except Exception as e:
            return bad("raised", n, f"parsing raised {e!r}", damaged)
        now = res.body
        # everything before the damaged entry
        same = 0
        while same < min(len(text), len(damaged)) and text[same] == damaged[same]:
            same += 1
        if same < max(len(text), len(damaged)):
            hit = 0
            while hit + 1 < len(body) and firsts[hit + 1] < same:
                hit += 1
            while hit and (isinstance(body[hit - 1], ast.Junk) or isinstance(body[hit - 1], ast.BaseComment)
                           and text[body[hit - 1].span.end:bounds[hit]].replace("\r", "").count("\n") < 2):
                hit -= 1
            if bounds[hit] > same:
                hit = 0
            for i in range(hit):
                if i >= len(now) or storage.shape(now[i], True) != storage.shape(body[i], True):
                    got = storage.shape(now[i], True) if i < len(now) else None
                    return bad("before", n, f"entry {i} ended before the damage at {same} and was "
                               f"{storage.shape(body[i], True)}, is {got}", damaged)
        # messages and terms that survived on lines of their own
        at_id = {e.id.span.start: e for e in now if not isinstance(e, (ast.Junk, ast.BaseComment))}
        intact = set()
        for i, e in enumerate(body):
            if isinstance(e, (ast.Junk, ast.BaseComment)):
                continue
            a, b = line_start(text, e.id.span.start), bounds[i + 1]
            ends = e.span.end
            for at in storage.find_stretch(pieces, a, b):
                end = at + b - a
                if at and damaged[at - 1] != "\n":
                    continue
                if end < len(damaged) and (damaged[end - 1] != "\n" or not re.match(r"[a-zA-Z#]|-[a-zA-Z]", damaged[end:])):
                    continue
                got = at_id.get(at + e.id.span.start - a)
                if got is None or value_shape(got) != value_shape(e):
                    return bad("survivor", n, f"{e.id.name!r} stands undamaged at {at}, but is "
                               f"{got and value_shape(got)} instead of {value_shape(e)} (ended at {ends})", damaged)
                intact.add(("-" if isinstance(e, ast.Term) else "") + e.id.name)
        kept += len(intact)
        digest.append((damaged, [type(e).__name__ for e in now]))
        all_ids = {("-" if isinstance(e, ast.Term) else "") + e.id.name
                   for e in body if isinstance(e, (ast.Message, ast.Term))}
        lost += len(all_ids - intact)
        if "doc" in sc:
            r = application(sc, damaged, intact, now, n, text)
            if not isinstance(r, tuple):
                return r
            lookups += r[0]
            fallbacks += r[1]
    return {"digest": runner.digest_of(digest, lookups, fallbacks), "nontrivial": bool(lost and kept),
            "stats": {"damaged texts": len(sc["damages"]), "damage": kinds, "entries lost": lost,
                      "entries surviving": kept, "lookups": lookups, "answers from the next locale": fallbacks},
            "sample": {"text": text[:300], "damages": sc["damages"][:2]}}


def application(sc, damaged, intact, now, n, text):
    """The application is restarted on a disk that holds the damaged file."""
    from fluent.runtime import FluentLocalization, FluentResourceLoader
    from fluent.syntax import ast
    fs = simfs.SimFS({f"/simfs/{sc['locales'][0]}/a.ftl": damaged.encode("utf-8"),
                      f"/simfs/{sc['locales'][1]}/a.ftl": ftl.render(sc["second"]).encode("utf-8")})
    fs.short = sc["short"]
    simfs.install(fs)
    app = FluentLocalization(list(sc["locales"]), ["a.ftl"], FluentResourceLoader("/simfs/{locale}"),
                             use_isolating=False, functions=fns.Fns(sc["fns"]).real())
    first = model.Bundle(sc["locales"], False, fns.Fns(sc["fns"]).model())
    first.add(sc["doc"])
    second = model.Bundle(sc["locales"][1:], False, fns.Fns(sc["fns"]).model())
    second.add(sc["second"])
    defined = {}
    for e in now:
        if isinstance(e, (ast.Message, ast.Term)):
            defined.setdefault(("-" if isinstance(e, ast.Term) else "") + e.id.name, []).append(e)
    by_id = {("-" if e["k"] == "t" else "") + e["id"]: e for e in sc["doc"] if e["k"] in "mt"}

    def usable(id, seen):
        """Is everything the message needs intact and defined once?"""
        if id in seen:
            return True
        seen.add(id)
        if id not in by_id or id not in intact or len(defined.get(id, ())) != 1:
            return False
        return all(usable(x, seen) for x in entry_refs(by_id[id]))

    lookups = fallbacks = 0
    for id in sorted(x for x in by_id if by_id[x]["k"] == "m") + ["nosuch"]:
        if usable(id, set()) and by_id[id]["v"] is not None:
            exp = first.format(id, None, sc["args"])[0]
        elif not any(e.value is not None for e in defined.get(id, ())):
            if id in second.messages and second.messages[id]["v"] is not None:
                exp = second.format(id, None, sc["args"])[0]
            else:
                exp = id
            fallbacks += 1
        else:
            exp = None   # partly damaged: no expectation but that it does not raise
        lookups += 1
        try:
            got = app.format_value(id, ftl.build_args(sc["args"]))
        except Exception as e:
            got = e
        if isinstance(got, Exception) or exp is not None and got != exp:
            return runner.fail("application", f"damage {n}: lookup of {id!r} gave {got!r}, expected {exp!r}; "
                               f"undamaged {text!r}; damaged {damaged!r}")
        if fs.opened:
            return runner.fail("left-open", f"damage {n}: lookup of {id!r} left files open")
    return lookups, fallbacks


shrink = runner.shrinker("damages+", "damages.*.pieces", "doc+", "second")
