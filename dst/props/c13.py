"""C13: nothing in a damaged resource disappears silently."""
from .. import ftl, runner, storage

ID = "C13"
RUNS = {"quick": 8000, "thorough": 200000}
RULE = ("a stored resource is damaged again and again (torn, truncated, zeroed, lost, flipped, duplicated, "
        "moved, inserted stretches, half-finished rewrites), with saves by a tool that keeps junk in between "
        "(a save may itself be torn); after every step the stored text is parsed and written back; "
        "non-trivial: some step left junk between intact entries")
REAL = ["fluent.syntax (stream, parser, serializer, ast)"]
STUB = ["disk (dst.storage)"]
ASSUMPTIONS = ["blank characters are space, line feed and carriage return (the parser drops all three at the end of a value)",
               "writing back may drop the optional comma after the last argument of a call"]


def generate(rng, idx, tier):
    msgs = ["m%d" % i for i in range(rng.randrange(2, 6))]
    terms = ["t%d" % i for i in range(rng.randrange(3))]

    def new():
        if rng.random() < .35:
            t = ftl.render(ftl.Gen(rng, msgs, terms, "·", depth=1, junk=.2, multiline=.3).doc(msgs, terms))
            return t.replace("\n", "\r\n") if rng.random() < .2 else t
        return storage.wild(rng)

    text = new()
    steps = []
    for _ in range(rng.randrange(6, 16)):
        k = rng.random()
        if k < .15:
            steps.append({"save": 1, "torn": rng.choice([None, None, rng.random()])})
        elif k < .25:
            steps.append({"new": new()})
        else:
            steps.append({"seed": rng.randrange(1 << 40), "n": rng.choice([1, 1, 2])})
    return {"text": text, "steps": steps}


def blankless(text):
    return text.replace("\r", "").replace("\n", "").replace(" ", "")


def commaless(text):
    return text.replace(",)", ")")


def execute(sc):
    import random

    from fluent.syntax import FluentParser, FluentSerializer, ast
    parser = FluentParser()
    keep = FluentSerializer(with_junk=True)
    text = sc["text"]
    digest = []
    kinds, junks, mixed = {}, 0, 0

    for n, step in enumerate([{}] + sc["steps"]):
        if "new" in step:
            text = step["new"]
        elif "save" in step:
            new = keep.serialize(parser.parse(text))
            if step["torn"] is not None:
                at = int(step["torn"] * len(new))
                new = new[:at] + text[at:]
            text = new
        elif step:
            r = random.Random(step["seed"])
            for _ in range(step["n"]):
                k, pieces = storage.gen_damage(r, [[0, len(text)]], text, storage.wild(r) if r.random() < .2 else text[::-1])
                kinds[k] = kinds.get(k, 0) + 1
                text = storage.join(pieces, text)[:4000]
        if any("\ud800" <= c <= "\udfff" for c in text):
            text = "".join(c for c in text if not "\ud800" <= c <= "\udfff")

        def bad(cls, detail):
            return runner.fail(cls, f"step {n}: {detail}; stored text {text!r}")

        try:
            res = parser.parse(text)
        except Exception as e:
            return bad("raised", f"parsing raised {e!r}")
        at = 0
        for i, e in enumerate(res.body):
            name = type(e).__name__
            a, b = e.span.start, e.span.end
            if not (at <= a < b <= len(text)):
                return bad("positions", f"entry {i} ({name}) lies at {a}..{b}, the entry before ends at {at}")
            if blankless(text[at:a]):
                return bad("lost", f"{text[at:a]!r} before entry {i} ({name}) belongs to no entry")
            at = b
            if isinstance(e, ast.Junk):
                junks += 1
                if e.content != text[a:b]:
                    return bad("junk", f"junk at {a}..{b} holds {e.content!r}, but {text[a:b]!r} is there")
                if not e.annotations:
                    return bad("junk", f"junk at {a} has no annotation")
                for an in e.annotations:
                    if not (a <= an.span.start <= an.span.end <= b):
                        return bad("junk", f"annotation at {an.span.start}..{an.span.end} of the junk at {a}..{b}")
                    if not (an.code or "").startswith("E00") or not an.message:
                        return bad("junk", f"annotation {an.code!r} {an.message!r} names no error")
                    if an.code == "E0003" and len(an.arguments) == 1 and an.span.start < b \
                            and text[an.span.start] == an.arguments[0]:
                        return bad("junk", f"annotation at {an.span.start} says {an.message!r}, but it is there")
            elif isinstance(e, (ast.Message, ast.Term)):
                s = e.id.span
                if text[s.start:s.end] != e.id.name:
                    return bad("positions", f"{e.id.name!r} is not at {s.start}..{s.end}")
                for x in e.attributes:
                    s = x.id.span
                    if text[s.start:s.end] != x.id.name:
                        return bad("positions", f"attribute {x.id.name!r} is not at {s.start}..{s.end}")
            if not isinstance(e, ast.Junk):
                w = keep.serialize(ast.Resource([e]))
                if commaless(blankless(w)) != commaless(blankless(text[a:b])):
                    return bad("lost", f"entry {i} ({name}) at {a}..{b} is written back as {w!r}, but {text[a:b]!r} is there")
        if blankless(text[at:]):
            return bad("lost", f"{text[at:]!r} at the end belongs to no entry")
        try:
            out = keep.serialize(res)
        except Exception as e:
            return bad("raised", f"writing back raised {e!r}")
        if commaless(blankless(out)) != commaless(blankless(text)):
            return bad("written", f"written back as {out!r}")
        pos = 0
        for e in res.body:
            if isinstance(e, ast.Junk):
                pos = out.find(e.content, pos)
                if pos < 0:
                    return bad("written", f"junk {e.content!r} is not written back verbatim: {out!r}")
                pos += len(e.content)
        if len({type(e).__name__ == "Junk" for e in res.body}) == 2:
            mixed += 1
        digest.append((text, [(type(e).__name__, e.span.start, e.span.end) for e in res.body], out))
    return {"digest": runner.digest_of(digest), "nontrivial": mixed > 0,
            "stats": {"stored texts": len(digest), "damage": kinds, "junk entries": junks,
                      "texts with junk and other entries": mixed,
                      "saves": sum("save" in s for s in sc["steps"])},
            "sample": {"text": sc["text"][:300], "steps": sc["steps"][:3]}}


shrink = runner.shrinker("steps")
