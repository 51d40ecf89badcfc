"""C14: tools print the exact result or fail, whatever the storage does."""
import errno
import io
import json
import os
import re
import sys

from .. import env, ftl, runner, simfs, storage

ID = "C14"
RUNS = {"quick": 4000, "thorough": 100000}
RULE = ("a session of 3-8 tool runs (tools/fluentfmt.py, tools/parse.py, tools/serialize.py, fluent.pygments.cli) "
        "on a simulated disk: files intact, damaged, not UTF-8 or cut inside a character, missing, failing to "
        "open or read at some read, read in short pieces; standard output with short writes, full, closed, or of "
        "another encoding; several host locales; then the lexer on every text that decodes; non-trivial: a run "
        "that failed and one that did not")
REAL = ["tools/*.py", "fluent.pygments (cli, lexer)", "fluent.syntax", "codecs/io", "json", "pygments"]
STUB = ["disk and standard output (dst.simfs, this file)", "host locale (encoding given to files opened without one)",
        "interpreter start and exit (run in process: exit status from SystemExit, exceptions and the final flush)"]
ASSUMPTIONS = ["pygments strips line ends at both ends of a text and normalises the others before the lexer sees it"]
TOOLS = ["fmt", "fmt", "parse", "parse", "json", "json", "cli", "cli"]
FILES = {"fmt": "tools/fluentfmt.py", "parse": "tools/parse.py", "json": "tools/serialize.py",
         "cli": "fluent.pygments/fluent/pygments/cli.py"}
PACKAGE = {"cli": "fluent.pygments"}
ERRS = ["EIO", "EACCES", "EMFILE", "ESTALE", "EINVAL", "MemoryError", "KeyboardInterrupt", "EISDIR", "EINTR", "EAGAIN"]
ENCODINGS = ["utf-8", "utf-8", "ascii", "latin-1", "cp1252", "utf-16", "euc-jp", "utf-7"]


def generate(rng, idx, tier):
    def text():
        k = rng.random()
        if k < .45:
            msgs = ["m%d" % i for i in range(rng.randrange(1, 5))]
            t = ftl.render(ftl.Gen(rng, msgs, ["t0"], "·", depth=1, junk=.2, multiline=.3).doc(msgs, ["t0"]))
            t = t.replace("\n", "\r\n") if rng.random() < .15 else t
        elif k < .55:
            t = rng.choice(["", "\n", "a = b", "é", "a = é", "#", "-", "{", "\ufeffa = b\n", "\n\na = b\n\n", " ", "a = b\r"])
        else:
            t = storage.wild(rng)
        if rng.random() < .5:
            kinds, pieces = storage.plan(rng, t, storage.wild(rng))
            t = storage.join(pieces, t)
        if rng.random() < .03:
            t = t * 40   # longer than one buffer
        return "".join(c for c in t if not "\ud800" <= c <= "\udfff")

    runs = []
    for _ in range(rng.randrange(3, 9)):
        r = {"tool": rng.choice(TOOLS), "text": text(), "pick": rng.randrange(1 << 20)}
        k = rng.random()
        if k < .3:
            r["bytes"] = rng.choice(["bad", "torn", "torn", "cut", "cut", "flip", "block"])
        elif k < .5:
            r["fault"] = {"op": rng.choice(["open", "read", "read"]), "err": rng.choice(ERRS)}
            if rng.random() < .5:
                r["fault"]["skip"] = rng.randrange(1, 4)
            if rng.random() < .4 or r["fault"]["err"] == "EINTR":   # the io module repeats EINTR for ever
                r["fault"]["times"] = 1
        elif k < .55:
            r["missing"] = rng.choice(["file", "dir"])
        k = rng.random()
        if k < .2:
            r["out"] = {"err": rng.choice(["ENOSPC", "EPIPE", "EIO", "EAGAIN"]), "after": rng.choice([0, 0, 1, 5, 50, 500, 5000])}
        elif k < .3:
            r["out_encoding"] = rng.choice(["ascii", "latin-1", "cp1252", "utf-16"])
        r["short"] = rng.choice([0, 0, 1, 2, 5, 100])
        r["short_out"] = rng.choice([0, 0, 1, 3, 100])
        r["locale"] = rng.choice(ENCODINGS)
        r["name"] = rng.choice(["a.ftl", "a b.ftl", "é.ftl", "sub/x.ftl", "a.json"])
        runs.append(r)
    return {"runs": runs}


class Out(io.RawIOBase):
    def __init__(self, spec, short):
        self.spec, self.short = spec, short
        self.data = bytearray()
        self.failed = False

    def writable(self):
        return True

    def write(self, b):
        n = len(b)
        if self.short:
            n = min(n, 1 + (len(self.data) * 31) % self.short)
        if self.spec:
            n = min(n, self.spec["after"] - len(self.data))
            if n <= 0:
                self.failed = True
                if self.spec["err"] == "EAGAIN":
                    return None
                no = getattr(errno, self.spec["err"])
                raise OSError(no, os.strerror(no))
        self.data += bytes(b[:n])
        return n


def run_tool(r, path, code):
    """-> (exit status, bytes printed, exception, whether the output failed)"""
    out = Out(r.get("out"), r["short_out"])
    text = io.TextIOWrapper(io.BufferedWriter(out, 8192 if r["short_out"] != 3 else 16), encoding=r.get("out_encoding", "utf-8"),
                            newline="\n")
    saved = sys.stdout, sys.stderr, sys.argv, list(sys.path)
    err = io.StringIO()
    status, exc = 0, None
    sys.stdout, sys.stderr, sys.argv = text, err, ["tool", path]
    try:
        try:
            if r["tool"] == "cli" and r["pick"] % 2:
                import fluent.pygments.cli
                fluent.pygments.cli.main()
            else:
                exec(code, {"__name__": "__main__", "__file__": FILES[r["tool"]], "__package__": PACKAGE.get(r["tool"]),
                            "__builtins__": __builtins__})
        except SystemExit as e:
            exc = e
            status = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        except BaseException as e:
            exc = e
            status = 1
        try:
            if not text.closed:
                text.flush()
        except Exception as e:
            exc = exc or e
            status = status or 120
    finally:
        sys.stdout, sys.stderr, sys.argv = saved[:3]
        sys.path[:] = saved[3]
    return status, bytes(out.data), exc, out.failed


ANSI = re.compile(r"\x1b\[[0-9;]*m")


def expected(tool, content):
    """What the tool has to print for the bytes, or the exception that makes it fail"""
    from fluent.syntax import FluentParser, FluentSerializer, ast
    try:
        text = content.decode("utf-8")
        if tool == "json":
            return FluentSerializer().serialize(ast.from_json(json.loads(text))) + "\n"
        if tool == "fmt":
            return FluentSerializer().serialize(FluentParser().parse(text)) + "\n"
        if tool == "parse":
            return FluentParser().parse(text).to_json()
        return text
    except Exception as e:
        return e


def same(tool, printed, exp):
    if tool == "parse":
        try:
            return printed.endswith("\n") and json.loads(printed) == exp
        except ValueError:
            return False
    if tool == "cli":
        text = exp.replace("\r\n", "\n").replace("\r", "\n")
        text = text[1:] if text.startswith("\ufeff") else text
        text = ANSI.sub("", text.strip("\n") + "\n")
        return ANSI.sub("", printed) == text and printed == highlighted(exp)
    return printed == exp


def highlighted(text):
    from fluent.pygments.lexer import FluentLexer
    from pygments import highlight
    from pygments.formatters import Terminal256Formatter
    return highlight(text.replace("\r\n", "\n").replace("\r", "\n"), FluentLexer(), Terminal256Formatter())


def check_lexer(text):
    from fluent.pygments.lexer import FluentLexer
    at, out = 0, []
    for pos, _, value in FluentLexer().get_tokens_unprocessed(text):
        if pos != at:
            return f"a token is said to start at {pos}, the ones before end at {at}"
        out.append(value)
        at += len(value)
    if "".join(out) != text:
        return f"the tokens make up {''.join(out)!r}"


def stored(r, text):
    if r["tool"] == "json":
        from fluent.syntax import FluentParser
        text = json.dumps(FluentParser().parse(text).to_json(), ensure_ascii=r["pick"] % 3 == 0)
    data = text.encode("utf-8")
    how, pick = r.get("bytes"), r["pick"]
    if how == "bad":
        at = pick % (len(data) + 1)
        data = data[:at] + [b"\xff", b"\xc0\xaf", b"\xed\xa0\x80", b"\xe2\x82 ", b"\x80"][pick % 5] + data[at:]
    elif how == "torn":
        cuts = [i for i in range(1, len(data)) if data[i] & 0xC0 == 0x80]
        if cuts:
            data = data[:cuts[pick % len(cuts)]]
    elif how == "cut":
        data = data[:pick % (len(data) + 1)]
    elif how == "flip" and data:
        at = pick % len(data)
        data = data[:at] + bytes([data[at] ^ 1 << pick % 8]) + data[at + 1:]
    elif how == "block":
        at = pick % (len(data) + 1)
        n = [4, 16, 64][pick % 3]
        data = data[:at] + b"\0" * len(data[at:at + n]) + data[at + n:]
    return data


def execute(sc):
    codes = {}
    for tool, rel in FILES.items():
        p = os.path.join(env.REPO, rel)
        with open(p, "rb") as f:
            codes[tool] = compile(f.read(), p, "exec")
    digest, faults = [], {}
    good = failed = lexed = 0

    def count(k):
        faults[k] = faults.get(k, 0) + 1

    for n, r in enumerate(sc["runs"]):
        path = "/simfs/d/" + r["name"]
        data = stored(r, r["text"])
        fs = simfs.SimFS({path: data, "/simfs/d/other": b"x"})
        fs.short = r["short"]
        fs.locale_encoding = r["locale"]
        if "fault" in r:
            fs.faults[path] = dict(r["fault"])
        arg = path
        if r.get("missing") == "file":
            del fs.files[path]
        elif r.get("missing") == "dir":
            arg = "/simfs/d"
        simfs.install(fs)
        status, printed, exc, out_failed = run_tool(r, arg, codes.get(r["tool"]))
        exp = expected(r["tool"], data)
        what = f"run {n}: {r['tool']} on {data!r} "
        for k, v in fs.counts.items():
            faults[k] = faults.get(k, 0) + v
        for k in ("bytes", "missing"):
            if k in r:
                count(f"{k}:{r[k]}")
        if out_failed:
            count("output:" + r["out"]["err"])
        digest.append((status, printed, type(exc).__name__))
        # the io module repeats what EINTR interrupts
        unread = "missing" in r or any(not isinstance(e, InterruptedError) for e in fs.injected)
        enc = r.get("out_encoding", "utf-8")
        try:
            shown = printed.decode(enc) if not out_failed else None
        except UnicodeDecodeError as e:
            shown = e
        if status == 0:
            good += 1
            if r.get("missing"):
                return runner.fail("status", what + f"reports success, but there was no file ({r['missing']})", digest)
            if isinstance(exp, Exception):
                return runner.fail("status", what + f"reports success, but the content gives {exp!r}; printed {printed!r}", digest)
            if out_failed:
                return runner.fail("status", what + "reports success, but its output failed", digest)
            if isinstance(shown, Exception) or not same(r["tool"], shown, exp):
                return runner.fail("output", what + f"(host encoding {r['locale']}, injected {fs.injected!r}) printed "
                                   f"{shown!r} instead of {exp!r}", digest)
        else:
            failed += 1
            if isinstance(exp, Exception) or unread and not out_failed:
                if printed:
                    return runner.fail("partial", what + f"cannot be read ({exc!r}), but {printed!r} was printed", digest)
            elif out_failed:
                if r["tool"] in ("fmt", "json") and not exp.encode(enc, "replace").startswith(printed):
                    return runner.fail("output", what + f"printed {printed!r} before its output failed, "
                                       f"which does not begin {exp!r}", digest)
            elif not fs.injected:
                try:
                    full = exp if isinstance(exp, str) else json.dumps(exp, ensure_ascii=False)
                    full.encode(enc)
                except UnicodeEncodeError:
                    count("output:encoding")
                    continue
                return runner.fail("status", what + f"(host encoding {r['locale']}) failed: {exc!r}", digest)
        if fs.opened:
            return runner.fail("left-open", what + "left it open", digest)
        try:
            text = data.decode("utf-8")
        except UnicodeDecodeError:
            continue
        bad = check_lexer(text)
        lexed += 1
        if bad:
            return runner.fail("lexer", f"highlighting {text!r}: {bad}", digest)
    return {"digest": runner.digest_of(digest), "nontrivial": bool(good and failed),
            "stats": {"tool runs": len(sc["runs"]), "succeeded": good, "failed": failed, "faults": faults,
                      "texts highlighted": lexed,
                      "host encodings": {r["locale"]: 1 for r in sc["runs"]}},
            "sample": {"runs": [dict(r, text=r["text"][:120]) for r in sc["runs"][:2]]}}


shrink = runner.shrinker("runs+")
