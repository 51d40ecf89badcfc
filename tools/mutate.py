"""Mechanical mutation of /repo's sources, to find what the checks cannot see.

    mutate.py gen DIR            write mutants that pass the existing tests to DIR/*.json
    mutate.py run DIR [SHARE]    run the checks with SHARE of their runs on each of them

Only a help for finding gaps: survivors have to be judged by hand (most are equivalent, or
change something no claimed property is about).
"""
import ast
import concurrent.futures
import copy
import glob
import json
import os
import shutil
import subprocess
import sys
import threading

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
RT = "fluent.runtime/fluent/runtime/"
SY = "fluent.syntax/fluent/syntax/"
TARGETS = {
    RT + "fallback.py": "C01 C02 C03 C04 C09",
    RT + "bundle.py": "C01 C05 C06 C07 C08 C09 C10 C11",
    RT + "resolver.py": "C01 C06 C07 C08 C10 C11 C05 C09",
    RT + "prepare.py": "C01 C06 C07 C08 C10 C05",
    RT + "types.py": "C01 C07 C08 C11 C10",
    RT + "utils.py": "C01 C07 C08 C11",
    RT + "builtins.py": "C01 C07 C08 C11",
    SY + "parser.py": "C12 C13 C19 C17 C14 C01",
    SY + "stream.py": "C12 C13 C19 C17 C14 C01",
    SY + "errors.py": "C12 C13 C14",
    SY + "serializer.py": "C19 C13 C14 C17",
    SY + "ast.py": "C17 C18 C19 C14",
    SY + "visitor.py": "C18 C17 C19",
    "fluent.pygments/fluent/pygments/cli.py": "C14",
    "fluent.pygments/fluent/pygments/lexer.py": "C14 C17",
    "fluent.docs/fluent/docs/build.py": "C15 C16",
    "fluent.docs/fluent/docs/tags.py": "C15 C16",
    "scripts/build-docs": "C15 C16",
    "tools/fluentfmt.py": "C14",
    "tools/parse.py": "C14",
    "tools/serialize.py": "C14",
}

CMP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn],
       ast.NotIn: [ast.In]}


def variants(node):
    """(description, replacement) for a node; a replacement of None removes a statement."""
    if isinstance(node, ast.Compare):
        for i, op in enumerate(node.ops):
            for new in CMP.get(type(op), []):
                n = copy.deepcopy(node)
                n.ops[i] = new()
                yield "compare", n
    elif isinstance(node, ast.BoolOp):
        n = copy.deepcopy(node)
        n.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        yield "and/or", n
        for i in range(len(node.values)):
            rest = [copy.deepcopy(v) for j, v in enumerate(node.values) if j != i]
            yield "drop operand", rest[0] if len(rest) == 1 else ast.BoolOp(node.op, rest)
    elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield "drop not", copy.deepcopy(node.operand)
    elif isinstance(node, (ast.If, ast.While)):
        n = copy.deepcopy(node)
        n.test = ast.UnaryOp(ast.Not(), n.test)
        yield "negate", n
        n = copy.deepcopy(node)
        n.test = ast.Constant(False)
        yield "never", n
        if isinstance(node, ast.If):
            n = copy.deepcopy(node)
            n.test = ast.Constant(True)
            yield "always", n
    elif isinstance(node, ast.IfExp):
        yield "body", copy.deepcopy(node.body)
        yield "orelse", copy.deepcopy(node.orelse)
    elif isinstance(node, ast.Constant):
        v = node.value
        if v is True or v is False:
            yield "flip", ast.Constant(not v)
        elif isinstance(v, int):
            yield "+1", ast.Constant(v + 1)
            yield "-1", ast.Constant(v - 1)
        elif isinstance(v, str) and v:
            yield "empty", ast.Constant("")
    elif isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub)):
        n = copy.deepcopy(node)
        n.op = ast.Sub() if isinstance(node.op, ast.Add) else ast.Add()
        yield "+/-", n
        yield "left", copy.deepcopy(node.left)
        yield "right", copy.deepcopy(node.right)
    elif isinstance(node, ast.Return) and node.value is not None:
        yield "return None", ast.Return(ast.Constant(None))
    elif isinstance(node, ast.Break):
        yield "continue", ast.Continue()
    elif isinstance(node, ast.Continue):
        yield "pass", ast.Pass()
    elif isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete)):
        if not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
            yield "drop statement", ast.Pass()
    elif isinstance(node, ast.ExceptHandler):
        n = copy.deepcopy(node)
        n.body = [ast.Raise()]
        yield "reraise", n
        if node.type is not None:
            n = copy.deepcopy(node)
            n.type = ast.Name("BaseException", ast.Load())
            yield "except all", n
    elif isinstance(node, ast.Try) and node.finalbody:
        n = copy.deepcopy(node)
        n.orelse = n.orelse + n.finalbody if n.handlers else []
        n.finalbody = []
        if n.handlers:
            yield "no finally", n
        else:
            yield "no finally", ast.If(ast.Constant(True), copy.deepcopy(node.body + node.finalbody), [])
    elif isinstance(node, ast.With):
        yield "no with", ast.If(ast.Constant(True), copy.deepcopy(node.body), [])
    elif isinstance(node, ast.Call):
        if node.args and not isinstance(node.func, ast.Name):
            yield "receiver", copy.deepcopy(node.args[0])
        for i, kw in enumerate(node.keywords):
            n = copy.deepcopy(node)
            del n.keywords[i]
            yield "drop keyword", n
        if len(node.args) == 2 and not any(isinstance(a, ast.Starred) for a in node.args):
            n = copy.deepcopy(node)
            n.args.reverse()
            yield "swap args", n
        if isinstance(node.func, ast.Attribute) and not node.args and not node.keywords:
            yield "drop method", copy.deepcopy(node.func.value)
    elif isinstance(node, ast.Slice):
        for f in ("lower", "upper"):
            if getattr(node, f) is not None:
                n = copy.deepcopy(node)
                setattr(n, f, None)
                yield "drop " + f, n
    elif isinstance(node, ast.Dict) and None in node.keys and len(node.keys) > 1:
        n = copy.deepcopy(node)
        n.keys.reverse()
        n.values.reverse()
        yield "reverse", n
    elif isinstance(node, ast.For):
        n = copy.deepcopy(node)
        n.iter = ast.Call(ast.Name("list", ast.Load()), [n.iter], [])
        n.iter = ast.Subscript(n.iter, ast.Slice(None, ast.UnaryOp(ast.USub(), ast.Constant(1)), None), ast.Load())
        yield "skip last", n


def in_annotation(tree):
    out = set()
    for n in ast.walk(tree):
        for f in ("annotation", "returns"):
            a = getattr(n, f, None)
            if a is not None:
                out.update(id(x) for x in ast.walk(a))
    return out


def mutants(path):
    src = open(os.path.join(REPO, path)).read()
    tree = ast.parse(src)
    skip = in_annotation(tree)
    seen = set()
    for parent in ast.walk(tree):
        for field, val in ast.iter_fields(parent):
            if field in ("decorator_list", "bases", "annotation", "returns"):
                continue
            items = list(enumerate(val)) if isinstance(val, list) else [(None, val)]
            for i, node in items:
                if not isinstance(node, ast.AST) or id(node) in skip:
                    continue
                for what, new in variants(node):
                    if i is None:
                        setattr(parent, field, new)
                    else:
                        val[i] = new
                    try:
                        text = ast.unparse(ast.fix_missing_locations(copy.deepcopy(tree)))
                        compile(text, path, "exec")
                    except Exception:
                        text = None
                    if i is None:
                        setattr(parent, field, node)
                    else:
                        val[i] = node
                    if text and text not in seen:
                        seen.add(text)
                        line = getattr(node, "lineno", 0)
                        yield {"file": path, "line": line, "what": what,
                               "old": ast.unparse(node)[:200] if hasattr(node, "lineno") else "",
                               "new": ast.unparse(ast.fix_missing_locations(new))[:200], "text": text}


def sh(cmd, cwd, timeout, env):
    p = subprocess.Popen(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         env=env, start_new_session=True)
    try:
        out = p.communicate(timeout=timeout)[0].decode("utf-8", "replace")
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, "timeout"


def passes(d):
    pp = ":".join(f"{d}/{p}" for p in ("fluent.syntax", "fluent.runtime", "fluent.pygments", "fluent.docs"))
    env = dict(os.environ, PYTHONPATH=pp, TZ="UTC", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", LANG="C.UTF-8")
    for p in ("fluent.syntax", "fluent.runtime", "fluent.pygments"):
        rc, _ = sh("ulimit -v 4000000; /opt/venv/bin/python -m pytest tests -q -x -p no:cacheprovider", f"{d}/{p}", 40, env)
        if rc:
            return False
    return True


_tl = threading.local()
_n = iter(range(10000))


def gen(out, only=""):
    os.makedirs(out, exist_ok=True)
    os.makedirs("/tmp/w/mut", exist_ok=True)
    todo = [m for t in TARGETS if only in t for m in mutants(t)]
    print(len(todo), "mutants", flush=True)

    def one(k):
        m = todo[k]
        name = f"{out}/{k:05d}.json"
        if not hasattr(_tl, "d"):
            _tl.d = f"/tmp/w/mut/{next(_n)}"
            shutil.rmtree(_tl.d, ignore_errors=True)
            subprocess.run(["cp", "-a", REPO, _tl.d], check=True)
        f = os.path.join(_tl.d, m["file"])
        keep = open(f).read()
        open(f, "w").write(m["text"])
        try:
            ok = passes(_tl.d) if not m["file"].startswith(("scripts", "tools", "fluent.docs")) else True
        finally:
            open(f, "w").write(keep)
        if ok:
            json.dump(m, open(name, "w"))
        return ok

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        n = sum(ex.map(one, range(len(todo))))
    shutil.rmtree("/tmp/w/mut", ignore_errors=True)
    print(n, "pass the tests", flush=True)


def run(out, share, only=None):
    from dst import runner
    d = f"/tmp/w/mutrun.{os.getpid()}"
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", REPO, d], check=True)
    try:
        for name in sorted(glob.glob(out + "/*.json")):
            m = json.load(open(name))
            if "result" in m or only and only not in m["file"]:
                continue
            f = os.path.join(d, m["file"])
            keep = open(f).read()
            open(f, "w").write(m["text"])
            res = "survived"
            try:
                for p in TARGETS[m["file"]].split():
                    runs = max(100, int(runner.load_prop(p).RUNS["quick"] * share))
                    env = dict(os.environ, VERIF_REPO=d, VERIF_RUNS=str(runs), VERIF_OUT=d + ".out",
                               VERIF_MINIMISE="0.1", VERIF_BUDGET="60")
                    rc, o = sh(f"/opt/venv/bin/python -m dst check {p}", VERIF, 240, env)
                    if rc:
                        res = f"{p} rc={rc} " + " ".join(l[:200] for l in o.splitlines() if l.startswith(("index", "HARNESS")))[:300]
                        break
            finally:
                open(f, "w").write(keep)
            m["result"] = res
            json.dump(m, open(name, "w"))
            print(os.path.basename(name), f"{m['file'].split('/')[-1]}:{m['line']}", m["what"], repr(m["old"][:60]), "->",
                  repr(m["new"][:60]), "|", res, flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(d + ".out", ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen(*sys.argv[2:4])
    else:
        run(sys.argv[2], float(sys.argv[3]) if len(sys.argv) > 3 else .2, sys.argv[4] if len(sys.argv) > 4 else None)
