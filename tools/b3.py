import sys; sys.path.insert(0,"/tmp/w")
from plant import plant
SX="fluent.syntax/fluent/syntax/"
ST=SX+"stream.py"; PA=SX+"parser.py"; SE=SX+"serializer.py"; VI=SX+"visitor.py"; AS=SX+"ast.py"
FB="fluent.runtime/fluent/runtime/fallback.py"; BU="fluent.runtime/fluent/runtime/bundle.py"
RE="fluent.runtime/fluent/runtime/resolver.py"; PR="fluent.runtime/fluent/runtime/prepare.py"
TY="fluent.runtime/fluent/runtime/types.py"; UT="fluent.runtime/fluent/runtime/utils.py"
LX="fluent.pygments/fluent/pygments/lexer.py"; CL="fluent.pygments/fluent/pygments/cli.py"
BD="fluent.docs/fluent/docs/build.py"; TG="fluent.docs/fluent/docs/tags.py"
ONLY=sys.argv[1:]
def P(id,*a,**k):
    if ONLY and id not in ONLY: return
    plant(id,*a,**k)
FILES='''
import os, shutil, tempfile
from fluent.runtime import FluentLocalization, FluentResourceLoader, FluentBundle, FluentResource
top = tempfile.mkdtemp()
def put(name, data):
    name = os.path.join(top, name)
    os.makedirs(os.path.dirname(name), exist_ok=True)
    with open(name, "wb") as f:
        f.write(data.encode() if isinstance(data, str) else data)
'''
P("c01-empty-answer","C01","a message whose value formats to the empty text, and a less preferred locale that has another value",
 "an empty text is taken for a missing message",
 [(FB,'''            val, _errors = bundle.format_pattern(msg.value, args)
''','''            val, _errors = bundle.format_pattern(msg.value, args)
            if not val:
                continue
''')],
FILES+'''
try:
    put("de/a.ftl", 'm = { "" }\\n')
    put("en/a.ftl", 'm = english\\n')
    l = FluentLocalization(["de", "en"], ["a.ftl"], FluentResourceLoader(top + "/{locale}"))
    assert l.format_value("m") == "", l.format_value("m")
finally:
    shutil.rmtree(top)
''')
P("c01-first-conventions","C01","a message only a less preferred locale has, with a number, a plural or a date in it",
 "the answer of a less preferred locale is written with the conventions of the most preferred one",
 [(FB,"            val, _errors = bundle.format_pattern(msg.value, args)","            val, _errors = self._bundle_cache[0].format_pattern(msg.value, args)")],
FILES+'''
try:
    put("de/a.ftl", 'x = { $n }\\n')
    put("en/a.ftl", 'm = { $n }\\n')
    l = FluentLocalization(["de", "en"], ["a.ftl"], FluentResourceLoader(top + "/{locale}"))
    assert l.format_value("m", {"n": 1.5}) == "1.5", l.format_value("m", {"n": 1.5})
finally:
    shutil.rmtree(top)
''')
P("c02-existing-roots","C02","a loader with several roots, whose first one has the resource",
 "all roots are looked at for the resources before the first is used",
 [(FB,"        for root in self.roots:\n            resources","        roots = self.roots\n        if len(roots) > 1:\n            paths = [[self.localize_path(os.path.join(root, rid), locale) for rid in resource_ids] for root in roots]\n            roots = [root for root, ps in zip(roots, paths) if any(map(os.path.exists, ps))]\n        for root in roots:\n            resources")],
FILES+'''
try:
    put("r1/de/a.ftl", 'm = deutsch\\n')
    put("r2/de/a.ftl", 'm = zwei\\n')
    seen = []
    stat = os.stat
    def recording(path, *a, **k):
        seen.append(os.fspath(path))
        return stat(path, *a, **k)
    os.stat = recording
    l = FluentLocalization(["de", "en"], ["a.ftl"], FluentResourceLoader([top + "/r1/{locale}", top + "/r2/{locale}"]))
    assert l.format_value("m") == "deutsch"
    assert not [p for p in seen if "r2" in str(p)], seen
finally:
    os.stat = stat
    shutil.rmtree(top)
''')
P("c03-replace-undecodable","C03","a file that is not UTF-8",
 "a file that cannot be decoded is read all the same, as if it were Latin-1",
 [(FB,'''                with codecs.open(path, "r", "utf-8") as fh:
                    content = fh.read()
''','''                try:
                    with codecs.open(path, "r", "utf-8") as fh:
                        content = fh.read()
                except UnicodeDecodeError:
                    with codecs.open(path, "r", "latin-1") as fh:
                        content = fh.read()
''')],
FILES+'''
try:
    put("de/a.ftl", b'm = gr\\xfc\\xdfe\\n')
    put("en/a.ftl", 'm = english\\n')
    l = FluentLocalization(["de", "en"], ["a.ftl"], FluentResourceLoader(top + "/{locale}"))
    try:
        val = l.format_value("m")
    except UnicodeDecodeError:
        pass
    else:
        raise SystemExit(repr(val))
finally:
    shutil.rmtree(top)
''')
P("c04-loader-locale","C04","two localizations that share a loader and fall back at the same time",
 "the loader keeps the locale it is loading on itself",
 [(FB,'''        for root in self.roots:
            resources: List[Any] = []''','''        self.locale = locale
        for root in self.roots:
            resources: List[Any] = []'''),
  (FB,'''self.localize_path(os.path.join(root, resource_id), locale)''','''self.localize_path(os.path.join(root, resource_id), self.locale)''')],
FILES+'''
try:
    for loc in ("de", "en", "fr"):
        put("r1/%s/a.ftl" % loc, 'm = %s one\\n' % loc)
        put("r2/%s/a.ftl" % loc, 'm2 = %s two\\n' % loc)
    loader = FluentResourceLoader([top + "/r1/{locale}", top + "/r2/{locale}"])
    a = FluentLocalization(["de", "en"], ["a.ftl"], loader)
    b = FluentLocalization(["fr", "en"], ["a.ftl"], loader)
    assert a.format_value("m") == "de one"
    assert b.format_value("m") == "fr one"
    assert a.format_value("m2") == "de two", a.format_value("m2")
finally:
    shutil.rmtree(top)
''')
P("c05-forget-first","C05","a resource that overrides a message while another thread is formatting it",
 "an overridden definition is removed before the new one is there",
 [(BU,'''            if allow_overrides:
                map_[full_id] = item''','''            if allow_overrides:
                # Keep definitions in the order they were added.
                map_.pop(full_id, None)
                map_[full_id] = item''')],
'''
import sys
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"])
b.add_resource(FluentResource("m = one\\n"))
new = FluentResource("m = two\\n")
def trace(frame, event, arg):
    if frame.f_code.co_name == "add_resource":
        assert b.has_message("m"), "no m"
    return trace
sys.settrace(trace)
b.add_resource(new, allow_overrides=True)
sys.settrace(None)
''')
P("c06-attributes-override","C06","an override that has attributes only",
 "a definition without a value does not override",
 [(BU,'''            if allow_overrides:
                map_[full_id] = item''','''            if allow_overrides and item.value:
                map_[full_id] = item''')],
'''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"])
b.add_resource(FluentResource("m = one\\n   .a = x\\n"))
b.add_resource(FluentResource("m =\\n   .a = y\\n"), allow_overrides=True)
m = b.get_message("m")
assert m.value is None and b.format_pattern(m.attributes["a"])[0] == "y"
''')
P("c07-argument-cache","C07","arguments of several calls that are equal, but not of the same type, options or zone",
 "converted arguments are cached by equality",
 [(UT,'''    """
    if isinstance(val, int):''','''    """
    if not isinstance(val, (int, float, Decimal)):
        return _convert(val)
    try:
        return _converted[val]
    except LookupError:
        if len(_converted) > 1000:
            _converted.clear()
        return _converted.setdefault(val, _convert(val))


_converted: Any = {}


def _convert(val: Any) -> Any:
    if isinstance(val, int):''')],
'''
from fluent.runtime import FluentBundle, FluentResource
from fluent.runtime.types import fluent_number
b = FluentBundle(["en"])
b.add_resource(FluentResource("m = { $n }\\n"))
p = b.get_message("m").value
assert b.format_pattern(p, {"n": fluent_number(5, style="percent")})[0] == "500%"
assert b.format_pattern(p, {"n": 5})[0] == "5", b.format_pattern(p, {"n": 5})
''')
P("c08-same-error-once","C08","two function calls that fail alike in one formatting call",
 "only the first of several alike exceptions is reported",
 [(RE,'''        try:
            return function(*args, **kwargs)
        except Exception as e:
            env.errors.append(e)
''','''        try:
            return function(*args, **kwargs)
        except Exception as e:
            if repr(e) not in map(repr, env.errors):
                env.errors.append(e)
''')],
'''
from fluent.runtime import FluentBundle, FluentResource
raised = []
def f(n):
    raised.append(OSError("gone"))
    raise raised[-1]
b = FluentBundle(["en"], functions={"F": f})
b.add_resource(FluentResource("m = { F(1) } and { F(2) }\\n"))
errors = b.format_pattern(b.get_message("m").value)[1]
assert all(any(e is r for e in errors) for r in raised), errors
''')
P("c09-terms-first","C09","an add that is interrupted, of a resource with a term behind a message",
 "a resource's terms are added before its messages",
 [(BU,'''        for item in resource.body:
            if not isinstance(item, (FTL.Message, FTL.Term)):
                continue
''','''        for item in sorted(resource.body, key=lambda item: not isinstance(item, FTL.Term)):
            if not isinstance(item, (FTL.Message, FTL.Term)):
                continue
''')],
'''
import sys
from fluent.runtime import FluentBundle, FluentResource
res = FluentResource("m1 = x\\n-t1 = y\\nm2 = z\\n-t2 = z\\n")
order = ["m1", "-t1", "m2", "-t2"]
for stop in range(1, 60):
    b = FluentBundle(["en"])
    left = [stop]
    def trace(frame, event, arg):
        if frame.f_code.co_name == "add_resource" and event == "line":
            left[0] -= 1
            if not left[0]:
                raise KeyboardInterrupt
        return trace
    sys.settrace(trace)
    try:
        b.add_resource(res)
    except KeyboardInterrupt:
        pass
    finally:
        sys.settrace(None)
    b.add_resource(FluentResource("".join("has%d = { %s }\\n" % (i, o) for i, o in enumerate(order))))
    have = [not b.format_pattern(b.get_message("has%d" % i).value)[1] for i in range(4)]
    assert have == sorted(have, reverse=True), (stop, have)
''')
P("c10-selector-free","C10","expansions that grow exponentially through selectors",
 "what selectors evaluate does not count",
 [(RE,'''        key = self.selector(env)
''','''        # Selectors are not part of the text.
        part_count = env.part_count
        key = self.selector(env)
        env.part_count = part_count
''')],
'''
import signal
from fluent.runtime import FluentBundle, FluentResource
s = "-t0 = x\\n   .a = y\\n"
for i in range(1, 26):
    sel = "{ -t%d.a ->\\n      [y] y\\n     *[o] o\\n   }" % (i - 1)
    s += "-t%d = x\\n   .a = { -t%d.b ->\\n      [yy] y\\n     *[o] o\\n   }\\n   .b = %s%s\\n" % (i, i, sel, sel)
b = FluentBundle(["en"])
b.add_resource(FluentResource(s + "m = { -t25.a ->\\n   [y] y\\n  *[o] o\\n  }\\n"))
p = b.get_message("m").value
signal.alarm(10)
b.format_pattern(p)
''')
P("c11-locale-set","C11","a bundle for several locales",
 "the locale whose conventions are used depends on the hash seed",
 [(BU,'''        for lc in self.locales:
            try:''','''        for lc in {lc.replace("_", "-") for lc in self.locales}:
            try:''')],
'''
from fluent.runtime import FluentBundle, FluentResource
for locs in (["de", "en"], ["en", "de"], ["fr", "de"], ["de", "fr"], ["en", "ar", "cs"], ["cs", "en", "ar"]):
    b = FluentBundle(locs)
    assert b._babel_locale.language == locs[0], locs
''')
P("c12-nul-ends","C12","a damage that leaves NUL characters",
 "what is behind a NUL character is not read",
 [(FB,"                    content = fh.read()\n","                    content = fh.read().partition(\"\\0\")[0]\n")],
FILES+'''
try:
    put("de/a.ftl", 'a = eins\\nb = x\\0\\0y\\nc = drei\\n')
    put("en/a.ftl", 'a = one\\nb = two\\nc = three\\n')
    l = FluentLocalization(["de", "en"], ["a.ftl"], FluentResourceLoader(top + "/{locale}"))
    assert l.format_value("a") == "eins"
    assert l.format_value("c") == "drei", l.format_value("c")
finally:
    shutil.rmtree(top)
''')
P("c13-page-breaks","C13","form feeds on lines of their own, or at the start of a line",
 "form feeds are skipped like blank lines",
 [(ST,"            # Any other char; reset to column 1 on this line.\n","            if self.current_peek == \"\\f\":\n                # Page breaks are blank, too.\n                self.peek()\n                continue\n\n            # Any other char; reset to column 1 on this line.\n")],
"""
from fluent.syntax import parse, serialize, FluentSerializer
text = "a = x\\n\\f\\nb = y\\n"
r = parse(text)
covered = set()
for e in r.body:
    covered.update(range(e.span.start, e.span.end))
for i, c in enumerate(text):
    assert c in " \\n" or i in covered, i
""")
P("c13-junk-stripped","C13","junk that starts with blanks",
 "junk is written without the blanks it starts with",
 [(SE,'''    return junk.content or ""''','''    return (junk.content or "").lstrip()''')],
'''
from fluent.syntax import parse, FluentSerializer
text = "   ??? junk\\n"
out = FluentSerializer(with_junk=True).serialize(parse(text))
assert "   ??? junk" in out, repr(out)
''')
P("c14-chunks","C14","a multi-byte character where two reads of the file meet",
 "the file is decoded chunk by chunk",
 [(CL,'''    with open(args.path, encoding="utf-8") as fh:
        code = fh.read()
''','''    code = ""
    with open(args.path, "rb", buffering=0) as fh:
        for chunk in iter(lambda: fh.read(8192), b""):
            code += chunk.decode("utf-8")
    code = code.replace("\\r\\n", "\\n").replace("\\r", "\\n")
''')],
'''
import io, os, shutil, sys, tempfile
from fluent.pygments import cli
top = tempfile.mkdtemp()
try:
    path = top + "/a.ftl"
    text = "a = x" + "\\u20ac" * 8000 + "\\n"
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)
    sys.argv = ["cli", path]
    out, sys.stdout = sys.stdout, io.StringIO()
    try:
        cli.main()
        res = sys.stdout.getvalue()
    finally:
        sys.stdout = out
    assert res.count("\\u20ac") == 8000
finally:
    shutil.rmtree(top)
''')
P("c15-pythonpath-kept","C15","PYTHONPATH set where the documentation is built",
 "the code documented is found by the PYTHONPATH of the environment",
 [(BD,'''        env["PYTHONPATH"] = self.src_dir''','''        env.setdefault("PYTHONPATH", self.src_dir)''')],
'''
import os
from fluent.docs.build import ProjectBuilder
os.environ["PYTHONPATH"] = "/somewhere/else"
env = ProjectBuilder("r", "/tmp/checkout/fluent.syntax", "fluent.syntax", [], "1.0").environ()
assert env["PYTHONPATH"].split(":")[0] == "/tmp/checkout/fluent.syntax", env["PYTHONPATH"]
''')
P("c15-highest-version","C15","a release of an older line made after one of a newer line",
 "stable is the highest version, not the most recent release",
 [(TG,'''"--sort=-committerdate"''','''"--sort=-version:refname"''')],
'''
import os, shutil, subprocess, tempfile
from datetime import date
from fluent.docs.tags import get_tag_infos
top = tempfile.mkdtemp()
env = dict(os.environ, GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@b", GIT_COMMITTER_NAME="a", GIT_COMMITTER_EMAIL="a@b",
           GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_SYSTEM="/dev/null", HOME=top)
def git(*args, **e):
    subprocess.run(["git", *args], cwd=top, check=True, env=dict(env, **e), stdout=subprocess.DEVNULL)
try:
    git("init", "-q")
    for v, d in (("2.0", "2021-01-01"), ("1.5", "2021-06-01")):
        git("commit", "-q", "--allow-empty", "-m", v, GIT_COMMITTER_DATE=d + "T00:00:00", GIT_AUTHOR_DATE=d + "T00:00:00")
        git("tag", "fluent.syntax@" + v)
    os.chdir(top)
    got = [t.version for t in get_tag_infos(date(2020, 1, 1))]
    assert got == ["1.5", "2.0"], got
finally:
    os.chdir("/")
    shutil.rmtree(top)
''')
P("c16-fixed-worktree","C16","a build that was killed while its checkout existed, and then run again",
 "all builds use the same directory for the checkout",
 [(BD,'''                worktree = tempfile.mkdtemp()
''','''                worktree = os.path.join(tempfile.gettempdir(), f"docs-{repo_name}")
                os.mkdir(worktree)
''')],
'''
import os, shutil, subprocess, tempfile
from pathlib import Path
from datetime import date
from fluent.docs import build as B
from fluent.docs.tags import TagInfo
top = tempfile.mkdtemp()
tempfile.tempdir = top
os.chdir(top)
class Killed(BaseException):
    pass
kill = [True]
def run(cmd, **kw):
    if cmd[:3] == ["git", "worktree", "add"]:
        os.makedirs(os.path.join(cmd[-1], "fluent.syntax", "docs"))
        if kill[0]:
            raise Killed
class Sub:
    CalledProcessError = subprocess.CalledProcessError
    run = staticmethod(run)
    @staticmethod
    def check_call(cmd, **kw):
        os.makedirs(cmd[-1], exist_ok=True)
B.subprocess = Sub
B.get_tag_infos = lambda d: [TagInfo("fluent.syntax@1.0 2021-01-01")]
try:
    os.makedirs("fluent.syntax/docs")
    rmtree = shutil.rmtree
    def killed(*a, **k):
        raise Killed
    shutil.rmtree = killed
    try:
        B.build("r", ["fluent.syntax"], date(2020, 1, 1))
    except Killed:
        pass
    shutil.rmtree = rmtree
    kill[0] = False
    B.build("r", ["fluent.syntax"], date(2020, 1, 1))
finally:
    os.chdir("/")
    rmtree(top)
''')
P("c17-clone-lists","C17","a clone of a call without positional arguments, or of an annotation",
 "a clone shares the lists without nodes with its original",
 [(AS,'''            if isinstance(value, list):
                return [visit(child) for child in value]
            if isinstance(value, tuple):''','''            if isinstance(value, list) and any(isinstance(child, BaseNode) for child in value):
                return [visit(child) for child in value]
            if isinstance(value, tuple):''')],
'''
from fluent.syntax import parse, ast
p = parse('m = { F(a: 1) }\\n').body[0].value
q = p.clone()
q.elements[0].expression.arguments.positional.append(ast.NumberLiteral("1"))
assert not p.elements[0].expression.arguments.positional
''')
P("c17-handler-cache","C17","several visitors of one class",
 "a visitor's handlers are looked up once for its class",
 [(VI,'''        nodename = type(node).__name__
        visit = getattr(self, f"visit_{nodename}", self.generic_visit)
        visit(node)
''','''        nodename = type(node).__name__
        handlers = type(self).__dict__.get("_handlers")
        if handlers is None:
            handlers = {}
            setattr(type(self), "_handlers", handlers)
        if nodename not in handlers:
            handlers[nodename] = getattr(self, f"visit_{nodename}", self.generic_visit)
        handlers[nodename](node)
''')],
'''
from fluent.syntax import parse, visitor
class V(visitor.Visitor):
    def __init__(self):
        self.seen = []
    def visit_Message(self, node):
        self.seen.append(node.id.name)
r = parse("a = x\\nb = y\\n")
for i in range(2):
    v = V()
    v.visit(r)
    assert v.seen == ["a", "b"], (i, v.seen)
''')
P("c18-stop-iteration","C18","a callback that raises StopIteration",
 "a StopIteration raised by a callback ends the list it happens in",
 [(VI,'''                for child in propvalue:
                    new_val = self.visit(child)
                    if new_val is not None:
                        new_vals.append(new_val)
''','''                new_vals.extend(
                    new_val for new_val in map(self.visit, propvalue) if new_val is not None
                )
''')],
'''
from fluent.syntax import parse, visitor
class T(visitor.Transformer):
    def visit_Term(self, node):
        return next(iter(()))
r = parse("a = x\\n-t = y\\nb = z\\n")
try:
    T().visit(r)
except (StopIteration, RuntimeError):
    pass
assert len(r.body) == 3, len(r.body)
''')
P("c19-leading-zeros","C19","a number literal with more digits than needed",
 "number literals lose leading zeros when written",
 [(SE,'''    if isinstance(expression, ast.NumberLiteral):
        return expression.value
    if isinstance(expression, ast.VariableReference):''','''    if isinstance(expression, ast.NumberLiteral):
        return re.sub(r"^(-?)0+(?=[0-9])", r"\\1", expression.value)
    if isinstance(expression, ast.VariableReference):''')],
'''
from fluent.syntax import parse, serialize
r = parse("m = { 007 }\\n")
assert parse(serialize(r)).equals(r)
''')
P("c19-attribute-arguments","C19","a reference to a term's attribute with arguments",
 "the arguments of such references are not written",
 [(SE,'''        out = f"-{expression.id.name}"
        if expression.attribute is not None:
            out += f".{expression.attribute.name}"
        if expression.arguments is not None:''','''        out = f"-{expression.id.name}"
        if expression.attribute is not None:
            out += f".{expression.attribute.name}"
        elif expression.arguments is not None:''')],
'''
from fluent.syntax import parse, serialize
r = parse('m = { -t.a(case: "x") ->\\n   *[o] x\\n }\\n')
assert r.body[0].__class__.__name__ == "Message"
assert parse(serialize(r)).equals(r)
''')
