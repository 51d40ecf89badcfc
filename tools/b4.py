import sys; sys.path.insert(0,"/tmp/w")
from plant import plant
SX="fluent.syntax/fluent/syntax/"
ST=SX+"stream.py"; PA=SX+"parser.py"; SE=SX+"serializer.py"; VI=SX+"visitor.py"; AS=SX+"ast.py"
FB="fluent.runtime/fluent/runtime/fallback.py"; BU="fluent.runtime/fluent/runtime/bundle.py"
RE="fluent.runtime/fluent/runtime/resolver.py"; PR="fluent.runtime/fluent/runtime/prepare.py"
TY="fluent.runtime/fluent/runtime/types.py"; UT="fluent.runtime/fluent/runtime/utils.py"
LX="fluent.pygments/fluent/pygments/lexer.py"; CL="fluent.pygments/fluent/pygments/cli.py"
BD="fluent.docs/fluent/docs/build.py"; TG="fluent.docs/fluent/docs/tags.py"
ONLY=sys.argv[1:]
def P(id,*a,**k):
    if ONLY and id not in ONLY: return
    plant(id,*a,**k)
FILES='''
import os, shutil, tempfile
from fluent.runtime import FluentLocalization, FluentResourceLoader, FluentBundle, FluentResource
top = tempfile.mkdtemp()
def put(name, data):
    name = os.path.join(top, name)
    os.makedirs(os.path.dirname(name), exist_ok=True)
    with open(name, "wb") as f:
        f.write(data.encode() if isinstance(data, str) else data)
'''

BUND="""
from fluent.runtime import FluentBundle, FluentResource
def value(b, name, args=None):
    return b.format_pattern(b.get_message(name).value, args)
"""
P("c03-access-check","C03","a file that exists but may not be read, or becomes readable later",
 "a file that cannot be read is taken for one that does not exist",
 [(FB,"                if not os.path.isfile(path):\n                    continue\n","                if not os.path.isfile(path):\n                    continue\n                if os.path.exists(path) and not os.access(path, os.R_OK):\n                    continue\n")],
FILES+"""
pid = None
try:
    put("de/a.ftl", 'm = deutsch\\n')
    put("en/a.ftl", 'm = english\\n')
    os.chmod(top, 0o755)
    os.chmod(top + "/de/a.ftl", 0)
    pid = os.fork()
    if pid == 0:
        os.setgid(65534); os.setuid(65534)
        l = FluentLocalization(["de", "en"], ["a.ftl"], FluentResourceLoader(top + "/{locale}"))
        try:
            got = l.format_value("m")
        except OSError:
            os._exit(0)
        os._exit(0 if got == "deutsch" else 1)
    assert os.waitpid(pid, 0)[1] == 0
finally:
    if pid != 0:
        shutil.rmtree(top)
""")
P("c05-errors-shared","C05","two calls at the same time, or one inside a function of another, at least one of which reports errors",
 "the list of errors is kept on the bundle and cleared by every call",
 [(BU,"        errors: List[Exception] = []\n","        # Used again, to save allocations\n        errors = self._errors\n        errors.clear()\n"),
  (BU,"        return (result, errors)","        return (result, list(errors))"),
  (BU,"        self.use_isolating = use_isolating\n","        self.use_isolating = use_isolating\n        self._errors: List[Exception] = []\n")],
BUND+"""
def inner():
    value(b, "fine")
    return "x"
b = FluentBundle(["en"], functions={"F": inner})
b.add_resource(FluentResource("fine = fine\\nm = { $missing } { F() }\\n"))
assert len(value(b, "m")[1]) == 1, value(b, "m")
""")
P("c06-one-table","C06","a resource with a message and a term of the same name, added with overrides allowed",
 "of a message and a term of the same name in one resource only the later one is added",
 [(BU,"        for item in resource.body:\n            if not","        body = resource.body\n        if allow_overrides:\n            # Only the last definition of each name counts.\n            last = {item.id.name: item for item in body if isinstance(item, (FTL.Message, FTL.Term))}\n            body = list(last.values())\n        for item in body:\n            if not")],
BUND+"""
b = FluentBundle(["en"])
b.add_resource(FluentResource("m = { -m }\\n-m = term\\n"), allow_overrides=True)
assert b.has_message("m")
""")
P("c08-retry-typeerror","C08","a custom function that raises a TypeError of its own",
 "functions raising a TypeError are called again without named arguments",
 [(RE,"            return function(*args, **kwargs)\n        except Exception as e:","            try:\n                return function(*args, **kwargs)\n            except TypeError:\n                # It may not know the options.\n                return function(*args)\n        except Exception as e:")],
BUND+"""
first = TypeError("first")
raised = [first, TypeError("second")]
def f(*args, **kwargs):
    raise raised.pop(0)
b = FluentBundle(["en"], functions={"F": f})
b.add_resource(FluentResource('m = { F("x", a: 1) }\\n'))
assert value(b, "m")[1][0] is first
""")
P("c09-overrides-reversed","C09","an add with overrides allowed that is interrupted in the middle",
 "what an interrupted add has added is the end of the resource, not its beginning",
 [(BU,"        for item in resource.body:\n            if not isinstance(item, (FTL.Message, FTL.Term)):\n                continue\n","        body = resource.body\n        done = set()\n        if allow_overrides:\n            # The last definition counts, so begin with it.\n            body = body[::-1]\n        for item in body:\n            if not isinstance(item, (FTL.Message, FTL.Term)):\n                continue\n            if allow_overrides:\n                if (type(item), item.id.name) in done:\n                    continue\n                done.add((type(item), item.id.name))\n")],
BUND+"""
class Interrupt(BaseException):
    pass
class Body(list):
    def stop(self, items):
        for i, item in enumerate(items):
            if i == 1:
                raise Interrupt
            yield item
    def __iter__(self):
        return self.stop(list.__iter__(self))
    def __getitem__(self, i):
        got = list.__getitem__(self, i)
        return Body(got) if isinstance(i, slice) else got
b = FluentBundle(["en"])
r = FluentResource("m1 = 1\\nm2 = 2\\nm3 = 3\\n")
r.body = Body(r.body)
try:
    b.add_resource(r, allow_overrides=True)
except Interrupt:
    pass
assert not b.has_message("m3"), "the end was added first"
""")
P("c11-time-cache","C11","the same instant given with two different zones, the display zone being left to the values",
 "formatted times are remembered by the date-time, and equal date-times may be in different zones",
 [(TY,"            else:\n                return format_time(selftz, format=ts, locale=locale)\n","            else:\n                key = (selftz, ts, str(locale))\n                if key not in _times:\n                    if len(_times) > 500:\n                        _times.clear()\n                    _times[key] = format_time(selftz, format=ts, locale=locale)\n                return _times[key]\n"),
  (TY,"class FluentDateType(","_times: Dict[Any, str] = {}\n\n\nclass FluentDateType(")],
BUND+"""
from datetime import datetime, timezone, timedelta
from fluent.runtime.types import fluent_date
b = FluentBundle(["en"], use_isolating=False)
b.add_resource(FluentResource('m = { DATETIME($d, timeStyle: "medium") }\\n'))
out = [value(b, "m", {"d": datetime(2020, 7, 1, 12 + h, tzinfo=timezone(timedelta(hours=h)))})[0] for h in (0, 2)]
out = [x.replace("\\u202f", " ") for x in out]
assert out == ["12:00:00 PM", "2:00:00 PM"], out
""")
P("c15-skip-failed","C15","a release whose documentation fails to build",
 "a release that cannot be built is skipped, and the build reports success",
 [(BD,"                staticfile.unlink()\n        return False\n","                staticfile.unlink()\n        # Old releases may not build with a new sphinx.\n        return self.version != \"dev\" and exc_type is subprocess.CalledProcessError\n")],
None,
demo_sh="""#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD/fluent.docs PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python - <<'E'
import os, shutil, subprocess, tempfile
top = tempfile.mkdtemp()
try:
    os.chdir(top)
    from fluent.docs.build import ProjectBuilder
    os.makedirs("p/docs")
    def fail(cmd, **kw):
        raise subprocess.CalledProcessError(2, cmd)
    subprocess.check_call = fail
    try:
        with ProjectBuilder("r", "p", "p", ["dev", "stable", "1.0"], "1.0") as b:
            b.build()
    except subprocess.CalledProcessError:
        pass
    else:
        raise SystemExit("the failure is not reported")
finally:
    os.chdir("/")
    shutil.rmtree(top)
E
""")
P("c18-clear-refill","C18","a callback that raises for a child of a list",
 "lists are emptied before their children are transformed, so that a failing callback loses them",
 [(VI,"                new_vals: List[Any] = []\n                for child in propvalue:\n                    new_val = self.visit(child)\n                    if new_val is not None:\n                        new_vals.append(new_val)\n                # in-place manipulation\n                propvalue[:] = new_vals\n",
"                # in-place manipulation\n                children: List[Any] = propvalue[:]\n                propvalue.clear()\n                for child in children:\n                    new_val = self.visit(child)\n                    if new_val is not None:\n                        propvalue.append(new_val)\n")],
"""
from fluent.syntax import parse
from fluent.syntax.visitor import Transformer
class T(Transformer):
    def visit_TextElement(self, node):
        if node.value == "b":
            raise KeyError
        return node
r = parse("m = a\\nn = b\\no = c\\n")
try:
    T().visit(r)
except KeyError:
    pass
assert [e.id.name for e in r.body] == ["m", "n", "o"]
""")
P("c18-bottom-none","C18","a callback that removes every child of a list",
 "a list all of whose children are removed keeps them",
 [(VI,"                # in-place manipulation\n                propvalue[:] = new_vals\n","                # in-place manipulation\n                if new_vals:\n                    propvalue[:] = new_vals\n")],
"""
from fluent.syntax import parse
from fluent.syntax.visitor import Transformer
class T(Transformer):
    def visit_Attribute(self, node):
        return None
r = parse("m = a\\n  .b = c\\n")
T().visit(r)
assert r.body[0].attributes == []
""")
P("c02-answer-again","C02","a message of a preferred locale that formats with an error, while less preferred locales cannot be read",
 "a lookup whose answer shows an error text looks for a better one in less preferred locales",
 [(FB,"            val, _errors = bundle.format_pattern(msg.value, args)\n","            val, _errors = bundle.format_pattern(msg.value, args)\n            if val == \"{???}\":\n                continue\n")],
FILES+"""
try:
    put("de/a.ftl", 'm = { $s }{ $s }\\n')
    put("en/a.ftl", 'm = english\\n')
    l = FluentLocalization(["de", "en"], ["a.ftl"], FluentResourceLoader(top + "/{locale}"))
    assert l.format_value("m", {"s": "x" * 3000}) == "{???}"
finally:
    shutil.rmtree(top)
""")
