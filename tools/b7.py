import re, sys; sys.path.insert(0,"/verif/tools")
from plant import plant
SX="fluent.syntax/fluent/syntax/"
ST=SX+"stream.py"; PA=SX+"parser.py"; SE=SX+"serializer.py"; VI=SX+"visitor.py"; AS=SX+"ast.py"
FB="fluent.runtime/fluent/runtime/fallback.py"; BU="fluent.runtime/fluent/runtime/bundle.py"
RE="fluent.runtime/fluent/runtime/resolver.py"; PR="fluent.runtime/fluent/runtime/prepare.py"
TY="fluent.runtime/fluent/runtime/types.py"; UT="fluent.runtime/fluent/runtime/utils.py"
LX="fluent.pygments/fluent/pygments/lexer.py"; CL="fluent.pygments/fluent/pygments/cli.py"
BD="fluent.docs/fluent/docs/build.py"; TG="fluent.docs/fluent/docs/tags.py"
ONLY=sys.argv[1:]
def P(id,*a,**k):
    if ONLY and id not in ONLY: return
    plant(id,*a,**k)
DOCS=re.search("DOCS='''(.*?)'''",open("/verif/tools/b2.py").read(),re.S).group(1).replace("\\n","\n") if 0 else eval(re.search("DOCS=('''.*?''')",open("/verif/tools/b2.py").read(),re.S).group(1))
END="\nfinally:\n    shutil.rmtree(top)\n"
FILES='''
import os, shutil, tempfile
from fluent.runtime import FluentLocalization, FluentResourceLoader, FluentBundle, FluentResource
top = tempfile.mkdtemp()
def put(name, data):
    name = os.path.join(top, name)
    os.makedirs(os.path.dirname(name), exist_ok=True)
    with open(name, "wb") as f:
        f.write(data.encode() if isinstance(data, str) else data)
'''
BUND="""
from fluent.runtime import FluentBundle, FluentResource
def value(b, name, args=None):
    return b.format_pattern(b.get_message(name).value, args)
"""

P("c15-same-version","C15","two projects tagged with the same version one after the other",
 "the checkout is skipped if the tag before had the same version, so the second project is built from the first one's tag",
 [(BD,"            subprocess.run(\n                [\"git\", \"checkout\", f\"{tag.project}@{tag.version}\"],\n                cwd=worktree,\n                check=True,\n            )\n",
 "            # Projects are often released together, from the same commit.\n            if tag.version != checked_out:\n                subprocess.run(\n                    [\"git\", \"checkout\", f\"{tag.project}@{tag.version}\"],\n                    cwd=worktree,\n                    check=True,\n                )\n                checked_out = tag.version\n"),
  (BD,"    worktree = None\n    try:","    worktree = None\n    checked_out = None\n    try:")],
 DOCS+'''
    for p, v, d in (("fluent.syntax", "0.9", "2021-01-01T00:00:00Z"), ("fluent.runtime", "0.9", "2022-01-01T00:00:00Z")):
        version("fluent.syntax", v + " of " + p); version("fluent.runtime", v + " of " + p)
        git("add", "."); git("commit", "-qm", v, date=d); git("tag", p + "@" + v)
    p = build(["fluent.syntax", "fluent.runtime"], "date(2020, 1, 1)")
    assert p.returncode == 0, p.stderr
    assert "0.9 of fluent.syntax" in page("fluent.syntax/0.9/index.html"), page("fluent.syntax/0.9/index.html")
    assert "0.9 of fluent.runtime" in page("fluent.runtime/0.9/index.html"), page("fluent.runtime/0.9/index.html")
'''+END)
P("c15-unchecked-checkout","C15","git failing to check a tag out",
 "a failing checkout is not noticed, and the version is built from what is checked out",
 [(BD,"                [\"git\", \"checkout\", f\"{tag.project}@{tag.version}\"],\n                cwd=worktree,\n                check=True,\n","                [\"git\", \"checkout\", f\"{tag.project}@{tag.version}\"],\n                cwd=worktree,\n                stdout=subprocess.DEVNULL,\n")],
 DOCS+'''
    for v, d in (("0.9", "2021-01-01T00:00:00Z"), ("0.10", "2022-01-01T00:00:00Z")):
        version("fluent.syntax", v); git("add", "."); git("commit", "-qm", v, date=d); git("tag", "fluent.syntax@" + v)
    git("checkout", "-q", "-b", "other")
    real_git = shutil.which("git")
    with open(top + "/bin/git", "w") as f:
        f.write("#!/bin/sh\\nif [ \\"$1 $2\\" = 'checkout fluent.syntax@0.9' ]; then exit 1; fi\\nexec " + real_git + " \\"$@\\"\\n")
    os.chmod(top + "/bin/git", 0o755)
    p = build(["fluent.syntax"], "date(2020, 1, 1)")
    assert p.returncode != 0
'''+END)
P("c15-redirect-any","C15","one project with a release after the cut-off date and one without",
 "a project without releases redirects to a stable version it does not have, if another project has one",
 [(BD,"        target = \"stable\" if last_vers[project] != \"dev\" else \"dev\"\n","        target = \"stable\" if tagged_versions else \"dev\"\n")],
 DOCS+'''
    version("fluent.syntax", "0.9"); version("fluent.runtime", "0.1")
    git("add", "."); git("commit", "-qm", "x", date="2021-01-01T00:00:00Z"); git("tag", "fluent.syntax@0.9")
    p = build(["fluent.syntax", "fluent.runtime"], "date(2020, 1, 1)")
    assert p.returncode == 0, p.stderr
    assert "URL=stable/" in page("fluent.syntax/index.html")
    assert "URL=dev/" in page("fluent.runtime/index.html")
'''+END)
P("c15-keep-versions","C15","a build after a further release was tagged",
 "the list of versions is not written again where there is one",
 [(BD,"        target_path = target_path / \"versions.html\"\n","        target_path = target_path / \"versions.html\"\n        if target_path.exists() and f'\"version\">{self.version}<' in target_path.read_text():\n            return\n")],
 DOCS+'''
    version("fluent.syntax", "0.9"); git("add", "."); git("commit", "-qm", "x", date="2021-01-01T00:00:00Z"); git("tag", "fluent.syntax@0.9")
    p = build(["fluent.syntax"], "date(2020, 1, 1)")
    assert p.returncode == 0, p.stderr
    version("fluent.syntax", "0.10"); git("add", "."); git("commit", "-qm", "y", date="2022-01-01T00:00:00Z"); git("tag", "fluent.syntax@0.10")
    p = build(["fluent.syntax"], "date(2020, 1, 1)")
    assert p.returncode == 0, p.stderr
    assert ">0.10<" in page("fluent.syntax/dev/rest.html"), page("fluent.syntax/dev/rest.html")
'''+END)
P("c16-fixed-worktree","C16","a build killed while it builds a release",
 "the checkout has a fixed place, where a killed build leaves one that the next build stumbles over",
 [(BD,"                worktree = tempfile.mkdtemp()\n","                worktree = os.path.join(tempfile.gettempdir(), \"fluent-docs\")\n")],
 DOCS+'''
    version("fluent.syntax", "0.9"); git("add", "."); git("commit", "-qm", "x", date="2021-01-01T00:00:00Z"); git("tag", "fluent.syntax@0.9")
    with open(top + "/bin/sphinx-build") as f:
        good = f.read()
    with open(top + "/bin/sphinx-build", "w") as f:
        f.write(good.replace("import os, sys, pathlib", "import os, sys, pathlib, signal\\nif any('release=' in x for x in sys.argv): os.kill(os.getppid(), signal.SIGKILL)"))
    p = build(["fluent.syntax"], "date(2020, 1, 1)")
    assert p.returncode < 0, p.stderr
    with open(top + "/bin/sphinx-build", "w") as f:
        f.write(good)
    p = build(["fluent.syntax"], "date(2020, 1, 1)")
    assert p.returncode == 0, p.stderr
'''+END)
P("c16-link-aside","C16","a build killed or failing between making the new link and putting it in its place",
 "the stable link is made beside the old one and then renamed, which fails if a killed build left one there",
 [(BD,"        stable.symlink_to(last_vers[project], target_is_directory=True)\n","        # Never without a stable version.\n        aside = stable.with_name(\"stable.new\")\n        aside.symlink_to(last_vers[project], target_is_directory=True)\n        os.replace(aside, stable)\n")],
 DOCS+'''
    version("fluent.syntax", "0.9"); git("add", "."); git("commit", "-qm", "x", date="2021-01-01T00:00:00Z"); git("tag", "fluent.syntax@0.9")
    # A build is stopped at any of the changes it makes to the published files.
    for n in range(1, 40):
        shutil.rmtree(top + "/repo/_build", ignore_errors=True)
        code = """
import os, signal, sys
n = [0]
def counted(real):
    def f(*a, **k):
        r = real(*a, **k)
        n[0] += 1
        if n[0] == %d:
            os._exit(9)
        return r
    return f
for name in ("symlink", "rename", "replace", "unlink"):
    setattr(os, name, counted(getattr(os, name)))
from datetime import date
from fluent.docs.build import build
build("r", ["fluent.syntax"], date(2020, 1, 1))
""" % n
        env = dict(os.environ, PATH=top + "/bin:" + os.environ["PATH"], TOP=top, HOME=top, GIT_CONFIG_NOSYSTEM="1", TMPDIR=top)
        env["PYTHONPATH"] = real + "/fluent.docs"
        p = subprocess.run([sys.executable, "-c", code], cwd=top + "/repo", env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        if p.returncode == 0:
            break
        assert p.returncode == 9, p.stderr
        p = build(["fluent.syntax"], "date(2020, 1, 1)")
        assert p.returncode == 0, p.stderr
'''+END)
P("c01-parts-only","C01","two locations of one locale holding different resources, the message of one referring to the other's",
 "a location that has not all of the resources is filled up from the next location",
 [(FB,"                if not os.path.isfile(path):\n                    continue\n","                if not os.path.isfile(path) and resources:\n                    path = self.localize_path(os.path.join(self.roots[-1], resource_id), locale)\n                if not os.path.isfile(path):\n                    continue\n")],
FILES+"""
try:
    put("a/en/a.ftl", 'm = a {-t}\\n')
    put("b/en/b.ftl", '-t = b\\nn = b\\n')
    put("b/fr/b.ftl", 'x = x\\n')
    l = FluentLocalization(["en", "fr"], ["a.ftl", "b.ftl"], FluentResourceLoader([top + "/a/{locale}", top + "/b/{locale}"]))
    assert l.format_value("m") == "a {-t}", l.format_value("m")
    assert l.format_value("n") == "b"
finally:
    shutil.rmtree(top)
""")
P("c02-refresh-unknown","C02","a lookup of a message nobody has, and files changed after the first lookups",
 "a lookup that found nothing drops what was loaded, so that the next one looks at the files again",
 [(FB,"            )  # Never FluentNone when format_pattern called externally\n        return msg_id\n","            )  # Never FluentNone when format_pattern called externally\n        if not self._bundle_cache[-1:] or self._bundle_cache[-1]._messages:\n            # Perhaps it is there later on.\n            with self._load_lock:\n                self._bundle_cache = []\n                self._progress = (0, 0)\n                self._bundle_it = None\n        return msg_id\n")],
FILES+"""
try:
    put("en/a.ftl", 'm = old\\n')
    l = FluentLocalization(["en"], ["a.ftl"], FluentResourceLoader(top + "/{locale}"))
    assert l.format_value("m") == "old"
    assert l.format_value("nobody") == "nobody"
    put("en/a.ftl", 'm = new\\n')
    assert l.format_value("m") == "old", l.format_value("m")
finally:
    shutil.rmtree(top)
""")
P("c03-surrogates","C03","a file with bytes that are no UTF-8",
 "bytes which are no UTF-8 are taken into the text instead of being reported",
 [(FB,"codecs.open(path, \"r\", \"utf-8\")","codecs.open(path, \"r\", \"utf-8\", \"replace\")")],
FILES+"""
try:
    put("en/a.ftl", b'm = a\\xff\\xfeb\\n')
    put("fr/a.ftl", 'm = fr\\n')
    l = FluentLocalization(["en", "fr"], ["a.ftl"], FluentResourceLoader(top + "/{locale}"))
    try:
        v = l.format_value("m")
    except UnicodeDecodeError:
        pass
    else:
        raise SystemExit("answered " + ascii(v))
finally:
    shutil.rmtree(top)
""")
P("c06-merge-override","C06","an override which has only attributes, of a message that has a value",
 "an overriding message without a value keeps the value of the one it overrides",
 [(BU,"            if allow_overrides:\n","            if allow_overrides and not item.value and map_.get(full_id, item).value:\n                item = item.clone()\n                item.value = map_[full_id].value\n            if allow_overrides:\n")],
BUND+"""
b = FluentBundle(["en"])
b.add_resource(FluentResource("m = old\\n"))
b.add_resource(FluentResource("m =\\n    .a = new\\nr = {m}\\n"), allow_overrides=True)
assert b.get_message("m").value is None
t, e = value(b, "r")
assert e, t
""")
P("c07-frozen-args","C07","a mutable argument value used by a custom function twice",
 "values of unknown types are put into the dictionary given as the texts they have",
 [(UT,"        return FluentDate.from_date(val)\n    return val\n","        return FluentDate.from_date(val)\n    if isinstance(val, (list, set)):\n        # Only for functions, which get it in one order.\n        val_list = sorted(val, key=str)\n        if isinstance(val, list):\n            val[:] = val_list\n        return val\n    return val\n")],
BUND+"""
b = FluentBundle(["en"], functions={"F": lambda x: "f"})
b.add_resource(FluentResource("m = {F($x)}\\n"))
x = ["b", "a"]
value(b, "m", {"x": x})
assert x == ["b", "a"], x
""")
P("c08-select-raises","C08","a function failing in a selector",
 "a failing function in a selector costs the whole select expression",
 [(RE,"        key = self.selector(env)\n","        failed = len(env.errors)\n        key = self.selector(env)\n        if isinstance(key, FluentNone) and len(env.errors) > failed and isinstance(self.selector, FTL.FunctionReference) and key.name and key.name.endswith(\"()\"):\n            # There is nothing to select by.\n            if not isinstance(env.errors[-1], FluentReferenceError):\n                return key\n")],
BUND+"""
def F():
    raise RuntimeError("f")
b = FluentBundle(["en"], functions={"F": F}, use_isolating=False)
b.add_resource(FluentResource("m = a { F() ->\\n    [one] one\\n   *[other] other\\n } b\\n"))
t, e = value(b, "m")
assert t == "a other b", t
""")
P("c09-active-kept","C09","an interrupt inside a message's value, and a later call",
 "the patterns being formatted are kept in the bundle, where an interrupted call leaves them",
 [(RE,"    active_patterns: Set[Union[FTL.Pattern, FTL.Placeable]] = attr.ib(factory=set, init=False)\n","    active_patterns: Set[Union[FTL.Pattern, FTL.Placeable]] = attr.ib(factory=set, init=False)\n    started: Set[int] = attr.ib(factory=set)\n"),
  (RE,"            env.errors.append(FluentCyclicReferenceError(\"Cyclic reference\"))\n            return FluentNone()\n        env.active_patterns.add(self)\n        elements = self.elements\n","            env.errors.append(FluentCyclicReferenceError(\"Cyclic reference\"))\n            return FluentNone()\n        env.active_patterns.add(self)\n        elements = self.elements\n"),
 ] if 0 else
 [(RE,"            kwargs = None\n        with env.modified_for_term_reference(args=kwargs):\n            return resolveEntryReference(self, env)\n","            kwargs = None\n        with env.modified_for_term_reference(args=kwargs):\n            depth = getattr(env.context, \"_term_depth\", 0)\n            if depth > 50:\n                env.errors.append(FluentCyclicReferenceError(\"Terms nested too deeply\"))\n                return FluentNone(reference_to_id(self))\n            env.context._term_depth = depth + 1\n            result = resolveEntryReference(self, env)\n            env.context._term_depth = depth\n            return result\n")],
BUND+"""
class Stop(BaseException): pass
fail = [True]
def F():
    if fail[0]:
        raise Stop
    return "f"
b = FluentBundle(["en"], functions={"F": F}, use_isolating=False)
b.add_resource(FluentResource("-t = t {F()}\\nm = {-t} m\\n"))
for i in range(60):
    try:
        value(b, "m")
    except Stop:
        pass
    else:
        raise SystemExit("swallowed")
fail[0] = False
assert value(b, "m") == ("t f m", []), value(b, "m")
""")
P("c10-errors-unbounded","C10","a long chain of references deeper than the stack left, in a function's arguments",
 "running out of stack is only expected where a reference is resolved, and passed on as it is from there",
 [(BU,"        except Exception as e:\n            errors.append(e)\n            result = \"{???}\"\n","        except RecursionError:\n            # The caller is short of stack, too.\n            raise\n        except Exception as e:\n            errors.append(e)\n            result = \"{???}\"\n")],
BUND+"""
b = FluentBundle(["en"])
n = 3000
b.add_resource(FluentResource("".join("m%d = {m%d}\\n" % (i, i + 1) for i in range(n)) + "m%d = end\\n" % n))
t, e = value(b, "m0")
assert e and isinstance(t, str)
""")
P("c11-weekday","C11","an argument that is a date-time without a zone, on a host which is not in UTC",
 "a date-time without a zone is taken as local time if it has a fold",
 [(TY,"        return FluentDateTime.from_date_time(val)\n" if 0 else "            dt = pytz.utc.localize(dt)\n","            dt = pytz.utc.localize(dt) if not dt.fold else dt.astimezone(pytz.utc)\n")] if 0 else
 [(UT,"    if isinstance(val, datetime):\n","    if isinstance(val, datetime) and val.tzinfo is None and val.fold:\n        # The second of two, which only the zone can tell.\n        val = val.astimezone()\n    if isinstance(val, datetime):\n")],
BUND+"""
import os, time
from datetime import datetime
b = FluentBundle(["en"])
b.add_resource(FluentResource('m = {DATETIME($d, dateStyle: "short", timeStyle: "short", timeZone: "UTC")}\\n'))
out = set()
for tz in ("UTC", "Asia/Tokyo"):
    os.environ["TZ"] = tz
    time.tzset()
    out.add(value(b, "m", {"d": datetime(2020, 10, 25, 1, 30, fold=1)})[0])
assert len(out) == 1, out
""")
P("c12-term-start","C12","a damaged entry followed by a term",
 "the search for the next entry does not see terms, so a term after a damaged entry is lost",
 [(ST,"            # Look for entry starts.\n" if 0 else "                first == \"-\"\n","                first == \"-\" and self.get(last_newline + 1) != \"-\"\n")] if 0 else
 [(PA,"            error_index = ps.index\n            ps.skip_to_next_entry_start(entry_start_pos)\n","            error_index = ps.index\n            ps.skip_to_next_entry_start(entry_start_pos)\n            if ps.current_char == \"-\" and ps.string.rfind(\"{\", entry_start_pos, ps.index) > ps.string.rfind(\"}\", entry_start_pos, ps.index):\n                # Inside of a placeable this is a term reference.\n                while ps.next() and ps.string[ps.index - 1] != \"\\n\":\n                    pass\n                ps.skip_to_next_entry_start(entry_start_pos)\n")],
"""
from fluent.syntax import parse
r = parse("a = {\\n-t = t\\nb = {-t}\\n")
assert [e.id.name for e in r.body if hasattr(e, "id")] == ["t", "b"], r.body
""")
P("c13-comment-lost","C13","a comment right before a damaged entry",
 "a comment before junk is dropped",
 [(PA,"                else:\n                    entries.append(last_comment)\n","                elif not isinstance(entry, ast.Junk) or not entry.content.startswith(last_comment.content[:1]):\n                    entries.append(last_comment)\n")],
"""
from fluent.syntax import parse, FluentSerializer
text = "# bad\\nb\\nc = c\\n"
r = parse(text)
assert "# bad" in FluentSerializer(with_junk=True).serialize(r), r.body
""")
P("c14-skip-bad-bytes","C14","a file that does not decode as UTF-8",
 "files which are no UTF-8 are read as Latin-1 instead of failing",
 [(CL,"encoding=\"utf-8\"","encoding=\"utf-8\", errors=\"surrogateescape\"")],
"""
import subprocess, sys, tempfile, os
d = tempfile.mkdtemp()
p = os.path.join(d, "x.ftl")
try:
    with open(p, "wb") as f:
        f.write(b"m = a\\xff\\n")
    for enc in ("utf-8", "utf-8:surrogateescape"):
        r = subprocess.run([sys.executable, "-m", "fluent.pygments.cli", p], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           env=dict(os.environ, PYTHONIOENCODING=enc))
        assert r.returncode != 0 and not r.stdout, r
finally:
    os.remove(p); os.rmdir(d)
""")
P("c18-extend-late","C18","a callback failing in a list after another list of the same node",
 "the lists of a node are emptied before their children are visited",
 [(VI,"            if isinstance(propvalue, list):\n                new_vals: List[Any] = []\n                for child in propvalue:\n","            if isinstance(propvalue, list):\n                new_vals: List[Any] = []\n                children, propvalue[:] = propvalue[:], []\n                for child in children:\n")],
"""
from fluent.syntax import parse
from fluent.syntax.visitor import Transformer
from fluent.syntax.serializer import serialize_message
class T(Transformer):
    def visit_TextElement(self, node):
        if node.value == "b":
            raise ValueError
        return node
r = parse("m = a\\nn = b\\n")
try:
    T().visit(r)
except ValueError:
    pass
assert len(r.body) == 2, r.body
""")
P("c19-literal-quote","C19","a number literal entry or a variant key edited to another kind",
 "text that begins with a bracket on a later line is indented like the rest without escaping",
 [(SE,"    content = indent_except_first_line(content)\n\n    if should_start","    content = indent_except_first_line(content.rstrip(\" \") if content.endswith(\" \") and \"\\n\" in content else content)\n\n    if should_start")],
"""
from fluent.syntax import FluentParser, FluentSerializer, ast
r = FluentParser().parse('m =\\n    a\\n    b { $x }\\n')
p = r.body[0].value
p.elements.append(ast.TextElement(" c"))
p.elements.append(ast.Placeable(ast.StringLiteral("")))
text = FluentSerializer().serialize(r)
assert FluentParser().parse(text).equals(r), text
""") if 0 else None
P("c19-empty-comment","C19","a comment with an empty first line",
 "empty lines at the start of a comment are not written",
 [(SE,"            for line in comment.content.split(\"\\n\")\n","            for line in comment.content.lstrip(\"\\n\").split(\"\\n\")\n")],
"""
from fluent.syntax import FluentParser, FluentSerializer
text = "#\\n# a\\nm = m\\n"
r = FluentParser().parse(text)
assert FluentSerializer().serialize(r) == text, FluentSerializer().serialize(r)
""")
