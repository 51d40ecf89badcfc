import sys; sys.path.insert(0,"/tmp/w")
from plant import plant
SX="fluent.syntax/fluent/syntax/"
ST=SX+"stream.py"; PA=SX+"parser.py"; SE=SX+"serializer.py"; VI=SX+"visitor.py"; AS=SX+"ast.py"
FB="fluent.runtime/fluent/runtime/fallback.py"; BU="fluent.runtime/fluent/runtime/bundle.py"
RE="fluent.runtime/fluent/runtime/resolver.py"; PR="fluent.runtime/fluent/runtime/prepare.py"
LX="fluent.pygments/fluent/pygments/lexer.py"; CL="fluent.pygments/fluent/pygments/cli.py"
BD="fluent.docs/fluent/docs/build.py"; TG="fluent.docs/fluent/docs/tags.py"
ONLY=sys.argv[1:]
def P(id,*a,**k):
    if ONLY and id not in ONLY: return
    plant(id,*a,**k)
P("c12-junk-skips-resource","C12","a resource with junk in it in a locale that has fallbacks",
 "a resource containing junk is left out altogether",
 [(FB,'''            for resources in islice(all_resources, loaded, None):
                bundle = self._create_bundle(locs)
                for resource in resources:
                    bundle.add_resource(resource)''','''            for resources in islice(all_resources, loaded, None):
                bundle = self._create_bundle(locs)
                for resource in resources:
                    if any(type(entry).__name__ == "Junk" for entry in resource.body[-1:]):
                        continue
                    bundle.add_resource(resource)''')],
'''
import os, shutil, tempfile
from fluent.runtime import FluentLocalization, FluentResourceLoader
top = tempfile.mkdtemp()
try:
    for loc, t in (("en", "m = english\\nx = { "), ("fr", "m = francais\\nx = y\\n")):
        os.makedirs(top + "/" + loc)
        with open(top + "/" + loc + "/a.ftl", "w") as f:
            f.write(t)
    l = FluentLocalization(["en", "fr"], ["a.ftl"], FluentResourceLoader(top + "/{locale}"))
    assert l.format_value("m") == "english", l.format_value("m")
    assert l.format_value("x") == "y"
finally:
    shutil.rmtree(top)
''')
P("c12-crlf-blank","C12","line ends rewritten to CRLF, and line breaks inside placeables",
 "blank space inside placeables is skipped without regard to CRLF",
 [(ST,"""    def skip_blank(self) -> None:
        self.peek_blank()
        self.skip_to_peek()""","""    def skip_blank(self) -> None:
        self.reset_peek()
        while self.get(self.index) in (" ", EOL):
            self.index += 1""")],
'''
from fluent.syntax import parse, ast
t = "m = {\\n   $n }\\n"
assert parse(t.replace("\\n", "\\r\\n")).equals(parse(t))
''')
P("c13-bom","C13","a text that starts with a byte order mark",
 "positions are those of the text without its byte order mark",
 [(PA,"        ps = FluentParserStream(source)\n        ps.skip_blank_block()\n\n        entries","        ps = FluentParserStream(source.lstrip(\"\\ufeff\"))\n        ps.skip_blank_block()\n\n        entries")],
'''
from fluent.syntax import parse, ast
text = "\\ufeffm = x\\n?? junk\\n"
j = parse(text).body[-1]
assert text[j.span.start:j.span.end] == j.content
''')
P("c14-blank-tokens","C14","a text element that consists of blanks only",
 "blank text elements yield no token",
 [(LX,"            last_end = node.span.end\n            yield start, token, span",'''            last_end = node.span.end
            if span.strip("\\n\\r "):
                yield start, token, span''')],
'''
from fluent.pygments.lexer import FluentLexer
text = "m = { $a } { $b }\\n"
assert "".join(v for _, _, v in FluentLexer().get_tokens_unprocessed(text)) == text
''')
P("c14-broken-pipe","C14","an output that fails with a broken pipe",
 "fluentfmt reports success although its output could not be written",
 [("tools/fluentfmt.py","    print(serialize(ast))",'''    try:
        print(serialize(ast), flush=True)
    except BrokenPipeError:
        # The reader has seen enough.
        sys.stdout = None''')],
'''
import os, subprocess, sys, tempfile, shutil
top = tempfile.mkdtemp()
try:
    with open(top + "/a.ftl", "w") as f:
        f.write("m = x\\n" * 50000)
    r, w = os.pipe()
    os.close(r)
    p = subprocess.run([sys.executable, "tools/fluentfmt.py", top + "/a.ftl"], stdout=w, stderr=subprocess.DEVNULL)
    os.close(w)
    assert p.returncode != 0
finally:
    shutil.rmtree(top)
''')
P("c14-partial-highlight","C14","an output that fails after part of the text",
 "the highlighter prints entry by entry and ends successfully when the terminal goes away",
 [(CL,"    highlight(code, FluentLexer(), Terminal256Formatter(), sys.stdout)",'''    try:
        highlight(code, FluentLexer(), Terminal256Formatter(), sys.stdout)
        sys.stdout.flush()
    except OSError as e:
        print(e, file=sys.stderr)
        sys.stdout = sys.stderr''')],
'''
import os, subprocess, sys, tempfile, shutil
top = tempfile.mkdtemp()
try:
    with open(top + "/a.ftl", "w") as f:
        f.write("m = x\\n" * 5000)
    with open("/dev/full", "w") as full:
        p = subprocess.run([sys.executable, "-m", "fluent.pygments.cli", top + "/a.ftl"], stdout=full, stderr=subprocess.DEVNULL)
    assert p.returncode != 0
finally:
    shutil.rmtree(top)
''')
DOCS='''
import os, shutil, subprocess, sys, tempfile
top = tempfile.mkdtemp()
real = os.getcwd()
BIN = """#!{py}
import os, sys, pathlib
a = sys.argv[1:]
dst = pathlib.Path(a[-1]); src = pathlib.Path(a[-2])
dst.mkdir(parents=True, exist_ok=True)
rel = [x for x in a if x.startswith("release=")]
count = pathlib.Path(os.environ["TOP"], "count")
n = int(count.read_text()) if count.exists() else 0
count.write_text(str(n + 1))
pp = os.environ.get("PYTHONPATH", "")
ver = pathlib.Path(pp.split(os.pathsep)[0], "version").read_text() if "fluent." in pp else "?"
(dst / "index.html").write_text((src / "version").read_text() + " " + " ".join(rel) + " code " + ver)
if os.environ.get("FAIL") == str(n):
    sys.exit(1)
(dst / "rest.html").write_text((src / "_templates/versions.html").read_text() if (src / "_templates/versions.html").exists() else "")
"""
def git(*a, date=None):
    env = dict(os.environ, GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@b", GIT_COMMITTER_NAME="a", GIT_COMMITTER_EMAIL="a@b",
               HOME=top, GIT_CONFIG_NOSYSTEM="1")
    if date:
        env.update(GIT_AUTHOR_DATE=date, GIT_COMMITTER_DATE=date)
    subprocess.run(["git", *a], cwd=top + "/repo", check=True, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
def version(project, v):
    d = top + "/repo/" + project
    os.makedirs(d + "/docs", exist_ok=True)
    for f in ("/version", "/docs/version"):
        with open(d + f, "w") as fh:
            fh.write(project + " " + v)
    # tracked, as in the repository itself
def build(projects, after, fail=None, **env):
    code = ("import sys; from datetime import date; from fluent.docs.build import build; "
            "build('r', %r, %s)" % (projects, after))
    e = dict(os.environ, PATH=top + "/bin:" + os.environ["PATH"], TOP=top, HOME=top, GIT_CONFIG_NOSYSTEM="1", TMPDIR=top, **env)
    if fail is not None:
        e["FAIL"] = str(fail)
    sys.stdout.flush()
    return subprocess.run([sys.executable, "-c", "import sys; sys.path.insert(0, %r); import os; os.environ.pop('PYTHONPATH', None); os.environ.update(KEEP) if 'KEEP' in globals() else None; " % (real + "/fluent.docs") + code],
                          cwd=top + "/repo", env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
def page(p):
    with open(top + "/repo/_build/r/" + p) as f:
        return f.read()
try:
    os.makedirs(top + "/bin"); os.makedirs(top + "/repo")
    with open(top + "/bin/sphinx-build", "w") as f:
        f.write(BIN.replace("{py}", sys.executable))
    os.chmod(top + "/bin/sphinx-build", 0o755)
    git("init", "-q")
    with open(top + "/repo/.gitignore", "w") as f:
        f.write("_build\\nversions.html\\n")
'''
DEND='''
finally:
    shutil.rmtree(top)
'''
P("c15-stable-by-name","C15","a project with releases such as 0.9 and 0.10",
 "stable points at the release that sorts last as text instead of the most recent one",
 [(BD,"last_vers[project] = versions_4_project[project][0]","last_vers[project] = max(versions_4_project[project])")],
 DOCS+'''
    for v, d in (("0.9", "2021-01-01T00:00:00Z"), ("0.10", "2022-01-01T00:00:00Z")):
        version("fluent.syntax", v); git("add", "."); git("commit", "-qm", v, date=d); git("tag", "fluent.syntax@" + v)
    p = build(["fluent.syntax"], "date(2020, 1, 1)")
    assert p.returncode == 0, p.stderr
    assert os.readlink(top + "/repo/_build/r/fluent.syntax/stable") == "0.10"
'''+DEND)
P("c15-same-version","C15","two projects releasing the same version number one after the other",
 "the checkout is left out if the version number is that of the release built before",
 [(BD,'''        for tag in tagged_versions:
            if worktree is None:''','''        current = None
        for tag in tagged_versions:
            if worktree is None:'''),
  (BD,'''            subprocess.run(
                ["git", "checkout", f"{tag.project}@{tag.version}"],
                cwd=worktree,
                check=True,
            )
            with ProjectBuilder(
                repo_name,
                os.path.join(worktree, tag.project),
                tag.project,
                versions_4_project[tag.project],
                tag.version,
            ) as builder:''','''            if tag.version != current:
                subprocess.run(
                    ["git", "checkout", f"{tag.project}@{tag.version}"],
                    cwd=worktree,
                    check=True,
                )
                current = tag.version
            with ProjectBuilder(
                repo_name,
                os.path.join(worktree, tag.project),
                tag.project,
                versions_4_project[tag.project],
                tag.version,
            ) as builder:''')],
 DOCS+'''
    version("fluent.syntax", "1.0"); version("fluent.runtime", "0.9"); git("add", "."); git("commit", "-qm", "a", date="2021-01-01T00:00:00Z"); git("tag", "fluent.syntax@1.0")
    version("fluent.syntax", "1.1"); version("fluent.runtime", "1.0"); git("add", "."); git("commit", "-qm", "b", date="2022-01-01T00:00:00Z"); git("tag", "fluent.runtime@1.0")
    p = build(["fluent.syntax", "fluent.runtime"], "date(2020, 1, 1)")
    assert p.returncode == 0, p.stderr
    assert page("fluent.syntax/1.0/index.html").startswith("fluent.syntax 1.0 "), page("fluent.syntax/1.0/index.html")
    assert page("fluent.runtime/1.0/index.html").startswith("fluent.runtime 1.0 "), page("fluent.runtime/1.0/index.html")
'''+DEND)
P("c15-cut-off-day","C15","a release tagged on the cut-off date itself",
 "releases of the cut-off date are published too",
 [(TG,"ti.date > cut_off_date","not ti.date < cut_off_date")],
 DOCS+'''
    for v, d in (("0.9", "2021-01-01T12:00:00Z"), ("0.10", "2022-01-01T12:00:00Z")):
        version("fluent.syntax", v); git("add", "."); git("commit", "-qm", v, date=d); git("tag", "fluent.syntax@" + v)
    p = build(["fluent.syntax"], "date(2021, 1, 1)")
    assert p.returncode == 0, p.stderr
    assert sorted(x for x in os.listdir(top + "/repo/_build/r/fluent.syntax") if x != "index.html") == ["0.10", "dev", "stable"]
'''+DEND)
P("c16-keep-finished","C16","a build killed or failed while sphinx was writing a release, then another one",
 "releases whose directory exists are taken for built, including those a failed build left behind half",
 [(BD,'''    def build(self):
        self.create_versions_doc()
        super().build()
''','''    def build(self):
        if self.version != "dev" and self.is_current():
            return
        self.create_versions_doc()
        super().build()

    def is_current(self):
        """Releases don't change, but the list of versions does."""
        index = Path(self.dest_dir) / "index.html"
        return index.exists() and self.version != self.versions[2]
''')],
 DOCS+'''
    for v, d in (("0.9", "2021-01-01T00:00:00Z"), ("0.10", "2022-01-01T00:00:00Z")):
        version("fluent.syntax", v); git("add", "."); git("commit", "-qm", v, date=d); git("tag", "fluent.syntax@" + v)
    p = build(["fluent.syntax"], "date(2020, 1, 1)", fail=2)
    assert p.returncode != 0
    p = build(["fluent.syntax"], "date(2020, 1, 1)")
    assert p.returncode == 0, p.stderr
    assert os.path.exists(top + "/repo/_build/r/fluent.syntax/0.9/rest.html")
'''+DEND)
P("c16-stable-once","C16","a second build, with a release added between them",
 "stable is only set if it does not exist yet",
 [(BD,'''        if stable.is_symlink():
            stable.unlink()
        if stable.exists():
            shutil.rmtree(stable)
''','''        if stable.is_symlink():
            continue
        if stable.exists():
            shutil.rmtree(stable)
''')],
 DOCS+'''
    version("fluent.syntax", "0.9"); git("add", "."); git("commit", "-qm", "a", date="2021-01-01T00:00:00Z"); git("tag", "fluent.syntax@0.9")
    p = build(["fluent.syntax"], "date(2020, 1, 1)")
    assert p.returncode == 0, p.stderr
    version("fluent.syntax", "0.10"); git("add", "."); git("commit", "-qm", "b", date="2022-01-01T00:00:00Z"); git("tag", "fluent.syntax@0.10")
    p = build(["fluent.syntax"], "date(2020, 1, 1)")
    assert p.returncode == 0, p.stderr
    assert os.readlink(top + "/repo/_build/r/fluent.syntax/stable") == "0.10"
'''+DEND)
P("c16-templates-exist","C16","a build of a project after one that was killed once it had written the list of versions",
 "the directory for the list of versions must not exist, so a project whose sources have none cannot be built again",
 [(BD,"        target_path.mkdir(exist_ok=True)\n        target_path = target_path","        if not (target_path / \"versions.html\").exists():\n            target_path.mkdir()\n        target_path = target_path")],
 DOCS+'''
    version("fluent.syntax", "0.9"); os.makedirs(top + "/repo/fluent.syntax/docs/_templates")
    with open(top + "/repo/fluent.syntax/docs/_templates/page.html", "w") as f:
        f.write("x")
    git("add", "."); git("commit", "-qm", "a", date="2021-01-01T00:00:00Z")
    p = build(["fluent.syntax"], "date(2020, 1, 1)")
    assert p.returncode == 0, p.stderr
'''+DEND)
THREADS='''
import sys, threading
def interleave(first, at, second):
    """Run second() in another thread when first() gets to the n-th traced line for which at() holds"""
    done = []
    def trace(frame, event, arg):
        if not done and event == "line" and at(frame):
            done.append(1)
            t = threading.Thread(target=second); t.start(); t.join()
        return trace
    def body():
        sys.settrace(trace)
        try:
            out.append(first())
        finally:
            sys.settrace(None)
    out = []
    t = threading.Thread(target=body); t.start(); t.join()
    assert done, "point not reached"
    return out[0]
'''
P("c17-serializer-state","C17","one serializer used by two threads at once, or after an interrupted call",
 "whether an entry was written already is kept on the serializer",
 [(SE,'''        state = 0

        parts: List[str] = []''','''        self.state = 0

        parts: List[str] = []'''),
  (SE,"                parts.append(self.serialize_entry(entry, state))","                parts.append(self.serialize_entry(entry, self.state))"),
  (SE,"                state = 0 if isinstance(entry, ast.Junk) else self.HAS_ENTRIES","                self.state = 0 if isinstance(entry, ast.Junk) else self.HAS_ENTRIES")],
 THREADS+'''
from fluent.syntax import FluentSerializer, parse
s = FluentSerializer(with_junk=True)
a, b = parse("a = x\\n\\n# c\\n\\nb = y\\n"), parse("?? junk\\n")
alone = s.serialize(a)
lines = []
def at(frame):
    if frame.f_code.co_name == "serialize_entry" and frame.f_locals.get("entry") is a.body[1]:
        return False
    return frame.f_code.co_name == "serialize" and frame.f_locals.get("entry") is a.body[1]
assert interleave(lambda: s.serialize(a), at, lambda: s.serialize(b)) == alone
''')
P("c17-shared-spans","C17","changing the span of a clone",
 "a clone shares the spans of its original",
 [(AS,'''            if isinstance(value, BaseNode):
                return value.clone()
            if isinstance(value, list):
                return [visit''','''            if isinstance(value, Span):
                return value
            if isinstance(value, BaseNode):
                return value.clone()
            if isinstance(value, list):
                return [visit''')],
'''
from fluent.syntax import parse
t = parse("a = b\\n")
c = t.clone()
c.body[0].span.end = 99
assert t.body[0].span.end != 99
''')
P("c17-junk-dropped","C17","adding a resource with junk or comments to a bundle and using its tree afterwards",
 "adding a resource to a bundle removes what defines nothing from the tree",
 [(BU,'''        for item in resource.body:
            if not isinstance(item, (FTL.Message, FTL.Term)):
                continue
''','''        resource.body[:] = [
            item for item in resource.body if isinstance(item, (FTL.Message, FTL.Term))
        ]
        for item in resource.body:
''')],
'''
from fluent.runtime import FluentBundle, FluentResource
r = FluentResource("# c\\n\\na = b\\n?? junk\\n")
b = FluentBundle(["en-US"])
b.add_resource(r)
assert len(r.body) == 3
''')
P("c17-parser-pending","C17","one parser used by two threads at once, or after an interrupted call",
 "the comment kept back for the next entry is kept on the parser",
 [(PA,'''        self.with_spans = with_spans

    def parse(''','''        self.with_spans = with_spans
        self.last_comment: Union[ast.Comment, None] = None

    def parse('''),
  (PA,'''        entries: List[ast.EntryType] = []
        last_comment = None
''','''        entries: List[ast.EntryType] = []
'''),
  (PA,'''                last_comment = entry
                continue

            if last_comment is not None:
                if isinstance(entry, (ast.Message, ast.Term)):
                    entry.comment = last_comment
''','''                self.last_comment = entry
                continue

            if self.last_comment is not None:
                if isinstance(entry, (ast.Message, ast.Term)):
                    entry.comment = self.last_comment
'''),
  (PA,'''                    entries.append(last_comment)
''','''                    entries.append(self.last_comment)
'''),
  (PA,'''                # clear it.
                last_comment = None
''','''                # clear it.
                self.last_comment = None
''')],
'''
import sys
from fluent.syntax import FluentParser
p = FluentParser()
class Stop(BaseException):
    pass
def trace(frame, event, arg):
    if frame.f_code.co_name == "get_message":
        raise Stop()
    return trace
sys.settrace(trace)
try:
    p.parse("# c\\na = b\\n")
except Stop:
    pass
sys.settrace(None)
assert p.parse("d = e\\n").body[0].comment is None
''')
P("c18-item-by-item","C18","a callback raising for the second or a later item of a list that has items removed or replaced",
 "list items are replaced one by one, so a failing transformation leaves a list half transformed",
 [(VI,'''                new_vals: List[Any] = []
                for child in propvalue:
                    new_val = self.visit(child)
                    if new_val is not None:
                        new_vals.append(new_val)
                # in-place manipulation
                propvalue[:] = new_vals
''','''                # in-place manipulation
                for child in propvalue[:]:
                    new_val = self.visit(child)
                    if new_val is None:
                        propvalue.remove(child)
                    elif new_val is not child:
                        propvalue[propvalue.index(child)] = new_val
''')],
'''
from fluent.syntax import parse, ast, visitor
class T(visitor.Transformer):
    def visit_Message(self, node):
        if node.id.name == "b":
            raise ValueError
        return None
t = parse("a = x\\nb = y\\nc = z\\n")
try:
    T().visit(t)
except ValueError:
    pass
assert [m.id.name for m in t.body] == ["a", "b", "c"]
''')
P("c18-attribute-error","C18","a callback raising AttributeError",
 "an AttributeError raised in a callback is taken for the lack of a callback",
 [(VI,'''        nodename = type(node).__name__
        visit = getattr(self, f"visit_{nodename}", self.generic_visit)
        return visit(node)

    def generic_visit(self, node: Node)''','''        nodename = type(node).__name__
        try:
            return getattr(self, f"visit_{nodename}")(node)
        except AttributeError:
            return self.generic_visit(node)

    def generic_visit(self, node: Node)''')],
'''
from fluent.syntax import parse, ast, visitor
class T(visitor.Transformer):
    def visit_Message(self, node):
        return node.value.text
t = parse("a = x\\n")
try:
    T().visit(t)
except AttributeError:
    pass
else:
    raise AssertionError("no AttributeError")
''')
P("c18-detach-first","C18","a callback raising inside a property that is a node",
 "a property is taken off the node while it is transformed, and missing if that fails",
 [(VI,'''            elif isinstance(propvalue, BaseNode):
''','''            elif isinstance(propvalue, BaseNode):
                setattr(node, propname, None)
''')],
'''
from fluent.syntax import parse, ast, visitor
class T(visitor.Transformer):
    def visit_TextElement(self, node):
        raise ValueError
t = parse("a = x\\n")
try:
    T().visit(t)
except ValueError:
    pass
assert t.body[0].value is not None
''')
P("c19-comment-blanks","C19","a comment with a line consisting of blanks, or blanks at the end of a line",
 "blanks at the end of comment lines are dropped",
 [(SE,'prefix if len(line) == 0 else f"{prefix} {line}"','f"{prefix} {line}".rstrip()')],
'''
from fluent.syntax import parse, serialize
t = parse("# a  \\nm = b\\n")
assert parse(serialize(t)).equals(t)
''')
P("c19-comment-then-term","C19","a standalone comment before a term",
 "a standalone comment that comes first in the file becomes the comment of the entry after it",
 [(SE,"""                return "\\n{}\\n".format(serialize_comment(entry, "#"))
            return "{}\\n".format(serialize_comment(entry, "#"))""","""                return "\\n{}\\n".format(serialize_comment(entry, "#"))
            return "{}{}".format(
                serialize_comment(entry, "#"), "" if not entry.content else "\\n"
            )""")],
"""
from fluent.syntax import parse, serialize
t = parse("#\\n\\nm = b\\n")
assert parse(serialize(t)).equals(t)
""")
