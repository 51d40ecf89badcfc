import sys
exec(open("/verif/tools/b8.py").read().split('P("c07-options')[0])
GROW='''
import gc, types
def held(*roots):
    import sys
    gc.collect()
    seen, todo, n = set(), list(roots), 0
    for name, mod in list(sys.modules.items()):
        seen.add(id(getattr(mod, "__dict__", None)))
        if name.startswith("fluent."):
            todo += [v for k, v in vars(mod).items() if not k.startswith("__")]
    seen.add(id(todo))
    while todo:
        o = todo.pop()
        if id(o) in seen or isinstance(o, (types.ModuleType, types.FrameType)):
            continue
        seen.add(id(o))
        n += 1
        home = getattr(o if isinstance(o, (type, types.FunctionType)) else type(o), "__module__", "") or ""
        if home.partition(".")[0] in ("fluent", "builtins", "collections", "functools", "types", "weakref", "_thread", "attr", "itertools", "__main__", "_functools"):
            todo += gc.get_referents(o)
    return n
def grows(call, *roots):
    for i in range(50):
        call(i)
    a = held(*roots)
    for i in range(50, 6050):
        call(i)
    b = held(*roots)
    assert b < a + 3000, (a, b)
'''
P("c27-unknown-ids","C27","lookups of ids which no locale has, or has only as a message without value, ever new ones",
 "ids without translation are remembered so that they are not looked for in all bundles again",
 [(FB,"        return msg_id\n\n    def _create_bundle","        self._missing.add(msg_id)\n        return msg_id\n\n    def _create_bundle"),
  (FB,"        for bundle in self._bundles():\n","        if msg_id in self._missing:\n            return msg_id\n        for bundle in self._bundles():\n"),
  (FB,"        self.functions = functions\n","        self.functions = functions\n        self._missing: set = set()\n")],
GROW+"""
from fluent.runtime import FluentLocalization, FluentResource
class L:
    def resources(self, locale, ids):
        yield [FluentResource("m = m\\n")]
l = FluentLocalization(["en"], ["a"], L())
grows(lambda i: l.format_value("x%d" % i), l)
""")
P("c27-plural-cache","C27","selecting on ever new numbers that no variant names exactly",
 "plural categories of numbers are remembered by the bundle",
 [(RE,"                val1_form = env.context._ordinal_form(val1)\n            else:\n                val1_form = env.context._plural_form(val1)\n",
      "                val1_form = env.context._ordinal_form(val1)\n            else:\n                forms = env.context._plural_forms\n                val1_form = forms.get(val1)\n                if val1_form is None:\n                    val1_form = forms[val1] = env.context._plural_form(val1)\n"),
  (BU,"        self.use_isolating = use_isolating\n","        self.use_isolating = use_isolating\n        self._plural_forms: Dict[Any, PluralCategory] = {}\n")],
GROW+BUND+"""
b = FluentBundle(["en"])
b.add_resource(FluentResource("m = { $n ->\\n    [one] a\\n   *[other] b\\n }\\n"))
grows(lambda i: value(b, "m", {"n": i}), b)
""")
P("c27-options-cache","C27","numbers made with options, by ever new options or ever new currencies",
 "merged options are kept in a table of the module, by what they were merged from",
 [(TY,"        self.options = merge_options(\n            NumberFormatOptions,\n            getattr(value, \"options\", self.default_number_format_options),\n            kwargs,\n        )\n",
      "        base = getattr(value, \"options\", self.default_number_format_options)\n        key = (str(base), str(sorted(kwargs.items())))\n        if key not in _merged_options:\n            _merged_options[key] = merge_options(NumberFormatOptions, base, kwargs)\n        self.options = attr.evolve(_merged_options[key])\n"),
  (TY,"class FluentNumber(FluentType):\n","_merged_options: Dict[Any, NumberFormatOptions] = {}\n\n\nclass FluentNumber(FluentType):\n")],
GROW+BUND+"""
b = FluentBundle(["en"])
b.add_resource(FluentResource('m = {NUMBER($n, style: "currency", currency: $n)} {F($n)}\\n'))
from fluent.runtime.types import fluent_number
grows(lambda i: fluent_number(5, currency="X%d" % i), b)
""")
P("c27-junk-annotations","C27","texts with junk, parsed by one parser",
 "the parser collects the errors it recovered from, for diagnosis",
 [(PA,"    def __init__(self, with_spans: bool = True):\n        self.with_spans = with_spans\n","    def __init__(self, with_spans: bool = True):\n        self.with_spans = with_spans\n        self.recovered: List[ParseError] = []\n"),
  (PA,"        except ParseError as err:\n","        except ParseError as err:\n            self.recovered.append(err)\n")],
GROW+"""
from fluent.syntax import FluentParser
p = FluentParser()
grows(lambda i: p.parse("?? %d\\nm = m\\n" % i), p)
""")
P("c27-interrupted-patterns","C27","many calls on one bundle that are aborted: too many parts, too long values, recursion limits or interrupts",
 "the environments of calls under way are known to the bundle, and forgotten when a call succeeds",
 [(BU,"        try:\n            result = pattern(env)\n","        self._active.append(env)\n        try:\n            result = pattern(env)\n            self._active.remove(env)\n"),
  (BU,"        self.use_isolating = use_isolating\n","        self.use_isolating = use_isolating\n        self._active: List[ResolverEnvironment] = []\n")],
GROW+BUND+"""
b = FluentBundle(["en"])
b.add_resource(FluentResource("m = a { $n }\\n"))
grows(lambda i: value(b, "m", {"n": "x" * 3000}), b)
""")
P("c27-errors-kept","C27","many calls that report errors, with ever new exceptions of functions",
 "the bundle keeps the exceptions that functions raised, to report each of them once",
 [(RE,"        try:\n            return function(*args, **kwargs)\n        except Exception as e:\n            env.errors.append(e)\n",
      "        try:\n            return function(*args, **kwargs)\n        except Exception as e:\n            if not any(e is x for x in env.context._raised):\n                env.context._raised.append(e)\n            env.errors.append(e)\n"),
  (BU,"        self.use_isolating = use_isolating\n","        self.use_isolating = use_isolating\n        self._raised: List[Exception] = []\n")],
GROW+BUND+"""
def F(x):
    raise ValueError(x)
b = FluentBundle(["en"], functions={"F": F})
b.add_resource(FluentResource("m = a { F($n) }\\n"))
def call(i):
    value(b, "m", {"n": i})
def few(i):
    value(b, "m", {"n": i})
for i in range(10): call(i)
a = held(b)
for i in range(500): call(i)
assert held(b) < a + 300, (a, held(b))
""")
P("c27-failed-loads","C27","a resource that cannot be read, again and again while an application asks for it",
 "what could be loaded of a location is kept for when loading it succeeds, and never dropped",
 [(FB,"                with codecs.open(path, \"r\", \"utf-8\") as fh:\n                    content = fh.read()\n                resources.append(FluentParser().parse(content))\n",
      "                with codecs.open(path, \"r\", \"utf-8\") as fh:\n                    content = fh.read()\n                resources.append(FluentParser().parse(content))\n                self._parsed.append((path, resources[-1]))\n"),
  (FB,"            if resources:\n                yield resources\n","            if resources:\n                self._parsed = [p for p in self._parsed if not any(p[1] is r for r in resources)]\n                yield resources\n"),
  (FB,"        self.roots = [roots] if isinstance(roots, str) else roots\n","        self.roots = [roots] if isinstance(roots, str) else roots\n        # Until the location has been loaded.\n        self._parsed: List[Tuple[str, Any]] = []\n")],
FILES+"try:\n"+"\n".join("    "+x for x in """
put("en/a.ftl", "a = a\\n")
put("en/b.ftl", b"b = \\xff\\n")
l = FluentLocalization(["en"], ["a.ftl", "b.ftl"], FluentResourceLoader(os.path.join(top, "{locale}")))
import gc
from fluent.syntax.ast import Message
def call():
    try:
        l.format_value("a")
    except UnicodeDecodeError:
        pass
def n():
    gc.collect()
    return sum(isinstance(x, Message) for x in gc.get_objects())
call()
a = n()
for i in range(500): call()
assert n() < a + 100, (a, n())
""".strip().split("\n"))+END)
P("c27-all-bundles","C27","short-lived bundles, in an application that makes ever new ones",
 "bundles are registered so that the library can tell about all of them",
 [(BU,"class FluentBundle:\n","_bundles: List[\"FluentBundle\"] = []\n\n\nclass FluentBundle:\n"),
  (BU,"        self.locales = locales\n","        self.locales = locales\n        _bundles.append(self)\n")],
GROW+BUND+"""
import weakref
refs = []
for i in range(200):
    refs.append(weakref.ref(FluentBundle(["en"])))
gc.collect()
assert sum(r() is not None for r in refs) < 100
""")
P("c27-visited","C27","transforming or visiting many trees with one visitor",
 "a transformer remembers which nodes it has visited, by the nodes themselves",
 [(VI,"        nodename = type(node).__name__\n        visit = getattr(self, f\"visit_{nodename}\", self.generic_visit)\n        return visit(node)\n",
      "        nodename = type(node).__name__\n        visit = getattr(self, f\"visit_{nodename}\", self.generic_visit)\n        result = visit(node)\n        if result is not node:\n            vars(self).setdefault(\"replaced\", []).append((node, result))\n        return result\n")],
"""
import gc, weakref
from fluent.syntax import FluentParser, ast
from fluent.syntax.visitor import Transformer
class T(Transformer):
    def visit_TextElement(self, node):
        return ast.TextElement(node.value.upper())
t = T()
refs = []
for i in range(300):
    tree = FluentParser().parse("m = m%d\\n" % i)
    refs.append(weakref.ref(tree.body[0].value.elements[0]))
    t.visit(tree)
del tree
gc.collect()
assert sum(r() is not None for r in refs) < 100
""")
P("c27-decode-table","C27","string literals with ever new escapes or contents in translations that are loaded again",
 "what string literals stand for is kept in a table, by the literal",
 [("fluent.syntax/fluent/syntax/ast.py","class StringLiteral(Literal):\n","_parsed: Dict[str, Dict[str, Any]] = {}\n\n\nclass StringLiteral(Literal):\n"),
  ("fluent.syntax/fluent/syntax/ast.py","        return {\"value\": value}\n","        _parsed[self.value] = {\"value\": value}\n        return _parsed[self.value]\n")],
GROW+BUND+"""
def call(i):
    b = FluentBundle(["en"])
    b.add_resource(FluentResource('m = { "x%d" } b\\n' % i))
    value(b, "m")
from fluent.syntax import ast
def quick(i):
    ast.StringLiteral("x%d" % i).parse()
grows(quick)
""")
P("c27-kept-callargs","C27","formatting terms with arguments, where a call is interrupted or fails inside of the term",
 "the arguments that terms are formatted with are stacked up in the bundle and not taken off after a failure",
 [(RE,"        with env.modified_for_term_reference(args=kwargs):\n            return resolveEntryReference(self, env)\n",
      "        env.context._term_args.append(kwargs)\n        with env.modified_for_term_reference(args=kwargs):\n            result = resolveEntryReference(self, env)\n        env.context._term_args.pop()\n        return result\n"),
  (BU,"        self.use_isolating = use_isolating\n","        self.use_isolating = use_isolating\n        self._term_args: List[Any] = []\n")],
GROW+BUND+"""
b = FluentBundle(["en"])
b.add_resource(FluentResource('m = a { -t(x: "1") }\\n-t = { F($x) } b\\n'))
class Stop(BaseException): pass
def F(x):
    raise Stop
b._functions["F"] = F
def call(i):
    try:
        value(b, "m")
    except Stop:
        pass
for i in range(50): call(i)
a = held(b)
for i in range(500): call(i)
assert held(b) < a + 300
""")
P("c27-lexer-texts","C27","highlighting ever new texts",
 "the tokenizer keeps the trees of the texts it has highlighted",
 [(LX,"        self.ast = parse(text)\n","        if text not in TREES:\n            TREES[text] = parse(text)\n        self.ast = TREES[text]\n"),
  (LX,"class Tokenizer:\n","TREES = {}\n\n\nclass Tokenizer:\n")],
GROW+"""
from fluent.pygments.lexer import FluentLexer
l = FluentLexer()
grows(lambda i: list(l.get_tokens("m = m%d\\n" % i)), l)
""")
P("c27-clones","C27","many clones of one tree",
 "a node keeps the clones made of it, so that they can be told apart from other nodes",
 [(SX+"ast.py","        # Use all attributes found on the node as kwargs to the constructor.\n        return self.__class__(\n            **{name: visit(value) for name, value in vars(self).items()}\n        )\n",
    "        # Use all attributes found on the node as kwargs to the constructor.\n        copy = self.__class__(\n            **{name: visit(value) for name, value in vars(self).items()}\n        )\n        _origins[id(copy)] = self\n        return copy\n"),
  (SX+"ast.py","class BaseNode:\n","_origins: Dict[int, Any] = {}\n\n\nclass BaseNode:\n")],
GROW+"""
from fluent.syntax import parse
t = parse("m = m\\n")
kept = []
import collections
def call(i):
    kept.append(t.clone())
grows0 = held(t)
for i in range(500): call(i)
kept.clear()
assert held(t) < grows0 + 300
""")
