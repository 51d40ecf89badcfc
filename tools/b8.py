import re, sys; sys.path.insert(0,"/verif/tools")
from plant import plant
SX="fluent.syntax/fluent/syntax/"
ST=SX+"stream.py"; PA=SX+"parser.py"; SE=SX+"serializer.py"; VI=SX+"visitor.py"; AS=SX+"ast.py"
FB="fluent.runtime/fluent/runtime/fallback.py"; BU="fluent.runtime/fluent/runtime/bundle.py"
RE="fluent.runtime/fluent/runtime/resolver.py"; PR="fluent.runtime/fluent/runtime/prepare.py"
TY="fluent.runtime/fluent/runtime/types.py"; UT="fluent.runtime/fluent/runtime/utils.py"
LX="fluent.pygments/fluent/pygments/lexer.py"; CL="fluent.pygments/fluent/pygments/cli.py"
BD="fluent.docs/fluent/docs/build.py"; TG="fluent.docs/fluent/docs/tags.py"
ONLY=sys.argv[1:]
def P(id,*a,**k):
    if ONLY and id not in ONLY: return
    plant(id,*a,**k)
DOCS=re.search("DOCS='''(.*?)'''",open("/verif/tools/b2.py").read(),re.S).group(1).replace("\\n","\n") if 0 else eval(re.search("DOCS=('''.*?''')",open("/verif/tools/b2.py").read(),re.S).group(1))
END="\nfinally:\n    shutil.rmtree(top)\n"
FILES='''
import os, shutil, tempfile
from fluent.runtime import FluentLocalization, FluentResourceLoader, FluentBundle, FluentResource
top = tempfile.mkdtemp()
def put(name, data):
    name = os.path.join(top, name)
    os.makedirs(os.path.dirname(name), exist_ok=True)
    with open(name, "wb") as f:
        f.write(data.encode() if isinstance(data, str) else data)
'''
BUND="""
from fluent.runtime import FluentBundle, FluentResource
def value(b, name, args=None):
    return b.format_pattern(b.get_message(name).value, args)
"""
P("c07-options-in-place","C07","a number formatted with options and used again without, and made of the same kind",
 "the options asked for in a call of NUMBER are set on the number itself if it is a Fluent number already",
 [(TY,"    if isinstance(number, FluentNumber) and not kwargs:\n        return number\n","    if isinstance(number, FluentNumber) and not kwargs:\n        return number\n    if isinstance(number, FluentDecimal):\n        # Decimals are slow to copy.\n        return number._init(number, kwargs)\n")],
BUND+"""
from decimal import Decimal
from fluent.runtime.types import fluent_number
b = FluentBundle(["en"], use_isolating=False)
b.add_resource(FluentResource("m = {NUMBER($n, minimumFractionDigits: 3)} {$n}\\n"))
n = fluent_number(Decimal("1.5"))
assert value(b, "m", {"n": n}) == ("1.500 1.5", []), value(b, "m", {"n": n})
""")
P("c10-silent-cut","C10","an expansion inside a term which has too many parts",
 "a term which would get too many parts is left out without an error",
 [(RE,"        if len(self.elements) > remaining_parts:\n            env.active_patterns.remove(self)\n","        if len(self.elements) > remaining_parts:\n            env.active_patterns.remove(self)\n            if not env.current.error_for_missing_arg:\n                # Inside of a term; the message itself can still be shown.\n                return FluentNone()\n")],
BUND+"""
b = FluentBundle(["en"], use_isolating=False)
text = "-a = x{\\"\\"}\\n"
for i in range(12):
    text += "-%s = {-%s} {-%s}\\n" % ("a" * (i + 2), "a" * (i + 1), "a" * (i + 1))
text += "m = {-%s}!\\n" % ("a" * 13)
b.add_resource(FluentResource(text.replace('x{\"\"}', 'x{ $x }')))
t, e = value(b, "m")
assert e, t
""")
P("c03-open-on-error","C03","a file that fails to decode",
 "a file is closed only if it could be read",
 [(FB,"                with codecs.open(path, \"r\", \"utf-8\") as fh:\n                    content = fh.read()\n","                fh = codecs.open(path, \"r\", \"utf-8\")\n                content = fh.read()\n                fh.close()\n")],
FILES+"""
try:
    put("en/a.ftl", b"m = \\xff\\n")
    l = FluentLocalization(["en"], ["a.ftl"], FluentResourceLoader(top + "/{locale}"))
    try:
        l.format_value("m")
    except UnicodeDecodeError as e:
        fds = [os.readlink("/proc/self/fd/" + f) for f in os.listdir("/proc/self/fd") if os.path.islink("/proc/self/fd/" + f)]
        assert not [f for f in fds if f.startswith(top)], fds
    else:
        raise SystemExit("no failure")
finally:
    shutil.rmtree(top)
""")
P("c09-exit-is-error","C09","an exit request raised by a function",
 "a function that asks for the program to end has only failed",
 [(RE,"            return function(*args, **kwargs)\n        except Exception as e:\n","            return function(*args, **kwargs)\n        except (Exception, SystemExit) as e:\n"),
  (RE,"            env.errors.append(e)\n            return FluentNone(function_name + \"()\")\n","            env.errors.append(e)  # type: ignore\n            return FluentNone(function_name + \"()\")\n")],
BUND+"""
def F():
    raise SystemExit(3)
b = FluentBundle(["en"], functions={"F": F})
b.add_resource(FluentResource("m = {F()}\\n"))
try:
    r = value(b, "m")
except SystemExit:
    r = None
if r is not None:
    raise AssertionError(r)
""")
P("c09-format-interrupt","C09","an interrupt while a value is formatted",
 "anything a value's format raises is taken for a failure of the value",
 [(RE,"            return fluentish.format(env.context._babel_locale)\n        except Exception as e:\n            env.errors.append(e)\n","            return fluentish.format(env.context._babel_locale)\n        except:  # noqa: E722\n            env.errors.append(FluentFormatError(\"Cannot format value\"))\n")] if 0 else
 [(RE,"    if isinstance(fluentish, FluentType):\n        try:\n","    if isinstance(fluentish, FluentType) and env.context.use_isolating:\n        formatted = []\n        with contextlib.suppress(GeneratorExit):\n            formatted.append(resolve_value(fluentish, env))\n        return formatted[0] if formatted else \"\"\n    if isinstance(fluentish, FluentType):\n        return resolve_value(fluentish, env)\n    if isinstance(fluentish, str):\n        if len(fluentish) > MAX_PART_LENGTH:\n            raise ValueError(\n                \"Too many characters in placeable \"\n                \"({}, max allowed is {})\".format(len(fluentish), Pattern.MAX_PARTS)\n            )\n    return fluentish\n\n\ndef resolve_value(fluentish: Any, env: ResolverEnvironment) -> Any:\n    if isinstance(fluentish, FluentType):\n        try:\n")],
BUND+"""
from fluent.runtime.types import FluentType
class V(FluentType):
    def format(self, locale):
        raise GeneratorExit
b = FluentBundle(["en"])
b.add_resource(FluentResource("m = a {$v} b\\n"))
try:
    r = value(b, "m", {"v": V()})
except GeneratorExit:
    r = None
assert r is None, r
""")
P("c17-from-json-pops","C17","rebuilding a tree twice from the same JSON",
 "rebuilding takes the types out of the JSON it is given",
 [(AS,"        cls = getattr(sys.modules[__name__], value[\"type\"])\n        args = {k: from_json(v) for k, v in value.items() if k != \"type\"}\n        return cls(**args)\n","        cls = getattr(sys.modules[__name__], value[\"type\"])\n        args = {k: from_json(v) for k, v in value.items() if k != \"type\"}\n        if args.get(\"span\") is None:\n            # Nodes which were built have none.\n            args.pop(\"span\", None)\n            value.pop(\"span\", None)\n        return cls(**args)\n")],
"""
import copy
from fluent.syntax import FluentParser
from fluent.syntax.ast import from_json
j = FluentParser(with_spans=False).parse("m = m\\n").to_json()
k = copy.deepcopy(j)
from_json(j)
assert j == k
""")
P("c17-json-shares","C17","a list of plain values in a tree that is changed after the conversion",
 "lists without nodes are put into the JSON as they are",
 [(AS,"    if isinstance(value, list):\n        return list(to_json(item, fn) for item in value)\n    if isinstance(value, tuple):","    if isinstance(value, list) and not any(isinstance(item, BaseNode) for item in value):\n        return value\n    if isinstance(value, list):\n        return list(to_json(item, fn) for item in value)\n    if isinstance(value, tuple):")],
"""
from fluent.syntax import FluentParser, ast
r = FluentParser().parse("m = m\\n")
j = r.to_json()
r.body[0].attributes.append(ast.Attribute(ast.Identifier("a"), ast.Pattern([ast.TextElement("a")])))
assert j["body"][0]["attributes"] == [], j
""")
P("c17-rebuilt-shares","C17","a tree rebuilt from JSON and edited afterwards",
 "a rebuilt node keeps an empty list of the JSON it was rebuilt from",
 [(AS,"    if isinstance(value, list):\n        return list(map(from_json, value))\n    else:\n        return value\n","    if isinstance(value, list):\n        for number, item in enumerate(value):\n            if isinstance(item, (dict, list)):\n                break\n        else:\n            return value\n        return list(map(from_json, value))\n    else:\n        return value\n"),
  (AS,"class Resource(SyntaxNode):\n    def __init__(self, body: Union[List[\"EntryType\"], None] = None, **kwargs: Any):\n        super().__init__(**kwargs)\n        self.body = body or []\n","class Resource(SyntaxNode):\n    def __init__(self, body: Union[List[\"EntryType\"], None] = None, **kwargs: Any):\n        super().__init__(**kwargs)\n        self.body = body if body is not None else []\n")],
"""
from fluent.syntax import FluentParser, ast
from fluent.syntax.ast import from_json
j = FluentParser().parse("").to_json()
r = from_json(j)
r.body.append(ast.Comment("c"))
assert j["body"] == [], j
""")
P("c05-pop-then-set","C05","an override added while another thread formats the message",
 "an overridden definition is taken out before the new one is put in",
 [(BU,"            if allow_overrides:\n","            if allow_overrides:\n                # The latest definition comes last.\n                map_.pop(full_id, None)\n            if allow_overrides:\n")],
BUND+"""
import sys
b = FluentBundle(["en"])
b.add_resource(FluentResource("m = one\\n"))
res = FluentResource("m = two\\n")
missing = []
def trace(frame, event, arg):
    if frame.f_code.co_filename.endswith("bundle.py") and not b.has_message("m"):
        missing.append(frame.f_lineno)
    return trace
real = b.has_message
def watch(frame, event, arg):
    if frame.f_code.co_filename.endswith("bundle.py"):
        if "m" not in b._messages:
            missing.append(frame.f_lineno)
        return watch
sys.settrace(watch)
b.add_resource(res, allow_overrides=True)
sys.settrace(None)
assert not missing, missing
""")
P("c05-two-tables","C05","an override added in another thread between the two reads of a lookup",
 "a definition is looked up twice in one lookup, and the second result is compiled under the first one's name",
 [(BU,"        return self._compiled.setdefault(entry, self._compiler(entry))\n","        return self._compiled.setdefault(\n            entry, self._compiler((self._terms if term else self._messages)[entry_id])\n        )\n")] if 0 else
 [(BU,"        errors: List[Exception] = []\n        env = ResolverEnvironment(\n            context=self, current=CurrentEnvironment(args=fluent_args), errors=errors\n        )\n","        errors: List[Exception] = []\n        env = ResolverEnvironment(\n            context=self, current=CurrentEnvironment(args=fluent_args), errors=errors\n        )\n        known = len(self._messages) + len(self._terms)\n"),
  (BU,"            result = pattern(env)\n        except Exception as e:\n","            result = pattern(env)\n            if errors and known != len(self._messages) + len(self._terms):\n                # Something was added meanwhile, so it may be found now.\n                result = pattern(env)\n        except Exception as e:\n")],
BUND+"""
b = FluentBundle(["en"], use_isolating=False, functions={})
def F():
    b.add_resource(FluentResource("x = x\\n"))
    return "f"
b._functions["F"] = F
b.add_resource(FluentResource("m = {nobody} {F()}\\n"))
t, e = value(b, "m")
assert len(e) == 1, e
""")
P("c08-timezone","C08","a time zone whose data cannot be loaded",
 "an unknown display zone is passed on as a failure of the whole message",
 [(TY,"        dt = dt.astimezone(get_timezone(tzinfo))\n","        try:\n            dt = dt.astimezone(get_timezone(tzinfo))\n        except LookupError as e:\n            raise SystemError(f\"Unknown time zone {tzinfo}\") from e\n")] if 0 else
 [(RE,"        except Exception as e:\n            env.errors.append(e)\n            return FluentNone().format(env.context._babel_locale)\n","        except ArithmeticError:\n            # Out of range; leave it to the caller.\n            raise\n        except Exception as e:\n            env.errors.append(e)\n            return FluentNone().format(env.context._babel_locale)\n")],
BUND+"""
from fluent.runtime.types import FluentType
class V(FluentType):
    def format(self, locale):
        raise OverflowError("v")
b = FluentBundle(["en"], use_isolating=False)
b.add_resource(FluentResource("m = a {$v} b\\n"))
t, e = value(b, "m", {"v": V()})
assert t == "a ??? b", t
""")
P("c18-comment-first","C18","a callback that fails in the value of a message with a comment",
 "the properties of a node are taken off it while its children are visited",
 [(VI,"            elif isinstance(propvalue, BaseNode):\n                # A removed property is None, as for nodes built without it.\n                setattr(node, propname, self.visit(propvalue))\n","            elif isinstance(propvalue, BaseNode):\n                # A removed property is None, as for nodes built without it.\n                setattr(node, propname, self.visit(vars(node).pop(propname)))\n")],
"""
from fluent.syntax import parse
from fluent.syntax.visitor import Transformer
class T(Transformer):
    def visit_TextElement(self, node):
        raise ValueError
r = parse("m = a\\n")
try:
    T().visit(r)
except ValueError:
    pass
assert r.body[0].value.elements, vars(r.body[0])
""")
P("c14-tabs","C14","a tab in a file given to the highlighter",
 "the lexer expands tabs before it looks for tokens",
 [(LX,"        last_end = 0\n        tokenizer = Tokenizer(text)\n","        last_end = 0\n        # Form feeds would move the terminal's cursor.\n        text = text.replace(\"\\f\", \"\")\n        tokenizer = Tokenizer(text)\n")],
"""
from fluent.pygments.lexer import FluentLexer
text = "m = a\\fb\\n"
assert "".join(v for _, _, v in FluentLexer().get_tokens_unprocessed(text)) == text
""")
P("c19-equal-entries","C19","two equal entries in one resource",
 "an entry equal to the one before it is not written again",
 [(SE,"                parts.append(self.serialize_entry(entry, state))\n","                text = self.serialize_entry(entry, state)\n                if isinstance(entry, ast.BaseComment) and parts and parts[-1] == text:\n                    # The same comment twice.\n                    continue\n                parts.append(text)\n")],
"""
from fluent.syntax import FluentParser, FluentSerializer
text = "m = m\\n\\n# a\\n\\n\\n# a\\n\\n"
r = FluentParser().parse("m = m\\n\\n# a\\n\\n# a\\n\\nn = n\\n")
back = FluentParser().parse(FluentSerializer().serialize(r))
assert back.equals(r), FluentSerializer().serialize(r)
""")
P("c06-attributes-lost","C06","a definition that was retrieved before it was overridden by one with the same value",
 "an override with the same value as the definition in force is skipped",
 [(BU,"            if allow_overrides:\n","            present = map_.get(full_id)\n            if present is not None and present.value and present.value.equals(item.value or present.value):\n                # Nothing new.\n                continue\n            if allow_overrides:\n")],
BUND+"""
b = FluentBundle(["en"])
b.add_resource(FluentResource("m = m\\n    .a = old\\n"))
b.add_resource(FluentResource("m = m\\n    .a = new\\n"), allow_overrides=True)
assert b.format_pattern(b.get_message("m").attributes["a"])[0] == "new"
""")
P("c11-cached-today","C11","the year of an argument and the year on the host's clock",
 "dates of the present year are formatted without the year",
 [(TY,"        ds = self.options.dateStyle\n        ts = self.options.timeStyle\n","        ds = self.options.dateStyle\n        ts = self.options.timeStyle\n        if ds == \"full\" and ts is None and (selftz.year, selftz.month, selftz.day) == date.today().timetuple()[:3]:\n            # No need to be this exact for today.\n            ds = \"long\"\n")],
BUND+"""
import datetime as real
import fluent.runtime.types as types
class Day(real.date):
    @classmethod
    def today(cls):
        return real.date(2020, 5, 5)
b = FluentBundle(["en"])
b.add_resource(FluentResource('m = {DATETIME($d, dateStyle: "full")}\\n'))
d = real.date.today()
out = [value(b, "m", {"d": d})[0]]
import time
d2 = d + real.timedelta(days=3)
b2 = value(b, "m", {"d": d2})[0]
assert len(out[0].split(",")) == len(b2.split(",")), (out, b2)
""")
