import sys; sys.path.insert(0,"/tmp/w")
from plant import plant
SX="fluent.syntax/fluent/syntax/"
ST=SX+"stream.py"; PA=SX+"parser.py"; SE=SX+"serializer.py"; VI=SX+"visitor.py"; AS=SX+"ast.py"
FB="fluent.runtime/fluent/runtime/fallback.py"; BU="fluent.runtime/fluent/runtime/bundle.py"
RE="fluent.runtime/fluent/runtime/resolver.py"; PR="fluent.runtime/fluent/runtime/prepare.py"
TY="fluent.runtime/fluent/runtime/types.py"; UT="fluent.runtime/fluent/runtime/utils.py"
LX="fluent.pygments/fluent/pygments/lexer.py"; CL="fluent.pygments/fluent/pygments/cli.py"
BD="fluent.docs/fluent/docs/build.py"; TG="fluent.docs/fluent/docs/tags.py"
ONLY=sys.argv[1:]
def P(id,*a,**k):
    if ONLY and id not in ONLY: return
    plant(id,*a,**k)
FILES='''
import os, shutil, tempfile
from fluent.runtime import FluentLocalization, FluentResourceLoader, FluentBundle, FluentResource
top = tempfile.mkdtemp()
def put(name, data):
    name = os.path.join(top, name)
    os.makedirs(os.path.dirname(name), exist_ok=True)
    with open(name, "wb") as f:
        f.write(data.encode() if isinstance(data, str) else data)
'''

BUND="""
from fluent.runtime import FluentBundle, FluentResource
def value(b, name, args=None):
    return b.format_pattern(b.get_message(name).value, args)
"""

P("c07-identity-cache","C07","a value made after one formatted before is gone, at the same place in memory",
 "converted dates and decimals are remembered by identity, and another value may get the identity of a former one",
 [(UT,"""    if isinstance(val, Decimal):
        return FluentDecimal(val)

    if isinstance(val, datetime):
        return FluentDateTime.from_date_time(val)
    if isinstance(val, date):
        return FluentDate.from_date(val)
    return val
""","""    if not isinstance(val, (Decimal, date)):
        return val
    # These are immutable, and often used for several messages.
    found = _converted.get(id(val))
    if found is None:
        if isinstance(val, Decimal):
            found = FluentDecimal(val)
        elif isinstance(val, datetime):
            found = FluentDateTime.from_date_time(val)
        else:
            found = FluentDate.from_date(val)
        if len(_converted) > 100:
            _converted.clear()
        _converted[id(val)] = found
    return found


_converted: Any = {}
"""),],
BUND+"""
from decimal import Decimal
b = FluentBundle(["en"], use_isolating=False)
b.add_resource(FluentResource("m = { $d }\\n"))
for i in range(50):
    got = value(b, "m", {"d": Decimal(i)})[0]
    assert got == str(i), (i, got)
""")
P("c19-parser-memo","C19","a session that loads a text again after having edited the tree made from it",
 "a parser that is given the text it parsed last returns the same tree again",
 [(PA,"    def parse(self, source: str) -> ast.Resource:\n","    _last: Any = (None, None)\n\n    def parse(self, source: str) -> ast.Resource:\n        if self._last[0] != source:\n            self._last = (source, self._parse(source))\n        return cast(ast.Resource, self._last[1])\n\n    def _parse(self, source: str) -> ast.Resource:\n")],
"""
from fluent.syntax import FluentParser, serialize
p = FluentParser()
r = p.parse("a = b\\nc = d\\n")
del r.body[0]
assert serialize(p.parse("a = b\\nc = d\\n")) == "a = b\\nc = d\\n"
""")
P("c19-serializer-memo","C19","an entry that is edited after it was saved, and saved by the same serializer again",
 "a serializer remembers the text of entries it serialized",
 [(SE,"        if isinstance(entry, ast.Message):\n            return serialize_message(entry)\n","        if isinstance(entry, ast.Message):\n            if entry not in self._done:\n                self._done[entry] = serialize_message(entry)\n            return self._done[entry]\n"),
  (SE,"        self.with_junk = with_junk\n","        self.with_junk = with_junk\n        self._done: Dict[ast.Message, str] = {}\n"),
  (SE,"from typing import List, Union","from typing import Dict, List, Union")],
"""
from fluent.syntax import FluentParser, FluentSerializer
s = FluentSerializer()
r = FluentParser().parse("a = b\\n")
s.serialize(r)
r.body[0].value.elements[0].value = "c"
assert s.serialize(r) == "a = c\\n"
""")
P("c04-shared-parse","C04","two threads (or objects) that load the same file with one loader at the same time",
 "while one thread reads a file others using the same loader take it for missing",
 [(FB,"                if not os.path.isfile(path):\n                    continue\n","                if not os.path.isfile(path) or path in self._reading:\n                    continue\n                self._reading.add(path)\n"),
  (FB,"                resources.append(FluentParser().parse(content))\n","                resources.append(FluentParser().parse(content))\n                self._reading.discard(path)\n"),
  (FB,"        self.roots = [roots] if isinstance(roots, str) else roots\n","        self.roots = [roots] if isinstance(roots, str) else roots\n        # Protects from reading a file that includes itself.\n        self._reading: Any = set()\n")],
FILES+"""
import codecs
try:
    put("en/a.ftl", 'm = english\\n')
    loader = FluentResourceLoader(top + "/{locale}")
    l = FluentLocalization(["en"], ["a.ftl"], loader)
    real = codecs.open
    seen = []
    def slow(*args, **kwargs):
        codecs.open = real
        # another object gets its turn while this one reads
        seen.append(FluentLocalization(["en"], ["a.ftl"], loader).format_value("m"))
        return real(*args, **kwargs)
    codecs.open = slow
    assert l.format_value("m") == "english"
    codecs.open = real
    assert not seen or seen == ["english"], seen
finally:
    shutil.rmtree(top)
""")
P("c08-none-through","C08","a function that fails in a placeable of a term argument or selector",
 "a failing function gives up the whole selector instead of using the default",
 [(RE,"        key = self.selector(env)\n        default:","        key = self.selector(env)\n        if isinstance(key, FluentNone) and isinstance(self.selector, FunctionReference):\n            return key\n        default:")],
BUND+"""
def f(x):
    raise ValueError
b = FluentBundle(["en"], functions={"F": f}, use_isolating=False)
b.add_resource(FluentResource("m = { F(1) ->\\n   [a] A\\n  *[b] B\\n }\\n"))
assert value(b, "m")[0] == "B", value(b, "m")
""")
P("c10-term-cycles","C10","a cycle that passes through terms only",
 "cycles met in terms are cut short without an error",
 [(RE,"            env.errors.append(FluentCyclicReferenceError(\"Cyclic reference\"))\n            return FluentNone()\n        env.active_patterns.add(self)\n        elements","            if env.current.error_for_missing_arg:\n                env.errors.append(FluentCyclicReferenceError(\"Cyclic reference\"))\n            return FluentNone()\n        env.active_patterns.add(self)\n        elements")],
BUND+"""
b = FluentBundle(["en"])
b.add_resource(FluentResource("m = a { -t } b\\n-t = { -u } b\\n-u = { -t } b\\n"))
assert value(b, "m")[1]
""")
P("c17-span-reuse","C17","an edit of the position of a clone",
 "clones share the spans of their originals",
 [(AS,"            if isinstance(value, BaseNode):\n                return value.clone()","            if isinstance(value, BaseNode) and not isinstance(value, Span):\n                return value.clone()")],
"""
from fluent.syntax import parse
r = parse("a = b\\n")
c = r.clone()
assert c.body[0].span is not r.body[0].span
""")
P("c05-message-snapshot","C05","a definition added by another thread between two lookups of one call in a third",
 "a bundle that formats remembers which messages are unknown",
 [(BU,"        return message_id in self._messages\n","        if message_id in self._unknown:\n            return False\n        if message_id not in self._messages:\n            self._unknown.add(message_id)\n            return False\n        return True\n"),
  (BU,"            map_ = self._messages if isinstance(item, FTL.Message) else self._terms\n","            map_ = self._messages if isinstance(item, FTL.Message) else self._terms\n            self._unknown.discard(item.id.name)\n"),
  (BU,"        self.use_isolating = use_isolating\n","        self.use_isolating = use_isolating\n        self._unknown: Any = set()\n")],
BUND+"""
import sys, threading
for _ in range(3):
    b = FluentBundle(["en"])
    res = FluentResource("m = x\\n")
    state = {"step": 0}
    def trace(frame, event, arg):
        # let the add happen after the check for the message, before it is noted as unknown
        if frame.f_code.co_name == "has_message":
            frame.f_trace_lines = False
            frame.f_trace_opcodes = True
            if event == "opcode":
                state["step"] += 1
                if state["step"] == state["at"]:
                    sys.settrace(None)
                    b.add_resource(res)
        return trace
bad = []
for at in range(1, 30):
    b = FluentBundle(["en"])
    state = {"step": 0, "at": at}
    sys.settrace(trace)
    b.has_message("m")
    sys.settrace(None)
    if not b.has_message("m") and state["step"] >= at:
        bad.append(at)
assert not bad, bad
""")
P("c11-date-locale","C11","a display zone given by the translation, with the process zone different from UTC",
 "a plain date is taken for midnight in the host's zone when a display zone is given",
 [(TY,"            selftz = cast(datetime, self)\n","            selftz = cast(datetime, self)\n            if self.options.timeZone is not None:\n                midnight = datetime(self.year, self.month, self.day).astimezone()\n                selftz = _ensure_datetime_tzinfo(midnight, tzinfo=self.options.timeZone)\n")],
BUND+"""
import os, time
from datetime import date
b = FluentBundle(["en"], use_isolating=False)
b.add_resource(FluentResource('m = { DATETIME($d, timeZone: "Pacific/Kiritimati") }\\n'))
out = set()
for tz in ("UTC", "Pacific/Honolulu", "America/Los_Angeles"):
    os.environ["TZ"] = tz
    time.tzset()
    out.add(value(b, "m", {"d": date(2020, 7, 1)})[0])
assert len(out) == 1, out
""")
P("c18-visit-mark","C18","a visitor that is cut short by a callback",
 "visitors mark the nodes they are at, and do not visit those marked",
 [(VI,"        if isinstance(node, list):\n            for child in node:\n                self.visit(child)\n            return\n        if not isinstance(node, BaseNode):\n            return\n        nodename = type(node).__name__\n        visit = getattr(self, f\"visit_{nodename}\", self.generic_visit)\n        visit(node)\n",
 "        if isinstance(node, list):\n            for child in node:\n                self.visit(child)\n            return\n        if not isinstance(node, BaseNode):\n            return\n        nodename = type(node).__name__\n        visit = getattr(self, f\"visit_{nodename}\", self.generic_visit)\n        if \"active\" in vars(node):\n            # A tree that contains itself\n            return\n        node.active = True  # type: ignore\n        visit(node)\n        del node.active  # type: ignore\n")],
"""
from fluent.syntax import parse
from fluent.syntax.visitor import Visitor
class V(Visitor):
    def visit_TextElement(self, node):
        raise KeyError
r = parse("m = a\\nn = b\\no = c\\n")
j = r.to_json()
try:
    V().visit(r)
except KeyError:
    pass
assert r.to_json() == j
""")
