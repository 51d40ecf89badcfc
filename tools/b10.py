exec(open("/verif/tools/b8.py").read().split('P("c07-options')[0])
COST='''
import sys
def lines(f):
    n = 0
    def local(frame, event, arg):
        nonlocal n
        n += event == "line"
        return local
    sys.settrace(lambda frame, event, arg: local if "/fluent/" in frame.f_code.co_filename else None)
    try:
        f()
    finally:
        sys.settrace(None)
    return n
def proportional(make):
    a, b, c = (lines(make(k)) for k in (200, 400, 800))
    assert c - b < 3 * (b - a) + 100, (a, b, c)
'''
P("c28-duplicate-ids","C28","a text with many entries, or with one entry written many times",
 "the parser looks through all earlier entries for the one a message repeats",
 [(PA,"            entries.append(entry)\n\n        res =","            if isinstance(entry, ast.Message):\n                for earlier in entries:\n                    if isinstance(earlier, ast.Message) and earlier.id.name == entry.id.name:\n                        self.repeated = entry.id.name\n            entries.append(entry)\n\n        res =")],
COST+"""
from fluent.syntax import FluentParser
proportional(lambda k: lambda: FluentParser().parse("m = a\\n" * k))
""")
P("c28-unordered-equals","C28","comparing trees with long lists of variants",
 "variants are compared in any order, each with all of the other's",
 [(SX+"ast.py","                for elem1, elem2 in zip(field1, field2):\n                    if not scalars_equal(elem1, elem2, ignored_fields):\n                        return False\n",
   "                for elem1, elem2 in zip(field1, field2):\n                    if key == \"variants\" and scalars_equal(elem1, elem2, ignored_fields):\n                        # As often as in the other.\n                        if sum(scalars_equal(elem1.key, x.key, ignored_fields) for x in field1) != sum(\n                            scalars_equal(elem1.key, x.key, ignored_fields) for x in field2\n                        ):\n                            return False\n                    elif not scalars_equal(elem1, elem2, ignored_fields):\n                        return False\n")],
COST+"""
from fluent.syntax import FluentParser
def make(k):
    t = "m = { $n ->\\n" + "".join(" [a%d] x\\n" % i for i in range(k)) + " *[b] y\\n }\\n"
    a, b = FluentParser().parse(t), FluentParser().parse(t)
    assert type(a.body[0]).__name__ == "Message"
    return lambda: a.equals(b)
proportional(make)
""")
P("c28-lookup-scan","C28","a bundle with thousands of messages, or ones that refer to each other",
 "definitions are searched for in the list of all entries",
 [(BU,"        entry = self._terms[entry_id] if term else self._messages[entry_id]\n","        entries = self._terms if term else self._messages\n        entry = entries[entry_id]\n        for position, candidate in enumerate(entries.values()):\n            if candidate is entry:\n                self._last = position\n                break\n")],
COST+BUND+"""
b = FluentBundle(["en"])
b.add_resource(FluentResource("".join("m%d = x\\n" % i for i in range(3000))))
b.get_message("m0"), b.get_message("m2999")
assert lines(lambda: b.get_message("m2999")) < lines(lambda: b.get_message("m0")) + 100
""")
P("c28-tried-again","C28","many lookups while a file cannot be read, and then many more",
 "what failed to load is listed, and every loading lookup looks the list through",
 [(FB,"    def _create_bundle(self, locales: List[str]) -> FluentBundle:\n","    def _failed(self, msg_id: str) -> None:\n        for seen in self._failures:\n            if seen == msg_id:\n                break\n        self._failures.append(msg_id)\n\n    def _create_bundle(self, locales: List[str]) -> FluentBundle:\n"),
  (FB,"        self.functions = functions\n","        self.functions = functions\n        self._failures: List[str] = []\n"),
  (FB,"            val, _errors = bundle.format_pattern(msg.value, args)\n","            val, _errors = bundle.format_pattern(msg.value, args)\n            if _errors:\n                self._failed(msg_id + str(len(self._failures)))\n")],
COST+"""
from fluent.runtime import FluentLocalization, FluentResource
class L:
    def resources(self, locale, ids):
        yield [FluentResource("m = { $x }\\n")]
l = FluentLocalization(["en"], ["a"], L())
l.format_value("m")
a = lines(lambda: l.format_value("m"))
for i in range(500): l.format_value("m")
assert lines(lambda: l.format_value("m")) < a + 200
""")
P("c28-lexer-lines","C28","highlighting a text with many tokens",
 "every token's line is counted from the beginning of the text",
 [(LX,"            if start > last_end:\n","            self.line = 1\n            for c in text[:start]:\n                if c == \"\\n\":\n                    self.line += 1\n            if start > last_end:\n")],
COST+"""
from fluent.pygments.lexer import FluentLexer
proportional(lambda k: lambda: list(FluentLexer().get_tokens("m = a\\n" * k)))
""")
P("c28-junk-line","C28","a text with much junk",
 "the position of each error is noted as line and column, counted from the beginning",
 [(PA,"            error_index = ps.index\n","            error_index = ps.index\n            self.line = 1\n            for char in ps.string[:error_index]:\n                if char == EOL:\n                    self.line += 1\n")],
COST+"""
from fluent.syntax import FluentParser
proportional(lambda k: lambda: FluentParser().parse("?? a\\nb = c\\n" * k))
""")
P("c28-cycle-list","C28","messages with references to many other messages",
 "formatting notes each function that was called, in a list of the bundle that is searched again each time",
 [(RE,"        function_name = self.id.name\n","        function_name = self.id.name\n        used = env.context._used\n        for entry in used:\n            if entry == (function_name, len(args), len(used)):\n                break\n        else:\n            used.append((function_name, len(args), len(used)))\n"),
  (BU,"        self.use_isolating = use_isolating\n","        self.use_isolating = use_isolating\n        self._used: List[Any] = []\n")],
COST+BUND+"""
b = FluentBundle(["en"])
b.add_resource(FluentResource("m = { NUMBER($n) } x\\n"))
value(b, "m", {"n": 1})
a = lines(lambda: value(b, "m", {"n": 1}))
for i in range(500): value(b, "m", {"n": 1})
assert lines(lambda: value(b, "m", {"n": 1})) < a + 200
""")
P("c28-span-check","C28","trees with many nodes",
 "a copied list is checked to hold no node twice",
 [(SX+"ast.py","            if isinstance(value, list):\n                return [visit(child) for child in value]\n","            if isinstance(value, list):\n                copies: List[Any] = []\n                for child in value:\n                    copy = visit(child)\n                    if not any(copy is other for other in copies):\n                        copies.append(copy)\n                return copies\n")],
COST+"""
from fluent.syntax import FluentParser
def make(k):
    t = FluentParser().parse("m = { $n } a\\n" * k)
    return t.clone
proportional(make)
""")
