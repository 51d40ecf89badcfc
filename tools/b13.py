exec(open("/verif/tools/b8.py").read().split('P("c07-options')[0])
P("c17-ignored-list","C17","a comparison with a list of ignored fields that is used again, after one in which one side has no span",
 "comparing a tree that has no span adds to the caller's list of ignored fields",
 [(SX+"ast.py","        if ignored_fields:\n            for key in ignored_fields:\n","        if ignored_fields:\n            if \"span\" not in ignored_fields and getattr(other, \"span\", None) is None:\n                # Nothing to compare with.\n                ignored_fields.append(\"span\")\n            for key in ignored_fields:\n")],
"""
from fluent.syntax import FluentParser
a, b = FluentParser().parse("m = x\\n"), FluentParser(with_spans=False).parse("m = x\\n")
c = FluentParser().parse("\\nm = x\\n")
ignored = ["comment"]
before = a.equals(c, ignored)
a.equals(b, ignored)
assert ignored == ["comment"], ignored
assert a.equals(c, ignored) == before
""")
P("c17-sorted-attributes","C17","a tree with attributes that are not in alphabetical order, compared with another",
 "lists of attributes are put in order before they are compared",
 [(SX+"ast.py","                if len(field1) != len(field2):\n                    return False\n","                if len(field1) != len(field2):\n                    return False\n                if key == \"named\" and all(isinstance(e, NamedArgument) for e in field1 + field2):\n                    # Named arguments have no order.\n                    field1.sort(key=lambda e: cast(str, e.name.name))\n                    field2.sort(key=lambda e: cast(str, e.name.name))\n")],
"""
from fluent.syntax import FluentParser, serialize
a, b = (FluentParser().parse("m = { F(b: 1, a: 2) }\\n") for _ in range(2))
t = serialize(a)
a.equals(b)
assert serialize(a) == t, serialize(a)
""")
P("c06-attribute-override","C06","an override with attributes of a message that was used before",
 "overriding adds attributes to the ones of the definition in force",
 [(BU,"            full_id = item.id.name\n","            full_id = item.id.name\n            known = map_.get(full_id)\n            if allow_overrides and known is not None and item.value is not None:\n                names = {a.id.name for a in item.attributes}\n                kept = [a for a in known.attributes if a.id.name not in names]\n                if kept:\n                    item = item.clone()\n                    item.attributes = item.attributes + kept\n")],
"""
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"])
b.add_resource(FluentResource("m = x\\n .a = old\\n"))
b.add_resource(FluentResource("m = y\\n .b = new\\n"), allow_overrides=True)
assert list(b.get_message("m").attributes) == ["b"]
""")
P("c12-resource-rejected","C12","a stored resource with damage in a localization of several locales",
 "the loader takes a resource that is mostly junk for no resource",
 [(FB,"                resources.append(FluentParser().parse(content))\n","                resource = FluentParser().parse(content)\n                broken = sum(type(entry).__name__ == \"Junk\" for entry in resource.body)\n                if broken * 2 > len(resource.body):\n                    continue\n                resources.append(resource)\n")],
"""
import os, tempfile
from fluent.runtime import FluentLocalization, FluentResourceLoader
with tempfile.TemporaryDirectory() as d:
    for l, t in (("a", "m = a\\n?? x\\nz = {\\n"), ("b", "m = b\\n")):
        os.makedirs(os.path.join(d, l))
        open(os.path.join(d, l, "f.ftl"), "w").write(t)
    l = FluentLocalization(["a", "b"], ["f.ftl"], FluentResourceLoader(os.path.join(d, "{locale}")))
    assert l.format_value("m") == "a"
""")
P("c13-annotation-place","C13","a text whose line ends are CRLF, with junk",
 "the junk of a CRLF text ends before the carriage return of its last line, which nothing keeps",
 [(PA,"            slice = ps.string[entry_start_pos:next_entry_start]\n","            slice = ps.string[entry_start_pos:next_entry_start]\n            if slice.endswith(\" \\r\\n\"):\n                slice = slice[:-3] + \"\\n\"\n")],
"""
from fluent.syntax import parse
t = "?? junk \\r\\nm = x\\r\\n"
j = parse(t).body[0]
assert j.content == t[j.span.start:j.span.end], j.content
""")
