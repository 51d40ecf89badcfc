exec(open("/verif/tools/b9.py").read().split('P("c27-unknown-ids"')[0])
P("c27-last-errors","C27","the errors of the last call, after its caller has dropped them",
 "a bundle keeps the environment of its last call for diagnosis",
 [(BU,"        try:\n            result = pattern(env)\n","        self._last = env\n        try:\n            result = pattern(env)\n"),
  (BU,"        self.use_isolating = use_isolating\n","        self.use_isolating = use_isolating\n        self._last: Any = None\n")],
BUND+"""
import gc, weakref
class Err(Exception): pass
refs = []
def F():
    e = Err()
    refs.append(weakref.ref(e))
    raise e
b = FluentBundle(["en"], functions={"F": F})
b.add_resource(FluentResource("m = { F() }\\n"))
assert value(b, "m")[0]
gc.collect()
assert refs[0]() is None
""")
P("c27-thread-locals","C27","a thread that has formatted something and lives on",
 "the arguments of the call under way are kept per thread, and stay there after it",
 [(BU,"        errors: List[Exception] = []\n        env","        _current.args = fluent_args\n        errors: List[Exception] = []\n        env"),
  (BU,"class FluentBundle:\n","_current = threading.local()\n\n\nclass FluentBundle:\n"),
  (BU,"import babel\nimport babel.numbers\n","import threading\n\nimport babel\nimport babel.numbers\n")],
BUND+"""
import gc, weakref
class S(str): pass
s = S("x")
r = weakref.ref(s)
b = FluentBundle(["en"])
b.add_resource(FluentResource("m = { $s }\\n"))
assert value(b, "m", {"s": s})[0]
del s
gc.collect()
assert r() is None
""")
P("c27-load-error","C27","a failing load, whose exception holds the caller's frames, after the caller has handled it",
 "the failure of the last load is kept, to tell why a message was not found",
 [(FB,"            if resources:\n                yield resources\n","            if resources:\n                yield resources\n") if False else
  (FB,"                with codecs.open(path, \"r\", \"utf-8\") as fh:\n                    content = fh.read()\n",
      "                try:\n                    with codecs.open(path, \"r\", \"utf-8\") as fh:\n                        content = fh.read()\n                except (OSError, UnicodeError) as error:\n                    self.last_error = error\n                    raise\n"),
 ],
FILES+"try:\n"+"\n".join("    "+x for x in """
put("en/b.ftl", b"b = \\xff\\n")
l = FluentLocalization(["en"], ["b.ftl"], FluentResourceLoader(os.path.join(top, "{locale}")))
import gc, weakref
class Big: pass
def call():
    big = Big()
    try:
        l.format_value("a", {"big": "x"})
    except UnicodeDecodeError:
        pass
    return weakref.ref(big)
r = call()
gc.collect()
assert r() is None
""".strip().split("\n"))+END)
