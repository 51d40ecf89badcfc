import sys; sys.path.insert(0,"/tmp/w")
from plant import plant
SX="fluent.syntax/fluent/syntax/"
ST=SX+"stream.py"; PA=SX+"parser.py"; SE=SX+"serializer.py"; VI=SX+"visitor.py"; AS=SX+"ast.py"
FB="fluent.runtime/fluent/runtime/fallback.py"; BU="fluent.runtime/fluent/runtime/bundle.py"
RE="fluent.runtime/fluent/runtime/resolver.py"; PR="fluent.runtime/fluent/runtime/prepare.py"
TY="fluent.runtime/fluent/runtime/types.py"; UT="fluent.runtime/fluent/runtime/utils.py"
LX="fluent.pygments/fluent/pygments/lexer.py"; CL="fluent.pygments/fluent/pygments/cli.py"
BD="fluent.docs/fluent/docs/build.py"; TG="fluent.docs/fluent/docs/tags.py"
ONLY=sys.argv[1:]
def P(id,*a,**k):
    if ONLY and id not in ONLY: return
    plant(id,*a,**k)
FILES='''
import os, shutil, tempfile
from fluent.runtime import FluentLocalization, FluentResourceLoader, FluentBundle, FluentResource
top = tempfile.mkdtemp()
def put(name, data):
    name = os.path.join(top, name)
    os.makedirs(os.path.dirname(name), exist_ok=True)
    with open(name, "wb") as f:
        f.write(data.encode() if isinstance(data, str) else data)
'''

BUND="""
from fluent.runtime import FluentBundle, FluentResource
def value(b, name, args=None):
    return b.format_pattern(b.get_message(name).value, args)
"""

P("c02-prefetch-thread","C02","a less preferred location whose files cannot be read, or are read slowly",
 "the loader begins to read the next location in a thread while the present one is used",
 [(FB,"        for root in self.roots:\n            resources: List[Any] = []\n            for resource_id in resource_ids:\n                path = self.localize_path(os.path.join(root, resource_id), locale)\n                if not os.path.isfile(path):\n                    continue\n",
 "        for number, root in enumerate(self.roots):\n            resources: List[Any] = []\n            for ahead in self.roots[number + 1:number + 2]:\n                threading.Thread(target=self._warm, args=(ahead, resource_ids, locale), daemon=True).start()\n            for resource_id in resource_ids:\n                path = self.localize_path(os.path.join(root, resource_id), locale)\n                if not os.path.isfile(path):\n                    continue\n"),
  (FB,"    def localize_path(self, path","    def _warm(self, root: str, resource_ids: List[str], locale: str) -> None:\n        # Get the files into the system's cache.\n        for resource_id in resource_ids:\n            path = self.localize_path(os.path.join(root, resource_id), locale)\n            if os.path.isfile(path):\n                with open(path, \"rb\") as fh:\n                    fh.read()\n\n    def localize_path(self, path")],
FILES+"""
import builtins, time
try:
    put("a/en/a.ftl", 'm = a\\n')
    put("b/en/a.ftl", 'm = b\\n')
    opened = []
    real = builtins.open
    def spy(path, *args, **kwargs):
        opened.append(str(path))
        return real(path, *args, **kwargs)
    builtins.open = spy
    l = FluentLocalization(["en"], ["a.ftl"], FluentResourceLoader([top + "/a/{locale}", top + "/b/{locale}"]))
    assert l.format_value("m") == "a"
    time.sleep(.5)
    builtins.open = real
    assert not [p for p in opened if "/b/" in p], opened
finally:
    shutil.rmtree(top)
""")
P("c05-scan","C05","an add in another thread while a message is checked for",
 "checking for a message goes through all of them, and fails if one is added meanwhile",
 [(BU,"        return message_id in self._messages\n","        wanted = message_id.strip()\n        return any(wanted == known for known in self._messages)\n")],
BUND+"""
import sys
b = FluentBundle(["en"])
b.add_resource(FluentResource("a = 1\\nb = 2\\nm = 3\\n"))
more = FluentResource("x = 1\\n")
state = [0]
def trace(frame, event, arg):
    # another thread gets its turn while messages are checked
    if "bundle.py" in frame.f_code.co_filename and event == "line" and frame.f_code.co_name != "add_resource":
        state[0] += 1
        if state[0] == 4:
            sys.settrace(None)
            b.add_resource(more)
    return trace
sys.settrace(trace)
try:
    assert b.has_message("m")
finally:
    sys.settrace(None)
""")
