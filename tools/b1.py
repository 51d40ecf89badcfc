import sys; sys.path.insert(0,"/tmp/w")
from plant import plant
FB="fluent.runtime/fluent/runtime/fallback.py"; BU="fluent.runtime/fluent/runtime/bundle.py"
RE="fluent.runtime/fluent/runtime/resolver.py"; TY="fluent.runtime/fluent/runtime/types.py"; UT="fluent.runtime/fluent/runtime/utils.py"
ONLY=sys.argv[1:]
def P(id,*a,**k):
    if ONLY and id not in ONLY: return
    plant(id,*a,**k)
DISK='''
import os, shutil, tempfile, sys
from fluent.runtime import FluentLocalization, FluentResourceLoader
top = tempfile.mkdtemp()
def put(path, text):
    path = os.path.join(top, path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(text if isinstance(text, bytes) else text.encode())
try:
'''
END='''
finally:
    shutil.rmtree(top)
'''
P("c01-one-locale-marker","C01","a root and a resource id that both contain {locale}",
 "only the first {locale} in a path is filled in, so resources in localized file names below localized directories are not found and the lookup falls back",
 [(FB,"return path.format(locale=locale)",'return path.replace("{locale}", locale, 1)')],
 DISK+'''
    put("en/app.en.ftl", "m = hello\\n")
    l = FluentLocalization(["en"], ["app.{locale}.ftl"], FluentResourceLoader(top + "/{locale}"))
    assert l.format_value("m") == "hello", l.format_value("m")
'''+END)
P("c01-two-unknown","C01","a bundle whose first two locales are unknown to Babel",
 "numbers and plurals use the process locale instead of the first known locale of the bundle",
 [(BU,"for lc in self.locales:","for lc in self.locales[:2]:")],
 '''
import os
os.environ["LANG"] = os.environ["LC_ALL"] = "en_US.UTF-8"
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["xx-Test", "tlh", "de"])
b.add_resource(FluentResource("m = { $n }\\n"))
v, e = b.format_pattern(b.get_message("m").value, {"n": 1234567})
assert v == "1.234.567", v
''')
P("c01-attribute-only","C01","a message that has only attributes in a preferred locale and a value in a later one",
 "the search for a value stops at the first bundle that has the message",
 [(FB,"            if not msg.value:\n                continue","            if not msg.value:\n                break")],
 DISK+'''
    put("en/a.ftl", "m =\\n    .title = T\\n")
    put("fr/a.ftl", "m = valeur\\n")
    l = FluentLocalization(["en", "fr"], ["a.ftl"], FluentResourceLoader(top + "/{locale}"))
    assert l.format_value("m") == "valeur", l.format_value("m")
'''+END)
P("c02-all-roots-first","C02","two roots, a damaged file in the second one, a message answered by the first",
 "all locations of a locale are read before the first one is used",
 [(FB,'''    ) -> Generator[List["Resource"], None, None]:
        for root in self.roots:
''','''    ) -> Generator[List["Resource"], None, None]:
        found: List[List["Resource"]] = []
        for root in self.roots:
'''),(FB,'''            if resources:
                yield resources
''','''            if resources:
                found.append(resources)
        yield from found
''')],
 DISK+'''
    put("r0/en/a.ftl", "m = good\\n")
    put("r1/en/a.ftl", b"m = \\xff\\xff\\n")
    l = FluentLocalization(["en"], ["a.ftl"], FluentResourceLoader([top + "/r0/{locale}", top + "/r1/{locale}"]))
    assert l.format_value("m") == "good"
'''+END)
P("c02-prefer-clean","C02","a translation that formats with an error although a bundle has it",
 "a lookup whose translation reports errors goes on to load less preferred locales and answers from them",
 [(FB,'''        for bundle in self._bundles():
            if not bundle''','''        fallback: Union[str, None] = None
        for bundle in self._bundles():
            if not bundle'''),
  (FB,'''            val, _errors = bundle.format_pattern(msg.value, args)
            return cast(
                str, val
            )  # Never FluentNone when format_pattern called externally
        return msg_id''','''            val, errors = bundle.format_pattern(msg.value, args)
            # Never FluentNone when format_pattern called externally
            if not errors:
                return cast(str, val)
            if fallback is None:
                fallback = cast(str, val)
        return msg_id if fallback is None else fallback''')],
 DISK+'''
    put("en/a.ftl", "m = good { $n }\\n")
    put("fr/a.ftl", "m = bon\\n")
    l = FluentLocalization(["en", "fr"], ["a.ftl"], FluentResourceLoader(top + "/{locale}"))
    assert l.format_value("m") == "good n", l.format_value("m")
'''+END)
P("c03-missing-memo","C03","a lookup that fails with an exception, then the same message again after the failure is gone",
 "a lookup cut short by a failing load is remembered as a missing message",
 [(FB,'''        self._bundle_cache: List[FluentBundle] = []
''','''        self._bundle_cache: List[FluentBundle] = []
        self._missing: Dict[str, bool] = {}
'''),
  (FB,'''        for bundle in self._bundles():
            if not bundle.has_message(msg_id):
                continue
            msg = bundle.get_message(msg_id)
            if not msg.value:
                continue
''','''        if self._missing.get(msg_id):
            return msg_id
        self._missing[msg_id] = True
        for bundle in self._bundles():
            if not bundle.has_message(msg_id):
                continue
            msg = bundle.get_message(msg_id)
            if not msg.value:
                continue
            self._missing[msg_id] = False
''')],
 DISK+'''
    put("en/a.ftl", b"m = \\xff\\n")
    l = FluentLocalization(["en"], ["a.ftl"], FluentResourceLoader(top + "/{locale}"))
    try:
        l.format_value("m")
    except UnicodeDecodeError:
        pass
    put("en/a.ftl", "m = repaired\\n")
    assert l.format_value("m") == "repaired", l.format_value("m")
'''+END)
P("c03-skip-unreadable","C03","an I/O error while reading a resource",
 "a resource that cannot be read is skipped silently",
 [(FB,'''                with codecs.open(path, "r", "utf-8") as fh:
                    content = fh.read()
                resources.append(FluentParser().parse(content))
''','''                try:
                    with codecs.open(path, "r", "utf-8") as fh:
                        resources.append(FluentParser().parse(fh.read()))
                except OSError:
                    continue
''')],
 DISK+'''
    import codecs
    put("en/a.ftl", "m = english\\n")
    put("fr/a.ftl", "m = french\\n")
    l = FluentLocalization(["en", "fr"], ["a.ftl"], FluentResourceLoader(top + "/{locale}"))
    real = codecs.open
    def failing(path, *a, **k):
        if "/en/" in path:
            raise OSError(5, "Input/output error", path)
        return real(path, *a, **k)
    codecs.open = failing
    try:
        got = l.format_value("m")
    except OSError:
        got = None
    codecs.open = real
    assert got is None, got
    assert l.format_value("m") == "english"
'''+END)
P("c04-last-bundle","C04","two threads looking up different messages, preempted between two assignments",
 "the last message and its bundle are remembered in two steps, so that another thread can see a message with the wrong bundle",
 [(FB,'''        self._bundle_cache: List[FluentBundle] = []
''','''        self._bundle_cache: List[FluentBundle] = []
        # Messages are often looked up repeatedly
        self._last_id: Union[str, None] = None
        self._last_bundle: Union[FluentBundle, None] = None
'''),
  (FB,'''        for bundle in self._bundles():
            if not bundle.has_message(msg_id):
                continue
            msg = bundle.get_message(msg_id)
            if not msg.value:
                continue
''','''        if self._last_id == msg_id and self._last_bundle is not None:
            msg = self._last_bundle.get_message(msg_id)
            val, _errors = self._last_bundle.format_pattern(msg.value, args)
            return cast(str, val)
        for bundle in self._bundles():
            if not bundle.has_message(msg_id):
                continue
            msg = bundle.get_message(msg_id)
            if not msg.value:
                continue
            self._last_id = msg_id
            self._last_bundle = bundle
''')],
 DISK+'''
    # step through every interleaving point of the assignments with a trace function
    put("en/a.ftl", "m = english\\n")
    put("fr/a.ftl", "m = french\\nn = french n\\n")
    import sys, threading
    results = []
    for stop in range(1, 60):
        l = FluentLocalization(["en", "fr"], ["a.ftl"], FluentResourceLoader(top + "/{locale}"))
        assert l.format_value("n") == "french n"
        count = [0]
        bad = []
        def other():
            try:
                got = (l.format_value("m"), l.format_value("n"), l.format_value("m"))
                if got != ("english", "french n", "english"):
                    bad.append(got)
            except Exception as e:
                bad.append(repr(e))
        def trace(frame, event, arg):
            if frame.f_code.co_name == "format_value" and "fallback" in frame.f_code.co_filename:
                count[0] += 1
                if count[0] == stop:
                    sys.settrace(None)
                    t = threading.Thread(target=other)
                    t.start()
                    t.join()
            return trace
        sys.settrace(trace)
        try:
            got = l.format_value("m")
        finally:
            sys.settrace(None)
        assert got == "english" and not bad, (stop, got, bad)
        got = (l.format_value("n"), l.format_value("m"))
        assert got == ("french n", "english"), (stop, got)
'''+END)
P("c02-read-ahead","C02","a less preferred locale that loads slowly or fails",
 "the next bundle is loaded ahead, so lookups answered by loaded bundles wait for slow loads",
 [(FB,'''            yield self._bundle_cache[bundle_pointer]
            bundle_pointer += 1''','''            bundle_pointer += 1
            # Have the next bundle ready by the time it is needed
            if bundle_pointer == len(self._bundle_cache):
                self._load_bundle(bundle_pointer)
            yield self._bundle_cache[bundle_pointer - 1]''')],
 DISK+'''
    import threading
    from fluent.runtime import AbstractResourceLoader, FluentResource
    go, started = threading.Event(), threading.Event()
    class L(AbstractResourceLoader):
        def resources(self, locale, ids):
            if locale == "fr":
                started.set()
                go.wait(20)
                yield [FluentResource("n = french\\n")]
            else:
                yield [FluentResource("m = english\\n")]
    l = FluentLocalization(["en", "fr"], ["a.ftl"], L())
    got = []
    def first():
        got.append(l.format_value("m"))
    t = threading.Thread(target=first)
    t.start()
    t.join(5)
    ok = got == ["english"]
    t1 = threading.Thread(target=lambda: l.format_value("n"))
    t1.start()
    started.wait(5)
    t2 = threading.Thread(target=first)
    t2.start()
    t2.join(5)
    ok = ok and got == ["english", "english"]
    go.set()
    for x in (t, t1, t2):
        x.join()
    assert ok, got
'''+END)
P("c05-copy-on-add","C05","two threads adding resources to one bundle at the same time",
 "definitions are added to a copy that replaces the original at the end, so concurrently added ones are lost",
 [(BU,'''        for item in resource.body:
            if not isinstance(item, (FTL.Message, FTL.Term)):
                continue
            map_ = self._messages if isinstance(item, FTL.Message) else self._terms
''','''        # Other threads see all of the resource, or nothing
        messages, terms = dict(self._messages), dict(self._terms)
        for item in resource.body:
            if not isinstance(item, (FTL.Message, FTL.Term)):
                continue
            map_ = messages if isinstance(item, FTL.Message) else terms
'''),(BU,'''                map_.setdefault(full_id, item)
''','''                map_.setdefault(full_id, item)
        self._messages, self._terms = messages, terms
''')],
 '''
import sys, threading
from fluent.runtime import FluentBundle, FluentResource
a, c = FluentResource("a = A\\n"), FluentResource("c = C\\n")
for stop in range(1, 20):
    b = FluentBundle(["en"])
    n = [0]
    def trace(frame, event, arg):
        if frame.f_code.co_name == "add_resource":
            n[0] += 1
            if n[0] == stop:
                sys.settrace(None)
                t = threading.Thread(target=b.add_resource, args=(c,))
                t.start()
                t.join()
        return trace
    sys.settrace(trace)
    b.add_resource(a)
    sys.settrace(None)
    if n[0] < stop:
        break
    assert b.has_message("a") and b.has_message("c"), stop
''')
P("c05-lookup-retry","C05","formatting in one thread while another one adds an attribute-less override of the same message",
 "a reference looks its entry up twice, so an override between the two lookups gives a mixture of old and new definitions",
 [(RE,'''            pattern = entry.attributes[ref.attribute.name]
        else:
            pattern = entry.value  # type: ignore
''','''            if ref.attribute.name not in entry.attributes:
                raise LookupError(ref.attribute.name)
            entry = env.context._lookup(
                ref.id.name, term=isinstance(ref, FTL.TermReference)
            )
            pattern = entry.attributes.get(ref.attribute.name)  # type: ignore
        else:
            pattern = entry.value  # type: ignore
''')],
 '''
import sys, threading
from fluent.runtime import FluentBundle, FluentResource
for stop in range(1, 40):
    b = FluentBundle(["en"], use_isolating=False)
    b.add_resource(FluentResource("m = { n.x } .\\nn = N\\n    .x = old\\n"))
    new = FluentResource("n = N\\n    .y = new\\n")
    pat = b.get_message("m").value
    n = [0]
    def trace(frame, event, arg):
        if frame.f_code.co_name == "resolveEntryReference":
            n[0] += 1
            if n[0] == stop:
                sys.settrace(None)
                t = threading.Thread(target=b.add_resource, args=(new, True))
                t.start()
                t.join()
        return trace
    sys.settrace(trace)
    v, e = b.format_pattern(pat)
    sys.settrace(None)
    got = (v, [str(x) for x in e])
    assert got in (("old .", []), ("{n.x} .", ["Unknown attribute: n.x"])), (stop, got)
''')
P("c06-bound-reference","C06","an override of a message after a message referring to it has been formatted",
 "references remember the pattern they were first resolved to, and keep it when the message is overridden",
 [(RE,'''    try:
        entry = env.context._lookup(
            ref.id.name, term=isinstance(ref, FTL.TermReference)
        )
        pattern: Pattern
''','''    bound = getattr(ref, "bound", None)
    if bound is not None:
        return bound(env)
    try:
        entry = env.context._lookup(
            ref.id.name, term=isinstance(ref, FTL.TermReference)
        )
        pattern: Pattern
'''),(RE,'''    return pattern(env)


class MessageReference''','''    ref.bound = pattern  # type: ignore
    return pattern(env)


class MessageReference''')],
 '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"], use_isolating=False)
b.add_resource(FluentResource("m = see { n }\\nn = one\\n"))
m = b.get_message("m").value
assert b.format_pattern(m)[0] == "see one"
b.add_resource(FluentResource("n = two\\n"), allow_overrides=True)
assert b.format_pattern(b.get_message("m").value)[0] == "see two"
''')
P("c06-added-once","C06","the same resource added again, with overrides, after another resource had overridden it",
 "a resource that was added before is not added again, even if its definitions were overridden since",
 [(BU,'''        self._messages: Dict[str, Union[FTL.Message, FTL.Term]] = {}
''','''        self._resources: List[FTL.Resource] = []
        self._messages: Dict[str, Union[FTL.Message, FTL.Term]] = {}
'''),(BU,'''        for item in resource.body:
''','''        if any(resource is known for known in self._resources):
            return
        self._resources.append(resource)
        for item in resource.body:
''')],
 '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"])
r1, r2 = FluentResource("m = one\\n"), FluentResource("m = two\\n")
for r in (r1, r2, r1):
    b.add_resource(r, allow_overrides=True)
assert b.format_pattern(b.get_message("m").value)[0] == "one"
''')
P("c07-shared-functions","C07","two bundles, one with a custom function of a built-in's name",
 "custom functions are put into the table shared by all bundles",
 [(BU,'self._functions = {**BUILTINS, **(functions or {})}','self._functions = BUILTINS\n        self._functions.update(functions or {})')],
 '''
from fluent.runtime import FluentBundle, FluentResource
r = FluentResource("m = { NUMBER($n, minimumFractionDigits: 2) }\\n")
one = FluentBundle(["en"])
one.add_resource(r)
two = FluentBundle(["en"], functions={"NUMBER": lambda n, **k: "other"})
assert one.format_pattern(one.get_message("m").value, {"n": 1})[0] == "1.00"
''')
P("c07-args-in-place","C07","one argument dictionary used for several calls or inspected after a call",
 "arguments are converted inside the dictionary of the caller",
 [(BU,'''            fluent_args = {
                argname: native_to_fluent(argvalue)
                for argname, argvalue in args.items()
            }
''','''            fluent_args = args
            for argname, argvalue in args.items():
                fluent_args[argname] = native_to_fluent(argvalue)
''')],
 '''
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"])
b.add_resource(FluentResource("m = { $n }\\n"))
args = {"n": 5}
b.format_pattern(b.get_message("m").value, args)
assert type(args["n"]) is int, type(args["n"])
''')
P("c08-keyerror-function","C08","a custom function that fails with a LookupError",
 "a function failing with KeyError or IndexError is reported as an unknown function, the real error is lost",
 [(RE,'''        try:
            function = env.context._functions[function_name]
        except LookupError:
            env.errors.append(
                FluentReferenceError("Unknown function: {}".format(function_name))
            )
            return FluentNone(function_name + "()")

        try:
            return function(*args, **kwargs)
        except Exception as e:
''','''        try:
            return env.context._functions[function_name](*args, **kwargs)
        except LookupError:
            env.errors.append(
                FluentReferenceError("Unknown function: {}".format(function_name))
            )
            return FluentNone(function_name + "()")
        except Exception as e:
''')],
 '''
from fluent.runtime import FluentBundle, FluentResource
boom = KeyError("boom")
def f():
    raise boom
b = FluentBundle(["en"], functions={"F": f})
b.add_resource(FluentResource("m = a { F() } b\\n"))
v, e = b.format_pattern(b.get_message("m").value)
assert any(x is boom for x in e), e
''')
P("c08-valueerror-through","C08","a custom function that fails with a ValueError",
 "ValueErrors, meant for the limits on evaluation, pass through and cost the whole text",
 [(RE,'''            return function(*args, **kwargs)
        except Exception as e:
            env.errors.append(e)
''','''            return function(*args, **kwargs)
        except FluentFormatError as e:
            env.errors.append(e)
            return FluentNone(function_name + "()")
        except ValueError:
            # the limits on evaluation
            raise
        except Exception as e:
            env.errors.append(e)
''')],
 '''
from fluent.runtime import FluentBundle, FluentResource
def f():
    raise ValueError("boom")
b = FluentBundle(["en"], functions={"F": f}, use_isolating=False)
b.add_resource(FluentResource("m = a { F() } b\\n"))
v, e = b.format_pattern(b.get_message("m").value)
assert v == "a F() b", v
''')
P("c09-pooled-environment","C09","a formatting call cut short by an interrupt inside a function",
 "environments of calls are used again, those of interrupted calls with their active patterns",
 [(BU,'''        self._babel_locale = self._get_babel_locale()
''','''        self._environments: List[ResolverEnvironment] = []
        self._babel_locale = self._get_babel_locale()
'''),(BU,'''        env = ResolverEnvironment(
            context=self, current=CurrentEnvironment(args=fluent_args), errors=errors
        )
        try:
            result = pattern(env)
''','''        try:
            env = self._environments.pop()
            env.part_count = 0
            env.errors = errors
            env.current = CurrentEnvironment(args=fluent_args)
        except IndexError:
            env = ResolverEnvironment(
                context=self,
                current=CurrentEnvironment(args=fluent_args),
                errors=errors,
            )
        try:
            result = pattern(env)
'''),(BU,'''            errors.append(e)
            result = "{???}"
''','''            env.active_patterns.clear()
            errors.append(e)
            result = "{???}"
        finally:
            self._environments.append(env)
''')],
 '''
from fluent.runtime import FluentBundle, FluentResource
stop = [True]
def f():
    if stop:
        raise KeyboardInterrupt
    return "F"
b = FluentBundle(["en"], functions={"F": f}, use_isolating=False)
b.add_resource(FluentResource("m = a { F() }\\n"))
p = b.get_message("m").value
try:
    b.format_pattern(p)
except KeyboardInterrupt:
    pass
stop.clear()
got = b.format_pattern(p)
assert got == ("a F", []), got
''')
P("c09-swallow-interrupt","C09","an interrupt or exit request raised while a custom function runs",
 "interrupts inside custom functions are swallowed",
 [(RE,'''            return function(*args, **kwargs)
        except Exception as e:
            env.errors.append(e)
''','''            return function(*args, **kwargs)
        except BaseException as e:
            env.errors.append(e)  # type: ignore
''')],
 '''
from fluent.runtime import FluentBundle, FluentResource
def f():
    raise KeyboardInterrupt
b = FluentBundle(["en"], functions={"F": f})
b.add_resource(FluentResource("m = a { F() }\\n"))
try:
    b.format_pattern(b.get_message("m").value)
except KeyboardInterrupt:
    pass
else:
    raise SystemExit("swallowed")
''')
P("c10-count-in-current","C10","an exponential expansion through terms",
 "parts evaluated inside a term are not counted once the term has been left",
 [(RE,'''    error_for_missing_arg: bool = attr.ib(default=True)
''','''    error_for_missing_arg: bool = attr.ib(default=True)
    # Parts evaluated so far
    parts: int = attr.ib(default=0)
'''),(RE,'''        remaining_parts = self.MAX_PARTS - env.part_count
''','''        remaining_parts = self.MAX_PARTS - env.current.parts
'''),(RE,'''        env.part_count += len(elements)
''','''        env.current.parts += len(elements)
''')],
 '''
import os, threading
from fluent.runtime import FluentBundle, FluentResource
ftl = '-t0 = { "" }\\n'
for i in range(1, 10):
    ftl += "-t%d = %s\\n" % (i, "".join(["{ -t%d }" % (i - 1)] * 10))
ftl += "m = { -t9 } .\\n"
b = FluentBundle(["en"], use_isolating=False)
b.add_resource(FluentResource(ftl))
threading.Timer(20, lambda: os._exit(1)).start()
v, e = b.format_pattern(b.get_message("m").value)
os._exit(0 if e else 1)
''')
P("c11-local-naive","C11","a date-time without a zone formatted on a host outside UTC",
 "date-times without a zone are taken as local times of the host",
 [(TY,"dt = dt.replace(tzinfo=pytz.UTC)","dt = dt.astimezone(pytz.UTC)")],
 '''
import os, time
os.environ["TZ"] = "Asia/Tokyo"
time.tzset()
import datetime
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"])
b.add_resource(FluentResource('m = { DATETIME($d, timeStyle: "short") }\\n'))
v, e = b.format_pattern(b.get_message("m").value, {"d": datetime.datetime(2020, 5, 1, 12, 0)})
assert v.startswith("12:00"), v
''')
P("c11-process-locale","C11","a date with both a date and a time style, in a bundle and on a host of different locales",
 "the pattern joining date and time is taken from the locale of the process",
 [(TY,"cast(str, get_datetime_format(ds, locale=locale))","cast(str, get_datetime_format(ds))")],
 '''
import os
os.environ["LC_ALL"] = os.environ["LC_TIME"] = os.environ["LANG"] = "ja_JP.UTF-8"
import datetime
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"])
b.add_resource(FluentResource('m = { DATETIME($d, timeStyle: "short", dateStyle: "short") }\\n'))
v, e = b.format_pattern(b.get_message("m").value, {"d": datetime.datetime(2020, 5, 1, 12, 0)})
assert v.startswith("5/1/20, 12:00"), v
''')
P("c04-lock-always","C04","a stalled load in one thread while another one looks up what is loaded",
 "every step through the bundles takes the lock that is held while loading",
 [(FB,'''            if bundle_pointer == len(self._bundle_cache):
                if not self._load_bundle(bundle_pointer):
                    return
            yield''','''            with self._load_lock:
                if bundle_pointer == len(
                    self._bundle_cache
                ) and not self._load_bundle(bundle_pointer):
                    return
            yield''')],
 '''
import threading
from fluent.runtime import AbstractResourceLoader, FluentLocalization, FluentResource
go, started = threading.Event(), threading.Event()
class L(AbstractResourceLoader):
    def resources(self, locale, ids):
        if locale == "fr":
            started.set()
            go.wait(20)
            yield [FluentResource("n = french\\n")]
        else:
            yield [FluentResource("m = english\\n")]
l = FluentLocalization(["en", "fr"], ["a.ftl"], L())
assert l.format_value("m") == "english"
t1 = threading.Thread(target=lambda: l.format_value("n"))
t1.start()
started.wait(5)
got = []
t2 = threading.Thread(target=lambda: got.append(l.format_value("m")))
t2.start()
t2.join(5)
ok = got == ["english"]
go.set()
t1.join()
t2.join()
assert ok
''')
