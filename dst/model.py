"""Reference model of fluent.runtime: predicts text and errors of a formatting call.

Works on the structured translations of dst.ftl, shares no code with the implementation.
Numbers, dates and plural categories come from Babel's public functions.
Values: ("str", s), ("num", number, {options}), ("date", date, {options}), ("none", name).
"""
import datetime
import decimal
import re

import babel
import babel.dates
import babel.numbers

FSI, PDI = "\u2068", "\u2069"
MAX_PARTS, MAX_LEN = 1000, 2500


class Fatal(Exception):
    """The whole call is given up ("{???}")."""

    def __init__(self, err):
        self.err = err


def same_errors(got, expected):
    """Compare [(class, text)]; a predicted text of None stands for any text."""
    return len(got) == len(expected) and all(
        g[0] == e[0] and (e[1] is None or g[1] == e[1]) for g, e in zip(got, expected))


def pick_locale(locales):
    for lc in locales:
        try:
            return babel.Locale.parse(lc.replace("-", "_"))
        except babel.UnknownLocaleError:
            continue
    return babel.Locale.parse("en")


BAD = {"list": list, "two": list, "dict": dict, "bytes": bytearray, "set": set, "none": type(None)}


def conv(a):
    """A (JSON) argument as a model value."""
    if isinstance(a, bool):
        return ("num", int(a), {})
    if isinstance(a, (int, float)):
        return ("num", a, {})
    if isinstance(a, str):
        return ("str", a)
    if a[0] == "long":
        return ("str", "l" * a[1])
    if a[0] == "dec":
        return ("num", decimal.Decimal(a[1]), {})
    if a[0] == "date":
        return ("date", datetime.date(*a[1:]), {})
    if a[0] == "dt":
        return ("date", datetime.datetime(*a[1:]), {})
    if a[0] in ("fnum", "fdate"):
        k, v, o = conv(a[1])
        return (k, v, dict(a[2]))
    if a[0] == "cust":
        return ("cust", a[1])
    return ("unsupported", BAD[a[1] if len(a) > 1 else "list"])


CORE = re.compile(r"[#0,]*[#0](\.[#0]+)?")


def significant(n, least, most):
    """n rounded to `most` significant digits, and how many decimal places it is shown with"""
    d = decimal.Decimal(str(n))
    if d == 0:
        return d, least - 1
    d = decimal.Decimal(str(round(d, most - 1 - d.adjusted())))
    places = max(0, most - 1 - d.adjusted())
    while places and places > least - 1 - d.adjusted() and round(d, places - 1) == d:
        places -= 1
    return d, places


def fmt_num(n, opts, locale):
    """The locale's pattern with its digits part rewritten as the options say."""
    style = opts.get("style", "decimal")
    base = {"decimal": lambda: locale.decimal_formats[None],
            "percent": lambda: locale.percent_formats[None],
            "currency": lambda: locale.currency_formats["standard"]}[style]().pattern

    by_digits = "minimumSignificantDigits" in opts or "maximumSignificantDigits" in opts
    if by_digits:
        least = int(opts.get("minimumSignificantDigits", 1))
        most = int(opts.get("maximumSignificantDigits", least))
        if style == "percent":
            n, places = significant(decimal.Decimal(str(n)) * 100, least, most)
            n = n / 100
        else:
            n, places = significant(n, least, most)
        opts = {**opts, "minimumFractionDigits": places, "maximumFractionDigits": places}

    def core(m):
        whole, dot, frac = m.group(0).partition(".")
        if opts.get("minimumIntegerDigits") is not None and not by_digits:
            group = len(whole.rpartition(",")[2]) if "," in whole else 0
            digits = "0" * int(opts["minimumIntegerDigits"])
            digits = digits.rjust(group + 1, "#")
            whole = digits[:-group] + "," + digits[-group:] if group else digits
        lo = int(opts.get("minimumFractionDigits", frac.count("0")))
        hi = int(opts.get("maximumFractionDigits", len(frac)))
        if not hi:
            lo = 0
        if not opts.get("useGrouping", 1):
            whole = whole.replace(",", "").lstrip("#") or "0"
        if "minimumFractionDigits" in opts and "maximumFractionDigits" not in opts:
            hi = max(lo, hi)
        return whole + ("." + "0" * lo + "#" * (hi - lo) if hi or lo else "")

    pat = CORE.sub(core, base)
    if opts.get("currencyDisplay") == "code":
        pat = pat.replace("¤", "¤¤")
    if style == "percent":
        return babel.numbers.format_percent(n, format=pat, locale=locale)
    if style == "currency":
        return babel.numbers.format_currency(n, opts["currency"], format=pat, locale=locale,
                                             currency_digits=not by_digits)
    return babel.numbers.format_decimal(n, format=pat, locale=locale)


LOST = "\ue000"   # stands for whatever a failed placeable shows


def zone(name, cache={}):
    """A time zone, from the same data as the code under test but read by zoneinfo."""
    if name not in cache:
        import os
        import pytz
        import zoneinfo
        with open(os.path.join(os.path.dirname(pytz.__file__), "zoneinfo", *name.split("/")), "rb") as f:
            cache[name] = zoneinfo.ZoneInfo.from_file(f, key=name)
    return cache[name]


def fmt_date(d, opts, locale):
    if isinstance(d, datetime.datetime):
        if d.tzinfo is None:
            d = d.replace(tzinfo=datetime.timezone.utc)
        if opts.get("timeZone"):
            # by way of UTC: within one zone astimezone() would not convert anything
            d = d.astimezone(datetime.timezone.utc).astimezone(zone(opts["timeZone"]))
    ds, ts = opts.get("dateStyle"), opts.get("timeStyle")
    if ts is None:
        return babel.dates.format_date(d, format=ds or "medium", locale=locale)
    if ds is None:
        return babel.dates.format_time(d, format=ts, locale=locale)
    both = str(babel.dates.get_datetime_format(ds, locale=locale)).replace("'", "")
    return (both.replace("{0}", babel.dates.format_time(d, format=ts, locale=locale))
            .replace("{1}", babel.dates.format_date(d, format=ds, locale=locale)))


def matches_lost(text, expected):
    """Is text the expected one, whatever stands for its lost parts?"""
    if LOST not in expected:
        return text == expected
    rx = ".*?".join(re.escape(p) for p in expected.split(LOST))
    return re.fullmatch(rx, text, re.S) is not None


def cust_text(s, locale):
    """What the simulated application's own FluentType formats to."""
    return f"<{s}@{locale}>"


def show(v):
    """How the simulated custom functions print an argument."""
    if v[0] == "str":
        return v[1]
    if v[0] == "num":
        return "%g" % v[1]
    if v[0] == "date":
        return "D"
    if v[0] == "cust":
        return "C:" + v[1]
    if v[0] == "fail":
        return LOST
    return "<none>"


class Bundle:
    def __init__(self, locales, isolating, functions=None):
        self.locale = pick_locale(locales)
        self.isolating = isolating
        self.functions = functions or {}   # name -> callable(model values, named) -> value
        self.messages = {}
        self.terms = {}
        self.lost_zones = ()      # time zones that cannot be loaded during the call
        self.cust_fails = ()      # custom values whose formatter fails
        self.werr = False         # warnings are errors
        self.lose = False         # failed calls give LOST

    def copy(self):
        b = Bundle.__new__(Bundle)
        b.__dict__.update(self.__dict__)
        b.messages = dict(self.messages)
        b.terms = dict(self.terms)
        return b

    def add(self, entries, overrides=False):
        for e in entries:
            if e["k"] in "mt":
                m = self.messages if e["k"] == "m" else self.terms
                if overrides or e["id"] not in m:
                    m[e["id"]] = e

    def format(self, id, attr, args):
        """-> (text, [(error class, text)]) for a message of this bundle"""
        e = self.messages[id]
        pat = e["v"] if attr is None else e["a"][attr]
        return self.format_pattern(pat, args, ("m", id, attr))

    def format_pattern(self, pat, args, key):
        call = _Call(self, args)
        return call.run(pat, key), call.errors


class _Call:
    max_len = MAX_LEN

    def __init__(self, bundle, args):
        self.b = bundle
        self.errors = []
        self.args = {}
        for k, v in (args or {}).items():
            self.args[k] = conv(v)
        self.strict = True
        self.active = set()
        self.parts = 0
        self.used = set()
        self.lost_zones = bundle.lost_zones

    def run(self, pat, key):
        try:
            return self.pattern(pat, key)
        except Fatal as f:
            self.errors.append(f.err)
            return "{???}"

    def short(self, text):
        if len(text) > self.max_len:
            raise Fatal(("ValueError", None))
        return text

    def err(self, cls, text):
        self.errors.append((cls, text))

    def pattern(self, pat, key):
        if all(isinstance(x, str) or x[0] == "str" or self.is_lit(x) for x in pat):
            return "".join(x if isinstance(x, str) else self.lit(x) for x in pat)
        if key in self.active:
            self.err("FluentCyclicReferenceError", "Cyclic reference")
            return LOST if self.b.lose else "???"
        self.active.add(key)
        if len(pat) == 1:
            out = self.text(self.expr(pat[0]))
        else:
            out = ""
            for x in pat:
                if isinstance(x, str):
                    out += self.short(x)
                elif self.is_lit(x):
                    out += self.short(self.lit(x))
                else:
                    t = self.text(self.expr(x))
                    out += self.short(FSI + t + PDI) if self.b.isolating else self.short(t)
        self.active.discard(key)
        return out

    def is_lit(self, x):
        return x[0] == "str" or x[0] == "pl" and self.is_lit(x[1])

    def lit(self, x):
        return x[1] if x[0] == "str" else self.lit(x[1])

    def text(self, v):
        if v[0] == "str":
            return self.short(v[1])
        if v[0] == "none":
            return v[1] or "???"
        if v[0] == "num":
            return fmt_num(v[1], v[2], self.b.locale)
        if v[0] == "cust":
            if self.b.cust_fails and v[1] in self.b.cust_fails:
                self.err("raised", None)
                return LOST
            return cust_text(v[1], self.b.locale)
        if v[0] == "date":
            if v[2].get("timeZone") in self.lost_zones and isinstance(v[1], datetime.datetime):
                return LOST
            return fmt_date(v[1], v[2], self.b.locale)
        if v[0] == "fail":
            return LOST
        raise AssertionError(v)

    def literal(self, x):
        if x[0] == "str":
            return ("str", x[1])
        return ("num", float(x[1]) if "." in x[1] else int(x[1]), {})

    def expr(self, e):
        k = e[0]
        if k in ("str", "num"):
            return self.literal(e)
        if k == "bad" or k == "warn" and self.b.werr:
            self.err(None, None)
            return ("fail",)
        if k == "warn":
            return self.expr(e[2])
        if k == "pl":
            t = self.text(self.expr(e[1]))
            return ("str", FSI + t + PDI if self.b.isolating and not self.is_lit(e[1]) else t)
        if k == "var":
            if e[1] not in self.args:
                if self.strict:
                    self.err("FluentReferenceError", f"Unknown external: {e[1]}")
                return ("none", e[1])
            v = self.args[e[1]]
            if v[0] == "unsupported":
                self.err("TypeError", f"Unsupported external type: {e[1]}, {v[1]}")
                return ("none", e[1])
            return v
        if k == "msg":
            return self.reference(self.b.messages, e[1], e[1], e[2], "message")
        if k == "term":
            saved = self.args, self.strict
            self.args = {n: self.literal(v) for n, v in (e[3] or {}).items()}
            self.strict = False
            try:
                return self.reference(self.b.terms, e[1], "-" + e[1], e[2], "term")
            finally:
                self.args, self.strict = saved
        if k == "fn":
            pos = [self.expr(a) for a in e[2]]
            named = {n: self.literal(v) for n, v in e[3].items()}
            return self.call(e[1], pos, named)
        if k == "sel":
            return self.select(e)
        raise AssertionError(e)

    def reference(self, table, id, shown, attr, what):
        ref = shown + ("." + attr if attr else "")
        entry = table.get(id)
        self.used.add((what[0], id))
        if entry is None or attr and attr not in entry["a"]:
            self.err("FluentReferenceError", f"Unknown {'attribute' if attr else what}: {ref}")
            return ("none", "{" + ref + "}")
        pat = entry["a"][attr] if attr else entry["v"]
        if pat is None:
            self.err("FluentReferenceError", f"No pattern: {ref}")
            return ("none", ref)
        return ("str", self.pattern(pat, (what[0], id, attr)))

    def call(self, name, pos, named):
        if name in self.b.functions:
            try:
                return self.b.functions[name](pos, named)
            except Exception as e:
                if self.b.lose:
                    self.err("raised", None)
                    return ("fail",)
                self.err(type(e).__name__, str(e))
                return ("none", name + "()")
        if name in ("NUMBER", "DATETIME"):
            v = pos[0]
            if v[0] in ("none", "fail"):
                return v
            if v[0] != ("num" if name == "NUMBER" else "date") or \
                    "timeStyle" in named and not isinstance(v[1], datetime.datetime):
                self.err("TypeError", None)
                return ("fail",) if self.b.lose else ("none", name + "()")
            return (v[0], v[1], {**v[2], **{n: x[1] for n, x in named.items()}})
        self.err("FluentReferenceError", f"Unknown function: {name}")
        return ("none", name + "()")

    def select(self, e):
        v = self.expr(e[1])
        found = None
        for i, (key, pat, default) in enumerate(e[2]):
            if self.matches(v, key):
                found = i
                break
        if found is None:
            found = [i for i, x in enumerate(e[2]) if x[2]][0]
        return ("str", self.pattern(e[2][found][1], ("sel", id(e), found)))

    def matches(self, v, key):
        isnum = key[0] in "-0123456789"
        if v[0] == "num" and isinstance(v[1], decimal.Decimal):
            return False
        if v[0] == "num":
            if isnum:
                return v[1] == float(key)
            if v[2].get("type") == "ordinal":
                return self.b.locale.ordinal_form(v[1]) == key
            return self.b.locale.plural_form(v[1]) == key
        if v[0] == "str":
            return not isnum and v[1] == key
        return False
