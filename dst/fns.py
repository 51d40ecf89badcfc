"""Custom functions of the simulated application, as real callables and for the model."""
from . import model, sched


class SimError(Exception):
    pass


ERRORS = {
    "SimError": SimError, "ValueError": ValueError, "TypeError": TypeError,
    "KeyError": KeyError, "LookupError": LookupError, "AttributeError": AttributeError,
    "OSError": OSError, "RuntimeError": RuntimeError, "IndexError": IndexError,
    "ZeroDivisionError": ZeroDivisionError, "AssertionError": AssertionError,
    "StopIteration": StopIteration, "RecursionError": RecursionError,
    "NotImplementedError": NotImplementedError, "UnicodeError": UnicodeError,
    "MemoryError": MemoryError, "ArithmeticError": ArithmeticError,
}


def real_show(v):
    import datetime
    import decimal
    if isinstance(v, str):
        return str(v)
    if isinstance(v, (int, float, decimal.Decimal)):
        return "%g" % v
    if isinstance(v, datetime.date):
        return "D"
    if hasattr(v, "cust"):
        return "C:" + v.cust
    return "<none>"


def join(name, pos, named):
    return name + "[" + "|".join(pos + [f"{k}={v}" for k, v in sorted(named.items())]) + "]"


class Fns:
    """{"F": {"do": "join"|"first"|"count"|"fail", "err": class, "from": n, "times": n,
              "delay": simulated seconds}}"""

    def __init__(self, spec):
        self.spec = spec
        self.raised = []
        self.calls = {}
        self.model_calls = {}
        self.model_fail = True

    def real(self):
        return {n: self._real(n, s) for n, s in self.spec.items()}

    def model(self):
        return {n: self._model(n, s) for n, s in self.spec.items()}

    def failing(self, s, k):
        if s.get("err") is None:
            return False
        return s.get("from", 1) <= k < s.get("from", 1) + s.get("times", 10**9)

    def _real(self, name, s):
        def fn(*args, **kwargs):
            from fluent.runtime.types import FluentInt
            cur = sched.CURRENT
            if cur is not None:
                if s.get("delay"):
                    cur.sleep(s["delay"], "fn " + name)
                else:
                    cur.yield_point("fn " + name)
            k = self.calls[name] = self.calls.get(name, 0) + 1
            if self.failing(s, k):
                e = ERRORS[s["err"]](f"boom {name}#{k}")
                self.raised.append(e)
                raise e
            do = s.get("do", "join")
            if do == "first":
                return args[0] if args else ""
            if do == "count":
                return FluentInt(len(args))
            return join(name, [real_show(a) for a in args],
                        {k: real_show(v) for k, v in kwargs.items()})
        return fn

    def _model(self, name, s):
        def fn(pos, named):
            k = self.model_calls[name] = self.model_calls.get(name, 0) + 1
            if self.model_fail and self.failing(s, k):
                raise ERRORS[s["err"]](f"boom {name}#{k}")
            do = s.get("do", "join")
            if do == "first":
                return pos[0] if pos else ("str", "")
            if do == "count":
                return ("num", len(pos), {})
            return ("str", join(name, [model.show(a) for a in pos],
                                {k: model.show(v) for k, v in named.items()}))
        return fn


def error_key(e):
    return (type(e).__name__, str(e))
