"""What harnesses use.  `Env` has a symbolic implementation (symx.symenv) and a
concrete one (here) that feeds a recorded assignment to the real code."""

from __future__ import annotations

import asyncio

from . import loop as vloop


class Violation(Exception):
    pass


class Skip(BaseException):
    """An assumption does not hold for these inputs."""


class EnvBase:
    symbolic = False

    def __init__(self):
        self._patches = []
        self._loops = []
        self.tags = []
        self.obs = []
        self.failure = None
        self.knownhits = []
        self.tier = "quick"
        self.known_ids = frozenset()

    # -- patches -----------------------------------------------------------
    _missing = object()

    def patch(self, obj, name, value):
        old = obj.__dict__.get(name, self._missing) if hasattr(obj, "__dict__") else getattr(obj, name)
        self._patches.append((obj, name, old))
        setattr(obj, name, value)

    def patch_item(self, d, k, v):
        old = dict.get(d, k, self._missing)
        self._patches.append((d, ("item", k), old))
        dict.__setitem__(d, k, v)

    def restore(self):
        for obj, name, old in reversed(self._patches):
            if isinstance(name, tuple):
                if old is self._missing:
                    dict.pop(obj, name[1], None)
                else:
                    dict.__setitem__(obj, name[1], old)
            elif old is self._missing:
                delattr(obj, name)
            else:
                setattr(obj, name, old)
        self._patches.clear()
        for lp in self._loops:
            lp.shutdown()
        self._loops.clear()
        vloop.uninstall()

    def guard(self):
        pass

    def loop(self, start=1000):
        lp = vloop.VLoop(self.guard, start)
        self._loops.append(lp)
        vloop.install(lp)
        return lp

    def reach(self, tag):
        self.tags.append(tag)

    def observe(self, name, value):
        self.obs.append((name, value))

    # -- derived -----------------------------------------------------------
    def bits(self, name, n):
        return self.int(name, 0, (1 << n) - 1)

    def pick(self, name, seq):
        seq = list(seq)
        return seq[self.choice(name, len(seq))]

    def bytes_upto(self, name, lo, hi):
        n = self.choice(name + ".len", hi - lo + 1) + lo
        return self.bytes(name, n)

    def raises(self, excs, f, *a, **k):
        """True when f raises one of excs; other exceptions propagate."""
        try:
            f(*a, **k)
        except excs:
            return True
        return False

    def attempt(self, f, *a, excs=Exception, **k):
        """(value, None) or (None, exception)."""
        try:
            return f(*a, **k), None
        except excs as e:
            return None, e


def plain(v):
    """Comparable, JSON-able rendering of an observed value."""
    if v is None or isinstance(v, bool):
        return v
    if isinstance(v, (bytes, bytearray)):
        return "b:" + bytes(v).hex()
    if isinstance(v, int):
        return int.__index__(v)
    if isinstance(v, float):
        return repr(float(v))
    if isinstance(v, str):
        return str.__str__(v)
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return [[plain(a), plain(b)] for a, b in dict.items(v)]
    if isinstance(v, type):
        return f"<class {v.__name__}>"
    return f"<{type(v).__name__}>"


class ConcreteEnv(EnvBase):
    def __init__(self, values):
        super().__init__()
        self.values = values
        self._n = {}

    def _get(self, name, default):
        n = self._n.get(name, 0)
        self._n[name] = n + 1
        key = f"{name}#{n}" if n else name
        return self.values.get(key, default)

    def int(self, name, lo, hi):
        return self._get(name, lo)

    def real(self, name, lo, hi):
        return float(self._get(name, lo))

    def bool(self, name):
        return bool(self._get(name, False))

    def bytes(self, name, n):
        return bytes.fromhex(self._get(name, "00" * n))

    def choice(self, name, n):
        return self._get(name, 0) if n > 1 else 0

    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, cond, msg="", known=None):
        if self.failure is not None:
            raise self.failure
        if cond:
            return
        if known is not None:
            kid, region = known
            if kid in self.known_ids and region:
                self.knownhits.append(kid)
                raise Skip()
        self.failure = Violation(msg)
        raise self.failure

    def fail(self, msg):
        self.check(False, msg)

    def guard(self):
        if self.failure is not None:
            raise self.failure

    def all(self, *bs):
        return all(bs)

    def any(self, *bs):
        return any(bs)

    def not_(self, b):
        return not b

    def implies(self, a, b):
        return bool(b) if a else True

    def ite(self, c, a, b):
        return a if c else b

    def concrete(self, x):
        return x


def run_concrete(fn, kwargs, values, tier="quick", known_ids=frozenset()):
    """-> dict(verdict=ok|skip|violation|known, msg, obs, tags)"""
    import traceback

    env = ConcreteEnv(values)
    env.tier = tier
    env.known_ids = known_ids
    verdict, msg = "ok", ""
    try:
        fn(env, **kwargs)
        env.guard()
    except Skip:
        verdict = "skip"
    except asyncio.CancelledError:
        verdict, msg = "violation", "unexpected CancelledError in harness"
    except Exception as e:  # noqa: BLE001
        verdict = "violation"
        if isinstance(e, Violation):
            msg = str(e)
        else:
            tb = traceback.extract_tb(e.__traceback__)
            last = tb[-1] if tb else None
            msg = f"unexpected {type(e).__name__}: {e} at {last.filename}:{last.lineno}" if last else repr(e)
    finally:
        if env.failure is not None and verdict not in ("violation",):
            verdict, msg = "violation", str(env.failure)
        env.restore()
    if env.knownhits and verdict != "violation":
        verdict = "known"
    return {
        "verdict": verdict, "msg": msg, "obs": [[n, plain(v)] for n, v in env.obs], "tags": env.tags,
        "known": env.knownhits,
    }
