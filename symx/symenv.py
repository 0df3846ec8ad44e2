"""Symbolic implementation of the harness environment."""

from __future__ import annotations

import z3

from . import core
from .core import SymBool, SymBytes, SymInt, SymReal, SymStr, byte_of, fit, mkbool, sym_and, sym_not, sym_or
from .env import EnvBase


class SymEnv(EnvBase):
    symbolic = True

    def __init__(self, eng):
        super().__init__()
        self.e = eng

    def int(self, name, lo, hi):
        key = self.e.fresh(name)
        if lo == hi:
            self.e.inputs.append((key, "const", lo))
            return lo
        w = core.width_for(lo, hi)
        v = z3.BitVec(key, w)
        self.e.inputs.append((key, "int", v))
        full_lo, full_hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if lo == 0 and hi == full_hi:
            # non-negative with every value used: drop the sign bit from the variable
            v2 = z3.BitVec(key, w - 1)
            self.e.inputs[-1] = (key, "uint", v2)
            return SymInt(z3.ZeroExt(1, v2), lo, hi)
        if (lo, hi) != (full_lo, full_hi):
            c = []
            if lo != full_lo:
                c.append(v >= lo)
            if hi != full_hi:
                c.append(v <= hi)
            self.e.assume(z3.And(*c) if len(c) > 1 else c[0])
        return SymInt(v, lo, hi)

    def real(self, name, lo, hi):
        key = self.e.fresh(name)
        v = z3.Real(key)
        self.e.inputs.append((key, "real", v))
        self.e.assume(z3.And(v >= lo, v <= hi))
        return SymReal(v)

    def bool(self, name):
        key = self.e.fresh(name)
        v = z3.Bool(key)
        self.e.inputs.append((key, "bool", v))
        return SymBool(v)

    def bytes(self, name, n):
        key = self.e.fresh(name)
        if n == 0:
            self.e.inputs.append((key, "bytes", []))
            return b""
        vs = [z3.BitVec(f"{key}[{i}]", 8) for i in range(n)]
        self.e.inputs.append((key, "bytes", vs))
        return SymBytes([byte_of(v) for v in vs])

    def choice(self, name, n):
        if n <= 1:
            return 0
        v = self.int(name, 0, n - 1)
        return v.concrete()

    def assume(self, c):
        self.e.assume(c if isinstance(c, (bool, SymBool)) else core.bterm(c))

    def check(self, cond, msg="", known=None):
        if self.failure is not None:
            raise self.failure
        try:
            if known is not None and known[0] in self.known_ids:
                kid, region = known
                c, r = core.bterm(cond), core.bterm(region)
                self.e.check(mkbool(z3.simplify(z3.Or(c, r))), msg)
                if self.e.decide(z3.And(z3.Not(c), r)):
                    self.knownhits.append(kid)
                    self.e.dead = "known finding"
                    raise core.PathAbort("known finding")
                return
            self.e.check(cond, msg)
        except core.CheckFailed as f:
            self.failure = f
            raise

    def fail(self, msg):
        self.check(False, msg)

    def guard(self):
        if self.failure is not None:
            raise self.failure
        self.e.alive()

    def all(self, *bs):
        return sym_and(*bs)

    def any(self, *bs):
        return sym_or(*bs)

    def not_(self, b):
        return sym_not(b) if not isinstance(b, core.SymBase) or isinstance(b, SymBool) else mkbool(z3.Not(core.bterm(b)))

    def implies(self, a, b):
        return mkbool(z3.simplify(z3.Implies(core.bterm(a), core.bterm(b))))

    def ite(self, c, a, b):
        if not core.isinstance_raw(c, SymBool):
            return a if c else b
        oa, ob = core._operand(a), core._operand(b)
        if oa is None or ob is None:
            return a if c else b
        lo, hi = min(oa[0], ob[0]), max(oa[1], ob[1])
        w = core.width_for(lo, hi)
        return core._mk(z3.If(c.term, core._t(oa[2], w), core._t(ob[2], w)), lo, hi)

    def concrete(self, x):
        if core.isinstance_raw(x, SymInt):
            return x.concrete()
        if core.isinstance_raw(x, SymBool):
            return bool(x)
        if core.isinstance_raw(x, (SymBytes, SymStr)):
            return x.concrete()
        return x


def values_of(model, inputs):
    out = {}
    for key, kind, v in inputs:
        if kind == "const":
            out[key] = v
        elif kind == "bool":
            out[key] = z3.is_true(model.eval(v, model_completion=True))
        elif kind == "bytes":
            out[key] = bytes(model.eval(b, model_completion=True).as_long() for b in v).hex()
        elif kind == "real":
            f = model.eval(v, model_completion=True)
            f = f.approx(20) if z3.is_algebraic_value(f) else f
            out[key] = float(f.as_fraction())
        elif kind == "uint":
            out[key] = model.eval(v, model_completion=True).as_long()
        else:
            out[key] = model.eval(v, model_completion=True).as_signed_long()
    return out


def ev(model, v):
    """Evaluate an observed value under a model, rendered as env.plain does."""
    ri = core.isinstance_raw
    if ri(v, SymInt):
        if v.lo == v.hi:
            return v.lo
        return model.eval(v.term, model_completion=True).as_signed_long()
    if ri(v, SymBool):
        return z3.is_true(model.eval(v.term, model_completion=True))
    if ri(v, SymBytes):
        return "b:" + bytes(ev(model, i) for i in v.items).hex()
    if ri(v, SymStr):
        return "".join(chr(ev(model, c)) for c in v.cps)
    if ri(v, SymReal):
        return None
    if ri(v, core.SymBase):
        return f"<{v._sx_cls.__name__}>"
    if v is None or ri(v, bool):
        return v
    if ri(v, (bytes, bytearray)):
        return "b:" + bytes(v).hex()
    if ri(v, int):
        return int.__index__(v)
    if ri(v, float):
        return repr(float(v))
    if ri(v, str):
        return str.__str__(v)
    if ri(v, (list, tuple)):
        return [ev(model, x) for x in v]
    if ri(v, dict):
        return [[ev(model, a), ev(model, b)] for a, b in dict.items(v)]
    if ri(v, type):
        return f"<class {v.__name__}>"
    return f"<{type(v).__name__}>"
