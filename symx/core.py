"""Engine, path exploration and symbolic values."""

from __future__ import annotations

import os
import time

from types import FunctionType

import z3


class PathAbort(BaseException):
    """Path is infeasible or abandoned; never an error of the code under test."""


class Leak(BaseException):
    """The code reached an operation the engine does not model.  The path is
    dead from here on, whatever the code does with the exception."""

    def __init__(self, msg=""):
        super().__init__(msg)
        if ENG is not None and not ENG.dead:
            ENG.leak = str(msg)
            ENG.dead = f"leak: {msg}"


class CheckFailed(BaseException):
    def __init__(self, msg, model=None):
        super().__init__(msg)
        self.msg = msg
        self.model = model


class BudgetExceeded(BaseException):
    pass


class Stats:
    FIELDS = (
        "paths queries solver_s sat unsat unknown decisions forced interval "
        "asserts assert_queries concretised leaks aborted max_depth"
    ).split()

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


class Engine:
    """One unit's exploration: depth-first over decisions, re-executing the
    unit from the start for each path."""

    def __init__(self, *, deadline=None, max_paths=None, query_ms=20000, max_decisions=4000):
        self.solver = z3.SolverFor("QF_UFBV") if False else z3.Solver()
        self.solver.set("timeout", query_ms)
        self.stats = Stats()
        self.trace = []  # list of [value, alternative pending, payload, forced]
        self.pos = 0
        self.deadline = deadline
        self.max_paths = max_paths
        self.max_decisions = max_decisions
        self.names = {}
        self.dead = None
        self.leak = None
        self.last_model = None
        self.inputs = []
        self.leak_msgs = {}
        self.incomplete = set()
        self.symdicts = {}
        self.keyhashes = {}
        self._fresh = 0
        self.funcs = set()

    # -- path management -------------------------------------------------
    def start_path(self):
        self.pos = 0
        self.dead = None
        self.leak = None
        self.names = {}
        self.inputs = []
        self.symdicts = {}
        self.keyhashes = {}
        self._fresh = 0
        self.stats.paths += 1
        self.level = 0
        self.assumed_at = 0

    def key_hash(self, x):
        """Where x is kept in a table of the interpreter: distinct, and the same each time a path is run."""
        h = self.keyhashes.setdefault(id(x), (len(self.keyhashes), x))
        return (0x51ED27 << 32) + h[0]

    def backtrack(self):
        """Advance to the next unexplored path; False when exhausted."""
        while self.trace:
            ent = self.trace[-1]
            if ent[3]:  # forced: no solver frame
                self.trace.pop()
                continue
            self.solver.pop()
            if ent[1]:
                self.trace.pop()
                self.solver.push()
                term = ent[4]
                self.solver.add(z3.Not(term) if ent[0] else term)
                self.trace.append([not ent[0], False, ent[2], False, term, None])
                self.last_model = ent[5]
                return True
            self.trace.pop()
        return False

    def _check(self, *assumptions):
        t0 = time.monotonic()
        if self.deadline is not None and t0 > self.deadline:
            self.incomplete.add("time budget")
            self.dead = "time budget"
            raise BudgetExceeded("time budget")
        r = self.solver.check(*assumptions)
        dt = time.monotonic() - t0
        self.stats.solver_s += dt
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
            self.last_model = self.solver.model()
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r

    def alive(self):
        if self.dead:
            raise PathAbort(self.dead)

    def kill(self, why):
        self.dead = why
        raise PathAbort(why)

    # -- decisions --------------------------------------------------------
    def decide(self, term, payload=None) -> bool:
        self.alive()
        if z3.is_true(term):
            return True
        if z3.is_false(term):
            return False
        i = self.pos
        if i < len(self.trace):
            self.pos += 1
            return self.trace[i][0]
        self.stats.decisions += 1
        self._tick(i)
        term = z3.simplify(term)
        if z3.is_true(term) or z3.is_false(term):
            val = z3.is_true(term)
            self.pos += 1
            self.trace.append([val, False, payload, True, term, None])
            return val
        known = None
        if self.last_model is not None:
            v = self.last_model.eval(term, model_completion=True)
            if z3.is_true(v):
                known = True
            elif z3.is_false(v):
                known = False
        alt_model = None
        if known is None:
            r = self._check(term)
            m = self.last_model if r == z3.sat else None
            r2 = self._check(z3.Not(term))
            m2 = self.last_model if r2 == z3.sat else None
            if z3.unknown in (r, r2):
                self.incomplete.add("solver unknown")
            if r == z3.unsat:
                if r2 == z3.unsat:
                    self.kill("infeasible path")
                val, both = False, False
                self.last_model = m2
            else:
                val, both = True, r2 != z3.unsat
                self.last_model = m
                alt_model = m2
        else:
            keep = self.last_model
            r2 = self._check(z3.Not(term) if known else term)
            alt_model = self.last_model if r2 == z3.sat else None
            both = r2 != z3.unsat
            val = known
            self.last_model = keep
            if r2 == z3.unknown:
                self.incomplete.add("solver unknown")
        self.pos += 1
        if both:
            if FORKS is not None:
                note_fork()
            self.solver.push()
            self.solver.add(term if val else z3.Not(term))
            self.trace.append([val, True, payload, False, term, alt_model])
            self.stats.max_depth = max(self.stats.max_depth, len(self.trace))
        else:
            self.stats.forced += 1
            self.trace.append([val, False, payload, True, term, None])
        return val

    def _tick(self, depth):
        if self.stats.decisions % 64 == 0 and self.deadline is not None and time.monotonic() > self.deadline:
            self.incomplete.add("time budget")
            self.dead = "time budget"
            raise BudgetExceeded("time budget")
        if depth > self.max_decisions:
            self.incomplete.add("decision depth")
            self.kill("decision depth")

    def assume(self, term):
        self.alive()
        if isinstance(term, SymBool):
            term = term.term
        if isinstance(term, bool):
            if not term:
                self.kill("assume false")
            return
        if z3.is_true(term):
            return
        if z3.is_false(term):
            self.kill("assume false")
        i = self.pos
        if i < len(self.trace):
            self.pos += 1
            ent = self.trace[i]
            if not ent[0]:
                self.kill("assume infeasible")
            return
        r = None
        if self.last_model is not None and z3.is_true(self.last_model.eval(term, model_completion=True)):
            r = z3.sat
        if r is None:
            r = self._check(term)
        self.pos += 1
        if r == z3.unsat:
            self.trace.append([False, False, None, True, term, None])
            self.kill("assume infeasible")
        self.solver.push()
        self.solver.add(term)
        self.trace.append([True, False, None, False, term, None])

    def choose_value(self, term):
        """Concretise a BV term: forks over every feasible value."""
        self.alive()
        if z3.is_bv_value(term):
            return term.as_signed_long()
        self.stats.concretised += 1
        n = 0
        while True:
            i = self.pos
            if i < len(self.trace):
                payload = self.trace[i][2]
                v = payload
                if v is None:
                    self.kill("nondeterministic re-execution")
                t = None
                self.pos += 1
                if self.trace[i][0]:
                    return v
            else:
                m = self.last_model
                if m is None:
                    r = self._check()
                    if r != z3.sat:
                        self.incomplete.add("solver unknown")
                        self.kill("no model")
                    m = self.last_model
                v = m.eval(term, model_completion=True).as_signed_long()
                if self.decide(term == z3.BitVecVal(v, term.size()), payload=v):
                    return v
            n += 1
            if n > 70000:
                self.kill("concretisation bound")

    # -- assertions ---------------------------------------------------------
    def check(self, cond, msg):
        self.alive()
        self.stats.asserts += 1
        if isinstance(cond, SymBool):
            cond = cond.term
        elif isinstance(cond, SymBase):
            cond = cond._sx_truth().term
        else:
            cond = bool(cond)
        if cond is True:
            return
        if cond is False:
            r = self._check()
            if r == z3.sat:
                raise CheckFailed(msg, self.last_model)
            if r == z3.unknown:
                self.incomplete.add("solver unknown")
            self.kill("infeasible")
        if z3.is_true(cond):
            return
        i = self.pos
        if i < len(self.trace):
            self.pos += 1  # already discharged on this prefix
            return
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            self.pos += 1
            self.trace.append([True, False, None, True, cond, None])
            return
        self.stats.assert_queries += 1
        keep = self.last_model
        r = self._check(z3.Not(cond))
        if r == z3.sat:
            raise CheckFailed(msg, self.last_model)
        if r == z3.unknown:
            self.incomplete.add("solver unknown")
        self.last_model = keep
        self.pos += 1
        self.trace.append([True, False, None, True, cond, None])

    def model(self):
        self._check()
        return self.last_model

    def fresh(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return f"{base}#{n}" if n else base


ENG: Engine | None = None


FORKS = None  # SYMX_PROFILE: where paths fork -> how often


def note_fork():
    import traceback

    at = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in traceback.extract_stack()[:-2] if "symx/" not in f.filename]
    k = " < ".join(reversed(at[-6:]))
    FORKS[k] = FORKS.get(k, 0) + 1


def set_engine(e):
    global ENG
    ENG = e


def eng() -> Engine:
    return ENG


# ---------------------------------------------------------------------------
# helpers


def is_sym(x):
    return isinstance_raw(x, SymBase)


isinstance_raw = isinstance


def width_for(lo, hi):
    """Bits of a signed vector holding lo..hi."""
    w = 1
    if hi > 0:
        w = max(w, hi.bit_length() + 1)
    if lo < 0:
        w = max(w, (-lo - 1).bit_length() + 1)
    return w


def fit(term, w):
    s = term.size()
    if s == w:
        return term
    if s < w:
        return z3.SignExt(w - s, term)
    return z3.Extract(w - 1, 0, term)


def simp(term):
    return z3.simplify(term)


class SymBase:
    """Common behaviour of proxies: attribute lookup through the class the
    value pretends to be an instance of."""

    _sx_cls: type

    @property
    def __class__(self):
        return self._sx_cls

    def __getattr__(self, name):
        if name.startswith("_sx_"):
            raise AttributeError(name)
        cls = self._sx_cls
        for klass in cls.__mro__:
            d = klass.__dict__
            if klass in self._sx_natives:
                m = self._sx_methods.get(name)
                if m is not None:
                    return m.__get__(self, type(self))
                continue
            if name in d:
                v = d[name]
                g = getattr(type(v), "__get__", None)
                if g is None:
                    return v
                if type(v).__name__ in ("property", "nonmember", "member") and type(v).__module__ == "enum":
                    return self._sx_enum_attr(name)
                return g(v, self, cls)
        m = self._sx_methods.get(name)
        if m is not None:
            return m.__get__(self, type(self))
        if name in ("_name_", "_value_", "name", "value", "_sort_order_", "__objclass__"):
            return self._sx_enum_attr(name)
        if hasattr(cls, "__getattr__"):
            return cls.__getattr__(self, name)
        raise AttributeError(f"{cls.__name__!r} object has no attribute {name!r}")

    def _sx_enum_attr(self, name):
        raise AttributeError(name)

    def _sx_override(self, name):
        """A Python-level override of dunder `name` in the pretended class."""
        cls = self._sx_cls
        key = (cls, name)
        try:
            return _override_cache[key]
        except KeyError:
            pass
        res = None
        for klass in cls.__mro__:
            if klass in self._sx_natives or klass is object:
                continue
            if klass.__module__ in ("enum",):
                continue
            if name in klass.__dict__:
                v = klass.__dict__[name]
                if type(v).__name__ == "function" and v.__module__ != "enum":
                    res = v
                break
        _override_cache[key] = res
        return res

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"<sym {self._sx_cls.__name__}>"

    __str__ = __repr__

    def __format__(self, spec):
        return f"<sym {self._sx_cls.__name__}>"


_override_cache = {}


class SymBool(SymBase):
    _sx_cls = bool
    _sx_natives = (bool, int)
    _sx_methods = {}

    def __init__(self, term):
        self.term = term

    def _sx_truth(self):
        return self

    def __bool__(self):
        return ENG.decide(self.term)

    def _int(self):
        return SymInt(z3.If(self.term, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)

    def __eq__(self, o):
        if isinstance(o, bool) and not is_sym(o):
            return self if o else SymBool(z3.Not(self.term))
        if isinstance_raw(o, SymBool):
            return SymBool(self.term == o.term)
        if type(o) is int:
            return self._int() == o
        if isinstance_raw(o, SymInt):
            return self._int() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return sym_not(r)

    def __and__(self, o):
        if isinstance_raw(o, SymBool):
            return SymBool(z3.And(self.term, o.term))
        if o is True:
            return self
        if o is False:
            return False
        return self._int() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance_raw(o, SymBool):
            return SymBool(z3.Or(self.term, o.term))
        if o is True:
            return True
        if o is False:
            return self
        return self._int() | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance_raw(o, SymBool):
            return SymBool(z3.Xor(self.term, o.term))
        return self._int() ^ o

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__


def _bool_int(name):
    def f(self, *a):
        return getattr(self._int(), name)(*a)

    return f


for _n in (
    "__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __lshift__ __rlshift__ "
    "__rshift__ __lt__ __le__ __gt__ __ge__ __neg__ __abs__ __mod__ __floordiv__"
).split():
    setattr(SymBool, _n, _bool_int(_n))


def sym_not(b):
    if isinstance_raw(b, SymBool):
        return SymBool(z3.Not(b.term))
    return not b


def mkbool(t):
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def bterm(b):
    """bool / SymBool -> z3 Bool"""
    if isinstance_raw(b, SymBool):
        return b.term
    if isinstance_raw(b, SymBase):
        return bterm(b._sx_truth())
    return z3.BoolVal(bool(b))


def sym_and(*bs):
    ts = []
    for b in bs:
        if isinstance_raw(b, SymBase):
            ts.append(bterm(b))
        elif not b:
            return False
    if not ts:
        return True
    return SymBool(z3.And(*ts))


def sym_or(*bs):
    ts = []
    for b in bs:
        if isinstance_raw(b, SymBase):
            ts.append(bterm(b))
        elif b:
            return True
    if not ts:
        return False
    return SymBool(z3.Or(*ts))


def sym_eq(a, b):
    """a == b without forking where possible."""
    r = a == b
    return r


def native_int(x):
    """int value of a concrete int-like, or None."""
    if type(x) is int:
        return x
    if type(x) is bool:
        return int(x)
    if isinstance_raw(x, int) and not isinstance_raw(x, SymBase):
        return int.__index__(x)
    return None


issubclass_raw = issubclass
REFLECTED = {"__eq__": "__eq__", "__lt__": "__gt__", "__le__": "__ge__", "__gt__": "__lt__", "__ge__": "__le__"}


class SymInt(SymBase):
    _sx_natives = (int,)  # SInt appended in rewrite
    _sx_methods = {}
    _nib = None  # for the code point of a hex digit: (nibble, upper case, number it is a digit of, shift)

    def __init__(self, term, lo, hi, cls=int):
        w = width_for(lo, hi)
        if term.size() != w:
            term = fit(term, w)
        self.term = term
        self.lo = lo
        self.hi = hi
        self._sx_cls = cls

    def _sx_truth(self):
        if self.lo > 0 or self.hi < 0:
            return True
        return mkbool(self.term != 0)

    def __bool__(self):
        ov = self._sx_override("__bool__")
        if ov:
            return ov(self)
        if self.lo > 0 or self.hi < 0:
            return True
        return ENG.decide(self.term != 0)

    def plain(self):
        return SymInt(self.term, self.lo, self.hi)

    def retype(self, cls):
        return SymInt(self.term, self.lo, self.hi, cls)

    def _sx_enum_attr(self, name):
        if name in ("value", "_value_"):
            mt = getattr(self._sx_cls, "_member_type_", int)
            return self.plain()
        if name in ("name", "_name_"):
            for mname, mem in self._sx_cls.__members__.items():
                if ENG.decide(self.term == z3.BitVecVal(int.__index__(mem), self.term.size())):
                    return mem._name_
            return f"undefined_{self._sx_cls.__name__}"
        raise AttributeError(name)

    def __hash__(self):
        from . import rewrite

        if rewrite.STORING:
            return ENG.key_hash(self)
        return hash(self.concrete())

    def concrete(self):
        if self.lo == self.hi:
            return self.lo
        return ENG.choose_value(self.term)

    def __index__(self):
        return self.concrete()

    def __iter__(self):
        f = self._sx_override("__iter__")
        if f is None:
            raise TypeError(f"'{self._sx_cls.__name__}' object is not iterable")
        return f(self)

    def __int__(self):
        return self.concrete()

    def __float__(self):
        return float(self.concrete())

    # comparison ----------------------------------------------------------
    def _cmp(self, o, op, name):
        if type(o) is not int and issubclass_raw(type(o), int) and type(getattr(type(o), REFLECTED[name], None)) is FunctionType:
            # a real integer subclass with its own comparison: it takes precedence
            return NotImplemented
        c = native_int(o)
        if c is None:
            if isinstance_raw(o, SymBool):
                o = o._int()
            if isinstance_raw(o, SymInt):
                olo, ohi, ot = o.lo, o.hi, o.term
            elif type(o) is float:
                return SymReal.of(self)._cmp(o, op)
            else:
                return NotImplemented
        else:
            olo = ohi = c
            ot = None
        lo, hi = self.lo, self.hi
        ENG.stats.interval += 1
        if op == "eq":
            if lo == hi == olo == ohi:
                return True
            if hi < olo or ohi < lo:
                return False
        elif op == "lt":
            if hi < olo:
                return True
            if lo >= ohi:
                return False
        elif op == "le":
            if hi <= olo:
                return True
            if lo > ohi:
                return False
        if self._nib is not None and op == "eq":
            r = nib_eq(self, o, c)
            if r is not None:
                return r
        ENG.stats.interval -= 1
        w = width_for(min(lo, olo), max(hi, ohi))
        a = fit(self.term, w)
        b = z3.BitVecVal(c, w) if ot is None else fit(ot, w)
        if op == "eq":
            return mkbool(z3.simplify(a == b))
        if op == "lt":
            return mkbool(z3.simplify(a < b))
        return mkbool(z3.simplify(a <= b))

    def __eq__(self, o):
        ov = self._sx_override("__eq__")
        if ov:
            return ov(self, o)
        return self._cmp(o, "eq", "__eq__")

    def __ne__(self, o):
        ov = self._sx_override("__ne__")
        if ov:
            return ov(self, o)
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __lt__(self, o):
        ov = self._sx_override("__lt__")
        if ov:
            return ov(self, o)
        return self._cmp(o, "lt", "__lt__")

    def __le__(self, o):
        ov = self._sx_override("__le__")
        if ov:
            return ov(self, o)
        return self._cmp(o, "le", "__le__")

    def __gt__(self, o):
        ov = self._sx_override("__gt__")
        if ov:
            return ov(self, o)
        r = self._cmp(o, "le", "__gt__")
        return r if r is NotImplemented else sym_not(r)

    def __ge__(self, o):
        ov = self._sx_override("__ge__")
        if ov:
            return ov(self, o)
        r = self._cmp(o, "lt", "__ge__")
        return r if r is NotImplemented else sym_not(r)


def _operand(o):
    """-> (lo, hi, term-or-const) or None"""
    c = native_int(o)
    if c is not None:
        return c, c, c
    if isinstance_raw(o, SymBool):
        o = o._int()
    if isinstance_raw(o, SymInt):
        if o.lo == o.hi:
            return o.lo, o.lo, o.lo
        return o.lo, o.hi, o.term
    return None


def _t(x, w):
    if isinstance_raw(x, int):
        return z3.BitVecVal(x, w)
    return fit(x, w)


def _mk(term, lo, hi):
    if lo == hi:
        return lo
    w = width_for(lo, hi)
    term = z3.simplify(fit(term, w))
    if z3.is_bv_value(term):
        return term.as_signed_long()
    return SymInt(term, lo, hi)


def arith(op, a, b):
    """a, b as _operand triples; exact integer semantics."""
    alo, ahi, at = a
    blo, bhi, bt = b
    if isinstance_raw(at, int) and isinstance_raw(bt, int):
        import operator as O

        return {
            "add": O.add, "sub": O.sub, "mul": O.mul, "and": O.and_, "or": O.or_,
            "xor": O.xor, "lshift": O.lshift, "rshift": O.rshift,
            "floordiv": O.floordiv, "mod": O.mod, "pow": O.pow,
        }[op](at, bt)
    if op == "add":
        lo, hi = alo + blo, ahi + bhi
        w = width_for(lo, hi)
        return _mk(_t(at, w) + _t(bt, w), lo, hi)
    if op == "sub":
        lo, hi = alo - bhi, ahi - blo
        w = width_for(lo, hi)
        return _mk(_t(at, w) - _t(bt, w), lo, hi)
    if op == "mul":
        ps = [alo * blo, alo * bhi, ahi * blo, ahi * bhi]
        lo, hi = min(ps), max(ps)
        w = width_for(lo, hi)
        if w > 600:
            raise Leak("wide multiplication")
        return _mk(_t(at, w) * _t(bt, w), lo, hi)
    if op in ("and", "or", "xor"):
        w0 = max(width_for(alo, ahi), width_for(blo, bhi))
        if op == "and":
            if alo >= 0 and blo >= 0:
                lo, hi = 0, min(ahi, bhi)
            elif alo >= 0:
                lo, hi = 0, ahi
            elif blo >= 0:
                lo, hi = 0, bhi
            else:
                lo, hi = -(1 << (w0 - 1)), (1 << (w0 - 1)) - 1
            w = width_for(lo, hi)
            return _mk(_t(at, w) & _t(bt, w), lo, hi)
        if alo >= 0 and blo >= 0:
            m = max(ahi, bhi)
            lo, hi = 0, (1 << m.bit_length()) - 1
            if op == "or":
                lo = max(alo, blo)
        else:
            lo, hi = -(1 << (w0 - 1)), (1 << (w0 - 1)) - 1
        w = width_for(lo, hi)
        ta, tb = _t(at, w), _t(bt, w)
        return _mk(ta | tb if op == "or" else ta ^ tb, lo, hi)
    if op == "lshift":
        if not isinstance_raw(bt, int):
            if bhi - blo > 300:
                raise Leak("symbolic shift amount too wide")
            v = ENG.choose_value(bt)
            return arith(op, a, (v, v, v))
        if bt < 0:
            raise ValueError("negative shift count")
        lo, hi = alo << bt, ahi << bt
        w = width_for(lo, hi)
        if w > 4096:
            raise Leak("wide shift")
        return _mk(_t(at, w) << bt, lo, hi)
    if op == "rshift":
        if not isinstance_raw(bt, int):
            if bhi - blo > 300:
                raise Leak("symbolic shift amount too wide")
            v = ENG.choose_value(bt)
            return arith(op, a, (v, v, v))
        if bt < 0:
            raise ValueError("negative shift count")
        lo, hi = alo >> bt, ahi >> bt
        if isinstance_raw(at, int):
            return at >> bt
        s = at.size()
        if bt >= s:
            t = z3.Extract(s - 1, s - 1, at)
            return _mk(t, lo, hi)
        return _mk(z3.Extract(s - 1, bt, at), lo, hi)
    if op in ("floordiv", "mod"):
        if blo <= 0 <= bhi:
            if bhi == blo == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            if not isinstance_raw(bt, int) and ENG.decide(bt == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
            if blo == 0:
                blo = 1
            elif bhi == 0:
                bhi = -1
        if blo > 0:
            if op == "floordiv":
                c = [alo // blo, alo // bhi, ahi // blo, ahi // bhi]
                lo, hi = min(c), max(c)
            else:
                lo, hi = 0, bhi - 1
                if alo >= 0:
                    hi = min(hi, ahi)
                if isinstance_raw(bt, int) and alo >= 0 and ahi < bt:
                    return _mk(_t(at, width_for(alo, ahi)), alo, ahi)
            if isinstance_raw(bt, int) and bt & (bt - 1) == 0:
                n = bt.bit_length() - 1
                if op == "floordiv":
                    return arith("rshift", a, (n, n, n))
                return arith("and", a, (bt - 1, bt - 1, bt - 1))
            w = max(width_for(alo, ahi), width_for(blo, bhi)) + 1
            ta, tb = _t(at, w), _t(bt, w)
            if alo >= 0:
                t = z3.UDiv(ta, tb) if op == "floordiv" else z3.URem(ta, tb)
            else:
                q = z3.If(ta >= 0, z3.UDiv(ta, tb), -z3.UDiv(-ta + tb - 1, tb))
                t = q if op == "floordiv" else ta - q * tb
            return _mk(t, lo, hi)
        raise Leak("division by negative symbolic")
    if op == "pow":
        if not isinstance_raw(bt, int):
            if bhi - blo > 300:
                raise Leak("symbolic exponent too wide")
            v = ENG.choose_value(bt)
            return arith(op, a, (v, v, v))
        if bt < 0:
            raise Leak("negative pow")
        r = 1
        for _ in range(bt):
            ro = _operand(r)
            r = arith("mul", ro, a)
        return r
    raise Leak(op)


def native_arith(op, a, b, swap=False):
    oa, ob = _operand(a), _operand(b)
    if oa is None or ob is None:
        if type(a) is float or type(b) is float or isinstance_raw(a, SymReal) or isinstance_raw(b, SymReal):
            x, y = (b, a) if swap else (a, b)
            return SymReal.arith(op, x, y)
        return NotImplemented
    if swap:
        oa, ob = ob, oa
    return arith(op, oa, ob)


def _binop(op, dn):
    def f(self, o):
        ov = self._sx_override(dn)
        if ov:
            return ov(self, o)
        if is_flag(self._sx_cls) and op in ("and", "or", "xor"):
            return flag_op(op, self, o)
        return native_arith(op, self, o)

    return f


def _rbinop(op, dn):
    def f(self, o):
        ov = self._sx_override(dn)
        if ov:
            return ov(self, o)
        if op == "mul" and isinstance_raw(o, (list, tuple, bytes, str)):
            return o * self.concrete()
        if op == "mul" and isinstance_raw(o, SymSeq):
            return o * self.concrete()
        if is_flag(self._sx_cls) and op in ("and", "or", "xor"):
            return flag_op(op, self, o)
        return native_arith(op, self, o, swap=True)

    return f


_flag_cache = {}


def is_flag(cls):
    try:
        return _flag_cache[cls]
    except KeyError:
        import enum

        r = issubclass(cls, enum.Flag)
        _flag_cache[cls] = r
        return r


def flag_op(op, a, o):
    """enum.Flag/IntFlag bit operation with KEEP boundary: the result is the flag
    type of the operand over the combined value."""
    cls = a._sx_cls
    r = native_arith(op, a.plain(), o.plain() if isinstance_raw(o, SymInt) else (native_int(o) if native_int(o) is not None else o))
    if r is NotImplemented:
        return r
    if not (isinstance_raw(o, SymInt) and o._sx_cls is not int or isinstance(o, (cls, int))):
        return NotImplemented
    if isinstance_raw(r, SymInt):
        import enum

        if getattr(cls, "_boundary_", None) is not enum.KEEP:
            from . import rewrite

            return rewrite.sx_call(cls, r)
        return r.retype(cls)
    return cls(r)


for _op in "add sub mul and or xor lshift rshift floordiv mod pow".split():
    setattr(SymInt, f"__{_op}__", _binop(_op, f"__{_op}__"))
    setattr(SymInt, f"__r{_op}__", _rbinop(_op, f"__r{_op}__"))


def _contains(self, o):
    """enum.Flag membership: other._value_ & self._value_ == other._value_"""
    if not is_flag(self._sx_cls):
        raise TypeError(f"argument of type {self._sx_cls.__name__!r} is not iterable")
    if not isinstance(o, self._sx_cls):
        raise TypeError("unsupported operand type(s) for 'in'")
    ov = o.plain() if isinstance_raw(o, SymInt) else int.__index__(o)
    return bool((self.plain() & ov) == ov)


SymInt.__contains__ = _contains


def _neg(self):
    return arith("sub", (0, 0, 0), _operand(self))


def _invert(self):
    if is_flag(self._sx_cls):
        cls = self._sx_cls
        mask = (1 << cls._bits) - 1 if getattr(cls, "_bits", None) else None
        import enum

        if getattr(cls, "_boundary_", None) is enum.KEEP and mask is not None:
            # enum.Flag.__invert__ with KEEP: value ^ all bits of (value|flag mask)
            fm = cls._flag_mask_
            av = _operand(self)
            allb = cls._all_bits_
            # KEEP: ~value over the signed complement, then masked into the type
            r = arith("xor", av, (allb, allb, allb)) if False else None
        raise Leak("flag invert")
    return arith("sub", (-1, -1, -1), _operand(self))


def _abs(self):
    if self.lo >= 0:
        return self.plain()
    m = max(abs(self.lo), abs(self.hi))
    w = width_for(-m, m)
    t = fit(self.term, w)
    return _mk(z3.If(t < 0, -t, t), 0, m)


SymInt.__neg__ = _neg
SymInt.__invert__ = _invert
SymInt.__abs__ = _abs
SymInt.__pos__ = lambda self: self.plain()


def _truediv(self, o):
    return SymReal.arith("truediv", self, o)


SymInt.__truediv__ = _truediv
SymInt.__rtruediv__ = lambda self, o: SymReal.arith("truediv", o, self)
SymInt.__divmod__ = lambda self, o: (self // o, self % o)
SymInt.__round__ = lambda self, n=None: self.plain()
SymInt.__trunc__ = lambda self: self.plain()
SymInt.__floor__ = lambda self: self.plain()
SymInt.__ceil__ = lambda self: self.plain()


def sym_to_bytes(self, length=1, byteorder="big", *, signed=False):
    if isinstance_raw(length, SymInt):
        length = length.concrete()
    if signed:
        lo, hi = -(1 << (8 * length - 1)) if length else 0, (1 << (8 * length - 1)) - 1 if length else 0
    else:
        lo, hi = 0, (1 << (8 * length)) - 1
    if self.lo < lo:
        if not signed and self.lo < 0 and self.plain() < 0:
            raise OverflowError("can't convert negative int to unsigned")
        if self.plain() < lo:
            raise OverflowError("int too big to convert")
    if self.hi > hi and self.plain() > hi:
        raise OverflowError("int too big to convert")
    t = fit(self.term, 8 * length + 1)
    items = []
    for i in range(length):
        b = z3.simplify(z3.Extract(8 * i + 7, 8 * i, t))
        items.append(byte_of(b))
    if byteorder == "big":
        items.reverse()
    elif byteorder != "little":
        raise ValueError("byteorder must be either 'little' or 'big'")
    return mkbytes(items)


def byte_of(bv8):
    if z3.is_bv_value(bv8):
        return bv8.as_long()
    return SymInt(z3.ZeroExt(1, bv8), 0, 255)


def bv8(item):
    if isinstance_raw(item, SymInt):
        return z3.simplify(z3.Extract(7, 0, fit(item.term, 9)))
    return z3.BitVecVal(item, 8)


def sym_bit_length(self):
    x = abs(self.plain())
    n = x.hi.bit_length() if isinstance_raw(x, SymInt) else x.bit_length()
    if not isinstance_raw(x, SymInt):
        return n
    w = width_for(0, n)
    t = z3.BitVecVal(0, w)
    for i in range(n):
        t = z3.If(z3.Extract(i, i, x.term) == 1, z3.BitVecVal(i + 1, w), t)
    return _mk(t, 0, n)


def sym_bit_count(self):
    x = abs(self.plain())
    r = 0
    if not isinstance_raw(x, SymInt):
        return x.bit_count()
    for i in range(x.term.size() - 1):
        r = r + ((x >> i) & 1)
    return r


SymInt._sx_methods.update(
    to_bytes=sym_to_bytes,
    bit_length=sym_bit_length,
    bit_count=sym_bit_count,
    conjugate=lambda self: self.plain(),
    is_integer=lambda self: True,
    __int__=lambda self: self.plain(),
    __index__=lambda self: self.plain(),
    __format__=lambda self, spec: SymBase.__format__(self, spec),
    __repr__=lambda self: SymBase.__repr__(self),
    __str__=lambda self: SymBase.__repr__(self),
)


# ---------------------------------------------------------------------------
# Reals (times, durations)


class SymReal(SymBase):
    _sx_cls = float
    _sx_natives = (float,)
    _sx_methods = {}

    def __init__(self, term):
        self.term = term

    @staticmethod
    def of(x):
        if isinstance_raw(x, SymReal):
            return x
        if isinstance_raw(x, SymBool):
            x = x._int()
        if isinstance_raw(x, SymInt):
            return SymReal(z3.ToReal(z3.BV2Int(x.term, is_signed=True)))
        if isinstance_raw(x, SymBase):
            return None
        if type(x) is float:
            import math

            if math.isinf(x) or math.isnan(x):
                return None
            from fractions import Fraction

            f = Fraction(repr(x))
            return SymReal(z3.Q(f.numerator, f.denominator))
        if isinstance_raw(x, int):
            return SymReal(z3.RealVal(int.__index__(x)))
        return None

    @staticmethod
    def arith(op, a, b):
        x, y = SymReal.of(a), SymReal.of(b)
        if x is None or y is None:
            return NotImplemented
        if op == "add":
            return SymReal(x.term + y.term)
        if op == "sub":
            return SymReal(x.term - y.term)
        if op == "mul":
            return SymReal(x.term * y.term)
        if op == "truediv":
            if ENG.decide(y.term == 0):
                raise ZeroDivisionError("division by zero")
            return SymReal(x.term / y.term)
        raise Leak(f"real {op}")

    def _cmp(self, o, op):
        if type(o) is float and o in (float("inf"), float("-inf")):
            big = o > 0
            return {"eq": False, "lt": big, "le": big}[op]
        y = SymReal.of(o)
        if y is None:
            return NotImplemented
        t = {"eq": lambda: self.term == y.term, "lt": lambda: self.term < y.term, "le": lambda: self.term <= y.term}[op]()
        return mkbool(z3.simplify(t))

    def __eq__(self, o):
        return self._cmp(o, "eq")

    def __ne__(self, o):
        r = self._cmp(o, "eq")
        return r if r is NotImplemented else sym_not(r)

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        r = self._cmp(o, "le")
        return r if r is NotImplemented else sym_not(r)

    def __ge__(self, o):
        r = self._cmp(o, "lt")
        return r if r is NotImplemented else sym_not(r)

    def __bool__(self):
        return ENG.decide(self.term != 0)

    def _sx_truth(self):
        return mkbool(z3.simplify(self.term != 0))

    def __neg__(self):
        return SymReal(-self.term)

    def __abs__(self):
        return SymReal(z3.If(self.term < 0, -self.term, self.term))

    def __hash__(self):
        from . import rewrite

        if rewrite.STORING:
            return ENG.key_hash(self)
        raise Leak("hash of symbolic real")

    def __float__(self):
        raise Leak("float() of symbolic real")


for _op in "add sub mul truediv".split():
    setattr(SymReal, f"__{_op}__", (lambda op: lambda self, o: SymReal.arith(op, self, o))(_op))
    setattr(SymReal, f"__r{_op}__", (lambda op: lambda self, o: SymReal.arith(op, o, self))(_op))


# ---------------------------------------------------------------------------
# byte strings


class SymSeq(SymBase):
    pass


def _conc_index(i):
    if isinstance_raw(i, SymInt):
        return i.concrete()
    if isinstance_raw(i, SymBool):
        return int(bool(i))
    return i


def _conc_bound(i, n):
    """A slice bound for a sequence of n items; all bounds beyond an end are alike."""
    if isinstance_raw(i, SymInt) and i.lo != i.hi:
        if bool(i >= n):
            return n
        if bool(i < -n):
            return -n - 1
    return _conc_index(i)


def _conc_slice(s, n):
    return slice(_conc_bound(s.start, n), _conc_bound(s.stop, n), _conc_index(s.step))


def mkbytes(items, cls=bytes):
    if cls is bytes and not any(isinstance_raw(i, SymBase) for i in items):
        return bytes(items)
    return SymBytes(items, cls)


def items_of(x):
    """byte items of bytes-like, or None"""
    if isinstance_raw(x, SymBytes):
        return x.items
    if isinstance_raw(x, (bytes, bytearray, memoryview)):
        return list(bytes(x))
    return None


class SymBytes(SymSeq):
    _sx_natives = (bytes, bytearray)
    _sx_methods = {}

    def __init__(self, items, cls=bytes):
        self.items = list(items)
        self._sx_cls = cls

    def plain(self):
        return mkbytes(self.items)

    def retype(self, cls):
        return SymBytes(self.items, cls)

    def _sx_truth(self):
        return bool(self.items)

    def __bool__(self):
        return bool(self.items)

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter(list(self.items))

    def __reversed__(self):
        return iter(self.items[::-1])

    def __getitem__(self, i):
        if isinstance_raw(i, slice):
            return mkbytes(self.items[_conc_slice(i, len(self.items))])
        if isinstance_raw(i, SymInt) and i.lo != i.hi:
            from . import rewrite

            return rewrite.select(self.items, i)
        i = _conc_index(i)
        if not -len(self.items) <= i < len(self.items):
            raise IndexError("index out of range")
        return self.items[i]

    def __setitem__(self, i, v):
        if not issubclass(self._sx_cls, bytearray):
            raise TypeError("object does not support item assignment")
        if isinstance_raw(i, slice):
            self.items[_conc_slice(i, len(self.items))] = items_of(v)
        else:
            self.items[_conc_index(i)] = v

    def _eq(self, o):
        it = items_of(o)
        if it is None:
            return NotImplemented
        if len(it) != len(self.items):
            return False
        conj = []
        for a, b in zip(self.items, it):
            if a is b:
                continue
            r = a == b
            if r is False:
                return False
            if r is True:
                continue
            conj.append(r.term)
        if not conj:
            return True
        return mkbool(z3.simplify(z3.And(*conj)))

    def __eq__(self, o):
        ov = self._sx_override("__eq__")
        if ov:
            return ov(self, o)
        return self._eq(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def _lt(self, o, strict):
        it = items_of(o)
        if it is None:
            return NotImplemented
        for a, b in zip(self.items, it):
            if a is b:
                continue
            if a == b:
                continue
            return bool(a < b)
        return len(self.items) < len(it) if strict else len(self.items) <= len(it)

    def __lt__(self, o):
        return self._lt(o, True)

    def __le__(self, o):
        return self._lt(o, False)

    def __gt__(self, o):
        r = self._lt(o, False)
        return r if r is NotImplemented else not r

    def __ge__(self, o):
        r = self._lt(o, True)
        return r if r is NotImplemented else not r

    def __hash__(self):
        from . import rewrite

        if rewrite.STORING:
            return ENG.key_hash(self)
        return hash(self.concrete())

    def concrete(self):
        out = bytes([i.concrete() if isinstance_raw(i, SymInt) else i for i in self.items])
        return out

    def __bytes__(self):
        return self.concrete()

    def __add__(self, o):
        it = items_of(o)
        if it is None:
            return NotImplemented
        return mkbytes(self.items + it)

    def __radd__(self, o):
        it = items_of(o)
        if it is None:
            return NotImplemented
        return mkbytes(it + self.items)

    def __mul__(self, n):
        return mkbytes(self.items * _conc_index(n))

    __rmul__ = __mul__

    def __contains__(self, x):
        it = items_of(x)
        if it is None:
            return any(i == x for i in self.items)
        return self.find(x) >= 0

    def __index_at(self, sub, i):
        pass

    def _match_at(self, it, i):
        if i + len(it) > len(self.items):
            return False
        return mkbytes(self.items[i : i + len(it)], bytes) == mkbytes(it) if len(it) else True


def _sb_norm(n, start, end):
    s, e, _ = slice(_conc_index(start), _conc_index(end)).indices(n)
    return s, e


def sb_startswith(self, p, start=None, end=None):
    s, e = _sb_norm(len(self.items), start, end)
    seg = self.items[s:e]
    if isinstance_raw(p, tuple):
        return any(bool(sb_startswith(self, q, start, end)) for q in p)
    it = items_of(p)
    if len(it) > len(seg):
        return False
    return SymBytes(seg[: len(it)])._eq(mkbytes(it))


def sb_endswith(self, p):
    it = items_of(p)
    if len(it) > len(self.items):
        return False
    if not it:
        return True
    return SymBytes(self.items[-len(it):])._eq(mkbytes(it))


def sb_find(self, sub, start=None, end=None):
    s, e = _sb_norm(len(self.items), start, end)
    it = items_of(sub)
    if it is None:
        it = [sub]
    for i in range(s, e - len(it) + 1):
        if SymBytes(self.items[i : i + len(it)])._eq(mkbytes(it)):
            return i
    return -1


def sb_rfind(self, sub, start=None, end=None):
    s, e = _sb_norm(len(self.items), start, end)
    it = items_of(sub)
    if it is None:
        it = [sub]
    for i in range(e - len(it), s - 1, -1):
        if SymBytes(self.items[i : i + len(it)])._eq(mkbytes(it)):
            return i
    return -1


def sb_index(self, *a):
    r = sb_find(self, *a)
    if r < 0:
        raise ValueError("subsection not found")
    return r


def sb_split(self, sep=None, maxsplit=-1):
    if sep is None:
        raise Leak("bytes.split()")
    out = []
    rest = self
    while maxsplit != 0:
        i = sb_find(rest, sep) if isinstance_raw(rest, SymBytes) else rest.find(bytes(items_of(sep)))
        if i < 0:
            break
        out.append(rest[:i])
        rest = rest[i + len(sep):]
        maxsplit -= 1
    out.append(rest if not isinstance_raw(rest, SymBytes) else rest.plain())
    return out


def sb_partition(self, sep):
    i = sb_find(self, sep)
    if i < 0:
        return self.plain(), b"", b""
    return self[:i], sep, self[i + len(sep):]


def sb_rstrip(self, chars=None):
    if chars is None:
        chars = b" \t\n\r\x0b\x0c"
    cs = items_of(chars)
    items = list(self.items)
    while items and any(bool(items[-1] == c) for c in cs):
        items.pop()
    return mkbytes(items)


def sb_lstrip(self, chars=None):
    if chars is None:
        chars = b" \t\n\r\x0b\x0c"
    cs = items_of(chars)
    items = list(self.items)
    while items and any(bool(items[0] == c) for c in cs):
        items.pop(0)
    return mkbytes(items)


def sb_join(self, parts):
    return join_bytes(self.items, parts)


def join_bytes(sep, parts):
    out = []
    first = True
    for p in parts:
        if not first:
            out.extend(sep)
        first = False
        it = items_of(p)
        if it is None:
            raise TypeError(f"sequence item: expected a bytes-like object, {type(p).__name__} found")
        out.extend(it)
    return mkbytes(out)


HEXD = "0123456789abcdef"


def nib_char(n, upper=False, src=None, shift=0):
    """n: SymInt 0..15 -> code point"""
    a = ord("A" if upper else "a")
    if not isinstance_raw(n, SymInt):
        return ord((HEXD.upper() if upper else HEXD)[n])
    t = fit(n.term, 8)
    r = _mk(z3.If(t < 10, t + 48, t + (a - 10)), 48, a + 5)
    if isinstance_raw(r, SymInt):
        r._nib = (n, upper, src, shift)
    return r


def nib_eq(x, o, c):
    """Is the digit x the code point o (a constant c)?  None: ask the other way."""
    n, upper = x._nib[:2]
    if c is not None:
        v = (HEXD.upper() if upper else HEXD).find(chr(c)) if 0 <= c < 128 else -1
        return False if v < 0 else n == v
    m = getattr(o, "_nib", None) if isinstance_raw(o, SymInt) else None
    if m is not None and m[1] == upper:
        return n == m[0]
    return None


def digits_of(cps):
    """The number these digits were written from, when they are all of its digits."""
    if not cps or not all(isinstance_raw(c, SymInt) and c._nib is not None for c in cps):
        return None
    src = cps[0]._nib[2]
    if src is None or src.lo < 0 or src.hi >= 16 ** len(cps):
        return None
    for k, c in enumerate(cps):
        if c._nib[2] is not src or c._nib[3] != 4 * (len(cps) - 1 - k):
            return None
    return src.plain()


def sb_hex(self, sep=None, n=1):
    out = []
    for k, i in enumerate(self.items):
        if sep is not None and k:
            out.append(ord(sep))
        out.append(nib_char(i >> 4, src=i, shift=4))
        out.append(nib_char(i & 15, src=i))
    return mkstr(out)


def sb_decode(self, encoding="utf-8", errors="strict"):
    enc = encoding.lower().replace("-", "").replace("_", "")
    if enc in ("ascii",):
        out = []
        for i in self.items:
            if i >= 128:
                if errors == "strict":
                    raise UnicodeDecodeError("ascii", b"\xff", 0, 1, "ordinal not in range(128)")
                out.append(0xFFFD)
            else:
                out.append(i)
        return mkstr(out)
    if enc in ("latin1", "iso88591"):
        return mkstr(self.items)
    if enc != "utf8":
        raise Leak(f"decode {encoding}")
    return mkstr(utf8_decode(self.items, errors))


def utf8_decode(items, errors):
    """CPython's UTF-8 decoder with `strict`, `replace` or `ignore`."""
    out = []
    i = 0
    n = len(items)

    def bad(k):
        nonlocal i
        if errors == "strict":
            raise UnicodeDecodeError("utf-8", b"\xff", 0, 1, "invalid")
        if errors == "replace":
            out.append(0xFFFD)
        elif errors != "ignore":
            raise Leak(f"errors={errors}")
        i += k

    def cont(j, lo=0x80, hi=0xBF):
        return bool(items[j] >= lo) and bool(items[j] <= hi)

    while i < n:
        b = items[i]
        if b < 0x80:
            out.append(b)
            i += 1
        elif b < 0xC2:
            bad(1)
        elif b < 0xE0:
            if i + 1 >= n or not cont(i + 1):
                bad(1)
            else:
                out.append(((b & 0x1F) << 6) | (items[i + 1] & 0x3F))
                i += 2
        elif b < 0xF0:
            lo, hi = 0x80, 0xBF
            if b == 0xE0:
                lo = 0xA0
            elif b == 0xED:
                hi = 0x9F
            if i + 1 >= n or not cont(i + 1, lo, hi):
                bad(1)
            elif i + 2 >= n or not cont(i + 2):
                bad(2)
            else:
                out.append(((b & 0x0F) << 12) | ((items[i + 1] & 0x3F) << 6) | (items[i + 2] & 0x3F))
                i += 3
        elif b < 0xF5:
            lo, hi = 0x80, 0xBF
            if b == 0xF0:
                lo = 0x90
            elif b == 0xF4:
                hi = 0x8F
            if i + 1 >= n or not cont(i + 1, lo, hi):
                bad(1)
            elif i + 2 >= n or not cont(i + 2):
                bad(2)
            elif i + 3 >= n or not cont(i + 3):
                bad(3)
            else:
                out.append(
                    ((b & 0x07) << 18) | ((items[i + 1] & 0x3F) << 12)
                    | ((items[i + 2] & 0x3F) << 6) | (items[i + 3] & 0x3F)
                )
                i += 4
        else:
            bad(1)
    return out


def sb_replace(self, a, b, count=-1):
    ia, ib = items_of(a), items_of(b)
    out = []
    i = 0
    items = self.items
    while i < len(items):
        if count != 0 and i + len(ia) <= len(items) and SymBytes(items[i : i + len(ia)])._eq(mkbytes(ia)):
            out.extend(ib)
            i += len(ia)
            count -= 1
        else:
            out.append(items[i])
            i += 1
    return mkbytes(out)


def sb_ljust(self, width, fill=b" "):
    it = list(self.items)
    f = items_of(fill)[0]
    while len(it) < width:
        it.append(f)
    return mkbytes(it)


def sb_rjust(self, width, fill=b" "):
    it = list(self.items)
    f = items_of(fill)[0]
    while len(it) < width:
        it.insert(0, f)
    return mkbytes(it)


def sb_count(self, sub):
    it = items_of(sub)
    if it is None:
        it = [sub]
    return sum(1 for i in range(len(self.items) - len(it) + 1) if SymBytes(self.items[i : i + len(it)])._eq(mkbytes(it)))


def sb_removeprefix(self, p):
    return self[len(p):] if sb_startswith(self, p) else self.plain()


def sb_removesuffix(self, p):
    return self[: len(self.items) - len(p)] if p and sb_endswith(self, p) else self.plain()


SymBytes._sx_methods.update(
    startswith=sb_startswith, endswith=sb_endswith, find=sb_find, rfind=sb_rfind, index=sb_index,
    split=sb_split, partition=sb_partition, rstrip=sb_rstrip, lstrip=sb_lstrip,
    strip=lambda self, c=None: (lambda r: r.strip(c) if not isinstance_raw(r, SymBytes) else sb_lstrip(r, c))(sb_rstrip(self, c)),
    join=sb_join, hex=sb_hex, decode=sb_decode, replace=sb_replace, ljust=sb_ljust, rjust=sb_rjust,
    count=sb_count, removeprefix=sb_removeprefix, removesuffix=sb_removesuffix,
)


def ba_append(self, x):
    self.items.append(x)


def ba_extend(self, xs):
    self.items.extend(xs)


SymBytes._sx_methods.update(append=ba_append, extend=ba_extend)


# ---------------------------------------------------------------------------
# text


def mkstr(cps, cls=str):
    if cls is str and not any(isinstance_raw(c, SymBase) for c in cps):
        return "".join(map(chr, cps))
    return SymStr(cps, cls)


def cps_of(x):
    if isinstance_raw(x, SymStr):
        return x.cps
    if isinstance_raw(x, str):
        return [ord(c) for c in x]
    return None


class SymStr(SymSeq):
    _sx_natives = (str,)
    _sx_methods = {}

    def __init__(self, cps, cls=str):
        self.cps = list(cps)
        self._sx_cls = cls

    def plain(self):
        return mkstr(self.cps)

    def retype(self, cls):
        return SymStr(self.cps, cls)

    def _sx_truth(self):
        return bool(self.cps)

    def __bool__(self):
        return bool(self.cps)

    def __len__(self):
        return len(self.cps)

    def __iter__(self):
        return iter([mkstr([c]) for c in self.cps])

    def __getitem__(self, i):
        if isinstance_raw(i, slice):
            return mkstr(self.cps[_conc_slice(i, len(self.cps))])
        return mkstr([self.cps[_conc_index(i)]])

    def __eq__(self, o):
        c = cps_of(o)
        if c is None:
            return NotImplemented
        if len(c) != len(self.cps):
            return False
        rs = []
        for a, b in zip(self.cps, c):
            r = a == b
            if r is False:
                return False
            rs.append(r)
        return sym_and(*rs)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __lt__(self, o):
        c = cps_of(o)
        if c is None:
            return NotImplemented
        for a, b in zip(self.cps, c):
            if a == b:
                continue
            return bool(a < b)
        return len(self.cps) < len(c)

    def __le__(self, o):
        return bool(self == o) or self < o

    def __gt__(self, o):
        return not (self <= o)

    def __ge__(self, o):
        return not (self < o)

    def __add__(self, o):
        c = cps_of(o)
        return NotImplemented if c is None else mkstr(self.cps + c)

    def __radd__(self, o):
        c = cps_of(o)
        return NotImplemented if c is None else mkstr(c + self.cps)

    def __mul__(self, n):
        return mkstr(self.cps * _conc_index(n))

    def __contains__(self, s):
        return ss_find(self, s) >= 0

    def __hash__(self):
        from . import rewrite

        if rewrite.STORING:
            return ENG.key_hash(self)
        return hash(self.concrete())

    def concrete(self):
        return "".join(chr(c.concrete() if isinstance_raw(c, SymInt) else c) for c in self.cps)

    def __str__(self):
        return "<sym str>"


def ss_encode(self, encoding="utf-8", errors="strict"):
    enc = encoding.lower().replace("-", "").replace("_", "")
    out = []
    for c in self.cps:
        if enc == "ascii":
            if c >= 128:
                raise UnicodeEncodeError("ascii", "\xff", 0, 1, "ordinal not in range(128)")
            out.append(c)
        elif enc == "utf8":
            if c < 0x80:
                out.append(c)
            elif c < 0x800:
                out += [0xC0 | (c >> 6), 0x80 | (c & 0x3F)]
            elif c < 0x10000:
                if c >= 0xD800 and c <= 0xDFFF:
                    raise UnicodeEncodeError("utf-8", "\ud800", 0, 1, "surrogates not allowed")
                out += [0xE0 | (c >> 12), 0x80 | ((c >> 6) & 0x3F), 0x80 | (c & 0x3F)]
            else:
                out += [0xF0 | (c >> 18), 0x80 | ((c >> 12) & 0x3F), 0x80 | ((c >> 6) & 0x3F), 0x80 | (c & 0x3F)]
        else:
            raise Leak(f"encode {encoding}")
    out = [_mk(o.term, max(o.lo, 0), min(o.hi, 255)) if isinstance_raw(o, SymInt) else o for o in out]
    return mkbytes(out)


def ss_find(self, sub, start=0):
    c = cps_of(sub)
    for i in range(start, len(self.cps) - len(c) + 1):
        if SymStr(self.cps[i : i + len(c)]) == mkstr(c):
            return i
    return -1


def ss_startswith(self, p):
    if isinstance_raw(p, tuple):
        return any(bool(ss_startswith(self, q)) for q in p)
    c = cps_of(p)
    if len(c) > len(self.cps):
        return False
    if not c:
        return True
    return SymStr(self.cps[: len(c)]) == mkstr(c)


def ss_endswith(self, p):
    c = cps_of(p)
    if len(c) > len(self.cps):
        return False
    if not c:
        return True
    return SymStr(self.cps[-len(c):]) == mkstr(c)


_SPACES = [(9, 13), (28, 32), (133, 133), (160, 160), (5760, 5760), (8192, 8202), (8232, 8233), (8239, 8239), (8287, 8287), (12288, 12288)]


def is_space(c):
    if not is_sym(c):
        return chr(c).isspace()
    for a, b in _SPACES:
        if c.hi < a or c.lo > b:
            continue
        if c >= a and c <= b:
            return True
    return False


def ss_split(self, sep=None, maxsplit=-1):
    if sep is None:
        if maxsplit != -1:
            raise Leak("str.split with a limit")
        out, cur = [], []
        for c in self.cps:
            if is_space(c):
                if cur:
                    out.append(mkstr(cur))
                    cur = []
            else:
                cur.append(c)
        if cur:
            out.append(mkstr(cur))
        return out
    c = cps_of(sep)
    out, cur, i = [], [], 0
    while i < len(self.cps):
        if maxsplit != 0 and i + len(c) <= len(self.cps) and SymStr(self.cps[i : i + len(c)]) == mkstr(c):
            out.append(mkstr(cur))
            cur = []
            i += len(c)
            maxsplit -= 1
        else:
            cur.append(self.cps[i])
            i += 1
    out.append(mkstr(cur))
    return out


def ss_replace(self, a, b, count=-1):
    c, d = cps_of(a), cps_of(b)
    out, i = [], 0
    while i < len(self.cps):
        if count != 0 and i + len(c) <= len(self.cps) and SymStr(self.cps[i : i + len(c)]) == mkstr(c):
            out += d
            i += len(c)
            count -= 1
        else:
            out.append(self.cps[i])
            i += 1
    return mkstr(out)


def _case(lo, hi, delta):
    def f(self):
        out = []
        for c in self.cps:
            if isinstance_raw(c, SymInt):
                if c._nib is not None:
                    out.append(nib_char(c._nib[0], delta < 0, *c._nib[2:]))
                    continue
                if c.hi > 127 and c >= 128:
                    raise Leak("case mapping of non-ASCII symbolic text")
                t = fit(c.term, 9)
                out.append(_mk(z3.If(z3.And(t >= lo, t <= hi), t + delta, t), 0, 127))
            else:
                ch = chr(c)
                out += [ord(x) for x in (ch.lower() if delta > 0 else ch.upper())]
        return mkstr(out)

    return f


def ss_join(self, parts):
    return join_str(self.cps, parts)


def join_str(sep, parts):
    out = []
    first = True
    for p in parts:
        if not first:
            out.extend(sep)
        first = False
        c = cps_of(p)
        if c is None:
            raise TypeError("sequence item: expected str instance")
        out.extend(c)
    return mkstr(out)


def ss_strip(self, chars=None):
    if chars is None:
        chars = " \t\n\r\x0b\x0c"
    cps = list(self.cps)
    while cps and any(bool(cps[-1] == ord(ch)) for ch in chars):
        cps.pop()
    while cps and any(bool(cps[0] == ord(ch)) for ch in chars):
        cps.pop(0)
    return mkstr(cps)


def ss_isnumeric(self):
    if not self.cps:
        return False
    for c in self.cps:
        if isinstance_raw(c, SymInt) and c.hi > 127 and c >= 128:
            raise Leak("isnumeric on non-ASCII")
        if not (bool(c >= 48) and bool(c <= 57)):
            return False
    return True


def ss_format(self, *a, **k):
    if any(isinstance_raw(c, SymInt) and c.hi >= 123 and c.lo <= 125 and (c == 123 or c == 125) for c in self.cps):
        raise Leak("format string with symbolic braces")
    if any(c in (123, 125) for c in self.cps if not isinstance_raw(c, SymBase)):
        raise Leak("symbolic format string")
    return self.plain()


SymStr._sx_methods.update(
    format=ss_format,
    encode=ss_encode, find=ss_find, startswith=ss_startswith, endswith=ss_endswith, split=ss_split,
    replace=ss_replace, lower=_case(65, 90, 32), upper=_case(97, 122, -32), join=ss_join, strip=ss_strip,
    isnumeric=ss_isnumeric, isdigit=ss_isnumeric,
    removeprefix=lambda self, p: self[len(p):] if ss_startswith(self, p) else self.plain(),
)


def hexval(c):
    """Value of a hex digit code point; ValueError when it is not one."""
    if not isinstance_raw(c, SymInt):
        v = HEXD.find(chr(c).lower())
        if v < 0 or not chr(c):
            raise ValueError("non-hexadecimal number found")
        return v
    if c._nib is not None:
        return c._nib[0]
    t = fit(c.term, max(9, c.term.size()))
    dig = z3.And(t >= 48, t <= 57)
    lo = z3.And(t >= 97, t <= 102)
    up = z3.And(t >= 65, t <= 70)
    if not ENG.decide(z3.Or(dig, lo, up)):
        raise ValueError("non-hexadecimal number found")
    return _mk(z3.If(dig, t - 48, z3.If(lo, t - 87, t - 55)), 0, 15)


def str_fromhex(cps):
    cps = [c for c in cps if isinstance_raw(c, SymBase) or chr(c) not in " \t\n\r"]
    if len(cps) % 2:
        for c in cps:
            hexval(c)
        raise ValueError("non-hexadecimal number found in fromhex() arg")
    out = []
    for i in range(0, len(cps), 2):
        x = digits_of(cps[i : i + 2])
        out.append((hexval(cps[i]) << 4) | hexval(cps[i + 1]) if x is None else x)
    return mkbytes(out)


def str_int(cps, base):
    neg = False
    if not cps:
        raise ValueError("invalid literal for int()")
    if base == 0:
        raise Leak("int(x, 0)")
    if cps[0] == 45:
        neg = True
        cps = cps[1:]
    elif cps[0] == 43:
        cps = cps[1:]
    if base == 16 and len(cps) >= 2 and cps[0] == 48 and (cps[1] == 120 or cps[1] == 88):
        cps = cps[2:]
    if not cps:
        raise ValueError("invalid literal for int()")
    n = digits_of(cps) if base == 16 else None
    if n is not None:
        return -n if neg else n
    n = 0
    for c in cps:
        if base == 16:
            n = n * 16 + hexval(c)
        elif base == 10:
            if not (bool(c >= 48) and bool(c <= 57)):
                raise ValueError("invalid literal for int() with base 10")
            n = n * 10 + (c - 48)
        elif isinstance_raw(base, int) and 2 <= base <= 36:
            if isinstance_raw(c, SymBase):  # 0-9, then letters of either case
                t = fit(c.term, max(9, c.term.size()))
                lim = min(base, 10)
                ok = [z3.And(t >= 48, t < 48 + lim)]
                ok += [z3.And(t >= a, t < a + base - 10) for a in (65, 97)] if base > 10 else []
                if not ENG.decide(z3.Or(*ok)):
                    raise ValueError(f"invalid literal for int() with base {base}")
                n = n * base + _mk(z3.If(t < 65, t - 48, z3.If(t < 97, t - 55, t - 87)), 0, base - 1)
            else:
                n = n * base + int(chr(c), base)
        else:
            raise Leak("int base")
    return -n if neg else n
