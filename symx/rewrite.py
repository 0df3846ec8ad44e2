"""Import-time AST rewrite of the code under test and the runtime helpers the
rewritten code calls.  Concrete values take the ordinary CPython operation;
only operations that involve a symbolic proxy are modelled."""

from __future__ import annotations

import ast
import builtins
import collections
import copy
import enum
import functools
import importlib.abc
import importlib.machinery
import importlib.util
import json
import logging
import operator
import os
import string
import struct
import sys
import types
import zlib

import z3

from . import core
from .core import (
    Leak, SymBase, SymBool, SymBytes, SymInt, SymReal, SymSeq, SymStr,
    arith, bv8, byte_of, cps_of, eng, items_of, join_bytes, join_str, mkbytes, mkbool,
    mkstr, native_int, nib_char, str_fromhex, str_int, sym_not, fit, _mk,
)

STORING = False
FUNCS: set[str] = set()
raw_isinstance = isinstance
raw_type = type


def hashdef(f):
    """Decorator the rewriter puts on `__hash__`: the interpreter itself needs an integer."""

    @functools.wraps(f)
    def wrapper(self):
        h = probe_hash(f, self)
        return 0 if raw_isinstance(h, SymBase) else h

    wrapper.__sx_raw__ = f
    return wrapper


PROBE = False
FORCED = False


def forced_hash(x):
    """The hash of x with the built-in hash function left uninterpreted, also where x is concrete."""
    global FORCED
    old, FORCED = FORCED, True
    try:
        return m_hash(x)
    finally:
        FORCED = old


def probe_hash(f, x):
    """The hash of x if it is concrete, any symbolic number if it is not."""
    global PROBE
    old, PROBE = PROBE, True
    try:
        return f(x)
    finally:
        PROBE = old


def user_hash(x):
    f = py_method(x, "__hash__")
    return getattr(f, "__sx_raw__", f)


def sym_key(k):
    """Is k a key whose hash depends on symbolic data?"""
    if has_sym(k):
        return True
    if raw_type(k) is tuple:
        return any(sym_key(i) for i in k)
    f = user_hash(k)
    if f is None or not hasattr(raw_type(k).__hash__, "__sx_raw__"):
        return False
    try:
        return raw_isinstance(probe_hash(getattr(f, "__sx_raw__", f), k), SymBase)
    except TypeError:
        return False


def has_sym(x):
    if raw_isinstance(x, SymBase):
        return True
    if raw_type(x) is tuple:
        return any(has_sym(i) for i in x)
    return False


# ---------------------------------------------------------------------------
# thin builtin subclasses used as bases so `super().__new__` etc. see proxies


class SInt(int):
    def __new__(cls, *args, **kwargs):
        if args and raw_isinstance(args[0], SymBase):
            return conv_int(args[0], cls)
        return int.__new__(cls, *args, **kwargs)

    def to_bytes(self, *a, **k):
        if raw_isinstance(self, SymBase):
            return core.sym_to_bytes(self, *a, **k)
        return int.to_bytes(self, *a, **k)

    def bit_length(self):
        if raw_isinstance(self, SymBase):
            return core.sym_bit_length(self)
        return int.bit_length(self)

    @classmethod
    def from_bytes(cls, data, byteorder="big", *, signed=False):
        if raw_isinstance(data, SymBase):
            return sx_call(cls, int_from_bytes(data, byteorder, signed))
        return cls(int.from_bytes(data, byteorder, signed=signed))


class SBytes(bytes):
    def __new__(cls, *args, **kwargs):
        if args and (raw_isinstance(args[0], SymBase) or raw_isinstance(args[0], (list, tuple)) and any(map(core.is_sym, args[0]))):
            return SymBytes(conv_bytes(args[0]), cls)
        return bytes.__new__(cls, *args, **kwargs)


class SStr(str):
    def __new__(cls, *args, **kwargs):
        if args and raw_isinstance(args[0], SymStr):
            return SymStr(args[0].cps, cls)
        if args and raw_isinstance(args[0], SymBytes) and len(args) > 1:
            return core.sb_decode(args[0], *args[1:]).retype(cls)
        return str.__new__(cls, *args, **kwargs)


class SFloat(float):
    def __new__(cls, *args, **kwargs):
        if args and raw_isinstance(args[0], SymFloat):
            return SymFloat(args[0].term, cls)
        if args and raw_isinstance(args[0], SymInt):
            return args[0]
        return float.__new__(cls, *args, **kwargs)


SymInt._sx_natives = (int, SInt)
SymBytes._sx_natives = (bytes, SBytes, bytearray)
SymStr._sx_natives = (str, SStr)


class SymFloat(SymBase):
    """An IEEE double known by its bit pattern."""

    _sx_natives = (float, SFloat)
    _sx_methods = {}

    def __init__(self, term, cls=float):
        self.term = term
        self._sx_cls = cls

    def fp(self):
        return z3.fpBVToFP(self.term, z3.Float64())

    def __eq__(self, o):
        if raw_isinstance(o, SymFloat):
            return SymBool(z3.fpEQ(self.fp(), o.fp()))
        if raw_isinstance(o, (int, float)):
            return SymBool(z3.fpEQ(self.fp(), z3.FPVal(float(o), z3.Float64())))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __hash__(self):
        raise Leak("hash of symbolic float")


BASES = {int: SInt, bytes: SBytes, str: SStr, float: SFloat}


def sx_base(b):
    return BASES.get(b, b) if raw_isinstance(b, raw_type) else b


# ---------------------------------------------------------------------------
# conversions


def conv_int(x, cls=int):
    if raw_isinstance(x, SymBool):
        x = x._int()
    if raw_isinstance(x, SymInt):
        return x.retype(cls)
    if raw_isinstance(x, SymReal):
        i = z3.ToInt(x.term)
        t = z3.If(x.term >= 0, i, -z3.ToInt(-x.term))
        return int_of_real(t)
    if raw_isinstance(x, SymStr):
        r = str_int(x.cps, 10)
        return r.retype(cls) if raw_isinstance(r, SymInt) else cls(r)
    raise Leak(f"int({x!r})")


def int_of_real(t):
    raise Leak("int of symbolic real")


def conv_bytes(x):
    it = items_of(x)
    if it is not None:
        return it
    if raw_isinstance(x, SymInt):
        return [0] * x.concrete()
    out = []
    for i in x:
        if raw_isinstance(i, SymBool):
            i = i._int()
        if raw_isinstance(i, SymInt):
            if i.lo < 0 or i.hi > 255:
                p = i.plain()
                if p < 0 or p > 255:
                    raise ValueError("bytes must be in range(0, 256)")
            out.append(byte_of(bv8(i)) if (i.lo < 0 or i.hi > 255 or i._sx_cls is not int) else i)
        else:
            n = operator.index(i)
            if not 0 <= n <= 255:
                raise ValueError("bytes must be in range(0, 256)")
            out.append(n)
    return out


def int_from_bytes(data, byteorder="big", signed=False):
    it = items_of(data)
    if it is None:
        it = conv_bytes(data)
    if byteorder == "little":
        it = it[::-1]
    elif byteorder != "big":
        raise ValueError("byteorder must be either 'little' or 'big'")
    if not it:
        return 0
    bvs = [bv8(i) for i in it]
    t = z3.Concat(*bvs) if len(bvs) > 1 else bvs[0]
    n = 8 * len(it)
    if signed:
        return _mk(t, -(1 << (n - 1)), (1 << (n - 1)) - 1)
    return _mk(z3.ZeroExt(1, t), 0, (1 << n) - 1)


def select(items, idx):
    n = len(items)
    lo, hi = idx.lo, idx.hi
    p = idx.plain()
    if lo < -n or hi >= n:
        if not (bool(p >= -n) and bool(p < n)):
            raise IndexError("index out of range")
    if lo < 0 and p < 0:
        p = p + n
    if not raw_isinstance(p, SymInt):
        return items[p]
    ints = all(raw_type(i) is int or raw_isinstance(i, SymInt) and i._sx_cls is int for i in items)
    lo, hi = max(p.lo, 0), min(p.hi, n - 1)
    if not ints:
        return items[p.concrete()]
    vals = items[lo : hi + 1]
    vlo = min(v.lo if raw_isinstance(v, SymInt) else v for v in vals)
    vhi = max(v.hi if raw_isinstance(v, SymInt) else v for v in vals)
    w = core.width_for(vlo, vhi)
    iw = p.term.size()

    def build(a, b):
        if a == b:
            return core._t(items[a].term if raw_isinstance(items[a], SymInt) else items[a], w)
        m = (a + b) // 2
        return z3.If(p.term <= z3.BitVecVal(m, iw), build(a, m), build(m + 1, b))

    return _mk(build(lo, hi), vlo, vhi)


# ---------------------------------------------------------------------------
# dictionaries and sets


def keq(a, b):
    if a is b:
        return True
    if raw_type(a) is tuple or raw_type(b) is tuple:
        if raw_type(a) is not raw_type(b) or len(a) != len(b):
            return False
        return all(keq(x, y) for x, y in zip(a, b))
    r = bool(a == b)
    if r and hasattr(raw_type(a).__hash__, "__sx_raw__"):
        # equal objects are found again only if they also hash equally
        ha, hb = m_hash(a), m_hash(b)
        if raw_isinstance(ha, SymBase) is not raw_isinstance(hb, SymBase):
            ha, hb = forced_hash(a), forced_hash(b)
        return bool(ha == hb)
    return r


def plain_dict(o):
    t = raw_type(o)
    if not issubclass(t, dict):
        return False
    return True


def dfind(d, k):
    """(True, actual key) or (False, None)"""
    if sym_key(k):
        for key in list(dict.keys(d)):
            if keq(key, k):
                return True, key
        return False, None
    sd = eng().symdicts.get(id(d)) if eng() else None
    if dict.__contains__(d, k):
        return True, k
    if sd is not None:
        for key in list(dict.keys(d)):
            if sym_key(key) and keq(key, k):
                return True, key
    return False, None


def symbolic_dict(d, k):
    if sym_key(k):
        return True
    e = core.ENG
    return e is not None and id(d) in e.symdicts


def dget_raw(d, key):
    global STORING
    STORING = True
    try:
        return dict.__getitem__(d, key)
    finally:
        STORING = False


def dset_raw(d, key, v):
    global STORING
    STORING = True
    try:
        dict.__setitem__(d, key, v)
    finally:
        STORING = False


def ddel_raw(d, key):
    global STORING
    STORING = True
    try:
        dict.__delitem__(d, key)
    finally:
        STORING = False


def d_set(d, k, v):
    found, key = dfind(d, k)
    if found:
        dset_raw(d, key, v)
    else:
        if sym_key(k):
            eng().symdicts[id(d)] = d
        dset_raw(d, k, v)


def d_get(d, k, default=None):
    found, key = dfind(d, k)
    return dget_raw(d, key) if found else default


_MISSING = object()


def d_pop(d, k, *default):
    found, key = dfind(d, k)
    if found:
        v = dget_raw(d, key)
        ddel_raw(d, key)
        return v
    if default:
        return default[0]
    raise KeyError(k)


def d_setdefault(d, k, default=None):
    found, key = dfind(d, k)
    if found:
        return dget_raw(d, key)
    d_set(d, k, default)
    return default


def d_update(d, *a, **kw):
    for m in a:
        if hasattr(m, "keys"):
            for k in m.keys():
                sx_setitem(d, k, sx_getitem(m, k))
        else:
            for k, v in m:
                sx_setitem(d, k, v)
    for k, v in kw.items():
        sx_setitem(d, k, v)


def mk_dict(pairs):
    d = {}
    for k, v in pairs:
        if has_sym(k):
            d_set(d, k, v)
        else:
            sx_setitem(d, k, v)
    return d


class SymSet:
    """A set with symbolic elements: a list kept free of duplicates."""

    __hash__ = None

    def __init__(self, it=()):
        self.l = []
        for x in it:
            self.add(x)

    @property
    def __class__(self):
        return set

    def __contains__(self, x):
        return any(keq(y, x) for y in self.l)

    def add(self, x):
        if x not in self:
            self.l.append(x)

    def discard(self, x):
        for i, y in enumerate(self.l):
            if keq(y, x):
                del self.l[i]
                return

    def remove(self, x):
        n = len(self.l)
        self.discard(x)
        if len(self.l) == n:
            raise KeyError(x)

    def pop(self):
        return self.l.pop()

    def clear(self):
        self.l.clear()

    def copy(self):
        s = SymSet()
        s.l = list(self.l)
        return s

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def __iter__(self):
        return iter(list(self.l))

    def __len__(self):
        return len(self.l)

    def __sub__(self, o):
        return mk_set(x for x in self.l if not sx_in(x, o))

    def __rsub__(self, o):
        return mk_set(x for x in o if x not in self)

    def __or__(self, o):
        return mk_set([*self.l, *o])

    __ror__ = __or__

    def __and__(self, o):
        return mk_set(x for x in self.l if sx_in(x, o))

    __rand__ = __and__

    def __xor__(self, o):
        return (self - o) | (mk_set(o) - self)

    __rxor__ = __xor__
    difference = __sub__
    union = __or__
    intersection = __and__

    def __eq__(self, o):
        if not raw_isinstance(o, (set, frozenset, SymSet)):
            return NotImplemented
        return len(o) == len(self.l) and all(sx_in(x, o) for x in self.l)

    def __ne__(self, o):
        return not (self == o)

    def __le__(self, o):
        return all(sx_in(x, o) for x in self.l)

    issubset = __le__

    def __ge__(self, o):
        return all(x in self for x in o)

    issuperset = __ge__

    def __lt__(self, o):
        return self <= o and len(self) < len(o)

    def __gt__(self, o):
        return self >= o and len(self) > len(o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)


def mk_set(it, cls=set):
    l = list(it)
    if any(has_sym(x) for x in l):
        return SymSet(l)
    return cls(l)


# ---------------------------------------------------------------------------
# operations the rewritten code calls


def sx_getitem(o, k):
    t = raw_type(o)
    if raw_isinstance(o, SymBase):
        return o[k]
    if t is dict or issubclass(t, dict):
        if symbolic_dict(o, k):
            gi = t.__getitem__
            if gi is dict.__getitem__ or t is collections.OrderedDict:
                found, key = dfind(o, k)
                if found:
                    return dget_raw(o, key)
                m = getattr(t, "__missing__", None)
                if m is not None:
                    if issubclass(t, collections.defaultdict):
                        if o.default_factory is None:
                            raise KeyError(k)
                        v = o.default_factory()
                        d_set(o, k, v)
                        return v
                    return m(o, k)
                raise KeyError(k)
        return o[k]
    if raw_isinstance(k, SymInt):
        if t is list or t is tuple or issubclass(t, (list, tuple)) and t.__getitem__ in (list.__getitem__, tuple.__getitem__):
            return select(list(o), k)
        if issubclass(t, (bytes, bytearray)):
            return select(list(o), k)
        if issubclass(t, str):
            return mkstr([select([ord(c) for c in o], k)])
        if t is range:
            return select(list(o), k)
    elif raw_isinstance(k, SymStr) and issubclass(t, enum.EnumMeta):
        found, key = dfind(o._member_map_, k)
        if not found:
            raise KeyError(k)
        return dget_raw(o._member_map_, key)
    elif raw_isinstance(k, SymBool) and issubclass(t, (list, tuple, bytes, str)):
        return o[int(bool(k))]
    elif raw_type(k) is slice and (has_sym(k.start) or has_sym(k.stop) or has_sym(k.step)) and hasattr(t, "__len__"):
        return o[core._conc_slice(k, len(o))]
    return o[k]


def sx_setitem(o, k, v):
    t = raw_type(o)
    if issubclass(t, dict) and symbolic_dict(o, k) and t.__setitem__ in (dict.__setitem__, collections.OrderedDict.__setitem__):
        d_set(o, k, v)
        return
    if raw_isinstance(k, SymInt) and issubclass(t, (list, bytearray)):
        k = k.concrete()
    if t is bytearray and (has_sym(v) or raw_isinstance(v, SymBytes)):
        raise Leak("symbolic store into concrete bytearray")
    o[k] = v


def sx_delitem(o, k):
    t = raw_type(o)
    if issubclass(t, dict) and symbolic_dict(o, k) and t.__delitem__ in (dict.__delitem__, collections.OrderedDict.__delitem__):
        d_pop(o, k)
        return
    if raw_isinstance(k, SymInt):
        k = k.concrete()
    del o[k]


def sx_augitem(o, k, op, v):
    cur = sx_getitem(o, k)
    sx_setitem(o, k, op(cur, v))


_VIEWS = (raw_type({}.keys()), raw_type({}.items()), raw_type({}.values()))


def sx_in(x, c):
    if raw_isinstance(c, SymBase):
        return x in c
    t = raw_type(c)
    if issubclass(t, dict):
        if symbolic_dict(c, x) and t.__contains__ is dict.__contains__:
            return dfind(c, x)[0]
        return x in c
    if t is set and core.ENG is not None and id(c) in core.ENG.symdicts and not has_sym(x):
        return set.__contains__(c, x) or any(has_sym(y) and keq(y, x) for y in c)
    if has_sym(x):
        if raw_isinstance(c, (set, frozenset, list, tuple, collections.deque, *_VIEWS)) or t is SymSet:
            if raw_isinstance(x, SymInt) and raw_isinstance(c, (set, frozenset, list, tuple)) and len(c) > 1:
                # one disjunction instead of a fork per element
                rs = []
                for y in c:
                    if y is x:
                        return True
                    r = x == y
                    if r is True:
                        return True
                    if raw_isinstance(r, SymBool):
                        rs.append(r.term)
                    elif r is not False and r is not NotImplemented and r:
                        return True
                return bool(mkbool(z3.simplify(z3.Or(*rs)))) if rs else False
            return any(keq(y, x) for y in c)
        if t is range and raw_isinstance(x, SymInt):
            lo, hi = (c[0], c[-1]) if len(c) else (0, -1)
            if not len(c):
                return False
            if lo > hi:
                lo, hi = hi, lo
            if not (bool(x >= lo) and bool(x <= hi)):
                return False
            return abs(c.step) == 1 or bool((x - c.start) % abs(c.step) == 0)
        if raw_isinstance(c, (bytes, bytearray)):
            if raw_isinstance(x, SymInt):
                return any(bool(x == y) for y in c)
            return SymBytes(list(c)).__contains__(x)
        if raw_isinstance(c, str):
            return SymStr([ord(ch) for ch in c]).__contains__(x)
        if raw_isinstance(c, enum.EnumMeta):
            if raw_isinstance(x, SymInt):
                return any(bool(x == m.value) for m in c)
    return x in c


def sx_not_in(x, c):
    return not sx_in(x, c)


def sx_is(a, b):
    if a is b:
        return True
    if raw_isinstance(a, SymBase) or raw_isinstance(b, SymBase):
        if not raw_isinstance(a, SymBase):
            a, b = b, a
        if b is None or b is Ellipsis or b is NotImplemented:
            return False
        if raw_isinstance(a, SymBool):
            return bool(a == b) if (b is True or b is False or raw_isinstance(b, SymBool)) else False
        bc = b._sx_cls if raw_isinstance(b, SymBase) else raw_type(b)
        ac = a._sx_cls
        if raw_isinstance(a, SymInt) and raw_isinstance(ac, enum.EnumMeta) and bc is ac:
            return bool(core.SymInt._cmp(a, b, "eq", None))
        return False
    return False


def sx_eq(a, b):
    """==; lists and tuples are compared without a fork for each element."""
    ta, tb = raw_type(a), raw_type(b)
    if (ta is list or (raw_isinstance(a, list) and ta.__eq__ is list.__eq__)) and (tb is list or (raw_isinstance(b, list) and tb.__eq__ is list.__eq__)):
        return seq_eq(a, b)
    if ta is tuple and tb is tuple:
        return seq_eq(a, b)
    return a == b


def seq_eq(a, b):
    n = list.__len__(a) if raw_isinstance(a, list) else len(a)
    if n != (list.__len__(b) if raw_isinstance(b, list) else len(b)):
        return False
    rs = []
    it = list.__iter__ if raw_isinstance(a, list) else iter
    jt = list.__iter__ if raw_isinstance(b, list) else iter
    for x, y in zip(it(a), jt(b)):
        if x is y:
            continue
        r = sx_eq(x, y)
        if r is False:
            return False
        if r is not True:
            if not raw_isinstance(r, SymBool):
                if not r:
                    return False
                continue
            rs.append(r)
    return core.sym_and(*rs) if rs else True


def sx_ne(a, b):
    ta, tb = raw_type(a), raw_type(b)
    if (ta is tuple and tb is tuple) or (raw_isinstance(a, list) and raw_isinstance(b, list) and ta.__ne__ is list.__ne__ and tb.__ne__ is list.__ne__
                                         and ta.__eq__ is list.__eq__ and tb.__eq__ is list.__eq__):
        return core.sym_not(seq_eq(a, b))
    return a != b


def sx_is_not(a, b):
    return not sx_is(a, b)


def hex_digits(x, upper):
    """SymInt >= 0 of known width -> list of code points, most significant first, or None."""
    if x.lo < 0:
        return None
    n = max(1, (x.hi.bit_length() + 3) // 4)
    return [nib_char((x >> (4 * i)) & 15, upper, x, 4 * i) for i in range(n - 1, -1, -1)]


def fmt_int(x, spec):
    import re

    m = re.fullmatch(r"(#?)(0?)(\d*)([xXd]?)", spec)
    if m:
        alt, zero, width, ty = m.groups()
        width = int(width or 0)
        if ty in "xX" and ty:
            ds = hex_digits(x, ty == "X")
            if ds is not None:
                pre = [48, ord(ty)] if alt else []
                need = width - len(pre)
                if len(ds) <= need:
                    if zero:
                        return mkstr(pre + [48] * (need - len(ds)) + ds)
                else:
                    # drop leading zero digits down to the minimum width (forks)
                    while len(ds) > max(need, 1) and ds[0] == 48:
                        ds.pop(0)
                    return mkstr(pre + ds)
                while len(ds) > 1 and ds[0] == 48:
                    ds.pop(0)
                return mkstr([32] * (need - len(ds)) + pre + ds)
    return None


def fv(value, conv=-1, spec=""):
    """One f-string/format field."""
    if raw_isinstance(spec, SymStr):
        spec = "?"
    if raw_isinstance(value, SymBase):
        if conv == 114 or conv == 97:
            return sx_repr(value)
        if conv == 115:
            value = sx_str(value)
        if raw_isinstance(value, LazyStr):
            return value
        if raw_isinstance(value, SymStr):
            return value.plain() if not spec else value.plain()
        if raw_isinstance(value, SymInt):
            if spec:
                r = fmt_int(value, spec)
                if r is not None:
                    return r
            else:
                return sx_str(value)
        return format(value, "")
    if conv == 114:
        value = sx_repr(value)
    elif conv == 115:
        value = sx_str(value)
    elif conv == 97:
        value = ascii(value)
    if raw_isinstance(value, SymStr):
        return value
    try:
        if not spec:
            return sx_str(value)
        return format(value, spec)
    except (TypeError, ValueError) as e:
        if raw_type(value) in (str, int, float):
            raise
        return f"<sym {raw_type(value).__name__}>" if core.ENG is not None and "sym" in repr(e) else _reraise(e)


def _reraise(e):
    raise e


CHEAP = 0


def sx_fstr_msg(*parts):
    """An f-string in a raise statement: the digits of numbers are left out."""
    if core.ENG is not None and any(_lazy_part(p) for p in parts):
        return LazyStr(lambda: _msg(parts))
    return _msg(parts)


def _msg(parts):
    global CHEAP
    CHEAP += 1
    try:
        return _fstr(*parts)
    finally:
        CHEAP -= 1


def decimal(x):
    """Decimal text of a symbolic integer; forks on sign and number of digits."""
    if CHEAP or max(abs(x.lo), abs(x.hi)) >= 10**20:
        return repr(x)
    pre = []
    if x.lo < 0:
        if x < 0:
            pre, x = [45], -x
            if not raw_isinstance(x, SymInt):
                return mkstr(pre + [ord(c) for c in str(x)])
    n = 1
    while 10**n <= x.hi and x >= 10**n:
        n += 1
    return mkstr(pre + [(x // 10**i) % 10 + 48 for i in range(n - 1, -1, -1)])


class LazyStr(SymStr):
    """Text whose characters are worked out only if something looks at them."""

    def __init__(self, thunk):
        self._thunk = thunk
        self._cps = None
        self._sx_cls = str

    @property
    def cps(self):
        if self._cps is None:
            r = self._thunk()
            self._cps = list(cps_of(r))
        return self._cps

    def _sx_truth(self):
        return bool(self.cps)


def _lazy_part(p):
    if not raw_isinstance(p, tuple):
        return raw_isinstance(p, LazyStr)
    v, conv = p[0], p[1]
    if raw_isinstance(v, SymStr):
        return raw_isinstance(v, LazyStr)
    if raw_isinstance(v, SymBase):
        return True
    return conv == 114 and raw_type(v) not in (str, int, bytes, float, bool, raw_type(None))


def sx_fstr(*parts):
    if not CHEAP and core.ENG is not None and any(_lazy_part(p) for p in parts):
        return LazyStr(lambda: _fstr(*parts))
    return _fstr(*parts)


def _fstr(*parts):
    out = []
    for p in parts:
        if raw_isinstance(p, tuple):
            p = fv(*p)
        out.append(p)
    if any(raw_isinstance(p, SymStr) for p in out):
        return join_str([], out)
    return "".join(out)


def py_method(obj, name):
    """A Python-level (non builtin) implementation of `name` on obj's class."""
    f = getattr(raw_type(obj), name, None)
    if raw_isinstance(f, types.FunctionType) and f.__module__ not in ("enum",):
        return f
    return None


def sx_str(x="", *a, **k):
    if a or k:
        if raw_isinstance(x, SymBytes):
            return core.sb_decode(x, *a, **k)
        return str(x, *a, **k)
    if raw_isinstance(x, SymStr):
        return x.plain()
    if raw_isinstance(x, SymBase):
        f = x._sx_override("__str__")
        if f is None:
            f = x._sx_override("__repr__")
        if f is not None:
            return f(x)
        return decimal(x) if raw_type(x) is SymInt else repr(x)
    f = py_method(x, "__str__")
    if f is None and raw_type(x).__str__ is object.__str__:
        f = py_method(x, "__repr__")
    if f is not None:
        return f(x)
    return str(x)


def sx_repr(x):
    if raw_isinstance(x, SymBase):
        f = x._sx_override("__repr__")
        if f is not None:
            return f(x)
        return decimal(x) if raw_type(x) is SymInt else repr(x)
    f = py_method(x, "__repr__")
    if f is not None:
        return f(x)
    return _safe_repr(x)


def _safe_repr(x):
    try:
        return repr(x)
    except TypeError:
        return f"<{raw_type(x).__name__}>"


def str_format(fmt, *args, **kwargs):
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == "":
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field in kwargs:
            v = kwargs[field]
        else:
            v, _ = string.Formatter().get_field(field, args, kwargs)
        if spec and "{" in spec:
            spec = str_format(spec, *args[auto:], **kwargs)
        out.append(fv(v, ord(conv) if conv else -1, spec or ""))
    if any(raw_isinstance(p, SymStr) for p in out):
        return join_str([], out)
    return "".join(out)


def sx_mod(a, b):
    if raw_isinstance(a, (str, SymStr)) and not raw_isinstance(a, SymInt):
        if raw_isinstance(b, (str, bytes)) and not raw_isinstance(b, SymBase):
            return a % b
        vals = list(b) if raw_type(b) is tuple else [b]
        if any(map(core.is_sym, vals)):
            return pct_format(a, vals)
        return a % b
    return a % b


def pct_format(fmt, vals):
    import re

    out, pos, k = [], 0, 0
    for m in re.finditer(r"%(?:%|(#?0?\d*)([sdrxXi]))", fmt):
        out.append(fmt[pos : m.start()])
        pos = m.end()
        if m.group(0) == "%%":
            out.append("%")
            continue
        v, ty, spec = vals[k], m.group(2), m.group(1)
        k += 1
        if ty in "xX":
            out.append(fv(v, -1, spec + ty))
        else:
            out.append(fv(v, 114 if ty == "r" else -1, ""))
    out.append(fmt[pos:])
    if any(raw_isinstance(p, SymStr) for p in out):
        return join_str([], out)
    return "".join(map(str, out))


# ---------------------------------------------------------------------------
# calls


MODELS = {}
METHODS = {}


def model(*fs):
    def deco(g):
        for f in fs:
            MODELS[f] = g
        return g

    return deco


def any_sym(args, kw):
    for a in args:
        if raw_isinstance(a, SymBase):
            return True
    if kw:
        for a in kw.values():
            if raw_isinstance(a, SymBase):
                return True
    return False


@model(len)
def m_len(x):
    return len(x)


@model(type)
def m_type(*a, **k):
    if len(a) == 1 and not k:
        if raw_isinstance(a[0], SymBase):
            return a[0]._sx_cls
        if raw_type(a[0]) is SymSet:
            return set
        return raw_type(a[0])
    return raw_type(*a, **k)


@model(int)
def m_int(x=0, *a, **k):
    if raw_isinstance(x, SymStr):
        base = a[0] if a else k.get("base", 10)
        return str_int(x.cps, base)
    if raw_isinstance(x, SymBase):
        f = x._sx_override("__int__") if not raw_isinstance(x, SymBool) else None
        if f is not None:
            return f(x)
        r = conv_int(x)
        return r.plain() if raw_isinstance(r, SymInt) else r
    if not a and not k:
        f = py_method(x, "__int__")
        if f is not None:
            r = f(x)
            if r is not NotImplemented:
                return r
    return int(x, *a, **k)


@model(bool)
def m_bool(x=False):
    if raw_isinstance(x, SymBase):
        f = x._sx_override("__bool__") if not raw_isinstance(x, SymBool) else None
        if f is not None:
            return f(x)
        return x._sx_truth() if hasattr(x, "_sx_truth") else bool(x)
    return bool(x)


@model(float)
def m_float(x=0.0):
    if raw_isinstance(x, SymBase):
        return x
    return float(x)


@model(bytes)
def m_bytes(x=b"", *a, **k):
    if raw_isinstance(x, SymStr):
        return core.ss_encode(x, *a, **k)
    if raw_isinstance(x, SymBase):
        return mkbytes(conv_bytes(x))
    if raw_isinstance(x, (bytes, bytearray, memoryview, int, str)) and not a:
        return bytes(x)
    if a or k:
        return bytes(x, *a, **k)
    f = py_method(x, "__bytes__")
    if f is not None:
        return f(x)
    return mkbytes(conv_bytes(x))


@model(bytearray)
def m_bytearray(x=b"", *a, **k):
    if a or k:
        return bytearray(x, *a, **k)
    if core.ENG is None:
        return bytearray(x)
    if raw_isinstance(x, int) and not raw_isinstance(x, SymBase):
        return SymBytes([0] * x, bytearray)
    return SymBytes(conv_bytes(x), bytearray)


model(str)(sx_str)
model(repr)(sx_repr)


@model(format)
def m_format(x, spec=""):
    return fv(x, -1, spec)


@model(hex)
def m_hex(x):
    if raw_isinstance(x, SymInt):
        return fv(x, -1, "#x")
    return hex(x)


@model(bin)
def m_bin(x):
    if raw_isinstance(x, SymInt):
        return "0b<sym>"
    return bin(x)


@model(ord)
def m_ord(x):
    if raw_isinstance(x, SymStr):
        return x.cps[0]
    if raw_isinstance(x, SymBytes):
        return x.items[0]
    return ord(x)


@model(chr)
def m_chr(x):
    if raw_isinstance(x, SymInt):
        return mkstr([x.plain()])
    return chr(x)


@model(range)
def m_range(*a):
    if not any_sym(a, None):
        return range(*a)

    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    else:
        start, stop, step = a[0], a[1], (a[2] if len(a) > 2 else 1)
    if raw_isinstance(step, SymInt):
        step = step.concrete()

    def gen():
        i = start
        while bool(i < stop) if step > 0 else bool(i > stop):
            yield i
            i = i + step

    return SymRange(gen, start, stop, step)


class SymRange:
    def __init__(self, gen, start, stop, step):
        self.gen, self.start, self.stop, self.step = gen, start, stop, step

    def __iter__(self):
        return self.gen()

    def __len__(self):
        return len(list(self.gen()))

    def __contains__(self, x):
        return bool(x >= self.start) and bool(x < self.stop) and (self.step == 1 or any(bool(y == x) for y in self))


@model(set)
def m_set(it=()):
    return mk_set(it, set)


@model(frozenset)
def m_frozenset(it=()):
    return mk_set(it, frozenset)


@model(dict)
def m_dict(*a, **k):
    if a and not raw_isinstance(a[0], dict):
        l = list(a[0].items()) if hasattr(a[0], "keys") and not raw_isinstance(a[0], dict) and hasattr(a[0], "items") else [tuple(p) for p in a[0]]
        if any(has_sym(p[0]) for p in l):
            d = mk_dict(l)
            d.update(k)
            return d
        return dict(l, **k)
    r = dict(*a, **k)
    if a and core.ENG is not None and id(a[0]) in core.ENG.symdicts:
        core.ENG.symdicts[id(r)] = r
    return r


@model(min)
def m_min(*a, **k):
    return _minmax(a, k, min, lambda x, y: x < y)


@model(max)
def m_max(*a, **k):
    return _minmax(a, k, max, lambda x, y: x > y)


def _minmax(a, k, f, better):
    if not k and len(a) == 2 and any_sym(a, None) and all(native_int(x) is not None or raw_isinstance(x, SymInt) for x in a):
        x, y = a
        ox, oy = core._operand(x), core._operand(y)
        c = better(y, x)  # python returns the first on ties
        if not raw_isinstance(c, SymBool):
            return y if c else x
        lo = f(ox[0], oy[0])
        hi = f(ox[1], oy[1])
        cls = {v._sx_cls if raw_isinstance(v, SymInt) else raw_type(v) for v in a}
        w = core.width_for(min(ox[0], oy[0]), max(ox[1], oy[1]))
        if cls == {int}:
            return _mk(z3.If(c.term, core._t(oy[2], w), core._t(ox[2], w)), lo, hi)
        return y if c else x
    return f(*a, **k)


@model(abs)
def m_abs(x):
    return abs(x)


@model(round)
def m_round(x, n=None):
    if raw_isinstance(x, SymInt):
        return x.plain()
    if raw_isinstance(x, SymBase):
        raise Leak("round of symbolic real")
    return round(x) if n is None else round(x, n)


@model(pow)
def m_pow(a, b, c=None):
    if c is None:
        return a**b
    if any_sym((a, b, c), None):
        raise Leak("pow(a,b,c)")
    return pow(a, b, c)


@model(sum)
def m_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


@model(struct.pack)
def m_pack(fmt, *args):
    if not any_sym(args, None):
        return struct.pack(fmt, *args)
    order = "little"
    f = fmt
    if f[0] in "<>=!@":
        order = "big" if f[0] in ">!" else "little"
        f = f[1:]
    out = []
    sizes = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8}
    args = list(args)
    for ch in f:
        x = args.pop(0)
        if ch == "d":
            if not raw_isinstance(x, SymFloat):
                raise Leak("pack d of symbolic non-float")
            bs = [byte_of(z3.simplify(z3.Extract(8 * i + 7, 8 * i, x.term))) for i in range(8)]
            out += bs if order == "little" else bs[::-1]
        elif ch in sizes:
            n = sizes[ch]
            if raw_isinstance(x, SymInt):
                try:
                    out += items_of(core.sym_to_bytes(x, n, order, signed=ch.islower()))
                except OverflowError as e:
                    raise struct.error(str(e)) from None
            else:
                out += list(struct.pack(("<" if order == "little" else ">") + ch, x))
        else:
            raise Leak(f"struct.pack {fmt}")
    return mkbytes(out)


@model(struct.unpack)
def m_unpack(fmt, data):
    if not raw_isinstance(data, SymBytes):
        return struct.unpack(fmt, data)
    order = "little"
    f = fmt
    if f[0] in "<>=!@":
        order = "big" if f[0] in ">!" else "little"
        f = f[1:]
    sizes = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8, "d": 8}
    if len(data.items) != struct.calcsize(fmt):
        raise struct.error(f"unpack requires a buffer of {struct.calcsize(fmt)} bytes")
    out = []
    pos = 0
    for ch in f:
        if ch not in sizes:
            raise Leak(f"struct.unpack {fmt}")
        n = sizes[ch]
        seg = data.items[pos : pos + n]
        pos += n
        if ch == "d":
            bs = seg if order == "big" else seg[::-1]
            out.append(SymFloat(z3.simplify(z3.Concat(*[bv8(i) for i in bs]))))
        else:
            out.append(int_from_bytes(SymBytes(seg), order, ch.islower()))
    return tuple(out)


@model(struct.unpack_from)
def m_unpack_from(fmt, data, offset=0):
    if not raw_isinstance(data, SymBytes):
        return struct.unpack_from(fmt, data, offset)
    offset = core._conc_index(offset)
    return m_unpack(fmt, SymBytes(data.items[offset : offset + struct.calcsize(fmt)]))


class JsonText(str):
    """Result of json.dumps over data with symbolic leaves."""

    def __new__(cls, data):
        s = str.__new__(cls, "<symbolic json>")
        s.data = data
        return s


def json_norm(x):
    if raw_isinstance(x, SymBase):
        return x.plain() if hasattr(x, "plain") else x
    if x is None or raw_type(x) in (bool, float):
        return x
    if raw_isinstance(x, str):
        return str(x) if raw_type(x) is not str else x
    if raw_isinstance(x, int):
        return int(x)
    if raw_isinstance(x, float):
        return float(x)
    if raw_isinstance(x, dict):
        d = {}
        for k, v in dict.items(x):
            if not raw_isinstance(k, str) and not raw_isinstance(k, SymStr):
                k = {True: "true", False: "false", None: "null"}[k] if k in (True, False, None) else str(int(k))
            sx_setitem(d, k, json_norm(v))
        return d
    if raw_isinstance(x, (list, tuple)):
        return [json_norm(v) for v in x]
    raise TypeError(f"Object of type {raw_type(x).__name__} is not JSON serializable")


@model(json.dumps)
def m_dumps(obj, *a, **k):
    if core.ENG is None or k.get("default"):
        return json.dumps(obj, *a, **k)
    return JsonText(json_norm(obj))


@model(json.loads)
def m_loads(s, *a, **k):
    if raw_isinstance(s, JsonText):
        return json_norm(s.data)
    return json.loads(s, *a, **k)


_ufs = {}


def uf_bytes(name, data, outlen):
    """Uninterpreted function from byte strings (per length) to `outlen` bytes."""
    it = items_of(data)
    key = (name, len(it), outlen)
    if key not in _ufs:
        _ufs[key] = z3.Function(f"uf_{name}_{len(it)}", z3.BitVecSort(max(8, 8 * len(it))), z3.BitVecSort(8 * outlen))
    bvs = [bv8(i) for i in it] or [z3.BitVecVal(0, 8)]
    arg = z3.Concat(*bvs) if len(bvs) > 1 else bvs[0]
    t = _ufs[key](arg)
    return mkbytes([byte_of(z3.simplify(z3.Extract(8 * i + 7, 8 * i, t))) for i in range(outlen)])


class SymHash:
    def __init__(self, name, size, data=b""):
        self.name, self.digest_size, self.data = name, size, data

    def update(self, d):
        self.data = self.data + d

    def digest(self):
        it = items_of(self.data)
        if not any(raw_isinstance(i, SymBase) for i in it):
            return HASHNEW(self.name, bytes(it)).digest()
        return uf_bytes(self.name, self.data, self.digest_size)

    def hexdigest(self):
        d = self.digest()
        return core.sb_hex(d) if raw_isinstance(d, SymBase) else d.hex()


def _hash_model(name, f, size):
    def m(data=b"", **kw):
        if raw_isinstance(data, SymBase):
            return SymHash(name, size, data)
        return f(data, **kw)

    MODELS[f] = m


import hashlib  # noqa: E402

for _n, _s in dict(md5=16, sha1=20, sha224=28, sha256=32, sha384=48, sha512=64).items():
    _hash_model(_n, getattr(hashlib, _n), _s)


HASHNEW = hashlib.new


@model(hashlib.new)
def m_hashnew(name, data=b"", **kw):
    if core.ENG is not None and not kw:
        h = HASHNEW(name)
        return SymHash(h.name, h.digest_size, data)
    return HASHNEW(name, data, **kw)


@model(zlib.crc32)
def m_crc32(data, value=0):
    if raw_isinstance(data, SymBase) and raw_isinstance(value, SymBase):
        value = core._conc_index(value)
    if raw_isinstance(data, SymBase):
        # the CRC is affine in the bits of the data
        it = items_of(data)
        zero = bytearray(i if raw_isinstance(i, int) and not raw_isinstance(i, SymBase) else 0 for i in it)
        base = zlib.crc32(zero, value)
        acc = z3.BitVecVal(base, 32)
        blank = zlib.crc32(bytes(len(it)))
        for k, i in enumerate(it):
            if raw_isinstance(i, SymBase):
                b = bv8(i)
                one = bytearray(len(it))
                for j in range(8):
                    one[k] = 1 << j
                    c = zlib.crc32(one) ^ blank
                    acc = acc ^ (z3.SignExt(31, z3.Extract(j, j, b)) & z3.BitVecVal(c, 32))
        t = z3.simplify(acc)
        return int_from_bytes(mkbytes([byte_of(z3.simplify(z3.Extract(8 * i + 7, 8 * i, t))) for i in range(4)]), "little")
    return zlib.crc32(data, value)


@model(hash)
def m_hash(x):
    f = x._sx_override("__hash__") if raw_isinstance(x, SymBase) else user_hash(x)
    f = getattr(f, "__sx_raw__", f)
    if f is not None:
        return f(x)
    if raw_type(x) in (tuple, frozenset) and deep_sym(x):
        return sym_hash(x)
    if raw_isinstance(x, SymBase) and rewrite_hashable(x):
        return sym_hash(x)
    if FORCED and raw_isinstance(x, (int, bytes, str, tuple, frozenset)):
        return sym_hash(x)
    return hash(x)


def rewrite_hashable(x):
    return raw_isinstance(x, (SymInt, SymBool, SymBytes, SymStr))


def deep_sym(x):
    if raw_isinstance(x, SymBase):
        return True
    if raw_type(x) in (tuple, frozenset):
        return any(deep_sym(i) for i in x)
    return sym_key(x)


_PROBED = SymInt(z3.BitVec("probe", 8), -128, 127)


def sym_hash(x):
    """Hash as an uninterpreted function of the value: equal values hash equally, nothing else is known."""
    if PROBE:
        return _PROBED
    skel, data = [], b""

    def go(v):
        nonlocal data
        if raw_isinstance(v, SymBool):
            v = v._int()
        if raw_isinstance(v, SymInt) or (raw_isinstance(v, int) and py_method(v, "__hash__") is None):
            skel.append("i")
            data = data + conv_int(v).to_bytes(34, "little", signed=True) if raw_isinstance(v, SymInt) else data + int(v).to_bytes(34, "little", signed=True)
        elif raw_isinstance(v, (SymBytes, bytes)):
            skel.append(f"b{len(v)}")
            data = data + v
        elif raw_isinstance(v, SymStr):
            skel.append(f"s{len(v.cps)}")
            for c in v.cps:
                go(c)
        elif raw_isinstance(v, str):
            skel.append(f"s{len(v)}")
            for c in v:
                go(ord(c))
        elif raw_type(v) in (tuple, frozenset):
            skel.append(f"({len(v)}")
            for i in v:
                go(i)
        elif user_hash(v) is not None:
            skel.append("h")
            go(user_hash(v)(v))
        else:
            skel.append(f"o{hash(v)}")

    go(x)
    r = int_from_bytes(uf_bytes("hash:" + ",".join(skel), data, 7), "little")
    return r + 0 if raw_isinstance(r, int) else r.plain()


@model(enumerate)
def m_enumerate(it, start=0):
    if raw_isinstance(start, SymBase):

        def gen():
            i = start
            for x in it:
                yield i, x
                i = i + 1

        return gen()
    return enumerate(it, start)


# builtin methods -----------------------------------------------------------


def meth(cls, *names):
    def deco(g):
        for n in names:
            METHODS[cls, n] = g
        return g

    return deco


@meth(bytes, "join")
def mm_bjoin(s, parts):
    return join_bytes(list(s), parts)


@meth(str, "join")
def mm_sjoin(s, parts):
    parts = list(parts)
    if any(raw_isinstance(p, LazyStr) for p in parts):
        return LazyStr(lambda: join_str([ord(c) for c in s], parts))
    if any(raw_isinstance(p, SymStr) for p in parts):
        return join_str([ord(c) for c in s], parts)
    return s.join(parts)


@meth(str, "format")
def mm_sformat(s, *a, **k):
    return str_format(s, *a, **k)


for _name in "startswith endswith find rfind index count partition split replace removeprefix removesuffix".split():

    def _mk_b(n):
        def f(s, *a, **k):
            if any(has_sym(x) for x in a):
                return SymBytes(list(s)).__getattr__(n)(*a, **k)
            return getattr(s, n)(*a, **k)

        return f

    METHODS[bytes, _name] = _mk_b(_name)

for _name in "startswith endswith find split replace removeprefix".split():

    def _mk_s(n):
        def f(s, *a, **k):
            if any(has_sym(x) for x in a):
                return SymStr([ord(c) for c in s]).__getattr__(n)(*a, **k)
            return getattr(s, n)(*a, **k)

        return f

    METHODS[str, _name] = _mk_s(_name)


@meth(dict, "get")
def mm_dget(d, k, default=None):
    if symbolic_dict(d, k):
        return d_get(d, k, default)
    return dict.get(d, k, default)


@meth(dict, "pop")
def mm_dpop(d, k, *default):
    if symbolic_dict(d, k):
        return d_pop(d, k, *default)
    return dict.pop(d, k, *default)


@meth(dict, "setdefault")
def mm_dsetdefault(d, k, default=None):
    if symbolic_dict(d, k):
        return d_setdefault(d, k, default)
    return dict.setdefault(d, k, default)


@meth(dict, "__getitem__")
def mm_dgetitem(d, k):
    return sx_getitem(d, k)


@meth(dict, "__setitem__")
def mm_dsetitem(d, k, v):
    if symbolic_dict(d, k):
        return d_set(d, k, v)
    return dict.__setitem__(d, k, v)


@meth(dict, "__contains__")
def mm_dcontains(d, k):
    if symbolic_dict(d, k):
        return dfind(d, k)[0]
    return dict.__contains__(d, k)


@meth(dict, "update")
def mm_dupdate(d, *a, **k):
    e = core.ENG
    if e is not None and e.symdicts and any(id(x) in e.symdicts for x in (d, *a)):
        return d_update(d, *a, **k)
    return dict.update(d, *a, **k)


@meth(dict, "copy")
def mm_dcopy(d):
    r = d.copy()
    e = core.ENG
    if e is not None and id(d) in e.symdicts:
        e.symdicts[id(r)] = r
    return r


DEEPCOPY = copy.deepcopy


def m_deepcopy(x, memo=None):
    """Containers with symbolic keys need our own dictionary operations."""
    return deepcopy(x, {} if memo is None else memo)


def deepcopy(x, memo):
    if raw_isinstance(x, SymBase) or x is None:
        return x
    if id(x) in memo:
        return memo[id(x)]
    tx = raw_type(x)
    if tx is dict:
        r = memo[id(x)] = {}
        for k, v in dict.items(x):
            d_set(r, deepcopy(k, memo), deepcopy(v, memo))
        return r
    if tx is list:
        r = memo[id(x)] = []
        r.extend(deepcopy(v, memo) for v in x)
        return r
    if tx is tuple:
        return tuple(deepcopy(v, memo) for v in x)
    if tx in (set, frozenset):
        return mk_set(deepcopy(v, memo) for v in x) if any_sym(list(x), None) else copy.deepcopy(x, memo)
    if getattr(tx, "__dataclass_fields__", None) is not None and "__deepcopy__" not in dir(tx) and tx.__reduce_ex__ is object.__reduce_ex__:
        r = memo[id(x)] = tx.__new__(tx)
        for k, v in x.__dict__.items():
            r.__dict__[k] = deepcopy(v, memo)
        return r
    if raw_isinstance(x, list) and tx.__reduce_ex__ is object.__reduce_ex__ and tx.__reduce__ is object.__reduce__ and "__deepcopy__" not in dir(tx):
        r = memo[id(x)] = tx.__new__(tx)
        list.extend(r, [deepcopy(v, memo) for v in list.__iter__(x)])
        r.__dict__.update({k: deepcopy(v, memo) for k, v in getattr(x, "__dict__", {}).items()})
        return r
    return copy.deepcopy(x, memo)


@meth(list, "index")
def mm_lindex(l, x, *a):
    return l.index(x, *a)


@meth(list, "__mul__")
def mm_lmul(l, n):
    return l * core._conc_index(n)


def set_raw(n, s, x):
    global STORING
    STORING = True
    try:
        return getattr(set, n)(s, x)
    finally:
        STORING = False


def symbolic_set(s, x):
    e = core.ENG
    return e is not None and (has_sym(x) or id(s) in e.symdicts)


@meth(set, "add")
def mm_set_add(s, x):
    if not symbolic_set(s, x):
        return set.add(s, x)
    if not sx_in(x, s):
        if has_sym(x):
            eng().symdicts[id(s)] = s
        set_raw("add", s, x)


@meth(set, "discard")
def mm_set_discard(s, x):
    if not symbolic_set(s, x):
        return set.discard(s, x)
    for y in list(s):
        if keq(y, x):
            set_raw("discard", s, y)
            return


@meth(set, "remove")
def mm_set_remove(s, x):
    if not symbolic_set(s, x):
        return set.remove(s, x)
    n = len(s)
    mm_set_discard(s, x)
    if len(s) == n:
        raise KeyError(x)


@meth(set, "copy")
def mm_set_copy(s):
    return SymSet(s) if symbolic_set(s, None) else set.copy(s)


for _name in "union intersection difference symmetric_difference issubset issuperset isdisjoint update".split():

    def _mk_set(n):
        def f(s, *o):
            o = [list(x) if not raw_isinstance(x, (set, frozenset)) and raw_type(x) is not SymSet else x for x in o]
            if symbolic_set(s, None) or any(raw_type(x) is SymSet or any(has_sym(y) for y in x) for x in o):
                if n == "update":
                    for x in o:
                        for y in x:
                            METHODS[set, "add"](s, y)
                    return None
                r = SymSet(s)
                for x in o:
                    r2 = getattr(SymSet(r), {"union": "__or__", "intersection": "__and__", "difference": "__sub__",
                                             "symmetric_difference": "__xor__"}.get(n, n))(mk_set(x))
                    r = r2
                return r
            return getattr(s, n)(*o)

        return f

    METHODS[set, _name] = _mk_set(_name)


def _realise(x):
    if raw_isinstance(x, SymInt):
        v = x.concrete()
        return x._sx_cls(v) if x._sx_cls is not int else v
    if raw_isinstance(x, SymBool):
        return bool(x)
    if raw_isinstance(x, (SymBytes, SymStr)):
        return x.concrete()
    return x


@meth(int, "to_bytes")
def mm_to_bytes(s, *a, **k):
    a = [core._conc_index(x) for x in a]
    return s.to_bytes(*a, **k)


def m_from_bytes(cls, data, byteorder="big", *, signed=False):
    if raw_isinstance(data, SymBase) or raw_type(data) is list and any(map(core.is_sym, data)):
        v = int_from_bytes(data, byteorder, signed)
        return v if cls is int else sx_call(cls, v)
    return cls.from_bytes(data, byteorder, signed=signed)


def m_fromhex(cls, s):
    if raw_isinstance(s, SymStr):
        r = str_fromhex(s.cps)
        return r if cls is bytes else sx_call(cls, r)
    return cls.fromhex(s)


def enum_call(cls, args, kw):
    v = args[0]
    if raw_isinstance(v, SymBool):
        v = v._int()
    if not raw_isinstance(v, SymInt):
        if raw_isinstance(v, SymStr):
            return raw_type(cls).__call__(cls, *args, **kw)
        raise Leak(f"enum {cls.__name__} of {v!r}")
    if v._sx_cls is cls:
        return v
    e = core.ENG
    if "_member_type_" in cls.__dict__ and hasattr(cls, "_bits") and not getattr(e, "full_enums", False) and (
        getattr(cls, "_boundary_", None) in (None, enum.KEEP) or not issubclass(cls, enum.Flag)
    ):
        # lazy summary of zigpy's total enums/bitmaps (justified by property E02)
        p = v.plain()
        mt = cls._member_type_
        if not (bool(p >= mt.min_value) and bool(p <= mt.max_value)):
            raise ValueError(f"value is not a valid {cls.__qualname__}")
        r = v.retype(cls)
        ini = cls.__dict__.get("__init__") or next((k.__dict__["__init__"] for k in cls.__mro__ if "__init__" in k.__dict__), None)
        if raw_isinstance(ini, types.FunctionType) and ini.__module__ != "enum":
            ini(r, v)
        return r
    if hasattr(cls, "_bits"):
        return raw_type(cls).__call__(cls, *args, **kw)
    if issubclass(cls, enum.Flag):
        raise Leak(f"stdlib flag {cls.__name__}")
    for m in cls:
        if v.plain() == m.value:
            return m
    raise ValueError(f"value is not a valid {cls.__qualname__}")


_LOGGERS = (logging.Logger, logging.LoggerAdapter)


def sx_call(f, *args, **kw):
    tf = raw_type(f)
    if tf is types.FunctionType:
        if f is DEEPCOPY:
            return m_deepcopy(*args, **kw)
        if f is HASHNEW:
            return m_hashnew(*args, **kw)
        return f(*args, **kw)
    if tf is types.MethodType:
        s = f.__self__
        if raw_isinstance(s, _LOGGERS):
            return None
        return f(*args, **kw)
    if tf is types.BuiltinFunctionType:
        s = f.__self__
        if s is None or tf is type(s) or raw_isinstance(s, types.ModuleType):
            m = MODELS.get(f)
            if m is not None:
                return m(*args, **kw)
            return f(*args, **kw)
        n = f.__name__
        ts = raw_type(s)
        if raw_isinstance(s, raw_type):
            if n == "from_bytes" and issubclass(s, int):
                return m_from_bytes(s, *args, **kw)
            if n == "fromhex" and issubclass(s, (bytes, bytearray)):
                return m_fromhex(s, *args, **kw)
            if n == "__new__":
                if args and len(args) > 1 and raw_isinstance(args[1], SymBase):
                    return new_model(s, *args, **kw)
                return f(*args, **kw)
        m = METHODS.get((ts, n))
        if m is None:
            for b in (dict, list, set, bytes, str, int):
                if issubclass(ts, b):
                    m = METHODS.get((b, n))
                    break
        if m is not None:
            return m(s, *args, **kw)
        return f(*args, **kw)
    if raw_isinstance(f, raw_type):
        m = MODELS.get(f)
        if m is not None:
            return m(*args, **kw)
        if args and raw_isinstance(f, enum.EnumMeta) and raw_isinstance(args[0], SymBase):
            return enum_call(f, args, kw)
        r = f(*args, **kw)
        if raw_isinstance(r, SymBase) and not raw_isinstance(f, enum.EnumMeta):
            ini = f.__init__
            if raw_isinstance(ini, types.FunctionType) and r._sx_cls is f:
                ini(r, *args, **kw)
        return r
    if raw_isinstance(f, types.MethodWrapperType):
        s = f.__self__
        m = METHODS.get((raw_type(s), f.__name__))
        if m is None and raw_isinstance(s, dict):
            m = METHODS.get((dict, f.__name__))
        if m is not None:
            return m(s, *args, **kw)
        if any_sym(args, kw) and raw_isinstance(s, (int, bytes, str, float)):
            r = getattr(operator, f.__name__, None)
            if r is not None and len(args) == 1:
                return r(s, args[0])
        return f(*args, **kw)
    if tf is types.MethodDescriptorType or tf is types.WrapperDescriptorType:
        # e.g. int.to_bytes(x, ...), dict.get(d, k)
        if args:
            s = args[0]
            if raw_isinstance(s, SymBase):
                g = s._sx_methods.get(f.__name__)
                if g is not None:
                    return g(*args, **kw)
                g = getattr(raw_type(s), f.__name__, None)
                if g is not None:
                    return g(*args, **kw)
            m = METHODS.get((f.__objclass__, f.__name__))
            if m is not None:
                return m(*args, **kw)
        return f(*args, **kw)
    try:
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*args, **kw)
    return f(*args, **kw)


def new_model(owner, cls, *args, **kw):
    if issubclass(cls, int):
        return conv_int(args[0], cls)
    if issubclass(cls, bytes):
        return SymBytes(conv_bytes(args[0]), cls)
    if issubclass(cls, str):
        return args[0].retype(cls)
    if issubclass(cls, float):
        return args[0]
    return owner.__new__(cls, *args, **kw)


# ---------------------------------------------------------------------------
# the transformer


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.qual = []
        self.raising = 0

    def name(self, n, node):
        return ast.copy_location(ast.Name(n, ast.Load()), node)

    def call(self, fn, args, node, keywords=()):
        return ast.copy_location(ast.Call(self.name(fn, node), list(args), list(keywords)), node)

    # leave annotations alone
    def visit_AnnAssign(self, n):
        n.target = self.visit(n.target)
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_arg(self, n):
        return n

    def _func(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        if n.name == "__hash__":
            n.decorator_list.append(self.name("_sx_hashdef", n))
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d is not None else None for d in n.args.kw_defaults]
        self.qual.append(n.name)
        n.body = [self.visit(s) for s in n.body]
        flat = []
        for s in n.body:
            flat.extend(s if isinstance(s, list) else [s])
        q = ".".join(self.qual)
        mark = ast.Expr(self.call("_sx_enter", [ast.Constant(f"{self.mod}:{q}")], n))
        at = 0
        if flat and isinstance(flat[0], ast.Expr) and isinstance(flat[0].value, ast.Constant) and isinstance(flat[0].value.value, str):
            at = 1
        flat.insert(at, ast.copy_location(mark, n))
        n.body = flat
        self.qual.pop()
        return n

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.bases = [
            b if isinstance(b, ast.Starred) else self.call("_sx_base", [self.visit(b)], b) for b in n.bases
        ]
        for k in n.keywords:
            k.value = self.visit(k.value)
        self.qual.append(n.name)
        n.body = [self.visit(s) for s in n.body]
        self.qual.pop()
        return n

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id in ("super", "locals", "globals", "vars", "dir", "exec", "eval"):
            return self.generic_visit(n)
        n = self.generic_visit(n)
        return self.call("_sx_call", [n.func, *n.args], n, n.keywords)

    def visit_Compare(self, n):
        n = self.generic_visit(n)
        if len(n.ops) == 1:
            fn = {ast.In: "_sx_in", ast.NotIn: "_sx_not_in", ast.Is: "_sx_is", ast.IsNot: "_sx_is_not", ast.Eq: "_sx_eq", ast.NotEq: "_sx_ne"}.get(type(n.ops[0]))
            if fn in ("_sx_is", "_sx_is_not") and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None:
                return n
            if fn:
                return self.call(fn, [n.left, n.comparators[0]], n)
        return n

    def visit_Subscript(self, n):
        n = self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            sl = n.slice
            if isinstance(sl, ast.Slice):
                none = lambda x: x if x is not None else ast.copy_location(ast.Constant(None), n)  # noqa: E731
                sl = self.call("_sx_slice", [none(sl.lower), none(sl.upper), none(sl.step)], n)
            elif isinstance(sl, ast.Tuple) and any(isinstance(e, (ast.Slice, ast.Starred)) for e in sl.elts):
                return n
            return self.call("_sx_getitem", [n.value, sl], n)
        return n

    def _targets(self, target):
        """Is this (after visit) a subscript store we should route?"""
        return isinstance(target, ast.Subscript) and not isinstance(target.slice, ast.Slice) and not (
            isinstance(target.slice, ast.Tuple) and any(isinstance(e, (ast.Slice, ast.Starred)) for e in target.slice.elts)
        )

    def visit_Assign(self, n):
        n = self.generic_visit(n)
        if len(n.targets) == 1 and self._targets(n.targets[0]):
            t = n.targets[0]
            return ast.copy_location(ast.Expr(self.call("_sx_setitem_v", [n.value, t.value, t.slice], n)), n)
        return n

    def visit_AugAssign(self, n):
        n = self.generic_visit(n)
        if self._targets(n.target):
            t = n.target
            op = {ast.Add: "iadd", ast.Sub: "isub", ast.Mult: "imul", ast.BitOr: "ior", ast.BitAnd: "iand",
                  ast.BitXor: "ixor", ast.LShift: "ilshift", ast.RShift: "irshift", ast.Mod: "imod",
                  ast.FloorDiv: "ifloordiv", ast.Div: "itruediv", ast.Pow: "ipow"}[type(n.op)]
            return ast.copy_location(
                ast.Expr(self.call("_sx_augitem", [t.value, t.slice, ast.copy_location(
                    ast.Attribute(self.name("_sx_operator", n), op, ast.Load()), n), n.value], n)), n)
        return n

    def visit_Delete(self, n):
        n = self.generic_visit(n)
        out = []
        for t in n.targets:
            if self._targets(t):
                out.append(ast.copy_location(ast.Expr(self.call("_sx_delitem", [t.value, t.slice], n)), n))
            else:
                out.append(ast.copy_location(ast.Delete([t]), n))
        return out

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.copy_location(ast.Tuple([val, ast.Constant(v.conversion), spec], ast.Load()), n))
        return self.call("_sx_fstr_msg" if self.raising else "_sx_fstr", parts, n)

    def visit_Raise(self, n):
        self.raising += 1
        try:
            return self.generic_visit(n)
        finally:
            self.raising -= 1

    def visit_BinOp(self, n):
        n = self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return self.call("_sx_mod", [n.left, n.right], n)
        return n

    def _has_await(self, n):
        for x in ast.walk(n):
            if isinstance(x, (ast.Await, ast.Yield, ast.YieldFrom)):
                return True
            if isinstance(x, ast.comprehension) and x.is_async:
                return True
        return False

    def visit_DictComp(self, n):
        if self._has_await(n):
            return self.generic_visit(n)
        n = self.generic_visit(n)
        pair = ast.copy_location(ast.Tuple([n.key, n.value], ast.Load()), n)
        return self.call("_sx_mk_dict", [ast.copy_location(ast.GeneratorExp(pair, n.generators), n)], n)

    def visit_SetComp(self, n):
        if self._has_await(n):
            return self.generic_visit(n)
        n = self.generic_visit(n)
        return self.call("_sx_mk_set", [ast.copy_location(ast.GeneratorExp(n.elt, n.generators), n)], n)

    def visit_Set(self, n):
        n = self.generic_visit(n)
        return self.call("_sx_mk_set", [ast.copy_location(ast.List(n.elts, ast.Load()), n)], n)

    def visit_Dict(self, n):
        n = self.generic_visit(n)
        if all(k is not None and isinstance(k, ast.Constant) for k in n.keys) or any(k is None for k in n.keys):
            return n
        pairs = [ast.copy_location(ast.Tuple([k, v], ast.Load()), n) for k, v in zip(n.keys, n.values)]
        return self.call("_sx_mk_dict", [ast.copy_location(ast.List(pairs, ast.Load()), n)], n)


def sx_setitem_v(v, o, k):
    sx_setitem(o, k, v)


HELPERS = {
    "_sx_call": sx_call, "_sx_eq": sx_eq, "_sx_ne": sx_ne, "_sx_in": sx_in, "_sx_not_in": sx_not_in, "_sx_is": sx_is, "_sx_is_not": sx_is_not,
    "_sx_getitem": sx_getitem, "_sx_setitem_v": sx_setitem_v, "_sx_delitem": sx_delitem, "_sx_augitem": sx_augitem,
    "_sx_fstr": sx_fstr, "_sx_fstr_msg": sx_fstr_msg, "_sx_mod": sx_mod, "_sx_mk_dict": mk_dict, "_sx_mk_set": mk_set, "_sx_base": sx_base,
    "_sx_slice": slice, "_sx_operator": operator, "_sx_enter": FUNCS.add, "_sx_hashdef": hashdef,
}


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        src = self.get_data(path)
        tree = ast.parse(src, path)
        tree = Rewriter(fullname).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__dict__.update(HELPERS)
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, prefixes):
        self.prefixes = prefixes

    def find_spec(self, name, path=None, target=None):
        if not any(name == p or name.startswith(p + ".") for p in self.prefixes):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


_flag_missing = enum.Flag._missing_.__func__


def flag_missing(cls, value):
    """Summary of the standard library's enum.Flag._missing_ for symbolic values:
    what it does to the value under each boundary (names are not modelled)."""
    if not raw_isinstance(value, SymInt):
        return _flag_missing(cls, value)
    b, fm = cls._boundary_, cls._flag_mask_
    allb = (1 << fm.bit_length()) - 1
    v = value.plain()
    if b is enum.STRICT:
        if bool(v < 0) or bool((v & ~fm) != 0):
            raise ValueError(f"invalid value for {cls.__qualname__}")
    elif b is enum.CONFORM:
        return sx_call(cls, v & fm)
    elif b is enum.EJECT:
        if bool(v < 0) or bool((v & ~fm) != 0):
            return v
    elif v < 0:
        m = 1 << core.sym_bit_length(v).concrete() if raw_isinstance(v, SymInt) else 1
        v = max(allb + 1, m) + v
    r = cls._member_type_.__new__(cls, v)
    return r


def install(prefixes):
    enum.Flag._missing_ = classmethod(flag_missing)
    sys.meta_path.insert(0, Finder(tuple(prefixes)))


def cleanup(e):
    """Remove symbolic keys that a path left in dictionaries that outlive it."""
    for d in list(e.symdicts.values()):
        for k in list(d):
            if has_sym(k):
                set_raw("discard", d, k) if raw_isinstance(d, set) else ddel_raw(d, k)
    e.symdicts.clear()
