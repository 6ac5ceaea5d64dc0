"""numpy on symbolic entries: ndarray subclass with object entries, numpy/scipy proxies."""
import builtins
import itertools
import math
import numbers
import operator
import types

import numpy as np

from . import core
from .core import SymReal, SymBool, EngineError, lift, S_UNDEF, S_NAN, S_INF, S_NINF

numbers.Real.register(SymReal)


# ---------------------------------------------------------------- python float / int stand-ins
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.float) or (
            builtins.isinstance(x, SymReal) and not x.is_int
        )

    def __subclasscheck__(cls, c):
        return c is cls or builtins.issubclass(c, builtins.float)

    def __call__(cls, x=0.0):
        return to_float(x)

    def __hash__(cls):
        return hash(builtins.float)

    def __eq__(cls, o):
        return o is cls or o is builtins.float


class SxFloat(metaclass=_FloatMeta):
    pass


SxFloat.__name__ = SxFloat.__qualname__ = "float"


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.int) or (
            builtins.isinstance(x, SymReal) and x.is_int
        )

    def __subclasscheck__(cls, c):
        return c is cls or builtins.issubclass(c, builtins.int)

    def __call__(cls, x=0, *a):
        return to_int(x, *a)

    def __hash__(cls):
        return hash(builtins.int)

    def __eq__(cls, o):
        return o is cls or o is builtins.int


class SxInt(metaclass=_IntMeta):
    from_bytes = builtins.int.from_bytes


SxInt.__name__ = SxInt.__qualname__ = "int"

import re

TOK = re.compile("\u00a7(\\d+)\u00a7")


def tok_value(s):
    m = TOK.fullmatch(s.strip())
    if m:
        return core.CTX.tokens[int(m.group(1))][0]
    return None


def to_float(x):
    if isinstance(x, SymReal):
        if x.is_int:
            return SymReal(x.p, x.kind)
        return x
    if isinstance(x, str):
        v = tok_value(x)
        if v is not None:
            if isinstance(v, Junk):
                raise ValueError("could not convert string to float: %r" % x)
            return SymReal(v.p, v.kind)
        if "\u00a7" in x:
            raise ValueError("could not convert string to float: %r" % x)
        return core.lift_float(builtins.float(x))
    if isinstance(x, np.ndarray) and x.dtype == object:
        if x.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return to_float(x.reshape(-1)[0])
    r = builtins.float(x)
    r = core.lift_float(r)
    return r


class Junk:
    """a string option value that is not a number"""

    def __init__(self, name):
        self.name = name


def to_int(x, *a):
    if isinstance(x, SymReal):
        if x.is_int:
            return x if not x.isconst() else int(x.const())
        return core.trunc_(x)
    if isinstance(x, str) and not a:
        v = tok_value(x)
        if v is not None:
            if isinstance(v, Junk) or not v.is_int:
                raise ValueError("invalid literal for int() with base 10: %r" % x)
            return v
        if "\u00a7" in x:
            raise ValueError("invalid literal for int() with base 10: %r" % x)
    if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
        return to_int(x.reshape(-1)[0])
    return builtins.int(x, *a)


def scalar_as(x, t):
    k = dkind(t)
    if k == "float":
        return to_float(x)
    if k == "int":
        return to_int(x)
    if k == "bool":
        return bool(x)
    raise EngineError("astype %r" % (t,))


def dkind(t):
    """classify a dtype argument"""
    if t is None:
        return None
    if t is SxFloat or t is Np64:
        return "float"
    if t is SxInt:
        return "int"
    if t is object:
        return "object"
    try:
        d = np.dtype(t)
    except TypeError:
        raise EngineError("dtype %r" % (t,))
    return {"f": "float", "i": "int", "u": "int", "b": "bool", "O": "object"}.get(d.kind, d.kind)


class Np64(metaclass=_FloatMeta):
    pass


Np64.__name__ = "float64"


def narrow(t):
    """number types that cannot hold every double / 64-bit integer: their dtype, else None"""
    if t is None or t is SxFloat or t is Np64 or t is SxInt or t is object:
        return None
    try:
        d = np.dtype(t)
    except TypeError:
        return None
    if d.kind in "fiu" and (d.itemsize < 8 or d.kind == "u"):
        return d
    return None


def convert(x, d):
    """value of x stored in an array of dtype d"""
    if isinstance(x, (bool, np.bool_)):
        x = int(x)
    if d.kind == "f":
        if isinstance(x, SymReal):
            if x.kind != core.FIN or d.itemsize >= 8:
                return x
            if not x.isconst():
                return core.CTX.rounded(x, d.itemsize)
            x = x.const()
        return core.lift_float(builtins.float(d.type(builtins.float(x))))
    v = to_int(x if isinstance(x, (SymReal, int, np.integer)) else lift_el(x))
    lo, hi = (int(np.iinfo(d).min), int(np.iinfo(d).max))
    if d.itemsize >= 8 and d.kind == "i":
        return v
    if isinstance(v, SymReal):
        if bool(core.and_(core.le(core.real_const(lo), v), core.le(v, core.real_const(hi)))):
            return v
        n = core.SymReal(core.pconst(hi - lo + 1), is_int=True)
        return core.add(core.mod(core.sub(v, core.SymReal(core.pconst(lo), is_int=True)), n), core.SymReal(core.pconst(lo), is_int=True))
    return (v - lo) % (hi - lo + 1) + lo


# ---------------------------------------------------------------- arrays
def lift_el(x):
    if isinstance(x, (SymReal, SymBool)):
        return x
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    r = lift(x)
    return x if r is None else r


_lift_uf = np.frompyfunc(lift_el, 1, 1)


def base(a):
    """plain object ndarray with lifted entries (0-d stays 0-d)"""
    if isinstance(a, (SymReal, SymBool)):
        r = np.empty((), dtype=object)
        r[()] = a
        return r
    b = np.asarray(a)
    if b.dtype != object:
        if b.dtype.kind not in "fiub":
            raise EngineError("array of dtype %s" % b.dtype)
        o = np.empty(b.shape, dtype=object)
        flat = o.reshape(-1)
        src = b.reshape(-1)
        for i in range(flat.size):
            flat[i] = lift_el(src[i])
        return o
    return b.view(np.ndarray)


def lifted(a):
    """base() with raw floats replaced"""
    b = base(a)
    if any(isinstance(x, (float, np.floating)) for x in b.reshape(-1)):
        o = np.empty(b.shape, dtype=object)
        f, s = o.reshape(-1), b.reshape(-1)
        for i in range(f.size):
            f[i] = lift_el(s[i])
        return o
    return b


def wrap(r):
    """results of real numpy -> symbolic arrays (floats lifted)"""
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            if any(isinstance(x, (float, np.floating)) for x in r.reshape(-1)):
                r = lifted(r)
            if any(isinstance(x, SymBool) for x in r.reshape(-1)):
                if all(isinstance(x, (SymBool, bool, np.bool_)) for x in r.reshape(-1)):
                    return np.array([bool(x) for x in r.reshape(-1)], dtype=bool).reshape(r.shape)
            if r.size and all(isinstance(x, (bool, np.bool_)) for x in r.reshape(-1)):
                return r.astype(bool)
            return r if isinstance(r, SymArray) else r.view(SymArray)
        if r.dtype.kind == "f":
            return base(r).view(SymArray)
        if isinstance(r, SymArray):
            return r.view(np.ndarray)
        return r
    if isinstance(r, tuple):
        return tuple(wrap(x) for x in r) if type(r) is tuple else r
    if isinstance(r, list):
        return [wrap(x) for x in r]
    if isinstance(r, (float, np.floating)):
        return core.lift_float(float(r))
    return r


class LenInt(int):
    """an array length whose comparison with large constants is left open"""

    THRESH = 60

    def _cmp(self, o, f):
        if isinstance(o, int) and abs(o) > LenInt.THRESH and LenInt.virtual is not None:
            return bool(f(LenInt.virtual, o))
        return f(int(self), o)

    virtual = None

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    __hash__ = int.__hash__

    def _ar(name):
        g = getattr(int, name)

        def f(self, o):
            r = g(int(self), o)
            return r if r is NotImplemented or not isinstance(r, int) else LenInt(r)

        return f

    __mul__ = _ar("__mul__")
    __rmul__ = _ar("__rmul__")


def sx_len(x):
    n = builtins.len(x)
    if LenInt.virtual is not None and isinstance(x, (SymArray, list)):
        return LenInt(n)
    return n


class _RangeMeta(type):
    """range() whose start may stay symbolic: only the number of elements is decided."""

    def __instancecheck__(cls, x):
        return builtins.isinstance(x, (builtins.range, SxRangeList))

    def __call__(cls, *a):
        if len(a) in (2, 3) and isinstance(a[0], SymReal) and a[0].is_int and not a[0].isconst():
            step = operator.index(a[2]) if len(a) == 3 else 1
            if step > 0:
                n = builtins.max(0, operator.index((a[1] - a[0] + (step - 1)) // step))
                return SxRangeList([a[0] + k * step for k in builtins.range(n)])
        return builtins.range(*a)

    def __hash__(cls):
        return hash(builtins.range)

    def __eq__(cls, o):
        return o is cls or o is builtins.range


class SxRangeList(tuple):
    pass


class SxRange(metaclass=_RangeMeta):
    pass


CMP = {
    "less": lambda a, b: a < b,
    "less_equal": lambda a, b: a <= b,
    "greater": lambda a, b: a > b,
    "greater_equal": lambda a, b: a >= b,
    "equal": lambda a, b: a == b,
    "not_equal": lambda a, b: a != b,
}


def _L(x):
    r = lift(x)
    if r is None:
        raise TypeError("unsupported operand %r" % (type(x),))
    return r


def _isnan(x):
    x = _L(x)
    if x.kind == core.UNDEF:
        core.CTX.uninit()
    return x.kind == core.NAN


def _isinf(x):
    x = _L(x)
    if x.kind == core.UNDEF:
        core.CTX.uninit()
    return x.kind in (core.PINF, core.NINF)


def _isfin(x):
    x = _L(x)
    if x.kind == core.UNDEF:
        core.CTX.uninit()
    return x.kind == core.FIN


def s_max(a, b):
    a, b = _L(a), _L(b)
    if a.kind == core.NAN or b.kind == core.NAN:
        return S_NAN
    return b if bool(a < b) else a


def s_min(a, b):
    a, b = _L(a), _L(b)
    if a.kind == core.NAN or b.kind == core.NAN:
        return S_NAN
    return b if bool(b < a) else a


def s_sign(a):
    a = _L(a)
    if a.kind == core.NAN:
        return a
    return core.real_const(core.sgn(a))


def _unsup(name):
    def f(*a):
        raise EngineError("numpy function %s on symbolic values" % name)

    return f


def _npow(a, b):
    return core.pow_(_L(a), _L(b))


UF = {
    "add": lambda a, b: a + b,
    "subtract": lambda a, b: a - b,
    "multiply": lambda a, b: a * b,
    "divide": lambda a, b: core.div(_L(a), _L(b)),
    "true_divide": lambda a, b: core.div(_L(a), _L(b)),
    "floor_divide": lambda a, b: a // b,
    "remainder": lambda a, b: a % b,
    "power": _npow,
    "float_power": _npow,
    "negative": lambda a: -a,
    "positive": lambda a: a,
    "absolute": lambda a: core.abs_(_L(a)),
    "fabs": lambda a: core.abs_(_L(a)),
    "exp": lambda a: core.exp(_L(a)),
    "expm1": lambda a: core.exp(_L(a)) - 1,
    "exp2": lambda a: core.exp(_L(a) * core.log(core.real_const(2))),
    "log": lambda a: core.log(_L(a)),
    "log1p": lambda a: core.log(_L(a) + 1),
    "log2": lambda a: core.log(_L(a)) / core.log(core.real_const(2)),
    "log10": lambda a: core.log(_L(a)) / core.log(core.real_const(10)),
    "sqrt": lambda a: core.sqrt(_L(a)),
    "square": lambda a: a * a,
    "reciprocal": lambda a: core.div(core.ONE, _L(a)),
    "hypot": lambda a, b: core.sqrt(_L(a) * a + _L(b) * b),
    "copysign": lambda a, b: s_copysign(a, b),
    "heaviside": lambda a, b: s_heaviside(a, b),
    "floor": lambda a: core.floor_(_L(a)),
    "ceil": lambda a: core.ceil_(_L(a)),
    "rint": lambda a: core.round_(_L(a)),
    "trunc": lambda a: core.real_const(core.trunc_(_L(a))),
    "sign": s_sign,
    "maximum": s_max,
    "minimum": s_min,
    "fmax": s_max,
    "fmin": s_min,
    "logaddexp": lambda a, b: core.log(core.exp(_L(a)) + core.exp(_L(b))),
    "conjugate": lambda a: a,
}
PRED = {
    "isnan": _isnan,
    "isinf": _isinf,
    "isfinite": _isfin,
    "signbit": lambda a: bool(_L(a) < 0),
    "logical_not": lambda a: not bool(a),
    "logical_and": lambda a, b: bool(a) and bool(b),
    "logical_or": lambda a, b: bool(a) or bool(b),
    "logical_xor": lambda a, b: bool(a) != bool(b),
}
_frompy = {}


def _fp(name, f, nin):
    r = _frompy.get(name)
    if r is None:
        r = _frompy[name] = np.frompyfunc(f, nin, 1)
    return r


class SymArray(np.ndarray):
    __array_priority__ = 1000

    _nd = None  # dtype of the stored numbers if these are no doubles

    def __array_finalize__(self, obj):
        nd = getattr(obj, "_nd", None)
        if nd is not None and self.base is not None:
            self._nd = nd

    def copy(self, *a, **k):
        r = super().copy(*a, **k)
        r._nd = self._nd
        return r

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, where=True, dtype=None, casting=None, subok=True, order=None, **kw):
        name = ufunc.__name__
        ins = []
        for x in inputs:
            b = base(x) if not isinstance(x, (str, type(None))) else x
            ins.append(b)
        if method == "__call__":
            if name in CMP or name in PRED:
                f = CMP.get(name) or PRED[name]
                r = _fp(name, f, ufunc.nin)(*ins)
                if isinstance(r, np.ndarray):
                    r = np.array([bool(x) for x in r.reshape(-1)], dtype=bool).reshape(r.shape)
                else:
                    r = bool(r)
                return _store(r, out, where)
            if name in ("bitwise_and", "bitwise_or", "invert", "bitwise_xor"):
                op = {"bitwise_and": lambda a, b: bool(a) and bool(b), "bitwise_or": lambda a, b: bool(a) or bool(b),
                      "invert": lambda a: not bool(a), "bitwise_xor": lambda a, b: bool(a) != bool(b)}[name]
                if any(isinstance(e, SymReal) for i in ins for e in i.reshape(-1)):
                    raise EngineError("bit operation on symbolic numbers")
                return _store(wrap(_fp(name, op, ufunc.nin)(*ins)), out, where)
            if name == "matmul":
                r = np.matmul(*ins)
                return _store(wrap(r), out, where)
            f = UF.get(name)
            if f is None:
                raise EngineError("numpy function %s on symbolic values" % name)
            if where is not True:
                w = np.asarray(where)
                bs = np.broadcast_arrays(*ins, w)
                o = np.empty(bs[0].shape, dtype=object)
                of = o.reshape(-1)
                flats = [b.reshape(-1) for b in bs]
                for i in range(of.size):
                    if bool(flats[-1][i]):
                        of[i] = f(*[x[i] for x in flats[:-1]])
                    elif out is None:
                        of[i] = S_UNDEF
                    else:
                        of[i] = np.broadcast_to(base(out[0]), o.shape).reshape(-1)[i]
                r = o.view(SymArray)
                if out is not None:
                    out[0][...] = r
                    return out[0]
                return r
            r = _fp(name, f, ufunc.nin)(*ins)
            return _store(wrap(r), out, True)
        if method == "reduce":
            axis = kw.get("axis", 0)
            keep = kw.get("keepdims", False)
            a = ins[0]
            if name in ("add", "multiply"):
                args = {"axis": axis, "keepdims": keep}
                if "initial" in kw and kw["initial"] is not np._NoValue:
                    args["initial"] = kw["initial"]
                if where is not True:
                    args["where"] = where
                r = ufunc.reduce(a, **args)
            elif name in ("maximum", "minimum", "fmax", "fmin"):
                if a.size == 0:
                    raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
                r = _reduce(UF[name], a, axis, keep)
            elif name in ("logical_and", "logical_or"):
                b = np.array([bool(x) for x in a.reshape(-1)], dtype=bool).reshape(a.shape)
                r = ufunc.reduce(b, axis=axis, keepdims=keep)
            else:
                raise EngineError("reduce of %s" % name)
            return _store(wrap(r), out, True)
        if method == "accumulate":
            r = ufunc.accumulate(ins[0], axis=kw.get("axis", 0))
            return _store(wrap(r), out, True)
        if method == "outer":
            f = UF.get(name) or CMP.get(name)
            r = _fp(name, f, ufunc.nin).outer(*ins)
            return wrap(r)
        if method == "at":
            a, idx = inputs[0], inputs[1]
            ufunc.at(a.view(np.ndarray), idx, *[base(x) for x in inputs[2:]])
            return None
        raise EngineError("ufunc method %s.%s" % (name, method))

    def __array_function__(self, func, types_, args, kwargs):
        h = HANDLED.get(func)
        if h is not None:
            return h(*args, **kwargs)
        return wrap(super().__array_function__(func, (SymArray, np.ndarray), args, kwargs))

    # element access --------------------------------------------------
    def _idx(self, k):
        def one(i):
            if isinstance(i, SymReal):
                if not i.is_int:
                    raise IndexError("only integers, slices, ... are valid indices")
                return core.concretize_int(i)
            if isinstance(i, slice):
                return slice(*[one(x) if isinstance(x, SymReal) else x for x in (i.start, i.stop, i.step)])
            if isinstance(i, (list, np.ndarray)) and not isinstance(i, str):
                b = np.asarray(i)
                if b.dtype == object:
                    fl = list(b.reshape(-1))
                    if fl and all(isinstance(x, (bool, np.bool_, SymBool)) for x in fl):
                        return np.array([bool(x) for x in fl], dtype=bool).reshape(b.shape)
                    if not fl:
                        return b.astype(int)
                    if any(isinstance(x, SymReal) and not x.is_int for x in fl):
                        raise IndexError("arrays used as indices must be of integer (or boolean) type")
                    return np.array([int(x) for x in fl], dtype=int).reshape(b.shape)
            return i

        if isinstance(k, tuple):
            return tuple(one(i) for i in k)
        return one(k)

    def __getitem__(self, k):
        return super().__getitem__(self._idx(k))

    def __setitem__(self, k, v):
        k = self._idx(k)
        if self.dtype == object:
            if isinstance(v, np.ndarray):
                v = lifted(v)
            elif isinstance(v, (list, tuple)):
                v = lifted(np.array(v, dtype=object) if not _has_arr(v) else np.array([base(x) for x in v]))
            else:
                v = lift_el(v)
            if self._nd is not None:
                v = _mapel(lambda x: convert(x, self._nd), v) if isinstance(v, np.ndarray) else convert(v, self._nd)
        super().__setitem__(k, v)

    def fill(self, v):
        self[...] = lift_el(v)

    def astype(self, t, *a, **k):
        return cast(self, t)

    def item(self, *a):
        return np.ndarray.item(self, *a)

    def mean(self, axis=None, **k):
        return m_mean(self, axis=axis, **k)

    def std(self, axis=None, ddof=0, **k):
        return m_std(self, axis, ddof=ddof)

    def var(self, axis=None, ddof=0, **k):
        return m_var(self, axis, ddof=ddof)

    def round(self, decimals=0, out=None):
        return wrap(_mapel(lambda x: core.round_(_L(x), decimals), self))

    def clip(self, min=None, max=None, **k):
        return m_clip(self, min, max, **k)

    def any(self, *a, **k):
        return _asbool(self).any(*a, **k)

    def all(self, *a, **k):
        return _asbool(self).all(*a, **k)

    def nonzero(self):
        return _asbool(self).nonzero()

    def tofile(self, *a, **k):
        raise EngineError("tofile")

    def __contains__(self, x):
        return any(bool(e == x) for e in self.reshape(-1))

    def __float__(self):
        raise EngineError("float(array)")

    @property
    def shape(self):
        s = np.ndarray.shape.__get__(self)
        if LenInt.virtual is not None:
            return tuple(LenInt(x) for x in s)
        return s

    @shape.setter
    def shape(self, v):
        np.ndarray.shape.__set__(self, v)

    def __repr__(self):
        return "SymArray%r" % (self.tolist(),)

    def __str__(self):
        return "[" + " ".join(str(x) for x in self.reshape(-1)) + "]"

    def __format__(self, spec):
        return str(self)


_DUMMY = np.empty(0, dtype=object).view(SymArray)


def scalar_ufunc(ufunc, method, inputs, kw):
    """ufunc with a symbolic scalar among its operands"""
    if method == "__call__" and not kw and not any(isinstance(x, np.ndarray) for x in inputs):
        name = ufunc.__name__
        f = UF.get(name) or CMP.get(name) or PRED.get(name)
        if f is None:
            raise EngineError("numpy function %s on symbolic values" % name)
        r = f(*[lift_el(x) for x in inputs])
        return wrap(r)
    return SymArray.__array_ufunc__(_DUMMY, ufunc, method, *inputs, **kw)


def _has_arr(v):
    return any(isinstance(x, np.ndarray) for x in v)


def _asbool(a):
    b = base(a)
    return np.array([bool(x) for x in b.reshape(-1)], dtype=bool).reshape(b.shape)


def _mapel(f, a):
    b = base(a)
    o = np.empty(b.shape, dtype=object)
    of, bf = o.reshape(-1), b.reshape(-1)
    for i in range(of.size):
        of[i] = f(bf[i])
    return o


def _store(r, out, where):
    if out is None:
        return r
    o = out[0]
    if isinstance(o, np.ndarray):
        if o.dtype != object and isinstance(r, SymArray):
            raise EngineError("in-place operation of a machine-number array with symbolic values")
        if getattr(o, "_nd", None) is not None and o._nd.kind in "iu" and not all(isinstance(x, (int, np.integer)) or getattr(x, "is_int", False) for x in base(r).reshape(-1)):
            raise TypeError("Cannot cast ufunc output from dtype('float64') to dtype('%s') with casting rule 'same_kind'" % o._nd)
        o[...] = r
        return o
    raise EngineError("out argument")


def _reduce(f, a, axis, keep):
    def red(xs):
        it = iter(xs)
        r = next(it)
        for x in it:
            r = f(r, x)
        return r

    if axis is None:
        r = red(a.reshape(-1))
        if keep:
            o = np.empty((1,) * a.ndim, dtype=object)
            o.reshape(-1)[0] = r
            return o
        return r
    axes = axis if isinstance(axis, tuple) else (axis,)
    axes = tuple(sorted(x % a.ndim for x in axes))
    rest = [i for i in range(a.ndim) if i not in axes]
    b = np.transpose(a, rest + list(axes)).reshape([a.shape[i] for i in rest] + [-1])
    o = np.empty(b.shape[:-1], dtype=object)
    for idx in np.ndindex(*o.shape):
        o[idx] = red(b[idx])
    if not rest:
        r = o[()]
        if not keep:
            return r
    if keep:
        o = o.reshape([1 if i in axes else a.shape[i] for i in range(a.ndim)])
    return o


def cast(a, t):
    k = dkind(t)
    d = narrow(t)
    if k == "float" or k == "object":
        r = wrap(_mapel(lambda x: to_float(x) if k == "float" else x, a))
        if d is not None and isinstance(r, np.ndarray):
            r = wrap(_mapel(lambda x: convert(x, d), r))
            r._nd = d
        return r
    if k == "int":
        b = base(a)
        vals = [to_int(x) for x in b.reshape(-1)]
        if d is not None:
            vals = [convert(v, d) for v in vals]
        vals = [int(v.const()) if isinstance(v, SymReal) and v.isconst() else v for v in vals]
        if any(isinstance(v, SymReal) for v in vals):
            r = np.empty(len(vals), dtype=object)
            r[:] = vals
            r = r.reshape(b.shape).view(SymArray)
            r._nd = d or np.dtype(int)
            return r
        return np.array(vals, dtype=int).reshape(b.shape)
    if k == "bool":
        return _asbool(a)
    if k == "U":
        return wrap(_mapel(str, a))
    raise EngineError("astype(%r)" % (t,))


# ---------------------------------------------------------------- handled functions
def _contains_sym(x):
    if isinstance(x, (SymReal, SymBool, SymArray)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(_contains_sym(y) for y in x)
    return False


def m_array(obj, dtype=None, copy=True, order="K", subok=False, ndmin=0, like=None):
    k = dkind(dtype)
    if isinstance(obj, np.ndarray):
        if k == "int":
            r = cast(obj, dtype) if obj.dtype == object or narrow(dtype) is not None else np.array(obj, dtype=int)
        elif k == "bool":
            r = _asbool(obj) if obj.dtype == object else np.array(obj, dtype=bool)
        elif k == "float" and obj.dtype != object and narrow(dtype) is None:
            r = base(obj.astype(float)).view(SymArray)
        elif k == "float":
            r = cast(obj, dtype)
        else:
            r = np.array(obj, copy=True, subok=False) if copy else obj
            r = wrap(r)
        if ndmin and r.ndim < ndmin:
            r = r.reshape((1,) * (ndmin - r.ndim) + np.ndarray.shape.__get__(r))
        return r
    if hasattr(obj, "__next__") or isinstance(obj, (map, filter, zip, types.GeneratorType)):
        raise EngineError("np.array of an iterator")
    if isinstance(obj, dict):
        raise EngineError("np.array of dict")
    if isinstance(obj, (list, tuple)):
        obj = [x for x in obj]
    if not _contains_sym(obj):
        r = np.array(obj, ndmin=ndmin, **({"dtype": {"float": float, "int": int, "bool": bool}.get(k, dtype)} if k else {}))
        return wrap(r)
    r = _build(obj)
    if k == "int":
        r = cast(r, dtype)
    elif k == "bool":
        r = _asbool(r)
    elif k == "float":
        r = cast(r, dtype)
    else:
        r = wrap(r)
    if ndmin and r.ndim < ndmin:
        r = r.reshape((1,) * (ndmin - r.ndim) + np.ndarray.shape.__get__(r))
    return r


def _build(obj):
    """nested lists/tuples/arrays with symbolic entries -> object ndarray"""

    def shape(o):
        if isinstance(o, np.ndarray):
            return np.ndarray.shape.__get__(o)
        if isinstance(o, (list, tuple)):
            if not o:
                return (0,)
            s = shape(o[0])
            for x in o[1:]:
                if shape(x) != s:
                    raise ValueError(
                        "setting an array element with a sequence. The requested array has an inhomogeneous shape"
                    )
            return (len(o),) + s
        return ()

    s = shape(obj)
    r = np.empty(s, dtype=object)

    def put(o, idx):
        if isinstance(o, (list, tuple)):
            for i, x in enumerate(o):
                put(x, idx + (i,))
        elif isinstance(o, np.ndarray) and o.ndim:
            r[idx] = lifted(o)
        else:
            r[idx] = lift_el(o.item() if isinstance(o, np.ndarray) and o.dtype != object else (o[()] if isinstance(o, np.ndarray) else o))

    put(obj, ())
    return r


def m_asarray(a, dtype=None, *args, **k):
    if isinstance(a, np.ndarray) and dtype is None:
        return wrap(a)
    if isinstance(a, SymArray) and dkind(dtype) in ("float", "object"):
        return a
    return m_array(a, dtype=dtype)


def _filled(shape, v):
    if isinstance(shape, (SymReal, int, np.integer)):
        shape = (shape,)
    shape = tuple(int(x) for x in shape)
    o = np.empty(shape, dtype=object)
    o.reshape(-1)[:] = [v] * o.size
    return o.view(SymArray)


def _mk(name, val):
    real = getattr(np, name)

    def f(shape, dtype=None, order="C", **k):
        dk = dkind(dtype)
        if dk in (None, "float", "object"):
            r = _filled(shape, val)
            r._nd = narrow(dtype)
            return r
        if dk == "int":
            r = _filled(shape, int(val.const()) if val.kind == core.FIN else val)
            r._nd = narrow(dtype) or np.dtype(int)
            return r
        if isinstance(shape, (tuple, list)):
            shape = tuple(int(x) for x in shape)
        else:
            shape = int(shape)
        return real(shape, dtype={"int": int, "bool": bool}.get(dk, dtype))

    def like(a, dtype=None, order="K", subok=True, shape=None, **k):
        src = np.asarray(a)
        sh = np.ndarray.shape.__get__(src) if shape is None else shape
        dk = dkind(dtype)
        if dk is None:
            dk = {"O": "float", "f": "float", "i": "int", "b": "bool", "u": "int"}.get(src.dtype.kind)
            if dk == "float" and src.dtype == object and src.size and all(isinstance(x, (int, np.integer)) for x in src.reshape(-1)):
                dk = "float"
        d = narrow(dtype) or (getattr(a, "_nd", None) if dtype is None else None)
        return f(sh, d or {"float": None, "object": None, "int": int, "bool": bool}[dk])

    return f, like


m_empty, m_empty_like = _mk("empty", S_UNDEF)
m_zeros, m_zeros_like = _mk("zeros", core.real_const(0))
m_ones, m_ones_like = _mk("ones", core.real_const(1))


def m_full(shape, fill_value, dtype=None, **k):
    dk = dkind(dtype)
    if dk in ("int", "bool") or (dk is None and isinstance(fill_value, (int, bool, np.integer, np.bool_)) ):
        if not isinstance(fill_value, SymReal):
            if isinstance(shape, (list, tuple)):
                shape = tuple(int(x) for x in shape)
            return np.full(shape, fill_value, dtype={"int": int, "bool": bool}.get(dk))
    r = m_empty(shape)
    r[...] = fill_value
    return r


def m_full_like(a, fill_value, dtype=None, **k):
    r = m_empty_like(a, dtype)
    r[...] = fill_value
    return r


def m_eye(n, m=None, k=0, dtype=float, **kw):
    return wrap(np.eye(n, m, k))


def m_fromiter(it, dtype=None, count=-1, **k):
    l = list(it)
    if count is not None and count >= 0:
        if len(l) < count:
            raise ValueError("iterator too short")
        l = l[:count]
    return m_array(l, dtype=dtype)


def m_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    if num < 0:
        raise ValueError("Number of samples, %s, must be non-negative." % num)
    div = (num - 1) if endpoint else num
    if isinstance(start, np.ndarray) or isinstance(stop, np.ndarray):
        s, e = base(start), base(stop)
        s, e = np.broadcast_arrays(s, e)
        rows = [m_linspace(x, y, num, endpoint) for x, y in zip(s.reshape(-1), e.reshape(-1))]
        r = np.array([base(x) for x in rows]).T.reshape((num,) + s.shape)
        return wrap(np.moveaxis(r, 0, axis))
    a, b = _L(start), _L(stop)
    step = (b - a) / div if div > 0 else S_NAN
    o = np.empty(num, dtype=object)
    for i in range(num):
        o[i] = SymReal(a.p, a.kind) if i == 0 else (SymReal(b.p, b.kind) if endpoint and i == num - 1 else a + step * i)
    r = o.view(SymArray)
    if dkind(dtype) == "int":
        r = cast(r, int)
    return (r, step) if retstep else r


def m_arange(*args, dtype=None, **k):
    if not any(isinstance(a, (SymReal, float)) for a in args):
        r = np.arange(*args, **k)
        return wrap(r) if dkind(dtype) != "float" else wrap(r.astype(float))
    a = list(args)
    if len(a) == 1:
        a = [0, a[0]]
    if len(a) == 2:
        a.append(1)
    if all(isinstance(x, (int, np.integer)) or (isinstance(x, SymReal) and x.is_int) for x in a) and dkind(dtype) != "float":
        return np.arange(*[int(x) for x in a])
    s, e, st = map(_L, a)
    n = max(int(core.ceil_(core.div(e - s, st))), 0)
    o = np.empty(n, dtype=object)
    for i in range(n):
        o[i] = s + st * i
    return wrap(o)


def m_where(cond, *xy):
    if isinstance(cond, (SymBool,)):
        cond = bool(cond)
    c = np.asarray(cond)
    if c.dtype == object:
        c = _asbool(c)
    if not xy:
        return np.where(c)
    x, y = [base(v) if not (isinstance(v, np.ndarray) and v.dtype.kind in "ib") else v for v in xy]
    if x.dtype != object and y.dtype != object:
        return np.where(c, x, y)
    return wrap(np.where(c, base(x), base(y)))


def m_mean(a, axis=None, dtype=None, out=None, keepdims=False, where=True):
    b = base(m_asarray(a))
    if b.size == 0:
        return S_NAN
    s = np.add.reduce(b, axis=axis, keepdims=keepdims) if where is True else np.add.reduce(b, axis=axis, keepdims=keepdims, where=where)
    if axis is None:
        n = b.size if where is True else int(np.count_nonzero(np.broadcast_to(where, b.shape)))
    else:
        ax = axis if isinstance(axis, tuple) else (axis,)
        n = 1
        for x in ax:
            n *= b.shape[x]
    if isinstance(s, np.ndarray):
        return wrap(_mapel(lambda x: core.div(_L(x), _L(n)), s))
    return core.div(_L(s), _L(n))


def m_var(a, axis=None, ddof=0, **k):
    b = wrap(base(m_asarray(a)))
    m = m_mean(b, axis=axis, keepdims=True) if axis is not None else m_mean(b)
    d = b - m
    n = b.size if axis is None else np.ndarray.shape.__get__(b)[axis]
    return np.sum(d * d, axis=axis) / (n - ddof)


def m_std(a, axis=None, ddof=0, **k):
    v = m_var(a, axis, ddof)
    return np.sqrt(v) if isinstance(v, SymArray) else core.sqrt(_L(v))


def m_average(a, axis=None, weights=None, returned=False, **k):
    if weights is None:
        return m_mean(a, axis=axis)
    a, w = wrap(base(m_asarray(a))), wrap(base(m_asarray(weights)))
    if axis is not None and w.ndim == 1 and a.ndim > 1:
        sh = [1] * a.ndim
        sh[axis] = -1
        w = w.reshape(sh)
        w = wrap(np.broadcast_to(base(w), base(a).shape))
    return np.sum(a * w, axis=axis) / np.sum(w, axis=axis)


def m_clip(a, lo=None, hi=None, out=None, **k):
    lo = k.get("a_min", k.get("min", lo))
    hi = k.get("a_max", k.get("max", hi))
    r = a if isinstance(a, np.ndarray) else (m_array(a) if isinstance(a, (list, tuple)) else a)
    if not isinstance(r, np.ndarray):
        r = _L(r)
        if lo is not None:
            r = s_max(r, lo)
        if hi is not None:
            r = s_min(r, hi)
        return r
    r = wrap(base(r))
    if lo is not None:
        r = np.maximum(r, m_asarray(lo) if not isinstance(lo, SymReal) else lo)
    if hi is not None:
        r = np.minimum(r, m_asarray(hi) if not isinstance(hi, SymReal) else hi)
    if out is not None:
        out[...] = r
        return out
    return r


def m_count_nonzero(a, axis=None, keepdims=False):
    return np.count_nonzero(_asbool(np.asarray(a)), axis=axis, keepdims=keepdims)


def m_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    f = lambda x, y: _close(x, y, rtol, atol, equal_nan)
    r = np.frompyfunc(f, 2, 1)(base(m_asarray(a)), base(m_asarray(b)))
    return np.array(r, dtype=bool) if isinstance(r, np.ndarray) else bool(r)


def _close(x, y, rtol, atol, en):
    x, y = _L(x), _L(y)
    if x.kind != core.FIN or y.kind != core.FIN:
        if x.kind == core.NAN and y.kind == core.NAN:
            return en
        return bool(x == y)
    d = x - y
    if d.isconst() and d.const() == 0:
        return True
    return bool(core.abs_(d) <= _L(atol) + _L(rtol) * core.abs_(y))


def m_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(np.all(m_isclose(a, b, rtol, atol, equal_nan)))


def m_array_equal(a, b, equal_nan=False):
    a, b = base(m_asarray(a)), base(m_asarray(b))
    if a.shape != b.shape:
        return False
    for x, y in zip(a.reshape(-1), b.reshape(-1)):
        if not bool(x == y):
            return False
    return True


def m_digitize(x, bins, right=False):
    b = list(base(m_asarray(bins)).reshape(-1))
    inc = bool(b[0] <= b[-1]) if len(b) > 1 else True

    def one(v):
        if inc:
            k = 0
            for e in b:
                if bool(e < v) if right else bool(e <= v):
                    k += 1
                else:
                    break
            return k
        raise EngineError("digitize with decreasing bins")

    if not isinstance(x, (np.ndarray, list, tuple)):
        return one(x)
    a = base(m_asarray(x))
    return np.array([one(v) for v in a.reshape(-1)], dtype=int).reshape(a.shape)


def m_searchsorted(a, v, side="left", sorter=None):
    b = list(base(m_asarray(a)).reshape(-1))

    def one(x):
        k = 0
        for e in b:
            if bool(e < x) if side == "left" else bool(e <= x):
                k += 1
            else:
                break
        return k

    if not isinstance(v, (np.ndarray, list, tuple)):
        return one(v)
    q = base(m_asarray(v))
    return np.array([one(x) for x in q.reshape(-1)], dtype=int).reshape(q.shape)


def m_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise EngineError("np.interp period")
    X, Y = list(base(m_asarray(xp)).reshape(-1)), list(base(m_asarray(fp)).reshape(-1))

    def one(v):
        v = _L(v)
        if bool(v < X[0]):
            return _L(Y[0] if left is None else left)
        if bool(v > X[-1]):
            return _L(Y[-1] if right is None else right)
        for i in range(len(X) - 1):
            if bool(v <= X[i + 1]):
                return lin(X[i], Y[i], X[i + 1], Y[i + 1], v)
        return _L(Y[-1])

    if not isinstance(x, (np.ndarray, list, tuple)):
        return one(x)
    return wrap(_mapel(one, m_asarray(x)))


def lin(x0, y0, x1, y1, x):
    x0, x1, y0, y1 = map(_L, (x0, x1, y0, y1))
    if y0.kind != core.FIN or y1.kind != core.FIN:
        d = x - x0
        if d.isconst() and d.const() == 0 and False:
            return y0
    return y0 + (y1 - y0) * (x - x0) / (x1 - x0)


def edges_of(b, rng, data, d):
    if isinstance(b, (int, np.integer, SymReal)) or (isinstance(b, np.ndarray) and b.ndim == 0):
        n = int(b)
        if n < 1:
            raise ValueError("`bins[%d]` must be positive, when an integer" % d)
        if rng is not None:
            lo, hi = _L(rng[0]), _L(rng[1])
            if bool(lo > hi):
                raise ValueError("max must be larger than min in range parameter.")
        elif not data:
            lo, hi = core.real_const(0), core.real_const(1)
        else:
            lo = hi = _L(data[0])
            for v in data[1:]:
                lo, hi = s_min(lo, v), s_max(hi, v)
        if bool(lo == hi):
            lo, hi = lo - core.real_const("1/2"), hi + core.real_const("1/2")
        return m_linspace(lo, hi, n + 1)
    e = m_asarray(b)
    if e.ndim != 1:
        raise ValueError("`bins[%d]` must be a scalar or 1d array" % d)
    ee = list(base(e))
    for x, y in zip(ee, ee[1:]):
        if bool(x > y):
            raise ValueError("`bins[%d]` must be monotonically increasing, when an array" % d)
    return wrap(base(e))


def m_histogramdd(sample, bins=10, range=None, density=None, weights=None, normed=None):
    if isinstance(sample, np.ndarray):
        s = base(m_asarray(sample))
        if s.ndim == 1:
            s = s.reshape(-1, 1)
        if s.ndim != 2:
            raise ValueError("too many values to unpack (expected 2)")
    else:
        s = base(m_array(list(sample)))
        s = np.atleast_2d(s).T
    N, D = s.shape
    if isinstance(bins, (int, np.integer)):
        bins = D * [bins]
    else:
        if len(bins) != D:
            raise ValueError("The dimension of bins must be equal to the dimension of the  sample x.")
    if range is not None and len(range) != D:
        raise ValueError("range argument must have one entry per dimension")
    edges = [edges_of(bins[d], None if range is None else range[d], list(s[:, d]), d) for d in builtins.range(D)]
    shape = tuple(len(base(e)) - 1 for e in edges)
    h = _filled(shape, core.real_const(0))
    elist = [list(base(e)) for e in edges]
    seen = {}  # bins of identical entries
    if weights is None:
        tally = {}
    for i in builtins.range(N):
        idx = []
        for d in builtins.range(D):
            x = s[i, d]
            if (id(x), d) not in seen:
                seen[id(x), d] = (x, bin_index(x, elist[d]))
            k = seen[id(x), d][1]
            if k is None:
                break
            idx.append(k)
        else:
            if weights is None:
                tally[tuple(idx)] = tally.get(tuple(idx), 0) + 1
            else:
                h[tuple(idx)] = h[tuple(idx)] + weights[i]
    if weights is None:
        for idx, c in tally.items():
            h[idx] = core.real_const(c)
    if density:
        tot = np.sum(h)
        vol = core.real_const(1)
        hh = h / tot
        for d in builtins.range(D):
            w = np.diff(edges[d])
            sh = [1] * D
            sh[d] = -1
            hh = hh / w.reshape(sh)
        h = hh
    return h, edges


def bin_index(x, e):
    x = _L(x)
    if x.kind == core.UNDEF:
        core.CTX.uninit()
    if x.kind == core.NAN:
        return None
    if bool(x < e[0]) or bool(x > e[-1]):
        return None
    n = len(e) - 1
    for k in range(n - 1):
        if bool(x < e[k + 1]):
            return k
    return n - 1


def m_histogram(a, bins=10, range=None, density=None, weights=None):
    a = base(m_asarray(a)).reshape(-1, 1)
    if isinstance(bins, str):
        raise EngineError("histogram bins string")
    h, e = m_histogramdd(a, [bins], None if range is None else [range], density, weights)
    return h, e[0]


def m_histogram2d(x, y, bins=10, range=None, density=None, weights=None):
    s = np.array([base(m_asarray(x)), base(m_asarray(y))]).T
    if isinstance(bins, (int, np.integer)):
        bins = [bins, bins]
    h, e = m_histogramdd(s, bins, range, density, weights)
    return h, e[0], e[1]


def m_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = m_asarray(a) if not isinstance(a, (list, tuple)) or _contains_sym(a) else np.array(a)
    if a.dtype.kind in "ib":
        return np.unique(a, return_index, return_inverse, return_counts, axis)
    b = base(a)
    if axis not in (None, 0) or (axis == 0 and b.ndim != 2):
        raise EngineError("np.unique with axis on symbolic values")
    v = [tuple(_L(y) for y in x) for x in b] if axis == 0 else [(_L(x),) for x in b.ravel()]

    def less(x, y):
        for p, q in zip(x, y):
            if bool(p < q):
                return True
            if not bool(p == q):
                return False
        return False

    vals, first, inv, cnt = [], [], [], []
    for i, x in enumerate(v):
        j = next((j for j, y in enumerate(vals) if all(bool(p == q) for p, q in zip(x, y))), None)
        if j is None:
            j = len(vals)
            vals.append(x)
            first.append(i)
            cnt.append(0)
        inv.append(j)
        cnt[j] += 1
    order = []
    for j, x in enumerate(vals):
        p = next((p for p, q in enumerate(order) if less(x, vals[q])), len(order))
        order.insert(p, j)
    out = [m_array([list(vals[j]) if axis == 0 else vals[j][0] for j in order])]
    if return_index:
        out.append(np.array([first[j] for j in order]))
    if return_inverse:
        out.append(np.array([order.index(j) for j in inv]))
    if return_counts:
        out.append(np.array([cnt[j] for j in order]))
    return out[0] if len(out) == 1 else tuple(out)


def m_bincount(x, weights=None, minlength=0):
    x = np.array([int(i) for i in x])
    if weights is None:
        return np.bincount(x, minlength=minlength)
    out = [core.ZERO] * max(minlength, (max(x) + 1) if len(x) else 0)
    for i, w in zip(x, base(m_asarray(weights)).ravel()):
        out[i] = out[i] + _L(w)
    return m_array(out)


def s_copysign(a, b):
    b = _L(b)
    return core.abs_(_L(a)) if bool(b >= 0) else -core.abs_(_L(a))


def s_heaviside(a, h):
    a = _L(a)
    return _L(h) if bool(a == 0) else (core.ONE if bool(a > 0) else core.ZERO)


def sp_normpdf(x, loc=0.0, scale=1.0):
    x = m_asarray(x) if isinstance(x, (np.ndarray, list, tuple)) else x
    z = (x - loc) / scale
    return UfuncProxy(np.exp)(z * z / -2) / (scale * core.sqrt(2 * core.PI()))


def m_trapz(y, x=None, dx=1.0, axis=-1):
    y = wrap(base(m_asarray(y)))
    if x is not None:
        d = np.diff(m_asarray(x))
        sh = [1] * y.ndim
        sh[axis] = -1
        d = d.reshape(sh)
    else:
        d = dx
    sl1 = [slice(None)] * y.ndim
    sl2 = [slice(None)] * y.ndim
    sl1[axis] = slice(1, None)
    sl2[axis] = slice(None, -1)
    return np.sum(d * (y[tuple(sl1)] + y[tuple(sl2)]) / 2, axis=axis)


def m_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    big = float(np.finfo(float).max)
    sub = {core.NAN: nan, core.PINF: big if posinf is None else posinf, core.NINF: -big if neginf is None else neginf}

    def one(v):
        v = _L(v)
        if v.kind == core.UNDEF:
            core.CTX.uninit()
        return _L(sub[v.kind]) if v.kind in sub else v

    if not isinstance(_arr(x), np.ndarray):
        return one(x)
    b = base(_arr(x))
    r = np.frompyfunc(one, 1, 1)(b)
    if not copy and isinstance(x, np.ndarray):
        x[...] = wrap(r)
        return x
    return wrap(r)


def _kindtest(kind):
    def one(v):
        v = _L(v)
        if v.kind == core.UNDEF:
            core.CTX.uninit()
        return v.kind == kind

    def f(x, out=None):
        x = _arr(x)
        if not isinstance(x, np.ndarray):
            return one(x)
        r = np.asarray(np.frompyfunc(one, 1, 1)(base(x))).astype(bool)
        return r if r.ndim else bool(r)

    return f


m_isneginf, m_isposinf = _kindtest(core.NINF), _kindtest(core.PINF)


def _nanred(red, empty):
    """sum, mean, min, max without NaN entries (one axis or all)"""

    def f(a, axis=None, keepdims=False):
        b = base(_arr(a))
        if axis is None:
            v = [_L(x) for x in b.ravel() if not _isnan(x)]
            if not v:
                return empty()
            r = red(v)
            return wrap(np.full((1,) * b.ndim, r, dtype=object)) if keepdims else r
        b = np.moveaxis(b, axis, -1)
        out = np.empty(b.shape[:-1], dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = f(b[i])
        r = np.expand_dims(out, axis) if keepdims else out
        return wrap(r) if r.ndim else r[()]

    return f


def _fold(op):
    def f(v):
        r = v[0]
        for x in v[1:]:
            r = op(r, x)
        return r

    return f


def _raise_allnan():
    return S_NAN


m_nansum = _nanred(_fold(lambda a, b: a + b), lambda: core.ZERO)
m_nanmean = _nanred(lambda v: core.div(_fold(lambda a, b: a + b)(v), core.real_const(len(v))), _raise_allnan)
m_nanmax = _nanred(_fold(s_max), _raise_allnan)
m_nanmin = _nanred(_fold(s_min), _raise_allnan)


def m_round(a, decimals=0, out=None):
    if isinstance(a, (np.ndarray, list, tuple)):
        return wrap(_mapel(lambda x: core.round_(_L(x), decimals), m_asarray(a)))
    return core.round_(_L(a), decimals)


def m_prod(a, axis=None, dtype=None, keepdims=False, **k):
    b = base(m_asarray(a))
    allint = b.size and all(isinstance(x, (int, np.integer)) for x in b.reshape(-1))
    r = np.multiply.reduce(b, axis=axis, keepdims=keepdims)
    if allint and not isinstance(r, np.ndarray):
        return int(r)
    return wrap(r) if isinstance(r, np.ndarray) else lift_el(r)


def m_isscalar(x):
    return isinstance(x, SymReal) or np.isscalar(x)


def m_vectorize(f, *a, **k):
    def g(*xs, **kw):
        bs = [base(m_asarray(x)) if isinstance(x, (list, tuple, np.ndarray)) else _filled((), x) if isinstance(x, SymReal) else np.asarray(x) for x in xs]
        bs = np.broadcast_arrays(*bs)
        out = np.empty(bs[0].shape, dtype=object)
        for i in np.ndindex(*bs[0].shape):
            out[i] = f(*[lift_el(b[i]) if b.dtype == object else b[i] for b in bs], **kw)
        if out.shape == ():
            return out[()]
        return m_array(out.tolist())

    return g


def m_apply_along_axis(f, axis, arr, *a, **k):
    b = wrap(base(m_asarray(arr)))
    mv = np.moveaxis(b, axis, -1)
    sh = np.ndarray.shape.__get__(mv)[:-1]
    res = [f(mv[i], *a, **k) for i in np.ndindex(*sh)]
    if res and isinstance(res[0], np.ndarray):
        o = np.array([base(r) for r in res]).reshape(sh + np.ndarray.shape.__get__(res[0]))
        return wrap(np.moveaxis(o, -1, axis))
    o = np.empty(len(res), dtype=object)
    for i, r in enumerate(res):
        o[i] = r
    return wrap(o.reshape(sh))


def m_einsum(*args, **k):
    args = [base(a) if isinstance(a, np.ndarray) else a for a in args]
    k.pop("optimize", None)
    return wrap(np.einsum(*args, **k))


def m_convolve(a, v, mode="full"):
    return sp_convolve(m_asarray(a), m_asarray(v), mode, "direct")


HANDLED = {
    np.where: m_where,
    np.mean: m_mean,
    np.std: m_std,
    np.var: m_var,
    np.average: m_average,
    np.count_nonzero: m_count_nonzero,
    np.isclose: m_isclose,
    np.allclose: m_allclose,
    np.array_equal: m_array_equal,
    np.digitize: m_digitize,
    np.searchsorted: m_searchsorted,
    np.interp: m_interp,
    np.histogramdd: m_histogramdd,
    np.histogram: m_histogram,
    np.histogram2d: m_histogram2d,
    np.trapz: m_trapz,
    np.linspace: m_linspace,
    np.clip: m_clip,
    np.round: m_round,
    np.around: m_round,
    np.prod: m_prod,
    np.zeros_like: m_zeros_like,
    np.ones_like: m_ones_like,
    np.empty_like: m_empty_like,
    np.full_like: m_full_like,
    np.nan_to_num: m_nan_to_num,
    np.isneginf: m_isneginf, np.isposinf: m_isposinf,
    np.nansum: m_nansum, np.nanmean: m_nanmean, np.nanmax: m_nanmax, np.nanmin: m_nanmin,
    np.apply_along_axis: m_apply_along_axis,
    np.einsum: m_einsum,
    np.convolve: m_convolve,
    np.unique: m_unique,
}


# ---------------------------------------------------------------- scipy models
FFT_NOISE = None  # set by a check: rounding error of a convolution done by Fourier transforms


def sp_fftconvolve(a, b, mode="full", axes=None):
    return sp_convolve(a, b, mode, "fft")


def sp_convolve(a, b, mode="full", method="auto"):
    a, b = base(m_asarray(a)), base(m_asarray(b))
    if a.ndim != b.ndim:
        raise ValueError("volume and kernel should have the same dimensionality")
    if mode not in ("full", "same", "valid"):
        raise ValueError("acceptable mode flags are 'valid', 'same', or 'full'")
    if mode == "valid":
        ge = all(x >= y for x, y in zip(a.shape, b.shape))
        le = all(x <= y for x, y in zip(a.shape, b.shape))
        if not ge and not le:
            raise ValueError("For 'valid' mode, one must be at least as large as the other in every dimension")
        if not ge:
            a, b = b, a
    fs = tuple(x + y - 1 for x, y in zip(a.shape, b.shape))
    if mode == "full":
        lo, sh = [0] * a.ndim, fs
    elif mode == "same":
        sh = a.shape
        lo = [(f - s) // 2 for f, s in zip(fs, sh)]
    else:
        sh = tuple(x - y + 1 for x, y in zip(a.shape, b.shape))
        lo = [y - 1 for y in b.shape]
    out = np.empty(sh, dtype=object)
    for idx in np.ndindex(*sh):
        full = [i + l for i, l in zip(idx, lo)]
        acc = {}
        for j in itertools.product(*[range(max(0, f - (x - 1)), min(y - 1, f) + 1) for f, x, y in zip(full, a.shape, b.shape)]):
            x = _L(a[tuple(f - k for f, k in zip(full, j))])
            y = _L(b[j])
            if x.kind != core.FIN or y.kind != core.FIN:
                acc = None
                break
            acc = core.padd(acc, core.pmul(x.p, y.p))
        if acc is None:
            s = core.ZERO
            for j in itertools.product(*[range(max(0, f - (x - 1)), min(y - 1, f) + 1) for f, x, y in zip(full, a.shape, b.shape)]):
                s = s + _L(a[tuple(f - k for f, k in zip(full, j))]) * _L(b[j])
            out[idx] = s
        else:
            out[idx] = SymReal(acc)
        if FFT_NOISE is not None and method != "direct":
            out[idx] = out[idx] + FFT_NOISE()
    return wrap(out)


def _metric(m):
    def sq(u, v):
        s = core.ZERO
        for x, y in zip(u, v):
            d = _L(x) - _L(y)
            s = s + d * d
        return s

    def city(u, v):
        s = core.ZERO
        for x, y in zip(u, v):
            s = s + core.abs_(_L(x) - _L(y))
        return s

    if m == "sqeuclidean":
        return sq
    if m == "euclidean":
        return lambda u, v: core.sqrt(sq(u, v))
    if m == "cityblock":
        return city
    if callable(m):
        return lambda u, v: m(wrap(u), wrap(v))
    raise EngineError("distance metric %r" % (m,))


def sp_pdist(X, metric="euclidean", **k):
    X = base(m_asarray(X))
    if X.ndim != 2:
        raise ValueError("A 2-dimensional array must be passed.")
    f = _metric(metric)
    n = X.shape[0]
    r = [f(X[i], X[j]) for i in range(n) for j in range(i + 1, n)]
    o = np.empty(len(r), dtype=object)
    for i, v in enumerate(r):
        o[i] = v
    return o.view(SymArray)


def sp_cdist(A, B, metric="euclidean", **k):
    A, B = base(m_asarray(A)), base(m_asarray(B))
    if A.ndim != 2 or B.ndim != 2:
        raise ValueError("XA must be a 2-dimensional array.")
    f = _metric(metric)
    o = np.empty((A.shape[0], B.shape[0]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(B.shape[0]):
            o[i, j] = f(A[i], B[j])
    return o.view(SymArray)


def sp_squareform(X, force="no", checks=True):
    X = base(m_asarray(X))
    if X.ndim == 1:
        m = X.shape[0]
        if m == 0:
            return _filled((1, 1), core.real_const(0))
        n = int(math.ceil(math.sqrt(m * 2)))
        if n * (n - 1) != m * 2:
            raise ValueError("Incompatible vector size.")
        o = _filled((n, n), core.real_const(0))
        k = 0
        for i in range(n):
            for j in range(i + 1, n):
                o[i, j] = X[k]
                o[j, i] = X[k]
                k += 1
        return o
    n = X.shape[0]
    r = [X[i, j] for i in range(n) for j in range(i + 1, n)]
    return m_array(r)


def sp_griddata(points, values, xi, method="linear", fill_value=core.S_NAN, rescale=False):
    pts = base(m_asarray(points))
    vals = base(m_asarray(values)).reshape(-1)
    if pts.ndim == 1:
        pts = pts.reshape(-1, 1)
    nd = pts.shape[1]
    if isinstance(xi, tuple):
        arrs = np.broadcast_arrays(*[base(m_asarray(x)) for x in xi])
        x = np.stack(arrs, axis=-1)
    else:
        x = base(m_asarray(xi))
    fill = _L(fill_value)
    if pts.shape[0] != vals.shape[0]:
        raise ValueError("different number of values and points")
    if nd == 1:
        if x.ndim and x.shape[-1] == 1 and x.ndim > 1:
            x = x[..., 0] if False else x
        X = [_L(v) for v in pts[:, 0]]
        order = list(range(len(X)))
        if all(v.isconst() for v in X):
            order.sort(key=lambda i: X[i].const())
        Xs = [X[i] for i in order]
        Ys = [_L(vals[i]) for i in order]

        def one(v):
            v = _L(v)
            if v.kind == core.NAN:
                return S_NAN
            if bool(v < Xs[0]) or bool(v > Xs[-1]):
                return fill
            n = len(Xs)
            if method == "nearest":
                raise EngineError("griddata nearest")
            if method != "linear":
                raise EngineError("griddata method %s" % method)
            if v.isconst() and all(q.isconst() for q in Xs):
                c = v.const()
                for i in range(n - 1):
                    if c <= Xs[i + 1].const():
                        if c == Xs[i + 1].const():
                            return Ys[i + 1]
                        if c == Xs[i].const():
                            return Ys[i]
                        return lin(Xs[i], Ys[i], Xs[i + 1], Ys[i + 1], v)
            lo, hi = 0, n - 2
            while lo < hi:
                mid = (lo + hi) // 2
                if bool(v <= Xs[mid + 1]):
                    hi = mid
                else:
                    lo = mid + 1
            return lin(Xs[lo], Ys[lo], Xs[lo + 1], Ys[lo + 1], v)

        return wrap(_mapel(one, x))
    # several dimensions: uninterpreted function of all grid points, values and the position
    if x.shape[-1] != nd:
        raise ValueError("number of dimensions in xi does not match x")
    flat = x.reshape(-1, nd)
    o = np.empty(flat.shape[0], dtype=object)
    for i in range(flat.shape[0]):
        o[i] = interp_uf(pts, vals, [_L(v) for v in flat[i]], method, fill)
    return wrap(o.reshape(x.shape[:-1]))


def interp_uf(pts, vals, x, method, fill):
    """scattered linear interpolation: exact at nodes, fill outside the box, else uninterpreted"""
    nd = pts.shape[1]
    xk = tuple(v.key for v in x)
    for i in range(pts.shape[0]):
        if tuple(_L(v).key for v in pts[i]) == xk:
            return _L(vals[i])
    for d in range(nd):
        col = [_L(v) for v in pts[:, d]]
        if all(c.isconst() for c in col):
            lo = core.real_const(min(c.const() for c in col))
            hi = core.real_const(max(c.const() for c in col))
        else:
            lo, hi = col[0], col[-1]
        if bool(x[d] < lo) or bool(x[d] > hi):
            return fill
    if all(v.isconst() for v in x):
        for i in range(pts.shape[0]):
            if all(_L(pts[i, d]).isconst() and _L(pts[i, d]).const() == x[d].const() for d in range(nd)):
                return _L(vals[i])
    # the data enter as a set of (point, value) pairs
    pairs = sorted(
        ((tuple(_L(v).key for v in pts[i]), _L(vals[i]).key) for i in range(pts.shape[0])), key=hash
    )
    key = ("interp", method, tuple(pairs), tuple(v.key for v in x))
    data = [method] + list(x)
    dk = _UFDATA.setdefault((method, tuple(pairs)), len(_UFDATA))
    a = core._atom("uf", ("interp%d" % dk, tuple(v.key for v in x)), data=tuple(x))
    return SymReal({((a.id, 1),): core.F1})


_UFDATA = {}


# ---------------------------------------------------------------- module proxies
class Proxy(types.ModuleType):
    def __init__(self, name, real=None, over=None, default_wrap=True):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__["_over"] = over or {}
        self.__dict__["_dw"] = default_wrap

    def __getattr__(self, k):
        o = self.__dict__["_over"]
        if k in o:
            return o[k]
        real = self.__dict__["_real"]
        if real is None:
            raise EngineError("%s.%s is not modelled" % (self.__name__, k))
        v = getattr(real, k)
        if isinstance(v, types.ModuleType):
            return Proxy(self.__name__ + "." + k, v, {}, True)
        if self.__dict__["_dw"] and callable(v) and not isinstance(v, type):
            return _wrapped(v)
        return v


_wcache = {}


def _wrapped(f):
    r = _wcache.get(id(f))
    if r is not None and r[0] is f:
        return r[1]
    if isinstance(f, np.ufunc):
        return UfuncProxy(f)

    def g(*a, **k):
        if "dtype" in k and dkind(k["dtype"]) in ("float",):
            k.pop("dtype")
        return wrap(f(*a, **k))

    g.__name__ = getattr(f, "__name__", "f")
    g.__wrapped__ = f
    _wcache[id(f)] = (f, g)
    return g


class UfuncProxy:
    """ufunc that also accepts python scalars holding symbolic values"""

    def __init__(self, f):
        self.f = f
        self.__name__ = f.__name__
        self.nin = f.nin

    def __call__(self, *a, **k):
        from_grid = any(
            not isinstance(x, (np.ndarray, list, tuple, int, float, SymReal, SymBool, np.generic)) for x in a[: self.f.nin]
        )
        if from_grid:  # e.g. np.exp(grid): numpy calls the object's method
            x = a[0]
            m = getattr(x, self.f.__name__, None)
            if m is not None and self.f.nin == 1:
                return m()
            o = np.empty((), dtype=object)
            o[()] = a[0]
            return self.f(*a, **k)
        if any(isinstance(x, (SymReal, SymBool)) for x in a) and not any(isinstance(x, (np.ndarray, list, tuple)) for x in a):
            n = self.f.__name__
            fn = UF.get(n) or CMP.get(n) or PRED.get(n)
            if fn is None:
                raise EngineError("numpy function %s on symbolic values" % n)
            r = fn(*a[: self.f.nin])
            return r
        aa = []
        for x in a:
            if isinstance(x, (list, tuple)):
                x = m_array(x)
            elif isinstance(x, SymReal):
                x = _filled((), x)
            aa.append(x)
        if not any(isinstance(x, SymArray) for x in aa):
            if all(isinstance(x, (int, np.integer, bool, np.bool_)) or (isinstance(x, np.ndarray) and x.dtype.kind in "ib") for x in aa) and self.f.__name__ not in (
                "exp", "log", "sqrt", "divide", "true_divide", "power", "log2", "log10", "exp2", "expm1", "log1p", "reciprocal", "hypot"):
                return self.f(*aa, **k)
            fn = UF.get(self.f.__name__)
            if fn is not None and not any(isinstance(x, np.ndarray) for x in aa):
                return fn(*[_L(x) for x in aa])
            aa = [base(x).view(SymArray) if isinstance(x, np.ndarray) else x for x in aa]
            if not any(isinstance(x, SymArray) for x in aa):
                return wrap(self.f(*aa, **k))
        r = self.f(*aa, **k)
        return wrap(r) if isinstance(r, np.ndarray) and "out" not in k else r

    def reduce(self, a, *x, **k):
        return self.f.reduce(wrap(base(m_asarray(a))), *x, **k)

    def accumulate(self, a, *x, **k):
        return self.f.accumulate(wrap(base(m_asarray(a))), *x, **k)

    def outer(self, a, b, **k):
        return self.f.outer(wrap(base(m_asarray(a))), wrap(base(m_asarray(b))), **k)

    def at(self, a, i, *b):
        return self.f.at(a.view(np.ndarray) if isinstance(a, SymArray) else a, i, *[base(x) if isinstance(a, SymArray) else x for x in b])


class _CR:
    """np.c_ / np.r_"""

    def __init__(self, r):
        self.r = r

    def __getitem__(self, k):
        if not isinstance(k, tuple):
            k = (k,)
        k = tuple(
            m_array(x) if isinstance(x, (list, tuple)) else (base(x) if isinstance(x, (np.ndarray, SymReal)) else x) for x in k
        )
        return wrap(self.r[k])


def make_numpy(env):
    """numpy proxy bound to an environment (random numbers and files)"""
    over = {
        "array": m_array, "asarray": m_asarray, "asanyarray": m_asarray, "ascontiguousarray": m_asarray,
        "asfarray": lambda a, *k: m_array(a, dtype=float),
        "empty": m_empty, "empty_like": m_empty_like, "zeros": m_zeros, "zeros_like": m_zeros_like,
        "ones": m_ones, "ones_like": m_ones_like, "full": m_full, "full_like": m_full_like, "eye": m_eye,
        "identity": m_eye, "fromiter": m_fromiter, "linspace": m_linspace, "arange": m_arange,
        "pi": core.PI(), "e": core.exp(core.ONE) if core.CTX else None,
        "inf": float("inf"), "nan": float("nan"), "Inf": float("inf"), "NaN": float("nan"), "infty": float("inf"),
        "float64": Np64, "double": Np64, "float_": Np64,
        "c_": _CR(np.c_), "r_": _CR(np.r_), "isscalar": m_isscalar, "vectorize": m_vectorize, "frompyfunc": lambda f, nin, nout: m_vectorize(f),
        "bincount": m_bincount, "finfo": lambda t=float: np.finfo(float), "iinfo": lambda t=int: np.iinfo(int),
        "savetxt": env.fs_savetxt, "genfromtxt": env.fs_genfromtxt, "loadtxt": env.fs_loadtxt,
        "save": _unsup("save"), "load": _unsup("load"), "savez": _unsup("savez"),
        "random": env.np_random(), "trapezoid": m_trapz,
    }
    for f, h in HANDLED.items():
        over.setdefault(f.__name__, h)
    over["where"] = m_where
    over["max"] = over["amax"] = lambda a, axis=None, **k: wrap(np.max(_arr(a), axis=axis, **k))
    over["min"] = over["amin"] = lambda a, axis=None, **k: wrap(np.min(_arr(a), axis=axis, **k))
    over["sum"] = m_sum
    over["polynomial"] = Proxy("numpy.polynomial", np.polynomial, {})
    over["testing"] = np.testing
    for n in ("concatenate", "append", "stack", "vstack", "hstack", "dstack", "column_stack", "meshgrid", "tile",
              "repeat", "cumsum", "cumprod", "diff", "dot", "inner", "outer", "matmul", "tensordot", "argmin",
              "argmax", "argsort", "sort", "median", "ptp", "gradient", "atleast_1d", "atleast_2d", "atleast_3d",
              "expand_dims", "squeeze", "insert", "delete", "roll", "flip", "any", "all", "ravel", "reshape",
              "transpose", "swapaxes", "moveaxis", "broadcast_to", "broadcast_arrays", "take", "compress", "split",
              "array_split", "diag", "trace", "triu", "tril", "nonzero", "flatnonzero", "argwhere", "cross", "sometrue",
              "copyto", "fill_diagonal", "put", "place", "putmask", "isin", "in1d", "ndim", "shape", "size",
              "copy", "rollaxis", "lexsort", "searchsorted", "extract", "choose", "select", "block", "piecewise" ):
        if n in over:
            continue
        over[n] = _listy(getattr(np, n), n)
    return Proxy("numpy", np, over)


def m_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    a = _arr(a)
    if not isinstance(a, np.ndarray):
        return a
    if a.dtype.kind in "ib":
        return np.sum(a, axis=axis, keepdims=keepdims, where=where)
    b = base(a)
    r = np.add.reduce(b, axis=axis, keepdims=keepdims, where=where) if where is not True else np.add.reduce(b, axis=axis, keepdims=keepdims)
    if initial is not None:
        r = r + initial
    if dkind(dtype) == "int":
        r = to_int(r) if not isinstance(r, np.ndarray) else cast(r, int)
    return wrap(r) if isinstance(r, np.ndarray) else lift_el(r)


def _arr(a):
    if isinstance(a, np.ndarray):
        return a
    if isinstance(a, (list, tuple)):
        return m_array(a)
    if isinstance(a, types.GeneratorType):
        return m_array(list(a))
    return a


def _listy(f, name):
    """real numpy function, list arguments with symbolic entries turned into arrays first"""

    def conv(x):
        if isinstance(x, (list, tuple)) and _contains_sym(x):
            if name in ("concatenate", "stack", "vstack", "hstack", "dstack", "column_stack", "block", "broadcast_arrays"):
                return type(x)(_obj(_arr(y)) for y in x)
            return m_array(x)
        if isinstance(x, SymReal):
            return _filled((), x)
        return x

    def _obj(y):
        if isinstance(y, np.ndarray) and y.dtype.kind in "f":
            return base(y).view(SymArray)
        if isinstance(y, SymReal):
            return _filled((), y)
        return y

    if name in ("ndim", "shape", "size"):
        return lambda a, *k: f(_arr(a) if not isinstance(a, SymReal) else 0, *k)

    def g(*a, **k):
        if "dtype" in k and dkind(k["dtype"]) == "float":
            k.pop("dtype")
        return wrap(f(*[conv(x) for x in a], **{n: conv(v) for n, v in k.items()}))

    g.__name__ = name
    return g


def make_modules(env):
    npm = make_numpy(env)
    signal = Proxy("scipy.signal", None, {"convolve": sp_convolve, "fftconvolve": sp_fftconvolve, "oaconvolve": sp_fftconvolve, "convolve2d": lambda a, b, mode="full", **k: sp_convolve(a, b, mode, "direct")})
    interp = Proxy("scipy.interpolate", None, {"griddata": sp_griddata})
    dist = Proxy("scipy.spatial.distance", None, {"pdist": sp_pdist, "cdist": sp_cdist, "squareform": sp_squareform})
    spatial = Proxy("scipy.spatial", None, {"distance": dist})
    integ = Proxy("scipy.integrate", None, {"trapezoid": m_trapz, "trapz": m_trapz})
    lse = lambda a, axis=None, **k: UfuncProxy(np.log)(np.sum(UfuncProxy(np.exp)(m_asarray(a)), axis=axis))
    special = Proxy("scipy.special", None, {"logsumexp": lse})
    stats = Proxy("scipy.stats", None, {"norm": Proxy("scipy.stats.norm", None, {"pdf": sp_normpdf})})
    statm = lambda xs: _fsum(xs) / len(list(xs))
    statistics = Proxy("statistics", None, {"mean": statm, "fmean": statm})
    scipy = Proxy("scipy", None, {"stats": stats, "signal": signal, "interpolate": interp, "spatial": spatial, "integrate": integ, "special": special})
    from . import plots

    pyplot = plots.Pyplot(env)
    mpl = Proxy("matplotlib", None, {"pyplot": pyplot, "use": lambda *a, **k: None, "get_backend": lambda: "agg"})
    fsum = lambda xs: _fsum(xs)
    mathp = Proxy("math", math, {
        "exp": lambda x: core.exp(_L(x)), "log": lambda x, *b: core.log(_L(x)) if not b else core.log(_L(x)) / core.log(_L(b[0])),
        "sqrt": lambda x: _msqrt(x), "pi": core.PI(), "floor": lambda x: math.floor(x) if not isinstance(x, SymReal) else int(core.floor_(x)),
        "ceil": lambda x: math.ceil(x) if not isinstance(x, SymReal) else int(core.ceil_(x)),
        "isnan": _isnan, "isinf": _isinf, "isfinite": _isfin, "fsum": fsum, "prod": lambda xs, start=1: _mprod(xs, start),
        "pow": _npow, "fabs": lambda x: core.abs_(_L(x)), "trunc": lambda x: core.trunc_(_L(x)),
        "hypot": lambda *x: core.sqrt(_fsum([_L(v) * v for v in x])), "expm1": UF["expm1"], "log1p": UF["log1p"], "log10": UF["log10"], "log2": UF["log2"],
        "isclose": lambda a, b, rel_tol=1e-9, abs_tol=0.0: _close(a, b, rel_tol, abs_tol, False),
        "fmod": lambda a, b: a % b, "copysign": s_copysign,
        "dist": lambda a, b: core.sqrt(_fsum([(_L(x) - _L(y)) * (_L(x) - _L(y)) for x, y in zip(a, b)])),
    }, default_wrap=False)
    return {
        "numpy": npm, "scipy": scipy, "scipy.signal": signal, "scipy.interpolate": interp, "scipy.spatial": spatial,
        "scipy.spatial.distance": dist, "scipy.integrate": integ, "scipy.special": special, "matplotlib": mpl,
        "matplotlib.pyplot": pyplot, "math": mathp, "scipy.stats": stats, "statistics": statistics,
    }


def _msqrt(x):
    x = _L(x)
    if x.kind == core.FIN and bool(x < 0):
        raise ValueError("math domain error")
    return core.sqrt(x)


def _fsum(xs):
    r = core.ZERO
    for x in xs:
        r = r + _L(x)
    return r


def _mprod(xs, start=1):
    r = start
    for x in xs:
        r = r * x
    return r
