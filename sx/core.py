"""Symbolic values and path exploration.

Reals are kept in a normal form: Laurent polynomials with rational coefficients over *atoms*
(input variables, pi, exp(monomial), log(polynomial), powers of polynomials, uninterpreted
applications).  Branch conditions and assertions over them are translated to z3 (QF_NRA/NIRA);
z3 decides feasibility of every branch and validity of every assertion.
"""
import math
import itertools
import time
from fractions import Fraction

import z3

F0, F1 = Fraction(0), Fraction(1)


class EngineError(BaseException):
    """The code uses something the engine cannot encode (inconclusive)."""


class PathAbort(BaseException):
    """Stop exploring the current path (assumption false, or failure recorded)."""


class CheckFailed(Exception):
    """Concrete mode: a checked statement is false."""


# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "kind", "key", "pos", "nonneg", "is_int", "data", "lo", "hi")

    def __repr__(self):
        return atom_str(self)


_ATOMS = {}
_BYID = []


def _atom(kind, key, pos=False, nonneg=False, is_int=False, data=None):
    k = (kind, key)
    a = _ATOMS.get(k)
    if a is None:
        a = Atom()
        a.id = len(_BYID)
        a.kind, a.key, a.pos, a.nonneg, a.is_int, a.data = kind, key, pos, nonneg or pos, is_int, data
        a.lo = a.hi = None
        _ATOMS[k] = a
        _BYID.append(a)
    return a


def atom_str(a):
    if a.kind == "var":
        return a.key
    if a.kind == "exp":
        return "exp(%s)" % (mono_str(a.key) or "1")
    if a.kind in ("log", "poly", "rpoly"):
        return "%s(%s)" % ("log" if a.kind == "log" else "", poly_str(a.data))
    if a.kind == "uf":
        return "%s#%d" % (a.key[0], a.id)
    return str(a.key)


def mono_str(m):
    return "*".join(
        atom_str(_BYID[i]) + ("" if e == 1 else "^(%s)" % e) for i, e in m
    )


def poly_str(p, limit=12):
    if not p:
        return "0"
    out = []
    for m, c in itertools.islice(p.items(), limit):
        s = mono_str(m)
        out.append("%s%s%s" % (c, "*" if s else "", s))
    if len(p) > limit:
        out.append("... %d terms" % len(p))
    return " + ".join(out)


# ---------------------------------------------------------------- monomials and polynomials
def _fr(e):
    if isinstance(e, Fraction) and e.denominator == 1:
        return e.numerator
    return e


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for i, e in b:
        x = d.get(i)
        if x is None:
            d[i] = e
        else:
            x = _fr(x + e)
            if x == 0:
                del d[i]
            else:
                d[i] = x
    return tuple(sorted(d.items()))


def mono_pow(m, q):
    return tuple((i, _fr(e * q)) for i, e in m) if q != 0 else ()


def mono_pos(m):
    """syntactically > 0"""
    for i, e in m:
        a = _BYID[i]
        if not a.pos and not (a.nonneg and False):
            return False
    return True


def mono_nonneg(m):
    for i, e in m:
        a = _BYID[i]
        if a.nonneg:
            continue
        if isinstance(e, int) and e % 2 == 0:
            continue
        if not isinstance(e, int):
            continue
        return False
    return True


MAXTERMS = 20000


def padd(p, q):
    r = dict(p)
    for m, c in q.items():
        x = r.get(m)
        if x is None:
            r[m] = c
        else:
            x = x + c
            if x == 0:
                del r[m]
            else:
                r[m] = x
    return r


def pscale(p, c):
    if c == 0:
        return {}
    if c == 1:
        return p
    return {m: x * c for m, x in p.items()}


def pneg(p):
    return {m: -x for m, x in p.items()}


def pconst(c):
    return {(): Fraction(c)} if c != 0 else {}


def _needs_expand(m):
    for i, e in m:
        a = _BYID[i]
        if a.kind == "poly" and e >= 1:
            return True
        if a.kind == "rpoly" and (e >= 1 or isinstance(e, int)):
            return True
        if a.kind == "prime" and (e >= 1 or e < 0):
            return True
    return False


def _expand_mono(m, c):
    """turn poly atoms with exponent >= 1 into polynomials, prime powers into numbers"""
    rest = []
    fac = []
    for i, e in m:
        a = _BYID[i]
        if a.kind in ("poly", "rpoly") and e >= 1:
            k = int(e)
            fac.append((a.data, k))
            if e - k != 0:
                rest.append((i, _fr(e - k)))
        elif a.kind == "rpoly" and isinstance(e, int):  # negative integer power
            rest.append((_atom("poly", a.key, p_pos(a.data), data=a.data).id, e))
        elif a.kind == "prime":
            k = math.floor(e)
            c = c * Fraction(a.key) ** k
            if e - k != 0:
                rest.append((i, _fr(e - k)))
        else:
            rest.append((i, e))
    mm = ()
    for t in rest:
        mm = mono_mul(mm, (t,))
    p = {mm: c}
    for base, k in fac:
        for _ in range(k):
            p = pmul(p, base)
    return p


def pmul(p, q):
    if len(p) > len(q):
        p, q = q, p
    if not p:
        return {}
    if len(p) == 1 and () in p:
        return pscale(q, p[()])
    if len(p) * len(q) > 400000:
        raise EngineError("polynomial too large")
    r = {}
    extra = []
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            c = c1 * c2
            if _needs_expand(m):
                extra.append((m, c))
                continue
            x = r.get(m)
            if x is None:
                r[m] = c
            else:
                x = x + c
                if x == 0:
                    del r[m]
                else:
                    r[m] = x
    for m, c in extra:
        r = padd(r, _expand_mono(m, c))
    if len(r) > MAXTERMS:
        raise EngineError("polynomial too large")
    return r


def pkey(p):
    return frozenset(p.items())


def lead(p):
    return max(p)


def p_isconst(p):
    return not p or (len(p) == 1 and () in p)


def p_const(p):
    return p.get((), F0) if p else F0


def p_pos(p):
    if not p:
        return False
    ok = False
    for m, c in p.items():
        if c < 0:
            return False
        if mono_pos(m):
            ok = True
        elif not mono_nonneg(m):
            return False
    return ok


def p_nonneg(p):
    return all(c > 0 and mono_nonneg(m) for m, c in p.items())


def p_content(p, only_pos=True):
    """(coef, mono, rest) with p = coef*mono*rest; coef > 0, mono over syntactically positive atoms"""
    it = iter(p)
    first = dict(next(it))
    g = {i: e for i, e in first.items() if (_BYID[i].pos or not only_pos)}
    common = dict(g)
    atoms = set(i for m in p for i, _ in m if (_BYID[i].pos or not only_pos))
    mins = {}
    for i in atoms:
        mn = None
        for m in p:
            e = 0
            for j, x in m:
                if j == i:
                    e = x
                    break
            mn = e if mn is None or e < mn else mn
        if mn != 0:
            mins[i] = mn
    mono = tuple(sorted(mins.items()))
    rest = p
    if mono:
        rest = pmul({mono_pow(mono, -1): F1}, rest)
    c = abs(rest[lead(rest)])
    rest = pscale(rest, 1 / c)
    return c, mono, rest


def _lexer(*ps):
    ids = sorted({i for p in ps for m in p for i, _ in m})

    def key(m):
        d = dict(m)
        return tuple(d.get(i, 0) for i in ids)

    return key


def p_divexact(p, d, maxsteps=4000):
    """exact division of polynomials (lexicographic), None if not divisible"""
    if not p:
        return {}
    kf = _lexer(p, d)
    lead = lambda q: max(q, key=kf)
    ld = lead(d)
    cd = d[ld]
    ild = mono_pow(ld, -1)
    q = {}
    r = p
    nvars = None
    seen = 0
    while r:
        lr = lead(r)
        m = mono_mul(lr, ild)
        seen += 1
        if seen > maxsteps or seen > 4 * len(p) + 8:
            return None
        c = r[lr] / cd
        if m in q:
            return None
        q[m] = c
        r = padd(r, pmul({m: -c}, d))
        if r and not (kf(lead(r)) < kf(lr)):
            return None
        if len(r) > 4 * len(p) + 4 * len(d) + 50:
            return None
    return q


# ---------------------------------------------------------------- symbolic reals
FIN, PINF, NINF, NAN, UNDEF = "fin", "inf", "-inf", "nan", "undef"


def lift_float(x):
    if x != x:
        return S_NAN
    if x in (math.inf, -math.inf):
        return S_INF if x > 0 else S_NINF
    return SymReal(pconst(Fraction(repr(float(x)))))


_np_bool = None


def lift(x):
    """python/numpy number -> SymReal; None if not a number"""
    if isinstance(x, SymReal):
        return x
    if isinstance(x, bool):
        return SymReal(pconst(int(x)), is_int=True)
    if isinstance(x, SymBool):
        return SymReal(pconst(int(bool(x))), is_int=True)
    if isinstance(x, int):
        return SymReal(pconst(x), is_int=True)
    if isinstance(x, Fraction):
        return SymReal(pconst(x))
    if isinstance(x, float):
        return lift_float(x)
    t = type(x).__module__
    if t == "numpy":
        import numpy as np

        if isinstance(x, np.ndarray):
            if x.ndim == 0:
                return lift(x.item())
            return None
        if isinstance(x, np.bool_):
            return SymReal(pconst(int(x)), is_int=True)
        if isinstance(x, np.integer):
            return SymReal(pconst(int(x)), is_int=True)
        if isinstance(x, np.floating):
            return lift_float(float(x))
    return None


class SymReal:
    __slots__ = ("p", "kind", "is_int", "_key")
    __array_priority__ = 2000

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npx

        return npx.scalar_ufunc(ufunc, method, inputs, kw)

    def __init__(self, p, kind=FIN, is_int=False):
        self.p = p
        self.kind = kind
        self.is_int = is_int
        self._key = None

    # -- helpers
    @property
    def key(self):
        if self._key is None:
            self._key = (self.kind, pkey(self.p)) if self.kind == FIN else (self.kind,)
        return self._key

    @property
    def fin(self):
        return self.kind == FIN

    def isconst(self):
        return self.kind == FIN and p_isconst(self.p)

    def const(self):
        return p_const(self.p)

    def __repr__(self):
        if CTX is not None and hasattr(CTX, "tokens"):
            return CTX.token(self, "")  # str() of a list of numbers
        return self.debug()

    def debug(self):
        return "<%s>" % (poly_str(self.p) if self.fin else self.kind)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise EngineError("pickling a symbolic value")

    # attributes of numpy scalars
    shape = ()
    ndim = 0
    size = 1
    real = property(lambda self: self)
    imag = 0
    T = property(lambda self: self)

    def item(self):
        return self

    def copy(self):
        return self

    def tolist(self):
        return self

    def flatten(self):
        import numpy as np
        from . import npx

        return npx.wrap(np.array([self], dtype=object))

    ravel = flatten

    def reshape(self, *shape):
        import numpy as np
        from . import npx

        a = np.empty(1, dtype=object)
        a[0] = self
        return npx.wrap(a.reshape(*shape))

    def astype(self, t):
        from . import npx

        return npx.scalar_as(self, t)

    def sum(self, *a, **k):
        return self

    mean = min = max = prod = sum

    def any(self):
        return bool(self)

    all = any

    def is_integer(self):
        return (self - floor_(self)) == 0

    def conjugate(self):
        return self

    # -- arithmetic
    def _bin(self, o, f):
        o = lift(o)
        if o is None:
            return NotImplemented
        return f(self, o)

    def _rbin(self, o, f):
        o = lift(o)
        if o is None:
            return NotImplemented
        return f(o, self)

    def __add__(self, o):
        return self._bin(o, add)

    def __radd__(self, o):
        return self._rbin(o, add)

    def __sub__(self, o):
        return self._bin(o, sub)

    def __rsub__(self, o):
        return self._rbin(o, sub)

    def __mul__(self, o):
        return self._bin(o, mul)

    def __rmul__(self, o):
        return self._rbin(o, mul)

    def __truediv__(self, o):
        return self._bin(o, div_scalar)

    def __rtruediv__(self, o):
        return self._rbin(o, div_scalar)

    def __floordiv__(self, o):
        return self._bin(o, floordiv)

    def __rfloordiv__(self, o):
        return self._rbin(o, floordiv)

    def __mod__(self, o):
        return self._bin(o, mod)

    def __rmod__(self, o):
        return self._rbin(o, mod)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __pow__(self, o, m=None):
        return self._bin(o, pow_)

    def __rpow__(self, o):
        return self._rbin(o, pow_)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return abs_(self)

    # bitwise on 0/1 values (masks that lost their type)
    def __and__(self, o):
        raise EngineError("bitwise operation on symbolic number")

    __rand__ = __or__ = __ror__ = __xor__ = __and__

    # -- comparisons
    def __lt__(self, o):
        return self._bin(o, lt)

    def __le__(self, o):
        return self._bin(o, le)

    def __gt__(self, o):
        return self._bin(o, lambda a, b: lt(b, a))

    def __ge__(self, o):
        return self._bin(o, lambda a, b: le(b, a))

    def __eq__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return eq(self, o)

    def __ne__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return not_(eq(self, o))

    def __hash__(self):
        if self.kind != FIN:
            return hash(self.kind)
        if self.isconst():
            return hash(self.const())
        # one bucket: sets and dictionaries have to ask whether two values are equal
        return hash(int(concretize_int(self))) if self.is_int else 94

    def __bool__(self):
        return bool(self != 0)

    def __int__(self):
        return trunc_(self)

    def __index__(self):
        if not self.is_int:
            raise TypeError("symbolic real used as index")
        return concretize_int(self)

    def __trunc__(self):
        return trunc_(self)

    def __floor__(self):
        return int(floor_(self))

    def __ceil__(self):
        return int(ceil_(self))

    def __round__(self, n=None):
        r = round_(self, n or 0)
        return trunc_(r) if n is None else r

    def __float__(self):
        raise EngineError("conversion of a symbolic real to a machine float: %r" % (self,))

    def __complex__(self):
        raise EngineError("complex(symbolic)")

    def __format__(self, spec):
        return CTX.token(self, spec)

    def __str__(self):
        return CTX.token(self, "")

    # -- numpy object-ufunc methods
    def exp(self):
        return exp(self)

    def log(self):
        return log(self)

    def sqrt(self):
        return sqrt(self)

    def log10(self):
        return log(self) / log(SymReal(pconst(10)))

    def log2(self):
        return log(self) / log(SymReal(pconst(2)))

    def square(self):
        return self * self

    def floor(self):
        return floor_(self)

    def ceil(self):
        return ceil_(self)

    def rint(self):
        return round_(self, 0)


S_INF = SymReal({}, PINF)
S_NINF = SymReal({}, NINF)
S_NAN = SymReal({}, NAN)
S_UNDEF = SymReal({}, UNDEF)
ZERO = SymReal({}, is_int=True)
ONE = SymReal(pconst(1), is_int=True)


def real_const(x):
    if isinstance(x, str):
        return SymReal(pconst(Fraction(x)))
    return SymReal(pconst(Fraction(repr(x)) if isinstance(x, float) else Fraction(x)))


def make_var(name, pos=False, nonneg=False, is_int=False):
    a = _atom("var", name, pos, nonneg, is_int)
    return SymReal({((a.id, 1),): F1}, is_int=is_int)


def PI():
    return SymReal({((_atom("pi", "pi", True).id, 1),): F1})


def _special(a, b):
    if a.kind == UNDEF or b.kind == UNDEF:
        return S_UNDEF
    if a.kind == NAN or b.kind == NAN:
        return S_NAN
    return None


def add(a, b):
    if a.kind == FIN and b.kind == FIN:
        return SymReal(padd(a.p, b.p), is_int=a.is_int and b.is_int)
    s = _special(a, b)
    if s is not None:
        return s
    if a.kind == FIN:
        return b
    if b.kind == FIN or a.kind == b.kind:
        return a
    return S_NAN


def neg(a):
    if a.kind == FIN:
        return SymReal(pneg(a.p), is_int=a.is_int)
    return {PINF: S_NINF, NINF: S_INF}.get(a.kind, a)


def sub(a, b):
    return add(a, neg(b))


def sgn(a):
    """forks; -1, 0, 1"""
    if a.kind == PINF:
        return 1
    if a.kind == NINF:
        return -1
    if bool(lt(ZERO, a)):
        return 1
    if bool(lt(a, ZERO)):
        return -1
    return 0


def mul(a, b):
    if a.kind == FIN and b.kind == FIN:
        return SymReal(pmul(a.p, b.p), is_int=a.is_int and b.is_int)
    s = _special(a, b)
    if s is not None:
        return s
    t = sgn(a) * sgn(b)
    return S_INF if t > 0 else S_NINF if t < 0 else S_NAN


def p_pow_atom(p, q):
    """p**q for p > 0 (or q a negative integer), p multi-term: content split + poly atom"""
    c, mono, rest = p_content(p)
    s = 1
    lc = rest[lead(rest)]
    if isinstance(q, int) or q.denominator == 1:
        q = _fr(q)
        if lc < 0:
            rest = pneg(rest)
            s = -1 if q % 2 else 1
    out = const_pow(c, q)
    out = pmul(out, {mono_pow(mono, q): F1}) if mono else out
    if len(rest) == 1:
        m, cc = next(iter(rest.items()))
        out = pmul(out, const_pow(cc, q)) if cc != 1 else out
        out = pmul(out, {mono_pow(m, q): F1})
    else:
        if isinstance(q, int):
            a = _atom("poly", pkey(rest), p_pos(rest), data=rest)
        else:
            a = _atom("rpoly", pkey(rest), True, data=rest)
        out = pmul(out, {((a.id, q),): F1})
    return pscale(out, Fraction(s))


def _factor(n):
    f = {}
    d = 2
    while d * d <= n and d < 200000:
        while n % d == 0:
            f[d] = f.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        f[n] = f.get(n, 0) + 1
    return f


def const_pow(c, q):
    q = _fr(Fraction(q))
    if isinstance(q, int):
        return {(): Fraction(c) ** q}
    if c == 1:
        return {(): F1}
    assert c > 0
    out = {(): F1}
    fs = _factor(c.numerator)
    for k, e in _factor(c.denominator).items():
        fs[k] = fs.get(k, 0) - e
    m = []
    for k, e in fs.items():
        if e:
            m.append((_atom("prime", k, True).id, _fr(Fraction(e) * q)))
    return _expand_mono(tuple(sorted(m)), F1)


def inv(a):
    p = a.p
    if len(p) == 1:
        m, c = next(iter(p.items()))
        if any(_BYID[i].kind == "poly" for i, _ in m):
            return SymReal(pmul({mono_pow(m, -1): F1}, pconst(1 / c)))
        return SymReal({mono_pow(m, -1): 1 / c})
    return SymReal(p_pow_atom(p, -1))


def div(a, b, on_zero=None):
    s = _special(a, b)
    if s is not None:
        return s
    if b.kind != FIN:
        return SymReal({}) if a.kind == FIN else S_NAN
    if not p_pos(b.p) and not p_pos(pneg(b.p)):
        if bool(eq(b, ZERO)):
            if on_zero:
                raise on_zero
            t = sgn(a)
            return S_INF if t > 0 else S_NINF if t < 0 else S_NAN
    if a.kind != FIN:
        return a if sgn(b) > 0 else neg(a)
    if p_isconst(b.p):
        return SymReal(pscale(a.p, 1 / p_const(b.p)))
    if len(b.p) > 1:
        if a.p == b.p:
            return SymReal(pconst(1))
        if len(a.p) >= len(b.p):
            q = p_divexact(a.p, b.p)
            if q is not None:
                return SymReal(q)
    return SymReal(pmul(a.p, inv(b).p))


def div_scalar(a, b):
    return div(a, b, None)


def concretize_rel(x, f):
    """f: python function of an exact Fraction -> int ; used for floor/ceil/trunc/round"""
    raise NotImplementedError


def floor_(a):
    if a.kind != FIN or a.is_int:
        return a
    if a.isconst():
        return SymReal(pconst(math.floor(a.const())), is_int=True)
    k = CTX.pick_int(a, lambda k: and_(le(real_const(k), a), lt(a, real_const(k + 1))), math.floor)
    return SymReal(pconst(k), is_int=True)


def ceil_(a):
    return neg(floor_(neg(a)))


def trunc_(a):
    if a.kind != FIN:
        if a.kind == UNDEF:
            CTX.uninit()
        raise ValueError("cannot convert float NaN/inf to integer")
    if a.is_int:
        return concretize_int(a)
    if a.isconst():
        return int(a.const())
    f = floor_(a)
    k = int(f.const())
    if k < 0 and bool(lt(f, a)):
        k += 1
    return k


def round_(a, n=0):
    if a.kind != FIN:
        return a
    if a.is_int and n >= 0:
        return a
    if 6 <= n < 9 and not a.isconst():
        return CTX.rounded_to(a, n)
    if n >= 9:
        return a  # real numbers stand for machine floats: rounding this fine only removes rounding errors
    s = Fraction(10) ** n
    x = SymReal(pscale(a.p, s))
    f = floor_(x)
    d = sub(x, f)
    half = real_const(Fraction(1, 2))
    k = int(f.const())
    if bool(lt(half, d)) or (bool(eq(d, half)) and k % 2):
        k += 1
    return SymReal(pconst(Fraction(k) / s))


def concretize_int(a):
    if a.kind != FIN:
        raise EngineError("index from special value")
    if a.isconst():
        c = a.const()
        if c.denominator != 1:
            raise EngineError("non-integer index")
        return int(c)
    return CTX.pick_int(a, lambda k: eq(a, real_const(k)), math.floor)


def floordiv(a, b):
    s = _special(a, b)
    if s is not None:
        return s
    if a.is_int and b.is_int and b.isconst() and not a.isconst() and b.const() != 0:
        return CTX.idiv(a, b)[0]
    if b.isconst() and b.const() == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    r = floor_(div(a, b, ZeroDivisionError("division by zero")))
    return r


def mod(a, b):
    s = _special(a, b)
    if s is not None:
        return s
    if b.kind == FIN and b.isconst() and b.const() == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if a.is_int and b.is_int and b.isconst() and not a.isconst():
        return CTX.idiv(a, b)[1]
    return sub(a, mul(floordiv(a, b), b))


def pow_(a, b):
    s = _special(a, b)
    if s is not None:
        return s
    if a.kind != FIN or b.kind != FIN:
        if a.kind != FIN and b.isconst() and b.const() > 0:
            if a.kind == PINF or b.const() % 2 == 0:
                return S_INF
            return S_NINF
        raise EngineError("power with infinities")
    if b.isconst():
        q = b.const()
        if q.denominator == 1:
            q = int(q)
            if q >= 0:
                r = pconst(1)
                base = a.p
                for _ in range(q):
                    r = pmul(r, base)
                return SymReal(r, is_int=a.is_int)
            return div(ONE, pow_(a, real_const(-q)))
        return pow_frac(a, q)
    # general: exp(b*log(a))
    return exp(mul(b, log(a)))


def pow_frac(a, q):
    s = sgn(a)
    if s < 0:
        return S_NAN
    if s == 0:
        return SymReal({}) if q > 0 else S_INF
    return SymReal(_pos_pow(a.p, q))


def _pos_pow(p, q):
    """p**q for p known positive on this path, q non-integer"""
    if len(p) == 1:
        m, c = next(iter(p.items()))
        if mono_pos(m):
            if c > 0:
                out = const_pow(c, q)
                mm = mono_pow(m, q)
                return pmul(out, {mm: F1})
        if len(m) == 1 and c > 0:
            (i, e), = m
            if e % 2 == 0:  # |x|**(e*q)
                x = SymReal({((i, 1),): F1})
                ax = abs_(x)
                sg = -1 if ax.p != x.p else 1
                if isinstance(_fr(Fraction(e) * q), int):
                    return pmul(const_pow(c, q), pow_(ax, real_const(Fraction(e) * q)).p)
            else:
                # x > 0 on this path: mark power of variable
                return pmul(const_pow(c, q), {mono_pow(m, q): F1})
    c, mono, rest = p_content(p)
    if len(rest) > 1:
        r = _perfect_square(rest) if q == Fraction(1, 2) else None
        if r is not None:
            ar = abs_(SymReal(r))
            return pmul(pmul(const_pow(c, q), {mono_pow(mono, q): F1}), ar.p)
    return p_pow_atom(p, q)


def _perfect_square(p):
    kf = _lexer(p)
    lead = lambda q: max(q, key=kf)
    l = lead(p)
    c = p[l]
    if c <= 0:
        return None
    rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if rn * rn != c.numerator or rd * rd != c.denominator:
        return None
    if any(not isinstance(e, int) or e % 2 for _, e in l):
        return None
    if len(p) > 60:
        return None
    r = {mono_pow(l, Fraction(1, 2)): Fraction(rn, rd)}
    l0 = next(iter(r))
    c0 = r[l0]
    rem = padd(p, pneg(pmul(r, r)))
    for _ in range(12):
        if not rem:
            return r
        m = lead(rem)
        t = {mono_mul(m, mono_pow(l0, -1)): rem[m] / (2 * c0)}
        r = padd(r, t)
        rem = padd(p, pneg(pmul(r, r)))
        if rem and not (kf(lead(rem)) < kf(m)):
            return None
    return None


def sqrt(a):
    if a.kind == PINF:
        return a
    if a.kind == NINF:
        return S_NAN
    if a.kind != FIN:
        return a
    return pow_frac(a, Fraction(1, 2))


def abs_(a):
    if a.kind != FIN:
        return S_INF if a.kind == NINF else a
    if p_nonneg(a.p):
        return a
    if p_nonneg(pneg(a.p)):
        return neg(a)
    if bool(lt(a, ZERO)):
        return neg(a)
    return a


def exp(a):
    if a.kind == PINF:
        return a
    if a.kind == NINF:
        return SymReal({})
    if a.kind != FIN:
        return a
    out = {(): F1}
    for m, c in a.p.items():
        if len(m) == 1 and m[0][1] == 1 and _BYID[m[0][0]].kind == "log":
            base = _BYID[m[0][0]].data
            if isinstance(_fr(c), int):
                k = int(c)
                if k >= 0:
                    for _ in range(k):
                        out = pmul(out, base)
                else:
                    bb = SymReal(base)
                    r = inv(bb).p if len(base) > 1 else {mono_pow(next(iter(base)), -1): 1 / base[next(iter(base))]}
                    for _ in range(-k):
                        out = pmul(out, r)
            elif len(base) == 1 and not next(iter(base)):
                out = pmul(out, const_pow(base[()], c))
            else:
                out = pmul(out, _pos_pow(base, c))
        else:
            at = _atom("exp", m, True)
            out = pmul(out, {((at.id, _fr(c)),): F1})
    r = SymReal(out)
    if a.p and not r.isconst():
        CTX.exp_axiom(a, r)
    return r


def log(a):
    if a.kind == PINF:
        return a
    if a.kind == NINF:
        return S_NAN
    if a.kind != FIN:
        return a
    if not p_pos(a.p):
        s = sgn(a)
        if s < 0:
            return S_NAN
        if s == 0:
            return S_NINF
    return SymReal(_plog(a.p))


def _log_rat(c):
    out = {}
    fs = _factor(c.numerator)
    for k, e in _factor(c.denominator).items():
        fs[k] = fs.get(k, 0) - e
    for k, e in fs.items():
        if e:
            at = _atom("log", pkey(pconst(k)), data=pconst(k))
            at.pos = at.nonneg = True
            out = padd(out, {((at.id, 1),): Fraction(e)})
    return out


def _log_atom(p):
    at = _atom("log", pkey(p), data=p)
    CTX.log_axiom(at)
    return {((at.id, 1),): F1}


def _plog(p):
    c, mono, rest = p_content(p)
    out = _log_rat(c) if c != 1 else {}
    for i, e in mono:
        a = _BYID[i]
        if a.kind == "exp":
            out = padd(out, {a.key: Fraction(e)})
        elif a.kind in ("poly", "rpoly"):
            out = padd(out, pscale(_log_atom(a.data), Fraction(e)))
        elif a.kind == "prime":
            out = padd(out, pscale(_log_rat(Fraction(a.key)), Fraction(e)))
        else:
            out = padd(out, pscale(_log_atom({((i, 1),): F1}), Fraction(e)))
    if rest == {(): F1}:
        return out
    if len(rest) == 1:
        m, cc = next(iter(rest.items()))
        if cc > 0 and len(m) == 1 and m[0][1] % 2 == 1:
            return padd(out, pscale(_log_atom({((m[0][0], 1),): F1}), Fraction(m[0][1])))
    return padd(out, _log_atom(rest))


# ---------------------------------------------------------------- conditions
class SymBool:
    """op in '<','<=','==' (poly op 0), 'and','or','not'"""

    __slots__ = ("op", "args", "_key")
    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, op, args):
        self.op, self.args, self._key = op, args, None

    @property
    def key(self):
        if self._key is None:
            if self.op in ("<", "<=", "=="):
                self._key = (self.op, pkey(self.args))
            else:
                self._key = (self.op,) + tuple(
                    a.key if isinstance(a, SymBool) else a for a in self.args
                )
        return self._key

    def __bool__(self):
        return CTX.decide(self)

    def __and__(self, o):
        if _isbool(o):
            return and_(self, o)
        return bool(self) & o

    __rand__ = __and__

    def __or__(self, o):
        if _isbool(o):
            return or_(self, o)
        return bool(self) | o

    __ror__ = __or__

    def __invert__(self):
        return not_(self)

    def __xor__(self, o):
        return bool(self) ^ bool(o)

    __rxor__ = __xor__

    def logical_not(self):
        return not bool(self)

    def __eq__(self, o):
        return bool(self) == o

    def __ne__(self, o):
        return bool(self) != o

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def _num(f):
        def g(self, o):
            return f(int(bool(self)), o)

        return g

    __add__ = _num(lambda a, b: a + b)
    __radd__ = _num(lambda a, b: b + a)
    __mul__ = _num(lambda a, b: a * b)
    __rmul__ = _num(lambda a, b: b * a)
    __sub__ = _num(lambda a, b: a - b)
    __rsub__ = _num(lambda a, b: b - a)

    def __repr__(self):
        if self.op in ("<", "<=", "=="):
            return "(%s %s 0)" % (poly_str(self.args), self.op)
        return "%s%r" % (self.op, self.args)


def _isbool(x):
    import numpy as np

    return isinstance(x, (bool, np.bool_, SymBool))


def _clear(p):
    """multiply by positive quantities so that no syntactically positive atom has a negative
    exponent; scale leading coefficient to +-1"""
    c, mono, rest = p_content(p)
    return rest


def rel(op, p):
    if p_isconst(p):
        c = p_const(p)
        return c < 0 if op == "<" else c <= 0 if op == "<=" else c == 0
    p = _clear(p)
    if p_isconst(p):
        c = p_const(p)
        return c < 0 if op == "<" else c <= 0 if op == "<=" else c == 0
    n = pneg(p)
    if p_pos(p):
        return False
    if p_pos(n):
        return op != "=="
    if op == "<=" and p_nonneg(n):
        return True
    if op == "<" and p_nonneg(p):
        return False
    if op == "==":
        if p[lead(p)] < 0:
            p = n
        # single-term: product is zero
    return SymBool(op, p)


def _cmp_special(a, b):
    CTX_ = CTX
    if a.kind == UNDEF or b.kind == UNDEF:
        CTX.uninit()
    return a.kind != FIN or b.kind != FIN


_ORD = {NINF: -1, FIN: 0, PINF: 1}


def lt(a, b):
    if a.kind == FIN and b.kind == FIN:
        return rel("<", padd(a.p, pneg(b.p)))
    _cmp_special(a, b)
    if NAN in (a.kind, b.kind):
        return False
    return _ORD[a.kind] < _ORD[b.kind]


def le(a, b):
    if a.kind == FIN and b.kind == FIN:
        return rel("<=", padd(a.p, pneg(b.p)))
    _cmp_special(a, b)
    if NAN in (a.kind, b.kind):
        return False
    return _ORD[a.kind] <= _ORD[b.kind]


def eq(a, b):
    if a.kind == FIN and b.kind == FIN:
        return rel("==", padd(a.p, pneg(b.p)))
    _cmp_special(a, b)
    if NAN in (a.kind, b.kind):
        return False
    return a.kind == b.kind


def not_(c):
    if not isinstance(c, SymBool):
        return not c
    if c.op == "not":
        return c.args[0]
    if c.op == "<":
        return SymBool("<=", pneg(c.args))
    if c.op == "<=":
        return SymBool("<", pneg(c.args))
    return SymBool("not", (c,))


def and_(*cs):
    out = []
    for c in cs:
        if not isinstance(c, SymBool):
            if not c:
                return False
            continue
        out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else SymBool("and", tuple(out))


def or_(*cs):
    return not_(and_(*[not_(c) for c in cs]))


# ---------------------------------------------------------------- derivative
def diff(a, name):
    vid = _atom("var", name).id
    return SymReal(_pdiff(a.p, vid, {}))


def _adiff(i, vid, memo):
    if i in memo:
        return memo[i]
    a = _BYID[i]
    if i == vid:
        r = pconst(1)
    elif a.kind == "exp":  # d exp(m) = exp(m) dm
        r = pmul({((i, 1),): F1}, _pdiff({a.key: F1}, vid, memo))
    elif a.kind == "log":
        r = pmul(_pdiff(a.data, vid, memo), inv(SymReal(a.data)).p)
    elif a.kind in ("poly", "rpoly"):
        r = _pdiff(a.data, vid, memo)
    elif a.kind == "uf":
        raise EngineError("derivative of uninterpreted function")
    else:
        r = {}
    memo[i] = r
    return r


def _pdiff(p, vid, memo):
    out = {}
    for m, c in p.items():
        for i, e in m:
            d = _adiff(i, vid, memo)
            if d:
                mm = mono_mul(m, ((i, -1),))
                out = padd(out, pmul({mm: c * e}, d) if not _needs_expand(mm) else pmul(_expand_mono(mm, c * e), d))
    return out


def variables(p, seen=None, acc=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    for m in p:
        for i, _ in m:
            _avars(i, seen, acc)
    return acc


def _avars(i, seen, acc):
    if i in seen:
        return
    seen.add(i)
    a = _BYID[i]
    if a.kind == "var":
        acc.add(a)
    elif a.kind == "exp":
        for j, _ in a.key:
            _avars(j, seen, acc)
    elif a.kind in ("log", "poly", "rpoly"):
        variables(a.data, seen, acc)
    elif a.kind == "uf":
        for x in a.data:
            if isinstance(x, SymReal):
                variables(x.p, seen, acc)


# ---------------------------------------------------------------- numeric evaluation (for guidance only)
def evalf(p, vals, memo=None):
    memo = {} if memo is None else memo
    t = 0.0
    for m, c in p.items():
        x = float(c)
        for i, e in m:
            x *= _aeval(i, vals, memo) ** (e if isinstance(e, int) else float(e))
        t += x
    return t


def _aeval(i, vals, memo):
    if i in memo:
        return memo[i]
    a = _BYID[i]
    if a.kind == "var":
        r = float(vals[a.key])
    elif a.kind == "pi":
        r = math.pi
    elif a.kind == "prime":
        r = float(a.key)
    elif a.kind == "exp":
        r = math.exp(evalf({a.key: F1}, vals, memo))
    elif a.kind == "log":
        r = math.log(evalf(a.data, vals, memo))
    elif a.kind in ("poly", "rpoly"):
        r = evalf(a.data, vals, memo)
    else:
        raise KeyError(a.kind)
    memo[i] = r
    return r


CTX = None  # set by explorer


def set_ctx(c):
    global CTX
    CTX = c
