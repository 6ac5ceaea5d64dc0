"""The two environments a harness runs in: symbolic (SymEnv) and concrete (ConcEnv)."""
import builtins
import contextlib
import io
import logging
import math
import os
import random
import re
import shutil
import sys
import tempfile
import types
from fractions import Fraction

import numpy as np

from . import core, npx, standin
from .core import SymReal, SymBool, EngineError, PathAbort, CheckFailed
from .loader import Loader, REPO

TOKRE = re.compile("\u00a7\\d+\u00a7|[^\\s\u00a7]+")


class Unmet(BaseException):
    """concrete mode: the inputs do not satisfy the assumptions"""


# ================================================================ symbolic
class FakeFile:
    def __init__(self, fs, name, mode):
        self.fs, self.name, self.mode = fs, name, mode
        if "r" in mode and "+" not in mode:
            if name not in fs:
                raise FileNotFoundError(2, "No such file or directory", name)
            self.buf = io.StringIO(fs[name])
        elif "w" in mode or "x" in mode:
            if "x" in mode and name in fs:
                raise FileExistsError(17, "File exists", name)
            fs[name] = ""
        else:
            fs.setdefault(name, "")

    def write(self, s):
        if isinstance(s, (bytes, bytearray)):
            s = s.decode("utf-8")
        self.fs[self.name] += s
        return len(s)

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def read(self, *a):
        return self.buf.read(*a)

    def readline(self):
        return self.buf.readline()

    def readlines(self):
        return self.buf.readlines()

    def __iter__(self):
        return iter(self.buf)

    def close(self):
        pass

    def flush(self):
        pass

    def tell(self):
        return len(self.fs[self.name])

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class SymRNG:
    """arbitrary draws: reals are fresh variables in the documented range, discrete draws are
    free choices"""

    def __init__(self, env, seed, idx):
        self.env, self.seed, self.idx = env, seed, env.stream(seed, idx)
        self.n = 0
        self.log = []
        env.rngs.append(self)

    def _nm(self, kind):
        self.n += 1
        return "rng%s.%s%d" % (self.idx, kind, self.n)

    def _memo(self, name, f):
        """generators with the same seed give the same numbers (only if env.keyed)"""
        m = self.env.memo
        if not self.env.keyed:
            return f()
        if name not in m:
            m[name] = f()
        return m[name]

    force = None  # {"u": [...], "n": [...], "pick": k}: draws given by the harness, without end of list: as usual
    asked = ()

    def script(self, **k):
        """next real draws, the number of every following discrete pick (orders are kept), the number of every
        swap of a shuffle (order)"""
        self.force, self.asked = {a: list(b) if a in "un" else b for a, b in k.items()}, []

    def _choose(self, name, n):
        if self.force is not None and ".s" in name and ("order" in self.force or "pick" in self.force):
            return self.force.get("order", 0) % n
        if self.force is not None and "pick" in self.force:
            self.asked.append(n)
            return self.force["pick"] % n
        return self._memo((name, n), lambda: self.env.choose(name, n))

    def _draw(self, kind):
        """one real number; all draws are recorded in order in .log"""
        if self.force is not None and self.force.get(kind):
            v = self.force[kind].pop(0)
            self.log.append((kind, v))
            return v
        nm = self._nm(kind)
        if kind == "u":
            v = self._memo(nm, lambda: self.env.real(nm, lo=0, hi=1, hi_strict=True, draw="u"))
        else:
            v = self._memo(nm, lambda: self.env.real(nm, draw="n"))
        self.log.append((kind, v))
        return v

    def _int(self, low, high):
        v = low + self._choose(self._nm("i"), int(high - low))
        self.log.append(("i", v))
        return v

    def draws(self, kind):
        return [v for k, v in self.log if k == kind]

    def _arr(self, size, f):
        if size is None:
            return f()
        if isinstance(size, (int, SymReal, np.integer)):
            size = (int(size),)
        size = tuple(int(x) for x in size)
        o = np.empty(size, dtype=object)
        fl = o.reshape(-1)
        for i in range(fl.size):
            fl[i] = f()
        return o.view(npx.SymArray)

    def random(self, size=None, dtype=None, out=None):
        return self._arr(size, lambda: self._draw("u"))

    def uniform(self, low=0.0, high=1.0, size=None):
        lo = low
        if isinstance(low, np.ndarray) or isinstance(high, np.ndarray) or isinstance(low, list):
            l, h = np.broadcast_arrays(npx.base(npx.m_asarray(low)), npx.base(npx.m_asarray(high)))
            if size is not None and tuple(np.atleast_1d(size)) != l.shape:
                sz = tuple(int(x) for x in np.atleast_1d(size))
                l, h = np.broadcast_to(l, sz), np.broadcast_to(h, sz)
            o = np.empty(l.shape, dtype=object)
            for i in np.ndindex(*l.shape):
                o[i] = self.uniform(l[i], h[i])
            return o.view(npx.SymArray)

        def f():
            u = self._draw("u")
            return npx._L(low) + (npx._L(high) - npx._L(low)) * u

        return self._arr(size, f)

    def standard_normal(self, size=None, dtype=None, out=None):
        return self._arr(size, lambda: self._draw("n"))

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._arr(size, lambda: npx._L(loc) + npx._L(scale) * self._draw("n"))

    def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
        if high is None:
            low, high = 0, low
        low, high = int(low), int(high)
        if endpoint:
            high += 1
        if high <= low:
            raise ValueError("low >= high" if low else "high <= 0")
        r = self._arr(size, lambda: self._int(low, high))
        if isinstance(r, np.ndarray):
            return r.view(np.ndarray).astype(int)
        return np.int64(r)

    def permutation(self, x, axis=0):
        if isinstance(x, (int, np.integer)):
            a = np.arange(int(x))
            self.shuffle(a)
            return a
        a = npx.m_array(list(x)) if not isinstance(x, np.ndarray) else x.copy()
        self.shuffle(a)
        return a

    def shuffle(self, x, axis=0):
        n = len(x)
        nm = self._nm("s")
        perm = list(range(n))
        for i in range(n - 1):
            j = i + self._choose("%s.%d" % (nm, i), n - i)
            perm[i], perm[j] = perm[j], perm[i]
        if isinstance(x, np.ndarray):
            x[...] = x[np.array(perm, dtype=int)] if n else x
        else:
            x[:] = [x[i] for i in perm]
        self.log.append(("s", [v for v in x]))

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        if isinstance(a, (int, np.integer)):
            pool = list(range(int(a)))
        elif isinstance(a, np.ndarray):
            pool = [a[i] for i in range(len(a))]
        else:
            pool = [npx.m_array(x) if isinstance(x, (list, tuple)) else x for x in a]
        if not pool:
            raise ValueError("a cannot be empty unless no samples are taken")
        w = None if p is None else list(p)

        def one(avail):
            i = avail[self._choose(self._nm("c"), len(avail))]
            self.log.append(("c", i))
            if w is not None and not bool(npx._L(w[i]) > 0):
                raise PathAbort()
            return i

        if size is None:
            r = pool[one(list(range(len(pool))))]
            return r
        n = int(np.prod(size))
        avail = list(range(len(pool)))
        idx = []
        for _ in range(n):
            i = one(avail)
            idx.append(i)
            if not replace:
                avail.remove(i)
        r = [pool[i] for i in idx]
        if all(isinstance(x, int) for x in r):
            return np.array(r, dtype=int).reshape(size)
        return npx.m_array(r)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise EngineError("random generator method %s is not modelled" % k)


class BaseEnv:
    """operations shared by both environments"""

    session = 0  # number of the simulated process

    keyed = False
    phase = 0  # 1 / 2: first / second calculation in one process (see harness.again)

    def again(self, fn):
        """fn twice in one process, the second time with one kind of input (or all inputs) changed"""
        self.phase, self.classes, self.kept, self.choices1 = 1, [], [], {}
        fn(self)
        kept = [(a, self.tolist(a), m) for a, m in self.kept]
        self.phase = 0
        k = self.choose("changed input", len(self.classes) + 1)
        self.fresh = None if k == 0 else self.classes[k - 1]
        self.clear_files()
        self.counters2, self.phase = {}, 2
        fn(self)
        self.phase = 0
        for a, b, m in kept:
            self.check_arr(a, b, "earlier result unchanged (%s)" % m.split(":")[0])

    def nm(self, name):
        """name of an input variable"""
        if not self.phase or name.startswith("rng"):
            return name
        c = name.rstrip("0123456789_")
        if self.phase == 1:
            if c not in self.classes:
                self.classes.append(c)
        elif self.fresh is None or self.fresh == c:
            return "again." + name
        return name

    def _choose(self, name, f):
        if self.phase == 1:
            v = f()
            self.choices1.setdefault(name, []).append(v)
            return v
        if self.phase == 2:
            k = self.counters2[name] = self.counters2.get(name, -1) + 1
            if k < len(self.choices1.get(name, [])):
                return self.choices1[name][k]
        return f()

    def rng_of(self, obj):
        """the random generator an object uses, whatever it calls it"""
        gens = [v for v in vars(obj).values() if any(v is g for g in self.rngs)]
        if gens:
            return gens[0]
        if not self.rngs:
            raise AttributeError("no random generator was created")
        return self.rngs[-1]

    def close_all(self):
        pass

    def stream(self, seed, idx):
        """name of the number stream of a new generator"""
        if not self.keyed:
            self.memo = {}
            return idx
        if not hasattr(self, "_streams"):
            self._streams, self.memo = [], {}
        if seed is not None:
            for k, s in enumerate(self._streams):
                if s is not None and self._same_seed(s, seed):
                    return "s%d" % k
        self._streams.append(seed)
        return "s%d" % (len(self._streams) - 1)

    def _same_seed(self, a, b):
        if isinstance(a, SymReal) or isinstance(b, SymReal):
            return self.identical(a, b)
        return type(a) in (int, np.int64) and type(b) in (int, np.int64) and a == b or (isinstance(a, str) and a == b)

    def check_arr(self, a, b, msg):
        if self.phase == 1 and isinstance(a, np.ndarray):
            self.kept.append((a, msg))
        a, b = self.tolist(a), self.tolist(b)
        self._cmp(a, b, msg)

    def _cmp(self, a, b, msg):
        if isinstance(b, (list, tuple)):
            if not isinstance(a, (list, tuple)) or len(a) != len(b):
                self.check(False, "%s: shape differs (got %s, expected %s)" % (msg, _shape(a), _shape(b)))
                return
            for i, (x, y) in enumerate(zip(a, b)):
                self._cmp(x, y, "%s[%d]" % (msg, i))
        else:
            if isinstance(a, (list, tuple)):
                self.check(False, "%s: shape differs" % msg)
                return
            self.check_eq(a, b, msg)

    def tolist(self, a):
        if isinstance(a, np.ndarray):
            return a.view(np.ndarray).tolist() if a.ndim else a.item()
        if isinstance(a, (list, tuple)):
            return [self.tolist(x) for x in a]
        return a

    def raises(self, fn, *types_):
        """run fn; returns the exception if it is one of types_ (others propagate), else None"""
        try:
            fn()
        except types_ as e:
            return e
        return None


def _shape(a):
    s = []
    while isinstance(a, (list, tuple)):
        s.append(len(a))
        if not a:
            break
        a = a[0]
    return tuple(s)


def log_free(d):
    """polynomial that vanishes where f*(c1 log p1 + c2 log p2 + ...) does (integer ratios of the c, f != 0)"""
    from fractions import Fraction
    from math import gcd

    terms, cof = [], None
    for m, c in d.items():
        logs = [(i, e) for i, e in m if core._BYID[i].kind == "log"]
        if len(logs) != 1 or logs[0][1] != 1:
            return d
        f = tuple(x for x in m if x != logs[0])
        if cof is None:
            cof = f
        if f != cof or not isinstance(c, (int, Fraction)):
            return d
        terms.append((core._BYID[logs[0][0]].data, Fraction(c)))
    if not core.p_pos({cof: core.F1}):
        return d
    den = 1
    for _, c in terms:
        den = den * c.denominator // gcd(den, c.denominator)
    cs = [int(c * den) for _, c in terms]
    g = 0
    for c in cs:
        g = gcd(g, abs(c))
    cs = [c // g for c in cs]
    if sum(abs(c) for c in cs) > 12:
        return d
    num, dn = {(): core.F1}, {(): core.F1}
    for (p, _), c in zip(terms, cs):
        for _ in range(abs(c)):
            if c > 0:
                num = core.pmul(num, p)
            else:
                dn = core.pmul(dn, p)
    return core.padd(num, core.pneg(dn))


HNUM = re.compile("\u00a7\\d+\u00a7|[-+]?(?:\\d+\\.?\\d*|\\.\\d+)(?:[eE][-+]?\\d+)?|[-+]?inf")


def parse_header(text, num):
    fields, const = [], {}
    for line in text.split("\n"):
        if not line.startswith("#!"):
            continue
        w = line.split(None, 2)
        if w[1:2] == ["FIELDS"]:
            fields += w[2].split() if len(w) > 2 else []
        elif w[1:2] == ["SET"]:
            k, _, v = w[2].partition(" ")
            const[k] = [num(t) for t in HNUM.findall(v)]
    return fields, const


class SymEnv(BaseEnv):
    sym = True

    def __init__(self, ctx, tier="quick"):
        self.ctx = ctx
        self.tier = tier
        self.ufs = {}
        self.fs = {}
        self.rngs = []
        self.figs = []
        self.stdout = []
        self.events = []
        self.logs = []
        npx.LenInt.virtual = None
        npx.FFT_NOISE = None
        self.loader = Loader(self)

    # inputs ---------------------------------------------------------
    def real(self, name, lo=None, hi=None, lo_strict=False, hi_strict=False, pos=False, nonneg=False, hint=None, draw=None):
        if lo is not None and lo == 0 and lo_strict:
            pos = True
        if lo is not None and lo == 0:
            nonneg = True
        name = self.nm(name)
        v = core.make_var(name, pos=pos, nonneg=nonneg)
        self.ctx.vars[name] = v
        if lo is not None and not (lo == 0):
            l = npx._L(lo)
            self.ctx.assume(l < v if lo_strict else l <= v)
        if hi is not None:
            h = npx._L(hi)
            self.ctx.assume(v < h if hi_strict else v <= h)
        return v

    def integer(self, name, lo=None, hi=None, hint=None):
        name = self.nm(name)
        v = core.make_var(name, is_int=True, pos=(lo is not None and lo >= 1), nonneg=(lo is not None and lo >= 0))
        self.ctx.vars[name] = v
        if lo is not None and lo not in (0, 1):
            self.ctx.assume(v >= lo)
        if hi is not None:
            self.ctx.assume(v <= hi)
        return v

    def choose(self, name, n):
        if isinstance(n, (list, tuple)):
            return n[self.choose(name, len(n))]
        return self._choose(name, lambda: self.ctx.choose(name, n))

    def clear_files(self):
        self.fs.clear()

    def const(self, x):
        return core.real_const(x)

    def assume(self, c):
        self.ctx.assume(c)

    # math -----------------------------------------------------------
    def exp(self, x):
        return core.exp(npx._L(x))

    def log(self, x):
        return core.log(npx._L(x))

    def sqrt(self, x):
        return core.sqrt(npx._L(x))

    @property
    def pi(self):
        return core.PI()

    inf = core.S_INF
    nan = core.S_NAN

    def is_inf(self, x):
        return npx._isinf(x) and npx._L(x).kind == core.PINF

    def arr(self, x, dtype=None):
        return npx.m_array(x)

    def interp_linear(self, pts, vals, x, fill):
        """linear interpolation as scipy.interpolate.griddata does it"""
        return self.tolist(npx.sp_griddata(npx.m_array(pts), npx.m_array(vals), npx.m_array(x), "linear", fill))

    def uf(self, name, args):
        """value of an arbitrary (uninterpreted) real function"""
        name = self.nm(name)
        xs = tuple(npx._L(x) for x in args)
        a = core._atom("uf", (name, tuple(v.key for v in xs)), data=xs)
        r = SymReal({((a.id, 1),): Fraction(1)})
        seen = self.ufs.setdefault(name, {})
        if a.id not in seen:  # the replay takes the values of the model in the same order
            self.ctx.vars["uf:%s#%d" % (name, len(seen))] = r
            seen[a.id] = len(seen)
        return r

    def grad(self, f, names, xs):
        y = f(xs)
        return [core.diff(y, self.nm(n)) for n in names]

    def decide(self, c):
        """branch in the oracle"""
        return bool(c)

    # assertions -----------------------------------------------------
    def check(self, c, msg):
        if isinstance(c, np.bool_):
            c = bool(c)
        self.ctx.check(c, msg)

    def check_eq(self, a, b, msg):
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            self.ctx.check(a == b, "%s: %r != %r" % (msg, a, b))
            return
        x, y = core.lift(a), core.lift(b)
        if x is None or y is None:
            self.ctx.check(bool(a == b), "%s: %r != %r" % (msg, a, b))
            return
        if x.kind == core.UNDEF:
            self.ctx.uninit()
        if x.kind == core.NAN and y.kind == core.NAN:
            self.ctx.check(True, msg)
            return
        if x.kind != core.FIN or y.kind != core.FIN:
            self.ctx.check(x.kind == y.kind, "%s: %r instead of %r" % (msg, x, y))
            return
        d = core.padd(x.p, core.pneg(y.p))
        if not d:
            self.ctx.nf.append((x.p, y.p))
        if d and not core.p_isconst(d):
            from .explore import clear_signed

            d = clear_signed(log_free(d))
        self.ctx.check(core.rel("==", d), msg)

    def identical(self, a, b):
        """same normal form"""
        x, y = core.lift(a), core.lift(b)
        if x is None or y is None:
            return a is b
        return x.kind == y.kind and (x.kind != core.FIN or not core.padd(x.p, core.pneg(y.p)))

    def fail(self, msg):
        self.ctx.fail(msg, "definite")

    # code under test -----------------------------------------------
    def mod(self, name):
        return self.loader.load(name)

    def np_random(self):
        env = self

        def default_rng(seed=None):
            if isinstance(seed, SymRNG):
                return seed
            return SymRNG(env, seed, len(env.rngs))

        def glob(name):
            def f(*a, **k):
                env.events.append(("global-random", name))
                if env._glob is None:
                    env._glob = SymRNG(env, "global", len(env.rngs))
                n = {"rand": "random", "randn": "standard_normal", "random_sample": "random", "randint": "integers"}.get(name, name)
                if name in ("seed", "set_state"):
                    return None
                if name in ("rand", "randn"):
                    return getattr(env._glob, n)(a if a else None)
                return getattr(env._glob, n)(*a, **k)

            return f

        self._glob = None

        class R(npx.Proxy):
            def __getattr__(s, k):
                if k == "default_rng":
                    return default_rng
                if k == "Generator":
                    return SymRNGGen
                if k in ("RandomState", "PCG64", "SeedSequence", "MT19937", "BitGenerator"):
                    raise EngineError("np.random.%s is not modelled" % k)
                return glob(k)

        return R("numpy.random", None, {})

    def other_random(self, top):
        self.events.append(("global-random", top))

    def new_process(self):
        """what follows belongs to another process: other hashes of strings, addresses, times and process ids"""
        self.session += 1

    def extra_modules(self):
        b, i, w = standin.make_misc(self.fs_open, lambda n: str(n) in self.fs, self._rename)
        misc = types.ModuleType("bdld.helpers.misc")
        misc.backup_if_exists, misc.initialize_file, misc.write_2d_sliced_to_file = b, i, w
        misc.make_ordinal = standin.make_ordinal
        ph = types.ModuleType("bdld.helpers.plumed_header")
        ph.PlumedHeader = standin.PlumedHeader
        h = types.ModuleType("bdld.helpers")
        h.__path__ = []
        h.misc, h.plumed_header = misc, ph
        from . import cfg

        return {
            "bdld.helpers": h, "bdld.helpers.misc": misc, "bdld.helpers.plumed_header": ph,
            "configparser": cfg.make(self), "os": FakeOS(self), "time": fake_time(self),
        }

    def _rename(self, a, b):
        self.fs[str(b)] = self.fs.pop(str(a))

    # I/O ------------------------------------------------------------
    def py_print(self, *a, **k):
        f = k.get("file")
        s = k.get("sep", " ").join(str(x) for x in a) + k.get("end", "\n")
        if f is None:
            self.stdout.append(s)
        elif isinstance(f, FakeFile):
            f.write(s)

    def py_input(self, *a):
        raise EOFError("EOF when reading a line")  # nobody answers

    def fs_open(self, name, mode="r", *a, **k):
        return FakeFile(self.fs, str(name), mode)

    def fs_savetxt(self, fname, X, fmt="%.18e", delimiter=" ", newline="\n", header="", footer="", comments="# ", encoding=None):
        a = npx.base(npx.m_asarray(X))
        if a.ndim == 0 or a.ndim > 2:
            raise ValueError("Expected 1D or 2D array, got %dD array instead" % a.ndim)
        if a.ndim == 1:
            a = a.reshape(-1, 1)
        own = not hasattr(fname, "write")
        f = self.fs_open(fname, "w") if own else fname
        ncol = a.shape[1]
        if isinstance(fmt, (list, tuple)):
            if len(fmt) != ncol:
                raise AttributeError("fmt has wrong shape.  %s" % str(fmt))
            fmts = list(fmt)
        else:
            n = fmt.count("%") - 2 * fmt.count("%%")
            if n == 1:
                fmts = [fmt] * ncol
            elif n == ncol:
                fmts = None
            else:
                raise ValueError("fmt has wrong number of %% formats:  %s" % fmt)
        if header:
            f.write(comments + header.replace("\n", "\n" + comments) + newline)
        for row in a:
            vals = [npx._L(x) if not isinstance(x, (bool, np.bool_)) else npx._L(int(x)) for x in row]
            if fmts is None:
                from .loader import sx_mod

                f.write(sx_mod(fmt, tuple(vals)) + newline)
            else:
                f.write(delimiter.join(self.ctx.token(v, ff) for v, ff in zip(vals, fmts)) + newline)
        if footer:
            f.write(comments + footer + newline)

    def _rows(self, name):
        if hasattr(name, "read"):
            text = name.read()
        elif isinstance(name, (list, tuple)):
            text = "\n".join(name)
        else:
            if str(name) not in self.fs:
                raise FileNotFoundError("%s not found." % name)
            text = self.fs[str(name)]
        rows = []
        for line in text.split("\n"):
            line = line.split("#")[0].strip()
            if line:
                rows.append([npx.to_float(t) for t in line.split()])
        return rows

    def fs_genfromtxt(self, fname, dtype=float, comments="#", delimiter=None, ndmin=0, usecols=None, **k):
        if k and set(k) - {"encoding", "skip_header"}:
            raise EngineError("genfromtxt(%s)" % ",".join(k))
        rows = self._rows(fname)[k.get("skip_header", 0):]
        if usecols is not None:
            rows = [[r[c] for c in usecols] for r in rows]
        if len({len(r) for r in rows}) > 1:
            raise ValueError("Some errors were detected ! (inconsistent number of columns)")
        a = npx.m_array(rows)
        if ndmin < 2:
            a = npx.wrap(np.squeeze(npx.base(a)) if a.size else npx.base(a))
        return a

    def fs_loadtxt(self, fname, ndmin=0, **k):
        return self.fs_genfromtxt(fname, ndmin=ndmin)

    def write_input(self, name, text):
        self.fs[name] = text

    def tok(self, v):
        """text of a value for an input file"""
        return self.ctx.token(v, "")

    def exists(self, name):
        return name in self.fs

    def listfiles(self):
        return sorted(self.fs)

    def text(self, name):
        return self.fs[name]

    def table(self, name):
        """(header lines, rows of values) of a text file"""
        head, rows = [], []
        self.fmts = []
        for line in self.fs[name].split("\n"):
            if line.startswith("#"):
                head.append(line)
            elif line.strip():
                row, fm = [], []
                for t in TOKRE.findall(line):
                    if t[0] == "\u00a7":
                        v, f = self.ctx.tokens[int(t[1:-1])]
                        if isinstance(v, SymReal) and v.kind == core.UNDEF:
                            self.ctx.uninit()
                        row.append(v)
                        fm.append(f)
                    else:
                        row.append(core.lift_float(float(t)))
                        fm.append(None)
                rows.append(row)
                self.fmts.append(fm)
        return head, rows

    def header(self, name):
        """(list of fields, {constant: list of numbers}) of the header of a file"""

        def num(t):
            if t[0] == "\u00a7":
                return self.ctx.tokens[int(t[1:-1])][0]
            return core.lift_float(float(t))

        return parse_header(self.fs[name], num)

    def printed(self):
        return "\n".join(str(x) for x in self.stdout)

    def saved_figures(self):
        return [f["file"] for f in self.figs]

    @contextlib.contextmanager
    def argv(self, *args):
        old = sys.argv
        sys.argv = ["bdld"] + list(args)
        h = _LogCapture(self.logs)
        root = logging.getLogger()
        oldh, oldl = root.handlers[:], root.level
        root.handlers = [h]
        try:
            yield
        finally:
            sys.argv = old
            root.handlers = oldh
            root.setLevel(oldl)


class SymRNGGen:
    pass


class _LogCapture(logging.Handler):
    def __init__(self, out):
        super().__init__()
        self.out = out

    def emit(self, rec):
        try:
            self.out.append((rec.levelname, rec.getMessage()))
        except Exception:
            self.out.append((rec.levelname, str(rec.msg)))


TIMES = ("time", "time_ns", "perf_counter", "perf_counter_ns", "monotonic", "monotonic_ns", "process_time", "process_time_ns")


def shifted(env, f, by):
    return lambda *a: f(*a) + by * env.session


def time_shift(name):
    return 12345678 * (10**9 if name.endswith("_ns") else 1)


def fake_time(env):
    import time

    m = types.ModuleType("time")
    m.__dict__.update({k: v for k, v in vars(time).items() if not k.startswith("__")})
    for k in TIMES:
        setattr(m, k, shifted(env, getattr(time, k), time_shift(k)))
    m.sleep = lambda s: None
    return m


def process_hash(env):
    """hash(), different in every process for strings and objects without __hash__ of their own"""

    def h(x):
        v = hash(x)
        return v if isinstance(x, (int, float, complex, type(None))) else v ^ (987654321987 * env.session)

    return h


class FakeOS(types.ModuleType):
    def __init__(self, env):
        super().__init__("os")
        self._env = env
        p = types.ModuleType("os.path")
        p.__dict__.update({k: getattr(os.path, k) for k in ("join", "basename", "dirname", "splitext", "abspath", "sep")})
        p.exists = p.isfile = lambda n: str(n) in env.fs
        p.isdir = lambda n: False
        self.path = p
        self.environ = {}
        self.linesep = "\n"
        self.sep = "/"
        self.rename = self.replace = env._rename
        self.remove = self.unlink = lambda n: env.fs.pop(str(n))
        self.fspath = str
        self.getcwd = lambda: "."
        self.getpid = lambda: 4242 + 1231 * env.session
        self.makedirs = self.mkdir = lambda *a, **k: None

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        if k in ("urandom", "getrandom"):
            self._env.events.append(("global-random", "os.urandom"))
        raise EngineError("os.%s is not modelled" % k)


# ================================================================ concrete
SENTINEL = -7.7777e77


class ConcRNG:
    """scripted random generator for replays: values of the counterexample, then random ones"""

    def __init__(self, env, seed, idx):
        self.env, self.seed, self.idx = env, seed, env.stream(seed, idx)
        self.n = 0
        self.log = []
        env.rngs.append(self)

    _nm = SymRNG._nm
    _memo = SymRNG._memo
    _choose = SymRNG._choose
    force, asked, script = None, (), SymRNG.script
    _draw = SymRNG._draw
    _int = SymRNG._int
    draws = SymRNG.draws

    def _arr(self, size, f, dtype=float):
        if size is None:
            return f()
        o = np.empty(size, dtype=dtype)
        fl = o.reshape(-1)
        for i in range(fl.size):
            fl[i] = f()
        return o

    def random(self, size=None, dtype=None, out=None):
        return self._arr(size, lambda: self._draw("u"))

    def uniform(self, low=0.0, high=1.0, size=None):
        if np.ndim(low) or np.ndim(high):
            l, h = np.broadcast_arrays(low, high)
            if size is not None:
                l, h = np.broadcast_to(l, size), np.broadcast_to(h, size)
            o = np.empty(l.shape)
            for i in np.ndindex(*l.shape):
                o[i] = self.uniform(l[i], h[i])
            return o
        return self._arr(size, lambda: low + (high - low) * self._draw("u"))

    def standard_normal(self, size=None, dtype=None, out=None):
        return self._arr(size, lambda: self._draw("n"))

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._arr(size, lambda: loc + scale * self._draw("n"))

    def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
        if high is None:
            low, high = 0, low
        if endpoint:
            high += 1
        if high <= low:
            raise ValueError("low >= high" if low else "high <= 0")
        r = self._arr(size, lambda: self._int(low, int(high)), dtype=int)
        return r if isinstance(r, np.ndarray) else np.int64(r)

    def permutation(self, x, axis=0):
        a = np.arange(x) if isinstance(x, (int, np.integer)) else np.array(x)
        self.shuffle(a)
        return a

    shuffle = SymRNG.shuffle

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        pool = np.arange(a) if isinstance(a, (int, np.integer)) else np.array(a)
        if len(pool) == 0:
            raise ValueError("a cannot be empty unless no samples are taken")

        def one(av):
            i = av[self._choose(self._nm("c"), len(av))]
            self.log.append(("c", i))
            return i

        if size is None:
            return pool[one(list(range(len(pool))))]
        av = list(range(len(pool)))
        idx = []
        for _ in range(int(np.prod(size))):
            i = one(av)
            idx.append(i)
            if not replace:
                av.remove(i)
        return pool[np.array(idx, dtype=int)].reshape(tuple(np.atleast_1d(size)) + pool.shape[1:])


def _install_standins(env=None):
    def exists(n):
        return os.path.exists(n)

    b, i, w = standin.make_misc(open, exists, os.rename)
    misc = types.ModuleType("bdld.helpers.misc")
    misc.backup_if_exists, misc.initialize_file, misc.write_2d_sliced_to_file = b, i, w
    misc.make_ordinal = standin.make_ordinal
    ph = types.ModuleType("bdld.helpers.plumed_header")
    ph.PlumedHeader = standin.PlumedHeader
    h = types.ModuleType("bdld.helpers")
    h.__path__ = []
    h.misc, h.plumed_header = misc, ph
    sys.modules["bdld.helpers"] = h
    sys.modules["bdld.helpers.misc"] = misc
    sys.modules["bdld.helpers.plumed_header"] = ph


class ConcEnv(BaseEnv):
    sym = False
    inf = float("inf")
    nan = float("nan")
    pi = math.pi

    def __init__(self, values=None, choices=None, seed=0, script_rng=True, tier="quick"):
        self.values = values or {}
        self.choices_in = choices or {}
        self.rand = random.Random(seed)
        self.seed0 = seed
        self.used = {}
        self.ufs = {}
        self.used_choices = {}
        self.counters = {}
        self.rngs = []
        self.events = []
        self.logs = []
        self.script_rng = script_rng
        self.tier = tier
        self.corner = False
        self.rtol = 1e-8
        self.nchecks = 0
        self.stdout = []
        self._out = io.StringIO()

    def __enter__(self):
        import importlib

        self.dir = tempfile.mkdtemp(prefix="sxrun_")
        self.oldcwd = os.getcwd()
        os.chdir(self.dir)
        os.environ["MPLBACKEND"] = "Agg"
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        sys.dont_write_bytecode = True
        for k in [k for k in sys.modules if k == "bdld" or k.startswith("bdld.")]:
            del sys.modules[k]
        import bdld  # noqa

        _install_standins(self)
        self._saved = (np.random.default_rng, np.empty, np.empty_like)
        if self.script_rng:
            np.random.default_rng = lambda seed=None: seed if isinstance(seed, ConcRNG) else ConcRNG(self, seed, len(self.rngs))
        self._glob = {}
        import time

        for k in TIMES:
            self._glob[time, k] = getattr(time, k)
            setattr(time, k, shifted(self, getattr(time, k), time_shift(k)))
        self._glob[os, "getpid"] = os.getpid
        os.getpid = shifted(self, os.getpid, 1231)
        if self.script_rng:
            self._watch_global()
        real_empty = self._saved[1]

        def empty(shape, dtype=float, *a, **k):
            r = real_empty(shape, dtype, *a, **k)
            if r.dtype.kind == "f" and r.size:
                r.fill(SENTINEL)
            return r

        np.empty = empty
        import matplotlib.figure as mf

        from . import plots

        self.figs = []
        real_save = self._savefig = mf.Figure.savefig

        def savefig(fig, fname, *a, **k):
            k.setdefault("dpi", 20)
            r = real_save(fig, fname, *a, **k)
            self.figs.append(plots.read(fig, fname))
            return r

        mf.Figure.savefig = savefig
        self._ro = contextlib.redirect_stdout(self._out)
        self._ro.__enter__()
        self._err = np.seterr(all="ignore")
        return self

    def __exit__(self, *a):
        np.seterr(**self._err)
        self._ro.__exit__(*a)
        import matplotlib.figure as mf

        mf.Figure.savefig = self._savefig
        np.random.default_rng, np.empty, np.empty_like = self._saved
        for (m, k), f in self._glob.items():
            setattr(m, k, f)
        os.chdir(self.oldcwd)
        shutil.rmtree(self.dir, ignore_errors=True)

    def new_process(self):
        self.session += 1
        for k, m in list(sys.modules.items()):
            if (k == "bdld" or k.startswith("bdld.")) and hasattr(m, "__dict__"):
                m.__dict__.setdefault("hash", process_hash(self))
                m.__dict__.setdefault("id", shifted(self, id, 65536))

    def _watch_global(self):
        """record every use of random numbers that do not come from a seeded generator"""

        def wrap(m, k):
            f = getattr(m, k)

            def g(*a, **kw):
                self.events.append(("global-random", k))
                return f(*a, **kw)

            self._glob[m, k] = f
            setattr(m, k, g)

        for k in ("rand", "randn", "random", "random_sample", "ranf", "sample", "normal", "uniform", "choice", "randint", "standard_normal", "permutation", "shuffle"):
            wrap(np.random, k)
        for k in ("random", "uniform", "gauss", "normalvariate", "choice", "choices", "randint", "randrange", "shuffle", "sample"):
            wrap(random, k)

    # inputs
    def real(self, name, lo=None, hi=None, lo_strict=False, hi_strict=False, pos=False, nonneg=False, hint=None, draw=None):
        name = self.nm(name)
        if name in self.values:
            v = float(Fraction(self.values[name]))
        elif self.phase == 2 and name in self.used:
            v = float(Fraction(self.used[name]))
        elif draw == "n" and not self.corner:
            v = self.rand.gauss(0, 1)
        else:
            if hint is not None:
                a, b = hint
            else:
                a = float(lo) if lo is not None else (0.05 if pos or nonneg else -2.0)
                b = float(hi) if hi is not None else (a + 3.0 if lo is not None else 2.5)
                if lo is None and hi is not None and not (pos or nonneg):
                    a = b - 3.0
            v = self.rand.uniform(a, b)
            if self.corner:  # ties and boundary values
                pool = [float(x) for x in (lo, hi) if x is not None] + [0.0, 0.5, 1.0]
                pool = [x for x in pool if (lo is None or x > lo or (x == lo and not lo_strict)) and
                        (hi is None or x < hi or (x == hi and not hi_strict)) and not (pos and x <= 0) and not (nonneg and x < 0)]
                if pool and self.rand.random() < 0.85:
                    v = self.rand.choice(pool)
        if lo is not None and (v < lo or (lo_strict and v <= lo)):
            raise Unmet(name)
        if hi is not None and (v > hi or (hi_strict and v >= hi)):
            raise Unmet(name)
        if pos and v <= 0:
            raise Unmet(name)
        self.used[name] = repr(v)
        return v

    def integer(self, name, lo=None, hi=None, hint=None):
        name = self.nm(name)
        if name in self.values:
            v = int(Fraction(self.values[name]))
        elif self.phase == 2 and name in self.used:
            v = int(Fraction(self.used[name]))
        else:
            a, b = hint or (lo if lo is not None else -5, hi if hi is not None else (lo or 0) + 12)
            v = self.rand.randint(a, b)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Unmet(name)
        self.used[name] = repr(v)
        return v

    def choose(self, name, n):
        if isinstance(n, (list, tuple)):
            return n[self.choose(name, len(n))]
        return self._choose(name, lambda: self._choose1(name, n))

    def _choose1(self, name, n):
        k = self.counters.get(name, 0)
        self.counters[name] = k + 1
        nm = "%s#%d" % (name, k) if k else name
        v = self.choices_in.get(nm)
        if v is None or v >= n:
            v = self.rand.randrange(n)
        self.used_choices[nm] = v
        return v

    def clear_files(self):
        for f in os.listdir(self.dir):
            os.remove(os.path.join(self.dir, f))

    def const(self, x):
        return float(Fraction(x)) if isinstance(x, str) else float(x)

    def assume(self, c):
        if not c:
            raise Unmet("assumption")

    def exp(self, x):
        try:
            return math.exp(x)
        except OverflowError:
            return math.inf

    def log(self, x):
        return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)

    def sqrt(self, x):
        return math.sqrt(x)

    def is_inf(self, x):
        return x == math.inf

    def arr(self, x, dtype=None):
        return np.array(x)

    def interp_linear(self, pts, vals, x, fill):
        from scipy.interpolate import griddata

        return self.tolist(griddata(np.array(pts), np.array(vals), np.array(x), "linear", fill))

    def uf(self, name, args):
        name = self.nm(name)
        seen = self.ufs.setdefault(name, {})
        k = "uf:%s#%d" % (name, seen.setdefault(tuple(float(x) for x in args), len(seen)))
        if k in self.values:
            self.used[k] = self.values[k]
            return float(Fraction(self.values[k]))
        r = random.Random("%s/%s" % (name, self.seed0))
        if self.corner and random.Random("%s/%s" % (k, self.seed0)).random() < 0.4:
            return 0.0
        a, ph = r.uniform(0.5, 2), r.uniform(0, 6)
        for x in args:
            ph += r.uniform(0.3, 1.5) * float(x)
        return a * math.sin(ph) + r.uniform(-1, 1)

    def grad(self, f, names, xs):
        out = []
        h = 1e-5
        for i in range(len(xs)):
            a, b = list(xs), list(xs)
            a[i] += h
            b[i] -= h
            a2, b2 = list(xs), list(xs)
            a2[i] += 2 * h
            b2[i] -= 2 * h
            out.append((8 * (f(a) - f(b)) - (f(a2) - f(b2))) / (12 * h))
        return Approx.wrap(out)

    def decide(self, c):
        return bool(c)

    # assertions
    def check(self, c, msg):
        self.nchecks += 1
        if not c:
            raise CheckFailed(msg)

    def check_eq(self, a, b, msg):
        self.nchecks += 1
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            if a != b:
                raise CheckFailed("%s: %r instead of %r" % (msg, a, b))
            return
        tol = self.rtol
        if isinstance(b, Approx) or isinstance(a, Approx):
            tol = 1e-4
        a, b = float(a), float(b)
        if a != a and b != b:
            return
        if a == b:
            return
        if math.isinf(a) or math.isinf(b) or a != a or b != b or abs(a - b) > tol * max(1.0, abs(a), abs(b)):
            raise CheckFailed("%s: %r instead of %r" % (msg, a, b))

    def fail(self, msg):
        raise CheckFailed(msg)

    def mod(self, name):
        import importlib

        return importlib.import_module(name)

    def write_input(self, name, text):
        with open(name, "w") as f:
            f.write(text)

    def tok(self, v):
        if isinstance(v, npx.Junk):
            return "abc"
        return repr(v)

    def exists(self, name):
        return os.path.exists(name)

    def listfiles(self):
        return sorted(os.listdir("."))

    def text(self, name):
        return open(name).read()

    def table(self, name):
        head, rows = [], []
        for line in open(name):
            if line.startswith("#"):
                head.append(line.rstrip("\n"))
            elif line.strip():
                rows.append([float(x) for x in line.split()])
                for x in rows[-1]:
                    if x == SENTINEL or abs(x) > 1e70:
                        if not math.isinf(x):
                            raise CheckFailed("value read from memory that was never written")
        return head, rows

    def header(self, name):
        with open(name) as f:
            return parse_header(f.read(), float)

    def printed(self):
        return self._out.getvalue()

    def saved_figures(self):
        return [f["file"] for f in self.figs]

    @contextlib.contextmanager
    def argv(self, *args):
        old = sys.argv
        sys.argv = ["bdld"] + list(args)
        h = _LogCapture(self.logs)
        root = logging.getLogger()
        oldh, oldl = root.handlers[:], root.level
        root.handlers = [h]
        try:
            yield
        finally:
            sys.argv = old
            root.handlers = oldh
            root.setLevel(oldl)


class Approx(float):
    @staticmethod
    def wrap(x):
        return [Approx(v) for v in x]

    def __neg__(self):
        return Approx(-float(self))
