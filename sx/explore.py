"""Path exploration: re-execution with decision prefixes, z3 for feasibility and assertions."""
import math
import os
import time
from fractions import Fraction

import z3

from . import core
from .core import (
    SymReal, SymBool, _BYID, EngineError, PathAbort, FIN, NAN, UNDEF,
    pmul, padd, pneg, pscale, pkey, p_isconst, mono_pow, p_pos, F1,
)

TRANS = ("exp", "log", "poly", "rpoly", "pi", "prime", "uf")


def _ratz(c):
    return z3.RealVal(str(c))


class Trans:
    """translation of normal forms to z3; one instance per process"""

    def __init__(self):
        self.zvars = {}
        self.tvars = {}
        self.cache = {}
        self.ax_cache = {}

    def var(self, a):
        v = self.zvars.get(a.id)
        if v is None:
            if a.is_int:
                v = z3.ToReal(z3.Int(a.key))
            else:
                v = z3.Real(a.key)
            self.zvars[a.id] = v
        return v

    def tvar(self, m):
        v = self.tvars.get(m)
        if v is None:
            v = z3.Real("T%d" % len(self.tvars))
            self.tvars[m] = v
        return v

    def poly(self, p):
        """-> (z3 expr, frozenset of tokens)"""
        k = pkey(p)
        r = self.cache.get(k)
        if r is not None:
            return r
        toks = set()
        terms = []
        for m, c in p.items():
            fs = []
            tm = []
            for i, e in m:
                a = _BYID[i]
                if a.kind == "var" and isinstance(e, int) and e > 0:
                    toks.add(("v", i))
                    x = self.var(a)
                    fs.extend([x] * e)
                else:
                    tm.append((i, e))
            if tm:
                tm = tuple(tm)
                toks.add(("t", tm))
                fs.append(self.tvar(tm))
            t = _ratz(c)
            if fs:
                prod = fs[0]
                for f in fs[1:]:
                    prod = prod * f
                t = prod if c == 1 else t * prod
            terms.append(t)
        ex = z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else z3.RealVal(0))
        r = (ex, frozenset(toks))
        self.cache[k] = r
        return r

    def cond(self, c):
        if not isinstance(c, SymBool):
            return z3.BoolVal(bool(c)), frozenset()
        if c.op in ("<", "<=", "=="):
            p = clear_signed(c.args)
            e, t = self.poly(p)
            return (e < 0 if c.op == "<" else e <= 0 if c.op == "<=" else e == 0), t
        if c.op == "not":
            e, t = self.cond(c.args[0])
            return z3.Not(e), t
        es, ts = [], frozenset()
        for a in c.args:
            e, t = self.cond(a)
            es.append(e)
            ts |= t
        return (z3.And(es) if c.op == "and" else z3.Or(es)), ts

    def axioms(self, tok):
        """-> list of (expr, tokens)"""
        r = self.ax_cache.get(tok)
        if r is None:
            r = self.ax_cache[tok] = self._axioms(tok)
        return r

    def _axioms(self, tok):
        out = []
        if tok[0] == "v":
            a = _BYID[tok[1]]
            v = self.var(a)
            if a.pos:
                out.append((v > 0, frozenset([tok])))
            elif a.nonneg:
                out.append((v >= 0, frozenset([tok])))
            return out
        m = tok[1]
        T = self.tvar(m)
        me = frozenset([tok])
        if core.mono_pos(m):
            out.append((T > 0, me))
        elif core.mono_nonneg(m):
            out.append((T >= 0, me))
        kinds = {_BYID[i].kind for i, _ in m}
        if kinds == {"exp"}:
            t = {}
            for i, e in m:
                t = padd(t, {_BYID[i].key: Fraction(e)})
            if p_isconst(t):  # power of e
                lo, hi = _bounds(math.exp(float(core.p_const(t))))
                out.append((z3.And(T > lo, T < hi), me))
            elif len(t) <= 40:
                for cc, rhs in ((core.rel("<", pneg(t)), T > 1), (core.rel("<", t), T < 1), (core.rel("==", t), T == 1)):
                    e, tk = self.cond(cc)
                    out.append((z3.Implies(e, rhs), me | tk))
        elif len(m) == 1:
            (i, e), = m
            a = _BYID[i]
            if a.kind == "pi":
                lo, hi = _bounds(math.pi ** float(e))
                out.append((z3.And(T > lo, T < hi), me))
            elif a.kind == "prime":
                lo, hi = _bounds(float(a.key) ** float(e))
                out.append((z3.And(T > lo, T < hi), me))
            elif a.kind == "log" and e == 1:
                if p_isconst(a.data):
                    lo, hi = _bounds(math.log(float(core.p_const(a.data))))
                    out.append((z3.And(T > lo, T < hi), me))
                elif len(a.data) <= 3:
                    d = padd(a.data, core.pconst(-1))
                    for cc, rhs in ((core.rel("<", pneg(d)), T > 0), (core.rel("<", d), T < 0), (core.rel("==", d), T == 0)):
                        ex, tk = self.cond(cc)
                        out.append((z3.Implies(ex, rhs), me | tk))
            elif a.kind in ("poly", "rpoly", "var"):
                base = a.data if a.kind != "var" else {((i, 1),): F1}
                bz, bt = self.poly(clear_signed(base)) if False else self.poly(base)
                e = Fraction(e)
                n, d = e.numerator, e.denominator
                if d <= 4 and abs(n) <= 4:
                    Td = T
                    for _ in range(d - 1):
                        Td = Td * T
                    Pn = bz
                    for _ in range(abs(n) - 1):
                        Pn = Pn * bz
                    out.append(((Td == Pn) if n > 0 else (Td * Pn == 1), me | bt))
        return out

    def exp_pair(self, e1, e2):
        k = ("p", e1, e2)
        if k in self.ax_cache:
            return self.ax_cache[k]
        m1, m2 = e1[1], e2[1]
        t = {}
        for mm, s in ((m1, 1), (m2, -1)):
            for i, e in mm:
                t = padd(t, {_BYID[i].key: Fraction(e) * s})
        r = None
        if not p_isconst(t) and len(t) <= 16:
            ex, tk = self.cond(core.rel("<", t))
            ee, _ = self.cond(core.rel("==", t))
            T1, T2 = self.tvar(m1), self.tvar(m2)
            r = (z3.And(ex == (T1 < T2), ee == (T1 == T2)), tk | {e1, e2})
        self.ax_cache[k] = r
        return r

    def pair_axioms(self, toks, groups=()):
        """monotonicity of exp/log, congruence of uninterpreted functions"""
        out = []
        logs = []
        ufs = []
        exps = []
        for tok in toks:
            if tok[0] != "t":
                continue
            m = tok[1]
            if len(m) == 1 and m[0][1] == 1:
                a = _BYID[m[0][0]]
                if a.kind == "log" and (len(a.data) <= 3 or len(a.data) <= 40 and all(_BYID[i].kind == "var" for mm in a.data for i, _ in mm)):
                    logs.append((tok, a))
                if a.kind == "uf":
                    ufs.append((tok, a))
            if all(_BYID[i].kind == "exp" for i, _ in m):
                exps.append(tok)
        for x in range(len(logs)):
            for y in range(x):
                (t1, a1), (t2, a2) = logs[x], logs[y]
                d = padd(a1.data, pneg(a2.data))
                if p_isconst(d) or (len(d) > 6 and max(len(a1.data), len(a2.data)) > 3):
                    continue
                ex, tk = self.cond(core.rel("<", d))
                ee, _ = self.cond(core.rel("==", d))
                T1, T2 = self.tvar(t1[1]), self.tvar(t2[1])
                out.append((z3.And(ex == (T1 < T2), ee == (T1 == T2)), tk | {t1, t2}))
        pairs = set()
        if len(exps) <= 5:
            pairs |= {(exps[x], exps[y]) for x in range(len(exps)) for y in range(x)}
        es = set(exps)
        for g in groups:  # terms of the same constraint
            c = sorted((t for t in g if t in es), key=str)
            if len(c) <= 5:
                pairs |= {(c[x], c[y]) for x in range(len(c)) for y in range(x)}
            if len(pairs) > 40:
                break
        for t1, t2 in sorted(pairs, key=str):
            r = self.exp_pair(t1, t2)
            if r is not None:
                out.append(r)
        for x in range(len(ufs)):
            for y in range(x):
                (t1, a1), (t2, a2) = ufs[x], ufs[y]
                if a1.key[0] != a2.key[0] or len(a1.data) != len(a2.data):
                    continue
                cs = []
                ok = True
                tk = frozenset([t1, t2])
                for u, v in zip(a1.data, a2.data):
                    if isinstance(u, SymReal) and isinstance(v, SymReal) and u.fin and v.fin:
                        d = padd(u.p, pneg(v.p))
                        if not d:
                            continue
                        if p_isconst(d):
                            ok = False
                            break
                        e, t = self.cond(core.rel("==", d))
                        cs.append(e)
                        tk |= t
                    elif u is not v and not (not isinstance(u, SymReal) and u == v):
                        ok = False
                        break
                if ok:
                    out.append((z3.Implies(z3.And(cs) if cs else z3.BoolVal(True), self.tvar(t1[1]) == self.tvar(t2[1])), tk))
        return out


def _bounds(v):
    d = abs(v) * 1e-12 + 1e-300
    return _ratz(Fraction(v - d)), _ratz(Fraction(v + d))


def clear_signed(p, rounds=6):
    """multiply p by positive quantities to remove negative integer exponents"""
    for _ in range(rounds):
        neg = {}
        for m in p:
            for i, e in m:
                if e < 0 and (_BYID[i].kind in ("var", "poly", "rpoly")):
                    if e < neg.get(i, 0):
                        neg[i] = e
        if not neg:
            return p
        mm = []
        for i, e in neg.items():
            a = _BYID[i]
            k = -e
            if not a.pos and (not isinstance(k, int) or k % 2):
                # even power keeps the sign whatever the sign of the atom
                k = (math.floor(k) // 2 + 1) * 2
            mm.append((i, k))
        mm = tuple(sorted(mm))
        f = {mm: F1}
        if core._needs_expand(mm):
            f = core._expand_mono(mm, F1)
        # multiply term by term so that atom powers cancel before expansion
        out = {}
        for m, c in p.items():
            x = core.mono_mul(m, mm)
            if core._needs_expand(x):
                out = padd(out, core._expand_mono(x, c))
            else:
                out = padd(out, {x: c})
        if len(out) > 4000:
            return p
        p = out
        if not p:
            return p
    return p


TR = Trans()


class Failure:
    def __init__(self, msg, status, prefix, values, choices, detail=""):
        self.msg, self.status, self.prefix = msg, status, prefix
        self.values, self.choices, self.detail = values, choices, detail


class Stats:
    def __init__(self):
        self.paths = 0
        self.completed = 0
        self.aborted = 0
        self.decisions = 0
        self.queries = 0
        self.assertions = 0
        self.solver_s = 0.0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.cache_hits = 0
        self.normalised = 0

    def asdict(self):
        return dict(self.__dict__)


class Explorer:
    def __init__(self, max_paths=20000, max_time=600.0, query_timeout_ms=20000):
        self.stats = Stats()
        self.max_paths = max_paths
        self.max_time = max_time
        self.qt = query_timeout_ms
        self.model_s = 0.0  # time spent on example values
        self.hopeless = {}
        self.failures = []
        self.engine_errors = []
        self.incomplete = None
        self.qcache = {}
        self.on_failure = None
        self.on_reset = None
        self.witness_paths = []
        self.sample = None

    # ------------------------------------------------------------ driving
    def run(self, fn, shard=None):
        """explore all paths of fn(ctx); shard (i, k): only the i-th part of the search tree"""
        stack = [[]]
        splitting = shard is not None and shard[1] > 1
        t0 = time.time()
        core.set_ctx(self)
        self.stop = False
        while stack and not self.stop:
            if self.stats.paths >= self.max_paths:
                self.incomplete = "path limit %d reached" % self.max_paths
                break
            if time.time() - t0 > self.max_time:
                self.incomplete = "time limit %.0f s reached" % self.max_time
                break
            if splitting and len(stack) >= 12 * shard[1]:
                # breadth first up to here (identical in all shards), then every k-th subtree
                splitting = False
                if shard[0]:
                    self.stats = Stats()
                    self.witness_paths, self.failures, self.engine_errors = [], [], []
                    if self.on_reset:
                        self.on_reset()
                stack = stack[shard[0]::shard[1]]
            self.prefix = stack.pop(0) if splitting else stack.pop()
            self.pos = 0
            self.trace = []
            self.alts = []
            self.cons = []  # (SymBool or z3, expr, tokens)
            self.facts = {}
            self.choices = {}
            self.tokens = []
            self.counters = {}
            self.vars = {}
            self.nf = []
            self._rounded = {}
            self.stats.paths += 1
            try:
                fn(self)
                self._nf_query()
                self.stats.completed += 1
                self._witness()
            except PathAbort:
                self.stats.aborted += 1
            except EngineError as e:
                import traceback

                self.engine_errors.append((str(e), traceback.format_exc()))
                if self.on_failure:
                    f = Failure("engine: %s" % e, "engine", list(self.trace), {}, dict(self.choices))
                    self.on_failure(f)
            except Exception as e:
                import traceback

                tb = traceback.format_exc()
                try:
                    self.fail("uncaught %s: %s" % (type(e).__name__, e), "exception", detail=tb[-1500:])
                except PathAbort:
                    self.stats.aborted += 1
            for a in self.alts:
                stack.append(a)
        if splitting and shard[0]:  # everything was done by shard 0 too
            self.stats = Stats()
            self.witness_paths, self.failures, self.engine_errors = [], [], []
            if self.on_reset:
                self.on_reset()
        return self.stats

    def _nf_query(self):
        """equalities that both sides reach the same normal form are also put to the solver, in one
        query per path"""
        ds, seen = [], set()
        for p, q in self.nf:
            k = (pkey(p), pkey(q))
            if k in seen or len(p) > 3000:
                continue
            seen.add(k)
            ds.append(TR.poly(p)[0] != TR.poly(q)[0])
        if not ds:
            return
        ck = ("nf", frozenset(seen))
        if ck in self.qcache:
            self.stats.cache_hits += 1
            return
        s = z3.Solver()
        s.set("timeout", self.qt)
        s.add(z3.Or(ds))
        t0 = time.time()
        r = str(s.check())
        self.stats.solver_s += time.time() - t0
        self.stats.queries += 1
        setattr(self.stats, r, getattr(self.stats, r) + 1)
        if r != "unsat":
            raise EngineError("normal form equality not confirmed by the solver")
        self.qcache[ck] = r

    def _witness(self):
        """keep some completed paths for concrete validation, the first also with a model"""
        k = self.stats.completed
        if len(self.witness_paths) < 400:
            self.witness_paths.append(dict(self.choices))
        elif hash((k * 2654435761) & 0xFFFFFFFF) % 7 == 0:
            self.witness_paths[k % 400] = dict(self.choices)
        if self.sample is None:
            try:
                r, m = self.query([], full_model=True)
            except z3.Z3Exception:
                r, m = "unknown", None
            self.sample = {
                "path_condition": [str(e)[:160] for _, e, _ in self.cons[:8]], "choices": dict(list(self.choices.items())[:20]),
                "model": dict(list((self.values(m) if m is not None else {}).items())[:20]), "path_satisfiable": r,
            }

    # ------------------------------------------------------------ decisions
    def _take(self, options):
        """options: list of values known feasible; returns the chosen one"""
        v = options[0]
        for o in reversed(options[1:]):
            self.alts.append(self.trace + [o])
        self.trace.append(v)
        self.pos += 1
        if len(options) > 1:
            self.stats.decisions += 1
        return v

    def _replay(self):
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(v)
            return True, v
        return False, None

    def choose(self, name, n):
        """arbitrary integer 0..n-1"""
        k = self.counters.get(name, 0)
        self.counters[name] = k + 1
        nm = "%s#%d" % (name, k) if k else name
        if n <= 0:
            raise EngineError("choice among nothing")
        ok, v = self._replay()
        if not ok:
            v = self._take(list(range(n)))
        self.choices[nm] = v
        return v

    def decide(self, c):
        if not isinstance(c, SymBool):
            return bool(c)
        if c.op == "not":
            return not self.decide(c.args[0])
        if c.op == "and":
            return all(self.decide(a) for a in c.args)
        if c.op == "or":
            return any(self.decide(a) for a in c.args)
        f = self.facts.get(c.key)
        if f is not None:
            return f
        ok, v = self._replay()
        if not ok:
            n = core.not_(c)
            r1 = self.query([c])
            if r1 == "unsat":
                v = self._take([False])
            else:
                r2 = self.query([n])
                v = self._take([True]) if r2 == "unsat" else self._take([True, False])
        self._assume_lit(c, v)
        return v

    def _assume_lit(self, c, v):
        p = c.args
        n = pneg(p)
        K = lambda op, q: (op, pkey(q))
        lc = p if c.op != "==" or p[core.lead(p)] > 0 else n
        f = self.facts
        if c.op == "<" and v:
            f[K("<", p)] = f[K("<=", p)] = True
            f[K("==", p)] = f[K("==", n)] = f[K("<", n)] = f[K("<=", n)] = False
        elif c.op == "<" and not v:
            f[K("<", p)] = False
            f[K("<=", n)] = True
        elif c.op == "<=" and v:
            f[K("<=", p)] = True
            f[K("<", n)] = False
        elif c.op == "<=" and not v:
            f[K("<=", p)] = f[K("<", p)] = f[K("==", p)] = f[K("==", n)] = f[K("<=", n)] = False
            f[K("<", n)] = True
            f[K("<=", n)] = True
        else:
            f[K("==", p)] = f[K("==", n)] = v
            if v:
                f[K("<=", p)] = f[K("<=", n)] = True
                f[K("<", p)] = f[K("<", n)] = False
        self.add(c if v else core.not_(c))

    def add(self, c):
        """add a condition to the path"""
        if isinstance(c, SymBool):
            e, t = TR.cond(c)
            self.cons.append((c.key, e, t))
        elif not c:
            raise PathAbort()

    def assume(self, c):
        if not isinstance(c, SymBool):
            if not c:
                raise PathAbort()
            return
        if c.op == "and":
            for a in c.args:
                self.assume(a)
            return
        f = self.facts.get(c.key) if c.op in ("<", "<=", "==") else None
        if f is True:
            return
        if f is False:
            raise PathAbort()
        if self.pos >= len(self.prefix):
            if self.query([c]) == "unsat":
                raise PathAbort()
        if c.op in ("<", "<=", "=="):
            self._assume_lit(c, True)
        else:
            self.add(c)

    def pick_int(self, a, cond, pyf):
        ok, k = self._replay()
        if not ok:
            ks = []
            extra = []
            while len(ks) < 80:
                r, mv = self.query(extra, want=a)
                if r == "unsat":
                    break
                if r == "unknown" or mv is None:
                    raise EngineError("cannot enumerate integer value of %r" % (a,))
                k = int(pyf(mv))
                if k in ks:
                    raise EngineError("integer enumeration does not progress: %r" % (a,))
                ks.append(k)
                extra.append(core.not_(cond(k)))
            else:
                raise EngineError("integer value has too many possibilities: %r" % (a,))
            if not ks:
                raise PathAbort()
            ks.sort()
            k = self._take(ks)
        c = cond(k)
        if isinstance(c, SymBool):
            for x in c.args if c.op == "and" else (c,):
                if x.op in ("<", "<=", "=="):
                    self._assume_lit(x, True)
                else:
                    self.add(x)
        return k

    def idiv(self, a, b):
        key = "idiv[%s|%s]" % (core.poly_str(a.p, 99), b.const())
        q = core.make_var("q:" + key, is_int=True)
        r = core.make_var("r:" + key, is_int=True)
        if key not in self.vars:
            self.vars[key] = True
            bb = b.const()
            self.add(core.eq(a, core.add(core.mul(q, b), r)))
            if bb > 0:
                self.add(core.le(core.ZERO, r))
                self.add(core.lt(r, b))
            else:
                self.add(core.le(r, core.ZERO))
                self.add(core.lt(b, r))
        return q, r

    def exp_axiom(self, a, r):
        pass

    def log_axiom(self, at):
        pass

    def rounded(self, x, size):
        """x rounded to a float of the given size: relative error of one unit in the last place"""
        from . import core

        key = (size, core.pkey(x.p))
        r = self._rounded.get(key)
        if r is None:
            r = self._rounded[key] = core.make_var("round%d_%d" % (8 * size, len(self._rounded)))
            u = core.real_const(Fraction(1, 2 ** (24 if size == 4 else 11)))
            d = core.abs_(core.sub(r, x))
            self.assume(core.le(d, core.mul(core.abs_(x), u)))
        return r

    def rounded_to(self, x, n):
        """x rounded to n digits: error of half a unit of the last digit"""
        from . import core

        key = ("digits", n, core.pkey(x.p))
        r = self._rounded.get(key)
        if r is None:
            r = self._rounded[key] = core.make_var("digits%d_%d" % (n, len(self._rounded)))
            self.assume(core.le(core.abs_(core.sub(r, x)), core.real_const(Fraction(1, 2 * 10 ** n))))
        return r

    def uninit(self):
        self.fail("value read from memory that was never written", "definite")

    # ------------------------------------------------------------ tokens
    def token(self, v, spec):
        self.tokens.append((v, spec))
        return "\u00a7%d\u00a7" % (len(self.tokens) - 1)

    # ------------------------------------------------------------ solver
    def query(self, extra, want=None, full_model=False, tag=None):
        """sat/unsat/unknown of path and extra (only the connected part of the path)"""
        exprs, toks, keys = [], set(), []
        for c in extra:
            if not isinstance(c, SymBool):
                if not c:
                    return ("unsat", None) if (want is not None or full_model) else "unsat"
                continue
            e, t = TR.cond(c)
            exprs.append(e)
            toks |= t
            keys.append(c.key)
        if want is not None:
            toks |= TR.poly(want.p)[1]
        axs = []
        seen_ax = set()
        rest = list(self.cons)
        if full_model:
            sel = rest
            for k, e, t in rest:
                toks |= t
        else:
            sel = []
        changed = True
        closure = set()
        while changed:
            changed = False
            for tok in [t for t in toks if t not in closure]:
                closure.add(tok)
                changed = True
                for e, t in TR.axioms(tok):
                    axs.append(e)
                    toks |= t
            if not full_model:
                nr = []
                for item in rest:
                    if item[2] & toks:
                        sel.append(item)
                        toks |= item[2]
                        changed = True
                    else:
                        nr.append(item)
                rest = nr
        groups = [TR.cond(c)[1] for c in extra if isinstance(c, SymBool)] + [i[2] for i in sel]
        for e, t in TR.pair_axioms(sorted(toks, key=str), groups):
            axs.append(e)
            for tok in t - closure:
                closure.add(tok)
                for ee, tt in TR.axioms(tok):
                    axs.append(ee)
        ck = None
        if want is None and not full_model:
            ck = (frozenset(keys), frozenset(i[0] for i in sel))
            r = self.qcache.get(ck)
            if r is not None:
                self.stats.cache_hits += 1
                return r
        qt = self.qt
        if full_model:  # only looks for example values: give up early when this was hopeless before
            qt = min(qt, 8000 if self.model_s < 40 else 1500 if self.model_s < 90 else 200)
        elif self.hopeless.get(tag, 0) >= 3:
            qt = min(qt, 3000)
        s = z3.Solver()
        s.set("timeout", qt)
        for _, e, _ in sel:
            s.add(e)
        s.add(*axs) if axs else None
        s.add(*exprs) if exprs else None
        t0 = time.time()
        r = str(s.check())
        if r == "unknown" and not (full_model and self.model_s > 40):
            # second opinion: dedicated nonlinear tactic
            try:
                s2 = z3.Then("simplify", "solve-eqs", "qfnra-nlsat").solver()
                s2.set("timeout", qt)
                s2.add(s.assertions())
                r2 = str(s2.check())
                if r2 != "unknown":
                    r, s = r2, s2
            except z3.Z3Exception:
                pass
        self.stats.solver_s += time.time() - t0
        self.stats.queries += 1
        setattr(self.stats, r, getattr(self.stats, r) + 1)
        if full_model:
            self.model_s += time.time() - t0
        if tag is not None and r == "unknown":
            self.hopeless[tag] = self.hopeless.get(tag, 0) + 1
        if ck is not None:
            self.qcache[ck] = r
        if want is not None:
            if r != "sat":
                return r, None
            return r, _val(s.model().eval(TR.poly(want.p)[0], model_completion=True))
        if full_model:
            return r, (s.model() if r == "sat" else None)
        return r

    def values(self, model):
        out = {}
        for name, v in self.vars.items():
            if isinstance(v, SymReal):
                try:
                    x = _val(model.eval(TR.poly(v.p)[0])) if model else None  # unconstrained ones are drawn in the replay
                except Exception:
                    x = None
                if x is not None:
                    out[name] = str(x)
        return out

    # ------------------------------------------------------------ assertions
    def check(self, c, msg):
        self.stats.assertions += 1
        if not isinstance(c, SymBool):
            if c:
                self.stats.normalised += 1
                return
            self.fail(msg, "definite")
        n = core.not_(c)
        r = self.query([n], tag=msg.split(":")[0])
        if r == "unsat":
            return
        self.fail(msg, r, [n])

    def fail(self, msg, status, extra=(), detail=""):
        """record a candidate violation and stop the path"""
        vals = {}
        try:
            r, m = self.query(list(extra), full_model=True)
            if r == "unsat":
                if extra:
                    return  # assertion holds on this (whole) path
                raise PathAbort()  # path is infeasible
            if m is not None:
                vals = self.values(m)
                # try to get away from the boundary
                for margin in ("1/100", "1/100000"):
                    mc = [_margin(e, Fraction(margin)) for e in extra]
                    if mc and all(x is not None for x in mc):
                        r2, m2 = self.query(mc, full_model=True)
                        if m2 is not None:
                            vals = self.values(m2)
                            break
        except z3.Z3Exception:
            pass
        f = Failure(msg, status, list(self.trace), vals, dict(self.choices), detail)
        self.failures.append(f)
        if self.on_failure:
            self.on_failure(f)
        raise PathAbort()


def _margin(c, eps):
    if not isinstance(c, SymBool):
        return None
    if c.op in ("<", "<="):
        return SymBool("<=", padd(c.args, core.pconst(eps)))
    if c.op == "not" and c.args[0].op == "==":
        p = c.args[0].args
        try:
            q = padd(pmul(p, pneg(p)), core.pconst(eps * eps))
        except core.EngineError:  # too large
            return None
        return SymBool("<=", q)
    if c.op == "or":
        return None
    return None


def _val(v):
    if z3.is_rational_value(v) or z3.is_int_value(v):
        return Fraction(v.as_fraction() if z3.is_rational_value(v) else v.as_long())
    if z3.is_algebraic_value(v):
        return Fraction(v.approx(20).as_fraction())
    return None
