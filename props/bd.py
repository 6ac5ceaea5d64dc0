"""Birth-death: C01 population, C02 rule, C03 excess, C04 density, C05 schedule and statistics."""
import itertools
from functools import partial

from sx.env import Unmet
from sx.harness import add, meta

ATTRS = ("pos", "mom", "mass", "energy", "forces", "c2")


def walkers(env, n, nd, positions=True, pos_hint=(-1.5, 1.5)):
    B = env.mod("bdld.actions.bussi_parinello_ld")
    ps = []
    for i in range(n):
        p = B.BpldParticle([env.real("x%d_%d" % (i, d), hint=pos_hint) for d in range(nd)],
                           [env.real("m%d_%d" % (i, d)) for d in range(nd)], env.real("mass%d" % i, pos=True))
        p.energy = env.real("e%d" % i)
        p.forces = env.arr([env.real("f%d_%d" % (i, d)) for d in range(nd)])
        p.c2 = env.real("c2_%d" % i, nonneg=True)
        ps.append(p)
    return ps


def snap(env, p):
    return {a: env.tolist(getattr(p, a)) for a in ATTRS if hasattr(p, a)}


def snaps(env, ps):
    return [snap(env, p) for p in ps]


def density(env, pos, bw):
    """mean normalised Gaussian kernel at each walker"""
    n, nd = len(pos), len(bw)
    out = []
    for i in range(n):
        tot = 0
        for j in range(n):
            q, h = 0, 1
            for d in range(nd):
                u = pos[i][d] - pos[j][d]
                q = q + u * u / (2 * bw[d] * bw[d])
                h = h * (env.sqrt(2 * env.pi) * bw[d])
            tot = tot + env.exp(-q) / h
        out.append(tot / n)
    return out


def excess(env, pos, ene, kt, bw):
    d = density(env, pos, bw)
    b = [env.log(d[i]) + ene[i] / kt for i in range(len(pos))]
    m = sum(b[1:], b[0]) / len(b)
    return [x - m for x in b]


def params(env, nd, rate="sym"):
    dt = env.real("dt", pos=True, hint=(0.05, 1.5))
    kt = env.real("kt", pos=True, hint=(0.3, 2))
    bw = [env.real("bw%d" % d, pos=True, hint=(0.2, 1)) for d in range(nd)]
    rf = env.real("rate", pos=True, hint=(0.3, 3)) if rate == "sym" else None
    return dt, kt, bw, rf


def make_bd(env, ps, stride=1, nd=1, recalc=False, rate="sym", **k):
    M = env.mod("bdld.actions.birth_death")
    dt, kt, bw, rf = params(env, nd, rate)
    bd = M.BirthDeath(ps, dt, stride, env.arr(bw), kt, rf, recalc, seed=3, **k)
    return bd, dict(dt=dt * stride, kt=kt, bw=bw, rate=rf if rf is not None else 1)


class Oracle:
    """the birth-death rule evaluated on snapshots"""

    def __init__(self, env, sn, par, recalc):
        self.env, self.sn, self.par, self.recalc = env, sn, par, recalc
        self.tags = list(range(len(sn)))
        self.kills = self.dups = self.katt = self.datt = 0
        self.vague = False

    def betas(self):
        e = self.env
        pos = [self.sn[t]["pos"] for t in self.tags]
        ene = [self.sn[t]["energy"] for t in self.tags]
        return excess(e, pos, ene, self.par["kt"], self.par["bw"])

    def sign(self, b):
        if not self.env.sym and 0 < abs(b) < 1e-11:
            raise Unmet("tie")  # sign decided by rounding
        if self.env.decide(b > 0):
            return 1
        if self.env.decide(b < 0):
            return -1
        return 0

    def accepted(self, b, s, r):
        """True/False; None when draw and probability coincide (either is fine)"""
        e = self.env
        if s == 0:
            return False
        prob = 1 - e.exp(-(b if s > 0 else -b) * self.par["dt"] * self.par["rate"])
        if e.decide(r < prob):
            return True
        if e.decide(r > prob):
            return False
        return None

    def step(self, rand, events, order):
        """check one step; order: processing order if known"""
        env, n = self.env, len(self.sn)
        events = [(int(a), int(b)) for a, b in events]
        for d, k in events:
            env.check(0 <= d < n and 0 <= k < n and d != k, "event %s names two different walkers" % ((d, k),))
        if not self.recalc:
            b = self.betas()
            s = [self.sign(x) for x in b]
            acc = [self.accepted(b[i], s[i], rand[i]) for i in range(n)]
            if None in acc:
                self.vague = True
                return
            self.katt += s.count(1)
            self.datt += s.count(-1)
            if 0 in s:
                self.vague_att = True
            A = [i for i in range(n) if acc[i]]
            orders = [order] if order is not None and sorted(order) == A else itertools.permutations(A)
            for o in orders:
                r = self.bulk(o, s, events)
                if r is not None:
                    self.kills += r[0]
                    self.dups += r[1]
                    break
            else:
                env.fail("events %s do not follow the rule (accepted %s, signs %s, order %s)" % (events, A, s, order))
            for d, k in events:
                self.tags[k] = self.tags[d]
            return
        # with recalculation
        if order is None or sorted(order) != list(range(n)):
            env.fail("processing order is not a permutation of the walkers: %s" % (order,))
        ev = iter(events)
        b = self.betas()
        for i in order:
            s = self.sign(b[i])
            if s > 0:
                self.katt += 1
            elif s < 0:
                self.datt += 1
            acc = self.accepted(b[i], s, rand[i])
            if acc is None:
                self.vague = True
                return
            if acc:
                e = next(ev, None)
                env.check(e is not None, "accepted walker %d triggers an event" % i)
                d, k = e
                if s > 0:
                    env.check(k == i, "over-dense walker %d is the one replaced (event dup=%d kill=%d)" % (i, d, k))
                    self.kills += 1
                else:
                    env.check(d == i, "under-dense walker %d is the one duplicated (event dup=%d kill=%d)" % (i, d, k))
                    self.dups += 1
                self.tags[k] = self.tags[d]
                b = self.betas()
        env.check(next(ev, None) is None, "no further events than accepted walkers")

    @staticmethod
    def bulk(o, s, events):
        killed, kills, dups = set(), 0, 0
        it = iter(events)
        for i in o:
            if i in killed:
                continue
            e = next(it, None)
            if e is None:
                return None
            d, k = e
            if s[i] > 0:
                if k != i:
                    return None
                kills += 1
            else:
                if d != i:
                    return None
                dups += 1
            killed.add(k)
        return None if next(it, None) is not None else (kills, dups)


def same_walker(env, got, want, msg):
    for a in want:
        env.check_arr(got[a], want[a], "%s %s" % (msg, a)) if isinstance(want[a], list) else env.check_eq(got[a], want[a], "%s %s" % (msg, a))


def last(rng, kind, n0=0):
    r = [v for k, v in rng.log[n0:] if k == kind]
    return r[-1] if r else None


def last_ints(rng, n0=0):
    r = last(rng, "s", n0)
    try:
        return None if r is None else [int(x) for x in r]
    except Exception:
        return None


def c01(env, n, nd, recalc, steps=1):
    ps = walkers(env, n, nd)
    orig = list(ps)
    bd, par = make_bd(env, ps, 1 + env.choose("stride", 2), nd, recalc)
    env.check(bd.particles is ps, "birth-death works on the list it was given")
    for k in range(steps):
        sn = snaps(env, ps)
        events = bd.do_birth_death()
        env.check(bd.particles is ps, "birth-death keeps working on the same list")
        env.check_eq(len(ps), n, "number of walkers")
        killed = {int(b) for a, b in events}
        for i in range(n):
            got = snap(env, ps[i])
            if i not in killed:
                same_walker(env, got, sn[i], "slot %d (not replaced) keeps" % i)
            else:
                ok = [j for j in range(n) if all(equal(env, got[a], sn[j][a]) for a in sn[j])]
                env.check(bool(ok), "slot %d holds an exact copy of a walker of the population before the step" % i)
        env.check(len({id(p) for p in ps}) == n, "every slot holds its own walker object")
        # arrays are not shared either
        ids = [id(x) for p in ps for x in (p.pos, p.mom, p.forces)]
        env.check(len(set(ids)) == len(ids), "no two walkers share an array")


def equal(env, a, b):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(equal(env, x, y) for x, y in zip(a, b))
    if isinstance(b, list):
        return False
    if env.sym:
        return env.identical(a, b)
    return a == b


def c02(env, n, nd, recalc, stride=1, rate="sym", viarun=False):
    ps = walkers(env, n, nd)
    bd, par = make_bd(env, ps, stride, nd, recalc, rate)
    sn = snaps(env, ps)
    rng = env.rng_of(bd)
    events = bd.do_birth_death()
    rand = rng.draws("u")
    env.check(len(rand) >= n, "one uniform draw per walker")
    o = Oracle(env, sn, par, recalc)
    o.step(rand, events, last_ints(rng))
    if o.vague:
        return
    for i in range(n):
        same_walker(env, snap(env, ps[i]), sn[o.tags[i]], "walker in slot %d after the events:" % i)


def c02_partners(env, n, recalc):
    """the partner of an accepted walker can be every other walker and is never itself"""
    i = env.choose("walker", n)
    seen = set()
    ks = n - 1
    k = 0
    while k < ks:
        ps = walkers(env, n, 1)
        bd, par = make_bd(env, ps, 1, 1, recalc)
        u = [env.real("u%d" % j, lo=0, hi=1, hi_strict=True, hint=(0, 0.02) if j == i else (0.96, 1)) for j in range(n)]
        rng = env.rng_of(bd)
        rng.script(u=u, pick=k)
        sn = snaps(env, ps)
        o = Oracle(env, sn, par, False)
        b = o.betas()
        s = [o.sign(x) for x in b]
        acc = [o.accepted(b[j], s[j], u[j]) for j in range(n)]
        env.assume(acc[i] is True)
        env.assume(all(acc[j] is False for j in range(n) if j != i))
        if recalc and i != n - 1:
            return  # later decisions depend on the moved population
        ev = [(int(a), int(c)) for a, c in bd.do_birth_death()]
        env.check_eq(len(ev), 1, "one event")
        d, kl = ev[0]
        me, other = (kl, d) if s[i] > 0 else (d, kl)
        env.check_eq(me, i, "the accepted walker is killed/duplicated according to its excess")
        env.check(other != i and 0 <= other < n, "partner is another walker")
        seen.add(other)
        if rng.asked:
            ks = max(ks, rng.asked[0])
        k += 1
    env.check(seen == set(range(n)) - {i}, "every other walker can be the partner (found %s for walker %d of %d)" % (sorted(seen), i, n))


def c02_many(env, n, active, recalc):
    """many walkers at one place with different energies: events of the active ones, all others stay"""
    B = env.mod("bdld.actions.bussi_parinello_ld")
    x, g, e0 = env.real("x", hint=(-1, 1)), env.real("gap", pos=True, hint=(0.1, 1)), env.real("e0")
    ps = []
    for i in range(n):
        p = B.BpldParticle([x], [env.real("m%d" % i)], env.real("mass%d" % i, pos=True))
        p.energy = e0 + ((5 * i) % n) * g
        p.forces = env.arr([env.real("f%d" % i)])
        p.c2 = env.real("c2_%d" % i, nonneg=True)
        ps.append(p)
    bd, par = make_bd(env, ps, 1, 1, recalc)
    u = [env.real("u%d" % j, lo=0, hi=1, hi_strict=True, hint=(0, 0.6) if j in active else (0.96, 1)) for j in range(n)]
    rng = env.rng_of(bd)
    rng.script(u=u, **({"order": 0 if active == (n - 1,) else 3} if recalc else {}))
    sn = snaps(env, ps)
    if recalc and active != (n - 1,):  # energies move the mean: the rest must stay for every population the events can give
        for j in range(n):
            if j not in active:
                env.assume(u[j] > 1 - env.exp(-n * g / par["kt"] * par["dt"] * par["rate"]))
    else:
        o = Oracle(env, sn, par, False)
        b = o.betas()
        for j in range(n):
            if j not in active:
                env.assume(o.accepted(b[j], o.sign(b[j]), u[j]) is False)
    events = bd.do_birth_death()
    o = Oracle(env, sn, par, recalc)
    o.step(rng.draws("u"), events, last_ints(rng))
    if o.vague:
        return
    for i in range(n):
        same_walker(env, snap(env, ps[i]), sn[o.tags[i]], "walker in slot %d after the events:" % i)
    env.check(len({id(p) for p in ps}) == n, "every slot holds its own walker object")
    ids = [id(a) for p in ps for a in (p.pos, p.mom, p.forces)]
    env.check(len(set(ids)) == len(ids), "no two walkers share an array")


for n, active, rc, tier in [(11, (10,), False, "quick"), (12, (11,), True, "quick"), (7, (1, 5), False, "quick"), (6, (0, 4), True, "quick"), (11, (3, 10), False, "thorough")]:
    for pr in ("C01", "C02"):
        add(pr, "many%d-%s-%s" % (n, "x".join(map(str, active)), "recalc" if rc else "bulk"), partial(c02_many, n=n, active=active, recalc=rc), "%d walkers at one place, any energy gap; draws of walkers %s free, the others' high enough for no event" % (n, active), tier=tier, weight=4, trials=20)


# ---------------------------------------------------------------- registration
for n, nd, rc, tier in [(2, 1, False, "quick"), (2, 1, True, "quick"), (3, 1, False, "quick"), (3, 1, True, "quick"), (2, 2, False, "quick"), (2, 2, True, "quick"),
                        (2, 3, False, "thorough"), (4, 1, False, "thorough")]:
    nm = "%dw%dd-%s" % (n, nd, "recalc" if rc else "bulk")
    add("C01", nm, partial(c01, n=n, nd=nd, recalc=rc), "%d walkers, %dD, one step, all draws, orders and partners" % (n, nd), tier=tier, weight=n * n, shards=6 if (n, rc) == (3, True) else 8 if n == 4 else 2 if n == 3 else 1)
    add("C02", nm, partial(c02, n=n, nd=nd, recalc=rc), "%d walkers, %dD, one step, all draws, orders and partners, any dt, kT, bandwidth, rate" % (n, nd), tier=tier, weight=n * n, shards=6 if (n, rc) == (3, True) else 8 if n == 4 else 2 if n == 3 else 1)
add("C01", "2w1d-bulk-2steps", partial(c01, n=2, nd=1, recalc=False, steps=2), "two consecutive steps", tier="quick", weight=6)
add("C01", "2w1d-recalc-2steps", partial(c01, n=2, nd=1, recalc=True, steps=2), "two consecutive steps", tier="quick", weight=6)
add("C02", "default-rate", partial(c02, n=2, nd=1, recalc=False, rate=None), "no rate factor given")
add("C02", "stride3", partial(c02, n=2, nd=1, recalc=True, stride=3), "stride 3")
for rc in (False, True):
    add("C02", "partners3-%s" % ("recalc" if rc else "bulk"), partial(c02_partners, n=3, recalc=rc), "3 walkers, every draw of the partner", weight=2)
    add("C02", "partners5-%s" % ("recalc" if rc else "bulk"), partial(c02_partners, n=5, recalc=rc), "5 walkers, every draw of the partner", tier="thorough")


# ---------------------------------------------------------------- C04
def c04(env, n, nd, large=False):
    M = env.mod("bdld.actions.birth_death")
    pos = [[env.real("x%d_%d" % (i, d), hint=(-1.5, 1.5)) for d in range(nd)] for i in range(n)]
    bw = [env.real("bw%d" % d, pos=True, hint=(0.2, 1.5)) for d in range(nd)]
    with population(env, M, 20000 if large else None):
        got = env.tolist(M.walker_density(env.arr(pos), env.arr(bw)))
    ref = density(env, pos, bw)
    env.check_arr(got, ref, "walker density")
    for i in range(n):
        env.check(got[i] > 0, "density at a walker is positive")
    # order of the walkers
    perm = list(range(n))
    if n > 6:  # some reorderings only
        perm = [perm[::-1], perm[1:] + perm[:1]][env.choose("perm", 2)]
    for i in range(n - 1 if n <= 6 else 0):
        j = i + env.choose("perm%d" % i, n - i)
        perm[i], perm[j] = perm[j], perm[i]
    with population(env, M, 20000 if large else None):
        got2 = env.tolist(M.walker_density(env.arr([pos[k] for k in perm]), env.arr(bw)))
    for i, k in enumerate(perm):
        env.check_eq(got2[i], ref[k], "density does not depend on the order of the walkers")


class population:
    """let the code see a population of n_virtual walkers where it compares with a large number"""

    def __init__(self, env, mod, n_virtual):
        self.env, self.mod, self.n = env, mod, n_virtual

    def __enter__(self):
        from sx import npx
        self.npx = npx
        npx.LenInt.virtual = self.n
        if not self.env.sym and self.n:
            import builtins
            self.mod.len = lambda x: npx.LenInt(builtins.len(x))

    def __exit__(self, *a):
        self.npx.LenInt.virtual = None
        if not self.env.sym and self.n:
            del self.mod.len


for n, nd in [(1, 1), (2, 1), (3, 1), (4, 1), (1, 2), (2, 2), (3, 2), (2, 3), (3, 3)]:
    for large in (False, True):
        add("C04", "%dw%dd%s" % (n, nd, "-large" if large else ""), partial(c04, n=n, nd=nd, large=large),
            "%d walkers, %dD, any positions and bandwidths, every reordering%s" % (n, nd, ", branch for more than 10000 walkers" if large else ""), weight=n)
for n, nd in [(5, 1), (6, 1), (5, 2), (4, 3), (5, 3)]:
    for large in (False, True):
        add("C04", "%dw%dd%s" % (n, nd, "-large" if large else ""), partial(c04, n=n, nd=nd, large=large), "%d walkers, %dD" % (n, nd), tier="thorough", weight=n)
for n, nd, tier in [(12, 1, "quick"), (9, 2, "quick"), (40, 1, "thorough"), (20, 3, "thorough")]:
    for large in (False, True):
        add("C04", "%dw%dd%s" % (n, nd, "-large" if large else ""), partial(c04, n=n, nd=nd, large=large), "%d walkers, %dD, two reorderings" % (n, nd), weight=n, trials=10, tier=tier)
meta("C04", assumptions=["the branch for more than 10000 walkers is explored with the stated small number of walkers by letting the comparison of the population size with constants above 60 see 20000"])


# ---------------------------------------------------------------- C03
def c03(env, n, nd):
    ps = walkers(env, n, nd)
    bd, par = make_bd(env, ps, 1 + env.choose("stride", 2), nd, bool(env.choose("recalc", 2)))
    pos = [env.tolist(p.pos) for p in ps]
    ene = [p.energy for p in ps]
    got = env.tolist(bd.calc_betas())
    ref = excess(env, pos, ene, par["kt"], par["bw"])
    env.check_arr(got, ref, "excess of the walkers")
    env.check_eq(sum(got[1:], got[0]), 0, "excesses sum to zero")
    for i, p in enumerate(ps):
        env.check_arr(p.pos, pos[i], "positions are not changed")
        env.check_eq(p.energy, ene[i], "energies are not changed")
    # again after the walkers moved: nothing is remembered
    for i, p in enumerate(ps):
        p.pos = env.arr([env.real("y%d_%d" % (i, d), hint=(-1.5, 1.5)) for d in range(nd)])
        p.energy = env.real("g%d" % i)
    got = env.tolist(bd.calc_betas())
    ref = excess(env, [env.tolist(p.pos) for p in ps], [p.energy for p in ps], par["kt"], par["bw"])
    env.check_arr(got, ref, "excess after the walkers moved")


def smoothed(env, dens, npts, step, bw, kpts):
    """density smoothed by the kernel cut at five bandwidths (step = 10*bw/(kpts-1)), on the same points"""
    nd = len(npts)
    ker = {}
    for j in itertools.product(*[range(k) for k in kpts]):
        q, h = 0, 1
        for d in range(nd):
            u = (2 * j[d] - (kpts[d] - 1)) * step[d] / 2
            q = q + u * u / (2 * bw[d] * bw[d])
            h = h * (env.sqrt(2 * env.pi) * bw[d])
        ker[j] = env.exp(-q) / h
    vol = 1
    for s in step:
        vol = vol * s
    out = {}
    for idx in itertools.product(*[range(m) for m in npts]):
        tot = 0
        for j in ker:
            k = tuple(idx[d] - (j[d] - (kpts[d] - 1) // 2) for d in range(nd))
            if all(0 <= k[d] < npts[d] for d in range(nd)):
                tot = tot + dens[k] * ker[j]
        out[idx] = tot * vol
    return out


def trapz(vals, npts, step):
    tot = 0
    for idx in itertools.product(*[range(m) for m in npts]):
        w = 1
        for d in range(len(npts)):
            w = w * step[d]
            if idx[d] in (0, npts[d] - 1):
                w = w / 2
        tot = tot + vals[idx] * w
    return tot


def eq_grid(env, npts, kpts):
    """equilibrium density with arbitrary positive values; spacing 10*bw/(kpts-1)"""
    G = env.mod("bdld.grid")
    nd = len(npts)
    bw = [env.real("bw%d" % d, pos=True, hint=(0.2, 1)) for d in range(nd)]
    lo = [env.real("lo%d" % d, hint=(-2, 0)) for d in range(nd)]
    step = [10 * bw[d] / (kpts[d] - 1) for d in range(nd)]
    ranges = [(lo[d], lo[d] + step[d] * (npts[d] - 1)) for d in range(nd)]
    g = G.from_npoints(ranges, list(npts))
    dens = {idx: env.real("pi" + "_".join(map(str, idx)), pos=True, hint=(0.1, 2)) for idx in itertools.product(*[range(m) for m in npts])}
    g.data = env.arr([dens[idx] for idx in sorted(dens)])
    if not env.sym:  # rounding must not add a kernel point
        import math
        for d in range(nd):
            if math.ceil(10 * bw[d] / g.stepsizes[d]) != kpts[d] - 1:
                raise Unmet("rounding")
    return g, dens, bw, step, ranges


def c03_approx(env, n, npts, kpts, variant, inside=True):
    M = env.mod("bdld.actions.birth_death")
    nd = len(npts)
    g, dens, bw, step, ranges = eq_grid(env, npts, kpts)
    B = env.mod("bdld.actions.bussi_parinello_ld")
    ps = []
    for i in range(n):
        p = B.BpldParticle([env.real("x%d_%d" % (i, d), hint=(-3, 3)) for d in range(nd)], None, 1.0)
        p.energy = env.real("e%d" % i)
        ps.append(p)
    pos = [env.tolist(p.pos) for p in ps]
    kt = env.real("kt", pos=True, hint=(0.5, 2))
    dt = env.real("dt", pos=True)
    bd = M.BirthDeath(ps, dt, 1, env.arr(bw), kt, None, False, getattr(M.ApproxVariant, variant), g, seed=1)
    got = env.tolist(bd.calc_betas())
    conv = smoothed(env, dens, npts, step, bw, kpts)
    idxs = sorted(dens)
    pts = [[ranges[d][0] + step[d] * idx[d] for d in range(nd)] for idx in idxs]
    rho = density(env, pos, bw)
    if variant == "mult":
        corr = [-env.log(conv[i]) for i in idxs]
    else:
        lg = {i: env.log(conv[i] / dens[i]) for i in idxs}
        integral = trapz({i: lg[i] * dens[i] for i in idxs}, npts, step)
        corr = [-lg[i] + integral for i in idxs]
    ip = flat(env.interp_linear(pts, corr, pos, 0.0))
    if variant == "mult":
        b = [env.log(rho[i]) + ip[i] for i in range(n)]
        m = sum(b[1:], b[0]) / n
        ref = [x - m for x in b]
    else:
        b = [env.log(rho[i]) + ps[i].energy / kt for i in range(n)]
        m = sum(b[1:], b[0]) / n
        ref = [b[i] - m + ip[i] for i in range(n)]
    env.check_arr(got, ref, "excess of the walkers (%s)" % variant)


def c03_thin(env, variant, npts, cells, inner=True):
    """grids beyond the size kept for the correction: a density whose correction is linear away from the ends, so
    that any thinning of the grid keeps its interpolated values (inner: between points, otherwise only on points
    kept by the thinning; the multiplicative variant thins before taking the logarithm)"""
    M = env.mod("bdld.actions.birth_death")
    G = env.mod("bdld.grid")
    B = env.mod("bdld.actions.bussi_parinello_ld")
    n = len(cells)
    bw, lo = env.real("bw", pos=True, hint=(0.2, 1)), env.real("lo", hint=(-2, 0))
    s, a = env.real("slope", hint=(-0.02, 0.02)), env.real("log_height", hint=(-1, 1))
    step = 5 * bw  # kernel of three points
    g = G.from_npoints([(lo, lo + step * (npts - 1))], [npts])
    dens = {(i,): env.exp(a + s * i) for i in range(npts)}
    g.data = env.arr([dens[i] for i in sorted(dens)])
    if not env.sym:
        import math
        if math.ceil(10 * bw / g.stepsizes[0]) != 2:
            raise Unmet("rounding")
    ps = []
    for k, c in enumerate(cells):
        p = B.BpldParticle([lo + step * (c + (env.real("t%d" % k, lo=0, hi=1, hint=(0, 1)) if inner else 0))], None, 1.0)
        p.energy = env.real("e%d" % k)
        ps.append(p)
    pos = [env.tolist(p.pos) for p in ps]
    kt = env.real("kt", pos=True, hint=(0.5, 2))
    bd = M.BirthDeath(ps, env.real("dt", pos=True), 1, env.arr([bw]), kt, None, False, getattr(M.ApproxVariant, variant), g, seed=1)
    got = env.tolist(bd.calc_betas())
    conv = smoothed(env, dens, (npts,), [step], [bw], (3,))
    rho = density(env, pos, [bw])
    mid = lambda f, k: f(cells[k]) + (pos[k][0] - lo - step * cells[k]) / step * (f(cells[k] + 1) - f(cells[k]))
    if variant == "mult":
        ip = [mid(lambda i: -env.log(conv[(i,)]), k) for k in range(n)]
        b = [env.log(rho[k]) + ip[k] for k in range(n)]
    else:
        lg = {i: env.log(conv[i] / dens[i]) for i in dens}
        integral = trapz({i: lg[i] * dens[i] for i in dens}, (npts,), [step])
        ip = [mid(lambda i: -lg[(i,)], k) + integral for k in range(n)]
        b = [env.log(rho[k]) + ps[k].energy / kt for k in range(n)]
    m = sum(b[1:], b[0]) / n
    ref = [b[k] - m + (ip[k] if variant == "add" else 0) for k in range(n)]
    env.check_arr(got, ref, "excess of the walkers (%s)" % variant)


def flat(x):
    return [z for y in x for z in flat(y)] if isinstance(x, list) else [x]


for n, nd in [(1, 1), (2, 1), (3, 1), (4, 1), (2, 2), (3, 2), (2, 3), (9, 1), (6, 2)]:
    add("C03", "orig-%dw%dd" % (n, nd), partial(c03, n=n, nd=nd), "%d walkers, %dD, all positions, energies, kT, bandwidths" % (n, nd), weight=n)
for variant in ("add", "mult"):
    for n, npts, kpts in [(2, (3,), (3,)), (2, (4,), (3,)), (3, (3,), (3,)), (2, (5,), (5,)), (2, (3, 3), (3, 3))]:
        add("C03", "%s-%dw-%s-k%s" % (variant, n, "x".join(map(str, npts)), "x".join(map(str, kpts))), partial(c03_approx, n=n, npts=npts, kpts=kpts, variant=variant),
            "%d walkers anywhere, equilibrium density on %s points with arbitrary values, kernel of %s points" % (n, npts, kpts), weight=4 * len(npts))
    for npts in (101, 103, 205) if variant == "add" else (101, 201):
        add("C03", "%s-thin%d" % (variant, npts), partial(c03_thin, variant=variant, npts=npts, cells=[4, npts // 2 // 2 * 2], inner=variant == "add" or npts == 101), "two walkers on a grid of %d points, exponential density of any height, slope and bandwidth" % npts, weight=4, trials=10)
meta("C03", assumptions=["scipy.interpolate.griddata: exact piecewise-linear model in 1D; in 2D and above exact at nodes, fill value outside the box, otherwise an arbitrary function of grid, values and position"])


# ---------------------------------------------------------------- C05
def c05(env, recalc, combos, n=2, file=True):
    stride, sstride, nsteps = combos[env.choose("combo", len(combos))]
    ps = walkers(env, n, 1)
    bd, par = make_bd(env, ps, stride, 1, recalc, stats_stride=sstride, stats_filename="stats" if file else None)
    said = 0 if file else len(env.printed())
    cum = [0, 0, 0, 0]  # dup_succ dup_att kill_succ kill_att
    rows = []
    for step in range(1, nsteps + 1):
        mark = len(env.rng_of(bd).log)
        sn = snaps(env, ps)
        bd.run(step)
        new = env.rng_of(bd).log[mark:]
        if step % stride:
            env.check(not new, "no birth-death between the strides (step %d, stride %d)" % (step, stride))
            for i in range(n):
                same_walker(env, snap(env, ps[i]), sn[i], "walker %d untouched between strides" % i)
        else:
            u = [v for k, v in new if k == "u"]
            env.check(len(u) >= n, "birth-death is attempted at step %d with stride %d" % (step, stride))
            sh = [v for k, v in new if k == "s"]
            try:
                order = [int(x) for x in sh[-1]] if sh else None
            except Exception:
                order = None
            ints = [int(v) for k, v in new if k == "i"]
            o = Oracle(env, sn, par, recalc)
            ev = simulate(o, u, order, ints)
            if ev is None:
                return
            cum = [a + b for a, b in zip(cum, (o.dups, o.datt, o.kills, o.katt))]
            env.check(cum[0] <= cum[1] and cum[2] <= cum[3], "successes do not exceed attempts")
        if sstride and step % sstride == 0:
            rows.append([step] + cum)
    bd.final_run(nsteps)
    if not sstride:
        rows.append([nsteps] + cum)
    if file:
        head, got = env.table("stats")
        env.check(len(got) == len(rows), "statistics rows: %d instead of %d (stride %s stats-stride %s steps %d)" % (len(got), len(rows), stride, sstride, nsteps))
        for g, r in zip(got, rows):
            env.check_arr(g, r, "statistics row of step %d" % r[0])
    else:
        import re
        txt = env.printed()[said:]
        pr = [[int(x) for x in m] for m in re.findall(r"After (\d+) time steps:\s*Birth events: (\d+)/(\d+) \(.*\)\s*Death events: (\d+)/(\d+)", txt)]
        env.check(pr == rows, "printed statistics %s instead of %s" % (pr, rows))


def simulate(o, rand, order, ints):
    """outcome of one step for two walkers (partner is always the other one); None: undetermined"""
    env, n = o.env, 2
    b = o.betas()
    if not o.recalc:
        s = [o.sign(x) for x in b]
        acc = [o.accepted(b[i], s[i], rand[i]) for i in range(n)]
        if None in acc:
            return None
        o.katt, o.datt = s.count(1), s.count(-1)
        A = [i for i in range(n) if acc[i]]
        if len(A) > 1 and (order is None or sorted(order) != A):
            return None
        killed = set()
        for i in (order if len(A) > 1 else A):
            if i in killed:
                continue
            if s[i] > 0:
                o.kills += 1
                killed.add(i)
            else:
                o.dups += 1
                killed.add(1 - i)
        return True
    if order is None or sorted(order) != list(range(n)):
        return None
    for i in order:
        s = o.sign(b[i])
        o.katt += s > 0
        o.datt += s < 0
        acc = o.accepted(b[i], s, rand[i])
        if acc is None:
            return None
        if acc:
            if s > 0:
                o.kills += 1
                o.tags[i] = o.tags[1 - i]
            else:
                o.dups += 1
                o.tags[1 - i] = o.tags[i]
            b = o.betas()
    return True


C05Q = [(1, None, 2), (1, 1, 2), (1, 2, 2), (2, 1, 3), (2, None, 3), (2, 3, 4), (3, 2, 5), (3, None, 2), (2, 2, 4), (4, 3, 6)]
for rc in (False, True):
    nm = "recalc" if rc else "bulk"
    for j in range(0, len(C05Q), 2):
        add("C05", "%s-%d" % (nm, j // 2), partial(c05, recalc=rc, combos=C05Q[j:j + 2]), "2 walkers, (stride, stats-stride, steps) in %s, all draws" % (C05Q[j:j + 2],), weight=3)
    add("C05", "%s-screen" % nm, partial(c05, recalc=rc, combos=[(1, None, 1), (1, 1, 1), (2, 3, 3)], file=False), "statistics on the screen", weight=2)
    add("C05", "one-%s" % nm, partial(c05, recalc=rc, combos=[(1, None, 1)]), "2 walkers, one step", weight=2)
    add("C05", "one-%s-screen" % nm, partial(c05, recalc=rc, combos=[(1, None, 1)], file=False), "2 walkers, one step, statistics on the screen", weight=2)
    add("C05", "%s-long" % nm, partial(c05, recalc=rc, combos=[(1, 2, 3), (1, None, 3), (2, 3, 7)]), "2 walkers, three birth-death steps", tier="thorough", weight=8, shards=4)


def c05_any(env, recalc):
    """any step number, any strides"""
    stride = 1 + env.choose("stride", 7)
    sstride = [None, 1, 2, 3, 5][env.choose("stats", 5)]
    M = env.mod("bdld.actions.birth_death")
    B = env.mod("bdld.actions.bussi_parinello_ld")
    x = env.real("x", hint=(-1, 1))
    ps = []
    for i in range(2):
        p = B.BpldParticle([x], None, 1.0)
        p.energy = x
        ps.append(p)
    dt = env.real("dt", pos=True, hint=(0.05, 1.5))
    bd = M.BirthDeath(ps, dt, stride, env.arr([env.real("bw", pos=True, hint=(0.2, 1))]), 1.0, None, recalc, seed=3, stats_stride=sstride, stats_filename="stats")
    due = rows = 0
    for k in range(2):
        step = env.integer("step%d" % k, lo=1, hint=(1, 60))
        mark = len(env.rng_of(bd).log)
        bd.run(step)
        new = [v for kk, v in env.rng_of(bd).log[mark:] if kk == "u"]
        if env.decide(step % stride == 0):
            due += 1
            env.check(len(new) >= 2, "birth-death is attempted at every multiple of the stride")
        else:
            env.check(not new, "no birth-death between the strides")
        if sstride is not None and env.decide(step % sstride == 0):
            rows += 1
            last = step
        head, got = env.table("stats")
        env.check(len(got) == rows, "statistics rows: %d instead of %d" % (len(got), rows))
        if rows:
            env.check_eq(got[-1][0], last, "step number of the statistics")
    bd.final_run(step)
    head, got = env.table("stats")
    env.check(len(got) == (rows if sstride is not None else 1), "statistics rows at the end: %d" % len(got))


for rc in (False, True):
    add("C05", "any-%s" % ("recalc" if rc else "bulk"), partial(c05_any, recalc=rc), "stride 1-7, statistics stride 1, 2, 3, 5 or none, any step numbers (symbolic integers), two walkers without excess", weight=2)
