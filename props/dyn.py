"""Dynamics: C06 independence of walkers, C07 Langevin step, C08 overdamped step, C09 energies and forces."""
import itertools
from functools import partial

from sx.harness import add, meta
from props.pot import BCS, bc_oracle, coeff_array, free_potential, make_ld, set_bc, sym_ranges


class Setup:
    """integrator with arbitrary potential and parameters"""

    def __init__(self, env, kind, nd, bc="none", friction=None, pot=None):
        self.env, self.kind, self.nd, self.bc = env, kind, nd, bc
        self.r = sym_ranges(env, nd) if bc != "none" else [(env.const(-1), env.const(1))] * nd
        self.pot = free_potential(env, nd, self.r) if pot is None else pot(env, nd, self.r)
        set_bc(env, self.pot, bc)
        self.dt = env.real("dt", pos=True, hint=(0.02, 0.6))
        self.kt = env.real("kt", pos=True, hint=(0.3, 2))
        self.fr = env.real("friction", nonneg=True, hint=(0, 3)) if friction is None else env.const(friction)
        self.ld = make_ld(env, kind, self.pot, self.dt, self.fr, self.kt, 11)
        self.mass = []

    def add(self, i, setmom=True, x=None, mass=True):
        env = self.env
        x = x if x is not None else [env.real("x%d_%d" % (i, d), hint=(-2, 2)) for d in range(self.nd)]
        m = env.real("mass%d" % i, pos=True, hint=(0.3, 3)) if mass else 1.0
        self.mass.append(m)
        if mass:
            self.ld.add_particle(x, m)
        else:
            self.ld.add_particle(x)
        p = self.ld.particles[-1]
        if setmom:
            p.mom = env.arr([env.real("m%d_%d" % (i, d)) for d in range(self.nd)])
        return p

    def states(self):
        t = self.env.tolist
        return [dict(pos=t(p.pos), mom=t(p.mom), mass=p.mass) for p in self.ld.particles]

    def draws(self, mark):
        return [v for k, v in self.env.rng_of(self.ld).log[mark:] if k == "n"]

    def assignments(self, R, n):
        """ways the numbers can have been handed out: walker by walker or phase by phase"""
        nd, ph = self.nd, 2 if self.kind == "bpld" else 1
        yield [[R[(i * ph + k) * nd:(i * ph + k + 1) * nd] for k in range(ph)] for i in range(n)]
        if ph == 2 and n > 1:
            yield [[R[(k * n + i) * nd:(k * n + i + 1) * nd] for k in range(ph)] for i in range(n)]

    def expected(self, st, R):
        env, nd, dt = self.env, self.nd, self.dt
        x, p, m = st["pos"], st["mom"], st["mass"]
        f = env.tolist(self.pot.force(x))
        if self.kind == "bpld":
            c1 = env.exp(-self.fr * dt / 2)
            c2 = env.sqrt((1 - c1 * c1) * m * self.kt)
            p = [c1 * p[d] + c2 * R[0][d] + f[d] * dt / 2 for d in range(nd)]
            x = [x[d] + p[d] / m * dt for d in range(nd)]
        else:
            x = [x[d] + dt * f[d] + env.sqrt(2 * dt) * R[0][d] for d in range(nd)]
        bx, bp = [], []
        for d in range(nd):
            r = bc_oracle(env, self.bc, x[d], p[d], self.r[d])
            if r is None:
                return None
            bx.append(r[0])
            bp.append(r[1])
        if self.kind == "bpld":
            f2 = env.tolist(self.pot.force(bx))
            bp = [c1 * (bp[d] + f2[d] * dt / 2) + c2 * R[1][d] for d in range(nd)]
        return dict(pos=bx, mom=bp, mass=m)

    def same(self, got, want):
        e = self.env
        for k in ("pos", "mom") if self.kind == "bpld" else ("pos",):
            for a, b in zip(got[k], want[k]):
                if not (e.identical(a, b) if e.sym else abs(a - b) < 1e-7 * (1 + abs(b))):
                    return False
        return True

    def step_and_check(self, what="", step=1):
        env, ld = self.env, self.ld
        before = self.states()
        n = len(before)
        mark = len(env.rng_of(ld).log)
        ld.run(step)
        R = self.draws(mark)
        need = n * self.nd * (2 if self.kind == "bpld" else 1)
        env.check(len(ld.particles) == n, "number of walkers after a step")
        if len(R) < need and self.kind == "bpld" and env.decide(self.fr == 0):
            R = R + [env.const(0)] * (need - len(R))  # no noise without friction: nothing has to be drawn
        env.check(len(R) >= need, "every walker gets its own random numbers (%d drawn, %d needed)" % (len(R), need))
        got = self.states()
        first = None
        exp = None
        for asg in self.assignments(R, n):
            exp = []
            for i in range(n):
                e = self.expected(before[i], asg[i])
                if e is None:
                    return False
                exp.append(e)
            first = first or exp
            if all(self.same(got[i], exp[i]) for i in range(n)):
                break
        else:
            exp = first
        for i in range(n):
            env.check_arr(got[i]["pos"], exp[i]["pos"], what + "position of walker %d after the step" % i)
            if self.kind == "bpld":
                env.check_arr(got[i]["mom"], exp[i]["mom"], what + "momentum of walker %d after the step" % i)
            env.check_eq(got[i]["mass"], exp[i]["mass"], "mass of walker %d" % i)
        return True

    def check_energies(self, what):
        env = self.env
        for i, p in enumerate(self.ld.particles):
            x = env.tolist(p.pos)
            env.check_eq(p.energy, self.pot.energy(x), "%s: energy of walker %d belongs to its position" % (what, i))
            env.check_arr(p.forces, env.tolist(self.pot.force(x)), "%s: forces on walker %d belong to its position" % (what, i))


# ---------------------------------------------------------------- C07 / C08
def step_formula(env, kind, nd, n, bc, steps):
    s = Setup(env, kind, nd, bc)
    for i in range(n):
        s.add(i)
    for k in range(steps):
        if not s.step_and_check("step %d: " % (k + 1), k + 1):
            return


def c07_fresh(env, nd):
    """walkers as created: zero momentum, thermostat constants for their mass"""
    s = Setup(env, "bpld", nd)
    s.add(0, setmom=False)
    s.add(1, setmom=False, mass=False)
    for p in s.ld.particles:
        env.check_arr(p.mom, [0] * nd, "momentum of a new walker")
    s.step_and_check()


def c07_maxwell(env):
    """kinetic energy: thermostat maps variance m kT to m kT"""
    s = Setup(env, "bpld", 1)
    p = s.add(0)
    m0 = p.mom[0]
    # zero forces leave only the two thermostat parts
    zero(env, s.pot)
    p.forces = env.arr([env.const(0)])
    mark = len(env.rng_of(s.ld).log)
    s.ld.run(1)
    R = s.draws(mark)
    # momentum is linear in m0 and the noise; squares of the coefficients with variances m kT, 1, 1
    if env.sym:
        from sx import core
        a = core.diff(p.mom[0], "m0_0")
        b = [core.diff(p.mom[0], "rng0.n%d" % (k + 1)) for k in range(len(R))]
    else:
        a, b = probe(env, s)
    var = a * a * s.mass[0] * s.kt
    for c in b:
        var = var + c * c
    env.check_eq(var, s.mass[0] * s.kt, "variance of the momentum stays m kT")


def zero(env, pot):
    z = env.const(0)
    pot.force = lambda pos: env.arr([z])
    pot.energy = lambda pos: z
    pot.evaluate = lambda pos: (z, env.arr([z]))


def probe(env, s):
    """coefficients by running with unit inputs"""
    out = []
    for k in range(3):
        p = s.ld.particles[0]
        p.mom = env.arr([1.0 if k == 0 else 0.0])
        p.forces = env.arr([0.0])
        env.rng_of(s.ld).script(n=[1.0 if j == k else 0.0 for j in (1, 2)])
        s.ld.run(1)
        out.append(float(p.mom[0]))
    return out[0], out[1:]


def c07_reverse(env, nd, steps):
    s = Setup(env, "bpld", nd, friction=0)
    p = s.add(0)
    x, m = env.tolist(p.pos), env.tolist(p.mom)
    for _ in range(steps):
        s.ld.run(1)
    p.mom = -p.mom
    for _ in range(steps):
        s.ld.run(1)
    env.check_arr(p.pos, x, "without friction the step is reversible: position")
    env.check_arr(p.mom, [-v for v in m], "without friction the step is reversible: momentum")


for kind, P in (("bpld", "C07"), ("od", "C08")):
    for nd, n, bc, steps, tier in [(1, 1, "none", 1, "quick"), (1, 1, "reflective", 1, "quick"), (1, 1, "periodic", 1, "quick"), (1, 2, "none", 1, "quick"),
                                   (1, 2, "reflective", 1, "quick"), (2, 1, "none", 1, "quick"), (2, 1, "reflective", 1, "quick"), (2, 1, "periodic", 1, "quick"),
                                   (2, 2, "none", 1, "quick"), (3, 1, "none", 1, "quick"), (3, 1, "reflective", 1, "quick"), (1, 1, "none", 2, "quick"), (1, 1, "reflective", 2, "quick"),
                                   (1, 3, "none", 2, "quick"), (2, 2, "none", 2, "quick"), (1, 11, "none", 1, "quick"), (2, 6, "none", 1, "quick"),
                                   (3, 2, "none", 1, "thorough"), (2, 2, "reflective", 1, "thorough"), (1, 2, "periodic", 2, "thorough"), (3, 1, "periodic", 1, "thorough"),
                                   (1, 1, "none", 4, "thorough")]:
        add(P, "%dd-%dw-%s-%dstep" % (nd, n, bc, steps), partial(step_formula, kind=kind, nd=nd, n=n, bc=bc, steps=steps),
            "%d walker(s), %dD, %d step(s), arbitrary potential, all parameters and noise, boundary: %s" % (n, nd, steps, bc), weight=nd * n, tier=tier)
for nd in (1, 2):
    add("C07", "new-%dd" % nd, partial(c07_fresh, nd=nd), "first step of two new walkers (mass given and default), %dD" % nd)
add("C07", "maxwell", c07_maxwell, "free walker, any mass, kT, friction, dt")
for nd, steps in [(1, 1), (1, 2), (2, 1), (3, 1)]:
    add("C07", "reverse-%dd-%d" % (nd, steps), partial(c07_reverse, nd=nd, steps=steps), "no friction, %d step(s) forth and back, arbitrary force, %dD" % (steps, nd))


# ---------------------------------------------------------------- birth-death on the walkers of an integrator
def make_bd(env, s, recalc=False):
    M = env.mod("bdld.actions.birth_death")
    bw = [env.real("bw%d" % d, pos=True, hint=(0.3, 1)) for d in range(s.nd)]
    return M.BirthDeath(s.ld.particles, s.dt, 1, env.arr(bw), s.kt, None, recalc, seed=5)


def events(env, name, n):
    ev = []
    for k in range(1 + env.choose(name + ".n", 2)):
        i = env.choose("%s.dup%d" % (name, k), n)
        j = env.choose("%s.kill%d" % (name, k), n - 1)
        ev.append((i, j if j < i else j + 1))
    return ev


def poly_pot(env, nd, ranges):
    c = coeff_array(env, (3,) if nd == 1 else (2,) * nd)
    return env.mod("bdld.potential.polynomial").PolynomialPotential(env.arr(c), ranges)


def mb_pot(env, nd, ranges):
    pot = env.mod("bdld.potential.mueller_brown").MuellerBrownPotential(env.real("scale", pos=True, hint=(0.01, 0.1)))
    pot.ranges = ranges
    return pot


def c06(env, kind, nd, n, bc, seq, full=False, same_start=True, pot=None):
    s = Setup(env, kind, nd, bc, pot=pot)
    x0 = env.arr([env.real("x%d" % d, hint=(-2, 2)) for d in range(nd)])
    keep = env.tolist(x0)
    for i in range(n):
        s.add(i, x=x0 if same_start else None, setmom=not same_start, mass=not same_start)
    bd = make_bd(env, s, full == "recalc")
    for k, op in enumerate(seq):
        if op == "run":
            if not s.step_and_check("op %d: " % k, k + 1):
                return
            env.check_arr(x0, keep, "initial position given by the user is not changed")
        elif full:
            bd.run(k + 1)
        else:
            bd.perform_moves(events(env, "ev%d" % k, n))
        # nothing is shared: in-place changes of one walker do not show in another
    touch = env.choose("touch", n)
    sn = [(env.tolist(p.pos), env.tolist(p.mom), env.tolist(p.forces), p.energy) for p in s.ld.particles]
    p = s.ld.particles[touch]
    p.pos += 1.5
    p.mom += 2.5
    p.forces += 3.5
    p.energy = p.energy + 1
    for i, q in enumerate(s.ld.particles):
        if i != touch:
            env.check_arr(q.pos, sn[i][0], "position of walker %d unaffected by walker %d" % (i, touch))
            env.check_arr(q.mom, sn[i][1], "momentum of walker %d unaffected by walker %d" % (i, touch))
            env.check_arr(q.forces, sn[i][2], "forces of walker %d unaffected by walker %d" % (i, touch))
            env.check_eq(q.energy, sn[i][3], "energy of walker %d unaffected by walker %d" % (i, touch))
    env.check_arr(x0, keep, "initial position given by the user is not changed")


for kind in ("bpld", "od"):
    for nd, n, bc, seq, tier in [
        (1, 2, "none", ("run", "run"), "quick"), (1, 3, "none", ("bd", "run"), "quick"), (2, 2, "none", ("bd", "run"), "quick"), (1, 2, "reflective", ("bd", "run"), "quick"),
        (1, 2, "periodic", ("bd", "run"), "quick"), (1, 2, "none", ("run", "bd", "run", "bd", "run"), "quick"), (1, 3, "none", ("bd", "run", "bd", "run"), "thorough"), (2, 3, "none", ("run", "bd", "run"), "thorough"),
        (1, 2, "reflective", ("bd", "run", "bd", "run"), "thorough"), (3, 2, "none", ("bd", "run"), "thorough")]:
        add("C06", "%s-%dd-%dw-%s-%s" % (kind, nd, n, bc, "-".join(seq)), partial(c06, kind=kind, nd=nd, n=n, bc=bc, seq=seq),
            "%d walkers from one initial array, %dD, sequence %s with every list of one or two events" % (n, nd, seq), tier=tier, weight=n + len(seq), shards=2 if n == 3 and tier == "quick" else 1)
    add("C06", "%s-distinct" % kind, partial(c06, kind=kind, nd=1, n=3, bc="none", seq=("bd", "run"), same_start=False), "3 different walkers", weight=5)
    for rc in ("bulk", "recalc"):
        add("C06", "%s-full-%s" % (kind, rc), partial(c06, kind=kind, nd=1, n=2, bc="none", seq=("bd", "run", "run"), full=rc, same_start=False),
            "2 walkers, complete birth-death step (all draws) then two steps", weight=5)


for kind in ("bpld", "od"):
    for nm, pot, nd, n, tier in [("poly1d", poly_pot, 1, 2, "quick"), ("poly2d", poly_pot, 2, 2, "quick"), ("poly3d", poly_pot, 3, 2, "thorough"), ("mb", mb_pot, 2, 2, "quick")]:
        add("C06", "%s-%s" % (kind, nm), partial(c06, kind=kind, nd=nd, n=n, bc="none", seq=("run",) if nm == "mb" else ("run", "bd", "run"), same_start=False, pot=pot),
            "%d different walkers in the %s potential with any parameters" % (n, nm), weight=4, tier=tier)


# ---------------------------------------------------------------- C09
def c09(env, kind, nd, bc, length, pot=None):
    s = Setup(env, kind, nd, bc, pot=pot)
    k = 0

    def newpos(tag):
        return [env.real("x%s_%d" % (tag, d), hint=(-2, 2)) for d in range(nd)]

    for i in range(2):
        s.ld.add_particle(newpos("i%d" % i), env.real("mass%d" % i, pos=True))
        s.check_energies("after adding walker %d" % i)
    bd = make_bd(env, s)
    ops = ["add", "insert", "overwrite", "remove", "run", "bd", "wrong"]
    for t in range(length):
        op = ops[env.choose("op%d" % t, len(ops))]
        ps = s.ld.particles
        env.check(bd.particles is ps, "birth-death and integrator use the same list")
        n = len(ps)
        old = list(ps)
        oldv = [(env.tolist(p.pos), env.tolist(p.mom)) for p in old]
        if op == "run":
            if n > 2:
                env.assume(False)
            s.ld.run(t + 1)
        elif op == "bd":
            if n < 2 or n > 3:
                env.assume(False)
            i = env.choose("dup%d" % t, n)
            j = env.choose("kill%d" % t, n - 1)
            j = j if j < i else j + 1
            bd.perform_moves([(i, j)])
            for q in range(n):
                src = i if q == j else q
                env.check_arr(ps[q].pos, oldv[src][0], "bd: position in slot %d" % q)
        elif op == "wrong":
            wrong = newpos("w%d" % t) + [env.const(1)] if env.choose("longer%d" % t, 2) else newpos("w%d" % t)[:-1]
            ow = env.choose("ow%d" % t, 2) and n
            e = env.raises(lambda: s.ld.add_particle(wrong, 1.0, 0 if ow else -1, bool(ow)), ValueError, TypeError, IndexError)
            env.check(e is not None, "wrong dimension is rejected")
            env.check(len(ps) == n and all(a is b for a, b in zip(ps, old)), "population unchanged after rejected walker")
        else:
            x = newpos("o%d" % t)
            m = env.real("massn%d" % t, pos=True)
            if op == "add":
                s.ld.add_particle(x, m)
                want = old + [None]
            elif op == "remove":
                if n == 0:
                    env.assume(False)
                j = env.choose("slot%d" % t, 2 * n) - n  # also counted from the end
                s.ld.remove_particle(j)
                want = list(old)
                del want[j]
            elif op == "overwrite":
                j = env.choose("slot%d" % t, 2 * n) - n if n else env.assume(False)
                s.ld.add_particle(x, m, j, True)
                want = list(old)
                want[j] = None
            else:
                j = env.choose("slot%d" % t, 2 * n + 1) - n if n else env.assume(False)
                s.ld.add_particle(x, m, j)
                want = list(old)
                want.insert(j if j != -1 else n, None)
            env.check(len(ps) == len(want), "%s: number of walkers" % op)
            for q, w in enumerate(want):
                if w is None:
                    env.check_arr(ps[q].pos, x, "%s: position of the new walker" % op)
                    env.check_arr(ps[q].mom, [0] * nd, "%s: momentum of the new walker" % op)
                    env.check_eq(ps[q].mass, m, "%s: mass of the new walker" % op)
                else:
                    env.check_arr(ps[q].pos, oldv[old.index(w)][0], "%s: other slots keep their walker" % op)
        s.check_energies("after %s" % op)


def c09_bd(env, kind, recalc, nd=1):
    """complete birth-death step between integrator steps"""
    s = Setup(env, kind, nd, "none")
    for i in range(2):
        s.add(i)
    bd = make_bd(env, s, recalc)
    s.ld.run(1)
    s.check_energies("after step 1")
    bd.run(1)
    s.check_energies("after birth-death")
    s.ld.run(2)
    s.check_energies("after step 2")
    bd.run(2)
    s.check_energies("after birth-death 2")


for kind in ("bpld", "od"):
    for nd, bc, length, tier in [(1, "none", 2, "quick"), (2, "none", 2, "quick"), (1, "reflective", 2, "quick"), (1, "periodic", 2, "quick"), (2, "reflective", 1, "quick"), (2, "periodic", 1, "quick"),
                                 (3, "reflective", 1, "quick"), (1, "none", 3, "thorough"), (3, "none", 2, "thorough")]:
        add("C09", "%s-%dd-%s-%dops" % (kind, nd, bc, length), partial(c09, kind=kind, nd=nd, bc=bc, length=length),
            "2 walkers, every sequence of %d operations (add, insert, overwrite, remove, step, birth-death event, rejected add), %dD" % (length, nd), tier=tier, weight=length * nd,
            shards=6 if length == 3 else 1)
    add("C09", "%s-poly2d" % kind, partial(c09, kind=kind, nd=2, bc="none", length=1, pot=poly_pot), "2 walkers in a polynomial potential, every operation", weight=2)
    add("C09", "%s-mb" % kind, partial(c09, kind=kind, nd=2, bc="none", length=1, pot=mb_pot), "2 walkers in the Mueller-Brown potential, every operation", weight=2)
    for rc in (False, True):
        add("C09", "%s-bd-%s" % (kind, "recalc" if rc else "bulk"), partial(c09_bd, kind=kind, recalc=rc), "2 walkers, step / birth-death / step / birth-death with all draws", weight=3)
