"""Potentials: C10 boundary conditions, C11 polynomial, C12 Mueller-Brown, C22 equilibrium density,
C30 coefficient files."""
import itertools
from functools import partial

from sx.harness import add


# ---------------------------------------------------------------- C11
def coeff_array(env, shape, name="c"):
    def rec(idx, sh):
        if not sh:
            return env.real("%s%s" % (name, "_".join(map(str, idx))))
        return [rec(idx + (i,), sh[1:]) for i in range(sh[0])]

    return rec((), shape)


def poly_energy(c, shape, x):
    tot = 0
    for idx in itertools.product(*[range(s) for s in shape]):
        v = c
        for i in idx:
            v = v[i]
        for d, i in enumerate(idx):
            for _ in range(i):
                v = v * x[d]
        tot = tot + v
    return tot


def reshape(it, shape):
    return next(it) if not shape else [reshape(it, shape[1:]) for _ in range(shape[0])]


def c11(env, shape):
    P = env.mod("bdld.potential.polynomial")
    c = coeff_array(env, shape)
    nd = len(shape)
    x = [env.real("x%d" % d) for d in range(nd)]
    pot = P.PolynomialPotential(env.arr(c))
    env.check_eq(pot.n_dim, nd, "dimension")
    e = pot.energy(env.arr(x))
    ref = poly_energy(c, shape, x)
    env.check_eq(e, ref, "energy is the sum of coefficients times powers")
    g = env.grad(lambda xs: poly_energy(c, shape, xs), ["x%d" % d for d in range(nd)], x)
    f = pot.force(env.arr(x))
    env.check_arr(f, [-v for v in g], "force is minus the gradient")
    e2, f2 = pot.evaluate(env.arr(x))
    env.check_eq(e2, ref, "evaluate: energy")
    env.check_arr(f2, env.tolist(f), "evaluate: force")
    # a second position with the same object: nothing is remembered
    y = [env.real("y%d" % d) for d in range(nd)]
    e3, f3 = pot.evaluate(env.arr(y))
    env.check_eq(e3, poly_energy(c, shape, y), "evaluate at a second position: energy")
    gy = env.grad(lambda xs: poly_energy(c, shape, xs), ["y%d" % d for d in range(nd)], y)
    env.check_arr(f3, [-v for v in gy], "evaluate at a second position: force")
    env.check_arr(f, [-v for v in g], "force returned earlier is not changed by later evaluations")
    env.check_arr(f2, [-v for v in g], "force of evaluate returned earlier is not changed by later evaluations")
    env.check_eq(pot.energy(env.arr(x)), ref, "energy evaluated again")
    # other potentials with the same shape (and sum) of coefficients
    flat = []

    def unroll(v):
        for w in v if isinstance(v, list) else []:
            flat.append(w) if not isinstance(w, list) else unroll(w)

    unroll(c)
    it = iter(flat[1:] + flat[:1])
    c2 = reshape(it, shape)
    pot2 = P.PolynomialPotential(env.arr(c2))
    env.check_eq(pot2.energy(env.arr(y)), poly_energy(c2, shape, y), "energy of a second potential")
    gy = env.grad(lambda xs: poly_energy(c2, shape, xs), ["y%d" % d for d in range(nd)], y)
    env.check_arr(pot2.force(env.arr(y)), [-v for v in gy], "force of a second potential")
    env.check_arr(pot.force(env.arr(x)), [-v for v in g], "force of the first potential after using the second")
    # positions may also be given as list
    env.check_eq(pot.energy(x), ref, "energy of a list position")
    env.check_arr(pot.force(x), env.tolist(f), "force of a list position")


def c11_4d(env):
    P = env.mod("bdld.potential.polynomial")
    c = coeff_array(env, (2, 2, 1, 2))
    e = env.raises(lambda: P.PolynomialPotential(env.arr(c)), NotImplementedError, ValueError)
    env.check(e is not None, "more than three dimensions are rejected")


for sh in [(1,), (2,), (5,), (9,), (12,), (1, 1), (2, 1), (3, 3), (2, 4), (1, 3), (5, 5), (2, 2, 2), (3, 2, 2), (1, 2, 3), (3, 3, 3), (2, 5, 3)]:
    add("C11", "poly" + "x".join(map(str, sh)), partial(c11, shape=sh),
        "coefficient array of shape %s, all coefficients and two positions symbolic reals" % (sh,))
for sh in [(20,), (8, 8), (7, 3), (4, 4, 4), (5, 4, 6)]:
    add("C11", "poly" + "x".join(map(str, sh)), partial(c11, shape=sh),
        "coefficient array of shape %s, all coefficients and two positions symbolic reals" % (sh,), tier="thorough")
add("C11", "4d", c11_4d, "one 4-dimensional coefficient array")


# ---------------------------------------------------------------- shared: arbitrary potential
def free_potential(env, nd, ranges=None, tag="U"):
    """potential with arbitrary energy and forces"""
    M = env.mod("bdld.potential.potential")

    class Free(M.Potential):
        def __init__(self):
            super().__init__()
            self.n_dim = nd
            self.ranges = ranges or []
            self.calls = 0

        def __str__(self):
            return "free"

        def energy(self, pos):
            return env.uf(tag + ".e", list(pos))

        def force(self, pos):
            return env.arr([env.uf("%s.f%d" % (tag, d), list(pos)) for d in range(nd)])

    return Free()


BCS = ["none", "reflective", "periodic"]


def sym_ranges(env, nd):
    out = []
    for d in range(nd):
        lo = env.real("lo%d" % d, hint=(-2, 0))
        w = env.real("w%d" % d, pos=True, hint=(0.3, 3))
        out.append((lo, lo + w))
    return out


def set_bc(env, pot, bc):
    B = env.mod("bdld.potential.potential").BoundaryCondition
    pot.boundary_condition = None if bc == "none" else B[bc]


# ---------------------------------------------------------------- C10
def bc_oracle(env, bc, x, m, r):
    """expected (position, momentum) in one dimension; None when the statement says nothing"""
    lo, hi = r
    if bc == "none":
        return x, m
    if bc == "reflective":
        if env.decide(x < lo):
            return lo, -m
        if env.decide(x > hi):
            return hi, -m
        return x, m
    w = hi - lo
    if env.decide(x < lo):
        return (x + w, m) if env.decide(lo - x < w) else None
    if env.decide(x > hi):
        return (x - w, m) if env.decide(x - hi < w) else None
    return x, m


def c10(env, nd):
    r = sym_ranges(env, nd)
    pot = free_potential(env, nd, r)
    for k in range(2):
        bc = BCS[env.choose("bc%d" % k, 3)]
        set_bc(env, pot, bc)
    x = [env.real("x%d" % d, hint=(-5, 5)) for d in range(nd)]
    m = [env.real("m%d" % d) for d in range(nd)]
    pos, mom = env.arr(x), env.arr(m)
    exp = [bc_oracle(env, bc, x[d], m[d], r[d]) for d in range(nd)]
    pot.apply_boundary_condition(pos, mom)
    for d in range(nd):
        if exp[d] is None:
            continue
        env.check_eq(pos[d], exp[d][0], "position under %s boundaries" % bc)
        env.check_eq(mom[d], exp[d][1], "momentum under %s boundaries" % bc)
        if bc != "none":
            env.check(pos[d] >= r[d][0], "position not below the range")
            env.check(pos[d] <= r[d][1], "position not above the range")
    for d in range(nd):
        env.check_eq(pot.ranges[d][0], r[d][0], "range unchanged")
        env.check_eq(pot.ranges[d][1], r[d][1], "range unchanged")


def c10_twice(env, nd):
    """same object, several walkers in a row"""
    r = sym_ranges(env, nd)
    pot = free_potential(env, nd, r)
    bc = BCS[env.choose("bc", 3)]
    set_bc(env, pot, bc)
    for k in range(2):
        x = [env.real("x%d_%d" % (k, d), hint=(-5, 5)) for d in range(nd)]
        m = [env.real("m%d_%d" % (k, d)) for d in range(nd)]
        pos, mom = env.arr(x), env.arr(m)
        exp = [bc_oracle(env, bc, x[d], m[d], r[d]) for d in range(nd)]
        pot.apply_boundary_condition(pos, mom)
        for d in range(nd):
            if exp[d]:
                env.check_eq(pos[d], exp[d][0], "position of walker %d" % k)
                env.check_eq(mom[d], exp[d][1], "momentum of walker %d" % k)


def make_ld(env, kind, pot, dt, friction=None, kt=None, seed=None):
    if kind == "bpld":
        return env.mod("bdld.actions.bussi_parinello_ld").BussiParinelloLD(pot, dt, friction, kt, seed)
    return env.mod("bdld.actions.overdamped_ld").OverdampedLD(pot, dt, seed)


def c10_step(env, kind, nd, bc):
    """positions are in range after a step of the integrator"""
    r = sym_ranges(env, nd)
    pot = free_potential(env, nd, r)
    set_bc(env, pot, bc)
    dt = env.real("dt", pos=True, hint=(0.01, 0.5))
    fr = env.real("friction", nonneg=True)
    kt = env.real("kt", pos=True)
    ld = make_ld(env, kind, pot, dt, fr, kt, 1)
    x = [env.real("x%d" % d, hint=(-3, 3)) for d in range(nd)]
    for d in range(nd):
        env.assume(x[d] >= r[d][0])
        env.assume(x[d] <= r[d][1])
    ld.add_particle(x)
    p = ld.particles[0]
    if kind == "bpld":
        p.mom = env.arr([env.real("m%d" % d) for d in range(nd)])
    m0 = env.tolist(p.mom)
    ld.run(1)
    R = env.rng_of(ld).draws("n")
    f0 = env.tolist(pot.force(x))
    for d in range(nd):
        px = p.pos[d]
        if bc == "periodic":
            w = r[d][1] - r[d][0]
            if kind == "bpld":
                c1 = env.exp(-fr * dt / 2)
                c2 = env.sqrt((1 - c1 * c1) * kt)
                disp = (c1 * m0[d] + c2 * R[d] + f0[d] * dt / 2) * dt
            else:
                disp = dt * f0[d] + env.sqrt(2 * dt) * R[d]
            if not env.decide(disp < w):
                continue
            if not env.decide(-disp < w):
                continue
        env.check(px >= r[d][0], "walker above the lower boundary after a step")
        env.check(px <= r[d][1], "walker below the upper boundary after a step")


for nd in (1, 2, 3):
    add("C10", "apply%dd" % nd, partial(c10, nd=nd), "%d dimension(s), all ranges/positions/momenta, two successive selections of the condition" % nd,
        weight=nd, tier="quick" if nd < 3 else "quick")
for nd in (1, 2):
    add("C10", "reuse%dd" % nd, partial(c10_twice, nd=nd), "two walkers in a row, %dD" % nd, tier="quick")
for kind in ("bpld", "od"):
    for nd in (1, 2):
        for bc in ("reflective", "periodic"):
            add("C10", "step-%s-%dd-%s" % (kind, nd, bc), partial(c10_step, kind=kind, nd=nd, bc=bc),
                "one step, one walker, arbitrary potential, %dD" % nd)


# ---------------------------------------------------------------- C12
MB = [(-200, -1, 0, -10, 1, 0), (-100, -1, 0, -10, 0, "0.5"), (-175, "-6.5", 11, "-6.5", "-0.5", "1.5"), (15, "0.7", "0.6", "0.7", -1, 1)]
MB_SHIFT = "30.33319242243656"


def mb_sum(env, x, y):
    c = lambda v: env.const(v)
    tot = 0
    for A, a, b, cc, x0, y0 in MB:
        dx, dy = x - c(x0), y - c(y0)
        tot = tot + c(A) * env.exp(c(a) * dx * dx + c(b) * dx * dy + c(cc) * dy * dy)
    return tot


def c12(env, n_before, n_after):
    M = env.mod("bdld.potential.mueller_brown")
    x, y = env.real("x", hint=(-1.5, 1)), env.real("y", hint=(-0.5, 2))
    pots, facs = [], []
    for k in range(n_before + 1 + n_after):
        if env.choose("scaled%d" % k, 2):
            s = env.real("s%d" % k, pos=True, hint=(0.1, 2))
            if env.choose("sign%d" % k, 2):
                s = -s
            pots.append(M.MuellerBrownPotential(s))
            facs.append(s)
        else:
            pots.append(M.MuellerBrownPotential())
            facs.append(env.const(1))
    x2, y2 = env.real("x2", hint=(-1.5, 1)), env.real("y2", hint=(-0.5, 2))
    for k, (pot, s) in enumerate(zip(pots, facs)):
        env.check_eq(pot.n_dim, 2, "two-dimensional")
        e = pot.energy(env.arr([x, y]))
        e2 = pot.energy(env.arr([x2, y2]))
        env.check_eq(e - e2, s * (mb_sum(env, x, y) - mb_sum(env, x2, y2)), "scaled energy difference of potential %d" % k)
        g = env.grad(lambda xs: s * mb_sum(env, *xs), ["x", "y"], [x, y])
        f = pot.force(env.arr([x, y]))
        env.check_arr(f, [-v for v in g], "force is minus the scaled gradient, potential %d" % k)
        ee, ff = pot.evaluate(env.arr([x, y]))
        env.check_eq(ee, e, "evaluate gives the energy, potential %d" % k)
        env.check_arr(ff, env.tolist(f), "evaluate gives the force, potential %d" % k)
        pot.evaluate(env.arr([x2, y2]))
        env.check_arr(f, [-v for v in g], "force returned earlier is not changed by later evaluations")
        env.check_arr(ff, [-v for v in g], "force of evaluate returned earlier is not changed by later evaluations")


def c12_unscaled(env):
    M = env.mod("bdld.potential.mueller_brown")
    x, y = env.real("x", hint=(-1.5, 1)), env.real("y", hint=(-0.5, 2))
    pot = M.MuellerBrownPotential()
    for first in range(2):
        env.check_eq(pot.energy([x, y]), mb_sum(env, x, y) + env.const(MB_SHIFT), "unscaled energy")
        ee, ff = pot.evaluate([x, y])
        env.check_eq(ee, mb_sum(env, x, y) + env.const(MB_SHIFT), "unscaled energy from evaluate")
        # creating and using other potentials in between does not matter
        other = M.MuellerBrownPotential(env.real("s", pos=True, hint=(0.1, 2)))
        other.evaluate([x, y])


add("C12", "single", partial(c12, n_before=0, n_after=0), "one potential, any scaling factor other than 0 or none, all positions")
add("C12", "sequence2", partial(c12, n_before=1, n_after=0), "two potentials in sequence, each scaled by any factor other than 0 or unscaled")
add("C12", "sequence3", partial(c12, n_before=1, n_after=1), "three potentials in sequence")
add("C12", "unscaled", c12_unscaled, "unscaled energy before and after others are created")
add("C12", "sequence5", partial(c12, n_before=2, n_after=2), "five potentials in sequence", tier="thorough")


# ---------------------------------------------------------------- C22
def c22(env, npts):
    nd = len(npts)
    pot = free_potential(env, nd, [])
    c22_density(env, pot, npts, env.real("kt", pos=True, hint=(0.5, 3)), sym_ranges(env, nd))


def c22_two(env, npts):
    """several densities of the same potential"""
    nd = len(npts)
    pot = free_potential(env, nd, [])
    r = sym_ranges(env, nd)
    kt = env.real("kt", pos=True, hint=(0.5, 3))
    first = c22_density(env, pot, npts, kt, r)
    kept = env.tolist(first.data)
    k = env.choose("changed", 3)
    if k != 1:
        kt = env.real("kt2", pos=True, hint=(0.5, 3))
    if k != 0:
        w = env.real("w", pos=True, hint=(0.5, 2))
        r = [(a - w, b + 2 * w) for a, b in r]
    c22_density(env, pot, npts, kt, r)
    env.check_arr(first.data, kept, "density calculated before is left unchanged")


def c22_density(env, pot, npts, kt, r):
    nd = len(npts)
    g = pot.calculate_probability_density(kt, r, list(npts))
    env.check_arr(list(g.n_points), list(npts), "number of points")
    step = [(r[d][1] - r[d][0]) / (npts[d] - 1) for d in range(nd)]
    env.check_arr(list(g.stepsizes), step, "step sizes")
    vol = 1
    for s in step:
        vol = vol * s
    axes = [[r[d][0] + i * step[d] for i in range(npts[d])] for d in range(nd)]
    boltz = {}
    tot = 0
    for idx in itertools.product(*[range(n) for n in npts]):
        e = pot.energy([axes[d][idx[d]] for d in range(nd)])
        boltz[idx] = env.exp(-e / kt)
        tot = tot + boltz[idx]
    s = 0
    for idx in boltz:
        v = g.data[idx]
        env.check_eq(v * tot * vol, boltz[idx], "density at %s is the normalised Boltzmann factor" % (idx,))
        s = s + v
    env.check_eq(s * vol, 1, "density is normalised")
    return g


def c22_dims(env):
    nd = 1 + env.choose("nd", 3)
    pot = free_potential(env, nd, [])
    kt = env.real("kt", pos=True)
    nr = 1 + env.choose("nr", 3)
    npn = 1 + env.choose("np", 3)
    ranges = [(env.real("a%d" % i, hint=(-1, 0)), env.real("b%d" % i, hint=(0.1, 1))) for i in range(nr)]
    for a, b in ranges:
        env.assume(a < b)
    e = env.raises(lambda: pot.calculate_probability_density(kt, ranges, [2] * npn), ValueError)
    if nr != nd or npn != nd:
        env.check(e is not None, "wrong dimension is rejected")
    else:
        env.check(e is None, "right dimension is accepted")


def c22_ref(env, nd, n):
    pot = free_potential(env, nd, [])
    pos = [[env.real("x%d_%d" % (i, d)) for d in range(nd)] for i in range(n)]
    mz = env.choose("mintozero", 3)
    arg = env.arr(pos)
    f = pot.calculate_reference(arg) if mz == 2 else pot.calculate_reference(arg, bool(mz))
    env.check_eq(len(f), n, "one value per position")
    e = [pot.energy(p) for p in pos]
    if mz == 0:
        env.check_arr(f, e, "reference is the energy")
        return
    anyzero = []
    for i in range(n):
        env.check(f[i] >= 0, "reference not below zero")
        env.check_eq(f[i] - f[0], e[i] - e[0], "reference differences are energy differences")
        if env.decide(f[i] == 0):
            anyzero.append(i)
    env.check(bool(anyzero), "minimum of the reference is zero")


for npts in [(2,), (3,), (5,), (2, 3), (3, 2), (2, 2, 3), (3, 2, 2), (9,), (12,), (4, 5), (3, 3, 3), (3, 2, 4)]:
    add("C22", "density" + "x".join(map(str, npts)), partial(c22, npts=npts), "grid %s, arbitrary potential, any kT and ranges" % (npts,), weight=len(npts))
for npts in [(30,), (8, 9), (5, 4, 3)]:
    add("C22", "density" + "x".join(map(str, npts)), partial(c22, npts=npts), "grid %s, arbitrary potential" % (npts,), tier="thorough")
for npts in [(3,), (2, 2)]:
    add("C22", "two" + "x".join(map(str, npts)), partial(c22_two, npts=npts), "two densities of one potential on grids of %s points, any kT and ranges" % (npts,), weight=2)
add("C22", "dims", c22_dims, "all combinations of 1-3 dimensions of potential, ranges and points")
for nd, n in [(1, 1), (1, 3), (2, 2), (3, 2), (1, 4)]:
    add("C22", "ref%dd-%d" % (nd, n), partial(c22_ref, nd=nd, n=n), "%d positions, %dD" % (n, nd))


# ---------------------------------------------------------------- C30
def c30(env, orders, extra, nd):
    """orders: list of index tuples in file order"""
    P = env.mod("bdld.potential.polynomial")
    vals = [env.real("v%d" % i) for i in range(len(orders))]
    perm = list(range(len(orders)))
    for i in range(len(perm) - 1):
        j = i + env.choose("perm%d" % i, len(perm) - i)
        perm[i], perm[j] = perm[j], perm[i]
    lines = ["# comment line"] if env.choose("comment", 2) else []
    for i in perm:
        cols = [str(o) for o in orders[i]] + [env.tok(vals[i])] + ["%d.5" % (7 + k) for k in range(extra)]
        lines.append(" ".join(cols))
    env.write_input("coeffs.dat", "\n".join(lines) + "\n")
    c = P.coefficients_from_file("coeffs.dat", nd)
    shape = [max(o[d] for o in orders) + 1 for d in range(nd)]
    full = {idx: env.const(0) for idx in itertools.product(*[range(s) for s in shape])}
    for o, v in zip(orders, vals):
        full[tuple(o)] = v

    def rec(idx):
        if len(idx) == nd:
            return full[idx]
        return [rec(idx + (i,)) for i in range(shape[len(idx)])]

    env.check_arr(c, rec(()), "coefficient array")
    pot = P.PolynomialPotential(c)
    x = [env.real("x%d" % d) for d in range(nd)]
    env.check_eq(pot.energy(env.arr(x)), poly_energy(rec(()), shape, x), "energy of the potential built from the file")


for nm, orders, nd in [
    ("1d", [(0,), (2,), (4,)], 1), ("1d-one", [(3,)], 1), ("1d-const", [(0,)], 1), ("2d", [(0, 1), (2, 0), (1, 3)], 2), ("2d-one", [(1, 2)], 2), ("3d", [(0, 0, 1), (2, 1, 0), (1, 1, 1)], 3),
    ("3d-one", [(1, 0, 2)], 3), ("1d-high", [(12,), (3,), (10,)], 1), ("2d-high", [(0, 11), (10, 2), (3, 0)], 2), ("3d-high", [(0, 10, 1), (1, 2, 11), (10, 0, 0)], 3),
]:
    for extra in (0, 2):
        add("C30", "%s-extra%d" % (nm, extra), partial(c30, orders=orders, extra=extra, nd=nd),
            "%d rows in every order, coefficients symbolic, %d extra columns, orders %s" % (len(orders), extra, orders))
add("C30", "2d-5rows", partial(c30, orders=[(0, 0), (0, 4), (2, 2), (3, 0), (1, 1)], extra=1, nd=2), "5 rows in every order", tier="thorough")
