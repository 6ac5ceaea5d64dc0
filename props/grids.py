"""Grids and analysis: C16 histogram, C17 free energy, C18 differences, C19 states, C20/C21 grids, C23 smoothing."""
import itertools
import operator
from functools import partial

from sx.env import Unmet
from sx.harness import add, meta
from props.pot import sym_ranges
from props.bd import eq_grid, flat, smoothed, trapz
from props.series import bool_arr, log_probs, make_system


def prod(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


def nested(f, shape, idx=()):
    if len(idx) == len(shape):
        return f(idx)
    return [nested(f, shape, idx + (i,)) for i in range(shape[len(idx)])]


# ---------------------------------------------------------------- C16
def cell(env, x, lo, w, n):
    """index of the half-open cell (last one closed) or None"""
    if env.decide(x < lo) or env.decide(x > lo + w):
        return None
    for k in range(n - 1):
        if env.decide(x < lo + w * (k + 1) / n):
            return k
    return n - 1


def c16(env, bins, batches, asint=False):
    H = env.mod("bdld.histogram")
    nd = len(bins)
    r = sym_ranges(env, nd)
    h = H.Histogram(bins[0] if asint else list(bins), list(r))
    count = {i: 0 for i in itertools.product(*[range(b) for b in bins])}

    def check(what):
        env.check_arr(h.data, nested(lambda i: count[i], bins), "%s: counts" % what)

    check("new histogram")
    w = [b - a for a, b in r]
    ax = [[r[d][0] + w[d] * (2 * k + 1) / (2 * bins[d]) for k in range(bins[d])] for d in range(nd)]
    env.check_arr([env.tolist(a) for a in h.axes()], ax, "bin coordinates are the mid-points")
    env.check_arr(h.points(), [[ax[d][i[d]] for d in range(nd)] for i in sorted(count)], "points in row-major order")
    env.check_arr([env.tolist(a) for a in h.bins], [[r[d][0] + w[d] * k / bins[d] for k in range(bins[d] + 1)] for d in range(nd)], "cells cover the range")
    env.check_eq(h.n_dim, nd, "dimension")
    s = 0
    for b, m in enumerate(batches):
        xs = []
        for _ in range(m):
            x = [env.real("x%d_%d" % (s, d), hint=(-2.5, 3)) for d in range(nd)]
            s += 1
            i = tuple(cell(env, x[d], r[d][0], w[d], bins[d]) for d in range(nd))
            if None not in i:
                count[i] += 1
            xs.append(x)
        h.add(env.arr(xs) if xs else empty(nd))
        check("after batch %d" % b)
    h.clear()
    for i in count:
        count[i] = 0
    check("after clear")
    x = [r[d][0] for d in range(nd)]
    h.add(env.arr([x]))
    count[(0,) * nd] += 1
    check("after clear and one sample on the lower corner")


def c16_many(env, n):
    """many samples in one bin, on top of any counts of earlier batches"""
    H = env.mod("bdld.histogram")
    h = H.Histogram([3], [(0.0, 3.0)])
    earlier = [env.integer("n%d" % k, lo=0, hi=10 ** 9, hint=(0, 400)) for k in range(3)]
    h.add(env.arr([[0.5]]))
    h.data = env.arr([c * env.const(1) for c in earlier])
    x = env.real("x", lo=0, hi=3)
    y = env.real("y", hint=(-1, 4))
    i, j = cell(env, x, 0, 3, 3), cell(env, y, 0, 3, 3)
    h.add(env.arr([[x]] * n + [[y]]))
    env.check_arr(h.data, [c + (n if k == i else 0) + (1 if k == j else 0) for k, c in enumerate(earlier)], "counts after a batch of %d samples" % (n + 1))


def empty(nd):
    import numpy as np
    return np.zeros((0, nd))


for nm, bins, batches, tier in [("1d-1bin", (1,), (2,), "quick"), ("1d-3bins", (3,), (1, 1), "quick"), ("1d-batch", (3,), (2,), "quick"), ("1d-empty", (2,), (0, 1), "quick"),
                                ("2d", (2, 3), (1,), "quick"), ("2d-b", (3, 2), (1,), "quick"), ("3d", (2, 1, 2), (1,), "quick"), ("1d-12bins", (12,), (1,), "quick"), ("1d-4bins", (4,), (1, 2), "thorough"), ("2d-2", (2, 2), (1, 1), "thorough"), ("3d-b", (2, 3, 2), (1,), "thorough")]:
    add("C16", nm, partial(c16, bins=bins, batches=batches), "bins %s, batches of %s samples, any range and samples" % (bins, batches), tier=tier, weight=len(bins) * sum(batches))
add("C16", "1d-int", partial(c16, bins=(3,), batches=(1,), asint=True), "number of bins given as int")
for n in (1, 300, 70000):
    add("C16", "many-%d" % n, partial(c16_many, n=n), "batch of %d samples at any one position and one sample anywhere, added to any counts" % n)


# ---------------------------------------------------------------- C17
def sym_counts(env, shape, name="n"):
    return {i: env.integer(name + "_".join(map(str, i)), lo=0, hint=(0, 6)) for i in itertools.product(*[range(s) for s in shape])}


def make_histo(env, shape, ranges=None):
    H = env.mod("bdld.histogram")
    return H.Histogram(list(shape), ranges or [(0.0, float(s)) for s in shape])


def fill(env, h, counts, shape):
    h.data = env.arr(nested(lambda i: counts[i] * env.const(1), shape))


def check_fes(env, got, counts, shape, kt, what, shift=True):
    g = env.tolist(got)

    def at(i):
        v = g
        for k in i:
            v = v[k]
        return v

    pos = [i for i in sorted(counts) if env.decide(counts[i] > 0)]
    for i in counts:
        if i not in pos:
            env.check(env.is_inf(at(i)), "%s: empty bin %s is +infinity" % (what, i))
    if not pos:
        return
    zero = False
    for i in pos:
        if not shift:
            env.check_eq(at(i), -kt * env.log(counts[i]), "%s: value of bin %s" % (what, i))
            continue
        env.check_eq(at(i) - at(pos[0]), -kt * (env.log(counts[i]) - env.log(counts[pos[0]])), "%s: differences between bins" % what)
        if is_zero(env, at(i)):
            zero = True
        else:
            env.check(at(i) >= 0, "%s: not below zero" % what)
    if shift:
        env.check(zero, "%s: minimum is zero" % what)


def is_zero(env, v):
    if env.sym:
        return env.identical(v, env.const(0)) or env.decide(v == 0)
    return abs(v) < 1e-12


def c17(env, shape, empty=None, top=None):
    """empty: number of every how many-th bin has no counts, top: fullest bin (both arbitrary if not given)"""
    F = env.mod("bdld.actions.fes_action")
    h = make_histo(env, shape)
    counts = sym_counts(env, shape)
    if empty is not None:  # fixed empty bins and a fixed order of the others
        ks = sorted(counts)
        run = env.const(0)
        for k in range(len(ks) - 1, -1, -1):
            i = ks[(top - k) % len(ks)]
            run = run + env.integer("d" + "_".join(map(str, i)), lo=1, hint=(1, 6))
            counts[i] = env.const(0) if i in [ks[j] for j in range(0, len(ks), empty) if j != top] else run
    fill(env, h, counts, shape)
    kt = env.real("kt", pos=True, hint=(0.3, 3))
    mz = env.choose("mintozero", 3)
    fes = F.calculate_fes(h, kt) if mz == 2 else F.calculate_fes(h, kt, bool(mz))
    check_fes(env, fes.data, counts, shape, kt, "fes", bool(mz))
    env.check_arr(h.data, nested(lambda i: counts[i], shape), "the histogram is left unchanged")
    env.check_arr(fes.points(), env.tolist(h.points()), "fes lives on the bin mid-points")


def c17_action(env, nd, stride, ws, nsteps, kind="bpld", fmt=None):
    """files of the action"""
    T = env.mod("bdld.actions.trajectory_action")
    HA = env.mod("bdld.actions.histogram_action")
    F = env.mod("bdld.actions.fes_action")
    ld = make_system(env, 1, nd, kind)
    shape = (2,) + (1,) * (nd - 2) + ((2,) if nd > 1 else ())
    r = sym_ranges(env, nd)
    tr = T.TrajectoryAction(ld, 1, None, None, 1)
    ha = HA.HistogramAction(tr, list(shape), r)
    fa = F.FesAction(ha, stride, "fes", ws, fmt)
    kt = ld.kt
    pts = [[r[d][0] + (r[d][1] - r[d][0]) * (2 * i[d] + 1) / (2 * shape[d]) for d in range(nd)] for i in itertools.product(*[range(s) for s in shape])]
    counts = {}

    def check(name, counts):
        env.check(env.exists(name), "file %s is written" % name)
        head, rows = env.table(name)
        env.check(len(rows) == len(pts), "file %s has one row per bin" % name)
        env.check_arr([row[:-1] for row in rows], pts, "file %s: mid-points in row-major order" % name)
        it = iter([row[-1] for row in rows])
        check_fes(env, nested(lambda i: next(it), shape), counts, shape, kt, "file %s" % name)

    files = {}
    for step in range(1, nsteps + 1):
        counts = {i: env.integer("n%d_%s" % (step, "_".join(map(str, i))), lo=0 if k else 1, hint=(1, 6)) for k, i in enumerate(itertools.product(*[range(s) for s in shape]))}
        fill(env, ha.histo, counts, shape)
        fa.run(step)
        if ws and step % ws == 0:
            check("fes_%d" % step, counts)
            files[step] = 1
        else:
            env.check(not env.exists("fes_%d" % step), "no file between the write strides")
    fa.final_run(nsteps)
    check("fes", counts)


for shape in [(1,), (2,), (3,), (4,), (2, 2), (1, 3), (2, 1, 2)]:
    add("C17", "fes" + "x".join(map(str, shape)), partial(c17, shape=shape), "histogram of shape %s with arbitrary counts, any kT" % (shape,), weight=len(shape))
for shape, top, tier in [((12,), 11, "quick"), ((3, 4), 2, "quick"), ((3, 2, 2), 10, "quick"), ((20,), 13, "thorough"), ((5, 5), 24, "thorough"), ((3, 3, 3), 1, "thorough")]:
    add("C17", "fes%s-top" % "x".join(map(str, shape)), partial(c17, shape=shape, empty=5, top=top), "histogram of shape %s, every fifth bin empty, counts falling from bin number %d on, otherwise arbitrary, any kT" % (shape, top), tier=tier)
add("C17", "fes5", partial(c17, shape=(5,)), "5 bins", tier="thorough")
add("C17", "fes2x3", partial(c17, shape=(2, 3)), "2x3 bins", tier="thorough", shards=4)
for nd, stride, ws, ns in [(1, None, None, 1), (1, 1, 2, 2), (1, 2, 2, 2), (2, 1, 1, 1), (3, None, None, 1), (1, 1, 3, 3)]:
    add("C17", "file-%dd-%s-%s" % (nd, stride, ws), partial(c17_action, nd=nd, stride=stride, ws=ws, nsteps=ns), "files of the fes action, %dD, stride %s, write-stride %s, %d steps" % (nd, stride, ws, ns), weight=3)


# ---------------------------------------------------------------- C18
def masks_for(shape, sets):
    idx = list(itertools.product(*[range(s) for s in shape]))
    return [[(k in st) for k in range(len(idx))] for st in sets]


def c18(env, shape, sets, turned=False):
    D = env.mod("bdld.actions.delta_f_action")
    n = prod(shape)
    F = [env.real("F%d" % k, hint=(-2, 3)) for k in range(n)]
    kt = env.real("kt", pos=True, hint=(0.4, 2))
    masks = masks_for(shape, sets)
    it = iter(F)
    fes = env.arr(nested(lambda i: next(it), shape))
    mk = [bool_arr(env, m).reshape(shape) for m in masks]
    if turned:  # the same values stored in another order
        how = env.choose("memory", 3)
        if how != 1:
            fes = fes.T.copy().T
        if how != 0:
            mk = [m.T.copy().T for m in mk]
    got = D.calculate_delta_f(fes, kt, mk)
    ref = log_probs(env, F, masks, kt)
    env.check_arr(got, ref, "free energy differences")
    c = env.real("shift")
    it = iter(F)
    got2 = D.calculate_delta_f(env.arr(nested(lambda i: next(it) + c, shape)), kt, mk)
    env.check_arr(got2, ref, "differences after a constant shift")
    it = iter(F)
    env.check_arr(fes, nested(lambda i: next(it), shape), "surface is left unchanged")


def c18_counts(env, shape, sets, kind="action"):
    """surface obtained from a histogram"""
    FE = env.mod("bdld.actions.fes_action")
    D = env.mod("bdld.actions.delta_f_action")
    h = make_histo(env, shape)
    counts = sym_counts(env, shape)
    idx = sorted(counts)
    for st in sets:
        env.assume(counts[idx[st[0]]] > 0)
    fill(env, h, counts, shape)
    kt = env.real("kt", pos=True, hint=(0.4, 2))
    fes = FE.calculate_fes(h, kt)
    masks = masks_for(shape, sets)
    got = D.calculate_delta_f(fes.data, kt, [bool_arr(env, m).reshape(shape) for m in masks])
    N = [sum((counts[idx[k]] for k in st[1:]), counts[idx[st[0]]]) for st in sets]
    env.check_arr(got, [-kt * env.log(N[k] * env.const(1) / N[0]) for k in range(1, len(N))], "difference equals -kT ln of the ratio of counts")


def c18_setup(env, nd, nstates):
    """masks made from the state bounds of the input, surface of the running chain"""
    M = env.mod("bdld.main")
    T = env.mod("bdld.actions.trajectory_action")
    HA = env.mod("bdld.actions.histogram_action")
    F = env.mod("bdld.actions.fes_action")
    ld = make_system(env, 1, nd)
    shape = {1: (3,), 2: (2, 2), 3: (2, 1, 2)}[nd]
    tr = T.TrajectoryAction(ld, 1, None, None, 1)
    ha = HA.HistogramAction(tr, list(shape), [(0.0, float(s)) for s in shape])
    fa = F.FesAction(ha, 1)
    opts = {"stride": None, "filename": "df", "write-stride": None, "fmt": None}
    pts = list(itertools.product(*[[k + 0.5 for k in range(s)] for s in shape]))
    st = []
    for k in range(nstates):
        lo, hi = [], []
        for d in range(nd):
            # bounds around chosen cells, anywhere between the mid-points
            a = env.choose("a%d_%d" % (k, d), shape[d])
            b = a + env.choose("b%d_%d" % (k, d), shape[d] - a)
            u = env.real("u%d_%d" % (k, d), lo=0, hi=1, hi_strict=True)
            v = env.real("v%d_%d" % (k, d), lo=0, hi=1, hi_strict=True)
            lo.append(a + env.const("1/2") - u)
            hi.append(b + env.const("1/2") + v)
        opts["state%d-min" % (k + 1)] = lo
        opts["state%d-max" % (k + 1)] = hi
        st.append(list(zip(lo, hi)))
    df = M.setup_delta_f(opts, fa)
    vals = [env.real("F%d" % k) for k in range(len(pts))]
    fa.fes.data = env.arr(vals)
    masks = [[all(env.decide(r[d][0] <= x[d]) and env.decide(x[d] <= r[d][1]) for d in range(nd)) for x in pts] for r in st]
    df.final_run(3)
    head, rows = env.table("df")
    env.check(len(rows) == 1, "one row of free energy differences")
    env.check_arr(rows[0][1:], log_probs(env, vals, masks, ld.kt), "free energy differences between the states")
    env.check_eq(rows[0][0], 3 * ld.dt, "time")


for nm, shape, sets in [("1d", (4,), [[0, 1], [2, 3]]), ("1d-3", (5,), [[0], [1, 2], [2, 3, 4]]), ("2d", (2, 3), [[0, 3], [1, 2, 5]]), ("2d-3", (2, 2), [[3], [0], [1, 2]]), ("3d", (2, 2, 2), [[0, 1], [4, 6, 7]]), ("one", (3,), [[1]]), ("12pts-5", (12,), [[11, 0, 5], [1, 2], [10], [3, 4, 6, 7], [8, 9, 11]]), ("3x4-5", (3, 4), [[11, 0], [1, 2], [10], [3, 4, 6, 7], [8, 9, 11]]), ("12states", (6,), [[k % 6, (k * k) % 6] if k % 6 != (k * k) % 6 else [k % 6] for k in range(12)])]:
    add("C18", "formula-" + nm, partial(c18, shape=shape, sets=sets), "surface of shape %s, states %s, any values and kT" % (shape, sets))
for nm, shape, sets in [("2d", (2, 3), [[0, 3], [1, 2, 5]]), ("3d", (2, 2, 2), [[0, 1], [4, 6, 7]])]:
    add("C18", "order-" + nm, partial(c18, shape=shape, sets=sets, turned=True), "surface of shape %s and masks in any order in memory, states %s" % (shape, sets))
for nm, shape, sets, tier in [("1d", (3,), [[0], [1, 2]], "quick"), ("1d-b", (4,), [[2, 0], [1]], "quick"), ("2d", (2, 2), [[0], [3, 1]], "quick"), ("3d", (2, 1, 2), [[0, 1], [2, 3]], "quick"), ("1d-3", (4,), [[0], [1], [2, 3]], "quick")]:
    add("C18", "counts-" + nm, partial(c18_counts, shape=shape, sets=sets), "histogram of shape %s with arbitrary counts, states %s" % (shape, sets), tier=tier, weight=3)
for nd, ns, tier in [(1, 2, "quick"), (2, 2, "quick"), (1, 3, "quick"), (3, 2, "thorough")]:
    add("C18", "setup-%dd-%d" % (nd, ns), partial(c18_setup, nd=nd, nstates=ns), "%d states given by bounds around any cells, %dD" % (ns, nd), weight=5, shards=4 if nd == 3 else 2, tier=tier)


# ---------------------------------------------------------------- C19
def c19(env, nd, n, ns):
    T = env.mod("bdld.tools")
    x = [[env.real("x%d_%d" % (i, d)) for d in range(nd)] for i in range(n)]
    st = [[(env.real("a%d_%d" % (k, d), hint=(-2, 0.5)), env.real("b%d_%d" % (k, d), hint=(0, 2.5))) for d in range(nd)] for k in range(ns)]
    got = T.pos_inside_ranges(env.arr(x), st)
    env.check(len(got) == ns, "one result per state")
    for k in range(ns):
        for i in range(n):
            want = all(env.decide(x[i][d] >= st[k][d][0]) and env.decide(x[i][d] <= st[k][d][1]) for d in range(nd))
            env.check(bool(got[k][i]) == want, "position %d in state %d" % (i, k))


def c19_count(env, nd, n, ns, replaced=False):
    P = env.mod("bdld.actions.particle_distribution")
    ld = make_system(env, n, nd)
    st = [[(env.real("a%d_%d" % (k, d), hint=(-2, 0.5)), env.real("b%d_%d" % (k, d), hint=(0, 2.5))) for d in range(nd)] for k in range(ns)]
    pd = P.ParticleDistributionAction(ld.particles, st, None, "pd")
    if replaced:  # walkers are exchanged between counts as birth-death does it
        bd = env.mod("bdld.actions.birth_death").BirthDeath(ld.particles, ld.dt, 1, env.arr([env.const(1)] * nd), ld.kt, seed=1)
        i = env.choose("dup", n)
        j = (i + 1 + env.choose("kill", n - 1)) % n
        bd.perform_moves([(i, j)])
    for i, p in enumerate(ld.particles):
        for d in range(nd):
            p.pos[d] = env.real("x%d_%d" % (i, d))
    want = [sum(all(env.decide(p.pos[d] >= s[d][0]) and env.decide(p.pos[d] <= s[d][1]) for d in range(nd)) for p in ld.particles) for s in st]
    pd.final_run(4)
    head, rows = env.table("pd")
    env.check_arr(rows, [[4] + want], "walkers per state")


for nd, n, ns, tier in [(1, 1, 1, "quick"), (2, 1, 1, "quick"), (3, 1, 1, "quick"), (1, 2, 1, "quick"), (1, 1, 2, "quick"), (2, 2, 1, "quick"), (1, 2, 2, "quick"), (2, 1, 2, "quick"), (1, 3, 2, "thorough"), (3, 2, 1, "thorough")]:
    add("C19", "inside-%dd-%d-%d" % (nd, n, ns), partial(c19, nd=nd, n=n, ns=ns), "%d position(s), %d state(s), %dD, all bounds" % (n, ns, nd), tier=tier, weight=nd * n * ns)
for nd, n, ns in [(1, 2, 1), (1, 1, 3), (2, 1, 1), (1, 3, 1)]:
    add("C19", "count-%dd-%d-%d" % (nd, n, ns), partial(c19_count, nd=nd, n=n, ns=ns), "%d walker(s), %d state(s), %dD" % (n, ns, nd), weight=nd * n * ns)
for nd, n, ns in [(1, 2, 1), (2, 2, 1), (1, 3, 1)]:
    add("C19", "bd-%dd-%d-%d" % (nd, n, ns), partial(c19_count, nd=nd, n=n, ns=ns, replaced=True), "%d walker(s) one of which was replaced by birth-death, %d state(s), %dD" % (n, ns, nd), weight=nd * n * ns)


# ---------------------------------------------------------------- C20
def c20_points(env, npts, asint=False):
    G = env.mod("bdld.grid")
    nd = len(npts)
    r = sym_ranges(env, nd)
    g = G.from_npoints(list(r), npts[0] if asint else list(npts))
    step = [(r[d][1] - r[d][0]) / (npts[d] - 1) for d in range(nd)]
    ax = [[r[d][0] + step[d] * k for k in range(npts[d])] for d in range(nd)]
    env.check_arr([env.tolist(a) for a in g.axes()], ax, "axes")
    env.check_arr(list(g.stepsizes), step, "step sizes")
    idx = list(itertools.product(*[range(n) for n in npts]))
    env.check_arr(g.points(), [[ax[d][i[d]] for d in range(nd)] for i in idx], "points in row-major order")
    env.check_arr(list(g.n_points), list(npts), "number of points")
    g.set_from_func(lambda p: env.uf("f", list(p)))
    for i in idx:
        env.check_eq(g.data[i], env.uf("f", [ax[d][i[d]] for d in range(nd)]), "value stored at %s" % (i,))
        env.check_eq(g[i], env.uf("f", [ax[d][i[d]] for d in range(nd)]), "value read at %s" % (i,))
    # copy without data
    c = g.copy_empty()
    env.check_arr(c.points(), env.tolist(g.points()), "copy has the same points")
    env.check_arr(list(c.stepsizes), step, "copy has the same step sizes")
    env.check(c.data.size == 0 or c.data is not g.data, "copy shares no data")
    for a in ("ranges", "n_points", "stepsizes"):
        env.check(getattr(c, a) is not getattr(g, a), "copy shares no %s" % a)
    c.n_points[0] = 99
    c.ranges[0] = (env.const(0), env.const(1))
    c.stepsizes[0] = env.const(5)
    env.check_arr([env.tolist(a) for a in g.axes()], ax, "original unaffected by changes of the copy")
    env.check_arr(list(g.stepsizes), step, "original step sizes unaffected by changes of the copy")
    c2 = g.copy_empty()
    g.n_points[0] = 98
    env.check_arr(list(c2.n_points), list(npts), "copy unaffected by changes of the original")


def c20_mismatch(env):
    G = env.mod("bdld.grid")
    r = sym_ranges(env, 2)
    e = env.raises(lambda: G.from_npoints(r, [2]), ValueError)
    env.check(e is not None, "different dimensions of ranges and points are rejected")
    g = G.from_npoints(r, 2)
    env.check_arr(list(g.n_points), [2, 2], "single number of points for all dimensions")


def c20_steps(env, nd, maxn, form):
    G = env.mod("bdld.grid")
    r = sym_ranges(env, nd)
    if form == "scalar":
        h = env.real("h0", pos=True, hint=(0.3, 1.5))
        hs, arg = [h] * nd, h
    else:
        hs = [env.real("h%d" % d, pos=True, hint=(0.3, 1.5) if maxn > 1 else (1.2, 4)) for d in range(nd)]
        arg = list(hs)
    for d in range(nd):
        env.assume(r[d][1] - r[d][0] <= maxn * hs[d])
    shrink = bool(env.choose("shrink", 2))
    g = G.from_stepsizes(list(r), arg, shrink) if shrink or env.choose("explicit", 2) else G.from_stepsizes(list(r), arg)
    env.check_arr(list(g.stepsizes), hs, "step sizes as requested")
    for d in range(nd):
        n = int(g.n_points[d])
        w = r[d][1] - r[d][0]
        env.check_eq(g.ranges[d][0], r[d][0], "grid starts at the requested minimum")
        env.check_eq(g.ranges[d][1], r[d][0] + (n - 1) * hs[d], "extent is a multiple of the step size")
        if not env.sym and abs(w / hs[d] - round(w / hs[d])) < 1e-9:
            continue
        if shrink:
            env.check((n - 1) * hs[d] <= w, "shrunk grid lies inside the range")
            env.check(n * hs[d] > w, "shrunk grid is the largest inside the range")
        else:
            env.check((n - 1) * hs[d] >= w, "grid covers the range")
            env.check(n >= 2 and (n - 2) * hs[d] < w, "grid is the smallest covering the range")
    ax = [[r[d][0] + hs[d] * k for k in range(int(g.n_points[d]))] for d in range(nd)]
    if all(int(m) > 1 for m in g.n_points):
        env.check_arr([env.tolist(a) for a in g.axes()], ax, "axes have the requested spacing")
    env.check_arr(list(g.stepsizes), hs, "step sizes as requested")


for npts, tier in [((2,), "quick"), ((4,), "quick"), ((2, 3), "quick"), ((3, 2), "quick"), ((2, 3, 2), "quick"), ((3, 2, 2), "quick"), ((2, 2, 3), "quick"), ((7,), "quick"), ((12,), "quick"), ((4, 5), "quick"), ((3, 4, 5), "quick"), ((11, 12), "thorough"), ((5, 6, 7), "thorough")]:
    add("C20", "points" + "x".join(map(str, npts)), partial(c20_points, npts=npts), "grid %s, any range, arbitrary function" % (npts,), tier=tier)
add("C20", "points-int", partial(c20_points, npts=(3,), asint=True), "number of points given as int")
add("C20", "mismatch", c20_mismatch, "dimensions of ranges and points")
for nd, form, mx, tier in [(1, "list", 4, "quick"), (1, "scalar", 4, "quick"), (2, "list", 2, "quick"), (2, "scalar", 3, "quick"), (3, "list", 1, "quick"), (1, "list", 12, "thorough"), (3, "list", 2, "thorough")]:
    add("C20", "steps-%dd-%s%s" % (nd, form, "" if tier == "quick" else mx), partial(c20_steps, nd=nd, maxn=mx, form=form), "step sizes: any range up to %d steps, %dD, with and without shrinking" % (mx, nd), weight=nd, tier=tier)
meta("C20", assumptions=["real arithmetic: for machine floats the number of steps of a range that is an exact multiple of the step may differ by the rounding of the quotient"])


# ---------------------------------------------------------------- C21
BIN = [("add", operator.add), ("sub", operator.sub), ("mul", operator.mul), ("div", operator.truediv), ("radd", lambda a, b: b + a), ("rmul", lambda a, b: b * a)]


def filled(env, G, r, npts, name, pos=False):
    g = G.from_npoints([tuple(x) for x in r], list(npts))
    vals = [env.real("%s%d" % (name, k), pos=pos, hint=(0.2, 3) if pos else None) for k in range(prod(npts))]
    g.data = env.arr(vals)
    return g, vals


def c21(env, npts):
    G = env.mod("bdld.grid")
    nd = len(npts)
    r = sym_ranges(env, nd)
    g, v = filled(env, G, r, npts, "v", pos=True)
    name, op = BIN[env.choose("op", len(BIN))]
    kind = ["number", "int", "array", "grid"][env.choose("kind", 4)]
    if kind == "number":
        c = env.real("c", pos=True)
        other, o = c, [c] * len(v)
    elif kind == "int":
        other, o = 3, [3] * len(v)
    else:
        g2, o = filled(env, G, r, npts, "w", pos=True)
        other = g2 if kind == "grid" else g2.data
        if kind == "array" and name in ("radd", "rmul"):
            env.assume(False)  # numpy would broadcast over the grid
    want = [op(a, b) for a, b in zip(v, o)]
    res = op(g, other)
    env.check(isinstance(res, G.Grid), "result is a grid")
    it = iter(want)
    env.check_arr(res.data, nested(lambda i: next(it), npts), "%s with %s" % (name, kind))
    env.check_arr(res.points(), env.tolist(g.points()), "result on the same points")
    it = iter(v)
    env.check_arr(g.data, nested(lambda i: next(it), npts), "operand unchanged")
    if kind in ("array", "grid"):
        it = iter(o)
        env.check_arr(other.data if kind == "grid" else other, nested(lambda i: next(it), npts), "second operand unchanged")
    # the result is independent of its operands
    res.data[(0,) * nd] = env.const(77)
    it = iter(v)
    env.check_arr(g.data, nested(lambda i: next(it), npts), "operand does not share memory with the result")
    res.n_points[0] = 55
    env.check_arr(list(g.n_points), list(npts), "operand does not share its points with the result")


def c21_unary(env, npts):
    import numpy as np
    G = env.mod("bdld.grid")
    r = sym_ranges(env, len(npts))
    g, v = filled(env, G, r, npts, "v", pos=True)
    k = env.choose("op", 7)
    N = env.mod("bdld.grid").np
    if k == 0:
        res, want = -g, [-x for x in v]
    elif k == 1:
        res, want = +g, list(v)
    elif k == 2:
        res, want = N.exp(g), [env.exp(x) for x in v]
    elif k == 3:
        res, want = N.log(g), [env.log(x) for x in v]
    elif k == 4:
        res, want = g ** 2, [x * x for x in v]
    elif k == 5:
        res, want = g ** 3, [x * x * x for x in v]
    else:
        res, want = N.log(N.exp(g)), list(v)
    it = iter(want)
    env.check_arr(res.data, nested(lambda i: next(it), npts), "unary operation %d" % k)
    env.check_arr(res.points(), env.tolist(g.points()), "result on the same points")
    it = iter(v)
    env.check_arr(g.data, nested(lambda i: next(it), npts), "operand unchanged")
    res.data[(0,) * len(npts)] = env.const(77)
    it = iter(v)
    env.check_arr(g.data, nested(lambda i: next(it), npts), "operand does not share memory with the result")


def c21_reject(env, npts):
    G = env.mod("bdld.grid")
    nd = len(npts)
    r = sym_ranges(env, nd)
    g, v = filled(env, G, r, npts, "v", pos=True)
    how = env.choose("how", 4)
    r2, n2 = [tuple(x) for x in r], list(npts)
    d = env.choose("dim", nd)
    if how == 0:
        n2[d] += 1
    elif how in (1, 2):
        s = env.real("s", pos=True, hint=(0.1, 1))
        r2[d] = (r2[d][0] - s, r2[d][1]) if how == 1 else (r2[d][0], r2[d][1] + s)
    else:
        if nd == 1:
            env.assume(False)
        n2 = n2[::-1]  # same number of values, other shape
        env.assume(n2 != list(npts))
    g2, _ = filled(env, G, r2, n2, "w", pos=True)
    for name, op in BIN[:4]:
        for a, b in ((g, g2), (g2, g)):
            e = env.raises(lambda: op(a, b), ValueError)
            env.check(e is not None, "%s of grids with different points is rejected" % name)
    env.check(not (g == g2), "grids with different points are not equal")


def c21_eq(env, npts):
    G = env.mod("bdld.grid")
    r = sym_ranges(env, len(npts))
    a, v = filled(env, G, r, npts, "v")
    b, w = filled(env, G, r, npts, "w")
    want = all(env.decide(x == y) for x, y in zip(v, w))
    env.check(bool(a == b) == want, "grids are equal exactly if all values are")
    env.check(bool(a == a), "grid equals itself")
    c = a.copy_empty()
    c.data = env.arr(list(v))
    env.check(bool(a == c), "grid equals a grid with the same points and values")


def c21_data(env, npts):
    G = env.mod("bdld.grid")
    r = sym_ranges(env, len(npts))
    g, v = filled(env, G, r, npts, "v")
    m = env.choose("size", prod(npts) + 3)
    if m == prod(npts):
        return
    e = env.raises(lambda: setattr(g, "data", env.arr([env.real("z%d" % k) for k in range(m)]) if m else empty(1).reshape(-1)), ValueError)
    env.check(e is not None, "data of the wrong size is rejected")
    it = iter(v)
    env.check_arr(g.data, nested(lambda i: next(it), npts), "data unchanged after rejection")


def c21_array(env, npts):
    """Arrays of other shapes: rejected if they do not fit, otherwise spread over the grid as arrays are."""
    G = env.mod("bdld.grid")
    nd = len(npts)
    r = sym_ranges(env, nd)
    g, v = filled(env, G, r, npts, "v", pos=True)
    name, op = BIN[env.choose("op", 4)]
    how = env.choose("shape", 2 + 2 * nd)
    shape = list(npts)
    if how == 0:
        shape = [1] * nd
    elif how == 1:
        shape = shape[-1:]
    elif how < 2 + nd:
        shape[how - 2] = 1
    else:
        shape[how - 2 - nd] += 1
    w = [env.real("w%d" % k, pos=True, hint=(0.2, 3)) for k in range(prod(shape))]
    other = env.arr(w).reshape(shape)
    if how >= 2 + nd:
        e = env.raises(lambda: op(g, other), ValueError)
        env.check(e is not None, "%s with an array that does not fit is rejected" % name)
        return
    full = [1] * (nd - len(shape)) + shape

    def at(i):
        k = 0
        for j, n in zip(i, full):
            k = k * n + (j if n > 1 else 0)
        return w[k]

    def val(i):
        k = 0
        for j, n in zip(i, npts):
            k = k * n + j
        return v[k]

    res = op(g, other)
    env.check_arr(res.data, nested(lambda i: op(val(i), at(i)), npts), "%s with an array of shape %s" % (name, shape))
    it = iter(v)
    env.check_arr(g.data, nested(lambda i: next(it), npts), "operand unchanged")


for npts in [(3,), (2, 3), (2, 2, 3)]:
    nm = "x".join(map(str, npts))
    add("C21", "array" + nm, partial(c21_array, npts=npts), "grid %s with arrays of other shapes" % (npts,))
    add("C21", "binary" + nm, partial(c21, npts=npts), "grid %s: + - * / with number, int, array and grid, any data" % (npts,))
    add("C21", "unary" + nm, partial(c21_unary, npts=npts), "grid %s: negation, powers, exp, log" % (npts,))
    add("C21", "reject" + nm, partial(c21_reject, npts=npts), "grid %s with grids of other points" % (npts,))
    add("C21", "eq" + nm, partial(c21_eq, npts=npts), "equality, grid %s" % (npts,))
    add("C21", "data" + nm, partial(c21_data, npts=npts), "data of every other size, grid %s" % (npts,))


# ---------------------------------------------------------------- C23
def c23_conv(env, n1, n2, mode, swap=False):
    G = env.mod("bdld.grid")
    nd = len(n1)
    h = [env.real("h%d" % d, pos=True, hint=(0.2, 1)) for d in range(nd)]
    a0 = [env.real("a%d" % d, hint=(-2, 2)) for d in range(nd)]
    b0 = [env.real("b%d" % d, hint=(-2, 2)) for d in range(nd)]
    mk = lambda o, n: G.from_stepsizes([(o[d], o[d] + h[d] * (n[d] - 1)) for d in range(nd)], list(h))
    g1, g2 = mk(a0, n1), mk(b0, n2)
    if not env.sym and (list(g1.n_points) != list(n1) or list(g2.n_points) != list(n2)):
        raise Unmet("rounding")
    I1, I2 = [list(itertools.product(*[range(m) for m in n])) for n in (n1, n2)]
    v = {i: env.real("v" + "_".join(map(str, i))) for i in I1}
    w = {i: env.real("w" + "_".join(map(str, i))) for i in I2}
    g1.data = env.arr([v[i] for i in I1])
    g2.data = env.arr([w[i] for i in I2])
    method = ["direct", "auto"][env.choose("method", 2)] if env.sym else "direct"
    c = G.convolve(g1, g2, mode, method) if mode != "default" else G.convolve(g1, g2)
    vol = prod(h)
    full = {}
    for i in I1:
        for j in I2:
            k = tuple(x + y for x, y in zip(i, j))
            full[k] = full.get(k, 0) + v[i] * w[j]
    if mode == "same":
        off, shape, org = [(m - 1) // 2 for m in n2], n1, a0
    else:
        big, small, o = (n1, n2, a0) if all(x >= y for x, y in zip(n1, n2)) else (n2, n1, b0)
        shape = tuple(x - y + 1 for x, y in zip(big, small))
        off = [m - 1 for m in small]
        org = [o[d] + env.const(str(small[d] - 1) + "/2") * h[d] for d in range(nd)]
    env.check_arr(list(c.n_points), list(shape), "number of points of the convolution")
    env.check_arr(c.data, nested(lambda i: full[tuple(x + y for x, y in zip(i, off))] * vol, shape), "convolution values")
    ax = [[org[d] + h[d] * k for k in range(shape[d])] for d in range(nd)]
    env.check_arr([env.tolist(a) for a in c.axes()], ax, "points of the convolution")
    env.check_arr(g1.data, nested(lambda i: v[i], n1), "first grid unchanged")
    env.check_arr(g2.data, nested(lambda i: w[i], n2), "second grid unchanged")


def c23_reject(env, nd):
    G = env.mod("bdld.grid")
    r = sym_ranges(env, nd)
    g1 = G.from_npoints(r, [3] * nd)
    d = env.choose("dim", nd)
    s = env.real("s", pos=True)
    r2 = list(r)
    r2[d] = (r2[d][0], r2[d][1] + s)
    g2 = G.from_npoints(r2, [3] * nd)
    for g in (g1, g2):
        g.data = env.arr([env.const(k + 1) for k in range(3 ** nd)])
    for mode in ("same", "valid"):
        e = env.raises(lambda: G.convolve(g1, g2, mode), ValueError)
        env.check(e is not None, "grids of different spacing are rejected")


def c23_kernel(env, npts, kpts, mode):
    B = env.mod("bdld.actions.birth_death")
    g, dens, bw, step, ranges = eq_grid(env, npts, kpts)
    nd = len(npts)
    c = B.dens_kernel_convolution(g, env.arr(bw), mode)
    ref = smoothed(env, dens, npts, step, bw, kpts)
    if mode == "same":
        env.check_arr(c.data, nested(lambda i: ref[i], npts), "smoothed density")
        env.check_arr(c.points(), env.tolist(g.points()), "smoothed density on the points of the density")
    else:
        off = [(k - 1) // 2 for k in kpts]
        shape = tuple(n - k + 1 for n, k in zip(npts, kpts))
        env.check_arr(c.data, nested(lambda i: ref[tuple(x + y for x, y in zip(i, off))], shape), "smoothed density, inner region")
    env.check_arr(g.data, nested(lambda i: dens[i], npts), "density unchanged")


def c23_rounding(env, npts, kpts):
    """A smoothed density is positive also where it is tiny: convolutions by Fourier transform have an absolute error."""
    B = env.mod("bdld.actions.birth_death")
    if env.sym:
        from sx import npx
        g, dens, bw, step, ranges = eq_grid(env, npts, kpts)
        bw = env.arr(bw)
        count = itertools.count()
        npx.FFT_NOISE = lambda: env.real("eps%d" % next(count))
    else:  # the same on a grid where the transform would be chosen
        G = env.mod("bdld.grid")
        np = G.np
        g = G.from_npoints([(-2.5, 2.5)] * 2, [61] * 2)
        g.data = np.array([np.exp(-(4 * (x * x - 2) ** 2 + 3 * y * y * y * y)) for x, y in g.points()])
        bw = np.array([0.17, 0.17])
    c = B.dens_kernel_convolution(g, bw, "same")
    for v in flat(env.tolist(c.data)):
        env.check(v > 0, "smoothed density is positive")


def c23_additive(env, npts, kpts, mode):
    B = env.mod("bdld.actions.birth_death")
    g, dens, bw, step, ranges = eq_grid(env, npts, kpts)
    nd = len(npts)
    c = B.calc_additive_correction(g, env.arr(bw), mode) if mode == "valid" or env.choose("explicit", 2) else B.calc_additive_correction(g, env.arr(bw))
    ref = smoothed(env, dens, npts, step, bw, kpts)
    if mode == "same":
        shape, off = npts, [0] * nd
    else:
        off = [(k - 1) // 2 for k in kpts]
        shape = tuple(n - k + 1 for n, k in zip(npts, kpts))
    idx = list(itertools.product(*[range(m) for m in shape]))
    sh = lambda i: tuple(x + y for x, y in zip(i, off))
    lg = {i: env.log(ref[sh(i)] / dens[sh(i)]) for i in idx}
    integral = trapz({i: lg[i] * dens[sh(i)] for i in idx}, shape, step)
    env.check_arr(c.data, nested(lambda i: -lg[i] + integral, shape), "additive correction")
    env.check_arr(g.data, nested(lambda i: dens[i], npts), "density unchanged")


def c23_trapz(env, npts, scalar=False):
    B = env.mod("bdld.actions.birth_death")
    nd = len(npts)
    h = [env.real("h%d" % d, pos=True) for d in range(nd)]
    idx = list(itertools.product(*[range(m) for m in npts]))
    v = {i: env.real("v" + "_".join(map(str, i))) for i in idx}
    a = env.arr(nested(lambda i: v[i], npts))
    got = B.nd_trapz(a, h[0] if scalar else list(h))
    env.check_eq(got, trapz(v, npts, h), "trapezoidal integral")


def c23_sparsify(env, n, m):
    G = env.mod("bdld.grid")
    r = sym_ranges(env, 1)
    g, v = filled(env, G, r, (n,), "v")
    s = G.sparsify(g, [m], "linear")
    k = min(n, m)
    env.check_arr(list(s.n_points), [k], "number of points")
    ax = [r[0][0] + (r[0][1] - r[0][0]) * i / (k - 1) for i in range(k)]
    env.check_arr(s.axes()[0], ax, "same range")
    want = []
    for i in range(k):
        num, den = i * (n - 1), k - 1
        q, rem = divmod(num, den)
        want.append(v[q] if rem == 0 else v[q] + (v[q + 1] - v[q]) * rem / den)
    env.check_arr(s.data, want, "values interpolated linearly")
    env.check_arr(g.data, v, "original unchanged")


def c23_sparsify_nd(env, n, m):
    """thinned points lie on points of the original"""
    G = env.mod("bdld.grid")
    nd = len(n)
    r = sym_ranges(env, nd)
    g, v = filled(env, G, r, n, "v")
    s = G.sparsify(g, list(m), "linear")
    k = [min(a, b) for a, b in zip(n, m)]
    env.check_arr(list(s.n_points), k, "number of points")
    for d in range(nd):
        env.check_arr(s.axes()[d], [r[d][0] + (r[d][1] - r[d][0]) * i / (k[d] - 1) for i in range(k[d])], "same range")
    if not env.sym:
        import numpy as np
        env.check(not np.isnan(np.asarray(s.data)).any(), "values inside the range")

    def at(i):
        x = env.tolist(g.data)
        for j, d in zip(i, range(nd)):
            x = x[j * (n[d] - 1) // (k[d] - 1)]
        return x
    env.check_arr(s.data, nested(at, k), "values at common points are kept")


for n, m in [((5, 3), (3, 9)), ((3, 7), (2, 3)), ((3, 3), (3, 3)), ((3, 5, 2), (2, 3, 4))]:
    add("C23", "sparsify-%s-%s" % ("x".join(map(str, n)), "x".join(map(str, m))), partial(c23_sparsify_nd, n=n, m=m), "%s points reduced to at most %s" % (n, m))
for n1, n2, mode, tier in [((4,), (3,), "same", "quick"), ((4,), (2,), "same", "quick"), ((3,), (4,), "same", "quick"), ((5,), (3,), "valid", "quick"), ((3,), (5,), "valid", "quick"), ((4,), (2,), "default", "quick"), ((4,), (3,), "valid", "quick"),
                           ((3, 4), (3, 3), "same", "quick"), ((3, 4), (2, 3), "valid", "quick"), ((2, 3), (3, 4), "valid", "quick"), ((3, 2), (2, 3), "same", "quick"), ((2, 2, 3), (2, 2, 2), "same", "quick"), ((3, 3, 3), (2, 2, 2), "valid", "quick"),
                           ((7,), (5,), "same", "thorough"), ((8,), (5,), "valid", "thorough"), ((5, 4), (3, 3), "valid", "thorough")]:
    add("C23", "conv-%s-%s-%s" % ("x".join(map(str, n1)), "x".join(map(str, n2)), mode), partial(c23_conv, n1=n1, n2=n2, mode=mode), "convolution of %s with %s points, mode %s, any data and spacing" % (n1, n2, mode), tier=tier)
for nd in (1, 2):
    add("C23", "reject-%dd" % nd, partial(c23_reject, nd=nd), "different spacing, %dD" % nd)
for npts, kpts, mode, tier in [((4,), (3,), "same", "quick"), ((5,), (3,), "valid", "quick"), ((6,), (5,), "same", "quick"), ((7,), (5,), "valid", "quick"), ((3, 4), (3, 3), "same", "quick"), ((4, 5), (3, 3), "valid", "quick"), ((11,), (11,), "same", "thorough"), ((5, 5), (5, 3), "same", "thorough")]:
    nm = "%s-k%s-%s" % ("x".join(map(str, npts)), "x".join(map(str, kpts)), mode)
    add("C23", "kernel-" + nm, partial(c23_kernel, npts=npts, kpts=kpts, mode=mode), "density on %s points, kernel of %s points, any values and bandwidth" % (npts, kpts), tier=tier)
for npts, kpts, mode in [((3,), (3,), "same"), ((5,), (3,), "same"), ((5,), (3,), "valid"), ((3, 3), (3, 3), "same"), ((4, 5), (3, 3), "valid")]:
    nm = "%s-k%s-%s" % ("x".join(map(str, npts)), "x".join(map(str, kpts)), mode)
    add("C23", "additive-" + nm, partial(c23_additive, npts=npts, kpts=kpts, mode=mode), "density on %s points, kernel of %s points" % (npts, kpts), weight=2)
for npts in [(2,), (5,), (2, 3), (3, 3), (2, 3, 2)]:
    add("C23", "trapz-" + "x".join(map(str, npts)), partial(c23_trapz, npts=npts), "integral over %s points" % (npts,))
add("C23", "trapz-scalar", partial(c23_trapz, npts=(4,), scalar=True), "spacing given as number")
for n, m in [(5, 3), (5, 4), (7, 4), (3, 5), (4, 4)]:
    add("C23", "sparsify-%d-%d" % (n, m), partial(c23_sparsify, n=n, m=m), "%d points reduced to at most %d" % (n, m))
for npts, kpts in [((5,), (3,)), ((3, 3), (3, 3))]:
    add("C23", "rounding-%dd" % len(npts), partial(c23_rounding, npts=npts, kpts=kpts), "smoothed density of %s points under the rounding error of transforms" % (npts,))
meta("C23", assumptions=["bandwidth and spacing are in the ratio that gives the stated odd number of kernel points",
                         "scipy.signal.convolve is modelled as exact discrete convolution for every method"])
