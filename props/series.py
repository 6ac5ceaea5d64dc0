"""Output over time: C13 trajectories, C14 time series of states, C15 histogram of a run."""
import copy
import itertools
from functools import partial

from sx.core import CheckFailed, EngineError

from sx.harness import add, meta
from props.pot import free_potential, make_ld


def make_system(env, n, nd, kind="bpld", symdt=True):
    pot = free_potential(env, nd, [(-1.0, 1.0)] * nd)
    dt = env.real("dt", pos=True, hint=(0.01, 0.5)) if symdt else 0.5
    kt = env.real("kt", pos=True, hint=(0.5, 2)) if symdt else 1.0
    ld = make_ld(env, kind, pot, dt, 1.0, kt, 1)
    for i in range(n):
        ld.add_particle([0.25 * (i + 1)] * nd)
    return ld


def move(env, ld, t, nd, sym=True):
    """in-place change of all walkers; now and then a walker is replaced by a copy of another"""
    for i, p in enumerate(ld.particles):
        d = env.arr([env.real("d%d_%d_%d" % (t, i, k)) if sym else 0.5 * t + i + 0.25 * k for k in range(nd)])
        e = env.arr([env.real("e%d_%d_%d" % (t, i, k)) if sym else 1.5 * t - i + 0.5 * k for k in range(nd)])
        p.pos += d
        p.mom += e
    if len(ld.particles) > 1 and t % 3 == 2:
        ld.particles[t % len(ld.particles)] = copy.deepcopy(ld.particles[(t + 1) % len(ld.particles)])


# ---------------------------------------------------------------- C13
def c13(env, n, nd, kind, strides, wstrides, lengths, momentum=(0, 1), fmt=None, sym=True):
    T = env.mod("bdld.actions.trajectory_action")
    ld = make_system(env, n, nd, kind)
    stride = strides[env.choose("stride", len(strides))]
    ws = wstrides[env.choose("write_stride", len(wstrides))]
    nsteps = lengths[env.choose("steps", len(lengths))]
    mom = bool(momentum[env.choose("momentum", len(momentum))])
    tr = T.TrajectoryAction(ld, stride, "traj", mom, ws, fmt)
    want = [[] for _ in range(n)]
    for step in range(1, nsteps + 1):
        move(env, ld, step, nd, sym)
        tr.run(step)
        if step % (stride or 1) == 0:
            for i, p in enumerate(ld.particles):
                want[i].append([step * ld.dt] + env.tolist(p.pos) + (env.tolist(p.mom) if mom else []))
    tr.final_run(nsteps)
    tag = "(stride %s, write-stride %s, %d steps, momentum %s)" % (stride, ws, nsteps, mom)
    for i in range(n):
        head, rows = env.table("traj.%d" % i)
        env.check(len(rows) == len(want[i]), "%d rows instead of %d in trajectory file %s" % (len(rows), len(want[i]), tag))
        env.check_arr(rows, want[i], "trajectory rows of walker %d %s" % (i, tag))
        fields = head[0].split()[2:] if head else []
        env.check(len(fields) == 1 + nd * (2 if mom else 1), "header of the trajectory file names all columns %s" % fields)


S123 = [1, 2, 3]
for n, nd, kind in [(1, 1, "bpld"), (2, 1, "bpld"), (1, 2, "bpld"), (2, 2, "od"), (1, 3, "od")]:
    add("C13", "%dw%dd-%s" % (n, nd, kind), partial(c13, n=n, nd=nd, kind=kind, strides=[None, 1, 2, 3], wstrides=[1, 2, 3, 4], lengths=[1, 2, 5, 7]),
        "%d walker(s), %dD, all combinations of stride 1-3 (or default), write-stride 1-4 and 1/2/5/7 steps; positions and momenta symbolic" % (n, nd), weight=2 * n * nd)
add("C13", "lengths", partial(c13, n=1, nd=1, kind="bpld", strides=[1, 2, 3, 4, 5], wstrides=[2, 3, 4, 5, 6], lengths=[1, 3, 4, 6, 8, 9, 10, 11, 12], momentum=(0,)),
    "stride 1-5, write-stride 2-6, up to 12 steps", weight=6, shards=2)
add("C13", "default-write-stride", partial(c13, n=1, nd=1, kind="od", strides=[None, 7, 30], wstrides=[None], lengths=[99, 100, 101, 203], momentum=(0,), sym=False),
    "default write-stride 100, 99 to 203 steps", weight=6, trials=6)
add("C13", "large-stride", partial(c13, n=1, nd=1, kind="bpld", strides=[5, 7], wstrides=[2, 3], lengths=[4, 5, 6, 7, 14, 15]), "stride larger than the write-stride", weight=3)
add("C13", "12w", partial(c13, n=12, nd=1, kind="bpld", strides=[1, 2], wstrides=[2, 3], lengths=[3, 4]), "twelve walkers", weight=3, trials=10)
add("C13", "12w2d", partial(c13, n=12, nd=2, kind="od", strides=[1], wstrides=[2], lengths=[3]), "twelve walkers, 2D", weight=3, trials=10)
add("C13", "all", partial(c13, n=1, nd=1, kind="bpld", strides=list(range(1, 10)), wstrides=list(range(1, 9)), lengths=list(range(1, 22)), momentum=(0,), sym=False),
    "stride 1-9, write-stride 1-8, 1-21 steps", tier="thorough", shards=4)


# ---------------------------------------------------------------- C14 delta-f
def make_fes(env, ld, npts, fes_stride):
    T = env.mod("bdld.actions.trajectory_action")
    H = env.mod("bdld.actions.histogram_action")
    F = env.mod("bdld.actions.fes_action")
    tr = T.TrajectoryAction(ld, 1, None, None, 2)
    h = H.HistogramAction(tr, list(npts), [(0.0, float(m)) for m in npts])
    return F.FesAction(h, fes_stride)


def log_probs(env, vals, masks, kt):
    P = []
    for m in masks:
        s = 0
        for i, b in enumerate(m):
            if b:
                s = s + env.exp(-vals[i] / kt)
        P.append(s)
    return [-kt * env.log(P[k] / P[0]) for k in range(1, len(P))]


def bool_arr(env, m):
    import numpy as np
    return np.array(m, dtype=bool)


def c14_df(env, strides, lengths, states=2):
    D = env.mod("bdld.actions.delta_f_action")
    stride, ws = strides[env.choose("strides", len(strides))]
    nsteps = lengths[env.choose("steps", len(lengths))]
    ld = make_system(env, 1, 1)
    fes = make_fes(env, ld, [4], stride or 1)
    masks = [[True, False, False, False], [False, False, True, True], [False, True, False, True]][:states]
    df = D.DeltaFAction(fes, [bool_arr(env, m) for m in masks], stride, "df", ws)
    want = []
    vals = None
    for step in range(1, nsteps + 1):
        vals = [env.real("F%d_%d" % (step, k)) if nsteps < 50 or step % 50 in (0, 1, 49) else env.const((step * (k + 2)) % 7) for k in range(4)]
        fes.fes.data = env.arr(vals)
        df.run(step)
        if stride and step % stride == 0:
            want.append([step * ld.dt] + log_probs(env, vals, masks, ld.kt))
    df.final_run(nsteps)
    if not stride:
        want.append([nsteps * ld.dt] + log_probs(env, vals, masks, ld.kt))
    tag = "(stride %s, write-stride %s, %d steps)" % (stride, ws, nsteps)
    head, rows = env.table("df")
    env.check(len(rows) == len(want), "%d rows instead of %d in delta-f file %s" % (len(rows), len(want), tag))
    env.check_arr(rows, want, "delta-f rows %s" % tag)
    fields = head[0].split()[2:]
    env.check(len(fields) == states, "header names every column of the delta-f file: %s for %d columns" % (fields, states))


# ---------------------------------------------------------------- C14 particle distribution
def c14_pd(env, strides, lengths, n=2, sym=False, nd=1, ns=2):
    P = env.mod("bdld.actions.particle_distribution")
    stride, ws = strides[env.choose("strides", len(strides))]
    nsteps = lengths[env.choose("steps", len(lengths))]
    ld = make_system(env, n, nd)
    states = [[(0.0, 1.0)] * nd, [(1.5, 3.0)] * nd] + [[(0.25 * k - 0.5, 0.25 * k + 0.25 * (k % 3))] * nd for k in range(2, ns)]
    pd = P.ParticleDistributionAction(ld.particles, states, stride, "pd", ws)
    want = []

    def counts():
        out = []
        for st in states:
            c = 0
            for p in ld.particles:
                c += all(env.decide(p.pos[d] >= st[d][0]) and env.decide(p.pos[d] <= st[d][1]) for d in range(nd))
            out.append(c)
        return out

    for step in range(1, nsteps + 1):
        for i, p in enumerate(ld.particles):
            for d in range(nd):
                p.pos[d] = env.real("x%d_%d_%d" % (step, i, d), hint=(-1, 4)) if sym else ((step * 7 + i * 3 + d) % 9) * 0.5 - 0.5
        if step % 3 == 0 and n > 1:
            ld.particles[0] = copy.deepcopy(ld.particles[1])
        pd.run(step)
        if stride and step % stride == 0:
            want.append([step] + counts())
    pd.final_run(nsteps)
    if not stride:
        want.append([nsteps] + counts())
    tag = "(stride %s, write-stride %s, %d steps)" % (stride, ws, nsteps)
    head, rows = env.table("pd")
    env.check(len(rows) == len(want), "%d rows instead of %d in particle distribution file %s" % (len(rows), len(want), tag))
    env.check_arr(rows, want, "particle distribution rows %s" % tag)
    fields = head[0].split()[2:]
    env.check(len(fields) == len(states) + 1, "header names every column of the particle distribution file: %s" % fields)


def c14_nofile(env):
    """without a file the values are still computed and nothing is written"""
    P = env.mod("bdld.actions.particle_distribution")
    ld = make_system(env, 1, 1)
    pd = P.ParticleDistributionAction(ld.particles, [[(0.0, 1.0)]], 2, None)
    for step in range(1, 6):
        pd.run(step)
    pd.final_run(5)
    env.check(env.listfiles() == [], "no file is written")


SW = [(None, None), (1, 1), (1, 2), (1, 3), (2, 2), (2, 4), (2, 6), (3, 3), (3, 6), (4, 4), (5, 10)]
add("C14", "df", partial(c14_df, strides=SW, lengths=[1, 2, 3, 4, 5, 7, 9]), "delta-f: every (stride, write-stride) in %s, up to 9 steps, all surfaces" % SW, weight=4, shards=2)
add("C14", "df-3states", partial(c14_df, strides=[(None, None), (2, 4), (3, 6)], lengths=[1, 5, 6, 7, 8], states=3), "delta-f with three states")
add("C14", "pd", partial(c14_pd, strides=SW, lengths=[1, 2, 3, 4, 5, 6, 7, 9, 11, 13]), "particle distribution: every (stride, write-stride) in %s, up to 13 steps" % SW, weight=3)
add("C14", "pd-sym", partial(c14_pd, strides=[(None, None), (1, 2), (2, 2), (2, 4)], lengths=[1, 2, 3], n=1, sym=True), "particle distribution with symbolic positions, up to 3 steps", weight=3)
add("C14", "pd-2d", partial(c14_pd, strides=[(None, None), (1, 2), (2, 4)], lengths=[3, 5], n=3, nd=2), "three walkers in 2D")
add("C14", "pd-12", partial(c14_pd, strides=[(None, None), (1, 2), (2, 4)], lengths=[3, 5], n=12, ns=12), "twelve walkers, twelve states", trials=10)
add("C14", "pd-default", partial(c14_pd, strides=[(1, None), (2, None)], lengths=[99, 101, 199, 201, 203]), "default write-stride (100 strides)", weight=3, trials=10)
add("C14", "df-default", partial(c14_df, strides=[(1, None), (2, None)], lengths=[99, 101, 199, 201]), "delta-f, default write-stride (100 strides)", weight=3, trials=8)
add("C14", "nofile", c14_nofile, "no file name")
add("C14", "pd-all", partial(c14_pd, strides=[(s, s * k) for s in range(1, 7) for k in range(1, 5)], lengths=list(range(1, 30))), "all strides 1-6, write-strides 1-4 times that, 1-29 steps", tier="thorough", shards=2)
add("C14", "df-all", partial(c14_df, strides=[(s, s * k) for s in range(1, 5) for k in range(1, 4)], lengths=list(range(1, 14))), "all strides 1-4, write-strides 1-3 times that, 1-13 steps", tier="thorough", shards=4)


# ---------------------------------------------------------------- C15
def c15(env, hstrides, wstrides, tstrides, lengths, resets, n=1, nd=1, sym=False, files=(0, 1), hw=None):
    T = env.mod("bdld.actions.trajectory_action")
    H = env.mod("bdld.actions.histogram_action")
    hs = hstrides[env.choose("hist_stride", len(hstrides))]
    ws = wstrides[env.choose("write_stride", len(wstrides))]
    ts = tstrides[env.choose("traj_stride", len(tstrides))]
    nsteps = lengths[env.choose("steps", len(lengths))]
    reset = resets[env.choose("reset", len(resets))]
    file = files[env.choose("file", len(files))]
    ld = make_system(env, n, nd, symdt=False)
    tr = T.TrajectoryAction(ld, ts, "traj" if file else None, None, ws)
    # every frame and walker has its own bin in the first dimension
    nb = max(nsteps, 2) * n
    bins = [nb] + [2] * (nd - 1)
    ranges = [(0.0, float(nb))] + [(0.0, 2.0)] * (nd - 1)
    hwrite = hw * ws if hw else None
    h = H.HistogramAction(tr, bins, ranges, hs, list(reset) if reset is not None else None, "histo" if hw else None, hwrite)
    tag = "(hist stride %s, write stride %s, traj stride %s, %d steps, reset %s, traj file %s)" % (hs, ws, ts, nsteps, reset, bool(file))
    s = hs or 1
    w = ws or 100
    expect = {}

    def check(what):
        got = env.tolist(h.histo.data)
        for b in range(nb):
            v = got[b]
            if nd > 1:
                k = expect.get(b)
                if not k:
                    env.check_arr(v, [0, 0], "%s: bin %d is empty %s" % (what, b, tag))
                else:
                    env.check_arr(v, [0, 1], "%s: frame in bin %d counted once %s" % (what, b, tag))
            else:
                env.check_eq(v, expect.get(b, 0), "%s: count of step %d walker %d %s" % (what, b // n + 1, b % n, tag))

    for step in range(1, nsteps + 1):
        for i, p in enumerate(ld.particles):
            u = env.real("u%d_%d" % (step, i), lo=0, hi=1, lo_strict=True, hi_strict=True) if sym else 0.5
            p.pos[0] = (step - 1) * n + i + u
            for d in range(1, nd):
                p.pos[d] = 1.5
        tr.run(step)
        h.run(step)
        if step % s == 0:
            for i in range(n):
                expect[(step - 1) * n + i] = 1
        if step % w == 0 and not (reset and step in reset):
            check("at step %d" % step)
        if hw and step % hwrite == 0:
            env.check(env.exists("histo_%d" % step), "histogram written at step %d %s" % (step, tag))
            head, rows = env.table("histo_%d" % step)
            env.check_arr([r[-1] for r in rows], [expect.get(b, 0) for b in range(nb)], "histogram file of step %d %s" % (step, tag))
            env.check_arr([r[0] for r in rows], [b + env.const("1/2") for b in range(nb)], "bin mid-points in histogram file")
        if reset and step in reset:
            expect.clear()
            check("after the reset at step %d" % step)
    tr.final_run(nsteps)
    h.final_run(nsteps)
    check("after the run")
    if hw:
        head, rows = env.table("histo")
        env.check_arr([r[-1] for r in rows], [expect.get(b, 0) for b in range(nb)], "final histogram file %s" % tag)


add("C15", "grid", partial(c15, hstrides=[None, 1, 2, 3], wstrides=[1, 2, 3, 4], tstrides=[1, 2, 3], lengths=[1, 2, 3, 5, 8], resets=[None]),
    "histogram stride 1-3, trajectory write-stride 1-4, trajectory stride 1-3, up to 8 steps, with and without trajectory file", weight=6, shards=3)
add("C15", "reset", partial(c15, hstrides=[1, 2, 3], wstrides=[1, 2, 3, 4], tstrides=[1], lengths=[4, 7, 9], resets=[[1], [2], [3], [5], [2, 5], [4, 6], [7], [6, 3]]),
    "resets at any of eight sets of steps", weight=6, shards=3)
add("C15", "sym", partial(c15, hstrides=[1, 2], wstrides=[2, 3], tstrides=[1, 2], lengths=[3, 4, 5], resets=[None, [2]], sym=True), "positions anywhere inside their bin (symbolic)", weight=5)
add("C15", "2walkers", partial(c15, hstrides=[1, 2, 3], wstrides=[2, 3], tstrides=[1], lengths=[2, 5, 6], resets=[None, [3]], n=2), "two walkers", weight=3)
add("C15", "2d", partial(c15, hstrides=[1, 2], wstrides=[2, 3], tstrides=[1], lengths=[2, 5], resets=[None, [2]], n=2, nd=2), "two walkers in 2D", weight=3)
add("C15", "files", partial(c15, hstrides=[1, 2], wstrides=[2, 3], tstrides=[1, 2], lengths=[1, 6, 7], resets=[None, [4]], hw=1), "histogram files written at every update", weight=3)
add("C15", "files2", partial(c15, hstrides=[1, 2], wstrides=[1, 2], tstrides=[1], lengths=[6, 7], resets=[None, [4]], hw=2), "histogram files written at every second update", weight=2)
add("C15", "default", partial(c15, hstrides=[None, 7, 30], wstrides=[None], tstrides=[None], lengths=[99, 100, 150, 203], resets=[None, [120]]), "default write-stride 100", weight=6, trials=6, shards=2)
add("C15", "all", partial(c15, hstrides=[1, 2, 3, 4, 5, 6], wstrides=[1, 2, 3, 4, 5, 6, 7], tstrides=[1, 3], lengths=list(range(1, 16)), resets=[None, [3], [7, 4]]),
    "histogram stride 1-6, write-stride 1-7, 1-15 steps", tier="thorough", shards=8)


# ---------------------------------------------------------------- far into a run
def lcm(*a):
    import math
    return math.lcm(*a)


def late_start(env, L):
    """a step that is any multiple of L (induction: the state of the buffers repeats with period L)"""
    return env.integer("k", lo=1, hi=10 ** 9, hint=(1, 400)) * L


def settle(obj, at):
    """bookkeeping of an action as after a run up to a multiple of the period"""
    for k, v in list(vars(obj).items()):
        if "last" in k and isinstance(v, int) and not isinstance(v, bool) and v == 0:
            setattr(obj, k, at)


def before(env, j, f, *a):
    """steps before the late one only bring the buffers into their state"""
    if j > 0:
        return f(*a)
    try:
        return f(*a)
    except (EngineError, CheckFailed):
        raise
    except Exception:  # an action that has to be run from the first step on
        env.assume(False)


def clear_file(env, name):
    """keep the header only"""
    env.write_input(name, "".join(l + "\n" for l in env.text(name).split("\n") if l.startswith("#")))


def c13_late(env, strides, wstrides, n=1, nd=1):
    T = env.mod("bdld.actions.trajectory_action")
    ld = make_system(env, n, nd)
    stride = strides[env.choose("stride", len(strides))]
    ws = wstrides[env.choose("write_stride", len(wstrides))]
    L = lcm(stride, ws)
    nsteps = 1 + env.choose("steps", L)
    base = late_start(env, L)
    tr = T.TrajectoryAction(ld, stride, "traj", True, ws)
    settle(tr, base - L)
    want = [[] for _ in range(n)]
    for j in range(1 - L, nsteps + 1):
        step = base + j
        move(env, ld, j + L, nd, sym=j > -ws)
        before(env, j, tr.run, step)
        if j == 0:
            for i in range(n):
                clear_file(env, "traj.%d" % i)
        if j > 0 and j % stride == 0:
            for i, p in enumerate(ld.particles):
                want[i].append([step * ld.dt] + env.tolist(p.pos) + env.tolist(p.mom))
    tr.final_run(base + nsteps)
    tag = "(stride %s, write-stride %s, %d steps after a late step)" % (stride, ws, nsteps)
    for i in range(n):
        head, rows = env.table("traj.%d" % i)
        env.check(len(rows) == len(want[i]), "%d rows instead of %d in trajectory file %s" % (len(rows), len(want[i]), tag))
        env.check_arr(rows, want[i], "trajectory rows of walker %d %s" % (i, tag))


def c14_late(env, which, strides):
    stride, ws = strides[env.choose("strides", len(strides))]
    L = lcm(stride, ws)
    nsteps = 1 + env.choose("steps", L)
    base = late_start(env, L)
    ld = make_system(env, 1, 1)
    masks = [[True, False], [False, True]]
    states = [[(0.0, 1.0)], [(1.5, 3.0)]]
    if which == "df":
        fes = make_fes(env, ld, [2], stride)
        a = env.mod("bdld.actions.delta_f_action").DeltaFAction(fes, [bool_arr(env, m) for m in masks], stride, "f", ws)
    else:
        a = env.mod("bdld.actions.particle_distribution").ParticleDistributionAction(ld.particles, states, stride, "f", ws)
    settle(a, base - L)
    want = []
    for j in range(1 - L, nsteps + 1):
        step = base + j
        if which == "df":
            vals = [env.real("F%d_%d" % (j + L, k)) for k in range(2)]
            fes.fes.data = env.arr(vals)
            row = [step * ld.dt] + log_probs(env, vals, masks, ld.kt)
        else:
            x = ld.particles[0].pos[0] = (((j + L) * 5) % 9) * 0.5 - 0.5
            row = [step] + [int(s[0][0] <= x <= s[0][1]) for s in states]
        before(env, j, a.run, step)
        if j == 0:
            clear_file(env, "f")
        if j > 0 and j % stride == 0:
            want.append(row)
    a.final_run(base + nsteps)
    tag = "(stride %s, write-stride %s, %d steps after a late step)" % (stride, ws, nsteps)
    head, rows = env.table("f")
    env.check(len(rows) == len(want), "%d rows instead of %d in %s file %s" % (len(rows), len(want), which, tag))
    env.check_arr(rows, want, "%s rows %s" % (which, tag))


def c15_late(env, hstrides, wstrides, resets):
    T = env.mod("bdld.actions.trajectory_action")
    H = env.mod("bdld.actions.histogram_action")
    hs = hstrides[env.choose("hist_stride", len(hstrides))]
    ws = wstrides[env.choose("write_stride", len(wstrides))]
    reset = resets[env.choose("reset", len(resets))]
    file = env.choose("file", 2)
    L = lcm(hs, ws)
    nsteps = 1 + env.choose("steps", L)
    base = late_start(env, L)
    ld = make_system(env, 1, 1, symdt=False)
    tr = T.TrajectoryAction(ld, 1, "traj" if file else None, None, ws)
    nb = 2 * L
    h = H.HistogramAction(tr, [nb], [(0.0, float(nb))], hs, [base + r for r in reset] if reset else None)
    tag = "(hist stride %s, write stride %s, %d steps after a late step, reset %s, traj file %s)" % (hs, ws, nsteps, reset, bool(file))
    settle(tr, base - L)
    settle(h, base - L)
    expect = {}

    def check(what):
        got = env.tolist(h.histo.data)
        for b in range(nb):
            env.check_eq(got[b], expect.get(b, 0), "%s: count of step %d %s" % (what, b + 1 - L, tag))

    for j in range(1 - L, nsteps + 1):
        step = base + j
        ld.particles[0].pos[0] = j + L - 0.5
        before(env, j, tr.run, step)
        before(env, j, h.run, step)
        if j % hs == 0 and j > 0:
            expect[j + L - 1] = 1
        if j == 0:
            h.histo.clear()
        if reset and j in reset:
            expect.clear()
            check("after the reset")
        elif j > 0 and j % ws == 0:
            check("at step %d" % j)
    tr.final_run(base + nsteps)
    h.final_run(base + nsteps)
    check("after the run")


LATE = "; starting from any multiple of the common period of the strides (symbolic), so runs of any length are covered by induction"
add("C13", "late", partial(c13_late, strides=[1, 2, 3], wstrides=[1, 2, 3, 4]), "stride 1-3, write-stride 1-4" + LATE, weight=4, shards=2)
add("C13", "late-2w2d", partial(c13_late, strides=[1, 2], wstrides=[2, 3], n=2, nd=2), "stride 1-2, write-stride 2-3, two walkers in 2D" + LATE, weight=4)
add("C13", "late-all", partial(c13_late, strides=[1, 2, 3, 4, 5, 6], wstrides=[1, 2, 3, 4, 5, 6]), "stride 1-6, write-stride 1-6" + LATE, tier="thorough", shards=8)
for w in ("df", "pd"):
    add("C14", "late-" + w, partial(c14_late, which=w, strides=[(1, 1), (1, 2), (1, 3), (2, 2), (2, 4), (3, 3), (3, 6), (4, 4)]), "eight (stride, write-stride) pairs" + LATE, weight=3)
add("C15", "late", partial(c15_late, hstrides=[1, 2, 3], wstrides=[1, 2, 3, 4], resets=[None, [1], [2, 3]]), "histogram stride 1-3, trajectory write-stride 1-4, resets" + LATE, weight=5, shards=4)
add("C15", "late-all", partial(c15_late, hstrides=[1, 2, 3, 4, 5], wstrides=[1, 2, 3, 4, 5, 6], resets=[None, [1], [4], [2, 3], [5, 7]]), "histogram stride 1-5, write-stride 1-6, resets" + LATE, tier="thorough", shards=8)
