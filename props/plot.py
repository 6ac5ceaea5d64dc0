"""C31: plots of the free energy"""
import itertools
from functools import partial

from sx.harness import add
from .grids import check_fes, fill, nested
from .pot import free_potential, sym_ranges
from .main_io import Case, the_potential, the_ld, the_walkers


def find(env, figs, key, what):
    """the figures saved for a step (None: the final one)"""
    env.check(len(figs) == 1, "%s: %d plots saved instead of 1" % (what, len(figs)))
    return figs[0]


def midpoints(r, n):
    return [r[0] + (r[1] - r[0]) * (2 * i + 1) / (2 * n) for i in range(n)]


def check_figure(env, f, shape, r, what, surface, energy=None, domain=None):
    """surface(values as nested list) checks the plotted values"""
    nd = len(shape)
    if nd == 1:
        env.check(not f["images"], "%s: no image in one dimension" % what)
        env.check(len(f["lines"]) == (1 if energy is None else 2), "%s: %d lines" % (what, len(f["lines"])))
        for x, y, lab in f["lines"]:
            env.check_arr(list(x), midpoints(r[0], shape[0]), "%s: plotted over the mid-points of the bins" % what)
        lines = {str(lab).lower(): y for x, y, lab in f["lines"]}
        env.check("fes" in lines, "%s: labelled line of the free energy" % what)
        surface(list(lines["fes"]))
        if energy is not None:
            env.check("ref" in lines, "%s: labelled line of the reference" % what)
            y, e = list(lines["ref"]), [energy([x]) for x in midpoints(r[0], shape[0])]
            for i in range(1, len(y)):
                env.check_eq(y[i] - y[0], e[i] - e[0], "%s: reference is the energy" % what)
        lim = f["ylim"]
        if domain is not None:
            env.check_arr(list(lim), list(domain), "%s: range of shown values" % what)
        else:
            for v in lines["fes"]:
                if env.is_inf(v):
                    continue
                if env.sym:
                    env.check(v >= lim[0], "%s: values not cut off" % what)
                    env.check(v <= lim[1], "%s: values not cut off" % what)
                else:
                    env.check(lim[0] - 1e-9 <= v <= lim[1] + 1e-9, "%s: values not cut off" % what)
    elif nd == 2:
        env.check(not f["lines"] and len(f["images"]) == 1, "%s: one image in two dimensions" % what)
        rows, ext, clim = f["images"][0]
        env.check(len(rows) == shape[1] and len(rows[0]) == shape[0], "%s: first coordinate horizontal, second vertical" % what)
        surface([[rows[j][i] for j in range(shape[1])] for i in range(shape[0])])
        env.check(ext is not None, "%s: axes show the coordinates" % what)
        for d in range(2):
            m = midpoints(r[d], shape[d])
            a, b = ext[2 * d], ext[2 * d + 1]
            tol = 0 if env.sym else 1e-9
            env.check(a >= r[d][0] - tol, "%s: axis %d starts at the grid" % (what, d))
            env.check(a <= m[0] + tol, "%s: axis %d starts at the grid" % (what, d))
            env.check(b >= m[-1] - tol, "%s: axis %d ends at the grid" % (what, d))
            env.check(b <= r[d][1] + tol, "%s: axis %d ends at the grid" % (what, d))
        if domain is not None:
            env.check_arr(list(clim), list(domain), "%s: range of shown values" % what)
    else:
        env.check(not f["lines"] and not f["images"], "%s: nothing drawn in three dimensions" % what)


def the_domain(env):
    if not env.choose("domain", 2):
        return None
    lo = env.real("dom_lo", hint=(-1, 0))
    return [lo, lo + env.real("dom_w", pos=True, hint=(1, 5))]


def c31(env, shape, stride, ps, nsteps, withref=True, name="fes.png", first=0, free=3):
    from .series import make_system

    nd = len(shape)
    F = env.mod("bdld.actions.fes_action")
    ld = make_system(env, 1, nd, "bpld")
    pot = free_potential(env, nd, [])
    r = sym_ranges(env, nd)
    tr = env.mod("bdld.actions.trajectory_action").TrajectoryAction(ld, 1, None, None, 1)
    ha = env.mod("bdld.actions.histogram_action").HistogramAction(tr, list(shape), r)
    ref = pot.calculate_reference(ha.histo.points()) if withref else None
    dom = the_domain(env)
    kt = env.real("fes_kt", pos=True, hint=(0.4, 2))
    fa = F.FesAction(ha, stride, None, None, None, plot_stride=ps, plot_filename=name, plot_domain=dom, ref=ref, kt=kt)
    idx = list(itertools.product(*[range(s) for s in shape]))
    cur = None
    for step in range(1, nsteps + 1):
        counts = {}
        for k, i in enumerate(idx):
            if k < free:
                counts[i] = env.integer("n%d_%s" % (step, "_".join(map(str, i))), lo=0 if k >= first else 1, hint=(0, 6))
            else:
                counts[i] = env.const(3 * k + step if k % 3 else 0)
        fill(env, ha.histo, counts, shape)
        n0 = len(env.figs)
        fa.run(step)
        if stride and step % stride == 0:
            cur = counts
        new = env.figs[n0:]
        if ps and step % ps == 0:
            f = find(env, new, step, "plot of step %d" % step)
            env.check(str(step) in f["file"], "plot of step %d names the step" % step)
            if cur is not None:
                check_figure(env, f, shape, r, "plot of step %d" % step, partial(surf, env, cur, shape, kt, "plot of step %d" % step),
                             energy=pot.energy if withref else None, domain=dom)
        else:
            env.check(not new, "no plot between the plot strides")
    n0 = len(env.figs)
    fa.final_run(nsteps)
    f = find(env, env.figs[n0:], None, "final plot")
    env.check(f["file"] == name, "final plot is saved under the given name")
    check_figure(env, f, shape, r, "final plot", partial(surf, env, counts, shape, kt, "final plot"), energy=pot.energy if withref else None, domain=dom)
    names = [x["file"] for x in env.figs]
    env.check(len(set(names)) == len(names), "every plot has its own file")


def surf(env, counts, shape, kt, what, values):
    check_fes(env, values, counts, shape, kt, what)


def c31_main(env, nd, kind="od"):
    """plots of a run: same values as the file, energy of the potential as reference"""
    c = Case(env)
    pot = the_potential(env, c, nd, None, order=2, simple=True)
    mk = the_ld(env, c, kind, pot, 1)
    the_walkers(env, c, nd, 1)
    c.put("trajectories", write_stride=1)
    wrap = lambda v: v[0] if nd == 1 else v
    hr = [(env.real("hlo%d" % d, hint=(-2, 0)), env.real("hw%d" % d, pos=True, hint=(1, 3))) for d in range(nd)]
    hr = [(a, a + w) for a, w in hr]
    shape = [(2,), (2, 3), (2, 1, 1)][nd - 1]
    c.put("histogram", min=wrap([a for a, b in hr]), max=wrap([b for a, b in hr]), bins=wrap(list(shape)))
    dom = the_domain(env)
    ps = env.choose("ps", 2)
    c.put("fes", stride=1, kt=env.real("fes_kt", pos=True, hint=(0.4, 2)), filename="fes", plot_filename="surf.pdf", plot_domain=dom, plot_stride=1 if ps else None)
    if not c.run():
        return
    env.check(len(env.figs) == 1 + ps, "%d plots instead of %d" % (len(env.figs), 1 + ps))
    env.check(env.figs[-1]["file"] == "surf.pdf", "final plot is saved under the given name")
    head, rows = env.table("fes")
    it = iter([row[-1] for row in rows])
    want = nested(lambda i: next(it), shape)

    def same(values):
        env.check_arr(values, want, "plotted values are those of the file")

    for f in env.figs:
        check_figure(env, f, shape, hr, "plot", same, energy=(lambda x: pot.energy(env.arr(x))) if nd == 1 else None, domain=dom)


for shape, stride, ps, ns, first in [((1,), None, None, 1, 0), ((3,), None, None, 1, 0), ((2,), 1, 1, 2, 1), ((2,), 1, 2, 3, 1), ((2,), 2, 2, 3, 1), ((2, 3), None, None, 1, 0), ((2, 2), None, None, 1, 0), ((3, 2), 1, 1, 1, 0),
                              ((1, 2), 1, 2, 2, 1), ((2, 1, 2), 1, 1, 1, 0)]:
    add("C31", "%s-%s-%s" % ("x".join(map(str, shape)), stride, ps), partial(c31, shape=shape, stride=stride, ps=ps, nsteps=ns, withref=len(shape) == 1, first=first, free=3 if len(shape) == 1 else 2),
        "%s bins, stride %s, plot-stride %s, %d steps, any counts (of the first two or three bins, others fixed), kT, range, plot domain or none" % (shape, stride, ps, ns), weight=len(shape), trials=20)
add("C31", "noref", partial(c31, shape=(2,), stride=1, ps=1, nsteps=1, withref=False, name="x.y.svg"), "no reference; name with two dots", trials=10)
for nd in (1, 2, 3):
    add("C31", "main-%dd" % nd, partial(c31_main, nd=nd), "run of the program, one walker, one step, %dD, any ranges and potential" % nd, weight=4, trials=10)
