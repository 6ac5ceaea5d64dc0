"""C32: output files start fresh and their headers describe them"""
from functools import partial

from sx.harness import add
from .main_io import Case

DIM = "xyz"


def c32(env, nd, kind, steps=2, many=0):
    """many: so many walkers, states and (one less) steps, without birth-death"""
    c = Case(env)
    w = [env.real("w%d" % d, pos=True, hint=(0.2, 2)) for d in range(nd)]
    v = [env.real("v%d" % d, pos=True, hint=(0.2, 2)) for d in range(nd)]
    lo, hi = [-1 - x for x in w], [1 + x for x in v]
    wrap = lambda z: z[0] if nd == 1 else z
    kt = env.real("kt", pos=True, hint=(0.4, 2))
    dt = env.real("dt", pos=True, hint=(0.02, 0.4))
    n = many or 1 + env.choose("walkers", 2)
    ns, steps = (many, many - 1) if many else (2, steps)
    # free walkers without noise: they stay where they are
    c.put("ld", type="bussi-parinello", timestep=dt, n_steps=steps, seed=1, kt=kt, friction=0)
    if nd == 1:
        c.put("potential", type="polynomial", n_dim=1, min=-5, max=5, coeffs="0, 0")
    else:
        c.put("potential", type="polynomial", n_dim=nd, min=[-5] * nd, max=[5] * nd, coeffs_file="cf")
        env.write_input("cf", " ".join(["0"] * nd) + " 0.0\n")
    c.put("particles", number=n, initial_distribution="random-pos", seed=2, pos1=["0.25"] * nd)
    mom = env.choose("momentum", 2)
    bw = [env.real("bw%d" % d, pos=True, hint=(0.2, 1)) for d in range(nd)]
    if not many:
        c.put("birth-death", stride=1, kernel_bandwidth=bw, seed=3, stats_filename="bd", stats_stride=1)
    c.put("trajectories", filename="traj", momentum=bool(mom), write_stride=1)
    bins = [2, 3, 1][:nd]
    hlo, hhi = [x - 1 for x in lo], [x + 1 for x in hi]
    c.put("histogram", min=wrap(hlo), max=wrap(hhi), bins=wrap(bins), filename="histo", write_stride=1)
    fkt = env.real("fes_kt", pos=True, hint=(0.4, 2))
    c.put("fes", stride=1, kt=fkt, filename="fes", write_stride=1)
    st = {}
    for k in range(ns):
        st["state%d_min" % (k + 1)] = [x - 3 * k for x in lo]
        st["state%d_max" % (k + 1)] = [x + 3 * k for x in hi]
    for s, f in (("delta-f", "df"), ("particle-distribution", "pd")):
        c.put(s, stride=1, write_stride=1, filename=f, **st)
    nb = 1
    for b in bins:
        nb *= b
    rows = {"df": steps, "pd": steps, "histo": nb, "fes": nb}
    if not many:
        rows["bd"] = steps
    for i in range(n):
        rows["traj.%d" % i] = steps
    for k in range(1, steps + 1):
        rows["histo_%d" % k] = rows["fes_%d" % k] = nb
    old = {}
    if env.choose("old", 2):
        for k, name in enumerate(sorted(rows)):
            old[name] = "#! FIELDS old\n%d.125 old\n" % (k + 1)
            env.write_input(name, old[name])
    if not c.run():
        return
    names = env.listfiles()
    for name in sorted(rows):
        env.check(name in names, "file %s is written" % name)
        env.check("old" not in env.text(name), "file %s holds nothing of an earlier run" % name)
        fields, const = env.header(name)
        head, rr = env.table(name)
        env.check(len(rr) == rows[name], "file %s has %d rows instead of %d" % (name, len(rr), rows[name]))
        env.check(all(len(x) == len(fields) for x in rr), "header of %s names every column: %s" % (name, fields))
        base = name.split("_")[0].split(".")[0]
        dims = [DIM[d] for d in range(nd)]
        if base == "traj":
            i = name.split(".")[1]
            want = ["time"] + ["pos_%s.%s" % (d, i) for d in dims] + (["mom_%s.%s" % (d, i) for d in dims] if mom else [])
        elif base in ("histo", "fes"):
            want = dims + ["histo_count" if base == "histo" else "fes"]
            for d in range(nd):
                for key, val in (("min", hlo[d]), ("max", hhi[d]), ("n_bins", bins[d])):
                    key = "%s_%s" % (DIM[d], key)
                    env.check(len(const.get(key, [])) == 1, "header of %s gives %s" % (name, key))
                    got = const[key][0]
                    if base == "fes" and not key.endswith("n_bins"):  # range of the bins or of their mid-points
                        m = (hhi[d] - hlo[d]) / (2 * bins[d])
                        a, b = (val, val + m) if key.endswith("min") else (val - m, val)
                        tol = 0 if env.sym else 1e-9
                        env.check(got >= a - tol, "header of %s: %s" % (name, key))
                        env.check(got <= b + tol, "header of %s: %s" % (name, key))
                    else:
                        env.check_eq(got, val, "header of %s: %s" % (name, key))
        elif base == "df":
            want = ["time"] + ["delta_f.1-%d" % k for k in range(2, ns + 1)]
            env.check(len(const.get("kt", [])) == 1, "header of %s gives kt" % name)
            env.check_eq(const["kt"][0], fkt, "header of %s: kt" % name)
        elif base == "pd":
            want = ["timestep"] + ["n_particles_%d" % k for k in range(ns)]
            for k in range(ns):
                got = const.get("state_%d" % k, [])
                env.check(len(got) == 2 * nd, "header of %s gives the bounds of state %d" % (name, k))
                a, b = st["state%d_min" % (k + 1)], st["state%d_max" % (k + 1)]
                env.check_arr(got, [x for d in range(nd) for x in (a[d], b[d])], "header of %s: bounds of state %d" % (name, k))
        else:
            want = ["timestep", "dup_succ", "dup_attempts", "kill_succ", "kill_attempts"]
            for key, val in (("kt", [kt]), ("kernel_bandwidth", bw), ("timestep", [dt])):
                env.check(len(const.get(key, [])) == len(val), "header of %s gives %s" % (name, key))
                for x, y in zip(const[key], val):
                    if env.sym:
                        env.check_eq(x, y, "header of %s: %s" % (name, key))
                    else:  # arrays are printed with eight digits
                        env.check(abs(x - y) < 1e-6, "header of %s: %s" % (name, key))
        env.check(fields == want, "header of %s: fields %s instead of %s" % (name, fields, want))
        if name in old:
            env.check(any(env.text(f) == old[name] for f in names if f != name), "the earlier file %s is kept" % name)
    extra = [f for f in names if f not in rows and f not in ("input", "cf", "coeffs.dat") and env.text(f) not in old.values()]
    env.check(not extra, "no other files: %s" % extra)


for nd in (1, 2, 3):
    add("C32", "%dd" % nd, partial(c32, nd=nd, kind="bpld"), "%dD, one or two walkers, two steps, any ranges, kT, time step and bandwidth, old files present or not, with and without momentum" % nd, weight=nd, trials=20)
add("C32", "3steps", partial(c32, nd=2, kind="bpld", steps=3), "2D, three steps", tier="thorough", trials=10)
add("C32", "many", partial(c32, nd=1, kind="bpld", many=12), "12 walkers, 12 states, 11 steps, without birth-death", weight=3, trials=10)


def c32_states(env, nd, ns):
    """bounds of states of any size (also empty in a dimension) in the header of the particle distribution"""
    P = env.mod("bdld.actions.particle_distribution")
    lo = [[env.real("lo%d_%d" % (k, d), hint=(-1, 1)) for d in range(nd)] for k in range(ns)]
    hi = [[lo[k][d] + env.real("width%d_%d" % (k, d), nonneg=True, hint=(0, 1)) for d in range(nd)] for k in range(ns)]
    stride = [None, 1][env.choose("stride", 2)]
    P.ParticleDistributionAction([], [[(lo[k][d], hi[k][d]) for d in range(nd)] for k in range(ns)], stride, "pd")
    fields, const = env.header("pd")
    env.check(fields == ["timestep"] + ["n_particles_%d" % k for k in range(ns)], "header: fields %s" % fields)
    for k in range(ns):
        got = const.get("state_%d" % k, [])
        env.check(len(got) == 2 * nd, "header gives the bounds of state %d" % k)
        env.check_arr(got, [x for d in range(nd) for x in (lo[k][d], hi[k][d])], "header: bounds of state %d" % k)


for nd, ns in [(1, 1), (1, 3), (2, 2), (3, 2)]:
    add("C32", "states-%dd-%d" % (nd, ns), partial(c32_states, nd=nd, ns=ns), "%d state(s) in %dD with any bounds, minimum up to maximum" % (ns, nd))
