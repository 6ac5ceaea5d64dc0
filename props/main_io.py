"""Input file and main program: C24 validation, C25 options, C26 initial walkers, C27 seeds, C28 order of actions, C29 states."""
import itertools
from functools import partial

from sx.env import Unmet
from sx.harness import add, meta
from sx.npx import Junk
from props.pot import sym_ranges

KEYS = {"ld": "ld", "potential": "potential", "particles": "particles", "birth-death": "birth_death", "trajectories": "trajectories", "histogram": "histogram",
        "fes": "fes", "delta-f": "delta_f", "particle-distribution": "particle_distribution"}
NEEDS = {"histogram": ["trajectories"], "fes": ["trajectories", "histogram"], "delta-f": ["trajectories", "histogram", "fes"]}
ORDER = list(KEYS)


def base(env, n_dim=1, ld="bussi-parinello", pot="polynomial", dist="random-global"):
    """a complete valid input with every section (values as text)"""
    l = ", ".join
    one = n_dim == 1
    s = {}
    s["ld"] = dict(type=ld, timestep="0.01", n_steps="1", seed="3")
    if ld == "bussi-parinello":
        s["ld"].update(kt="1.5", friction="2.0")
    if pot == "polynomial":
        s["potential"] = dict(type=pot, n_dim=str(n_dim), min=l(["-2.0"] * n_dim), max=l(["2.0"] * n_dim))
        s["potential"]["coeffs" if one else "coeffs-file"] = "0, 0.5, 1.0" if one else "coeffs.dat"
    else:
        s["potential"] = {"type": pot}
    s["particles"] = {"number": "1", "initial-distribution": dist, "seed": "5"}
    if dist != "random-global":
        s["particles"].update(pos1=l(["0.5"] * n_dim), pos2=l(["-0.5"] * n_dim))
    if dist == "fractions-pos":
        s["particles"]["fractions"] = "1, 1"
    s["birth-death"] = {"stride": "1", "kernel-bandwidth": l(["0.3"] * n_dim), "seed": "7"}
    s["trajectories"] = {"filename": "traj"}
    s["histogram"] = dict(min=l(["-2.0"] * n_dim), max=l(["2.0"] * n_dim), bins=l(["2"] * n_dim), filename="histo")
    s["fes"] = dict(kt="1.5", filename="fes")
    st = {}
    for k in (1, 2):
        st["state%d-min" % k] = l(["-2.0" if k == 1 else "0.0"] * n_dim)
        st["state%d-max" % k] = l(["0.0" if k == 1 else "2.0"] * n_dim)
    s["delta-f"] = dict(filename="df", **st)
    s["particle-distribution"] = dict(filename="pd", **st)
    return s


def only(s, *sections):
    """the compulsory sections, the given ones and what they need"""
    keep = {"ld", "potential", "particles"}
    for x in sections:
        keep.add(x)
        keep.update(NEEDS.get(x, []))
    return {k: v for k, v in s.items() if k in keep}


def write(env, s, name="input"):
    env.write_input(name, "".join("[%s]\n" % k + "".join("%s: %s\n" % o for o in v.items()) + "\n" for k, v in s.items()))
    if any("coeffs.dat" in v.values() for v in s.values()):
        nd = int(s["potential"]["n_dim"])
        env.write_input("coeffs.dat", " ".join(["2"] + ["0"] * (nd - 1)) + " 1.0\n" + " ".join(["0"] * nd) + " 0.5\n")


def run_main(env, *args):
    """(outcome, exception): 'ok', 'exit' (non-zero exit status) or 'error'"""
    M = env.mod("bdld.main")
    with env.argv(*(args or ("input",))):
        try:
            M.main()
        except SystemExit as e:
            return ("exit" if e.code not in (None, 0) else "zero"), e
        except (ValueError, TypeError, KeyError, IndexError, ZeroDivisionError, OSError) as e:
            return "error", e
    return "ok", None


def rejected(env, what, words=(), need_exit=True):
    before = env.listfiles()
    out, exc = run_main(env)
    env.check(out in (("exit",) if need_exit else ("exit", "error")), "%s is rejected (outcome: %s %s)" % (what, out, exc))
    env.check("Finished" not in env.printed() and "now running" not in env.printed(), "%s: nothing is run" % what)
    env.check(env.listfiles() == before or not need_exit, "%s: no output is written" % what)
    if words:
        logs = [m for lev, m in env.logs if lev in ("ERROR", "CRITICAL")]
        env.check(any(all(w in m for w in words) for m in logs), "%s: the error names %s: %s" % (what, words, logs))


def parsed(env, section, what):
    I = env.mod("bdld.inputparser")
    try:
        inp = I.Input("input")
    except (I.OptionError, I.SectionError) as e:
        env.fail("%s is accepted: %s" % (what, e))
        return None
    return getattr(inp, KEYS[section])


# ---------------------------------------------------------------- C24
POS, NONNEG, DIM, ANY = "positive", "not negative", "between 1 and 3", "any"


def holds(env, cond, v):
    if cond == POS:
        return env.decide(v > 0)
    if cond == NONNEG:
        return env.decide(v >= 0)
    if cond == DIM:
        return env.decide(v >= 1) and env.decide(v <= 3)
    return True


F, N = "float", "int"
# section, key, kind, condition, compulsory, default, variant of the base input
SCALAR = [
    ("ld", "timestep", F, NONNEG, True, None, {}), ("ld", "n_steps", N, POS, True, None, {}), ("ld", "seed", N, ANY, False, None, {}),
    ("ld", "kt", F, POS, True, None, {}), ("ld", "friction", F, NONNEG, True, None, {}),
    ("ld", "timestep", F, NONNEG, True, None, dict(ld="overdamped")), ("ld", "n_steps", N, POS, True, None, dict(ld="overdamped")),
    ("ld", "seed", N, ANY, False, None, dict(ld="overdamped")),
    ("potential", "min", F, ANY, True, None, {}), ("potential", "max", F, ANY, True, None, {}),
    ("potential", "scaling-factor", F, ANY, False, None, dict(n_dim=2, pot="mueller-brown")),
    ("particles", "number", N, POS, True, None, {}), ("particles", "mass", F, POS, False, 1, {}), ("particles", "seed", N, ANY, False, None, {}),
    ("birth-death", "stride", N, POS, True, None, {}), ("birth-death", "exponential-factor", F, POS, False, None, {}), ("birth-death", "stats-stride", N, POS, False, None, {}),
    ("birth-death", "seed", N, ANY, False, None, {}), ("birth-death", "kernel-bandwidth", F, POS, True, None, {}),
    ("trajectories", "stride", N, POS, False, None, {}), ("trajectories", "write-stride", N, POS, False, None, {}),
    ("histogram", "stride", N, POS, False, None, {}), ("histogram", "write-stride", N, POS, False, None, {}), ("histogram", "bins", N, POS, True, None, {}),
    ("histogram", "min", F, ANY, True, None, {}), ("histogram", "max", F, ANY, True, None, {}),
    ("fes", "kt", F, POS, True, None, {}), ("fes", "stride", N, POS, False, None, {}), ("fes", "write-stride", N, POS, False, None, {}), ("fes", "plot-stride", N, ANY, False, None, {}),
    ("delta-f", "stride", N, POS, False, None, {}), ("delta-f", "write-stride", N, POS, False, None, {}),
    ("particle-distribution", "stride", N, POS, False, None, {}), ("particle-distribution", "write-stride", N, POS, False, None, {}),
]
LISTS = [
    ("potential", "coeffs", F, ANY, None, {}), ("histogram", "reset", N, POS, False, {}), ("fes", "plot-domain", F, ANY, False, {}),
    ("particles", "pos1", F, ANY, None, dict(dist="random-pos")), ("particles", "pos2", F, ANY, None, dict(dist="random-pos", n_dim=2)), ("particles", "fractions", F, ANY, True, dict(dist="fractions-pos")),
    ("potential", "min", F, ANY, True, dict(n_dim=2)), ("potential", "max", F, ANY, True, dict(n_dim=3)),
    ("birth-death", "kernel-bandwidth", F, POS, True, dict(n_dim=2)), ("birth-death", "kernel-bandwidth", F, POS, True, dict(n_dim=3)),
    ("birth-death", "kernel-bandwidth", F, POS, True, dict(n_dim=2, pot="mueller-brown")),
    ("histogram", "min", F, ANY, True, dict(n_dim=2)), ("histogram", "max", F, ANY, True, dict(n_dim=2)), ("histogram", "bins", N, POS, True, dict(n_dim=2)), ("histogram", "bins", N, POS, True, dict(n_dim=2, pot="mueller-brown")),
    ("delta-f", "state1-min", F, ANY, None, {}), ("delta-f", "state2-max", F, ANY, None, dict(n_dim=2)), ("particle-distribution", "state1-max", F, ANY, None, {}),
]


def sval(env, kind, name):
    return env.real(name, hint=(-3, 3)) if kind == F else env.integer(name, hint=(-4, 6))


def c24_scalar(env, section, key, kind, cond, comp, default, var):
    s = only(base(env, **var), section)
    how = env.choose("how", 4)
    tag = "[%s] %s" % (section, key)
    if how == 0:  # missing
        s[section].pop(key, None)
        write(env, s)
        if comp:
            rejected(env, tag + " missing", (key, section))
        else:
            got = parsed(env, section, tag + " missing")
            if got is not None:
                env.check_eq(got[key], default, tag + ": default")
        return
    if how == 1:  # not a number
        j = ["abc", "", "1.5x", "1 2", "--"][env.choose("junk", 5)]
        s[section][key] = j
        write(env, s)
        rejected(env, "%s = %r" % (tag, j), (key, section))
        return
    if how == 2:
        if kind == F:
            if cond != ANY:  # not a number at all
                s[section][key] = "nan"
                write(env, s)
                rejected(env, tag + " = nan", (key, section))
            return
        s[section][key] = env.tok(env.real("noint", pos=True))
        write(env, s)
        rejected(env, tag + " = a float", (key, section))
        return
    v = sval(env, kind, "v")
    s[section][key] = env.tok(v)
    write(env, s)
    if holds(env, cond, v):
        got = parsed(env, section, tag + " (%s)" % cond)
        if got is not None:
            env.check_eq(got[key], v, tag + " is taken over unchanged")
    else:
        rejected(env, tag + " not " + cond, (key, section))


def c24_list(env, section, key, kind, cond, comp, var):
    s = only(base(env, **var), section)
    tag = "[%s] %s" % (section, key)
    n = 1 + env.choose("length", 3)
    nd = var.get("n_dim", 1)
    ranges = nd > 1 and key in ("min", "max")
    how = env.choose("how", 4)
    if how == 0:
        if comp is None or n > 1:
            return
        s[section].pop(key, None)
        write(env, s)
        if comp:
            rejected(env, tag + " missing", (key, section))
        else:
            got = parsed(env, section, tag + " missing")
            if got is not None:
                env.check(got[key] is None, tag + ": default")
        return
    vs = [sval(env, kind, "v%d" % i) for i in range(n)]
    toks = [env.tok(v) for v in vs]
    if ranges and n != nd:
        if how == 3:  # one value per dimension
            s[section][key] = ",".join(toks)
            write(env, s)
            rejected(env, "%s with %d values" % (tag, n), (key, section))
        return
    if how == 1:
        junk = ["abc", "", "1 2"] + (["nan"] if kind == F and cond != ANY else [])
        toks[env.choose("where", n)] = junk[env.choose("junk", len(junk))]
        s[section][key] = ", ".join(toks)
        write(env, s)
        rejected(env, "%s = %s" % (tag, toks if not env.sym else "not a list of numbers"), (key, section))
        return
    s[section][key] = (", " if how == 2 else ",").join(toks)
    write(env, s)
    if all(holds(env, cond, v) for v in vs):
        got = parsed(env, section, tag)
        if got is not None:
            env.check_arr(list(got[key]), vs, tag + " is taken over unchanged")
    else:
        rejected(env, tag + " not all " + cond, (key, section))


def c24_ndim(env):
    s = only(base(env))
    v = env.integer("n_dim", hint=(-2, 6))
    s["potential"]["n_dim"] = env.tok(v)
    s["potential"]["coeffs-file"] = "coeffs.dat"
    m = 1 + env.choose("values", 3)
    s["potential"].update(min=", ".join(["-2.0"] * m), max=", ".join(["2.0"] * m))
    env.write_input("input", "".join("[%s]\n" % k + "".join("%s: %s\n" % o for o in o_.items()) for k, o_ in s.items()))
    if holds(env, DIM, v):
        if not env.decide(v == m):
            return rejected(env, "range of another dimension", ("potential",))
        got = parsed(env, "potential", "n_dim between 1 and 3")
        if got is not None:
            env.check_eq(got["n_dim"], v, "number of dimensions")
            env.check_arr(got["min"] if isinstance(got["min"], list) else [got["min"]], [-2] * m, "minimum")
            env.check_arr(got["max"] if isinstance(got["max"], list) else [got["max"]], [2] * m, "maximum")
    else:
        rejected(env, "n_dim not between 1 and 3", ("n_dim", "potential"))


ENUMS = [("ld", "type", ["bussi-parinello", "overdamped"], True), ("potential", "type", ["polynomial"], True), ("potential", "boundary-condition", ["reflective", "periodic"], False),
         ("particles", "initial-distribution", ["random-global", "random-pos", "fractions-pos"], True),
         ("birth-death", "approximation-variant", ["orig", "original", "add", "additive", "mult", "multiplicative"], False), ("birth-death", "correction-variant", ["orig", "original"], False)]
BAD = ["abc", "0", "none", "overdampd", "randompos"]


def c24_enum(env, section, key, good, comp):
    dist = "fractions-pos" if key == "initial-distribution" else "random-global"
    s = only(base(env, dist=dist), section)
    k = env.choose("value", len(good) + len(BAD) + 1)
    tag = "[%s] %s" % (section, key)
    if k == 0:
        s[section].pop(key, None)
        write(env, s)
        if comp:
            rejected(env, tag + " missing", (key, section))
        else:
            got = parsed(env, section, tag + " missing")
            if got is not None:
                env.check(got[key] is None, tag + ": default")
    elif k <= len(good):
        s[section][key] = good[k - 1]
        write(env, s)
        got = parsed(env, section, "%s = %s" % (tag, good[k - 1]))
        if got is not None:
            env.check_eq(got[key], good[k - 1], tag)
    else:
        v = BAD[k - 1 - len(good)]
        s[section][key] = v
        write(env, s)
        rejected(env, "%s = %s" % (tag, v), (key, section))


def c24_bool(env, section, key, default):
    s = only(base(env), section)
    forms = [("true", True), ("True", True), ("yes", True), ("on", True), ("1", True), ("false", False), ("no", False), ("off", False), ("0", False), ("maybe", None), ("2", None), ("missing", default)]
    t, want = forms[env.choose("form", len(forms))]
    if t != "missing":
        s[section][key] = t
    write(env, s)
    if want is None and t != "missing":
        rejected(env, "%s = %s" % (key, t), (key, section))
        return
    got = parsed(env, section, key)
    if got is not None:
        env.check(bool(got[key]) == bool(want), "%s = %s is read as %s" % (key, t, want))


def c24_sections(env):
    s = only(base(env))
    k = env.choose("section", 5)
    if k < 3:
        name = ["ld", "potential", "particles"][k]
        del s[name]
        write(env, s)
        rejected(env, "missing section " + name, (name,))
    elif k == 3:
        before = env.listfiles()
        out, exc = run_main(env, "no-such-file")
        env.check(out == "exit", "missing input file is rejected")
        env.check(any("no-such-file" in m for _, m in env.logs), "error names the missing file")
        env.check(env.listfiles() == before, "no output is written")
    else:
        write(env, s)
        out, exc = run_main(env)
        env.check(out == "ok", "minimal input is accepted: %s" % exc)


def c24_coeffs(env):
    """1D: coeffs or coeffs-file"""
    s = only(base(env))
    k = env.choose("given", 4)
    s["potential"].pop("coeffs")
    if k & 1:
        s["potential"]["coeffs"] = "1.0, 2.0"
    if k & 2:
        s["potential"]["coeffs-file"] = "coeffs.dat"
    write(env, s)
    if k == 0:
        rejected(env, "no coefficients", ("coeffs", "potential"))
    else:
        got = parsed(env, "potential", "coefficients")
        if got is not None:
            env.check_eq(got["coeffs-file"], "coeffs.dat" if k & 2 else None, "coefficient file")
            env.check((got["coeffs"] is not None) == bool(k & 1), "coefficients")


def c24_dims(env):
    """options that do not fit the dimension of the system"""
    nd = 1 + env.choose("dim", 3)
    s = base(env, n_dim=nd)
    what = env.choose("what", 10)
    m = 1 + env.choose("length", 4)
    if m == nd:
        return
    l = lambda x: ", ".join([x] * m)
    if what == 0:
        if nd == 1:
            return
        s = only(s, "birth-death")
        s["birth-death"]["kernel-bandwidth"] = l("0.3")
        write(env, s)
        rejected(env, "kernel-bandwidth of wrong dimension", ("kernel-bandwidth", "birth-death"))
        return
    if what in (6, 7, 8, 9):
        # only one end of the range has another dimension: nothing may be cut off silently
        if nd == 1:
            return
        sec = "histogram" if what < 8 else "potential"
        s = only(s, "histogram")
        s[sec]["min" if what % 2 else "max"] = l("-2.0" if what % 2 else "2.0")
        write(env, s)
        rejected(env, "%s of wrong dimension" % sec, ("min" if what % 2 else "max", sec))
        return
    if what in (1, 2, 3):
        if nd == 1:
            return
        s = only(s, "histogram")
        if what == 1:
            s["histogram"]["bins"] = l("2")
        else:
            s["histogram"].update(min=l("-2.0"), max=l("2.0"))
            if what == 3:
                s["histogram"]["bins"] = l("2")
    elif what == 4:
        s = only(base(env, n_dim=nd, dist="random-pos"))
        s["particles"].update(pos1=l("0.1"), pos2=l("0.2"))
    else:
        s = only(base(env, n_dim=nd, dist="fractions-pos"))
        s["particles"]["pos2"] = l("0.2")
        s["particles"]["number"] = "4"
    write(env, s)
    rejected(env, "dimension mismatch %d" % what, need_exit=False)


def c24_plain(env):
    """string options are taken over unchanged; unknown options are ignored"""
    keys = [("trajectories", "filename"), ("trajectories", "fmt"), ("histogram", "filename"), ("histogram", "fmt"), ("fes", "filename"), ("fes", "fmt"), ("fes", "plot-filename"), ("fes", "plot-title"),
            ("delta-f", "filename"), ("delta-f", "fmt"), ("particle-distribution", "filename"), ("particle-distribution", "fmt"), ("birth-death", "stats-filename"), ("potential", "coeffs-file")]
    sec, key = keys[env.choose("key", len(keys))]
    s = only(base(env), sec)
    vals = ["a_name.dat", "%%10.4f", "run #2", "a; b c", "x = y: z", "None", "UPPER lower,comma"]
    k = env.choose("value", len(vals) + 1)
    if k == 0:
        s[sec].pop(key, None)
    else:
        s[sec][key] = vals[k - 1]
    s[sec]["unknown-option"] = "12"
    write(env, s)
    got = parsed(env, sec, key)
    if got is not None:
        env.check_eq(got[key], vals[k - 1].replace("%%", "%") if k else None, "[%s] %s" % (sec, key))


def c24_default_section(env):
    """options of [DEFAULT] apply to all sections"""
    s = base(env)
    kt = env.real("kt", pos=True)
    seed = env.integer("seed", lo=0)
    stride = env.integer("stride", lo=1)
    s["ld"].pop("kt")
    s["fes"].pop("kt")
    for x in ("ld", "particles", "birth-death"):
        s[x].pop("seed")
    s["birth-death"].pop("stride")
    s = dict([("DEFAULT", dict(kt=env.tok(kt), seed=env.tok(seed), stride=env.tok(stride)))] + list(s.items()))
    write(env, s)
    I = env.mod("bdld.inputparser").Input("input")
    env.check_eq(I.ld["kt"], kt, "kt of ld")
    env.check_eq(I.fes["kt"], kt, "kt of fes")
    for x in (I.ld, I.particles, I.birth_death):
        env.check_eq(x["seed"], seed, "shared seed")
    for x in (I.birth_death, I.trajectories, I.histogram, I.fes, I.delta_f, I.particle_distribution):
        env.check_eq(x["stride"], stride, "shared stride")


def vname(var):
    return "".join("-%s" % str(v)[:2] for v in var.values())


for sec, key, kind, cond, comp, default, var in SCALAR:
    add("C24", "%s-%s%s" % (sec, key, vname(var)), partial(c24_scalar, section=sec, key=key, kind=kind, cond=cond, comp=comp, default=default, var=var),
        "[%s] %s: missing, not convertible, or any %s (%s)" % (sec, key, kind, cond))
for sec, key, kind, cond, comp, var in LISTS:
    add("C24", "list-%s-%s%s" % (sec, key, vname(var)), partial(c24_list, section=sec, key=key, kind=kind, cond=cond, comp=comp, var=var),
        "[%s] %s: lists of one to three values, any %s (%s), any element not convertible" % (sec, key, kind, cond))
for sec, key, good, comp in ENUMS:
    add("C24", "enum-%s-%s" % (sec, key), partial(c24_enum, section=sec, key=key, good=good, comp=comp), "[%s] %s: known, unknown and missing values" % (sec, key))
add("C24", "bool-recalc", partial(c24_bool, section="birth-death", key="recalculate-probabilities", default=False), "boolean option")
add("C24", "bool-momentum", partial(c24_bool, section="trajectories", key="momentum", default=None), "boolean option")
add("C24", "n_dim", c24_ndim, "any integer number of dimensions")
add("C24", "sections", c24_sections, "missing compulsory sections, missing file")
add("C24", "coeffs", c24_coeffs, "coefficients given directly or as file")
add("C24", "dims", c24_dims, "bandwidth, histogram and positions of another dimension than the potential")
add("C24", "plain", c24_plain, "string options")
add("C24", "default-section", c24_default_section, "shared options")
meta("C24", assumptions=["texts that are no number are represented by a few junk strings; a numeric option value is any real or integer"])


# ---------------------------------------------------------------- C25
def same_file(env, a, b, what):
    """both files hold the same header, values and formats"""
    env.check(env.exists(a), "%s: file %s is written" % (what, a))
    if not env.exists(a) or not env.exists(b):
        env.check(env.exists(a) == env.exists(b), "%s: file %s exists" % (what, b))
        return
    ha, ra = env.table(a)
    fa = env.fmts if env.sym else [len(x) for x in env.text(a).split("\n")]
    hb, rb = env.table(b)
    fb = env.fmts if env.sym else [len(x) for x in env.text(b).split("\n")]
    env.check(len(ra) == len(rb), "%s: %d rows in %s instead of %d" % (what, len(ra), a, len(rb)))
    env.check_arr(ra, rb, "%s: values in %s" % (what, a))
    env.check(fa == fb, "%s: number format in %s" % (what, a))
    env.check([len(x.split()) for x in ha] == [len(x.split()) for x in hb], "%s: header of %s" % (what, a))
    if not env.sym:
        env.check(ha == hb, "%s: header of %s: %s instead of %s" % (what, a, ha, hb))


def no_more(env, pre, what):
    extra = [f for f in env.listfiles() if not f.startswith("ref_") and f not in ("input", "coeffs.dat", "cf") and not f.startswith("bck.") and "ref_" + f not in env.listfiles()]
    env.check(not extra, "%s: no other files than requested: %s" % (what, extra))
    miss = [f for f in env.listfiles() if f.startswith("ref_") and f[4:] not in env.listfiles()]
    env.check(not miss, "%s: all requested files are written: %s" % (what, miss))


class Case:
    """collects the options of an input file together with their values"""

    def __init__(self, env):
        self.env = env
        env.keyed = True
        self.s = {"ld": {}, "potential": {}, "particles": {}}

    def t(self, v):
        if isinstance(v, (list, tuple)):
            return ", ".join(self.t(x) for x in v)
        if isinstance(v, (str, int)) and not isinstance(v, bool):
            return str(v)
        if isinstance(v, bool):
            return "true" if v else "false"
        return self.env.tok(v)

    def put(self, section, **kw):
        sec = self.s.setdefault(section, {})
        for k, v in kw.items():
            if v is not None:
                sec[k.replace("_", "-") if k != "n_steps" and k != "n_dim" else k] = self.t(v)

    def run(self):
        write(self.env, self.s)
        out, exc = run_main(self.env)
        self.env.check(out == "ok", "the run finishes: %s %r" % (out, exc))
        return out == "ok"


def the_potential(env, c, nd, bc, order=2, viafile=False, simple=False):
    P = env.mod("bdld.potential.polynomial")
    r = sym_ranges(env, nd)
    if nd == 1:
        co = [env.real("c%d" % k, hint=(-1, 1)) for k in range(order + 1)]
        c.put("potential", type="polynomial", n_dim=1, min=r[0][0], max=r[0][1], boundary_condition=bc)
        if viafile:
            c.put("potential", coeffs_file="cf")
            env.write_input("cf", "".join("%d %s\n" % (k, env.tok(v)) for k, v in enumerate(co)))
        else:
            c.put("potential", coeffs=co)
        arr = env.arr(co)
    else:
        terms = [(2,) + (0,) * (nd - 1), (0,) * (nd - 1) + (1,), (1,) * nd] if not simple else [(0,) * (nd - 1) + (1,)]
        co = [env.const("1/2")] if simple else [env.real("c%d" % k, hint=(-1, 1)) for k in range(len(terms))]
        c.put("potential", type="polynomial", n_dim=nd, min=[x[0] for x in r], max=[x[1] for x in r], boundary_condition=bc, coeffs_file="cf")
        env.write_input("cf", "# comment\n" + "".join(" ".join(map(str, t)) + " " + env.tok(v) + "\n" for t, v in zip(terms, co)))
        shape = tuple(max(t[d] for t in terms) + 1 for d in range(nd))

        def at(i):
            return co[terms.index(i)] if i in terms else env.const(0)
        arr = env.arr([at(i) for i in itertools.product(*[range(m) for m in shape])]).reshape(shape)
    pot = P.PolynomialPotential(arr, list(r))
    set_bc_(env, pot, bc)
    return pot


def set_bc_(env, pot, bc):
    B = env.mod("bdld.potential.potential").BoundaryCondition
    if bc:
        pot.boundary_condition = B[bc]


def the_ld(env, c, kind, pot, nsteps, seed=4):
    B = env.mod("bdld.actions.bussi_parinello_ld")
    O = env.mod("bdld.actions.overdamped_ld")
    dt = env.real("dt", pos=True, hint=(0.02, 0.4))
    if kind == "bpld":
        kt = env.real("kt", pos=True, hint=(0.4, 2))
        fr = env.real("friction", nonneg=True, hint=(0.1, 2))
        c.put("ld", type="bussi-parinello", timestep=dt, n_steps=nsteps, seed=seed, kt=kt, friction=fr)
        return lambda: B.BussiParinelloLD(pot, dt, fr, kt, seed)
    c.put("ld", type="overdamped", timestep=dt, n_steps=nsteps, seed=seed)
    return lambda: O.OverdampedLD(pot, dt, seed)


def the_walkers(env, c, nd, n, mass=None, hint=(-1, 1)):
    pos = [[env.real("x%d_%d" % (i, d), hint=hint) for d in range(nd)] for i in range(n)]
    c.put("particles", number=n, initial_distribution="fractions-pos", fractions=[1] * n, mass=mass, seed=9, **{"pos%d" % (i + 1): p for i, p in enumerate(pos)})
    return pos


BCS_ = [None, "reflective", "periodic"]


def c25_dynamics(env, kind, nd, n, steps, bc, pot="polynomial", viafile=False, wmass=True, vary=True):
    c = Case(env)
    nsteps = steps[env.choose("n_steps", len(steps))]
    if pot == "polynomial":
        p = the_potential(env, c, nd, bc, viafile=viafile)
    else:
        sf = env.real("scale", pos=True, hint=(0.01, 0.3)) if env.choose("scaled", 2) else None
        c.put("potential", type="mueller-brown", scaling_factor=sf, boundary_condition=bc)
        p = env.mod("bdld.potential.mueller_brown").MuellerBrownPotential(sf) if sf is not None else env.mod("bdld.potential.mueller_brown").MuellerBrownPotential()
        set_bc_(env, p, bc)
    mk = the_ld(env, c, kind, p, nsteps)
    mass = env.real("mass", pos=True, hint=(0.5, 2)) if wmass else None
    pos = the_walkers(env, c, nd, n, mass)
    if bc:  # inside the range
        for x in pos:
            for d in range(nd):
                env.assume(x[d] >= p.ranges[d][0])
                env.assume(x[d] <= p.ranges[d][1])
    stride = [None, 2][env.choose("stride", 2)] if vary else None
    mom = ([None, True, False][env.choose("momentum", 3)] if vary else True) if kind == "bpld" else None
    fmt = [None, "%%.4e"][env.choose("fmt", 2)] if nd == 1 else None
    ws = [None, 2][env.choose("ws", 2)] if vary else None
    c.put("trajectories", filename="traj", stride=stride, momentum=mom, fmt=fmt, write_stride=ws)
    if not c.run():
        return
    ld = mk()
    for x in pos:
        ld.add_particle(list(x), mass if wmass else 1.0)
    T = env.mod("bdld.actions.trajectory_action").TrajectoryAction(ld, stride or 1, "ref_traj", bool(mom), ws or 100, "%.4e" if fmt else "%14.9f")
    for step in range(1, nsteps + 1):
        ld.run(step)
        T.run(step)
    T.final_run(nsteps)
    for i in range(n):
        same_file(env, "traj.%d" % i, "ref_traj.%d" % i, "trajectory")


for kind in ("bpld", "od"):
    for bc in BCS_:
        add("C25", "dyn-%s-1d-%s" % (kind, bc), partial(c25_dynamics, kind=kind, nd=1, n=1, steps=[1, 2], bc=bc), "one walker, 1D quadratic potential with any coefficients and range, one or two steps, %s, boundary %s" % (kind, bc), weight=4 if bc else 2)
    add("C25", "dyn-%s-2w" % kind, partial(c25_dynamics, kind=kind, nd=1, n=2, steps=[3], bc=None), "two walkers, three steps", weight=2)
    add("C25", "dyn-%s-file" % kind, partial(c25_dynamics, kind=kind, nd=1, n=1, steps=[1], bc=None, viafile=True, wmass=False), "1D coefficients from a file, default mass")
    add("C25", "dyn-%s-2d" % kind, partial(c25_dynamics, kind=kind, nd=2, n=1, steps=[1], bc="reflective" if kind == "bpld" else "periodic"), "2D potential from file", weight=2)
    add("C25", "dyn-%s-3d" % kind, partial(c25_dynamics, kind=kind, nd=3, n=1, steps=[1], bc=None), "3D potential from file")
add("C25", "dyn-mb", partial(c25_dynamics, kind="od", nd=2, n=1, steps=[1], bc=None, pot="mb"), "Mueller-Brown potential with and without scaling")
add("C25", "dyn-mb-r", partial(c25_dynamics, kind="bpld", nd=2, n=1, steps=[1], bc="reflective", pot="mb", vary=False), "Mueller-Brown potential, reflective", weight=3, tier="thorough")


def c25_potential(env, kind, nd):
    """range and boundary condition of the potential are those of the input file"""
    M = env.mod("bdld.main")
    c = Case(env)
    bc = BCS_[env.choose("bc", 3)]
    if kind == "mb":
        sf = env.real("scale", pos=True, hint=(0.01, 0.3)) if env.choose("scaled", 2) else None
        c.put("potential", type="mueller-brown", scaling_factor=sf, boundary_condition=bc)
        ref = env.mod("bdld.potential.mueller_brown").MuellerBrownPotential(sf)
        set_bc_(env, ref, bc)
    else:
        ref = the_potential(env, c, nd, bc)
    c.s["ld"], c.s["particles"] = base(env)["ld"], base(env)["particles"]
    write(env, c.s)
    pot = M.setup_potential(env.mod("bdld.inputparser").Input("input").potential)
    env.check(pot.n_dim == nd, "dimension of the potential")
    for d in range(nd):
        for k in (0, 1):
            env.check_eq(pot.ranges[d][k], ref.ranges[d][k], "range of the potential")
    x = [env.real("x%d" % d, hint=(-4, 4)) for d in range(nd)]
    p = [env.real("p%d" % d, hint=(-2, 2)) for d in range(nd)]
    env.check_eq(pot.energy(env.arr(x)), ref.energy(env.arr(x)), "energy of the potential")
    env.check_arr(pot.force(env.arr(x)), ref.force(env.arr(x)), "force of the potential")
    xa, pa, xb, pb = env.arr(x), env.arr(p), env.arr(x), env.arr(p)
    pot.apply_boundary_condition(xa, pa)
    ref.apply_boundary_condition(xb, pb)
    env.check_arr(xa, list(xb), "position under the boundary condition of the input (%s)" % bc)
    env.check_arr(pa, list(pb), "momentum under the boundary condition of the input (%s)" % bc)


add("C25", "potential-mb", partial(c25_potential, kind="mb", nd=2), "Mueller-Brown potential, any position and momentum, all boundary conditions")
for nd in (1, 2, 3):
    add("C25", "potential-%dd" % nd, partial(c25_potential, kind="polynomial", nd=nd), "%dD polynomial potential, any position and momentum, all boundary conditions" % nd)


VARIANTS = [None, "orig", "original", "add", "additive", "mult", "multiplicative"]


def c25_bd(env, nd, n, nsteps, kind="bpld", variants=(0,), simple=False, vary=True, stats=()):
    M = env.mod("bdld.main")
    B = env.mod("bdld.actions.birth_death")
    c = Case(env)
    pot = the_potential(env, c, nd, None, order=1, simple=simple)
    mk = the_ld(env, c, kind, pot, nsteps)
    pos = the_walkers(env, c, nd, n)
    stride = 1 + env.choose("stride", 2) if vary else 1
    bw = [env.real("bw%d" % d, pos=True, hint=(0.2, 1)) for d in range(nd)]
    rate = env.real("rate", pos=True, hint=(0.5, 3)) if not vary or env.choose("rated", 2) else None
    rec = [None, True, False][env.choose("recalc", 3)] if vary else None
    key = ["approximation_variant", "correction_variant"][env.choose("key", 2)]
    var = VARIANTS[variants[env.choose("variant", len(variants))]]
    ss = 1 if not vary or env.choose("stats", 2) else None
    sf = "stats" if ss else None
    if stats:
        ss, sf = stats[env.choose("statistics", len(stats))]
    c.put("birth-death", stride=stride, kernel_bandwidth=bw, exponential_factor=rate, recalculate_probabilities=rec, seed=6, stats_stride=ss, stats_filename=sf, **{key: var})
    if var and key == "approximation_variant" and env.choose("both", 2):
        c.put("birth-death", correction_variant="orig" if var[0] != "o" else "mult")  # approximation-variant has precedence
    c.put("trajectories", filename="traj")
    small = []

    def dens(p, b, kt):
        G = env.mod("bdld.grid")
        g = G.from_npoints([(-5 * x, 5 * x) for x in b], [3] * len(b))  # kernel of three points
        g.data = env.arr([env.const(k + 1) / 50 for k in range(3 ** len(b))])
        small.append((p, b, kt, g))
        return g
    if var and var[0] in "am":
        M.bd_prob_density = dens
    nr = len(env.rngs)
    if not c.run():
        return
    ld = mk()
    for x in pos:
        ld.add_particle(list(x), 1.0)
    bdseed = [r.seed for r in env.rngs[nr:-1]][-1]
    V = B.ApproxVariant
    v = {"o": V.orig, "a": V.add, "m": V.mult}[(var or "o")[0]]
    if var and var[0] in "am":
        env.check(len(small) == 1, "density for the approximation")
        env.check_arr(list(small[0][1]), bw, "bandwidth used for the density")
        env.check_eq(small[0][2], ld.kt, "kT used for the density")
    bd = B.BirthDeath(ld.particles, ld.dt, stride, env.arr(bw), ld.kt, rate, bool(rec), v, dens(pot, bw, ld.kt) if var and var[0] in "am" else None, bdseed, ss, "ref_stats" if sf else None)
    T = env.mod("bdld.actions.trajectory_action").TrajectoryAction(ld, 1, "ref_traj", False, 100, "%14.9f")
    for step in range(1, nsteps + 1):
        ld.run(step)
        bd.run(step)
        T.run(step)
    bd.final_run(nsteps)
    T.final_run(nsteps)
    for i in range(n):
        same_file(env, "traj.%d" % i, "ref_traj.%d" % i, "trajectory")
    if sf:
        same_file(env, "stats", "ref_stats", "statistics")
    else:
        env.check("stats" not in env.listfiles(), "no file of statistics unless it is asked for")
    no_more(env, None, "birth-death run")


add("C25", "bd-1d", partial(c25_bd, nd=1, n=2, nsteps=2, kind="od"), "birth-death, two walkers, two steps, any bandwidth and factor", weight=8, shards=4)
add("C25", "bd-1d-bp", partial(c25_bd, nd=1, n=2, nsteps=1), "birth-death with Langevin dynamics, one step, any kT", weight=5, shards=2)
add("C25", "bd-variants", partial(c25_bd, nd=1, n=2, nsteps=1, kind="od", variants=(1, 2, 3, 4, 5, 6), vary=False), "names of the approximation variants (density replaced by a small grid)", weight=8, shards=4)
add("C25", "bd-stats", partial(c25_bd, nd=1, n=2, nsteps=2, kind="od", simple=True, vary=False, stats=[(None, "stats"), (2, "stats"), (1, None)]), "statistics with and without stride and file, two steps", weight=8, shards=4)
add("C25", "bd-2d", partial(c25_bd, nd=2, n=2, nsteps=1, kind="od", simple=True, vary=False), "birth-death in 2D", weight=5, shards=2)


def c25_density(env, nd):
    """grid of the equilibrium density: range of the potential, odd number of points, fine enough"""
    M = env.mod("bdld.main")
    r = sym_ranges(env, nd)
    bw = [env.real("bw%d" % d, pos=True, hint=(0.002, 0.05)) for d in range(nd)]
    kt = env.real("kt", pos=True)
    calls = []

    class Pot:
        ranges = list(r)
        n_dim = nd

        def calculate_probability_density(self, kt, grid_ranges, n_points):
            calls.append((kt, grid_ranges, n_points))
            return "grid"

    for d in range(nd):
        w = r[d][1] - r[d][0]
        for b in bw if env.sym else bw[d:d + 1]:
            env.assume(w <= b * 255 if env.sym else w <= b * 1500)
            env.assume(w >= b * 245 if env.sym else True)
    got = M.bd_prob_density(Pot(), env.arr(bw), kt)
    env.check(got == "grid" and len(calls) == 1, "density of the potential")
    env.check_eq(calls[0][0], kt, "kT")
    env.check_arr([list(x) for x in calls[0][1]], [list(x) for x in r], "range of the density")
    for d in range(nd):
        n = int(calls[0][2][d])
        env.check(n % 2 == 1 and n >= 501, "odd number of points, at least 501")
        env.check((r[d][1] - r[d][0]) <= n * bw[d] / 2 * (1 if env.sym else 1 + 1e-12), "spacing resolves the bandwidth")


def c25_output(env, nd, which, nsteps=2, n=1, kind="od"):
    """files of all analysis actions; walkers anywhere"""
    c = Case(env)
    pot = the_potential(env, c, nd, None, order=0 if nd == 1 else 2, simple=True)
    mk = the_ld(env, c, kind, pot, nsteps)
    pos = the_walkers(env, c, nd, n)
    ld0 = {}
    tws = [None, 1, 2][env.choose("traj-ws", 3)] if which == "histogram" else 1
    c.put("trajectories", write_stride=tws)
    opt = {}
    pick = lambda name, *v: opt.setdefault(name, v[env.choose(name, len(v))] if len(v) > 1 else v[0])
    wrap = lambda v: v[0] if nd == 1 else v
    hr, hb = None, None
    if which in ("histogram", "fes", "delta-f"):
        hr = [(env.real("hlo%d" % d, hint=(-2, 0)), env.real("hw%d" % d, pos=True, hint=(1, 3))) for d in range(nd)]
        hr = [(a, a + w) for a, w in hr]
        hb = [2] + [1] * (nd - 1)
        full = which == "histogram"
        c.put("histogram", min=wrap([a for a, b in hr]), max=wrap([b for a, b in hr]), bins=wrap(hb), stride=pick("h-stride", None, 2) if full else None,
              filename=pick("h-file", "histo"), write_stride=pick("h-ws", None, 1) if full else None, fmt=pick("h-fmt", None, "%%8.3f") if full else None,
              reset=pick("reset", None, 1, [1, 2]) if full else None)
    if which in ("fes", "delta-f"):
        kt = env.real("fes_kt", pos=True, hint=(0.4, 2))
        full = which == "fes"
        fst = pick("f-stride", None, 1, 2) if full else 1
        c.put("fes", kt=kt, stride=fst, filename="fes" if full else None, write_stride=pick("f-ws", None, 1) if full and fst else None, fmt=pick("f-fmt", None, "%%8.3f") if full else None)
    if which in ("delta-f", "particle-distribution"):
        st = []
        for k in range(2):
            st.append([(env.real("a%d_%d" % (k, d), hint=(-2, 0)), env.real("b%d_%d" % (k, d), hint=(0, 2))) for d in range(nd)])
        if which == "delta-f":
            # fixed membership: the first state covers the first bin, the second one all
            st = [[], []]
            for d in range(nd):
                w = (hr[d][1] - hr[d][0]) / hb[d]
                u = [env.real("u%d_%d" % (k, d), lo=0, hi=1) for k in range(4)]
                st[0].append((hr[d][0] - u[0], hr[d][0] + w * (u[1] * 2 + 3) / 5))
                st[1].append((hr[d][0] - u[2], hr[d][1] + u[3]))
        sopt = {}
        for k in range(2):
            sopt["state%d_min" % (k + 1)] = [a for a, b in st[k]]
            sopt["state%d_max" % (k + 1)] = [b for a, b in st[k]]
        sstride = pick("s-stride", None, 1, 2)
        sws = pick("s-ws", None, 2) if sstride else None
        sfmt = pick("s-fmt", None, "%%8.3f")
        c.put(which, stride=sstride, filename="states", write_stride=sws, fmt=sfmt, **sopt)
    if not c.run():
        return
    ld = mk()
    for x in pos:
        ld.add_particle(list(x), 1.0)
    T = env.mod("bdld.actions.trajectory_action").TrajectoryAction(ld, 1, None, False, tws or 100, None)
    acts = [ld, T]
    un = lambda f: f.replace("%%", "%") if f else "%14.9f"
    if hr:
        reset = opt.get("reset")
        H = env.mod("bdld.actions.histogram_action").HistogramAction(T, list(hb), list(hr), opt.get("h-stride") or 1, [reset] if reset == 1 else reset, "ref_histo", opt.get("h-ws"), un(opt.get("h-fmt")))
        acts.append(H)
    if which in ("fes", "delta-f"):
        FA = env.mod("bdld.actions.fes_action").FesAction(H, fst, "ref_fes" if which == "fes" else None, opt.get("f-ws"), un(opt.get("f-fmt")), kt=kt)
        acts.append(FA)
    if which == "delta-f":
        import numpy as np
        masks = [np.zeros(hb, dtype=bool), np.ones(hb, dtype=bool)]
        masks[0][(0,) * nd] = True
        acts.append(env.mod("bdld.actions.delta_f_action").DeltaFAction(FA, masks, sstride, "ref_states", sws or (100 * sstride if sstride else None), un(sfmt)))
    if which == "particle-distribution":
        acts.append(env.mod("bdld.actions.particle_distribution").ParticleDistributionAction(ld.particles, st, sstride, "ref_states", sws or (100 * sstride if sstride else None), un(sfmt)))
    for step in range(1, nsteps + 1):
        for a in acts:
            a.run(step)
    for a in acts:
        a.final_run(nsteps)
    for f in [f for f in env.listfiles() if f.startswith("ref_")]:
        same_file(env, f[4:], f, which)
    no_more(env, None, which)


for nd in (1, 2):
    add("C25", "density-%dd" % nd, partial(c25_density, nd=nd), "any range and bandwidth around the point where the number of grid points starts to grow (ratio 245 to 255)", weight=1 + nd)
for which in ("histogram", "fes", "delta-f", "particle-distribution"):
    for nd in (1, 2):
        add("C25", "out-%s-%dd" % (which, nd), partial(c25_output, nd=nd, which=which, nsteps=3 - nd), "%s, %dD, one walker, two steps (one in 2D), all ranges and states, strides and formats" % (which, nd), weight=6, shards=2)


DIRECT = {  # options of the section, trajectory write stride
    "histogram": [((None, None, None, None), None), ((2, 1, "%%8.3f", [1, 2]), 1), ((None, 1, None, [1, 2]), 2), ((None, 2, "%%.4e", [1]), 1), ((2, None, None, [2, 1]), 2)],
    "fes": [((None, None, None, None), 1), ((1, 1, "%%8.3f", None), 1), ((2, 1, None, None), 1), ((1, 2, "%%.4e", None), 1)],
    "delta-f": [((None, None, None, None), 1), ((1, 2, "%%8.3f", None), 1), ((2, None, None, None), 1), ((1, None, "%%.4e", None), 1)],
    "particle-distribution": [((None, None, None, None), 1), ((1, 2, "%%8.3f", None), 1), ((2, None, None, None), 1), ((1, 1, "%%.4e", None), 1)],
}


def c25_direct(env, nd, which, nsteps, n=1):
    """files of the analysis actions compared with their definition evaluated on the walkers after every step"""
    c = Case(env)
    pot = the_potential(env, c, nd, None, order=0 if nd == 1 else 2, simple=True)
    mk = the_ld(env, c, "od", pot, nsteps)
    pos = the_walkers(env, c, nd, n)
    combos = DIRECT[which]
    (stride, ws, fmt, reset), tws = combos[env.choose("options", len(combos))]
    c.put("trajectories", write_stride=tws)
    wrap = lambda v: v[0] if nd == 1 else v
    own = dict(stride=stride, filename="out", write_stride=ws, fmt=fmt)
    hb = [2] + [1] * (nd - 1)
    hr, st = [], []
    if which != "particle-distribution":
        for d in range(nd):
            a = env.real("hlo%d" % d, hint=(-2, 0))
            hr.append((a, a + env.real("hw%d" % d, pos=True, hint=(1, 3))))
        c.put("histogram", min=wrap([a for a, b in hr]), max=wrap([b for a, b in hr]), bins=wrap(hb), **(dict(own, reset=(reset[0] if reset and len(reset) == 1 else reset)) if which == "histogram" else {}))
    if which in ("fes", "delta-f"):
        kt = env.real("fes_kt", pos=True, hint=(0.4, 2))
        c.put("fes", kt=kt, **(own if which == "fes" else dict(stride=1)))
    if which == "delta-f":  # the first state covers the first bin, the second one all
        w = [(hr[d][1] - hr[d][0]) / hb[d] for d in range(nd)]
        st = [[(hr[d][0], hr[d][0] + w[d] * env.const("3/5")) for d in range(nd)], [hr[d] for d in range(nd)]]
    elif which == "particle-distribution":
        st = [[(env.real("a%d_%d" % (k, d), hint=(-2, 0)), env.real("b%d_%d" % (k, d), hint=(0, 2))) for d in range(nd)] for k in range(2)]
    if st:
        c.put(which, **dict(own, **{"state%d_%s" % (k + 1, m): [x[j] for x in s] for k, s in enumerate(st) for j, m in enumerate(("min", "max"))}))
    if not c.run():
        return
    ld = mk()
    for x in pos:
        ld.add_particle(list(x), 1.0)
    frames = {}
    for step in range(1, nsteps + 1):
        ld.run(step)
        frames[step] = [env.tolist(p.pos) for p in ld.particles]
    edges = lambda d: [hr[d][0] + (hr[d][1] - hr[d][0]) * i / hb[d] for i in range(hb[d] + 1)]
    cells = list(itertools.product(*[range(m) for m in hb]))
    mids = [[(edges(d)[i[d]] + edges(d)[i[d] + 1]) / 2 for d in range(nd)] for i in cells] if hr else None
    memo = {}

    def cell(t, i):
        """bin of walker i after step t, or None"""
        if (t, i) not in memo:
            idx = []
            for d, x in enumerate(frames[t][i]):
                e = edges(d)
                if not (env.decide(x >= e[0]) and env.decide(x <= e[-1])):
                    idx = None
                    break
                k = 0
                while k < hb[d] - 1 and env.decide(x >= e[k + 1]):
                    k += 1
                idx.append(k)
            memo[t, i] = tuple(idx) if idx is not None else None
        return memo[t, i]

    def counts(upto, first, every=1):
        hit = [cell(t, i) for t in range(first + 1, upto + 1) if t % every == 0 for i in range(n)]
        return [sum(h == q for h in hit) for q in cells]

    def near(rows, want):
        """the numbers of a real file are rounded to their format"""
        if env.sym:
            return rows
        def one(g, w):
            if w is None or g is None or g == w:
                return g
            tol = 1e-3 if fmt == "%%8.3f" else 1e-4 * abs(w) + 1e-9 if fmt else 1e-7
            return w if abs(g - w) < tol else g
        return [[one(g, w) for g, w in zip(r, q)] + list(r[len(q):]) for r, q in zip(rows, want)] + rows[len(want):]

    def expect(name, rows, want, text):
        env.check(len(rows) == len(want), "%s: %d rows in %s instead of %d" % (which, len(rows), name, len(want)))
        env.check_arr(rows, want, "%s in %s" % (text, name))
        if env.sym:
            f = fmt.replace("%%", "%") if fmt else "%14.9f"
            env.check(all(g == f for row in fmts for g in row if g is not None), "format of %s" % name)

    def surface(cnt):
        top = max(cnt)
        return [kt * env.log(env.const(top) / k) if k else float("inf") for k in cnt]

    written = {}
    if which == "histogram":
        s = stride or 1
        upd = tws or 100
        for t in list(range(1, nsteps + 1)) + [None]:
            if t is not None and not (ws and t % ws == 0):
                continue
            last = nsteps if t is None else t // upd * upd
            past = [r for r in reset or [] if (r <= nsteps if t is None else r < t)]
            written["out" + ("_%d" % t if t else "")] = [m + [k] for m, k in zip(mids, counts(last, max(past + [0]), s))]
    elif which == "fes":
        for t in list(range(1, nsteps + 1)) + [None]:
            if t is not None and not (ws and t % ws == 0):
                continue
            last = nsteps if t is None else t // stride * stride
            written["out" + ("_%d" % t if t else "")] = [m + [v] for m, v in zip(mids, surface(counts(last, 0)))]
    else:
        rows = []
        for t in range(1, nsteps + 1):
            if not (t % stride == 0 if stride else t == nsteps):
                continue
            if which == "delta-f":
                cnt = counts(t, 0)
                rows.append([t * ld.dt, -kt * env.log(env.const(sum(cnt)) / cnt[0]) if cnt[0] else None])
            else:
                ins = [[all(env.decide(x >= a) and env.decide(x <= b) for x, (a, b) in zip(frames[t][i], q)) for i in range(n)] for q in st]
                rows.append([t] + [sum(q) for q in ins])
        written["out"] = rows
    for name, want in written.items():
        if not env.exists(name):
            env.check(False, "%s: file %s is written" % (which, name))
            continue
        _, rows = env.table(name)
        rows = near(rows, want)
        fmts = env.fmts if env.sym else []
        if which == "delta-f":  # not defined without frames in the first state
            rows = [[x if y is not None else None for x, y in zip(r, w)] for r, w in zip(rows, want)] + rows[len(want):]
            skip = [k for k, w in enumerate(want) if w[1] is None]
            env.check_arr([r[0] for r in rows], [w[0] for w in want], "times in " + name)
            rows, want = [r for k, r in enumerate(rows) if k not in skip], [w for k, w in enumerate(want) if k not in skip]
            if not want:
                continue
        expect(name, rows, want, which)
    extra = [f for f in env.listfiles() if f not in written and f not in ("input", "coeffs.dat", "cf")]
    env.check(not extra, "no other files than requested: %s" % extra)


for which in DIRECT:
    for nd in (1, 2):
        if nd == 2 and which == "particle-distribution":
            continue
        add("C25", "direct-%s-%dd" % (which, nd), partial(c25_direct, nd=nd, which=which, nsteps=4 - nd), "%s, %dD, one walker, %d steps, files compared with their definition" % (which, nd, 4 - nd), weight=5, shards=2, tier="quick" if nd == 1 else "thorough")
add("C25", "direct-2w", partial(c25_direct, nd=1, which="histogram", nsteps=2, n=2), "histogram of two walkers compared with its definition", weight=5, shards=2)


# ---------------------------------------------------------------- C26
def prepare(env, nd, kind="bpld"):
    """integrator on an arbitrary potential, set up from its own constructor"""
    from props.pot import free_potential, make_ld
    r = sym_ranges(env, nd)
    pot = free_potential(env, nd, r)
    return make_ld(env, kind, pot, env.const("1/10"), env.const(1), env.const(1), 1), pot, r


def particle_options(env, c, nd):
    """options as parsed from the input file"""
    c.s["ld"] = base(env)["ld"]
    c.s["potential"] = base(env, n_dim=nd)["potential"]
    write(env, c.s)
    return env.mod("bdld.inputparser").Input("input").particles


def common(env, ld, n, mass):
    env.check(len(ld.particles) == n, "%d walkers instead of %d" % (len(ld.particles), n))
    for p in ld.particles:
        env.check_eq(p.mass, mass, "mass")
        env.check_arr(p.mom, [0] * ld.pot.n_dim, "walkers start at rest")
    for a, b in itertools.combinations(ld.particles, 2):
        env.check(a is not b and a.pos is not b.pos, "walkers are separate objects")


def c26_global(env, nd, numbers, kind="bpld", same=False):
    M = env.mod("bdld.main")
    ld, pot, r = prepare(env, nd, kind)
    n = numbers[env.choose("number", len(numbers))]
    mass = env.real("mass", pos=True) if env.choose("massive", 2) else None
    c = Case(env)
    c.put("particles", number=n, initial_distribution="random-global", mass=mass, seed=5)
    nr = len(env.rngs)
    M.init_particles(particle_options(env, c, nd), ld)
    common(env, ld, n, mass if mass is not None else 1)
    for i, p in enumerate(ld.particles):
        for d in range(nd):
            env.check(p.pos[d] >= r[d][0], "walker %d lies above the minimum" % i)
            env.check(p.pos[d] <= r[d][1], "walker %d lies below the maximum" % i)
    # every coordinate is a uniform number of its own, stretched over the whole range
    u = [v for g in env.rngs[nr:] for v in g.draws("u")]
    env.check(len(u) == n * nd, "one random number per coordinate")
    if len(u) == n * nd:
        it = [(p.pos[d] - r[d][0]) / (r[d][1] - r[d][0]) for p in ld.particles for d in range(nd)]
        left = list(u)
        for x in it:
            hit = [k for k, v in enumerate(left) if (env.identical(x, v) or env.identical(x, 1 - v) if env.sym else min(abs(x - v), abs(1 - x - v)) < 1e-9)]
            env.check(bool(hit), "coordinate covers the whole range of the potential")
            if hit:
                left.pop(hit[0])


def c26_pos(env, nd, npos, numbers):
    M = env.mod("bdld.main")
    ld, pot, r = prepare(env, nd)
    n = numbers[env.choose("number", len(numbers))]
    pos = [[env.real("p%d_%d" % (k, d)) for d in range(nd)] for k in range(npos)]
    c = Case(env)
    c.put("particles", number=n, initial_distribution="random-pos", seed=5, **{"pos%d" % (k + 1): p for k, p in enumerate(pos)})
    nr = len(env.rngs)
    opts = particle_options(env, c, nd)
    M.init_particles(opts, ld)
    common(env, ld, n, 1)
    picks = [v for g in env.rngs[nr:] for k, v in g.log if k in ("c", "i")]
    seen = []
    for p in ld.particles:
        x = env.tolist(p.pos)
        hit = [k for k in range(npos) if (all(env.identical(a, b) for a, b in zip(x, pos[k])) if env.sym else x == pos[k])]
        env.check(bool(hit), "walker sits on one of the given positions")
        seen.append(hit[0] if hit else None)
    if len(picks) == n:  # drawn position by position: the outcome of each draw gives another position
        env.check(len(set(picks)) == len(set(seen)), "different draws give different positions")
    if n == 1 and len(picks) == 1:
        outcomes(env, M, opts, npos, pos, nd)


def outcomes(env, M, opts, npos, pos, nd):
    """all positions occur: try every outcome of the draw"""
    from props.pot import free_potential, make_ld
    got = set()

    class EveryRNG:
        pick = 0
        sizes = set()

        def _i(self, n):
            EveryRNG.sizes.add(n)
            return min(self.pick, n - 1)

        def choice(self, a, size=None, axis=0, **k):
            a = list(range(a)) if isinstance(a, int) else a
            v = a[self._i(len(a))]
            return v if size is None else [v]

        def integers(self, low, high=None, size=None, **k):
            lo, hi = (0, low) if high is None else (low, high)
            return lo + self._i(hi - lo)

    class NP:
        def __init__(self, np):
            self._np = np
            self.random = self

        def __getattr__(self, k):
            return getattr(self._np, k)

        def default_rng(self, seed=None):
            return EveryRNG()

    old = M.np
    M.np = NP(old)
    try:
        for k in range(npos):
            EveryRNG.pick = k
            ld = make_ld(env, "od", free_potential(env, nd, [(env.const(-1), env.const(1))] * nd), env.const("1/10"), seed=1)
            M.init_particles(opts, ld)
            x = env.tolist(ld.particles[0].pos)
            got.update(j for j in range(npos) if (all(env.identical(a, b) for a, b in zip(x, pos[j])) if env.sym else x == pos[j]))
    except AttributeError:
        return  # drawn in some other way
    finally:
        M.np = old
    env.check(got == set(range(npos)), "all positions can occur: %s" % got)


def c26_fractions(env, nd, npos, numbers, whole=False):
    M = env.mod("bdld.main")
    ld, pot, r = prepare(env, nd, "od")
    n = numbers[env.choose("number", len(numbers))]
    pos = [[env.real("p%d_%d" % (k, d)) for d in range(nd)] for k in range(npos)]
    mass = env.real("mass", pos=True) if env.choose("massive", 2) else None
    if whole:  # absolute numbers
        fr = [env.integer("n%d" % k, lo=0, hi=n, hint=(0, n)) for k in range(npos)]
        tot = sum(fr[1:], fr[0])
        if not env.sym:
            if sum(fr) != n:
                raise Unmet("sum")
        env.assume(tot == n)
    else:
        fr = [env.real("f%d" % k, nonneg=True, hint=(0, 1)) for k in range(npos)]
        tot = sum(fr[1:], fr[0])
        env.assume(tot > 0)
    c = Case(env)
    c.put("particles", number=n, initial_distribution="fractions-pos", fractions=fr, mass=mass, **{"pos%d" % (k + 1): p for k, p in enumerate(pos)})
    M.init_particles(particle_options(env, c, nd), ld)
    common(env, ld, n, mass if mass is not None else 1)
    want = []
    for k in range(npos):
        share = fr[k] * n / tot
        if env.sym:
            m = 0
            while m < n and env.decide(share >= m + 1):
                m += 1
        else:
            m = int(share + 1e-9)
            if 1e-12 < abs(share - round(share)) < 1e-8:
                raise Unmet("rounding")
        want.append(m)
    want[0] += n - sum(want)
    got = [0] * npos
    for p in ld.particles:
        x = env.tolist(p.pos)
        hit = [k for k in range(npos) if (all(env.identical(a, b) for a, b in zip(x, pos[k])) if env.sym else x == pos[k])]
        env.check(len(hit) == 1, "walker sits on one of the given positions")
        if hit:
            got[hit[0]] += 1
    env.check(got == want, "walkers per position: %s instead of %s" % (got, want))


def c26_decimal(env):
    """decimal fractions with whole shares (rounding of the machine numbers must not matter)"""
    cases = [(["0.3", "0.4", "0.3"], 100), (["0.1"] * 10, 10), (["0.29", "0.71"], 100), (["0.57", "0.43"], 100), (["1", "2"], 3), (["30", "40", "30"], 100), (["0.7", "0.2", "0.1"], 10), (["0.15", "0.85"], 20), (["3", "0", "1"], 8)]
    fr, n = cases[env.choose("case", len(cases))]
    from fractions import Fraction
    M = env.mod("bdld.main")
    ld, pot, r = prepare(env, 1, "od")
    s = {"particles": {"number": str(n), "initial-distribution": "fractions-pos", "fractions": ", ".join(fr)}, "ld": base(env)["ld"], "potential": base(env)["potential"]}
    for k in range(len(fr)):
        s["particles"]["pos%d" % (k + 1)] = str(k * 0.5)
    write(env, s)
    M.init_particles(env.mod("bdld.inputparser").Input("input").particles, ld)
    tot = sum(Fraction(f) for f in fr)
    want = [int(Fraction(f) * n / tot) for f in fr]
    got = [sum(1 for p in ld.particles if env.tolist(p.pos)[0] == k * 0.5) for k in range(len(fr))]
    env.check(got == want, "fractions %s of %d walkers give %s instead of %s" % (fr, n, got, want))


def c26_mismatch(env):
    k = env.choose("positions", 4)
    m = 1 + env.choose("fractions", 4)
    if k == m:
        return
    s = only(base(env))
    s["particles"] = {"number": "4", "initial-distribution": "fractions-pos", "fractions": ", ".join(["0.5"] * m)}
    for i in range(k):
        s["particles"]["pos%d" % (i + 1)] = "0.%d" % i
    write(env, s)
    rejected(env, "%d positions and %d fractions" % (k, m), need_exit=False)


for nd in (1, 2, 3):
    add("C26", "global-%dd" % nd, partial(c26_global, nd=nd, numbers=[1, 2, 5] if nd == 1 else [1, 3]), "random-global, up to 5 walkers, any range and mass, %dD" % nd)
add("C26", "global-od", partial(c26_global, nd=1, numbers=[2], kind="od"), "random-global, overdamped")
for nd, npos, nums in [(1, 1, [1, 2]), (1, 3, [1, 2]), (2, 2, [1, 3]), (3, 2, [1]), (1, 11, [1])]:
    add("C26", "pos-%dd-%d" % (nd, npos), partial(c26_pos, nd=nd, npos=npos, numbers=nums), "random-pos, %d position(s) in %dD" % (npos, nd))
for nd, npos, nums, tier in [(1, 1, [1, 3], "quick"), (1, 2, [1, 2, 5], "quick"), (2, 2, [4], "quick"), (1, 3, [1, 4], "quick"), (3, 2, [3], "quick"), (1, 3, [7], "thorough"), (1, 4, [5], "thorough"), (1, 2, [20], "thorough")]:
    add("C26", "fractions-%dd-%d%s" % (nd, npos, "" if tier == "quick" else "-%d" % nums[0]), partial(c26_fractions, nd=nd, npos=npos, numbers=nums), "fractions-pos, %d position(s) in %dD, %s walkers, all fractions" % (npos, nd, nums), tier=tier, weight=npos)
add("C26", "fractions-whole", partial(c26_fractions, nd=1, npos=3, numbers=[3, 6], whole=True), "fractions given as numbers of walkers", weight=2)
add("C26", "fractions-decimal", c26_decimal, "decimal fractions with whole shares (concrete values)")
add("C26", "mismatch", c26_mismatch, "different numbers of positions and fractions")
meta("C26", assumptions=["rounding of a share to nine decimals is treated as exact in the symbolic runs"])


# ---------------------------------------------------------------- C27
def c27(env, kind, dist, bd, nsteps=1, n=2, same=False, recalc=False):
    names = ["ld", "particles", "birth-death"]
    seed = {}
    for s in names:
        seed[s] = env.integer("seed-" + s, lo=0, hint=(0, 3)) if not same or s == "ld" else seed["ld"]
    files = []
    for run in (1, 2):
        env.new_process()
        c = Case(env)
        c.s = only(base(env, ld="bussi-parinello" if kind == "bpld" else "overdamped", dist=dist), *(["birth-death"] if bd else []))
        c.put("ld", seed=seed["ld"], n_steps=nsteps)
        c.put("particles", seed=seed["particles"], number=n)
        if bd:
            c.put("birth-death", seed=seed["birth-death"], stats_stride=1, stats_filename="stats%d" % run, recalculate_probabilities=recalc)
        c.put("trajectories", filename="traj%d" % run)
        for s in c.s:
            for k in ("seed", "number", "n_steps"):
                pass
        nr = len(env.rngs)
        if not c.run():
            return
        used = [g for g in env.rngs[nr:] if g.log]
        for g in env.rngs[nr:]:
            env.check(g.seed is not None or not g.log, "all random numbers come from seeded generators")
        env.check(not env.events, "no other source of random numbers is used: %s" % env.events)
        if bd:
            L = [g for g in used if any(k == "n" for k, v in g.log)]
            B = [g for g in used if not any(k == "n" for k, v in g.log) and any(k in ("s", "i") or k == "u" for k, v in g.log)]
            if same and dist == "fractions-pos":
                for a in L:
                    for b in B:
                        env.check(a is b or not env.decide(a.seed * env.const(1) == b.seed * env.const(1)) if not isinstance(a.seed, str) else True, "birth-death uses another random stream than the dynamics")
    for i in range(n):
        same_file(env, "traj1.%d" % i, "traj2.%d" % i, "repeated run")
    if bd:
        same_file(env, "stats1", "stats2", "repeated run")


def c27_direct(env, which):
    """constructors of the actions"""
    from props.pot import free_potential, make_ld
    env.keyed = True
    s = env.integer("seed", lo=0, hint=(0, 3))
    out = []
    for run in (1, 2):
        env.new_process()
        pot = free_potential(env, 1, [(env.const(-1), env.const(1))])
        nr = len(env.rngs)
        if which == "bd":
            B = env.mod("bdld.actions.birth_death").BirthDeath
            ld = make_ld(env, "od", pot, env.const("1/10"), seed=1)
            for x in ("1/4", "-1/2"):
                ld.add_particle([env.const(x)])
            nr = len(env.rngs)
            B(ld.particles, env.const("1/10"), 1, env.arr([env.const("1/2")]), env.const(1), seed=s).run(1)
        else:
            ld = make_ld(env, which, pot, env.const("1/10"), env.const(1), env.const(1), s)
            ld.add_particle([env.const("1/4")])
            ld.run(1)
        for g in env.rngs[nr:]:
            env.check(g.seed is not None, "seed is passed to the generator")
        out.append([env.tolist(p.pos) for p in ld.particles])
    env.check_arr(out[0], out[1], "same seed, same positions")
    env.check(not env.events, "no other source of random numbers is used: %s" % env.events)


for kind in ("bpld", "od"):
    for dist in ("random-global", "random-pos", "fractions-pos"):
        add("C27", "%s-%s" % (kind, dist), partial(c27, kind=kind, dist=dist, bd=False, nsteps=2), "two identical runs of two steps, %s, %s, all seeds" % (kind, dist), weight=2)
    add("C27", "%s-bd" % kind, partial(c27, kind=kind, dist="fractions-pos", bd=True), "with birth-death, all seeds", weight=3)
    add("C27", "%s-bd-same" % kind, partial(c27, kind=kind, dist="fractions-pos", bd=True, same=True), "same seed for all, any value", weight=3)
add("C27", "bd-global", partial(c27, kind="od", dist="random-global", bd=True), "with birth-death and random positions, all seeds", weight=3)
add("C27", "bd-recalc", partial(c27, kind="od", dist="fractions-pos", bd=True, recalc=True), "with birth-death and recalculated probabilities", weight=3)
for w in ("bpld", "od", "bd"):
    add("C27", "direct-" + w, partial(c27_direct, which=w), "constructor with any seed")
meta("C27", assumptions=["numpy's generators are deterministic functions of their seed and the sequence of calls; generators with equal seed give equal numbers"])


# ---------------------------------------------------------------- C28
CLASSES = [("ld", "bdld.actions.bussi_parinello_ld", "BussiParinelloLD"), ("ld", "bdld.actions.overdamped_ld", "OverdampedLD"), ("birth-death", "bdld.actions.birth_death", "BirthDeath"),
           ("trajectories", "bdld.actions.trajectory_action", "TrajectoryAction"), ("histogram", "bdld.actions.histogram_action", "HistogramAction"), ("fes", "bdld.actions.fes_action", "FesAction"),
           ("delta-f", "bdld.actions.delta_f_action", "DeltaFAction"), ("particle-distribution", "bdld.actions.particle_distribution", "ParticleDistributionAction")]
SEQ = ["ld", "birth-death", "trajectories", "histogram", "fes", "delta-f", "particle-distribution"]


def record(env, calls, passive=True):
    """replace the work of the actions by a record of the calls"""
    undo = []
    for name, mod, cls in CLASSES:
        C = getattr(env.mod(mod), cls)
        for meth in ("run", "final_run"):
            had = meth in C.__dict__
            undo.append((C, meth, C.__dict__.get(meth)))
            setattr(C, meth, (lambda nm, mt: lambda self, step=None: calls.append((nm, mt, step)))(name, meth))
    return undo


def c28(env, kind, lengths):
    calls = []
    n = lengths[env.choose("n_steps", len(lengths))]
    opt = [x for x in SEQ[1:] if env.choose("with " + x, 2)]
    s = base(env, ld="bussi-parinello" if kind == "bpld" else "overdamped")
    s = {k: v for k, v in s.items() if k in ("ld", "potential", "particles") or k in opt}
    if env.choose("reversed", 2):
        s = dict(reversed(list(s.items())))
    s["ld"]["n_steps"] = str(n)
    write(env, s)
    missing = [x for x in opt if any(y not in opt for y in NEEDS.get(x, []))]
    undo = record(env, calls)
    try:
        if missing:
            out, exc = run_main(env)
            env.check(out in ("exit", "error"), "%s without a required section is rejected (%s)" % (missing, out))
            env.check(not calls, "nothing is run")
            if out == "exit":
                logs = [m for lev, m in env.logs if lev in ("ERROR", "CRITICAL")]
                env.check(any(y in m for m in logs for x in missing for y in NEEDS[x] if y not in opt), "error names the missing section: %s" % logs)
            return
        out, exc = run_main(env)
        env.check(out == "ok", "run finishes: %r" % exc)
    finally:
        for C, m, f in undo:
            if f is not None:
                setattr(C, m, f)
            else:
                delattr(C, m)
    want = []
    present = ["ld"] + [x for x in SEQ[1:] if x in opt]
    for step in range(1, n + 1):
        want += [(x, "run", step) for x in present]
    want += [(x, "final_run", n) for x in present]
    env.check(calls == want, "order of the actions %s: %s instead of %s" % (opt, calls[:12], want[:12]))


def c28_nsteps(env):
    """symbolic number of steps"""
    calls = []
    n = env.integer("n_steps", lo=1, hi=12, hint=(1, 12))
    s = only(base(env), "trajectories")
    s["ld"]["n_steps"] = env.tok(n)
    write(env, s)
    undo = record(env, calls)
    try:
        out, exc = run_main(env)
    finally:
        for C, m, f in undo:
            if f is not None:
                setattr(C, m, f)
            else:
                delattr(C, m)
    env.check(out == "ok", "run finishes: %r" % exc)
    runs = [c[2] for c in calls if c[0] == "ld" and c[1] == "run"]
    env.check(runs == list(range(1, len(runs) + 1)), "steps are numbered from one")
    env.check_eq(len(runs), n, "number of steps")


def c28_data(env, nsteps):
    """outputs of a step describe the walkers after the moves of this step"""
    c = Case(env)
    pot = the_potential(env, c, 1, None, order=1)
    mk = the_ld(env, c, "od", pot, nsteps)
    pos = the_walkers(env, c, 1, 2)
    c.put("trajectories", filename="traj")
    c.put("birth-death", stride=1, kernel_bandwidth=env.const("1/2"), seed=6)
    st = [(env.real("a", hint=(-2, 0)), env.real("b", hint=(0, 2)))]
    c.put("particle-distribution", stride=1, filename="pd", state1_min=[st[0][0]], state1_max=[st[0][1]])
    if not c.run():
        return
    T = [env.table("traj.%d" % i)[1] for i in range(2)]
    P = env.table("pd")[1]
    env.check(len(P) == nsteps and len(T[0]) == nsteps, "one row per step")
    for k in range(nsteps):
        m = sum(env.decide(T[i][k][1] >= st[0][0]) and env.decide(T[i][k][1] <= st[0][1]) for i in range(2))
        if not env.sym and any(abs(T[i][k][1] - b) < 1e-8 for i in range(2) for b in st[0]):
            raise Unmet("rounding")
        env.check_arr(P[k], [k + 1, m], "counts of step %d agree with the positions of this step" % (k + 1))


add("C28", "order-bpld", partial(c28, kind="bpld", lengths=[1, 3]), "every subset of the optional sections, one or three steps, sections in any of two orders", weight=2)
add("C28", "order-od", partial(c28, kind="od", lengths=[2]), "every subset of the optional sections, two steps", weight=2)
add("C28", "n_steps", c28_nsteps, "any number of steps up to 12")
add("C28", "data", partial(c28_data, nsteps=1), "one step with birth-death: positions and counts written belong to the same state", weight=3)
add("C28", "data-2", partial(c28_data, nsteps=2), "two steps", weight=6, shards=4, tier="thorough")


# ---------------------------------------------------------------- C29
def c29_parse(env, section, nd, count=None):
    """numbered states in the input file"""
    nmin = env.choose("minima", 4) if count is None else count
    nmax = env.choose("maxima", 4) if count is None else count
    gap = env.choose("gap", 2)
    s = only(base(env, n_dim=nd), section)
    for k in [k for k in s[section] if k.startswith("state")]:
        del s[section][k]
    lo = [[env.real("a%d_%d" % (k, d)) for d in range(nd)] for k in range(nmin)]
    hi = [[env.real("b%d_%d" % (k, d)) for d in range(nd)] for k in range(nmax)]
    c = Case(env)
    for k in reversed(range(nmin)):
        s[section]["state%d-min" % (k + 1)] = c.t(lo[k])
    for k in range(nmax):
        s[section]["state%d-max" % (k + 1)] = c.t(hi[k])
    if gap:  # numbers after a gap are not used
        s[section]["state%d-min" % (nmin + 2)] = "7.0"
        s[section]["state%d-max" % (nmax + 2)] = "8.0"
    write(env, s)
    if nmin != nmax or nmin == 0:
        rejected(env, "%d minima and %d maxima" % (nmin, nmax), (section,))
        return
    if section == "delta-f" and nmin < 2:
        rejected(env, "a single state for delta-f", need_exit=False)
        return
    I = env.mod("bdld.inputparser")
    opts = getattr(I.Input("input"), KEYS[section])
    a = I.get_all_numbered_values(opts, "state", "-min")
    b = I.get_all_numbered_values(opts, "state", "-max")
    env.check_arr([list(x) for x in a], lo, "minima in order")
    env.check_arr([list(x) for x in b], hi, "maxima in order")
    r = I.min_max_to_ranges(a, b)
    env.check(len(r) == nmin and all(len(x) == nd for x in r), "one range per state and dimension")
    env.check_arr([[list(y) for y in x] for x in r], [[[lo[k][d], hi[k][d]] for d in range(nd)] for k in range(nmin)], "ranges of the states")


def c29_ranges(env, ns):
    """min_max_to_ranges with any (mixed) dimensions"""
    I = env.mod("bdld.inputparser")
    da = [1 + env.choose("da%d" % k, 3) for k in range(ns)]
    db = [1 + env.choose("db%d" % k, 3) for k in range(ns)]
    lo = [[env.real("a%d_%d" % (k, d)) for d in range(da[k])] for k in range(ns)]
    hi = [[env.real("b%d_%d" % (k, d)) for d in range(db[k])] for k in range(ns)]
    if len(set(da + db)) > 1:
        e = env.raises(lambda: I.min_max_to_ranges(lo, hi), ValueError)
        env.check(e is not None, "inconsistent dimensions %s %s are rejected" % (da, db))
        return
    r = I.min_max_to_ranges(lo, hi)
    env.check(len(r) == ns and all(len(x) == da[0] for x in r), "one range per state and dimension")
    env.check_arr([[list(y) for y in x] for x in r], [[[a, b] for a, b in zip(lo[k], hi[k])] for k in range(ns)], "ranges of the states")


def c29_scalar(env, ns):
    """plain numbers as bounds"""
    I = env.mod("bdld.inputparser")
    m = env.choose("more", 3)
    lo = [env.real("a%d" % k) for k in range(ns)]
    hi = [env.real("b%d" % k) for k in range(max(ns + m - 1, 0))]
    if len(lo) != len(hi):
        e = env.raises(lambda: I.min_max_to_ranges(lo, hi), ValueError)
        env.check(e is not None, "different numbers of minima and maxima are rejected")
        return
    r = I.min_max_to_ranges(list(lo), list(hi))
    env.check_arr([[list(y) for y in x] for x in r], [[[a, b]] for a, b in zip(lo, hi)], "ranges of the states")


def c29_numbered(env):
    I = env.mod("bdld.inputparser")
    have = [k for k in range(1, 13) if k <= 10 or env.choose("k%d" % k, 2)]
    drop = env.choose("drop", 12)
    d = {}
    for k in sorted(have, key=lambda x: (x * 7) % 13):
        if k != drop:
            d["pre%dsuf" % k] = env.real("v%d" % k)
            d["other%d" % k] = env.const(99)
            d["pre%d" % k] = env.const(98)
    got = I.get_all_numbered_values(d, "pre", "suf")
    want = []
    k = 1
    while "pre%dsuf" % k in d:
        want.append(d["pre%dsuf" % k])
        k += 1
    env.check(len(got) == len(want), "%d values instead of %d" % (len(got), len(want)))
    env.check_arr(got, want, "numbered values in numeric order up to the first gap")


for sec in ("delta-f", "particle-distribution"):
    for nd in (1, 2, 3):
        add("C29", "input-%s-%dd" % (sec, nd), partial(c29_parse, section=sec, nd=nd), "up to three minima and maxima in [%s], %dD, any values" % (sec, nd))
    add("C29", "input-%s-12" % sec, partial(c29_parse, section=sec, nd=2, count=12), "twelve states in [%s], 2D, any values" % sec)
for ns in (1, 2):
    add("C29", "ranges-%d" % ns, partial(c29_ranges, ns=ns), "%d state(s), every combination of dimensions 1 to 3" % ns)
add("C29", "ranges-3", partial(c29_ranges, ns=3), "3 states", tier="thorough")
for ns in (1, 2, 3):
    add("C29", "scalar-%d" % ns, partial(c29_scalar, ns=ns), "%d bounds given as plain numbers" % ns)
add("C29", "numbered", c29_numbered, "up to 12 numbered options with gaps")
