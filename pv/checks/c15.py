import numpy as np
from hypothesis import strategies as st

import popsynth
from popsynth.auxiliary_sampler import AuxiliaryParameter, AuxiliarySampler, DerivedLumAuxSampler
from popsynth.distribution import DistributionParameter, LuminosityDistribution, SpatialDistribution
from popsynth.distributions.cosmological_distribution import CosmologicalDistribution
from popsynth.selection_probability import SelectionParameter, SelectionProbability
from .. import gen
from ..core import Sub, check, fail

ASSUMPTIONS = [
    "values are single numbers; a value that is not a number is not inside declared limits",
    "the declared limits and defaults of the built-in classes are those transcribed in this module",
]

INF = float("inf")


def P(default=None, lo=None, hi=None):
    return dict(default=default, lo=lo, hi=hi, free=True)


ANY, POS, ONE = P(), P(None, 0), P(1, 0)
RMAX = P(10, 0)
SIG = P(1, 0)

TABLE = dict(
    SFRDistribution=dict(r0=POS, a=POS, rise=ANY, decay=ANY, peak=POS, r_max=RMAX),
    ZPowerCosmoDistribution=dict(Lambda=ONE, delta=ANY, r_max=RMAX),
    UniformCosmoDistribution=dict(r0=POS, zmin=POS, zmax=POS, r_max=RMAX),
    ConstantSphericalDistribution=dict(Lambda=ONE, r_max=RMAX),
    ZPowerSphericalDistribution=dict(Lambda=ONE, delta=P(1), r_max=RMAX),
    FlatlandDistribution=dict(Lambda=ONE, r_max=RMAX),
    SpiralGalaxyDistribution=dict(rho=POS, a=ANY, b=ANY, R1=ANY, R0=ANY, r_max=RMAX),
    DeltaDistribution=dict(Lp=P(0, 0)),
    ParetoDistribution=dict(Lmin=ONE, alpha=P(1)),
    SchechterDistribution=dict(Lmin=ONE, alpha=P(1)),
    LogNormalDistribution=dict(mu=ANY, tau=POS),
    Log10NormalDistribution=dict(mu=ANY, tau=POS),
    BPLDistribution=dict(Lmin=POS, alpha=ANY, Lbreak=POS, beta=ANY, Lmax=POS),
    LogUniLuminiosityDistribution=dict(Lmin=POS, Lmax=POS),
    DeltaAuxSampler=dict(xp=P(0), sigma=SIG),
    NormalAuxSampler=dict(mu=P(0), tau=ONE, sigma=SIG),
    LogNormalAuxSampler=dict(mu=P(0), tau=ONE, sigma=SIG),
    Log10NormalAuxSampler=dict(mu=P(0), tau=ONE, sigma=SIG),
    TruncatedNormalAuxSampler=dict(mu=P(0), tau=ONE, lower=ANY, upper=ANY, sigma=SIG),
    TruncatedLogNormalAuxSampler=dict(mu=P(0), tau=ONE, lower=POS, upper=POS, sigma=SIG),
    TruncatedLog10NormalAuxSampler=dict(mu=P(0), tau=ONE, lower=POS, upper=POS, sigma=SIG),
    ParetoAuxSampler=dict(xmin=ONE, alpha=ONE, sigma=SIG),
    PowerLawAuxSampler=dict(xmin=ONE, xmax=P(2, 0), alpha=P(1), sigma=SIG),
    BrokenPowerLawAuxSampler=dict(xmin=POS, alpha=ANY, xbreak=POS, beta=ANY, xmax=POS, sigma=SIG),
    ViewingAngleSampler=dict(max_angle=P(90, 0, 180)),
    BernoulliSelection=dict(probability=P(0.5, 0, 1)),
    BoxSelection=dict(vmin=ANY, vmax=ANY),
    LowerBound=dict(boundary=ANY),
    UpperBound=dict(boundary=ANY),
    SoftSelection=dict(boundary=ANY, strength=POS),
    HardFluxSelection=dict(boundary=ANY),
    SoftFluxSelection=dict(boundary=ANY, strength=POS),
    GalacticPlaneSelection=dict(b_limit=P(None, 0, 90)),
    DistanceSelection=dict(min_distance=POS, max_distance=POS),
)

NAMED = [k for k in TABLE if k.endswith("AuxSampler")]
# can be drawn with any accepted values, and quickly
DRAWABLE = ["DeltaAuxSampler", "NormalAuxSampler", "LogNormalAuxSampler", "Log10NormalAuxSampler",
            "ParetoAuxSampler", "PowerLawAuxSampler", "ViewingAngleSampler", "DeltaDistribution",
            "ParetoDistribution", "SchechterDistribution", "LogNormalDistribution", "Log10NormalDistribution",
            "LogUniLuminiosityDistribution", "BernoulliSelection"]


def value(v):
    """A number of the stated type."""
    t, x = v["t"], v["v"]
    return dict(f=float, i=int, f64=np.float64, f32=np.float32, i64=np.int64, i32=np.int32)[t](x)


def inside(p, x):
    if p["lo"] is not None and not (x >= p["lo"]):
        return False
    if p["hi"] is not None and not (x <= p["hi"]):
        return False
    return True


def numbers(p):
    """Mostly near the limits of the parameter."""
    lo, hi = p["lo"], p["hi"]
    fl = st.sampled_from(["f", "f", "f64"])
    it = st.sampled_from(["i", "i64", "i32"])
    opts = [
        st.tuples(fl, st.floats(-200, 200)),
        st.tuples(it, st.integers(-200, 200)),
        st.tuples(fl, gen.lognum(1e-6, 1e6)),
        st.tuples(st.just("f32"), st.integers(-400, 400).map(lambda k: k / 4)),
        st.tuples(fl, st.sampled_from([0.0, -0.0, 1e-300, -1e-300, 5e-324, 1e300, -1e300])),
    ]
    for b in (lo, hi):
        if b is not None:
            b = float(b)
            near = [b, float(np.nextafter(b, -INF)), float(np.nextafter(b, INF)), b - 1e-9, b + 1e-9,
                    b - 1e-3, b + 1e-3, b - 0.5, b + 0.5, b - 1, b + 1]
            opts.append(st.tuples(fl, st.sampled_from(near)))
            opts.append(st.tuples(fl, st.sampled_from(near)))
            if b == int(b):
                opts.append(st.tuples(it, st.sampled_from([int(b), int(b) - 1, int(b) + 1])))
    if lo is not None and hi is not None:
        opts.append(st.tuples(fl, st.floats(float(lo), float(hi))))
        opts.append(st.tuples(fl, st.floats(float(lo), float(hi))))
    if lo is not None or hi is not None:
        opts.append(st.tuples(fl, st.just(float("nan"))))
        opts.append(st.tuples(fl, st.sampled_from([INF, -INF])))
    return st.one_of(opts).map(lambda t: dict(t=t[0], v=t[1]))


@st.composite
def scenario(draw, tables, ninst, nops):
    """tables: {class label: {param: P}}"""
    labels = sorted(tables)
    k = draw(st.integers(2, ninst))
    first = draw(st.sampled_from(labels))
    inst = [first] + [draw(st.sampled_from(labels + [first] * len(labels))) for _ in range(k - 1)]
    ops = []
    for _ in range(draw(st.integers(1, nops))):
        i = draw(st.integers(0, k - 1))
        p = draw(st.sampled_from(sorted(tables[inst[i]])))
        o = draw(st.sampled_from(["set", "set", "set", "get", "get", "new", "list", "draw"]))
        if o == "set":
            ops.append([o, i, p, draw(numbers(tables[inst[i]][p]))])
        elif o == "get":
            ops.append([o, i, p])
        else:
            ops.append([o, i])
    return dict(inst=inst, ops=ops, seed=draw(gen.seeds))


builtin = scenario(TABLE, 4, 14)


# ------------------------------------------------------- user-defined classes

@st.composite
def declarations(draw):
    out = {}
    for j in range(draw(st.integers(1, 4))):
        lo = draw(st.one_of(st.none(), st.sampled_from([0, 1, -1, 0.0, 0.5, -2.5, 10]), gen.num(-20, 20)))
        hi = None
        if draw(st.booleans()):
            base = lo if lo is not None else draw(st.sampled_from([0, 1, -3, 0.25]))
            hi = base + draw(st.sampled_from([0, 1, 0.5, 3, 90]))
        default = None
        if draw(st.booleans()):
            default = draw(gen.num(-5, 5))
            if draw(st.booleans()):
                default = draw(st.sampled_from([0, 1, 0.0]))
            if lo is not None and default < lo:
                default = lo
            if hi is not None and default > hi:
                default = hi
        out["p%d" % j] = dict(default=default, lo=lo, hi=hi, free=draw(st.integers(0, 4)) > 0)
    return out


KINDS = ["aux", "derived", "lum", "spatial", "cosmo", "sel"]


@st.composite
def custom_cases(draw):
    n = draw(st.integers(1, 3))
    decl = []
    for j in range(n):
        d = dict(kind=draw(st.sampled_from(KINDS)), params=draw(declarations()))
        # a class may extend another one, with parameters of its own
        if j and draw(st.booleans()):
            d["base"] = draw(st.integers(0, j - 1))
            d["kind"] = decl[d["base"]]["kind"]
            d["params"] = {k + "x%d" % j if draw(st.booleans()) else k: v for k, v in d["params"].items()}
        decl.append(d)
    tables = {}
    for j, d in enumerate(decl):
        t = dict(tables["K%d" % d["base"]]) if "base" in d else {}
        if d["kind"] in ("spatial", "cosmo") and not t:
            t["r_max"] = RMAX
        t.update(d["params"])
        tables["K%d" % j] = t
    case = draw(scenario(tables, 4, 14))
    case["decl"] = decl
    case["tables"] = tables
    return case


_count = [0]


def make_classes(decl):
    """The declared classes, built as the documentation says."""
    out = {}
    _count[0] += 1
    for j, d in enumerate(decl):
        kind = d["kind"]
        P_ = {"aux": AuxiliaryParameter, "derived": AuxiliaryParameter, "sel": SelectionParameter}.get(kind, DistributionParameter)
        label = "K%d" % j
        ns = {k: P_(default=p["default"], vmin=p["lo"], vmax=p["hi"], free=p["free"]) for k, p in d["params"].items()}
        reg = {"aux": "_auxiliary_sampler_name", "derived": "_auxiliary_sampler_name", "sel": "_selection_name"}.get(kind, "_distribution_name")
        ns[reg] = "Pv%d_%d" % (_count[0], j)
        if "base" in d:
            base = out["K%d" % d["base"]]
        else:
            base = dict(aux=AuxiliarySampler, derived=DerivedLumAuxSampler, lum=LuminosityDistribution,
                        spatial=SpatialDistribution, cosmo=CosmologicalDistribution, sel=SelectionProbability)[kind]
            inits = dict(
                aux=lambda self: AuxiliarySampler.__init__(self, "q", observed=False),
                derived=lambda self: DerivedLumAuxSampler.__init__(self, "q", uses_distance=False),
                lum=lambda self: LuminosityDistribution.__init__(self, seed=1, name="q"),
                spatial=lambda self: SpatialDistribution.__init__(self, seed=1, name="q"),
                cosmo=lambda self: CosmologicalDistribution.__init__(self, seed=1, name="q"),
                sel=lambda self: SelectionProbability.__init__(self, name="q"),
            )
            ns["__init__"] = inits[kind]
            ident = lambda self, *a, **k: None
            for f in ("true_sampler", "observation_sampler", "compute_luminosity", "phi", "draw_luminosity",
                      "differential_volume", "dNdV", "time_adjustment", "transform", "draw"):
                if f in dir(base) or kind in ("derived",):
                    if f == "draw" and kind != "sel":
                        continue
                    ns[f] = ident
        out[label] = type(base)("PvK%d_%d" % (_count[0], j), (base,), ns)
    return out


# ------------------------------------------------------------------ judging

def fresh(label, classes):
    if classes is not None:
        return classes[label]()
    c = gen.cls_of(label) if label != "DistanceSelection" else gen.ss_.DistanceSelection
    if label in NAMED:
        return c("q", observed=True)
    if label in ("BoxSelection", "LowerBound", "UpperBound", "SoftSelection"):
        return c(use_obs_value=True)
    return c()


def outcome(o, label, seed):
    np.random.seed(seed % 2 ** 31)
    try:
        if label.endswith("Selection"):
            o.reset()
            o.select(6)
            return np.array(o.selection)
        if label.endswith("Distribution"):
            return np.array(o.draw_luminosity(6), dtype=float)
        o.reset()
        o.draw(size=6)
        return np.array([o.true_values, o.obs_values], dtype=float)
    except Exception as e:
        return type(e).__name__


def run(case):
    tables = case.get("tables") or TABLE
    classes = make_classes(case["decl"]) if case.get("decl") else None
    objs = [fresh(l, classes) for l in case["inst"]]
    model = [{} for _ in objs]
    lab = dict(set=0, refused=0, at_limit=0, defaults=0, missing=0, fixed=0, draws=0)
    same = len(set(case["inst"])) < len(case["inst"])

    def get(i, p):
        d = tables[case["inst"][i]][p]
        what = "%s.%s" % (case["inst"][i], p)
        want = model[i].get(p, d["default"])
        try:
            got = getattr(objs[i], p)
        except AssertionError:
            check(want is None, "%s cannot be read; it is %s", what, want)
            lab["missing"] += 1
            return
        check(want is not None, "%s was never set and has no default but reads %s", what, got)
        check(np.ndim(got) == 0 and got == want, "%s reads %r, not %r", what, got, want)
        if p not in model[i]:
            lab["defaults"] += 1

    def everything():
        for i in range(len(objs)):
            for p in sorted(tables[case["inst"][i]]):
                get(i, p)

    for op in case["ops"]:
        i = op[1]
        label = case["inst"][i]
        if op[0] == "set":
            p, x = op[2], value(op[3])
            d = tables[label][p]
            ok = d["free"] and inside(d, x)
            try:
                setattr(objs[i], p, x)
                refused = False
            except RuntimeError:
                refused = True
            what = "%s.%s (limits %s to %s%s) = %r" % (label, p, d["lo"], d["hi"], "" if d["free"] else ", fixed", x)
            check(refused == (not ok), "%s was %s", what, "refused" if refused else "accepted")
            if ok:
                model[i][p] = x
                lab["set"] += 1
                if x in (d["lo"], d["hi"]):
                    lab["at_limit"] += 1
            else:
                lab["refused"] += 1
                lab["fixed"] += not d["free"]
            get(i, p)
        elif op[0] == "get":
            get(i, op[2])
        elif op[0] == "new":
            objs[i] = fresh(label, classes)
            model[i] = {}
        elif op[0] == "list":
            pars = dict(objs[i].parameters if isinstance(objs[i], SelectionProbability) else objs[i].truth)
            for k, v in model[i].items():
                check(k in pars and pars[k] == v, "the parameters of %s list %s, %s is %r", label, pars, k, v)
            for k, v in pars.items():
                check(k in tables[label], "the parameters of %s list %s", label, k)
                want = model[i].get(k, tables[label][k]["default"])
                check(v == want, "the parameters of %s list %s=%r, it is %r", label, k, v, want)
        elif op[0] == "draw" and classes is None and label in DRAWABLE:
            if any(tables[label][k]["default"] is None and k not in model[i] for k in tables[label]):
                continue
            if any(not np.isfinite(float(v)) or abs(float(v)) > 1e6 for v in model[i].values()):
                continue
            o = fresh(label, None)
            for k, v in model[i].items():
                setattr(o, k, v)
            a, b = outcome(objs[i], label, case["seed"]), outcome(o, label, case["seed"])
            check(type(a) is type(b) and (a == b if isinstance(a, str) else gen.same(a, b)),
                  "%s with %s draws %s, another with the same parameters %s", label, model[i], a, b)
            lab["draws"] += 1
    everything()
    everything()
    lab["nontrivial"] = lab["set"] > 0 and (lab["refused"] > 0 or same)
    return lab


SUBCHECKS = [
    Sub("builtin", builtin, run, quick=6000, thorough=120000,
        rule="a parameter was set, and one refused or two instances of one class compared"),
    Sub("declared", custom_cases(), run, quick=1600, thorough=30000,
        rule="a parameter was set, and one refused or two instances of one class compared"),
]
