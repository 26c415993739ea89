import numpy as np
import scipy.integrate as integrate
from hypothesis import strategies as st

import popsynth
import popsynth.populations as pp
from popsynth.populations.spatial_populations import MWRadialPopulation
from .. import gen, rec
from ..core import Sub, check, fail
from .c17 import MOVES

ASSUMPTIONS = [
    "arguments left out have their documented defaults: r_max 5 (10 with Schechter luminosities, 20 in the spiral galaxy), "
    "seed 1234, is_rate True, and the documented Milky Way values of the spiral galaxy",
]

LUM = dict(ParetoDistribution=("Pareto", ["Lmin", "alpha"]), SchechterDistribution=("Schechter", ["Lmin", "alpha"]),
           BPLDistribution=("BPL", ["Lmin", "alpha", "Lbreak", "beta", "Lmax"]),
           LogNormalDistribution=("LogNormal", ["mu", "tau"]), Log10NormalDistribution=("Log10Normal", ["mu", "tau"]))
SPAT = dict(ConstantSphericalDistribution=("HomogeneousSpherical", "Spherical", ["Lambda"]),
            ZPowerSphericalDistribution=("ZPowerSpherical", "ZPowerSpherical", ["Lambda", "delta"]),
            ZPowerCosmoDistribution=("ZPowerCosmo", "ZPowerCosmo", ["Lambda", "delta"]),
            SFRDistribution=("SFR", "SFR", ["r0", "a", "rise", "decay", "peak"]))
COSMO = ("ZPowerCosmoDistribution", "SFRDistribution")
NORM = dict(ConstantSphericalDistribution="Lambda", ZPowerSphericalDistribution="Lambda", ZPowerCosmoDistribution="Lambda",
            SFRDistribution="r0", SpiralGalaxyDistribution="rho")
MW = dict(a=1.64, b=4.01, R1=0.55, R0=8.5)
LUMS = ["pareto", "schechter", "bpl", "logn", "log10n"]
BOUNDED = ("Lambda", "r0", "a", "peak", "Lmin", "tau", "Lbreak", "Lmax", "r_max", "rho")


@st.composite
def cases(draw):
    kinds = ["cs", "zs", "zc", "sfr"] * 3 + ["sp"]
    spec = draw(gen.specs(nmax=25, kinds=[draw(st.sampled_from(kinds))], thin=True, naux=1, maxdepth=1, lums=LUMS))
    if spec["lum"] is None:
        # purely spatial, with a derived luminosity
        spec["plain"] = True
    else:
        spec["plain"] = spec["spatial"]["cls"] == "SpiralGalaxyDistribution" or draw(st.integers(0, 5)) == 0
    spec["give_lum"] = draw(st.booleans())
    spec["omit"] = [k for k in ("r_max", "seed", "is_rate", "mw") if draw(st.integers(0, 3)) == 0]
    spec["positional"] = draw(st.booleans())
    spec["ints"] = draw(st.booleans())
    spec["free_size"] = draw(st.one_of(st.none(), st.none(), gen.num(1, 60)))
    spec["bad"] = draw(st.one_of(st.none(), st.integers(0, 20)))
    spec["moves"] = draw(st.lists(st.tuples(st.integers(0, 20), gen.num(0, 1), gen.draws(20)).map(list), max_size=3))
    return spec


def signature(spec):
    """Class, names of the required and of the optional arguments."""
    s, l = spec["spatial"]["cls"], spec.get("lum")
    if s == "SpiralGalaxyDistribution":
        return MWRadialPopulation, ["rho"], ["a", "b", "R1", "R0", "r_max", "seed", "luminosity_distribution"]
    rate = ["is_rate"] if s in COSMO else []
    if spec["plain"]:
        return getattr(pp, SPAT[s][1] + "Population"), list(SPAT[s][2]), ["r_max", "seed", "luminosity_distribution"] + rate
    n, p = LUM[l["cls"]]
    return getattr(pp, n + SPAT[s][0] + "Population"), SPAT[s][2] + p, ["r_max", "seed"] + rate


def plain(r):
    """Whole numbers and floats of one value are the same."""
    return {k: v if isinstance(v, np.ndarray) else rec.numeric(v) for k, v in r.items()}


def run(case):
    spec = dict(case)
    s = spec["spatial"]
    c, req, opt = signature(spec)
    mw = s["cls"] == "SpiralGalaxyDistribution"
    # the defaults
    p = s["params"] = dict(s["params"])
    if "r_max" in case["omit"]:
        p["r_max"] = 20 if mw else 10 if not case["plain"] and spec["lum"]["cls"] == "SchechterDistribution" else 5
    if "seed" in case["omit"]:
        spec["seed"] = 1234
    if s["cls"] in COSMO and "is_rate" in case["omit"]:
        s = spec["spatial"] = dict(s, rate=True)
    if mw and "mw" in case["omit"]:
        p.update(MW)
    if case["ints"]:
        for q in (p, spec["lum"]["params"] if spec.get("lum") else {}):
            for k in q:
                if float(q[k]) == int(q[k]):
                    q[k] = int(q[k])
    d = dict(spec["draw"])
    if case["free_size"] is not None:
        # no requested size: set the rate for a mean number of objects
        p[NORM[s["cls"]]] = 1.0
        t = gen.build_spatial(s)
        total = integrate.quad(lambda r: t.dNdV(r) * t.differential_volume(r) / t.time_adjustment(r), 0, p["r_max"])[0]
        p[NORM[s["cls"]]] = gen.sig(case["free_size"] / total, 8)
        d["n_samples"] = None
    lums = dict(spec["lum"]["params"]) if spec.get("lum") else {}
    spec["seed"] = spec["seed"] % 2 ** 31
    spec = gen.resolve(spec) if spec.get("lum") or spec.get("derived") else spec

    given = dict(p, seed=spec["seed"], is_rate=s.get("rate"))
    if not case["plain"]:
        given.update(lums)
    lum_obj = gen.build_lum(spec["lum"]) if case["plain"] and spec.get("lum") else None
    given["luminosity_distribution"] = lum_obj
    left = {"seed": "seed" in case["omit"], "r_max": "r_max" in case["omit"], "is_rate": "is_rate" in case["omit"],
            "luminosity_distribution": lum_obj is None}
    if mw and "mw" in case["omit"]:
        left.update({k: True for k in MW})

    def make(values):
        args, kw = [], {}
        names = req + opt
        pos = case["positional"]
        for k in names:
            if left.get(k):
                pos = False
                continue
            if pos:
                args.append(values[k])
            else:
                kw[k] = values[k]
        return c(*args, **kw)

    lab = dict(cls=c.__name__, omitted=len(case["omit"]) > 0, free_size=case["free_size"] is not None, changed=0, objects=0)
    if case["bad"] is not None:
        names = [k for k in req + opt if k in BOUNDED and not left.get(k) and not (mw and k == "a")]
        k = names[case["bad"] % len(names)]
        try:
            make(dict(given, **{k: -1.0}))
        except RuntimeError:
            lab["refused"] = True
        else:
            fail("%s accepts %s=-1", c.__name__, k)

    ready = make(given)
    twin = make(given)
    check(isinstance(ready, popsynth.PopulationSynth), "not a synthesizer")

    def same_params(synth, what):
        for k, v in p.items():
            g = getattr(synth.spatial_distribution, k)
            check(g == v, "%s: %s of %s is %s, given %s", what, k, c.__name__, g, v)
        for k, v in lums.items():
            g = getattr(synth.luminosity_distribution, k)
            check(g == v, "%s: %s of %s is %s, given %s", what, k, c.__name__, g, v)

    same_params(ready, "new")
    b1 = gen.build(spec, synth=ready)
    comp = gen.build(spec)

    def compare(d, what):
        x, y = comp.synth.draw_survey(**d), ready.draw_survey(**d)
        a, b = plain(rec.full(x)), plain(rec.full(y))
        dd = rec.diff(a, b)
        check(not dd, "%s: the survey of %s differs from that of its composition in %s: %s", what, c.__name__, dd, rec.show(a, b, dd))
        lab["objects"] += y.n_objects
        check(rec.numeric(rec.config(ready.to_dict())) == rec.numeric(rec.config(comp.synth.to_dict())), "%s: the configuration of %s is %s, composed %s",
              what, c.__name__, ready.to_dict(), comp.synth.to_dict())

    compare(d, "first survey")
    before = dict(p), dict(lums)
    for k, u, d2 in case["moves"]:
        parts = [(s["cls"], p, "spatial_distribution")]
        if lums:
            parts.append((spec["lum"]["cls"], lums, "luminosity_distribution"))
        names = [(cl, q, at, n) for cl, q, at in parts for n in sorted(q) if n in MOVES]
        cl, q, at, n = names[k % len(names)]
        v = gen.sig(MOVES[n](cl, float(q[n]), u))
        setattr(getattr(ready, at), n, v)
        setattr(getattr(comp.synth, at), n, v)
        q[n] = v
        same_params(ready, "after setting %s" % n)
        compare(d2, "after setting %s=%s" % (n, v))
        lab["changed"] += 1
    # another one of the same class has its own parameters
    p, lums = before
    if lum_obj is None:
        same_params(twin, "another one")
    lab["nontrivial"] = lab["objects"] > 0
    return lab


SUBCHECKS = [
    Sub("ready", cases(), run, quick=2400, thorough=40000, rule="the surveys compared have objects"),
]
