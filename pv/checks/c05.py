import numpy as np
from hypothesis import strategies as st

import popsynth
from .. import gen, ref
from ..core import Sub, check, fail

ASSUMPTIONS = [
    "the density exactly at the lower or upper end of the support is not judged (a null set)",
    "statistical verdicts have a false-alarm probability below 1e-9 per case",
]
P = 1e-10
CONT = ["pareto", "schechter", "bpl", "logn", "log10n", "loguni"]


@st.composite
def lum_cases(draw, kinds=CONT):
    l = draw(gen.luminosities(kinds))
    d = ref.LUM_DEFAULTS.get(l["cls"], {})
    for k in sorted(d):
        if draw(st.integers(0, 5)) == 0:
            l["params"].pop(k)
    if draw(st.integers(0, 4)) == 0:
        # whole numbers, possibly given as integers
        for k in l["params"]:
            v = l["params"][k]
            if k in ("alpha", "beta", "mu"):
                w = int(round(v))
                if l["cls"] == "ParetoDistribution":
                    w = max(1, w)
                if l["cls"] == "SchechterDistribution":
                    w = max(0, w)
                l["params"][k] = w
            elif k == "tau":
                l["params"][k] = 1
        if l["cls"] in ("BPLDistribution", "LogUniLuminiosityDistribution"):
            prev = 0
            for k in ("Lmin", "Lbreak", "Lmax"):
                if k in l["params"]:
                    prev = max(prev + 1, int(round(l["params"][k])))
                    l["params"][k] = prev
        elif "Lmin" in l["params"]:
            l["params"]["Lmin"] = max(1, int(round(l["params"]["Lmin"])))
    if l["cls"] == "BPLDistribution" and draw(st.integers(0, 2)) == 0:
        l["params"][draw(st.sampled_from(["alpha", "beta"]))] = -1 if draw(st.booleans()) else -1.0
    return l


@st.composite
def density_cases(draw):
    l = draw(lum_cases())
    return dict(lum=l, q=draw(st.lists(gen.num(0.001, 0.999), min_size=2, max_size=12)),
                outside=draw(st.lists(gen.num(0.01, 0.99), min_size=1, max_size=4)),
                ints=draw(st.lists(st.integers(1, 2000), min_size=1, max_size=6)))


def quantile(l, q):
    lo, hi = ref.lum_support(l)
    a = max(lo, 1e-300)
    b = hi if np.isfinite(hi) else 1e300
    la, lb = np.log(a), np.log(b)
    for _ in range(200):
        m = 0.5 * (la + lb)
        if ref.lum_cdf(l, np.exp(m)) < q:
            la = m
        else:
            lb = m
    return float(np.exp(0.5 * (la + lb)))


def run_density(case):
    l = case["lum"]
    d = gen.build_lum(l)
    x = np.array([quantile(l, q) for q in case["q"]])
    lo, hi = ref.lum_support(l)
    pts = list(x)
    for t in case["outside"]:
        if lo > 0:
            pts.append(lo * t)
        if np.isfinite(hi):
            pts.append(hi / t)
    pts += [float(v) for v in case["ints"]]
    pts = np.array([p for p in pts if not (np.isclose(p, lo, rtol=1e-9) or np.isclose(p, hi, rtol=1e-9))])
    want = ref.lum_pdf(l, pts)
    got = np.asarray(d.phi(pts.copy()))
    check(got.shape == pts.shape, "the density of %d values has shape %s", len(pts), got.shape)
    check(np.all(got >= 0), "negative density")
    bad = ~np.isclose(got, want, rtol=1e-7, atol=0)
    # values whose density underflows
    bad &= ~((np.abs(want) < 1e-250) & (np.abs(got) < 1e-250))
    if bad.any():
        i = int(np.argmax(bad))
        fail("density %r at L = %r (support %g..%g), should be %r", float(got[i]), float(pts[i]), lo, hi, float(want[i]))
    # element by element: scalars, reversed order, integer arrays
    for i in range(0, len(pts), max(1, len(pts) // 4)):
        for v in (float(pts[i]), np.float64(pts[i])):
            s = np.asarray(d.phi(v), dtype=float)
            check(s.size == 1 and np.isclose(float(s.ravel()[0]), got[i], rtol=1e-12, atol=0),
                  "density of the scalar %r is %s, but %r within an array", v, s, got[i])
    r = np.asarray(d.phi(pts[::-1].copy()))
    check(np.allclose(r[::-1], got, rtol=1e-12, atol=0), "density depends on the order of the array")
    k = np.array(case["ints"])
    k = k[~(np.isclose(k, lo) | np.isclose(k, hi))]
    if len(k):
        a, b = np.asarray(d.phi(k), dtype=float), np.asarray(d.phi(k.astype(float)), dtype=float)
        check(np.allclose(a, b, rtol=1e-12, atol=0), "density of integers %s is %s, of the same floats %s", k, a, b)
        s = np.asarray(d.phi(int(k[0])), dtype=float)
        check(np.isclose(float(s.ravel()[0]), b[0], rtol=1e-12, atol=0), "density of the integer %d differs", k[0])
    # integral of the reported density
    a, b = (quantile(l, 1e-7), quantile(l, 1 - 1e-7))
    if np.isfinite(hi):
        b = hi * (1 - 1e-12)
    if lo > 0:
        a = lo * (1 + 1e-12)
    p = ref.lum_params(l)
    edges = [a] + ([p["Lbreak"]] if "Lbreak" in p else []) + [b]
    gx, gw = np.polynomial.legendre.leggauss(60)
    tot = 0.0
    for e0, e1 in zip(edges[:-1], edges[1:]):
        cuts = np.linspace(np.log(e0), np.log(e1), 41)
        for u, v in zip(cuts[:-1], cuts[1:]):
            y = np.exp(0.5 * (v - u) * (gx + 1) + u)
            tot += (np.asarray(d.phi(y)) * y * gw).sum() * 0.5 * (v - u)
    check(abs(tot - 1) < 1e-4, "the density integrates to %.8g", tot)
    return dict(nontrivial=True, cls=l["cls"], integer_params=any(isinstance(v, int) for v in l["params"].values()))


# ------------------------------------------------------------------- draws
@st.composite
def draw_cases(draw):
    return dict(lum=draw(lum_cases(CONT + ["delta"])), seed=draw(gen.seeds), n=draw(st.integers(1000, 20000)))


def run_draws(case):
    l, n = case["lum"], case["n"]
    d = gen.build_lum(l)
    np.random.seed(case["seed"])
    L = np.asarray(d.draw_luminosity(size=n))
    check(L.shape == (n,), "%s luminosities instead of %d", L.shape, n)
    lo, hi = ref.lum_support(l)
    check(np.all(L >= lo * (1 - 1e-12)) and np.all(L <= hi * (1 + 1e-12)) and np.all(np.isfinite(L)),
          "luminosities from %g to %g outside of the support %g..%g", L.min(), L.max(), lo, hi)
    if l["cls"] == "DeltaDistribution":
        check(np.all(L == l["params"]["Lp"]), "not a delta function")
        check(np.all(np.asarray(d.phi(L)) == 1) and d.phi(l["params"]["Lp"]) == 1, "density of a delta function is not one at its value")
        check(d.phi(l["params"]["Lp"] * 2) == 0 and np.all(np.asarray(d.phi(L * 2)) == 0), "density of a delta function is not zero elsewhere")
        return dict(nontrivial=True, cls=l["cls"])
    check(np.all(L > 0), "a luminosity is not positive")
    u = ref.lum_cdf(l, L)
    p = ref.ks_p(u)
    check(p > P, "luminosities do not follow the density (KS p = %.3g, n = %d)", p, n)
    check(ref.corr_p(u[1:], u[:-1]) > P, "successive luminosities are correlated")
    check(len(np.unique(L)) > 0.95 * n, "luminosities repeat")
    # the reported density at the drawn values
    d.compute_probability(L)
    check(np.allclose(np.asarray(d.probability), np.asarray(d.phi(L)), rtol=1e-12), "recorded probability is not the density")
    check(np.all(np.asarray(d.probability) > 0), "a drawn luminosity has zero density")
    if l["cls"] == "DeltaDistribution":
        return {}
    return dict(nontrivial=True, cls=l["cls"])


# ----------------------------------------------- the probability of a survey
@st.composite
def prob_cases(draw):
    spec = draw(gen.specs(nmax=30, naux=3, maxdepth=2))
    # viewing angles carry a density of their own
    if draw(st.booleans()):
        spec["aux"].append(dict(cls="ViewingAngleSampler", params=dict(max_angle=draw(gen.num(5, 180))), sec=[],
                                observed=False, sel=draw(st.one_of(st.none(), gen.aux_sels())), name="va"))
    return spec


def run_probability(case):
    spec = gen.resolve(case)
    b = gen.build(spec)
    pop = b.synth.draw_survey(**spec["draw"])
    n = pop.n_objects
    d, L = np.array(pop.distances), np.array(pop.luminosities)
    s = spec["spatial"]
    nz = bool(spec["draw"].get("normalize"))
    lab = dict(normalize=nz)
    dd = d
    if s["cls"] == "SpiralGalaxyDistribution":
        # recorded before the documented jitter of the distances
        dd = None
    want = np.ones(n)
    tol = 1e-6
    if s["cls"] in ref.COSMO:
        tol = 0.03
    if spec["lum"]:
        want = want * (ref.lum_pdf(spec["lum"], L) if spec["lum"]["cls"] != "DeltaDistribution" else 1.0)
        own = np.asarray(gen.build_lum(spec["lum"]).phi(L), dtype=float)
        check(np.allclose(own, ref.lum_pdf(spec["lum"], L), rtol=1e-6), "the luminosity density differs")
        lab["lum"] = True
    for node, depth, _ in gen.walk_nodes(spec):
        if node["cls"] == "ViewingAngleSampler" and node.get("sel"):
            v = np.array(getattr(pop, node["name"]).latent)
            want = want * np.sin(v) / (1 - np.cos(np.deg2rad(node["params"]["max_angle"])))
            lab["angle"] = True
    got = np.array(pop.probability)
    check(got.shape == (n,), "probability has shape %s", got.shape)
    check(np.all(got >= 0), "negative probability")
    if dd is not None:
        dens = ref.density(s, dd, unit=True)
        if nz:
            dens = dens / ref.integral(s, unit=True)
        want = want * dens
        bad = ~np.isclose(got, want, rtol=tol, atol=0)
        if bad.any():
            i = int(np.argmax(bad))
            fail("recorded probability %r of object %d should be %r (normalize %s)", float(got[i]), i, float(want[i]), nz)
    elif n > 1 and spec["lum"] is not None:
        pass
    lab["cls"] = s["cls"]
    lab["nontrivial"] = n > 0 and dd is not None
    return lab


SUBCHECKS = [
    Sub("density", density_cases(), run_density, quick=1200, thorough=30000,
        rule="density at 5-30 values inside and outside of the support, and its integral"),
    Sub("draws", draw_cases(), run_draws, quick=800, thorough=20000, rule="1000-20000 luminosities"),
    Sub("probability", prob_cases(), run_probability, quick=800, thorough=20000, rule="at least one object"),
]
