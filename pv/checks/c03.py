import copy

import numpy as np
from hypothesis import strategies as st

import popsynth
from .. import gen, ref
from ..core import Sub, check, fail

ASSUMPTIONS = [
    "statistical verdicts have a false-alarm probability below 1e-9 per case",
    "reference integrals use an exact flat universe; 1.5% is allowed for the documented approximation",
]

P = 1e-10


@st.composite
def spatial_cases(draw, kinds=None):
    s = draw(gen.spatials(kinds or ["cs", "zs", "zc", "sfr", "uc", "fl", "sp", "pv"]))
    # leave some parameters at their defaults
    d = ref.DEFAULTS.get(s["cls"], {})
    for k in sorted(d):
        if draw(st.integers(0, 4)) == 0:
            s["params"].pop(k)
    return s


def scaled(s, mean):
    """The same distribution with its amplitude set for a given mean."""
    s = copy.deepcopy(s)
    k = {"FlatlandDistribution": "Lambda", "SpiralGalaxyDistribution": "rho"}.get(s["cls"], ref.norm_name(s))
    p = ref.spatial_params(s)
    t = copy.deepcopy(s)
    t["params"][k] = 1.0
    s["params"][k] = gen.sig(mean / ref.integral(t), 6)
    return s


def synth(s, seed):
    lum = popsynth.DeltaDistribution()
    lum.Lp = 3.0
    return popsynth.PopulationSynth(gen.build_spatial(s), luminosity_distribution=lum, seed=seed)


class Recorder:
    """Watches the arguments of numpy's Poisson generator, passing calls through."""

    def __enter__(self):
        self.calls = []
        self.real = np.random.poisson

        def poisson(lam=1.0, size=None):
            v = self.real(lam, size)
            self.calls.append((lam, size, v))
            return v

        np.random.poisson = poisson
        return self

    def __exit__(self, *a):
        np.random.poisson = self.real


def expected_mean(s, normalize):
    if not normalize:
        return ref.integral(s)
    k = ref.norm_name(s)
    return ref.spatial_params(s)[k] if k else 1.0


# ------------------------------------------------- the mean, precisely
@st.composite
def mean_cases(draw):
    s = draw(spatial_cases())
    normalize = draw(st.booleans())
    if normalize:
        k = ref.norm_name(s)
        if k and k in s["params"]:
            s["params"][k] = draw(gen.lognum(0.3, 60))
    elif draw(st.integers(0, 3)) > 0 or ref.integral(s) > 300:
        s = scaled(s, draw(gen.lognum(0.5, 60)))
    return dict(spatial=s, normalize=normalize, seed=draw(gen.seeds),
                again=draw(st.booleans()))


def run_mean(case):
    s, nz = case["spatial"], case["normalize"]
    M = expected_mean(s, nz)
    tol = 0.015 if (s["cls"] in ref.COSMO and not nz) else 2e-3
    sy = synth(s, case["seed"])
    sd = sy.spatial_distribution
    before = {k: getattr(sd, k) for k in ref.spatial_params(s)}
    lab = dict(cls=s["cls"], normalize=nz)
    for rep in range(2 if case["again"] else 1):
        with Recorder() as r:
            pop = sy.draw_survey(normalize=nz)
        n = pop.n_objects
        check(ref.poisson_p(n, M) > P, "%d objects in a survey with mean %.4g", n, M)
        if len(r.calls) == 1 and r.calls[0][1] is None and np.ndim(r.calls[0][2]) == 0 and r.calls[0][2] == n:
            lam = float(r.calls[0][0])
            check(abs(lam - M) <= tol * M + 1e-9, "the size is Poisson with mean %.6g, not %.6g (normalize %s)", lam, M, nz)
            lab["mean_seen"] = True
        after = {k: getattr(sd, k) for k in ref.spatial_params(s)}
        check(before == after, "drawing changed the parameters from %s to %s", before, after)
        want = {k: float(v) for k, v in ref.spatial_params(s).items()}
        check({k: float(v) for k, v in after.items()} == want, "parameters are %s, not %s", after, want)
    lab["nontrivial"] = n > 0
    return lab


# --------------------------------------------- the mean, from many surveys
@st.composite
def count_cases(draw):
    s = draw(spatial_cases())
    normalize = draw(st.integers(0, 3)) == 0
    m = draw(gen.num(2.0, 12.0))
    if normalize:
        k = ref.norm_name(s)
        if k:
            s["params"][k] = m
    else:
        s = scaled(s, m)
    return dict(spatial=s, normalize=normalize, seed=draw(st.integers(0, 2 ** 31 - 1)), k=draw(st.integers(60, 120)))


def run_counts(case):
    s, nz, K = case["spatial"], case["normalize"], case["k"]
    M = expected_mean(s, nz)
    ns = []
    sd = gen.build_spatial(s)
    for i in range(K):
        lum = popsynth.DeltaDistribution()
        lum.Lp = 3.0
        sy = popsynth.PopulationSynth(sd, luminosity_distribution=lum, seed=(case["seed"] + 7919 * i) % 2 ** 31)
        ns.append(sy.draw_survey(normalize=nz).n_objects)
    ns = np.array(ns)
    slack = 0.02 * K * M
    tot = int(ns.sum())
    # two-sided, allowing for the approximation of distances
    p = max(ref.poisson_p(tot, K * M), ref.poisson_p(tot, K * M + slack), ref.poisson_p(tot, K * M - slack))
    if abs(tot - K * M) > slack:
        check(p > P, "%d objects in %d surveys with mean %.5g each (normalize %s)", tot, K, M, nz)
    # index of dispersion against chi-squared
    from scipy import stats

    m = ns.mean()
    if m > 0:
        chi = ((ns - m) ** 2).sum() / m
        q = 2 * min(stats.chi2.cdf(chi, K - 1), stats.chi2.sf(chi, K - 1))
        check(q > 1e-12, "survey sizes are not Poisson: mean %.4g, variance %.4g of %d surveys", m, ns.var(ddof=1), K)
    return dict(nontrivial=tot > 100, cls=s["cls"], normalize=nz, surveys=K)


# --------------------------------------------------------- requested sizes
@st.composite
def size_cases(draw):
    spec = draw(gen.specs(nmax=60, naux=2))
    spec["draw"]["normalize"] = draw(st.booleans())
    spec["draw"]["n_samples"] = draw(st.one_of(st.integers(0, 3), st.integers(0, 300), st.integers(20, 60)))
    return spec


def run_size(case):
    spec = gen.resolve(case)
    b = gen.build(spec)
    pop = b.synth.draw_survey(**spec["draw"])
    n = spec["draw"]["n_samples"]
    check(pop.n_objects == n, "%d objects instead of the requested %d", pop.n_objects, n)
    for k, v in gen.arrays(pop).items():
        if k in ("known_distances", "known_distance_idx", "unknown_distance_idx"):
            continue
        check(v.shape == (n,), "%s has shape %s for %d requested objects", k, v.shape, n)
    for k, v in spec["spatial"]["params"].items():
        check(float(getattr(b.spatial, k)) == float(v), "%s changed", k)
    return dict(nontrivial=n > 0, normalize=spec["draw"]["normalize"], tiny=n < 4)


SUBCHECKS = [
    Sub("counts", count_cases(), run_counts, quick=200, thorough=1200,
        rule="at least 100 objects in 60-120 surveys with different seeds"),
    Sub("mean", mean_cases(), run_mean, quick=1600, thorough=20000, rule="the survey is not empty"),
    Sub("sizes", size_cases(), run_size, quick=400, thorough=8000, rule="a positive size was requested"),
]
