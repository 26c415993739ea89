import numpy as np
from hypothesis import strategies as st
from scipy import special, stats

import popsynth
from .. import gen, ref
from ..core import Sub, check, fail

ASSUMPTIONS = [
    "a truncated log(10)-normal sampler with lower bound 0 may cut at the 1e-5 quantile of the normal",
    "noise is judged where it is resolvable in double precision next to the true value",
    "statistical verdicts have a false-alarm probability below 1e-9 per case",
]
P = 1e-10


@st.composite
def law_cases(draw):
    n = dict(draw(st.one_of(gen.aux_laws(), gen.aux_laws(), gen.aux_laws(), _edge(),
                            st.sampled_from(["RASampler", "DecSampler"]).map(lambda c: dict(cls=c, params={})))))
    n["params"] = dict(n["params"])
    d = ref.AUX_DEFAULTS.get(n["cls"], {})
    for k in sorted(d):
        # PowerLaw bounds stay as a pair; bounded samplers need their scale
        if k in n["params"] and k not in ("xmin", "xmax", "mu", "tau") and draw(st.integers(0, 4)) == 0:
            n["params"].pop(k)
    if n["cls"] in ("DeltaAuxSampler", "NormalAuxSampler", "LogNormalAuxSampler", "Log10NormalAuxSampler"):
        for k in ("mu", "tau", "xp"):
            if k in n["params"] and draw(st.integers(0, 5)) == 0:
                n["params"].pop(k)
    n.update(name="quantity", sec=[], sel=None, observed=draw(st.booleans()))
    return dict(node=n, seed=draw(gen.seeds), n=draw(st.integers(500, 6000)), attached=draw(st.booleans()))


@st.composite
def _edge(draw):
    """Corner parameters: zero widths, whole numbers, index -1, far tails."""
    k = draw(st.integers(0, 6))
    if k == 0:
        c = draw(st.sampled_from(["NormalAuxSampler", "LogNormalAuxSampler", "Log10NormalAuxSampler"]))
        return dict(cls=c, params=dict(mu=draw(gen.num(-2, 2)), tau=0.0, sigma=draw(gen.num(0, 1))))
    if k == 1:
        return dict(cls="PowerLawAuxSampler", params=dict(
            xmin=draw(st.integers(1, 5)), xmax=draw(st.integers(6, 90)), alpha=draw(st.integers(-4, 3)),
            sigma=draw(st.integers(0, 2))))
    if k == 2:
        return dict(cls="BrokenPowerLawAuxSampler", params=dict(
            xmin=draw(st.integers(1, 4)), alpha=draw(st.integers(-3, 2)), xbreak=draw(st.integers(5, 9)),
            beta=draw(st.integers(-4, 1)), xmax=draw(st.integers(10, 99)), sigma=0.5))
    if k == 3:
        a = draw(st.integers(-3, 3))
        return dict(cls="TruncatedNormalAuxSampler", params=dict(
            mu=draw(st.integers(-3, 3)), tau=1, lower=a, upper=a + draw(st.integers(1, 3)), sigma=draw(st.integers(0, 1))))
    if k == 4:
        return dict(cls="ViewingAngleSampler", params=dict(max_angle=draw(st.sampled_from([1, 45, 90, 90.0, 120, 180]))))
    if k == 5:
        return dict(cls="ParetoAuxSampler", params=dict(xmin=draw(st.integers(1, 4)), alpha=draw(st.integers(1, 5)), sigma=draw(st.integers(0, 1))))
    c = draw(st.sampled_from(["TruncatedLogNormalAuxSampler", "TruncatedLog10NormalAuxSampler"]))
    a = draw(st.integers(1, 5))
    return dict(cls=c, params=dict(mu=0, tau=1, lower=a, upper=a + draw(st.integers(1, 50)), sigma=draw(st.integers(0, 1))))


def judge(n, t, o, size):
    p = ref.aux_params(n)
    lo, hi = ref.aux_support(n)
    check(t.shape == (size,) and o.shape == (size,), "shapes %s and %s for %d values", t.shape, o.shape, size)
    check(np.all(np.isfinite(t)), "true values are not finite")
    slack = 1e-9 * max(abs(lo) if np.isfinite(lo) else 0, abs(hi) if np.isfinite(hi) else 0, 1e-300)
    if n["cls"].startswith("Truncated"):
        slack = 0.0
    check(np.all(t >= lo - slack) and np.all(t <= hi + slack), "true values %g..%g outside of [%g, %g]", t.min(), t.max(), lo, hi)
    u = ref.aux_cdf(n, t)
    if u is None:
        check(np.allclose(t, ref.aux_point(n), rtol=1e-12, atol=0), "true values %s, not %r", t[:3], ref.aux_point(n))
    else:
        q = ref.ks_p(u)
        check(q > P, "true values do not follow the documented law (KS p = %.3g, n = %d)", q, size)
        check(ref.corr_p(u[1:], u[:-1]) > P, "successive true values are correlated")
        check(len(np.unique(t)) > 0.9 * size, "true values repeat")
        if n["cls"] in ("LogNormalAuxSampler", "Log10NormalAuxSampler", "ParetoAuxSampler"):
            check(np.all(t > 0), "a positive sampler is not positive")
    observed = n["observed"] and n["cls"] not in gen.NO_NAME
    sg = p.get("sigma", 0.0)
    if not observed:
        check(gen.same(o, t), "values that are not observed differ from the true ones")
        return "unobserved"
    if sg == 0:
        check(gen.same(o, t), "values observed without noise differ from the true ones")
        return "noiseless"
    ok = np.abs(t) * 1e-9 < sg
    r = (o - t)[ok] / sg
    m = len(r)
    if m < 50:
        return "unresolved"
    q = ref.ks_p(special.ndtr(r))
    check(q > P, "noise is not normal with zero mean and sigma %g: mean %.4g, std %.4g", sg, r.mean() * sg, r.std() * sg)
    z2 = (r ** 2).sum()
    q = 2 * min(stats.chi2.cdf(z2, m), stats.chi2.sf(z2, m))
    check(q > P, "noise has standard deviation %.4g, not %.4g", np.sqrt(z2 / m) * sg, sg)
    check(ref.corr_p(r[1:], r[:-1]) > P, "noise of successive objects is correlated")
    if u is not None:
        check(ref.corr_p(r, t[ok]) > P, "noise depends on the true value")
        check(ref.corr_p(np.abs(r), t[ok]) > P, "the size of the noise depends on the true value")
    check(len(np.unique(r)) > 0.9 * m, "objects share their noise")
    return "noisy"


def run_laws(case):
    n, size = case["node"], case["n"]
    if case["attached"] or n["cls"] in ():
        spec = dict(seed=case["seed"], spatial=dict(cls="FlatlandDistribution", params=dict(r_max=2.0), rate=None),
                    lum=dict(cls="DeltaDistribution", params=dict(Lp=2.0)), aux=[n])
        pop = gen.build(spec).synth.draw_survey(n_samples=size)
        v = getattr(pop, n["name"])
        t, o = np.array(v.latent), np.array(v)
    else:
        s = gen.build_node(n, {})
        np.random.seed(case["seed"])
        s.draw(size=size)
        t, o = np.array(s.true_values), np.array(s.obs_values)
    how = judge(n, t, o, size)
    return dict(nontrivial=True, cls=n["cls"], how=how)


# ------------------------------------------------ many samplers in a survey
@st.composite
def joint_cases(draw):
    spec = dict(seed=draw(gen.seeds), spatial=draw(gen.spatials(["fl", "cs"])),
                lum=dict(cls="LogNormalDistribution", params=dict(mu=0.0, tau=1.0)), derived=None)
    k = draw(st.integers(2, 3))
    forest = [dict(draw(gen.aux_laws()), sec=[], sel=None, observed=draw(st.booleans())) for _ in range(k)]
    dep = dict(draw(gen.deps()), observed=True, sel=None,
               sec=[dict(draw(gen.aux_laws()), sec=[], sel=None, observed=draw(st.booleans())) for _ in range(2)])
    spec["aux"], _ = gen.name_forest(forest + [dep])
    return dict(spec=spec, n=draw(st.integers(300, 800)))


def run_joint(case):
    """Samplers in one survey follow their own laws and are independent."""
    spec = case["spec"]
    pop = gen.build(spec).synth.draw_survey(n_samples=case["n"])
    vals = []
    for node, _, _ in gen.walk_nodes(spec):
        if node["cls"].startswith("PvDep"):
            continue
        v = getattr(pop, node["name"])
        t, o = np.array(v.latent), np.array(v)
        judge(node, t, o, case["n"])
        if ref.aux_cdf(node, t) is not None:
            vals.append((node["name"], t))
    vals.append(("luminosity", np.array(pop.luminosities)))
    vals.append(("distance", np.array(pop.distances)))
    for i in range(len(vals)):
        for j in range(i):
            check(ref.corr_p(vals[i][1], vals[j][1]) > P, "%s and %s are correlated", vals[i][0], vals[j][0])
    return dict(nontrivial=len(vals) > 3)


SUBCHECKS = [
    Sub("laws", law_cases(), run_laws, quick=3000, thorough=30000, rule="500-6000 values of one sampler"),
    Sub("joint", joint_cases(), run_joint, quick=250, thorough=5000, rule="at least two random samplers in one survey"),
]
