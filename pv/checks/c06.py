import numpy as np
from hypothesis import strategies as st
from scipy import special

import popsynth
from .. import gen, ref
from ..core import Sub, check, fail

ASSUMPTIONS = [
    "a flux error given together with an explicitly attached UnitySelection is not judged",
    "statistical verdicts have a false-alarm probability below 1e-9 per case",
    "absolute fluxes on an expanding universe are judged to 1.5% (documented approximation) against exact "
    "integration, and to 1e-6 against the package's own luminosity distance",
]
P = 1e-10


def latent_flux(s, L, d, got):
    want = ref.flux(s, L, d)
    tol = 0.015 if s["cls"] in ref.COSMO else 1e-9
    bad = ~np.isclose(got, want, rtol=tol, atol=0)
    if bad.any():
        i = int(np.argmax(bad))
        fail("latent flux %r of object %d should be %r (luminosity %r, distance %r)",
             float(got[i]), i, float(want[i]), float(L[i]), float(d[i]))
    if s["cls"] in ref.COSMO:
        w = L / (4 * np.pi * np.asarray(popsynth.cosmology.luminosity_distance(d)) ** 2)
        check(np.allclose(got, w, rtol=1e-6, atol=0), "latent flux is not L / 4 pi d_L^2")


# -------------------------------------------------------------- any survey
def run_law(case):
    spec = gen.resolve(case)
    b = gen.build(spec)
    pop = b.synth.draw_survey(**spec["draw"])
    n = pop.n_objects
    L, d = np.array(pop.luminosities), np.array(pop.distances)
    check(gen.same(np.array(pop.luminosities.latent), L), "latent and observed luminosities differ")
    check(gen.same(np.array(pop.distances.latent), d), "latent and observed distances differ")
    f, fo = np.array(pop.fluxes.latent), np.array(pop.fluxes)
    check(f.shape == (n,) and fo.shape == (n,), "one flux per object")
    s = spec["spatial"]
    latent_flux(s, L, d, f)
    sg = spec["draw"].get("flux_sigma")
    log10 = spec["draw"].get("log10_flux_draw", True)
    check(np.all(np.isfinite(fo)) and np.all(fo > 0), "observed fluxes are not positive and finite")
    lab = dict(cls=s["cls"])
    if spec["flux_sel"] is None or sg is None:
        check(gen.same(fo, f), "observed fluxes differ from latent ones without selection or flux error")
        lab["exact"] = True
    else:
        r = (np.log10(fo) - np.log10(f)) if log10 else (np.log(fo) - np.log(f))
        check(np.all(np.abs(r) <= 8 * sg + 1e-12), "scatter of %g with sigma %g", np.abs(r).max() if n else 0, sg)
        if n >= 10 and sg > 0:
            p = ref.ks_p(special.ndtr(r / sg))
            check(p > P, "flux scatter is not normal with sigma %g (p %.2g)", sg, p)
            check(len(np.unique(r)) == n, "objects share their measurement error")
        lab["scatter"] = True
        lab["log10"] = log10
    lab["nontrivial"] = n > 0
    return lab


# ------------------------------------------------------------- the scatter
@st.composite
def scatter_cases(draw):
    sel = draw(st.one_of(
        gen.fixed(cls=st.just("HardFluxSelection"), kw=st.just({}), params=gen.fixed(boundary=gen.place(False))),
        gen.fixed(cls=st.just("SoftFluxSelection"), kw=st.just({}),
                  params=gen.fixed(boundary=gen.place(False), strength=st.just({"v": 3.0}))),
        gen.bern(), gen.bound_sel("flux")))
    s = draw(gen.spatials())
    return dict(spec=dict(
        seed=draw(gen.seeds), spatial=s, lum=draw(gen.luminosities()), aux=[], derived=None,
        flux_sel=sel, dist_sel=None, spat_sel=draw(st.one_of(st.none(), gen.spat_sels())),
        draw=dict(n_samples=draw(st.integers(400, 1000)), flux_sigma=draw(gen.lognum(0.003, 2.5)),
                  log10_flux_draw=draw(st.booleans()))), default=draw(st.booleans()))


def run_scatter(case):
    spec = gen.resolve(case["spec"])
    dr = dict(spec["draw"])
    log10 = dr["log10_flux_draw"]
    if case["default"]:
        dr.pop("log10_flux_draw")
        log10 = True
    pop = gen.build(spec).synth.draw_survey(**dr)
    f, fo = np.array(pop.fluxes.latent), np.array(pop.fluxes)
    latent_flux(spec["spatial"], np.array(pop.luminosities), np.array(pop.distances), f)
    check(np.all(np.isfinite(fo)) and np.all(fo > 0), "observed fluxes are not positive and finite")
    sg = dr["flux_sigma"]
    r = np.log10(fo / f) if log10 else np.log(fo / f)
    u = special.ndtr(r / sg)
    p = ref.ks_p(u)
    check(p > P, "log%s flux scatter is not normal with zero mean and sigma %g: mean %.4g, std %.4g (p %.2g)",
          "10" if log10 else "", sg, r.mean(), r.std(), p)
    n = len(r)
    z2 = ((r / sg) ** 2).sum()
    from scipy import stats

    q = 2 * min(stats.chi2.cdf(z2, n), stats.chi2.sf(z2, n))
    check(q > P, "flux scatter has standard deviation %.4g, not %.4g", np.sqrt(z2 / n) * sg, sg)
    m = abs(r.mean()) / sg * np.sqrt(n)
    check(2 * stats.norm.sf(m) > P, "flux scatter has mean %.4g", r.mean())
    check(ref.corr_p(r[1:], r[:-1]) > P, "measurement errors of successive objects are correlated")
    check(ref.corr_p(r, np.log(f)) > P, "measurement errors depend on the flux")
    check(ref.corr_p(r, np.array(pop.distances)) > P, "measurement errors depend on the distance")
    check(ref.corr_p(np.abs(r), np.log(f)) > P, "the size of measurement errors depends on the flux")
    check(len(np.unique(r)) > 0.97 * n or sg < 1e-6, "objects share their measurement error")
    return dict(nontrivial=True, log10=log10, sel=spec["flux_sel"]["cls"], objects=n)


# ----------------------------------------------------- the transform itself
@st.composite
def transform_cases(draw):
    s = draw(gen.spatials(rmax=8.0))
    return dict(spatial=s, L=draw(st.lists(gen.lognum(1e-3, 1e60), min_size=1, max_size=6)),
                d=draw(st.lists(gen.lognum(1e-3, 10), min_size=1, max_size=6)))


def run_transform(case):
    s = case["spatial"]
    o = gen.build_spatial(s)
    k = min(len(case["L"]), len(case["d"]))
    L, d = np.array(case["L"][:k]), np.array(case["d"][:k])
    L0, d0 = L.copy(), d.copy()
    f = np.asarray(o.transform(L, d))
    check(np.array_equal(L, L0) and np.array_equal(d, d0), "computing fluxes changed its input")
    latent_flux(s, L, d, f)
    for i in range(k):
        x = float(np.asarray(o.transform(float(L[i]), float(d[i]))))
        check(np.isclose(x, f[i], rtol=1e-12, atol=0), "flux of scalars %r, within an array %r", x, f[i])
    g = np.asarray(o.transform(2 * L, d))
    check(np.allclose(g, 2 * f, rtol=1e-12, atol=0), "the flux is not proportional to the luminosity")
    return dict(nontrivial=True, cls=s["cls"])


SUBCHECKS = [
    Sub("law", gen.specs(nmax=40, naux=1, maxdepth=1), run_law, quick=1200, thorough=30000, rule="at least one object"),
    Sub("scatter", scatter_cases(), run_scatter, quick=300, thorough=8000, rule="400-1000 fluxes with measurement errors"),
    Sub("transform", transform_cases(), run_transform, quick=1000, thorough=20000, rule="every case"),
]
