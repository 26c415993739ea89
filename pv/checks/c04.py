import numpy as np
from hypothesis import strategies as st

import popsynth
from .. import gen, ref
from ..core import Sub, check, fail
from .c03 import spatial_cases, synth

ASSUMPTIONS = [
    "statistical verdicts have a false-alarm probability below 1e-9 per case",
    "a spiral galaxy's distances are jittered by the documented 7% after the draw; its sample is compared "
    "with an independent simulation of the documented recipe",
]
P = 1e-10


@st.composite
def dist_cases(draw):
    s = draw(spatial_cases(["cs", "zs", "zc", "sfr", "uc", "fl", "pv"]))
    if draw(st.integers(0, 5)) == 0:
        s["params"].pop("r_max")
    return dict(spatial=s, seed=draw(gen.seeds), normalize=draw(st.booleans()),
                progress=draw(st.booleans()), n=draw(st.integers(800, 3000)),
                direct=draw(st.booleans()))


def sample(case):
    s = case["spatial"]
    sy = synth(s, case["seed"])
    sd = sy.spatial_distribution
    try:
        if case["progress"]:
            popsynth.show_progress_bars()
        if case["direct"]:
            np.random.seed(case["seed"])
            sd.draw_distance(size=case["n"], normalize=case["normalize"])
            sd.draw_sky_positions(size=case["n"])
            return sd, np.array(sd.distances), None
        pop = sy.draw_survey(n_samples=case["n"], normalize=case["normalize"])
        return sd, np.array(pop.distances), pop
    finally:
        popsynth.silence_progress_bars()


def run_distances(case):
    s = case["spatial"]
    sd, d, pop = sample(case)
    n = case["n"]
    rm = ref.rmax(s)
    check(d.shape == (n,), "distances have shape %s", d.shape)
    check(np.all((d >= 0) & (d <= rm)), "distances outside [0, %g]: %g to %g", rm, d.min(), d.max())
    g, c = ref.cumulative(s)
    u = np.interp(d, g, c / c[-1])
    p = ref.ks_p(u)
    check(p > P, "distances do not follow the density (KS p = %.3g, normalize %s)", p, case["normalize"])
    check(ref.corr_p(u[1:], u[:-1]) > P, "successive distances are correlated")
    check(len(np.unique(d)) > 0.99 * n, "distances repeat")
    return dict(nontrivial=True, cls=s["cls"], normalize=case["normalize"], progress=case["progress"],
                default_rmax="r_max" not in s["params"], objects=n)


# ----------------------------------------------------------------- the sky
@st.composite
def sky_cases(draw):
    return dict(spatial=draw(gen.spatials(["cs", "zs", "zc", "fl", "sfr", "uc", "pv"])), seed=draw(gen.seeds),
                n=draw(st.integers(800, 2000)))


def positions(case, iso=True):
    sy = synth(case["spatial"], case["seed"])
    pop = sy.draw_survey(n_samples=case["n"])
    sd = sy.spatial_distribution
    th, ph = np.array(pop.theta), np.array(pop.phi)
    ra, dec = np.array(pop.ra), np.array(pop.dec)
    check(np.all((th >= 0) & (th <= np.pi)), "polar angles outside [0, pi]")
    check(np.all((ph >= 0) & (ph <= 2 * np.pi)), "azimuths outside [0, 2 pi]")
    check(np.allclose(dec, 90 - np.rad2deg(th), rtol=0, atol=1e-9), "declinations disagree with the polar angles")
    check(np.allclose(ra, np.rad2deg(ph), rtol=0, atol=1e-9), "right ascensions disagree with the azimuths")
    v = sd.spatial_values
    for name, a, b in (("theta", v.theta, th), ("phi", v.phi, ph), ("distance", v.distance, pop.distances),
                       ("ra", v.ra, ra), ("dec", v.dec, dec), ("theta", sd.theta, th), ("phi", sd.phi, ph),
                       ("ra", sd.ra, ra), ("dec", sd.dec, dec), ("distances", sd.distances, pop.distances)):
        check(np.allclose(np.asarray(a), np.asarray(b), rtol=1e-12, atol=1e-9),
              "%s given to samplers differs from the population's", name)
    for name in ("theta", "phi", "ra", "dec"):
        x = getattr(pop, name)
        check(np.allclose(np.array(x.latent), np.array(x), rtol=0, atol=1e-12), "%s.latent differs", name)
    return pop, th, ph


def run_sky(case):
    pop, th, ph = positions(case)
    d = np.array(pop.distances)
    check(ref.ks_p(0.5 * (1 - np.cos(th))) > P, "the polar angle is not isotropic")
    check(ref.ks_p(ph / (2 * np.pi)) > P, "the azimuth is not uniform")
    for a, b, t in ((th, ph, "angles"), (th, d, "polar angle and distance"), (ph, d, "azimuth and distance"),
                    (th[1:], th[:-1], "successive polar angles"), (ph[1:], ph[:-1], "successive azimuths")):
        check(ref.corr_p(a, b) > P, "%s are correlated", t)
    # a symmetric dependence has no rank correlation
    for a, b, t in ((np.abs(np.cos(th)), np.abs(ph - np.pi), "angles"),
                    (np.abs(np.cos(th)), d, "latitude and distance")):
        check(ref.corr_p(a, b) > P, "%s are correlated", t)
    x, y, z = np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)
    for v, t in ((x, "x"), (y, "y"), (z, "z")):
        check(ref.ks_p(0.5 * (v + 1)) > P, "%s is not uniform on the sphere", t)
    return dict(nontrivial=True, cls=case["spatial"]["cls"], objects=case["n"])


# --------------------------------------------------------- the whole survey
# with other things attached the positions remain those of the distribution
def run_attached(case):
    spec = gen.resolve(case)
    b = gen.build(spec)
    pop = b.synth.draw_survey(**spec["draw"])
    d = np.array(pop.distances)
    rm = ref.rmax(spec["spatial"])
    check(np.all((d >= 0) & (d <= rm)), "distances outside [0, %g]", rm)
    g, c = ref.cumulative(spec["spatial"])
    p = ref.ks_p(np.interp(d, g, c / c[-1]))
    check(p > P, "distances do not follow the density (KS p = %.3g)", p)
    th, ph = np.array(pop.theta), np.array(pop.phi)
    check(ref.ks_p(0.5 * (1 - np.cos(th))) > P, "the polar angle is not isotropic")
    check(ref.ks_p(ph / (2 * np.pi)) > P, "the azimuth is not uniform")
    return dict(nontrivial=len(d) > 100, objects=len(d))


@st.composite
def attached_cases(draw):
    spec = draw(gen.specs(nmax=20, naux=2, maxdepth=2, kinds=["cs", "zs", "zc", "sfr", "uc", "fl", "pv"]))
    spec["draw"]["n_samples"] = draw(st.integers(150, 500))
    return spec


# ------------------------------------------------------------------ spiral
@st.composite
def spiral_cases(draw):
    return dict(spatial=draw(gen.spatials(["sp"])), seed=draw(gen.seeds), n=draw(st.integers(1500, 3000)))


ARMS = [(4.25, 3.48, 0.0), (4.25, 3.48, 3.141), (4.89, 4.9, 2.525), (4.89, 4.9, 5.666)]


def simulate_spiral(s, n, seed):
    """The documented recipe (Faucher-Giguere & Kaspi arms)."""
    rng = np.random.default_rng(seed)
    g, c = ref.cumulative(s)
    d = np.interp(rng.uniform(0, c[-1], n), c, g)
    k, r0, t0 = np.array(ARMS)[rng.integers(0, 4, n)].T
    phi = k * np.log(d / r0) + t0 + rng.uniform(0, 2 * np.pi, n) * np.exp(-0.35 * d)
    z = rng.exponential(0.3, n) * rng.choice([-1, 1], n)
    dist = d * (1 + rng.normal(0, 0.07, n))
    return dist, np.mod(phi, 2 * np.pi), z


def run_spiral(case):
    pop, th, ph = positions(case)
    s, n = case["spatial"], case["n"]
    d = np.array(pop.distances)
    check(np.all(d >= 0) and np.all(d < 1.6 * ref.rmax(s)), "distances far outside the galaxy")
    rd, rp, rz = simulate_spiral(s, 40000, case["seed"])
    p = ref.ks2_p(d, rd)
    check(p > P, "distances do not follow the density (p = %.3g)", p)
    z = d / np.tan(th)
    p = ref.ks_p(0.5 * np.where(z < 0, np.exp(-np.abs(z) / 0.3), 2 - np.exp(-np.abs(z) / 0.3)))
    check(p > P, "heights above the plane are not exponential with scale 0.3 (p = %.3g, median |z| %.3g)",
          p, np.median(np.abs(z)))
    check(ref.corr_p(np.abs(z), d) > P, "the height depends on the distance")
    # distance from the arm each object may belong to
    for k, r0, t0 in ARMS[1:3]:
        a = np.mod(ph - k * np.log(d / r0) - t0, 2 * np.pi)
        b = np.mod(rp - k * np.log(rd / r0) - t0, 2 * np.pi)
        p = ref.ks2_p(a, b)
        check(p > P, "objects do not lie along the documented arms (p = %.3g)", p)
        # beyond the wound-up centre
        a2, b2 = a[d > 4], b[rd > 4]
        if len(a2) > 100 and len(b2) > 100:
            check(ref.ks2_p(a2, b2) > P, "outer objects do not lie along the documented arms")
    check(ref.corr_p(th, ph) > P, "the angles are correlated")
    return dict(nontrivial=True, objects=n)


SUBCHECKS = [
    Sub("distances", dist_cases(), run_distances, quick=500, thorough=6000,
        rule="800-3000 distances against the density's integral"),
    Sub("sky", sky_cases(), run_sky, quick=200, thorough=4000, rule="800-2000 positions"),
    Sub("attached", attached_cases(), run_attached, quick=120, thorough=3000, rule="more than 100 objects"),
    Sub("spiral", spiral_cases(), run_spiral, quick=120, thorough=2000, rule="1500-3000 objects"),
]
