import json

import numpy as np
from hypothesis import strategies as st

import popsynth
from .. import gen, ref
from ..core import Sub, check, fail

ASSUMPTIONS = [
    "matter densities from 0.27 to 0.9, where the documented approximation is good to a per cent",
    "the compiled cosmology keeps its parameters in single precision (1e-5 allowed between the two)",
]


@st.composite
def cosmo_cases(draw):
    steps = draw(st.lists(gen.fixed(
        Om=st.one_of(st.just(None), gen.num(0.27, 0.9)), h0=st.one_of(st.just(None), gen.num(40, 100)),
        z=st.lists(st.one_of(gen.lognum(1e-3, 10), gen.num(0.01, 3)), min_size=1, max_size=6)),
        min_size=1, max_size=4))
    return dict(steps=steps)


def compare(c, z, Om, h0, where=""):
    zz = np.array(z, dtype=float)
    z0 = zz.copy()
    d = np.asarray(c.luminosity_distance(zz))
    v = np.asarray(c.differential_comoving_volume(zz))
    t = np.asarray(c.comoving_transverse_distance(zz))
    check(np.array_equal(zz, z0), "the input redshifts were changed")
    for x, name in ((d, "luminosity distance"), (v, "differential volume"), (t, "transverse distance")):
        check(x.shape == zz.shape, "%s of %d redshifts has shape %s", name, len(zz), x.shape)
        check(np.all(np.isfinite(x)) and np.all(x > 0), "%s is not positive: %s%s", name, x, where)
    tol = 0.008
    for x, w, name, f in ((d, ref.lum_distance_cm(zz, Om, h0), "luminosity distance", 1),
                          (v, ref.diff_volume(zz, Om, h0), "differential volume", 2),
                          (t, ref.lum_distance_cm(zz, Om, h0) / (1 + zz), "transverse distance", 1)):
        bad = ~np.isclose(x, w, rtol=tol * f, atol=0)
        if bad.any():
            i = int(np.argmax(bad))
            fail("%s at z = %r with Om = %g, h0 = %g is %r, should be %r%s", name, float(zz[i]), Om, h0,
                 float(x[i]), float(w[i]), where)
    for i in range(len(zz)):
        for fn, x in ((c.luminosity_distance, d), (c.differential_comoving_volume, v)):
            s = float(fn(float(zz[i])))
            check(np.isclose(s, x[i], rtol=1e-10, atol=0), "scalar %r and array element %r differ at z = %r", s, x[i], zz[i])
    return d, v


def run_cosmology(case):
    c = popsynth.cosmology
    Om0, h00 = c.Om, c.h0
    Om, h0 = Om0, h00
    check(np.isclose(Om, 0.307) and np.isclose(h0, 67.7), "default cosmology is Om %g, h0 %g", Om, h0)
    try:
        for s in case["steps"]:
            if s["Om"] is not None:
                c.Om = Om = s["Om"]
            if s["h0"] is not None:
                c.h0 = h0 = s["h0"]
            check(c.Om == Om and c.h0 == h0, "the configured cosmology did not stick")
            d, v = compare(c, s["z"], Om, h0)
            g = np.unique(np.array(s["z"] + [1e-3, 0.1, 1.0, 5.0, 10.0, 1e-3 * (1 + 1e-3), 5.0 * (1 + 1e-3)]))
            dl = np.asarray(c.luminosity_distance(g))
            sep = np.diff(g) > 1e-6 * g[1:]
            check(np.all(np.diff(dl)[sep] > 0), "the luminosity distance does not increase with redshift")
            z = np.array(s["z"])
            # distributions see the same cosmology
            for cls in (popsynth.ZPowerCosmoDistribution, popsynth.SFRDistribution, popsynth.UniformCosmoDistribution):
                o = cls()
                check(np.allclose(o.differential_volume(z), v, rtol=1e-10, atol=0), "%s has another volume", cls.__name__)
                check(np.allclose(o.transform(1.0, z), 1 / (4 * np.pi * d ** 2), rtol=1e-10, atol=0),
                      "%s has another distance", cls.__name__)
    finally:
        c.Om, c.h0 = Om0, h00
    # nothing is left over
    compare(c, case["steps"][-1]["z"], Om0, h00, " (after changing back)")
    return dict(nontrivial=True, steps=len(case["steps"]), changes=sum(s["Om"] is not None or s["h0"] is not None for s in case["steps"]))


# ------------------------------------------------------------ closed forms
@st.composite
def form_cases(draw):
    return dict(spatial=draw(gen.spatials(["zc", "sfr", "uc", "cs", "zs", "fl", "sp"])),
                z=draw(st.lists(st.one_of(gen.lognum(1e-3, 10), gen.num(0, 8)), min_size=1, max_size=8)))


def run_forms(case):
    s = case["spatial"]
    o = gen.build_spatial(s)
    z = np.array(case["z"], dtype=float)
    want = ref.dndv(s, z)
    got = np.asarray(o.dNdV(z)) + 0 * z
    bad = ~np.isclose(got, want, rtol=1e-9, atol=0)
    if bad.any():
        i = int(np.argmax(bad))
        fail("rate density of %s at %r is %r, should be %r", s["cls"], float(z[i]), float(got[i]), float(want[i]))
    t = np.asarray(o.time_adjustment(z)) + 0 * z
    rate = s["cls"] in ref.COSMO and (s["rate"] is None or s["rate"])
    check(np.allclose(t, 1 + z if rate else 1.0, rtol=1e-12), "time adjustment is %s for %s (rate: %s)", t[:3], s["cls"], s["rate"])
    v = np.asarray(o.differential_volume(z)) + 0 * z
    if s["cls"] in ref.COSMO:
        check(np.allclose(v, ref.diff_volume(z), rtol=0.016, atol=1e-30), "differential volume of %s", s["cls"])
    elif s["cls"] == "FlatlandDistribution":
        check(np.all(v == 1), "differential volume of flatland is %s", v[:3])
    else:
        check(np.allclose(v, 4 * np.pi * z ** 2, rtol=1e-12, atol=0), "differential volume of %s", s["cls"])
    for i in range(len(z)):
        check(np.isclose(float(o.dNdV(float(z[i]))), got[i], rtol=1e-12, atol=0), "scalar and array rate densities differ")
        check(np.isclose(float(o.time_adjustment(float(z[i]))), t[i]), "scalar and array time adjustments differ")
    # changing a parameter takes effect at once
    k = sorted(k for k in s["params"] if k in ("Lambda", "r0", "rho"))[0]
    setattr(o, k, 2 * s["params"][k])
    check(np.allclose(np.asarray(o.dNdV(z)) + 0 * z, 2 * got, rtol=1e-9, atol=0), "a changed amplitude has no effect")
    return dict(nontrivial=True, cls=s["cls"], rate=bool(rate))


# ----------------------------------------------------------- compiled code
@st.composite
def compiled_cases(draw):
    items = draw(st.lists(gen.fixed(Om=gen.num(0.27, 0.9), h0=gen.num(40, 100),
                                    z=st.lists(gen.lognum(1e-3, 10), min_size=1, max_size=6)),
                          min_size=4, max_size=10))
    return dict(items=items)


def run_compiled(case):
    from .c02 import spawn

    r = spawn(dict(specs=[], cosmology=case["items"]), True, 0)["cosmology"]
    c = popsynth.cosmology
    keep = c.Om, c.h0
    try:
        for it, (d, v, t) in zip(case["items"], r):
            z = np.array(it["z"])
            for x, w, name in ((d, ref.lum_distance_cm(z, it["Om"], it["h0"]), "luminosity distance"),
                               (v, ref.diff_volume(z, it["Om"], it["h0"]), "differential volume")):
                check(np.allclose(x, w, rtol=0.016, atol=0), "compiled %s is %s, should be %s", name, x, w)
            c.Om, c.h0 = it["Om"], it["h0"]
            check(np.allclose(d, c.luminosity_distance(z), rtol=3e-5, atol=0), "compiled and interpreted distances differ")
            check(np.allclose(v, c.differential_comoving_volume(z), rtol=3e-5, atol=0), "compiled and interpreted volumes differ")
    finally:
        c.Om, c.h0 = keep
    return dict(nontrivial=True, settings=len(case["items"]))


SUBCHECKS = [
    Sub("compiled", compiled_cases(), run_compiled, quick=8, thorough=64, hang=400, shrink_s=60,
        rule="cosmologies set one after another in one process with compiled kernels"),
    Sub("cosmology", cosmo_cases(), run_cosmology, quick=1500, thorough=60000, rule="every case"),
    Sub("forms", form_cases(), run_forms, quick=1500, thorough=60000, rule="every case"),
]
