import numpy as np
from hypothesis import strategies as st
from scipy import special

import popsynth
from .. import custom, gen, ref
from ..core import Sub, check, fail, derive_seed

ASSUMPTIONS = [
    "a selector is given exactly one kind of value to select on",
    "soft selections get non-negative values (their law is in the logarithm)",
    "galactic latitude limits closer than 1e-5 deg to an object are not judged",
    "statistical verdicts have a false-alarm probability below 1e-9 per case",
]
P = 1e-10
KINDS = ("obs", "dist", "lum", "flux")


def give(s, kind, values, decoy=None):
    put = dict(obs=s.set_observed_value, dist=s.set_distance, lum=s.set_luminosity, flux=s.set_observed_flux)
    for k, f in put.items():
        if k == kind:
            f(values)
        elif decoy is not None:
            f(decoy)


def views(s, mask, what):
    """Counts and index lists agree with the mask."""
    mask = np.asarray(mask)
    got = np.asarray(s.selection)
    check(got.dtype == bool, "%s: the selection is %s, not boolean", what, got.dtype)
    check(got.shape == mask.shape, "%s: selection has shape %s for %s values", what, got.shape, mask.shape)
    bad = np.where(got != mask)[0]
    check(len(bad) == 0, "%s: object %s is %s", what, bad[:3], got[bad[:3]])
    check(int(s.n_selected) == int(mask.sum()), "%s: n_selected = %s of %s", what, s.n_selected, int(mask.sum()))
    check(int(s.n_non_selected) == int((~mask).sum()), "%s: n_non_selected = %s", what, s.n_non_selected)
    check(int(s.n_objects) == len(mask), "%s: n_objects = %s", what, s.n_objects)
    check(list(map(int, s.selection_index)) == [i for i, m in enumerate(mask) if m], "%s: selection_index %s", what, s.selection_index)
    check(list(map(int, s.non_selection_index)) == [i for i, m in enumerate(mask) if not m],
          "%s: non_selection_index %s", what, s.non_selection_index)


# ------------------------------------------------------------------- bounds
@st.composite
def bound_cases(draw):
    kind = draw(st.sampled_from(KINDS))
    ints = draw(st.integers(0, 3)) == 0
    if ints:
        vals = draw(st.lists(st.integers(-5, 5), min_size=0, max_size=12))
    else:
        vals = draw(st.lists(st.one_of(gen.num(-10, 10), gen.lognum(1e-30, 1e30),
                                       st.sampled_from([0.0, float("inf"), float("-inf"), 1e-320])), max_size=12))
    cls = draw(st.sampled_from(["LowerBound", "UpperBound", "BoxSelection", "BoxSelection", "HardFluxSelection",
                                "UnitySelection", "DistanceSelection"]))
    if cls == "HardFluxSelection":
        kind = "flux"
    if cls == "DistanceSelection":
        kind = "dist"
        vals = [abs(v) for v in vals]

    def bound():
        o = [gen.num(-10, 10), st.integers(-6, 6)]
        if vals:
            k = st.sampled_from(vals)
            o += [k, k, k.map(lambda v: float(np.nextafter(float(v), np.inf))), k.map(lambda v: float(np.nextafter(float(v), -np.inf)))]
        v = draw(st.one_of(o))
        return abs(v) if cls == "DistanceSelection" else v
    if cls == "BoxSelection":
        p = dict(vmin=bound(), vmax=bound())
    elif cls == "DistanceSelection":
        p = dict(min_distance=bound(), max_distance=bound())
    elif cls == "UnitySelection":
        p = {}
    else:
        p = dict(boundary=bound())
    return dict(cls=cls, kind=kind, values=vals, params=p, decoy=draw(st.booleans()), ints=ints)


def run_bounds(case):
    v = np.array(case["values"], dtype=int if case["ints"] else float)
    n = len(v)
    kw = {}
    if case["cls"] in ("LowerBound", "UpperBound", "BoxSelection"):
        kw = {gen.USES[case["kind"]]: True}
    s = gen.build_sel(dict(cls=case["cls"], kw=kw, params=case["params"]))
    before = v.copy()
    if case["cls"] == "DistanceSelection":
        s.set_spatial_distribution(custom.PvSky(np.zeros(n), np.zeros(n), v))
    else:
        give(s, case["kind"], v, -np.arange(n) * 1.0 if case["decoy"] else None)
    s.select(n)
    p = case["params"]
    lo = p.get("vmin", p.get("min_distance", -np.inf))
    hi = p.get("vmax", p.get("max_distance", np.inf))
    if case["cls"] in ("LowerBound", "HardFluxSelection"):
        lo = p["boundary"]
    if case["cls"] == "UpperBound":
        hi = p["boundary"]
    mask = np.array([bool(lo <= x <= hi) for x in v], dtype=bool)
    views(s, mask, "%s%s of %s" % (case["cls"], p, case["kind"]))
    check(gen.same(v, before), "selecting changed the values")
    return dict(cls=case["cls"], kind=case["kind"], tie=any(x in (lo, hi) for x in v), empty=n == 0,
                nontrivial=bool(mask.any() and not mask.all()) or (n > 0 and not p))


# --------------------------------------------------------------------- soft
@st.composite
def soft_cases(draw):
    cls = draw(st.sampled_from(["SoftSelection", "SoftSelection", "SoftFluxSelection"]))
    b = draw(gen.lognum(1e-12, 1e6))
    # the values are placed by the logit they should have
    return dict(cls=cls, kind=draw(st.sampled_from(KINDS)) if cls == "SoftSelection" else "flux",
                boundary=b, strength=draw(st.one_of(gen.lognum(0.3, 60), st.just(0.0), st.integers(1, 20))),
                logits=draw(st.lists(st.one_of(gen.num(-4, 4), st.sampled_from([0.0, 60.0, -60.0])), min_size=1, max_size=5)),
                zero=draw(st.booleans()), linear=draw(st.integers(0, 4)) == 0,
                m=draw(st.integers(100, 1500)), order=draw(st.integers(0, 2 ** 31 - 1)), seed=draw(gen.seeds))


def run_soft(case):
    s = gen.build_sel(dict(cls=case["cls"], kw={gen.USES[case["kind"]]: True} if case["cls"] == "SoftSelection" else {},
                           params=dict(boundary=case["boundary"], strength=case["strength"])))
    linear = case["linear"] and case["cls"] == "SoftSelection"
    k, b = case["strength"], case["boundary"]
    vals = []
    for x in case["logits"]:
        e = x / max(k, 0.3)
        vals.append(b + e if linear else b * 10.0 ** float(np.clip(e, -200, 200)))
    vals = sorted(set(v for v in vals if np.isfinite(v) and (linear or v > 0)))
    if case["zero"] and not linear and k > 0:
        vals.append(0.0)
    vals = np.array(vals)
    if len(vals) == 0:
        return {}
    m = case["m"]
    v = np.repeat(vals, m)
    grp = np.repeat(np.arange(len(vals)), m)
    o = np.random.RandomState(case["order"]).permutation(len(v))
    v, grp = v[o], grp[o]
    np.random.seed(case["seed"])
    give(s, case["kind"], v, np.full(len(v), b))
    if linear:
        s.draw(len(v), use_log=False)
        pr = special.expit(k * (vals - b))
    else:
        s.select(len(v))
        with np.errstate(all="ignore"):
            pr = special.expit(k * (np.log10(vals) - np.log10(b)))
    sel = np.array(s.selection)
    views(s, sel, case["cls"])
    check(len(sel) == len(v), "%d decisions for %d values", len(sel), len(v))
    mid = False
    for i, p in enumerate(pr):
        g = sel[grp == i]
        q = ref.binom_p(g.sum(), len(g), p)
        check(q > P, "value %g (boundary %g, strength %g): kept %d of %d, the law says %.5f", vals[i], b, k, g.sum(), len(g), p)
        # independent decisions
        h = len(g) // 2
        both = g[:h] & g[h:2 * h]
        check(ref.binom_p(both.sum(), h, p * p) > P, "decisions are not independent: %d pairs of %d, p = %.4f", both.sum(), h, p)
        near = g[:2 * h:2] & g[1:2 * h:2]
        check(ref.binom_p(near.sum(), h, p * p) > P, "neighbouring decisions are not independent: %d pairs of %d, p = %.4f", near.sum(), h, p)
        mid |= 0.05 < p < 0.95
    if mid and m >= 200 and not linear:
        s.reset()
        s.select(len(v))
        # the chance of a repetition is below 0.905^200 per value
        check(not gen.same(np.array(s.selection), sel), "the selection was not redrawn after a reset")
    return dict(cls=case["cls"], kind=case["kind"], linear=linear, zero=case["zero"], strength0=k == 0, nontrivial=mid)


# ---------------------------------------------------------------- bernoulli
@st.composite
def bern_cases(draw):
    return dict(p=draw(st.one_of(gen.num(0, 1), st.sampled_from([0, 1, 0.0, 1.0, 0.5, 0.01, 0.99]))),
                default=draw(st.integers(0, 5)) == 0,
                n=draw(st.integers(0, 600)), progress=draw(st.booleans()), seed=draw(gen.seeds))


def run_bern(case):
    s = popsynth.BernoulliSelection()
    p = case["p"]
    if case["default"]:
        p = 0.5
    else:
        s.probability = p
    n = case["n"]
    np.random.seed(case["seed"])
    if case["progress"]:
        popsynth.show_progress_bars()
    try:
        s.select(n)
        first = np.array(s.selection)
        s.select(n)
        check(gen.same(s.selection, first), "the selection changed when selecting again")
        s.reset()
        s.select(n)
        second = np.array(s.selection)
    finally:
        popsynth.silence_progress_bars()
    views(s, second, "Bernoulli")
    for a in (first, second):
        check(a.dtype == bool and a.shape == (n,), "the selection is %s of shape %s", a.dtype, a.shape)
        check(ref.binom_p(a.sum(), n, p) > P, "Bernoulli(%r) kept %d of %d", p, a.sum(), n)
        h = n // 2
        for q in (a[:h] & a[h:2 * h], a[:2 * h:2] & a[1:2 * h:2]):
            check(ref.binom_p(q.sum(), h, p * p) > P, "decisions are not independent: %d of %d pairs, p = %r", q.sum(), h, p)
    check(ref.binom_p((first & second).sum(), n, p * p) > P,
          "decisions before and after a reset are not independent: %d of %d, p = %r", (first & second).sum(), n, p)
    return dict(progress=case["progress"], edge=p in (0, 1), nontrivial=n > 20)


# -------------------------------------------------------------------- plane
@st.composite
def plane_cases(draw):
    return dict(pos=draw(st.lists(st.tuples(gen.num(0, 3.14159), gen.num(0, 6.28318)), max_size=12)),
                near=draw(st.lists(st.tuples(gen.num(0, 360), gen.num(-12, 12)), max_size=8)),
                poles=draw(st.booleans()), random=draw(st.sampled_from([0, 0, 20])),
                b_limit=draw(st.one_of(gen.num(0, 90), st.sampled_from([0, 90, 5, 10, 62.871, 27.1283]))))


def _radec(l, b):
    """Equatorial position of a galactic one, degrees."""
    a, d, l0 = np.deg2rad([192.85948, 27.12825, 122.93192])
    l, b = np.deg2rad(l), np.deg2rad(b)
    dec = np.arcsin(np.sin(d) * np.sin(b) + np.cos(d) * np.cos(b) * np.cos(l0 - l))
    ra = a + np.arctan2(np.cos(b) * np.sin(l0 - l), np.cos(d) * np.sin(b) - np.sin(d) * np.cos(b) * np.cos(l0 - l))
    return np.rad2deg(ra) % 360, np.rad2deg(dec)


def run_plane(case):
    lim = case["b_limit"]
    th = [p[0] for p in case["pos"]]
    ph = [p[1] for p in case["pos"]]
    for l, db in case["near"]:
        for sgn in (1, -1):
            b = sgn * lim + db
            if abs(b) <= 90:
                ra, dec = _radec(l, b)
                th.append(np.deg2rad(90 - dec))
                ph.append(np.deg2rad(ra))
    if case["poles"]:
        th += [0.0, np.pi, np.pi / 2, np.deg2rad(90 - 27.12825), np.deg2rad(90 + 27.12825)]
        ph += [0.0, 0.0, 2 * np.pi, np.deg2rad(192.85948), np.deg2rad(12.85948)]
    sky = custom.PvSky(th, ph, np.ones(len(th)))
    if case["random"]:
        sky = popsynth.SFRDistribution()
        sky.draw_sky_positions(case["random"])
    n = len(sky.theta)
    s = popsynth.GalacticPlaneSelection()
    s.b_limit = lim
    s.set_spatial_distribution(sky)
    s.select(n)
    got = np.array(s.selection)
    b = np.abs(gen.galactic_latitude(np.array(np.rad2deg(sky.phi)), 90 - np.array(np.rad2deg(sky.theta)))) if n else np.array([])
    want = b >= lim
    clear = np.abs(b - lim) > 1e-5
    if lim == 0:
        want, clear = np.ones(n, bool), np.ones(n, bool)
    check(got.dtype == bool and got.shape == (n,), "selection is %s of shape %s", got.dtype, got.shape)
    bad = np.where((got != want) & clear)[0]
    check(len(bad) == 0, "objects %s at |b| = %s with limit %r: %s", bad[:3], b[bad[:3]], lim, got[bad[:3]])
    views(s, got, "galactic plane")
    return dict(nontrivial=bool(want[clear].any() and not want[clear].all()), near=len(case["near"]) > 0)


# ------------------------------------------------------------------ algebra
@st.composite
def algebra_cases(draw):
    n = draw(st.integers(1, 10))
    base = []
    for _ in range(draw(st.integers(1, 4))):
        base.append(dict(cls=draw(st.sampled_from(["LowerBound", "UpperBound", "BoxSelection", "UnitySelection", "BernoulliSelection"])),
                         kind=draw(st.sampled_from(KINDS)),
                         values=draw(st.lists(st.integers(-3, 3), min_size=n, max_size=n)),
                         a=draw(st.integers(-3, 3)), b=draw(st.integers(-3, 3))))
    ix = st.integers(0, 20)
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just("select"), ix),
        st.tuples(st.just("select"), ix),
        st.tuples(st.just("add"), ix, ix),
        st.tuples(st.just("add"), ix, ix),
        st.tuples(st.just("iadd"), ix, ix),
        st.tuples(st.just("reset"), ix),
        st.tuples(st.just("values"), ix, st.lists(st.integers(-3, 3), min_size=n, max_size=n)),
        st.tuples(st.just("param"), ix, st.integers(-3, 3), st.integers(-3, 3)),
        st.tuples(st.just("read"), ix),
    ), min_size=1, max_size=25))
    return dict(n=n, base=base, ops=[list(o) for o in ops])


def run_algebra(case):
    n = case["n"]
    objs = []
    for d in case["base"]:
        kw = {gen.USES[d["kind"]]: True} if d["cls"] in ("LowerBound", "UpperBound", "BoxSelection") else {}
        s = gen.cls_of(d["cls"])(**kw)
        m = dict(s=s, cls=d["cls"], kind=d["kind"], values=list(d["values"]), a=d["a"], b=d["b"], mask=None, base=True)
        setp(m)
        give(s, d["kind"], np.array(d["values"]))
        objs.append(m)
    nadd = nreset = 0
    kept = 0

    def everything():
        for i, m in enumerate(objs):
            if m["mask"] is None:
                try:
                    m["s"].selection
                except RuntimeError:
                    continue
                fail("selector %d (%s) has a selection without being drawn", i, m["cls"])
            views(m["s"], m["mask"], "selector %d (%s)" % (i, m["cls"]))
    for op in case["ops"]:
        m = objs[op[1] % len(objs)]
        if op[0] == "select" and m["base"]:
            again = m["mask"] is not None
            m["s"].select(n)
            if not again:
                if m["cls"] == "BernoulliSelection":
                    m["mask"] = np.array(m["s"].selection)
                    check(m["mask"].shape == (n,), "wrong size")
                    if m["p"] in (0, 1):
                        check(m["mask"].all() if m["p"] else not m["mask"].any(), "Bernoulli(%s) kept %s", m["p"], m["mask"])
                else:
                    m["mask"] = model(m, n)
            kept += again
        elif op[0] in ("add", "iadd"):
            o = objs[op[2] % len(objs)]
            if m["mask"] is None or o["mask"] is None:
                continue
            if op[0] == "add":
                s = m["s"] + o["s"]
            else:
                s = m["s"]
                s += o["s"]
                if s is m["s"]:
                    m["mask"] = m["mask"] & o["mask"]
                    continue
            objs.append(dict(s=s, cls="sum", mask=m["mask"] & o["mask"], base=False))
            nadd += 1
        elif op[0] == "reset" and m["base"]:
            nreset += m["mask"] is not None
            m["s"].reset()
            m["mask"] = None
        elif op[0] == "values" and m["base"]:
            m["values"] = list(op[2])
            give(m["s"], m["kind"], np.array(op[2]))
        elif op[0] == "param" and m["base"]:
            m["a"], m["b"] = op[2], op[3]
            setp(m)
        everything()
    return dict(sums=nadd, resets=nreset, again=kept, nontrivial=nadd > 0 or nreset > 0 or kept > 0)


def setp(m):
    s = m["s"]
    if m["cls"] == "BoxSelection":
        s.vmin, s.vmax = min(m["a"], m["b"]), max(m["a"], m["b"])
    elif m["cls"] in ("LowerBound", "UpperBound"):
        s.boundary = m["a"]
    elif m["cls"] == "BernoulliSelection":
        m["p"] = {-3: 0, -2: 1, -1: 0.2, 0: 0.5, 1: 0.8, 2: 0, 3: 1}[m["a"]]
        s.probability = m["p"]


def model(m, n):
    v = np.array(m["values"])
    if m["cls"] == "UnitySelection":
        return np.ones(n, dtype=bool)
    if m["cls"] == "LowerBound":
        return v >= m["a"]
    if m["cls"] == "UpperBound":
        return v <= m["a"]
    return (v >= min(m["a"], m["b"])) & (v <= max(m["a"], m["b"]))


SUBCHECKS = [
    Sub("bounds", bound_cases(), run_bounds, quick=4000, thorough=100000,
        rule="the bound splits the values (or a unity selection of some)"),
    Sub("soft", soft_cases(), run_soft, quick=1000, thorough=30000,
        rule="some value has a keeping probability within 5..95 %"),
    Sub("bernoulli", bern_cases(), run_bern, quick=1000, thorough=20000, rule="more than 20 objects"),
    Sub("plane", plane_cases(), run_plane, quick=600, thorough=10000,
        rule="the limit splits the clearly placed objects"),
    Sub("algebra", algebra_cases(), run_algebra, quick=2500, thorough=60000,
        rule="a history with a sum, a reset of a drawn selector or a repeated selection"),
]
