import numpy as np
from hypothesis import strategies as st

from .. import gen, peek, ref
from ..core import Sub, check, fail

ASSUMPTIONS = [
    "distinct samplers carry distinct selector objects",
    "an object closer than 1e-3 degrees to a galactic-plane limit is not judged",
    "which objects a soft or Bernoulli selector of probability in (0,1) keeps is read from "
    "the selector itself (C10 decides its law); the combination is judged here",
]

SAT = 40.0


def _log10(v):
    with np.errstate(all="ignore"):
        return np.log10(np.asarray(v, dtype=float))


def expect(sel, obj, **kw):
    """Required mask of one selection; NaN where the outcome is random."""
    n = kw.pop("n")
    m = gen.eval_sel(sel, **kw)
    if m is not None:
        out = np.zeros(n) + np.asarray(m, dtype=float)
        if sel["cls"] == "GalacticPlaneSelection":
            out[np.abs(np.abs(kw["b"]) - sel["params"]["b_limit"]) < 1e-3] = np.nan
        return out
    out = np.full(n, np.nan)
    if sel["cls"].startswith("Soft"):
        u = {"use_flux": True} if sel["cls"] == "SoftFluxSelection" else sel["kw"]
        v = {"use_flux": kw.get("flux"), "use_obs_value": kw.get("obs"),
             "use_distance": kw.get("dist"), "use_luminosity": kw.get("lum")}[
                 [k for k in u if u[k]][0]]
        p = sel["params"]
        x = p["strength"] * (_log10(v) - np.log10(p["boundary"]))
        out[x > SAT] = 1.0
        out[x < -SAT] = 0.0
    return out


def actual(required, obj, what):
    """The selection's outcome: as required, else as the selector says."""
    n = len(required)
    rnd = np.isnan(required)
    out = np.zeros(n, dtype=bool)
    out[~rnd] = required[~rnd] > 0.5
    if rnd.any():
        s = np.asarray(obj.selection)
        check(s.shape == (n,), "%s: the selection has shape %s, not (%d,)", what, s.shape, n)
        check(not np.any(s[~rnd].astype(bool) != out[~rnd]),
              "%s: the selector disagrees with its rule", what)
        out[rnd] = s[rnd].astype(bool)
    return out


def views(pop, mask, names):
    """Every selected and hidden view and count agrees with the mask."""
    n = len(mask)
    nd = int(mask.sum())
    sel = np.asarray(pop.selection)
    check(sel.shape == (n,), "selection has shape %s for %d objects", sel.shape, n)
    check(np.array_equal(sel.astype(bool), mask), "population.selection differs from the mask")
    check(pop.n_objects == n, "n_objects %s, not %d", pop.n_objects, n)
    check(pop.n_detections == nd, "n_detections %s, not %d", pop.n_detections, nd)
    check(pop.n_non_detections == n - nd, "n_non_detections %s, not %d", pop.n_non_detections, n - nd)
    check(bool(pop.has_detections) == (nd > 0), "has_detections %s with %d", pop.has_detections, nd)
    r = [int(t) for t in repr(pop).replace("\n", " ").split() if t.isdigit()]
    check(r == [n, nd, n - nd], "repr shows %s", repr(pop))
    for name in names:
        v = getattr(pop, name)
        full, lat = np.array(v), np.array(v.latent)
        check(full.shape == (n,) and lat.shape == (n,), "%s is not one value per object", name)
        for view, m in (("selected", mask), ("non_selected", ~mask)):
            x = getattr(v, view)
            check(gen.same(np.array(x), full[m]), "%s.%s is not the masked observed values", name, view)
            check(gen.same(np.array(x.latent), lat[m]), "%s.%s.latent is not the masked latent values", name, view)
    F, D = pop.fluxes, pop.distances
    for a, b in (("selected_fluxes_observed", np.array(F)[mask]),
                 ("selected_fluxes_latent", np.array(F.latent)[mask]),
                 ("selected_distances", np.array(D)[mask]),
                 ("hidden_fluxes_observed", np.array(F)[~mask]),
                 ("hidden_fluxes_latent", np.array(F.latent)[~mask]),
                 ("hidden_distances", np.array(D)[~mask]),
                 ("fluxes_observed", np.array(F)), ("fluxes_latent", np.array(F.latent)),
                 ("luminosities_latent", np.array(pop.luminosities.latent))):
        check(gen.same(np.array(getattr(pop, a)), b), "%s differs from the objects it names", a)


NAMES = ["luminosities", "distances", "theta", "phi", "fluxes"]


def run_survey(case):
    spec = gen.resolve(case)
    b = gen.build(spec)
    pop = b.synth.draw_survey(**spec["draw"])
    n = len(np.asarray(pop.distances))
    check(n == spec["draw"]["n_samples"], "%d objects instead of %d", n, spec["draw"]["n_samples"])
    lab = dict()
    flux, dist, lum = np.array(pop.fluxes), np.array(pop.distances), np.array(pop.luminosities)
    mask = np.ones(n, dtype=bool)
    unsure = np.zeros(n, dtype=bool)
    active = 0

    def apply(sel, obj, what, **kw):
        nonlocal mask, active
        req = expect(sel, obj, n=n, **kw)
        if sel["cls"] == "GalacticPlaneSelection":
            # the band next to the limit is not judged
            r = np.isnan(req)
            unsure[r] = True
            req[r] = np.asarray(pop.selection)[r].astype(float)
        a = actual(req, obj, what)
        if 0 < a.sum() < n:
            active += 1
        mask = mask & a
        lab["sel_" + sel["cls"]] = True

    if spec["flux_sel"]:
        apply(spec["flux_sel"], b.flux_sel, "flux selection", flux=flux)
    if spec["spat_sel"]:
        bb = gen.galactic_latitude(np.array(pop.ra), np.array(pop.dec))
        apply(spec["spat_sel"], b.spat_sel, "spatial selection", dist=dist, b=bb)
    depth = 0
    for node, d, parent in gen.walk_nodes(spec):
        q = getattr(pop, node["name"])
        if node.get("sel"):
            depth = max(depth, d)
            lab["sel_depth_%d" % d] = True
            apply(node["sel"], b.reg[node["name"]].selector, "selection of " + node["name"],
                  obs=np.array(q), dist=dist, lum=lum)
    got = np.asarray(pop.selection).astype(bool)
    check(got.shape == (n,), "selection has shape %s", got.shape)
    bad = np.where((got != mask) & ~unsure)[0]
    if len(bad):
        fail("object(s) %s: detected %s, but passing every attached selection is %s",
             bad[:5].tolist(), got[bad[:5]].tolist(), mask[bad[:5]].tolist())
    mask = got
    names = NAMES + [nd["name"] for nd, _, _ in gen.walk_nodes(spec)]
    if pop.probability is not None:
        names.append("probability")
    views(pop, mask, names)

    # known distances
    dd = dist[mask]
    k = len(dd)
    known_idx = np.asarray(peek.known_idx(pop))
    unknown_idx = np.asarray(peek.unknown_idx(pop))
    kd = np.asarray(pop.known_distances)
    if spec["dist_sel"]:
        req = expect(spec["dist_sel"], b.dist_sel, n=k, dist=dd)
        km = actual(req, b.dist_sel, "distance selection")
        lab["dist_" + spec["dist_sel"]["cls"]] = True
        if 0 < km.sum() < k:
            lab["dist_split"] = True
    else:
        km = np.ones(k, dtype=bool)
    check(np.array_equal(known_idx, np.where(km)[0]),
          "known distance indices %s, not %s", known_idx.tolist()[:9], np.where(km)[0].tolist()[:9])
    check(np.array_equal(unknown_idx, np.where(~km)[0]), "unknown distance indices are wrong")
    check(gen.same(kd, dd[km]), "known distances are not those of the known objects")

    # selecting neither reorders nor filters nor changes the objects
    stoch = False
    for s in [spec["flux_sel"], spec["dist_sel"], spec["spat_sel"]] + \
            [nd.get("sel") for nd, _, _ in gen.walk_nodes(spec)]:
        if s and (s["cls"].startswith("Soft") or s["cls"] == "BernoulliSelection"):
            stoch = True
    if not stoch:
        s0 = gen.strip(spec)
        if spec["flux_sel"]:
            s0["flux_sel"] = dict(cls="LowerBound", kw={"use_flux": True}, params={"boundary": -1.0})
        p0 = gen.build(s0).synth.draw_survey(**spec["draw"])
        x, y = gen.arrays(pop), gen.arrays(p0)
        for key in ("selection", "known_distances", "known_distance_idx", "unknown_distance_idx",
                    "probability"):
            x.pop(key, None), y.pop(key, None)
        df = gen.diff_arrays(x, y)
        check(not df, "selecting changed the objects themselves: %s", df)
        check(bool(np.all(p0.selection)), "without selections an object is hidden")
        lab["unselected_twin"] = True
    lab["empty"] = n == 0
    lab["all_hidden"] = n > 0 and not mask.any()
    lab["all_seen"] = bool(mask.all())
    lab["active_selections"] = str(min(active, 5))
    lab["nontrivial"] = 0 < mask.sum() < n and active >= 1
    return lab


# -- one aux sampler with a selection at a chosen place, nothing else: the
# -- conjunction has a single member and cannot be masked by others
@st.composite
def single(draw):
    spec = dict(seed=draw(gen.seeds), spatial=draw(gen.spatials(["cs", "zs", "zc", "fl", "pv"])),
                lum=draw(gen.luminosities()), flux_sel=None, dist_sel=None, spat_sel=None,
                derived=None)
    depth = draw(st.integers(0, 4))
    width = draw(st.integers(0, 2))
    leaf = dict(draw(st.one_of(gen.deps(), gen.aux_laws())), sec=[],
                observed=draw(st.booleans()))
    opts = dict(dist=leaf["cls"] in ("PvDepD", "PvDepDL", "PvDepS"),
                lum=leaf["cls"] in ("PvDepL", "PvDepDL") or depth == 0)
    leaf["sel"] = draw(gen.aux_sels(False, **opts))
    node = leaf
    for _ in range(depth):
        sib = [dict(draw(gen.aux_laws()), sec=[], observed=draw(st.booleans()), sel=None)
               for _ in range(draw(st.integers(0, width)))]
        pos = draw(st.integers(0, len(sib)))
        node = dict(draw(gen.deps()), sec=sib[:pos] + [node] + sib[pos:],
                    observed=draw(st.booleans()), sel=None)
    others = [dict(draw(gen.aux_laws()), sec=[], observed=True, sel=None)
              for _ in range(draw(st.integers(0, 2)))]
    pos = draw(st.integers(0, len(others)))
    if draw(st.integers(0, 3)) == 0 and depth and _no_lum(node):
        # below the derived luminosity instead
        root = dict(cls=draw(st.sampled_from(["PvDerived", "PvDerivedD"])),
                    params=dict(mu=1.0, tau=0.5), observed=False, sel=None, sec=[node])
        spec["lum"] = None
        spec["aux"], spec["derived"] = gen.name_forest(others, root)
    else:
        spec["aux"], _ = gen.name_forest(others[:pos] + [node] + others[pos:])
    spec["draw"] = draw(gen.draws(30, sigma=False))
    return spec


def _no_lum(n):
    if n["cls"] in ("PvDepL", "PvDepDL") or (n["sel"] and n["sel"]["kw"].get("use_luminosity")):
        return False
    return all(_no_lum(s) for s in n["sec"])


@st.composite
def strong_soft(draw):
    """Soft selections so steep that most outcomes are certain."""
    spec = draw(gen.specs(nmax=30, naux=1, maxdepth=1))
    s = st.sampled_from([1e4, 1e6, 300.0])
    which = draw(st.sampled_from(["flux", "dist", "both"]))
    if which != "dist":
        spec["flux_sel"] = draw(st.one_of(
            gen.soft("flux", [1e4, 1e6, 300.0]),
            gen.fixed(cls=st.just("SoftFluxSelection"), kw=st.just({}),
                      params=gen.fixed(boundary=gen.place(False), strength=s.map(lambda x: {"v": x})))))
    if which != "flux":
        spec["dist_sel"] = draw(gen.soft("dist", [1e4, 1e6, 300.0]))
    return spec


SUBCHECKS = [
    Sub("survey", gen.specs(), run_survey, quick=1600, thorough=60000,
        rule="at least one selection splits the survey and the survey has both detected and hidden objects"),
    Sub("single", single(), run_survey, quick=700, thorough=20000,
        rule="as survey; one auxiliary selection at depth 0-4"),
    Sub("steep", strong_soft(), run_survey, quick=400, thorough=10000, rule="as survey; steep soft selections"),
]
