"""Case generators for surveys and the code that builds them."""

import copy

import numpy as np
from hypothesis import strategies as st

import popsynth
import popsynth.distributions as pd_
import popsynth.aux_samplers as pa_
import popsynth.selection_probability as ps_
from popsynth.aux_samplers.sky_sampler import DecSampler, RASampler
from popsynth.selection_probability import spatial_selection as ss_

from . import custom, peek


def cls_of(name):
    if name in custom.BY_NAME:
        return custom.BY_NAME[name]
    if name == "RASampler":
        return RASampler
    if name == "DecSampler":
        return DecSampler
    for m in (pd_, pa_, ps_):
        if hasattr(m, name):
            return getattr(m, name)
    raise KeyError(name)


def sig(x, n=5):
    return float("%.*g" % (n, x))


def _whole(lo, hi):
    """Sometimes a whole number is given as an int."""
    def f(t):
        x, k = t
        if k and abs(x) < 1e6 and np.ceil(lo) <= np.floor(hi):
            return int(min(np.floor(hi), max(np.ceil(lo), round(x))))
        return x
    return f


_ints = st.sampled_from([0] * 7 + [1])


def num(lo, hi):
    """Plain floats in [lo, hi], short in decimal."""
    return st.tuples(st.floats(lo, hi, allow_nan=False).map(
        lambda x: min(hi, max(lo, sig(x) if abs(x) >= 1e-3 else 0.0))
    ), _ints).map(_whole(lo, hi))


def lognum(lo, hi):
    return st.tuples(st.floats(np.log10(lo), np.log10(hi), allow_nan=False).map(
        lambda e: min(hi, max(lo, sig(10.0 ** e)))
    ), _ints).map(_whole(lo, hi))


seeds = st.integers(0, 2 ** 31 - 1)


def fixed(**kw):
    return st.fixed_dictionaries(kw)


# ------------------------------------------------------------------ spatial

def _spat(cls, rate=False, **params):
    d = dict(cls=st.just(cls), params=fixed(**params))
    d["rate"] = st.booleans() if rate else st.none()
    return fixed(**d)


def spatials(kinds=None, rmax=8.0):
    r = num(0.3, rmax)
    all_ = dict(
        cs=_spat("ConstantSphericalDistribution", Lambda=lognum(1e-2, 50), r_max=r),
        zs=_spat("ZPowerSphericalDistribution", Lambda=lognum(1e-2, 50),
                 delta=num(-4, 3), r_max=r),
        zc=_spat("ZPowerCosmoDistribution", True, Lambda=lognum(1e-2, 50),
                 delta=num(-3, 3), r_max=r),
        sfr=_spat("SFRDistribution", True, r0=lognum(1e-2, 50), a=num(0.01, 2),
                  rise=num(0, 8), decay=num(0, 8), peak=num(0.3, 5), r_max=r),
        uc=_spat("UniformCosmoDistribution", True, r0=lognum(1e-2, 50),
                 zmin=num(0, 0.5), zmax=num(1, 4), r_max=r),
        fl=_spat("FlatlandDistribution", Lambda=lognum(0.1, 20), r_max=r),
        sp=_spat("SpiralGalaxyDistribution", rho=lognum(1e-2, 10), a=num(0.5, 3),
                 b=num(1, 6), R1=num(0.2, 1), R0=num(5, 9), r_max=num(6, 16)),
        pv=_spat("PvBumpSphere", K=lognum(0.1, 20), centre=num(0.5, 3),
                 width=num(0.3, 2), r_max=num(1, 6)),
    )
    kinds = kinds or ["cs", "zs", "zc", "sfr", "uc", "fl", "pv", "sp"]
    return st.one_of([all_[k] for k in kinds])


def build_spatial(s):
    c = cls_of(s["cls"])
    kw = {}
    if s.get("name"):
        kw["name"] = s["name"]
    if s.get("rate") is not None:
        kw["is_rate"] = s["rate"]
    o = c(**kw)
    for k, v in s["params"].items():
        setattr(o, k, v)
    return o


# --------------------------------------------------------------- luminosity

def _lum(cls, **params):
    return fixed(cls=st.just(cls), params=fixed(**params))


@st.composite
def _bpl(draw):
    lmin = draw(lognum(0.1, 100))
    lb = sig(lmin * draw(lognum(1.5, 50)))
    lmax = sig(lb * draw(lognum(2, 100)))
    return dict(cls="BPLDistribution", params=dict(
        Lmin=lmin, alpha=draw(num(-3, 2)), Lbreak=lb, beta=draw(num(-4, 0.5)), Lmax=lmax))


@st.composite
def _loguni(draw):
    lmin = draw(lognum(0.1, 100))
    return dict(cls="LogUniLuminiosityDistribution", params=dict(
        Lmin=lmin, Lmax=sig(lmin * draw(lognum(1.5, 1000)))))


def luminosities(kinds=None):
    all_ = dict(
        pareto=_lum("ParetoDistribution", Lmin=lognum(0.1, 1e3), alpha=num(0.6, 4)),
        schechter=_lum("SchechterDistribution", Lmin=lognum(0.1, 1e3), alpha=num(-0.8, 3)),
        bpl=_bpl(),
        logn=_lum("LogNormalDistribution", mu=num(-2, 4), tau=num(0.1, 2)),
        log10n=_lum("Log10NormalDistribution", mu=num(-1, 3), tau=num(0.05, 1)),
        loguni=_loguni(),
        delta=_lum("DeltaDistribution", Lp=lognum(0.1, 1e3)),
    )
    return st.one_of([all_[k] for k in (kinds or list(all_))])


def build_lum(s):
    o = cls_of(s["cls"])()
    for k, v in s["params"].items():
        setattr(o, k, v)
    return o


# ---------------------------------------------------------------- selection
# A bound is given as {"q": fraction} (placed at that quantile of the values
# of an unselected survey), {"tie": k} (exactly at the value of object k) or
# {"v": number}.

def place(ties=True):
    opts = [num(0.02, 0.98).map(lambda q: {"q": q})]
    if ties:
        opts.append(st.integers(0, 60).map(lambda k: {"tie": k}))
    return st.one_of(opts)


USES = dict(flux="use_flux", obs="use_obs_value", dist="use_distance", lum="use_luminosity")


def bound_sel(use, ties=True):
    u = {USES[use]: True}
    return st.one_of(
        fixed(cls=st.just("LowerBound"), kw=st.just(u), params=fixed(boundary=place(ties))),
        fixed(cls=st.just("UpperBound"), kw=st.just(u), params=fixed(boundary=place(ties))),
        fixed(cls=st.just("BoxSelection"), kw=st.just(u),
              params=fixed(vmin=place(ties), vmax=place(ties))),
    )


def bern(ps=None):
    p = st.sampled_from(ps) if ps else num(0, 1)
    return fixed(cls=st.just("BernoulliSelection"), kw=st.just({}),
                 params=fixed(probability=p.map(lambda x: {"v": x})))


def soft(use, strengths=None):
    s = st.sampled_from(strengths) if strengths else lognum(0.5, 50)
    return fixed(cls=st.just("SoftSelection"), kw=st.just({USES[use]: True}),
                 params=fixed(boundary=place(False), strength=s.map(lambda x: {"v": x})))


def flux_sels(stochastic=True):
    o = [
        fixed(cls=st.just("HardFluxSelection"), kw=st.just({}), params=fixed(boundary=place())),
        fixed(cls=st.just("HardFluxSelection"), kw=st.just({}), params=fixed(boundary=place())),
        bound_sel("flux"),
    ]
    if stochastic:
        o += [
            fixed(cls=st.just("SoftFluxSelection"), kw=st.just({}),
                  params=fixed(boundary=place(False), strength=lognum(0.5, 50).map(lambda x: {"v": x}))),
            bern(),
        ]
    return st.one_of(o)


def dist_sels(stochastic=True):
    o = [bound_sel("dist"), bern([0.0, 1.0])]
    if stochastic:
        o += [bern(), soft("dist")]
    return st.one_of(o)


def spat_sels():
    return st.one_of(
        fixed(cls=st.just("GalacticPlaneSelection"), kw=st.just({}),
              params=fixed(b_limit=num(0, 80).map(lambda x: {"v": x}))),
        fixed(cls=st.just("DistanceSelection"), kw=st.just({}),
              params=fixed(min_distance=place(), max_distance=place())),
    )


def _placed(p, values):
    if "v" in p:
        return p["v"]
    v = np.asarray(values, dtype=float)
    v = v[np.isfinite(v)]
    if len(v) == 0:
        return 1.0
    if "tie" in p:
        return float(v[p["tie"] % len(v)])
    s = np.sort(v)
    k = p["q"] * len(s)
    i = int(min(len(s) - 1, max(0, np.floor(k))))
    j = min(len(s) - 1, i + 1)
    # between two values
    return sig(0.5 * (s[i] + s[j]), 12)


def resolve_sel(sel, values):
    """Numeric parameters for a selection."""
    out = copy.deepcopy(sel)
    p = {k: _placed(v, values) if isinstance(v, dict) else v
         for k, v in sel["params"].items()}
    for lo, hi in (("vmin", "vmax"), ("min_distance", "max_distance")):
        if lo in p and p[lo] > p[hi]:
            p[lo], p[hi] = p[hi], p[lo]
    if sel["cls"] in ("SoftSelection", "SoftFluxSelection"):
        p["boundary"] = max(abs(p["boundary"]), 1e-300)
    out["params"] = p
    return out


def build_sel(sel):
    c = cls_of(sel["cls"]) if sel["cls"] != "DistanceSelection" else ss_.DistanceSelection
    o = c(**sel.get("kw", {}))
    for k, v in sel["params"].items():
        setattr(o, k, v)
    return o


def eval_sel(sel, flux=None, obs=None, dist=None, lum=None, b=None):
    """The documented deterministic rule; None for stochastic selections."""
    p = sel["params"]
    kw = sel.get("kw", {})
    c = sel["cls"]
    if c == "UnitySelection":
        return True
    if c == "GalacticPlaneSelection":
        return np.abs(b) >= p["b_limit"]
    if c == "DistanceSelection":
        return (dist >= p["min_distance"]) & (dist <= p["max_distance"])
    if c == "BernoulliSelection":
        if p["probability"] == 0:
            return False
        if p["probability"] == 1:
            return True
        return None
    if c.startswith("Soft"):
        return None
    if c == "HardFluxSelection":
        kw = {"use_flux": True}
    v = {"use_flux": flux, "use_obs_value": obs, "use_distance": dist,
         "use_luminosity": lum}[[k for k in kw if kw[k]][0]]
    v = np.asarray(v)
    if c in ("LowerBound", "HardFluxSelection"):
        return v >= p["boundary"]
    if c == "UpperBound":
        return v <= p["boundary"]
    if c == "BoxSelection":
        return (v >= p["vmin"]) & (v <= p["vmax"])
    raise KeyError(c)


# ---------------------------------------------------------------- auxiliary

def _aux(cls, **params):
    return fixed(cls=st.just(cls), params=fixed(**params))


@st.composite
def _bounded(draw, cls, kind):
    if kind == "norm":
        mu, tau = draw(num(-3, 3)), draw(num(0.1, 2))
        a = sig(mu + tau * draw(num(-2, 0.5)))
        b = sig(a + tau * draw(num(0.5, 3)))
        if b <= a:
            b = a + 1.0
    else:
        base = 10.0 if kind == "l10" else np.e
        mu, tau = draw(num(-1, 1)), draw(num(0.1, 1))
        a = sig(base ** (mu + tau * draw(num(-2, 0.5))))
        b = sig(a * base ** (tau * draw(num(0.5, 3))))
        if draw(st.integers(0, 5)) == 0:
            a = 0.0
    return dict(cls=cls, params=dict(mu=mu, tau=tau, lower=a, upper=b, sigma=draw(num(0, 1))))


@st.composite
def _bplaux(draw):
    x0 = draw(lognum(0.1, 10))
    x1 = sig(x0 * draw(lognum(1.5, 20)))
    x2 = sig(x1 * draw(lognum(1.5, 20)))
    return dict(cls="BrokenPowerLawAuxSampler", params=dict(
        xmin=x0, alpha=draw(num(-3, 2)), xbreak=x1, beta=draw(num(-4, 2)), xmax=x2,
        sigma=draw(num(0, 1))))


@st.composite
def _plaux(draw):
    x0 = draw(lognum(0.1, 10))
    return dict(cls="PowerLawAuxSampler", params=dict(
        xmin=x0, xmax=sig(x0 * draw(lognum(1.5, 100))),
        alpha=draw(st.one_of(num(-3, 2), st.sampled_from([-1.0, 0.0, -2.0, -3.0]))),
        sigma=draw(num(0, 1))))


def aux_laws():
    return st.one_of(
        _aux("DeltaAuxSampler", xp=num(-5, 5), sigma=num(0, 2)),
        _aux("NormalAuxSampler", mu=num(-5, 5), tau=num(0, 3), sigma=num(0, 2)),
        _aux("LogNormalAuxSampler", mu=num(-1, 1), tau=num(0, 1), sigma=num(0, 1)),
        _aux("Log10NormalAuxSampler", mu=num(-1, 1), tau=num(0, 0.7), sigma=num(0, 1)),
        _bounded("TruncatedNormalAuxSampler", "norm"),
        _bounded("TruncatedLogNormalAuxSampler", "ln"),
        _bounded("TruncatedLog10NormalAuxSampler", "l10"),
        _aux("ParetoAuxSampler", xmin=lognum(0.1, 10), alpha=num(0.7, 4), sigma=num(0, 1)),
        _plaux(),
        _bplaux(),
        _aux("ViewingAngleSampler", max_angle=num(1, 180)),
    )


NO_NAME = ("ViewingAngleSampler", "RASampler", "DecSampler")


def deps(luminosity=True):
    names = ["PvDep", "PvDepD", "PvDepS"] + (["PvDepL", "PvDepDL"] if luminosity else [])
    return st.sampled_from(names).flatmap(
        lambda c: _aux(c, scale=num(-2, 2), coef=num(0.1, 2)))


def aux_sels(stochastic=True, dist=False, lum=False):
    o = [bound_sel("obs"), bound_sel("obs"), bern([0.0, 1.0])]
    if stochastic:
        o += [bern()]
    if dist:
        o.append(bound_sel("dist"))
    if lum:
        o.append(bound_sel("lum"))
    return st.one_of(o)


@st.composite
def aux_tree(draw, depth=0, luminosity=True, sels=True, stochastic=True, maxdepth=3,
             prims=True, allow_refs=True, sel_other=True, leaf_only=False):
    """One node, names are assigned afterwards."""
    want_dep = not leaf_only and (depth < maxdepth) and draw(st.integers(0, 2)) > 0
    if want_dep:
        node = dict(draw(deps(luminosity)))
        n = draw(st.integers(0 if depth else 1, 2))
        node["sec"] = [
            draw(aux_tree(depth=depth + 1, luminosity=luminosity, sels=sels,
                          stochastic=stochastic, maxdepth=maxdepth,
                          sel_other=sel_other))
            for _ in range(n)
        ]
        if allow_refs and draw(st.integers(0, 3)) == 0:
            node["sec"].append({"ref": draw(st.integers(0, 8))})
    else:
        node = dict(draw(aux_laws()))
        node["sec"] = []
    node["observed"] = draw(st.booleans())
    node["sel"] = None
    if sels and draw(st.integers(0, 2)) == 0:
        uses_d = sel_other and node["cls"] in ("PvDepD", "PvDepDL", "PvDepS")
        uses_l = sel_other and luminosity and (node["cls"] in ("PvDepL", "PvDepDL") or depth == 0)
        node["sel"] = draw(aux_sels(stochastic, dist=uses_d, lum=uses_l))
    return node


def name_forest(forest, derived=None):
    """Assign unique names, resolve references to earlier secondaries."""
    counter = [0]
    pool = []

    def walk(node, secondary):
        mine = []
        out = dict(node)
        secs = []
        used = set()
        for s in node["sec"]:
            if "ref" in s:
                cands = [p for p in pool if p["name"] not in used]
                if not cands:
                    continue
                t = cands[s["ref"] % len(cands)]
                used.add(t["name"])
                secs.append({"refname": t["name"]})
            else:
                w = walk(s, True)
                used.add(w["name"])
                secs.append(w)
        out["sec"] = secs
        out["name"] = "q%d" % counter[0]
        counter[0] += 1
        if secondary:
            pool.append(out)
        return out

    dn = None
    if derived is not None:
        dn = walk(derived, False)
        dn["name"] = "pvlum"
    return [walk(n, False) for n in forest], dn


@st.composite
def derived_nodes(draw, sels=True, stochastic=True):
    node = dict(cls=draw(st.sampled_from(["PvDerived", "PvDerivedD"])),
                params=dict(mu=draw(num(0, 3)), tau=draw(num(0.1, 1))),
                observed=False, sel=None)
    n = draw(st.integers(0, 2))
    node["sec"] = [
        draw(aux_tree(depth=1, luminosity=False, sels=sels, stochastic=stochastic,
                      maxdepth=3, allow_refs=False)) for _ in range(n)
    ]
    if sels and draw(st.integers(0, 2)) == 0:
        node["sel"] = draw(aux_sels(stochastic))
    return node


def build_node(node, reg):
    if "refname" in node:
        return reg[node["refname"]]
    c = cls_of(node["cls"])
    if node["cls"] in NO_NAME:
        o = c()
        o._name = node["name"]
        o._obs_name = node["name"] + "_obs"
    elif node["cls"] in ("PvDerived", "PvDerivedD"):
        o = c(node["name"])
    else:
        o = c(node["name"], observed=node["observed"], **node.get("init", {}))
    for k, v in node["params"].items():
        setattr(o, k, v)
    if node.get("sel"):
        o.set_selection_probability(build_sel(node["sel"]))
    for s in node["sec"]:
        o.set_secondary_sampler(build_node(s, reg))
    reg[node["name"]] = o
    return o


def walk_nodes(spec, refs=False):
    def w(n, depth, parent):
        if "refname" in n:
            if refs:
                yield n, depth, parent
            return
        yield n, depth, parent
        for s in n["sec"]:
            yield from w(s, depth + 1, n)
    if spec.get("derived"):
        yield from w(spec["derived"], 0, None)
    for n in spec["aux"]:
        yield from w(n, 0, None)


# ------------------------------------------------------------------- survey

@st.composite
def draws(draw, nmax=40, sigma=True, normalize=True):
    if nmax >= 25 and draw(st.integers(0, 29)) == 29:
        # a larger survey now and then
        n = draw(st.integers(300, 3000))
    else:
        n = draw(st.one_of(st.integers(2, nmax), st.integers(max(2, nmax // 2), nmax),
                           st.integers(2, nmax), st.integers(0, nmax)))
    d = dict(n_samples=n)
    if sigma and draw(st.booleans()):
        d["flux_sigma"] = draw(st.one_of(num(0.01, 1.5), st.just(0.0)))
    if sigma and draw(st.booleans()):
        d["log10_flux_draw"] = draw(st.booleans())
    if normalize and draw(st.integers(0, 3)) == 0:
        d["normalize"] = draw(st.booleans())
    return d


@st.composite
def specs(draw, nmax=40, kinds=None, stochastic=True, sels=True, derived=True, naux=3,
          maxdepth=3, model_spaces=False, sigma=True, refs=True, sel_other=True, lums=None, thin=False):
    spec = dict(seed=draw(seeds))
    spec["spatial"] = draw(spatials(kinds))
    dn = None
    if derived and draw(st.integers(0, 3)) == 0:
        dn = draw(derived_nodes(sels=sels, stochastic=stochastic))
        spec["lum"] = None
    else:
        spec["lum"] = draw(luminosities(lums))
    k = draw(st.integers(0, naux))
    forest = [draw(aux_tree(sels=sels, stochastic=stochastic, maxdepth=maxdepth,
                            allow_refs=refs, sel_other=sel_other)) for _ in range(k)]
    # a sampler shared with the derived luminosity is drawn before the
    # luminosities exist, so those never use luminosities
    spec["aux"], spec["derived"] = name_forest(forest, dn)
    spec["flux_sel"] = draw(st.one_of(st.none(), flux_sels(stochastic), flux_sels(stochastic))) if sels else None
    spec["dist_sel"] = draw(st.one_of(st.none(), dist_sels(stochastic))) if sels else None
    spec["spat_sel"] = draw(st.one_of(st.none(), spat_sels())) if sels else None
    if spec["spatial"]["cls"] == "SpiralGalaxyDistribution" and spec["spat_sel"] and \
            spec["spat_sel"]["cls"] == "GalacticPlaneSelection" and False:
        spec["spat_sel"] = None
    if thin:
        # few selections, so that most surveys have detections
        keep = draw(st.sampled_from([1, 1, 2, 9]))
        holders = [(spec, "flux_sel"), (spec, "spat_sel")] + [(n, "sel") for n, _, _ in walk_nodes(spec)]
        on = [h for h in holders if h[0].get(h[1])]
        if len(on) > keep:
            stay = draw(st.permutations(range(len(on))))[:keep]
            for i, (o, k) in enumerate(on):
                if i not in stay:
                    o[k] = None
    spec["draw"] = draw(draws(nmax, sigma=sigma))
    if model_spaces:
        spec["model_spaces"] = draw(st.lists(fixed(
            start=lognum(0.01, 1), stop=lognum(2, 50), log=st.booleans()), max_size=2))
    return spec


class Built:
    pass


def strip(spec):
    s = copy.deepcopy(spec)
    s["flux_sel"] = s["dist_sel"] = s["spat_sel"] = None
    for n, _, _ in walk_nodes(s):
        n["sel"] = None
    return s


def needs_placing(spec):
    sels = [spec.get("flux_sel"), spec.get("dist_sel"), spec.get("spat_sel")]
    sels += [n.get("sel") for n, _, _ in walk_nodes(spec)]
    for s in sels:
        if s and any(isinstance(p, dict) and "v" not in p for p in s["params"].values()):
            return True
    return False


def resolve(spec):
    """Replace quantiles by numbers, from an unselected survey."""
    spec = copy.deepcopy(spec)
    if needs_placing(spec):
        b = build(strip(spec))
        d = dict(spec["draw"])
        d.pop("flux_sigma", None)
        pop = b.synth.draw_survey(**d)
        flux = np.asarray(pop.fluxes.latent)
        dist = np.asarray(pop.distances)
        lum = np.asarray(pop.luminosities)
        aux = {n["name"]: np.asarray(getattr(pop, n["name"])) for n, _, _ in walk_nodes(spec)}
    else:
        flux = dist = lum = np.array([])
        aux = {}

    def vals(sel, obs=None):
        kw = sel.get("kw", {})
        if sel["cls"] in ("HardFluxSelection", "SoftFluxSelection") or kw.get("use_flux"):
            return flux
        if sel["cls"] == "DistanceSelection" or kw.get("use_distance"):
            return dist
        if kw.get("use_luminosity"):
            return lum
        return obs if obs is not None else []

    for k in ("flux_sel", "dist_sel", "spat_sel"):
        if spec.get(k):
            spec[k] = resolve_sel(spec[k], vals(spec[k]))
    for n, _, _ in walk_nodes(spec):
        if n.get("sel"):
            n["sel"] = resolve_sel(n["sel"], vals(n["sel"], aux.get(n["name"])))
    return spec


def build(spec, synth=None):
    """Build the synthesizer of a resolved (or selection free) spec.

    Given a synthesizer, everything but the distributions is attached to it.
    """
    b = Built()
    b.spec = spec
    if synth is None:
        b.spatial = build_spatial(spec["spatial"])
        b.lum = build_lum(spec["lum"]) if spec.get("lum") else None
        b.synth = popsynth.PopulationSynth(b.spatial, luminosity_distribution=b.lum, seed=spec["seed"])
    else:
        b.synth, b.spatial, b.lum = synth, synth.spatial_distribution, synth.luminosity_distribution
    b.reg = {}
    b.derived = None
    if spec.get("derived"):
        b.derived = build_node(spec["derived"], b.reg)
        b.synth.add_auxiliary_sampler(b.derived)
    for n in spec["aux"]:
        b.synth.add_auxiliary_sampler(build_node(n, b.reg))
    b.flux_sel = b.dist_sel = b.spat_sel = None
    if spec.get("flux_sel"):
        b.flux_sel = build_sel(spec["flux_sel"])
        b.synth.set_flux_selection(b.flux_sel)
    if spec.get("dist_sel"):
        b.dist_sel = build_sel(spec["dist_sel"])
        b.synth.set_distance_selection(b.dist_sel)
    if spec.get("spat_sel"):
        b.spat_sel = build_sel(spec["spat_sel"])
        b.synth.add_spatial_selector(b.spat_sel)
    for i, m in enumerate(spec.get("model_spaces") or []):
        b.synth.add_model_space("grid%d" % i, m["start"], m["stop"], log=m["log"])
    return b


def galactic_latitude(ra_deg, dec_deg):
    """ICRS to galactic latitude from the IAU pole (J2000)."""
    ra = np.deg2rad(np.asarray(ra_deg, dtype=float))
    dec = np.deg2rad(np.asarray(dec_deg, dtype=float))
    # north galactic pole, ICRS
    a, d = np.deg2rad(192.85948), np.deg2rad(27.12825)
    s = np.sin(d) * np.sin(dec) + np.cos(d) * np.cos(dec) * np.cos(ra - a)
    return np.rad2deg(np.arcsin(np.clip(s, -1, 1)))


def arrays(pop):
    """Every per-object array of a population, as plain arrays."""
    out = dict(
        luminosities=np.array(pop.luminosities), luminosities_latent=np.array(pop.luminosities.latent),
        distances=np.array(pop.distances), theta=np.array(pop.theta), phi=np.array(pop.phi),
        fluxes=np.array(pop.fluxes), fluxes_latent=np.array(pop.fluxes.latent),
        selection=np.array(pop.selection), known_distances=np.array(pop.known_distances),
        known_distance_idx=np.array(peek.known_idx(pop)),
        unknown_distance_idx=np.array(peek.unknown_idx(pop)),
    )
    if pop.probability is not None:
        out["probability"] = np.array(pop.probability)
    for k in sorted(peek.aux(pop)):
        v = getattr(pop, k)
        out["aux_obs_" + k] = np.array(v)
        out["aux_true_" + k] = np.array(v.latent)
    return out


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "fc" or b.dtype.kind in "fc":
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.array_equal(a, b))


def diff_arrays(x, y):
    """Names of arrays that differ between two array dicts."""
    return sorted([k for k in set(x) | set(y) if k not in x or k not in y or not same(x[k], y[k])])
