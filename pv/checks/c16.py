import os

import numpy as np
from hypothesis import strategies as st

import matplotlib.pyplot as plt
import popsynth
from .. import gen, peek, rec
from ..core import Sub, check, fail

ASSUMPTIONS = [
    "flux error is the one recorded in the population: the requested one, or -1 where observed fluxes are latent ones",
    "z_obs and r_obs are the distances of all detected objects, as documented",
]


@st.composite
def cases(draw):
    spec = draw(gen.specs(nmax=25, thin=True, model_spaces=True))
    if draw(st.booleans()):
        # mostly some distances known
        spec["dist_sel"] = draw(gen.dist_sels(True))
    spec["chain"] = draw(st.lists(st.sampled_from(
        ["reload", "reload", "group", "detected", "hidden", "plot", "repr", "stan", "spoil"]), max_size=5))
    return spec


def expected(pop, spec, b):
    """From the raw arrays of the population and what was asked for."""
    a = gen.arrays(pop)
    m = np.array(a["selection"], dtype=bool)
    d = a["distances"][m]
    ki, ui = np.array(a["known_distance_idx"], dtype=int), np.array(a["unknown_distance_idx"], dtype=int)
    out = dict(N=int(m.sum()), Nz=len(ki), Nnz=len(ui), flux_obs=a["fluxes"][m], log_flux_obs=np.log10(a["fluxes"][m]))
    for z in ("z", "r"):
        out[z + "_obs"] = d
        out["known_%s_obs" % z] = d[ki]
        out[z + "_idx"] = ki + 1
        out[z + "_nidx"] = ui + 1
        out[z + "_max"] = float(b.spatial.r_max)
    unity = spec.get("flux_sel") is None
    s = spec["draw"].get("flux_sigma")
    out["flux_sigma"] = -1 if unity or s is None else s
    for i, g in enumerate(spec.get("model_spaces") or []):
        f = (lambda x, y: np.logspace(np.log10(x), np.log10(y), 500)) if g["log"] else (lambda x, y: np.linspace(x, y, 500))
        out["grid%d" % i] = f(g["start"], g["stop"])
    out["N_model"] = 500
    for n, _, _ in gen.walk_nodes(spec):
        out[n["name"] + "_obs"] = a["aux_obs_" + n["name"]][m]
    return out


def judge(pop, spec, b, what):
    before = rec.full(pop)
    got = pop.to_stan_data()
    dd = rec.diff(before, rec.full(pop))
    check(not dd, "%s: exporting changed %s of the population", what, dd)
    want = expected(pop, spec, b)
    check(set(got) == set(want), "%s: exports %s", what, sorted(set(got) ^ set(want)))
    n = pop.n_detections
    hidden = len(np.array(pop.selection)) - n
    for k, v in want.items():
        g = got[k]
        if np.ndim(v):
            check(np.ndim(g) == 1 and len(g) == len(v), "%s: %s has %s entries, not %d", what, k, np.shape(g), len(v))
            ok = gen.same(np.array(g), np.array(v)) if not (k.startswith("grid") or k.startswith("log")) else \
                np.allclose(np.array(g), v, rtol=1e-13, atol=0, equal_nan=True)
            check(ok, "%s: %s is %s, should be %s", what, k, np.array(g)[:6], np.array(v)[:6])
            if np.array(v).dtype.kind in "iu":
                check(np.array(g).dtype.kind in "iu", "%s: %s are not whole numbers", what, k)
        else:
            check(np.ndim(g) == 0 and g == v, "%s: %s is %s, should be %s", what, k, g, v)
            if k.startswith("N"):
                check(isinstance(g, (int, np.integer)), "%s: count %s is a %s", what, k, type(g))
    # the counts describe the arrays
    for k, c in dict(z_obs="N", r_obs="N", flux_obs="N", log_flux_obs="N", known_z_obs="Nz", known_r_obs="Nz", z_idx="Nz",
                     r_idx="Nz", z_nidx="Nnz", r_nidx="Nnz").items():
        check(len(got[k]) == got[c], "%s: %d %s but %s=%s", what, len(got[k]), k, c, got[c])
    check(got["Nz"] + got["Nnz"] == got["N"], "%s: %s+%s objects of %s", what, got["Nz"], got["Nnz"], got["N"])
    both = sorted(list(np.array(got["z_idx"])) + list(np.array(got["z_nidx"])))
    check(both == list(range(1, n + 1)), "%s: positions %s of %d objects", what, both, n)
    # nothing of the hidden ones
    for k, v in got.items():
        ns = getattr(v, "non_selected", None)
        check(ns is None or len(ns) == 0, "%s: %s carries %s hidden objects", what, k, None if ns is None else len(ns))
    again = pop.to_stan_data()
    dd = rec.diff({k: np.array(v) for k, v in got.items()}, {k: np.array(v) for k, v in again.items()})
    check(not dd, "%s: a second export differs in %s", what, dd)
    return {k: np.array(v) for k, v in got.items()}


def run(case):
    spec = gen.resolve(case)
    b = gen.build(spec)
    pop = b.synth.draw_survey(**spec["draw"])
    first = judge(pop, spec, b, "the survey")
    lab = dict(hidden=pop.n_non_detections > 0, dark=pop.n_detections == 0, empty=pop.n_objects == 0,
               known=len(pop.known_distances) > 0, unknown=len(peek.unknown_idx(pop)) > 0,
               mixed=len(pop.known_distances) > 0 and len(peek.unknown_idx(pop)) > 0,
               aux=len(peek.aux(pop)) > 0, grids=len(spec.get("model_spaces") or []) > 0)
    lab["nontrivial"] = pop.n_detections > 0 and pop.n_non_detections > 0
    f = os.path.abspath("c16.h5")
    now = first
    for j, op in enumerate(case["chain"]):
        what = "after %s" % case["chain"][:j + 1]
        same = True
        if op == "reload":
            pop.writeto(f)
            pop = popsynth.Population.from_file(f)
            lab["reloaded"] = True
        elif op == "group":
            import h5py
            with h5py.File(f, "w"):
                pass
            pop.addto(f, "g")
            pop = popsynth.Population.from_group(f, "g")
            lab["reloaded"] = True
        elif op == "detected":
            # the export knows the detected objects only
            pop = pop.to_sub_population()
        elif op == "hidden":
            pop = pop.to_sub_population(observed=False)
            same = False
        elif op == "plot":
            pop.display_fluxes()
            plt.close("all")
        elif op == "repr":
            repr(pop), pop.fluxes.selected.latent, pop.distances.non_selected, pop.ra, pop.dec
        elif op == "stan":
            pop.to_stan_data()
        elif op == "spoil":
            # a user edits what was exported: a computation of its own
            out = pop.to_stan_data()
            out["N"] = -1
            out.pop("z_obs")
            out["extra"] = 1
        t = judge(pop, spec, b, what)
        if same:
            dd = rec.diff(now, t)
            check(not dd, "%s the export differs in %s", what, dd)
        now = t
    if os.path.exists(f):
        os.remove(f)
    return lab


SUBCHECKS = [
    Sub("export", cases(), run, quick=900, thorough=20000, rule="a population with detected and hidden objects"),
]
