import os

import numpy as np
from hypothesis import strategies as st

import popsynth
from .. import gen, peek, rec
from ..core import Sub, check, fail

ASSUMPTIONS = [
    "no hidden object has a known distance (distance selections apply to detected objects)",
]

PER_OBJECT = ("luminosities", "luminosities_latent", "distances", "theta", "phi", "fluxes", "fluxes_latent")
CARRIED = ("truth", "config", "spatial", "lf", "sigma", "forms", "name", "seed", "r_max", "n_model", "nodes", "edges",
           "directed", "grids", "has probability", "aux names")


@st.composite
def cases(draw):
    spec = draw(gen.specs(nmax=25, thin=True, model_spaces=True))
    spec["chain"] = draw(st.lists(st.sampled_from([True, True, False, "reload", "reload", "stan"]), max_size=4))
    spec["fluxes_equal"] = False
    return spec


def judge(pop, sub, mask, observed, what):
    """sub must be the objects of pop where the mask is true."""
    a, s = gen.arrays(pop), gen.arrays(sub)
    n = int(mask.sum())
    check(set(a) == set(s), "%s: has %s", what, sorted(set(a) ^ set(s)))
    for k in sorted(a):
        if k in PER_OBJECT or k.startswith("aux_") or k == "probability":
            check(gen.same(s[k], a[k][mask]), "%s: %s is %s, in the parent %s", what, k, s[k][:5], a[k][mask][:5])
    check(s["selection"].dtype == bool and s["selection"].shape == (n,) and s["selection"].all(),
          "%s: not all of its %d objects are detected: %s", what, n, s["selection"])
    check(sub.n_objects == n and sub.n_detections == n and sub.n_non_detections == 0, "%s: counts %s %s %s", what,
          sub.n_objects, sub.n_detections, sub.n_non_detections)
    check(bool(sub.has_detections) == (n > 0), "%s: has_detections is %s", what, sub.has_detections)
    for k in ("luminosities", "distances", "fluxes", "theta", "phi"):
        v = getattr(sub, k)
        check(gen.same(np.array(v.selected), a[k][mask]), "%s: the selected %s are others", what, k)
        check(len(v.non_selected) == 0, "%s: has hidden %s", what, k)
        lat = np.array(getattr(pop, k).latent)[mask]
        check(gen.same(np.array(v.latent), lat), "%s: the latent %s are others", what, k)
        check(gen.same(np.array(v.selected.latent), lat), "%s: the latent selected %s are others", what, k)
    for k, v in peek.aux(pop).items():
        for f in ("true_values", "obs_values"):
            check(gen.same(peek.aux(sub)[k][f], np.array(v[f])[mask]), "%s: stored %s of %s are others", what, f, k)
    # known distances
    if observed:
        for k in ("known_distances", "known_distance_idx", "unknown_distance_idx"):
            check(gen.same(s[k], a[k]), "%s: %s is %s, in the parent %s", what, k, s[k], a[k])
    else:
        check(len(s["known_distances"]) == 0 and len(s["known_distance_idx"]) == 0, "%s: a hidden object has a known distance", what)
        check(list(s["unknown_distance_idx"]) == list(range(n)), "%s: unknown distances are of %s", what, s["unknown_distance_idx"])
    check(gen.same(s["known_distances"], s["distances"][np.array(s["known_distance_idx"], dtype=int)]),
          "%s: the known distances are not those of the objects", what)
    p, q = rec.full(pop), rec.full(sub)
    for k in CARRIED:
        check(rec.eq(p[k], q[k]), "%s: %s is %s, in the parent %s", what, k, q[k], p[k])
    for k in p:
        if k.startswith("array grid"):
            check(rec.eq(p[k], q[k]), "%s: %s changed", what, k)


def run(case):
    spec = gen.resolve(case)
    pop = gen.build(spec).synth.draw_survey(**spec["draw"])
    lab = dict(hidden=pop.n_non_detections > 0, dark=pop.n_detections == 0, full=pop.n_non_detections == 0,
               known=len(pop.known_distances) > 0 and len(peek.unknown_idx(pop)) > 0,
               aux=len(peek.aux(pop)) > 0, empty=pop.n_objects == 0)
    lab["nontrivial"] = pop.n_detections > 0 and pop.n_non_detections > 0
    f = os.path.abspath("c13.h5")

    def both(p):
        before, sb = rec.full(p), rec.stan(p)
        m = np.array(p.selection, dtype=bool)
        subs = {}
        for o in (True, False):
            subs[o] = p.to_sub_population(observed=o)
            judge(p, subs[o], m if o else ~m, o, "%s sub-population" % ("detected" if o else "hidden"))
        # the default is the detected one
        d = rec.diff(rec.full(subs[True]), rec.full(p.to_sub_population()))
        check(not d, "the default sub-population is not the detected one: %s", d)
        for o in (True, False):
            q = subs[o]
            mine = rec.full(q)
            # it works like any population
            t = rec.stan(q)
            check(t["N"] == q.n_objects and gen.same(t["flux_obs"], np.array(q.fluxes)), "the export of a sub-population is wrong")
            if o:
                dd = rec.diff(t, sb)
                check(not dd, "exporting the detected sub-population differs from exporting its parent in %s", dd)
            again = q.to_sub_population()
            dd = rec.diff(rec.full(again), mine)
            check(not dd, "the sub-population of a sub-population differs: %s", dd)
            none = q.to_sub_population(observed=False)
            check(none.n_objects == 0, "a sub-population has hidden objects")
            q.writeto(f)
            r = popsynth.Population.from_file(f)
            got = rec.full(r)
            dd = rec.diff(mine, got)
            check(not dd, "saving a sub-population: %s", rec.show(mine, got, dd))
            check(not rec.diff(t, rec.stan(r)), "the export of a reloaded sub-population differs")
            repr(q)
            check(not rec.diff(mine, rec.full(q)), "using a sub-population changed it")
        after = rec.full(p)
        dd = rec.diff(before, after)
        check(not dd, "the parent was changed: %s", rec.show(before, after, dd))
        return subs

    p = pop
    both(p)
    for op in case["chain"]:
        if op == "reload":
            p.writeto(f)
            p = popsynth.Population.from_file(f)
            lab["reloaded"] = True
        elif op == "stan":
            p.to_stan_data()
        else:
            p = p.to_sub_population(observed=op)
            lab["chained"] = True
        both(p)
    if os.path.exists(f):
        os.remove(f)
    return lab


SUBCHECKS = [
    Sub("subsets", cases(), run, quick=450, thorough=10000, rule="a population with detected and hidden objects"),
]
