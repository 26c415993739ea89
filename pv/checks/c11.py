import copy
import os

import h5py
import numpy as np
from hypothesis import strategies as st

import popsynth
from .. import gen, peek, rec
from ..core import Sub, check, fail

ASSUMPTIONS = [
    "names of quantities and groups hold no slash (group names may be nested paths)",
    "in the stored configuration a list of names and a mapping with these names as empty entries are the same",
]

NAMES = ["pop a", "b", "grp/one", "grp/two", "deep/er/x", "ünï", "9"]


@st.composite
def cases(draw):
    specs = [draw(gen.specs(nmax=12, model_spaces=True, sel_other=False, thin=True)) for _ in range(draw(st.integers(1, 2)))]
    for s in specs:
        if draw(st.integers(0, 3)) == 0:
            s["spatial"]["name"] = draw(st.sampled_from(["my space", "σ", "A_b.c", "pop"]))
        s["count_free"] = draw(st.integers(0, 9)) == 0
        s["int_params"] = draw(st.booleans())
    f = st.integers(0, 1)
    i = st.integers(0, 30)
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just("write"), f, i),
        st.tuples(st.just("write"), f, i),
        st.tuples(st.just("add"), f, i, st.sampled_from(NAMES)),
        st.tuples(st.just("add"), f, i, st.sampled_from(NAMES)),
        st.tuples(st.just("add"), f, i, st.sampled_from(NAMES)),
        st.tuples(st.just("read"), f, i),
        st.tuples(st.just("read"), f, i),
        st.tuples(st.just("read"), f, i),
        st.tuples(st.just("sub"), i, st.booleans()),
        st.tuples(st.just("use"), i),
    ), min_size=2, max_size=14))
    trips = draw(st.integers(0, 3))
    return dict(specs=specs, ops=[list(o) for o in ops], trips=trips)


def draw_pop(spec):
    s = gen.resolve(spec)
    if spec.get("int_params"):
        # whole numbers are parameters, too
        for part in (s["spatial"], s["lum"]):
            if part and part["cls"] not in ("BPLDistribution", "SpiralGalaxyDistribution", "LogUniLuminiosityDistribution"):
                for k, v in part["params"].items():
                    if abs(v) >= 1 and k not in ("zmin", "zmax", "alpha", "delta"):
                        part["params"][k] = int(round(v))
    b = gen.build(s)
    d = dict(s["draw"])
    if spec.get("count_free"):
        d["n_samples"] = None
        if s["spatial"]["cls"] != "PvBumpSphere":
            d["normalize"] = True
    pop = b.synth.draw_survey(**d)
    return pop


def run(case):
    files = [os.path.abspath("c11-%d.h5" % k) for k in range(2)]
    for f in files:
        if os.path.exists(f):
            os.remove(f)
    pops = []   # (population, its record)
    for spec in case["specs"]:
        p = draw_pop(spec)
        if p.n_objects > 2000:
            return dict(large=True)
        pops.append((p, rec.full(p), rec.stan(p)))
    where = [{}, {}]   # group (or None) -> index of the population
    lab = dict(reads=0, groups=0, subs=0, refused=0)

    def same(p, r, s, what):
        got = rec.full(p)
        d = rec.diff(r, got)
        check(not d, "%s: %s", what, rec.show(r, got, d))
        g = rec.stan(p)
        d = rec.diff(s, g)
        check(not d, "%s: the exported data differ: %s", what, rec.show(s, g, d))

    def read(f, g):
        if g is None:
            return popsynth.Population.from_file(files[f])
        return popsynth.Population.from_group(files[f], g)

    for op in case["ops"]:
        if op[0] == "write":
            i = op[2] % len(pops)
            pops[i][0].writeto(files[op[1]])
            where[op[1]] = {None: i}
        elif op[0] == "add":
            f, i, g = op[1], op[2] % len(pops), op[3]
            if not os.path.exists(files[f]):
                with h5py.File(files[f], "w"):
                    pass
            if g in where[f]:
                try:
                    pops[i][0].addto(files[f], g)
                except (ValueError, OSError, RuntimeError):
                    lab["refused"] += 1
                else:
                    fail("a second population went into group %r", g)
            else:
                pops[i][0].addto(files[f], g)
                where[f][g] = i
                lab["groups"] += 1
        elif op[0] == "read":
            f = op[1]
            keys = sorted(where[f], key=str)
            if keys:
                g = keys[op[2] % len(keys)]
                i = where[f][g]
                p = read(f, g)
                same(p, pops[i][1], pops[i][2], "read from %s" % ("a group" if g else "the file"))
                lab["reads"] += 1
                if len(pops) < 12:
                    pops.append((p, pops[i][1], pops[i][2]))
        elif op[0] == "sub":
            i = op[1] % len(pops)
            q = pops[i][0].to_sub_population(observed=op[2])
            if len(pops) < 12:
                pops.append((q, rec.full(q), rec.stan(q)))
            lab["subs"] += 1
        elif op[0] == "use":
            p = pops[op[1] % len(pops)][0]
            repr(p)
            p.to_stan_data()
            p.to_sub_population()
    # everything that is stored reads back, nothing has been altered
    for f in range(2):
        for g, i in where[f].items():
            same(read(f, g), pops[i][1], pops[i][2], "finally read from %s" % ("a group" if g else "the file"))
            lab["reads"] += 1
    for k, (p, r, s) in enumerate(pops):
        same(p, r, s, "population %d was altered" % k)
    # no drift
    p, r, s = pops[0]
    for t in range(case["trips"]):
        p.writeto(files[0])
        p = popsynth.Population.from_file(files[0])
        same(p, r, s, "round trip %d" % (t + 1))
    for f in files:
        if os.path.exists(f):
            os.remove(f)
    lab["trips"] = case["trips"]
    p0 = pops[0][0]
    lab["derived"] = p0.luminosity_parameters is None
    lab["empty"] = p0.n_objects == 0
    lab["dark"] = p0.n_objects > 0 and p0.n_detections == 0
    lab["probability"] = p0.probability is not None
    lab["grids"] = len(peek.model_spaces(p0))
    lab["nested"] = any(len(n["sec"]) for sp in case["specs"] for n, _, _ in gen.walk_nodes(sp))
    lab["nontrivial"] = p0.n_objects > 0 and lab["reads"] + case["trips"] > 0
    return lab


SUBCHECKS = [
    Sub("files", cases(), run, quick=500, thorough=12000,
        rule="a population with objects, read back at least once"),
]
