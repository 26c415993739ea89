import numpy as np
from hypothesis import strategies as st

import popsynth
from .. import custom, gen, peek, ref
from ..core import Sub, check, fail

ASSUMPTIONS = [
    "dependent samplers are user-defined ones (as in the documentation) that record what they were given",
    "a sampler shared with a derived luminosity does not itself use the luminosity",
]

USES_D = ("PvDepD", "PvDepDL", "PvDepS")
USES_L = ("PvDepL", "PvDepDL")


def expected_graph(spec, b):
    nodes, edges = set(), set()
    sp = b.spatial.name
    nodes |= {sp, "obs_flux"}
    edges.add((sp, "obs_flux"))
    edges.add((spec["derived"]["name"] if spec["derived"] else b.lum.name, "obs_flux"))

    def uses_d(n):
        return n["cls"] in USES_D or n["cls"] == "PvDerivedD"

    byname = {n["name"]: n for n, _, _ in gen.walk_nodes(spec)}
    for n, _, _ in gen.walk_nodes(spec):
        nodes.add(n["name"])
        if uses_d(n):
            edges.add((sp, n["name"]))
        if n["observed"] and n["cls"] not in gen.NO_NAME and not n["cls"].startswith("PvDerived"):
            nodes.add(n["name"] + "_obs")
            edges.add((n["name"], n["name"] + "_obs"))
        for s in n["sec"]:
            edges.add((s.get("refname") or s["name"], n["name"]))
    for e in edges:
        nodes |= set(e)
    return nodes, edges


def run_tree(case):
    spec = gen.resolve(case)
    b = gen.build(spec)
    redraw = case.get("redraw", 0)
    for i in range(redraw):
        if (spec["seed"] + i) % 3 == 0:
            b.synth.draw_survey(**spec["draw"])
            continue
        # the same samplers first serve another survey of the same size, with
        # other positions and luminosities
        other = popsynth.PopulationSynth(b.spatial, luminosity_distribution=b.lum, seed=spec["seed"] + 1 + i)
        if b.derived is not None:
            other.add_auxiliary_sampler(b.derived)
        for x in spec["aux"]:
            other.add_auxiliary_sampler(b.reg[x["name"]])
        other.draw_survey(**spec["draw"])
    for o in b.reg.values():
        if hasattr(o, "pv_draws"):
            o.pv_draws, o.pv_seen = 0, None
    pop = b.synth.draw_survey(**spec["draw"])
    n = pop.n_objects
    d, L = np.array(pop.distances), np.array(pop.luminosities)
    lab = {}
    names = [x["name"] for x, _, _ in gen.walk_nodes(spec)]
    have = sorted(peek.aux(pop))
    check(have == sorted(names), "the population holds %s, attached were %s", have, sorted(names))
    val = {}
    for k in names:
        v = getattr(pop, k)
        o = np.array(v)
        t = np.array(v.latent)
        check(o.shape == (n,) and t.shape == (n,), "%s is not one value per object", k)
        val[k] = (t, o)
    deepest = 0
    for node, depth, parent in gen.walk_nodes(spec):
        s = b.reg[node["name"]]
        deepest = max(deepest, depth)
        k = node["name"]
        t, o = val[k]
        check(gen.same(np.asarray(s.true_values), t), "the population's true values of %s are not those drawn", k)
        check(gen.same(np.asarray(s.obs_values), o), "the population's observed values of %s are not those drawn", k)
        # parameters are recorded
        tr = pop.truth.get(k)
        check(tr is not None, "the truth does not mention %s", k)
        for pk, pv in node["params"].items():
            check(pk in tr and float(tr[pk]) == float(pv), "truth of %s is %s, but %s = %r was set", k, tr, pk, pv)
        if not hasattr(s, "pv_draws"):
            continue
        check(s.pv_draws == 1, "%s was drawn %d times in one survey", k, s.pv_draws)
        seen = s.pv_seen
        secs = [x.get("refname") or x["name"] for x in node["sec"]]
        check(list(seen["sec"]) == secs, "%s received %s, depends on %s", k, list(seen["sec"]), secs)
        for q in secs:
            for j, what in ((0, "true"), (1, "observed")):
                check(gen.same(seen["sec"][q][j], val[q][j]),
                      "%s received other %s values of %s than the population records", k, what, q)
        if "distance" in seen:
            check(gen.same(seen["distance"], d), "%s received other distances than recorded", k)
            lab["distance"] = True
        if "lumdist" in seen:
            check(np.allclose(seen["lumdist"], popsynth.cosmology.luminosity_distance(d), rtol=1e-12),
                  "%s has another luminosity distance", k)
        if "luminosity" in seen:
            check(gen.same(seen["luminosity"], L), "%s received other luminosities than recorded", k)
            lab["luminosity_depth_%d" % depth] = True
        for q in ("ra", "dec", "theta", "phi"):
            if q in seen:
                check(np.allclose(seen[q], np.array(getattr(pop, q)), rtol=1e-12, atol=1e-9),
                      "%s received another %s than recorded", k, q)
                lab["sky"] = True
        true = [val[q][0] for q in secs]
        if node["cls"].startswith("PvDerived"):
            want = custom.derived_luminosity(t, true, d if node["cls"] == "PvDerivedD" else None)
            check(np.allclose(L, want, rtol=1e-10), "luminosities are not those of the derived luminosity sampler")
            check(gen.same(o, t), "a derived luminosity has observation noise")
            lab["derived"] = True
        else:
            kw = {}
            if node["cls"] in USES_D:
                kw["distance"] = d
            if node["cls"] in USES_L:
                kw["luminosity"] = L
            if node["cls"] == "PvDepS":
                kw["dec"] = np.array(pop.dec)
            want = np.zeros(n) + custom.combine(node["params"]["scale"], true, node["params"]["coef"], **kw)
            check(np.allclose(t, want, rtol=1e-9, atol=1e-9), "%s is not the function of the recorded values", k)
            check(np.allclose(o, t + (0.25 if node["observed"] else 0.0), rtol=1e-12, atol=1e-12),
                  "observed values of %s are not made from its true values", k)
    # every other recorded truth
    check(pop.truth.get(b.spatial.name) is not None, "the truth does not mention the spatial distribution")
    for k, v in spec["spatial"]["params"].items():
        check(float(pop.truth[b.spatial.name][k]) == float(v), "the truth of the spatial distribution has %s", pop.truth[b.spatial.name])
    want = {b.spatial.name} | set(names)
    if b.lum is not None and not spec["derived"]:
        want.add(b.lum.name)
        for k, v in spec["lum"]["params"].items():
            check(float(pop.truth[b.lum.name][k]) == float(v), "the truth of the luminosity function has %s", pop.truth[b.lum.name])
    check(set(pop.truth) == want, "truth has %s, should have %s", sorted(pop.truth), sorted(want))
    # the graph
    nodes, edges = expected_graph(spec, b)
    for g, w in ((pop.graph, "population"), (b.synth.graph, "synthesizer")):
        check(set(g.nodes) == nodes, "graph of the %s: nodes differ by %s", w, sorted(set(g.nodes) ^ nodes))
        check(set(g.edges) == edges, "graph of the %s: edges differ by %s", w, sorted(set(g.edges) ^ edges))
        check(g.is_directed(), "the graph has no direction")
    lab["shared"] = sum("refname" in x for x, _, _ in gen.walk_nodes(spec, True)) > 0
    lab["depth_%d" % deepest] = True
    lab["redraw"] = redraw
    lab["nontrivial"] = n > 0 and deepest > 0
    return lab


@st.composite
def tree_cases(draw):
    spec = draw(gen.specs(nmax=15, naux=3, maxdepth=4))
    if not spec["aux"] and not spec["derived"]:
        node = draw(gen.aux_tree(maxdepth=4, stochastic=True))
        spec["aux"], _ = gen.name_forest([node])
    spec["redraw"] = draw(st.sampled_from([0, 0, 1, 1, 2]))
    return spec


# ------------------------- deep chains and wide fans of dependencies, shared
@st.composite
def chain_cases(draw):
    """A chain of samplers, every link possibly using distance or luminosity."""
    depth = draw(st.integers(2, 6))
    node = dict(draw(gen.deps()), sec=[], sel=None, observed=draw(st.booleans()))
    for i in range(depth - 1):
        sec = [node]
        for _ in range(draw(st.integers(0, 1))):
            sec.append(dict(draw(st.one_of(gen.deps(), gen.aux_laws())), sec=[], sel=None, observed=draw(st.booleans())))
        if draw(st.booleans()):
            sec.append({"ref": draw(st.integers(0, 8))})
        node = dict(draw(gen.deps()), sec=draw(st.permutations(sec)), sel=None, observed=draw(st.booleans()))
    forest = [node]
    if draw(st.booleans()):
        forest.append(dict(draw(gen.deps()), sec=[{"ref": draw(st.integers(0, 8))}, {"ref": draw(st.integers(0, 8))}],
                           sel=None, observed=draw(st.booleans())))
    spec = dict(seed=draw(gen.seeds), spatial=draw(gen.spatials()), lum=draw(gen.luminosities()),
                flux_sel=None, dist_sel=None, spat_sel=None, draw=draw(gen.draws(10)),
                redraw=draw(st.sampled_from([0, 1, 1])))
    spec["aux"], spec["derived"] = gen.name_forest(forest)
    return spec


SUBCHECKS = [
    Sub("tree", tree_cases(), run_tree, quick=1500, thorough=40000,
        rule="a survey with at least one object and one dependent sampler"),
    Sub("chain", chain_cases(), run_tree, quick=700, thorough=20000,
        rule="as tree; chains of 2-6 samplers with shared members"),
]
