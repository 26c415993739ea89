import copy
import os

import numpy as np
import yaml
from hypothesis import strategies as st

import popsynth
from .. import gen, rec
from ..core import Sub, check, fail

ASSUMPTIONS = [
    "distributions have their default names (a document has no place for others)",
    "model grids are not part of a synthesizer document",
    "an auxiliary selection uses one kind of value",
]


def draw(synth, opts):
    return rec.numeric(rec.full(synth.draw_survey(**opts)))


def expect(a, b, what, skip=()):
    d = [k for k in rec.diff(a, b) if k not in skip]
    check(not d, "%s: %s", what, rec.show(a, b, d))


def norm(d):
    return rec.numeric(rec.config(d))


def run_trip(case):
    spec = gen.resolve(case)
    opts = spec["draw"]
    b = gen.build(spec)
    PS = popsynth.PopulationSynth
    want = draw(gen.build(spec).synth, opts)

    def fresh(synth, what):
        expect(want, draw(synth, opts), what, skip=("config",) if what.startswith("hand") else ())
    lab = {}
    via = case["via"]
    # before anything has been drawn
    if case["drawn_first"]:
        b.synth.draw_survey(**opts)
    d1 = b.synth.to_dict()
    keep = copy.deepcopy(d1)
    again = b.synth.to_dict()
    check(norm(again) == norm(keep), "converting twice gives different dictionaries")
    s2 = PS.from_dict(d1)
    check(d1 == keep and norm(d1) == norm(keep), "from_dict changed its input")
    d2 = s2.to_dict()
    check(norm(d2) == norm(keep), "the rebuilt synthesizer converts to another dictionary: %s != %s", norm(d2), norm(keep))
    if case["drawn_first"]:
        # parameters that have been looked at are listed
        pass
    fresh(s2, "rebuilt from its dictionary")
    if "dict_again" in via:
        s3 = PS.from_dict(d1)
        fresh(s3, "rebuilt from its dictionary a second time")
        check(norm(d1) == norm(keep), "the dictionary has changed")
    if "file" in via:
        f = os.path.abspath("c12.yml")
        b.synth.write_to(f)
        with open(f) as fh:
            text = fh.read()
        check(norm(b.synth.to_dict()) == norm(keep), "writing changed the synthesizer")
        for _ in range(2):
            s4 = PS.from_file(f)
            check(norm(s4.to_dict()) == norm(keep), "rebuilt from its file it converts to another dictionary")
            fresh(s4, "rebuilt from its file")
        with open(f) as fh:
            check(fh.read() == text, "reading changed the file")
        s4.write_to(f)
        fresh(PS.from_file(f), "written and rebuilt twice")
        with open(f) as fh:
            check(norm(yaml.safe_load(fh)) == norm(s4.to_dict()), "the file does not hold the dictionary")
        os.remove(f)
    # the original still draws the same survey
    got = draw(b.synth, opts)
    expect(want, got, "the original synthesizer afterwards", skip=("config",))
    if "pop" in via or "hdf5" in via:
        pop = b.synth.draw_survey(**opts)
        cfg = copy.deepcopy(pop.pop_synth)
        s5 = PS.from_dict(pop.pop_synth)
        check(norm(pop.pop_synth) == norm(cfg), "rebuilding changed the configuration in the population")
        fresh(s5, "rebuilt from a population")
        check(norm(s5.to_dict()) == norm(cfg), "the configuration in a population is not a fixed point")
        if "hdf5" in via:
            f = os.path.abspath("c12.h5")
            for _ in range(2):
                pop.writeto(f)
                pop = popsynth.Population.from_file(f)
            os.remove(f)
            c2 = copy.deepcopy(pop.pop_synth)
            s6 = PS.from_dict(pop.pop_synth)
            fresh(s6, "rebuilt from a reloaded population")
            check(norm(s6.to_dict()) == norm(cfg), "the configuration in a reloaded population is another one: %s", norm(s6.to_dict()))
            check(norm(pop.pop_synth) == norm(c2), "rebuilding changed the configuration in the population")
            lab["hdf5"] = True
    # documents and synthesizers are independent
    if case["poke"]:
        s7 = PS.from_dict(d1)
        sp = s7.spatial_distribution
        k = sorted(spec["spatial"]["params"])[0]
        setattr(sp, k, float(getattr(sp, k)) * 1.5)
        check(norm(d1) == norm(keep), "changing the synthesizer changed the dictionary it came from")
        d3 = s7.to_dict()
        k3 = copy.deepcopy(d3)
        setattr(sp, k, float(getattr(sp, k)) * 1.5)
        check(norm(d3) == norm(k3), "changing the synthesizer changed the dictionary made from it")
        s8 = PS.from_dict(d1)
        fresh(s8, "rebuilt after another one was changed")
    nodes = list(gen.walk_nodes(spec))
    for v in via:
        lab["via_" + v] = True
    lab["derived"] = bool(spec["derived"])
    lab["nested"] = any(n["sec"] for n, _, _ in nodes)
    lab["shared"] = any("refname" in x for x, _, _ in gen.walk_nodes(spec, True))
    lab["aux_selection"] = any(n["sel"] for n, _, _ in nodes)
    lab["aux_selection_other"] = any(n["sel"] and any(k != "use_obs_value" for k in n["sel"]["kw"]) for n, _, _ in nodes)
    n = len(want["array distances"])
    lab["nontrivial"] = n > 0
    lab["lit"] = bool(want["array selection"].any())
    return lab


@st.composite
def trip_cases(draw):
    spec = draw(gen.specs(nmax=12, thin=True))
    spec["via"] = draw(st.lists(st.sampled_from(["dict_again", "file", "pop", "hdf5"]), unique=True, max_size=3))
    spec["drawn_first"] = draw(st.integers(0, 3)) == 0
    spec["poke"] = draw(st.integers(0, 2)) == 0
    return spec


# ---------------------------------------------------- hand-written documents
@st.composite
def doc_cases(draw):
    spec = draw(gen.specs(nmax=10, thin=True, stochastic=True))
    if draw(st.integers(0, 2)) == 0:
        spec["aux"].append(dict(cls="PvInit", name="init", params=dict(mu=draw(gen.num(-2, 2))), sec=[], sel=None,
                                observed=draw(st.booleans()),
                                init=draw(st.fixed_dictionaries({}, optional=dict(shift=gen.num(-5, 5), noisy=st.booleans())))))
    # entries at their default are left out
    spec["drop"] = draw(st.lists(st.integers(0, 40), max_size=3))
    spec["order"] = draw(st.integers(0, 2 ** 31 - 1))
    spec["style"] = draw(st.lists(st.integers(0, 5), min_size=12, max_size=12))
    spec["text"] = draw(st.booleans())
    return spec


DEFAULTED = {
    "ViewingAngleSampler": ["max_angle"], "BernoulliSelection": ["probability"],
    "NormalAuxSampler": ["mu", "tau", "sigma"], "LogNormalAuxSampler": ["mu", "tau", "sigma"],
    "Log10NormalAuxSampler": ["mu", "sigma"], "DeltaAuxSampler": ["xp", "sigma"],
    "TruncatedNormalAuxSampler": ["sigma"], "ParetoAuxSampler": ["alpha", "sigma"],
    "PowerLawAuxSampler": ["alpha", "sigma"], "PvDep": ["scale", "coef"], "PvDepL": ["scale"], "PvDepD": ["coef"],
    "ConstantSphericalDistribution": ["Lambda"], "ZPowerSphericalDistribution": ["delta", "Lambda"],
    "ZPowerCosmoDistribution": ["Lambda"], "ParetoDistribution": ["Lmin", "alpha"],
    "SchechterDistribution": ["alpha"], "PvBumpSphere": ["width", "K"], "PvInit": ["mu"],
}


def document(case, spec):
    """The document in the documented layout, as a plain dict."""
    style = list(case["style"])

    def pick():
        style.append(style.pop(0))
        return style[-1]

    def value(v):
        k = pick()
        if isinstance(v, bool):
            return v
        if k == 0:
            return repr(v)              # as text, like 1e51 is for YAML
        if k == 1 and float(v) == int(v) and abs(v) < 1e15:
            return int(v)
        if k == 2 and v != 0 and float("%e" % v) == v:
            return "%e" % v
        return v

    def params(p):
        return {k: value(v) for k, v in p.items()}

    def empty(p):
        return None if not p and pick() < 3 else p
    doc = {}
    doc["seed"] = spec["seed"]
    if spec["lum"]:
        doc["luminosity distribution"] = {spec["lum"]["cls"]: params(spec["lum"]["params"])}
    sd = {spec["spatial"]["cls"]: params(spec["spatial"]["params"])}
    if spec["spatial"].get("rate") is not None and not (spec["spatial"]["rate"] and pick() < 3):
        if pick() < 3:
            sd["is_rate"] = spec["spatial"]["rate"]
        else:
            sd = dict(is_rate=spec["spatial"]["rate"], **sd)
    doc["spatial distribution"] = sd
    for key, k in (("flux selection", "flux_sel"), ("distance selection", "dist_sel"), ("spatial selection", "spat_sel")):
        s = spec.get(k)
        if s:
            doc[key] = {s["cls"]: empty(params(s["params"]))}
        elif pick() < 2:
            doc[key] = None
    nodes = [n for n, _, _ in gen.walk_nodes(spec)]
    aux = {}
    for n in nodes:
        t = dict(type=n["cls"], observed=n["observed"] and n["cls"] not in gen.NO_NAME)
        t.update(params(n["params"]))
        secs = [s.get("refname") or s["name"] for s in n["sec"]]
        if secs:
            t["secondary"] = secs[0] if len(secs) == 1 and pick() < 3 else secs
        elif pick() < 2:
            t["secondary"] = None
        elif pick() < 1:
            t["secondary"] = []
        if n["sel"]:
            other = {k: True for k in n["sel"].get("kw", {}) if k != "use_obs_value"}
            t["selection"] = {n["sel"]["cls"]: empty(dict(params(n["sel"]["params"]), **other))}
        elif pick() < 2:
            t["selection"] = None
        if n.get("init"):
            t["init variables"] = dict(n["init"])
        elif pick() < 2:
            t["init variables"] = None
        aux[n["name"]] = t
    # entries may stand in any order
    rs = np.random.RandomState(case["order"])
    names = list(aux)
    rs.shuffle(names)
    keys = list(doc)
    if aux or pick() < 3:
        doc["auxiliary samplers"] = {k: aux[k] for k in names}
        keys.append("auxiliary samplers")
    rs.shuffle(keys)
    return {k: doc[k] for k in keys}, names


def run_doc(case):
    spec = gen.resolve(case)
    # leave entries at their defaults
    slots = []
    parts = [spec["spatial"], spec["lum"], spec["flux_sel"], spec["dist_sel"], spec["spat_sel"]]
    for n, _, _ in gen.walk_nodes(spec):
        parts += [n, n["sel"]]
    for p in parts:
        if p:
            slots += [(p, k) for k in DEFAULTED.get(p["cls"], []) if k in p["params"]]
    dropped = 0
    for i in case["drop"]:
        if slots:
            p, k = slots.pop(i % len(slots))
            p["params"].pop(k)
            dropped += 1
    doc, names = document(case, spec)
    # samplers of the survey itself are drawn in the order of the document
    exp = copy.deepcopy(spec)
    exp["aux"].sort(key=lambda n: names.index(n["name"]))
    homeless = set(x["refname"] for x, _, _ in gen.walk_nodes(exp, True) if "refname" in x)
    b = gen.build(reorder(exp))
    want = draw(b.synth, spec["draw"])
    if case["text"]:
        text = yaml.safe_dump(doc, sort_keys=False)
        with open("c12-doc.yml", "w") as f:
            f.write(text)
        for _ in range(2):
            s = popsynth.PopulationSynth.from_file("c12-doc.yml")
            expect(want, draw(s, spec["draw"]), "from the document", skip=("config",))
        os.remove("c12-doc.yml")
    else:
        keep = copy.deepcopy(doc)
        for _ in range(2):
            s = popsynth.PopulationSynth.from_dict(doc)
            check(doc == keep, "from_dict changed its input")
            expect(want, draw(s, spec["draw"]), "from the document", skip=("config",))
    # and onwards
    if not any(n.get("init") for n, _, _ in gen.walk_nodes(spec)):
        s2 = popsynth.PopulationSynth.from_dict(s.to_dict())
        expect(want, draw(s2, spec["draw"]), "from the dictionary of the document", skip=("config",))
    return dict(text=case["text"], dropped=dropped, shared=bool(homeless), derived=bool(spec["derived"]),
                nested=any(n["sec"] for n, _, _ in gen.walk_nodes(spec)), nontrivial=len(want["array distances"]) > 0)


def reorder(spec):
    """References point at samplers that have been built already."""
    spec = copy.deepcopy(spec)
    byname = {n["name"]: n for n, _, _ in gen.walk_nodes(spec)}
    done = set()

    def w(n):
        name = n.get("refname") or n["name"]
        if name in done:
            return {"refname": name}
        done.add(name)
        out = {k: v for k, v in byname[name].items() if k != "sec"}
        out["sec"] = [w(s) for s in byname[name]["sec"]]
        return out
    d = w(spec["derived"]) if spec["derived"] else None
    spec2 = dict(spec)
    spec2["derived"] = d
    spec2["aux"] = [w(n) for n in spec["aux"]]
    return spec2


SUBCHECKS = [
    Sub("trip", trip_cases(), run_trip, quick=700, thorough=15000,
        rule="a synthesizer whose survey has objects"),
    Sub("document", doc_cases(), run_doc, quick=700, thorough=15000,
        rule="a document whose survey has objects"),
]
