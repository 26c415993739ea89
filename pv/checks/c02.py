import json
import os
import subprocess
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st

import popsynth
from .. import child, gen
from ..core import Sub, check, fail, Skip

ASSUMPTIONS = [
    "compiled and interpreted kernels are compared bit by bit except in values that go through "
    "fast-math kernels, where 1e-9 relative is allowed",
    "surveys on an expanding universe are compared between processes of equal compilation only "
    "(the compiled cosmology keeps its two parameters in single precision)",
    "the class-level state of the interpreter under test is not changed by the caller between the two draws",
]


def explain(a, b):
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], dict):
                for j in set(a[k]) | set(b[k]):
                    if a[k].get(j) != b[k].get(j):
                        return "%s.%s" % (k, j)
            return k
    return None


def run_repeat(case):
    spec = gen.resolve(case["spec"])
    how = case["how"]
    np.random.seed(case["noise"][0])
    a = child.record(gen.build(spec).synth.draw_survey(**spec["draw"]))
    np.random.seed(case["noise"][1])
    np.random.uniform(size=case["noise"][2])
    if case["noise"][2] % 2:
        np.random.normal()
    if how == "unrelated":
        s = gen.build(dict(spec, seed=spec["seed"] ^ 5)).synth
        s.draw_survey(**spec["draw"])
    bar = how == "progress"
    from popsynth.utils import logging as L
    import logging

    keep = L.popsynth_console_log_handler.level, L.popsynth_usr_log_handler.level
    try:
        if bar:
            popsynth.show_progress_bars()
        if how == "verbose":
            L.popsynth_console_log_handler.setLevel(logging.DEBUG)
            L.popsynth_usr_log_handler.setLevel(logging.DEBUG)
        b = gen.build(spec)
        if how == "order":
            # looking at things before the draw draws nothing
            b.synth.to_dict(), repr(b.synth), b.synth.graph, b.synth.name
        pb = b.synth.draw_survey(**spec["draw"])
    finally:
        popsynth.silence_progress_bars()
        L.popsynth_console_log_handler.setLevel(keep[0])
        L.popsynth_usr_log_handler.setLevel(keep[1])
    r = child.record(pb)
    d = explain(a, r)
    check(d is None, "two surveys of one configuration and seed differ in %s (%s)", d, how)
    n = len(a["arrays"]["distances"]["f"])
    return dict(nontrivial=n > 1, **{"how_" + how: True, "derived": bool(spec["derived"])})


@st.composite
def repeat_cases(draw):
    spec = draw(gen.specs(nmax=25, naux=3))
    if draw(st.integers(0, 3)) == 0:
        # the size is drawn too: keep it small
        spec["draw"].pop("n_samples")
        spec["draw"]["normalize"] = True
        _cap(spec)
    return dict(spec=spec, how=draw(st.sampled_from(["plain", "progress", "verbose", "unrelated", "order"])),
                noise=[draw(st.integers(0, 2 ** 32 - 1)), draw(st.integers(0, 2 ** 32 - 1)),
                       draw(st.integers(0, 9))])


def _cap(spec):
    p = spec["spatial"]["params"]
    for k in ("Lambda", "r0", "K"):
        if k in p:
            p[k] = min(p[k], 25.0)


# ---------------------------------------------------------------- two seeds
@st.composite
def seed_cases(draw):
    spec = draw(gen.specs(nmax=20, naux=1, maxdepth=1, sels=False))
    spec["draw"]["n_samples"] = draw(st.integers(4, 20))
    s = draw(st.integers(0, 2 ** 32 - 1))
    t = draw(st.one_of(st.integers(0, 31).map(lambda k: s ^ (1 << k)), st.integers(0, 2 ** 32 - 1),
                       st.integers(1, 3).map(lambda k: (s + k) % 2 ** 32)))
    return dict(spec=spec, seeds=[s, t])


def run_seeds(case):
    s, t = case["seeds"]
    if s == t:
        raise Skip()
    out = []
    for x in (s, t):
        spec = dict(case["spec"], seed=x)
        b = gen.build(spec)
        p = b.synth.draw_survey(**spec["draw"])
        out.append(p)
    for k in ("distances", "theta", "phi"):
        u, v = np.array(getattr(out[0], k)), np.array(getattr(out[1], k))
        check(not gen.same(u, v), "seeds %d and %d give the same %s", s, t, k)
    if case["spec"]["lum"] and case["spec"]["lum"]["cls"] != "DeltaDistribution":
        check(not gen.same(np.array(out[0].luminosities), np.array(out[1].luminosities)),
              "seeds %d and %d give the same luminosities", s, t)
    for node, _, _ in gen.walk_nodes(case["spec"]):
        if node["cls"] in ("ParetoAuxSampler", "PowerLawAuxSampler", "BrokenPowerLawAuxSampler",
                           "ViewingAngleSampler"):
            check(not gen.same(np.array(getattr(out[0], node["name"]).latent),
                               np.array(getattr(out[1], node["name"]).latent)),
                  "seeds %d and %d give the same %s", s, t, node["name"])
    return dict(nontrivial=True)


# ------------------------------------------------------------ two processes
NOCOSMO = ["cs", "zs", "fl", "sp", "pv"]


def untie(spec):
    def fix(sel):
        if sel:
            for k, v in sel["params"].items():
                if isinstance(v, dict) and "tie" in v:
                    sel["params"][k] = {"q": 0.37}
    for k in ("flux_sel", "dist_sel", "spat_sel"):
        fix(spec.get(k))
    for n, _, _ in gen.walk_nodes(spec):
        fix(n.get("sel"))
    return spec


@st.composite
def process_cases(draw):
    jit = draw(st.booleans())
    n = draw(st.integers(4, 10))
    specs = []
    for _ in range(n):
        s = draw(gen.specs(nmax=20, naux=3, kinds=NOCOSMO if jit else None))
        specs.append(untie(s))
        # kernels that are compiled
        if draw(st.booleans()) and not any("PowerLaw" in x["cls"] for x, _, _ in gen.walk_nodes(s)):
            s["aux"].append(dict(draw(gen._plaux()), sec=[], observed=draw(st.booleans()), sel=None, name="pl"))
    return dict(specs=specs, jit=jit, hashseed=draw(st.integers(0, 1000)), progress=draw(st.booleans()),
                noise=draw(st.one_of(st.none(), st.integers(0, 2 ** 32 - 1))))


def spawn(job, jit, hashseed):
    env = dict(os.environ)
    env["NUMBA_DISABLE_JIT"] = "0" if jit else "1"
    env["PYTHONHASHSEED"] = str(hashseed)
    with tempfile.TemporaryDirectory() as d:
        env["HOME"] = d
        r = subprocess.run([sys.executable, "-m", "pv.child"], input=json.dumps(job).encode(), cwd=d,
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    if r.returncode:
        fail("the survey fails in a fresh process (compilation %s):\n%s", jit, r.stderr.decode()[-1500:])
    return json.loads(r.stdout)


def _close(a, b):
    x = np.array([float.fromhex(t) for t in a])
    y = np.array([float.fromhex(t) for t in b])
    return x.shape == y.shape and np.allclose(x, y, rtol=1e-9, atol=1e-12, equal_nan=True)


def run_process(case):
    specs = [gen.resolve(s) for s in case["specs"]]
    here = []
    for s in specs:
        here.append(json.loads(json.dumps(child.record(gen.build(s).synth.draw_survey(**s["draw"])))))
    there = spawn(dict(specs=specs, progress=case["progress"], noise=case["noise"]), case["jit"], case["hashseed"])
    for s, a, b in zip(specs, here, there):
        if not case["jit"]:
            d = explain(a, b)
            check(d is None, "a survey differs between two processes in %s", d)
            continue
        for k in a:
            if k != "arrays":
                check(a[k] == b[k], "a survey differs between compiled and interpreted kernels in %s", k)
        check(set(a["arrays"]) == set(b["arrays"]), "arrays recorded differ")
        for k, v in a["arrays"].items():
            w = b["arrays"][k]
            ok = v == w or ("f" in v and "f" in w and _close(v["f"], w["f"]))
            check(ok, "a survey differs between compiled and interpreted kernels in %s", k)
    return dict(nontrivial=True, surveys=len(specs), jit=case["jit"])


SUBCHECKS = [
    Sub("process", process_cases(), run_process, quick=16, thorough=160, hang=400, shrink_s=60,
        rule="surveys repeated in a fresh process with another hash seed, with or without compilation"),
    Sub("repeat", repeat_cases(), run_repeat, quick=800, thorough=16000,
        rule="two draws of at least two objects with the global generator, verbosity or progress changed in between"),
    Sub("seeds", seed_cases(), run_seeds, quick=400, thorough=8000,
        rule="two different seeds, often one bit apart"),
]
