import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np
import yaml
from hypothesis import strategies as st

import popsynth
from .. import child, fresh, gen
from ..core import Sub, check, fail

ASSUMPTIONS = [
    "log levels are given by name; the console level is not updated while the logs are silenced",
    "critical messages while logs are silenced are not judged",
    "activating logs that were made loud or verbose, but not silenced, may keep or undo that",
]

DEFAULT = dict(logging=dict(debug=False, console=dict(on=True, level="WARNING"), file=dict(on=True, level="WARNING")),
               cosmology=dict(Om=0.307, h0=67.7), show_progress=True)
LEVELS = fresh.LEVELS

# --------------------------------------------------------------- generators

ENTRIES = {
    ("logging", "debug"): st.booleans(),
    ("logging", "console", "on"): st.booleans(),
    ("logging", "console", "level"): st.sampled_from(LEVELS),
    ("logging", "file", "on"): st.booleans(),
    ("logging", "file", "level"): st.sampled_from(LEVELS),
    ("cosmology", "Om"): gen.num(0.27, 0.9),
    ("cosmology", "h0"): st.one_of(gen.num(50, 90), st.integers(50, 90)),
    ("show_progress",): st.booleans(),
}

BAD = [
    (("verbose",), True), (("logging", "level"), "INFO"), (("logging", "console", "colour"), "red"),
    (("cosmology", "Ode"), 0.7), (("logging", "debug"), "sometimes"), (("logging", "console", "on"), "perhaps"),
    (("logging", "console", "level"), "LOUD"), (("logging", "file", "level"), "QUIETLY"), (("logging", "file", "on"), 3.5),
    (("cosmology", "Om"), "dark"), (("cosmology", "h0"), [70]), (("show_progress",), "progress"), (("cosmology",), 5),
    (("logging", "console"), "INFO"), (("cosmology", "om"), 0.3), (("cosmology", "H0"), 70.0), (("Cosmology",), {"Om": 0.3}),
]

SIMPLE = ["silence_logs", "silence_logs", "activate_logs", "activate_logs", "silence_warnings", "activate_warnings", "quiet_mode",
          "loud_mode", "debug_mode", "show_progress_bars", "silence_progress_bars"]

simple = st.sampled_from(SIMPLE).map(lambda x: [x])
update = st.sampled_from(LEVELS).map(lambda x: ["update_logging_level", x])
inner = st.one_of(
    st.sampled_from([["silence_warnings"], ["activate_warnings"], ["show_progress_bars"], ["silence_progress_bars"], ["pair"]]),
)


def temporarily(body):
    return st.tuples(st.lists(body, max_size=2), st.booleans()).map(lambda t: ["temporarily", t[0], t[1]])


op = st.one_of(simple, simple, update, temporarily(st.one_of(inner, inner, temporarily(inner))))


@st.composite
def files(draw, bad=False):
    """Entries of a configuration file as [path, value]; None without a file."""
    if not bad and draw(st.integers(0, 7)) == 0:
        return None
    keys = draw(st.lists(st.sampled_from(sorted(ENTRIES)), unique=True, max_size=8))
    out = [[list(k), draw(ENTRIES[k])] for k in keys]
    if bad:
        p, v = draw(st.sampled_from(BAD))
        out = [e for e in out if tuple(e[0][:len(p)]) != p and tuple(p[:len(e[0])]) != tuple(e[0])] + [[list(p), v]]
    return out


@st.composite
def cases(draw):
    case = dict(file=draw(files()), flow=draw(st.booleans()), ops=draw(st.lists(op, max_size=3)))
    if draw(st.booleans()):
        case["spec"] = draw(gen.specs(nmax=12, thin=True, naux=1, maxdepth=1))
    return case


@st.composite
def refused_cases(draw):
    return dict(file=draw(files(bad=True)), flow=draw(st.booleans()))


@st.composite
def control_cases(draw):
    # quiet defaults would show little
    f = [[["logging", "console", "level"], draw(st.sampled_from(LEVELS))], [["logging", "file", "level"], draw(st.sampled_from(LEVELS))]]
    if draw(st.booleans()):
        f.append([["logging", "debug"], True])
    case = dict(file=f, flow=False, ops=draw(st.lists(op, min_size=2, max_size=9)))
    if draw(st.integers(0, 3)) == 0:
        case["spec"] = draw(gen.specs(nmax=12, thin=True, naux=1, maxdepth=1))
    return case


def text(entries, flow):
    if entries is None:
        return None
    d = {}
    for path, v in entries:
        x = d
        for k in path[:-1]:
            x = x.setdefault(k, {})
        x[path[-1]] = v
    if not d:
        return "# nothing is set\n" if flow else ""
    return yaml.safe_dump(d, default_flow_style=flow, sort_keys=False)


def effective(entries):
    d = copy.deepcopy(DEFAULT)
    for path, v in entries or []:
        x = d
        for k in path[:-1]:
            x = x[k]
        x[path[-1]] = float(v) if path[0] == "cosmology" else v
    return d


# -------------------------------------------------------------------- model

CRIT = 4


class Model:
    """Every state the outputs may be in."""

    def __init__(self, cfg):
        l = cfg["logging"]
        self.attached = dict(console=l["console"]["on"], usr=l["file"]["on"], dev=l["debug"])
        lev = (LEVELS.index(l["console"]["level"]), LEVELS.index(l["file"]["level"]))
        # (levels, silent, levels before silencing, levels before a louder mode)
        self.states = {(lev, False, frozenset(), frozenset())}
        self.dev = True        # messages of all levels; None: not judged
        self.warnings = True
        self.bar = cfg["show_progress"]
        self.inside = 0
        self.silenced = False

    def op(self, o):
        n = set()
        k = o[0]
        if k in ("show_progress_bars", "loud_mode"):
            self.bar = True
        if k in ("silence_progress_bars", "quiet_mode"):
            self.bar = False
        if k == "silence_warnings":
            self.warnings = False
        if k == "activate_warnings":
            self.warnings = True
        for (lev, silent, pre, extra) in self.states:
            if k in ("silence_logs", "quiet_mode"):
                if not silent:
                    pre = frozenset([lev])
                elif lev != (CRIT, CRIT):
                    pre = pre | {lev}
                n.add(((CRIT, CRIT), True, pre, frozenset()))
            elif k in ("loud_mode", "debug_mode"):
                if not silent:
                    extra = extra | {lev}
                n.add(((1, 1) if k == "loud_mode" else (0, lev[1]), silent, pre, extra))
            elif k == "activate_logs":
                if silent:
                    n |= {(p, False, frozenset(), frozenset()) for p in pre}
                else:
                    n |= {(p, False, frozenset(), frozenset()) for p in extra | {lev}}
            elif k == "update_logging_level":
                n.add(((LEVELS.index(o[1]), lev[1]), silent, pre, extra))
            else:
                n.add((lev, silent, pre, extra))
        if k in ("silence_logs", "quiet_mode"):
            self.dev, self.silenced = False, True
        elif k in ("loud_mode", "debug_mode"):
            if self.silenced:
                self.dev = None
        elif k == "activate_logs":
            self.dev, self.silenced = True, False
        self.states = n

    def see(self, step, what):
        for j in (0, 1):
            got = {k: {lev: n for i, lev, n in step.get(k, []) if i == j} for k in ("console", "usr", "dev")}
            stray = [lev for i, lev, n in step.get("err", []) if i == j]
            check(not stray, "%s: %s messages are written to stderr", what, stray)
            for k in got:
                for lev, n in got[k].items():
                    check(n == 1, "%s: a %s message appears %d times in the %s output", what, lev, n, k)
                if not self.attached[k]:
                    check(not got[k], "%s: %s messages in the %s output, which is off", what, sorted(got[k]), k)
            if self.attached["dev"] and self.dev is not None:
                for lev in LEVELS[:-1] if not self.dev else LEVELS:
                    check((lev in got["dev"]) == bool(self.dev), "%s: %s messages are %s in the developer log", what, lev,
                          "not" if self.dev else "still")
            if self.inside:
                for k in ("console", "usr"):
                    for lev in LEVELS[:3]:
                        check(lev not in got[k], "%s: %s messages in the %s output inside silence_console_log", what, lev, k)
                continue
            fits = set()
            for s in self.states:
                ok = True
                for i, k in enumerate(("console", "usr")):
                    if not self.attached[k]:
                        continue
                    for m, lev in enumerate(LEVELS):
                        if s[1] and m == CRIT:
                            continue
                        want = m >= s[0][i] and (lev != "WARNING" or self.warnings)
                        ok &= want == (lev in got[k])
                if ok:
                    fits.add(s)
            check(fits, "%s: console shows %s, file %s; with levels %s and warnings %s", what, sorted(got["console"]), sorted(got["usr"]),
                  [tuple(LEVELS[x] for x in s[0]) for s in self.states], "on" if self.warnings else "off")
            self.states = fits
        check(step["bar"] == self.bar, "%s: progress bars are %s", what, "on" if step["bar"] else "off")


def outcome(case, res, cfg, lab):
    """Compare the session with the model."""
    if "error" in res:
        fail("the session failed: %s", res["error"])
    steps = list(res["steps"])
    model = Model(cfg)
    model.see(steps.pop(0), "after import")

    def walk(ops, done):
        for o in ops:
            now = done + [o]
            if o[0] == "temporarily":
                keep = model.states, model.dev, model.silenced
                model.inside += 1
                model.see(steps.pop(0), "inside %s" % now)
                walk(o[1], now)
                model.inside -= 1
                if not model.inside:
                    model.states, model.dev, model.silenced = keep
                model.see(steps.pop(0), "after %s" % now)
                lab["temporary"] = True
            elif o[0] == "pair":
                model.dev = False
                model.see(steps.pop(0), "inside %s" % now)
                model.dev = True
                model.see(steps.pop(0), "after %s" % now)
            else:
                model.op(o)
                model.see(steps.pop(0), "after %s" % now)
            done = now

    walk(case["ops"], [])
    check(not steps, "internal: %d observations left", len(steps))
    return model


def valid(ops):
    """Leave out what lies outside of the domain."""
    out, silent = [], False

    def inner_ok(xs):
        return [x if x[0] != "temporarily" else ["temporarily", inner_ok(x[1]), x[2]]
                for x in xs if not (x[0] == "pair" and silent)]

    for o in ops:
        if o[0] == "update_logging_level" and silent:
            continue
        if o[0] == "temporarily":
            o = ["temporarily", inner_ok(o[1]), o[2]]
        if o[0] in ("silence_logs", "quiet_mode"):
            silent = True
        if o[0] == "activate_logs":
            silent = False
        out.append(o)
    return out


def flatten(r):
    return json.dumps(r, sort_keys=True)


def run(case):
    entries = case["file"]
    cfg = effective(entries)
    case = dict(case, ops=valid(case["ops"]))
    lab = dict(no_file=entries is None, partial=entries is not None and len(entries) < len(ENTRIES), ops=len(case["ops"]))
    spec = ref = None
    c = popsynth.cosmology
    old = c.Om, c.h0
    try:
        c.Om, c.h0 = cfg["cosmology"]["Om"], cfg["cosmology"]["h0"]
        if case.get("spec"):
            spec = gen.resolve(case["spec"])
            ref = child.record(gen.build(spec).synth.draw_survey(**spec["draw"]))
    finally:
        c.Om, c.h0 = old
    given = text(entries, case["flow"])
    res = fresh.run(dict(ops=case["ops"], spec=spec), given)
    if "refused" in res:
        fail("a valid configuration is refused: %s\n%s", res["refused"], given)
    if "config" in res:
        check(res["config"] == cfg, "the effective configuration is %s, should be %s", res["config"], cfg)
        for k, v in zip(("Om", "h0"), res["cosmology"]):
            check(abs(v / cfg["cosmology"][k] - 1) < 1e-6, "cosmology %s is %s, configured %s", k, v, cfg["cosmology"][k])
    model = outcome(case, res, cfg, lab)
    if entries is None:
        check(res["file"] is not None, "no configuration file was written")
        back = yaml.safe_load(res["file"])
        check(back == DEFAULT, "the written configuration is %s", back)
    else:
        check(res["file"] == given, "the user's configuration file was changed to %s", res["file"])
    if ref is not None:
        for k in ref:
            check(ref[k] == res["record"][k], "with these settings the survey differs in %s: %s", k,
                  [n for n in ref[k] if ref[k][n] != res["record"][k].get(n)] if isinstance(ref[k], dict) else ref[k])
        lab["survey"] = True
        shown = res["survey_output"]
        if not model.bar:
            check(shown["err"] == "", "without progress bars a survey writes %r", shown["err"][:200])
        if all(s[0] == (CRIT, CRIT) for s in model.states):
            for k in ("console", "usr"):
                check(shown[k] == "" or "CRITICAL" in shown[k], "a survey writes to the silenced %s output: %r", k, shown[k][:200])
            lab["silent_survey"] = True
        for k in ("console", "usr", "dev"):
            if not model.attached[k]:
                check(shown[k] == "", "a survey writes to the %s output, which is off: %r", k, shown[k][:200])
    lab["nontrivial"] = entries is None or len(entries) > 0
    return lab


def run_refused(case):
    given = text(case["file"], case["flow"])
    res = fresh.run(dict(ops=[]), given)
    check("error" not in res, "%s", res.get("error"))
    check("refused" in res, "an invalid configuration was accepted as %s:\n%s", res.get("config"), given)
    check(res["file"] == given, "the user's configuration file was changed to %s", res["file"])
    return dict(nontrivial=True, others=len(case["file"]) > 1)


@st.composite
def process_cases(draw):
    f = draw(files()) or []
    f = [e for e in f if e[0][0] != "cosmology"]
    keys = draw(st.sampled_from([["Om"], ["h0"], ["Om", "h0"], []]))
    for k in keys:
        f.append([["cosmology", k], draw(ENTRIES[("cosmology", k)])])
    return dict(file=f or None, flow=False, z=draw(st.lists(gen.num(0.01, 6), min_size=2, max_size=4)))


PROCESS = """
import json, sys
import popsynth
import numpy as np
c = popsynth.cosmology
z = np.array(json.loads(sys.argv[1]))
from omegaconf import OmegaConf
print("ANSWER" + json.dumps([OmegaConf.to_container(popsynth.popsynth_config), [float(c.Om), float(c.h0)],
      [float(x) for x in c.luminosity_distance(z)], [float(x) for x in c.differential_comoving_volume(z)]]))
"""


def run_process(case):
    """A process of its own, with compiled kernels."""
    cfg = effective(case["file"])
    given = text(case["file"], False)
    d = tempfile.mkdtemp(prefix="proc", dir=os.environ.get("PV_WORK"))
    try:
        if given is not None:
            os.makedirs(os.path.join(d, ".config/popsynth"))
            with open(os.path.join(d, ".config/popsynth/popsynth_config.yml"), "w") as f:
                f.write(given)
        env = dict(os.environ, HOME=d, NUMBA_DISABLE_JIT="0")
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", PROCESS, json.dumps(case["z"])], env=env, cwd=d, timeout=300,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    lines = [l for l in p.stdout.split("\n") if "ANSWER" in l]
    check(lines, "popsynth does not start with\n%s\n%s", given, p.stderr[-1500:])
    got = json.loads(lines[0][lines[0].index("ANSWER") + 6:])
    check(got[0] == cfg, "the effective configuration is %s, should be %s", got[0], cfg)
    c = popsynth.cosmology
    old = c.Om, c.h0
    z = np.array(case["z"])
    try:
        c.Om, c.h0 = cfg["cosmology"]["Om"], cfg["cosmology"]["h0"]
        want = [[c.Om, c.h0], list(c.luminosity_distance(z)), list(c.differential_comoving_volume(z))]
    finally:
        c.Om, c.h0 = old
    for a, b in zip(got[1:], want):
        check(np.allclose(a, b, rtol=1e-4), "with cosmology %s: %s, should be %s", cfg["cosmology"], a, b)
    return dict(nontrivial=any(e[0][0] == "cosmology" for e in case["file"] or []))


SUBCHECKS = [
    Sub("process", process_cases(), run_process, quick=8, thorough=64, rule="the cosmology is configured"),
    Sub("configuration", cases(), run, quick=400, thorough=8000, rule="there is no file, or one that sets something"),
    Sub("refused", refused_cases(), run_refused, quick=120, thorough=1000, rule="the file has an invalid entry"),
    Sub("controls", control_cases(), run, quick=700, thorough=16000, rule="there is no file, or one that sets something"),
]
