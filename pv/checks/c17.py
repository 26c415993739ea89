import copy

import numpy as np
from hypothesis import strategies as st

import popsynth
from .. import custom, gen, rec
from ..core import Sub, check, fail

ASSUMPTIONS = [
    "a sampler or selection object belongs to one synthesizer at a time",
    "removing with clean() removes every auxiliary sampler and selection, as documented",
]

# parameters that can be moved without leaving the valid domain
MOVES = dict(
    Lambda=lambda c, x, u: x * (0.5 + u), r0=lambda c, x, u: x * (0.5 + u), K=lambda c, x, u: x * (0.5 + u),
    rho=lambda c, x, u: x * (0.5 + u), delta=lambda c, x, u: x + u - 0.5, r_max=lambda c, x, u: x * (0.7 + 0.3 * u),
    rise=lambda c, x, u: x + u, Lmin=lambda c, x, u: x * (0.5 + 0.5 * u), Lp=lambda c, x, u: x * (0.5 + u),
    tau=lambda c, x, u: x * (1 + u), sigma=lambda c, x, u: x + u, xp=lambda c, x, u: x + u,
    xmin=lambda c, x, u: x * (0.5 + 0.5 * u), max_angle=lambda c, x, u: x * (0.1 + 0.9 * u),
    scale=lambda c, x, u: x + u, coef=lambda c, x, u: x + u, mu=lambda c, x, u: x + 0.5 * (u - 0.5),
    alpha=lambda c, x, u: x + u if c in ("ParetoDistribution", "SchechterDistribution", "ParetoAuxSampler") else x - 0.3 * u,
    beta=lambda c, x, u: x - 0.3 * u, probability=lambda c, x, u: u, b_limit=lambda c, x, u: 60 * u,
    strength=lambda c, x, u: x * (0.5 + u),
)

WRONG = ["object", "none", "text", "class", "distribution", "sampler", "selection", "number"]


def wrong(kind):
    return dict(object=object(), none=None, text="LowerBound", distribution=popsynth.distributions.ParetoDistribution(),
                number=3, **{"class": popsynth.LowerBound})[kind]


@st.composite
def draw_options(draw):
    if draw(st.integers(0, 4)) == 0:
        d = draw(gen.draws(30))
        d["n_samples"] = None
        d["normalize"] = True
        return d
    return draw(gen.draws(30))


sel_ops = st.one_of(
    st.tuples(st.just("flux"), gen.flux_sels()), st.tuples(st.just("flux"), gen.flux_sels()),
    st.tuples(st.just("dist"), gen.dist_sels()), st.tuples(st.just("spat"), gen.spat_sels()))

ks = st.integers(0, 50)

ops = st.one_of(
    st.tuples(st.just("other")),
    st.tuples(st.just("param"), ks, ks, st.floats(0, 1).map(lambda x: round(x, 3))),
    st.tuples(st.just("param"), ks, ks, st.floats(0, 1).map(lambda x: round(x, 3))),
    st.tuples(st.just("attach"), gen.aux_tree(maxdepth=2, sels=True)),
    st.tuples(st.just("attach"), gen.aux_tree(maxdepth=2, sels=True)),
    st.tuples(st.just("derive"), gen.derived_nodes()),
    st.tuples(st.just("select"), sel_ops),
    st.tuples(st.just("select"), sel_ops),
    st.tuples(st.just("auxsel"), ks, gen.aux_sels()),
    st.tuples(st.just("depend"), ks, gen.aux_tree(depth=1, maxdepth=2, luminosity=False, allow_refs=False)),
    st.tuples(st.just("clean"), st.booleans(), st.booleans()),
    st.tuples(st.just("grid"), gen.lognum(0.01, 1), gen.lognum(2, 50), st.booleans()),
    st.tuples(st.just("look"), ks),
    st.tuples(st.just("reset"), ks),
    st.tuples(st.just("refuse"), st.sampled_from(["aux", "flux", "dist", "spat", "auxsel", "secondary", "twice", "dependent",
                                                  "limit", "name"]), ks, st.sampled_from(WRONG)),
    st.tuples(st.just("use"), ks),
)


surveys = st.one_of(
    st.tuples(st.just("draw"), draw_options()),
    st.tuples(st.just("draw"), draw_options()),
    st.tuples(st.just("again")),
)


@st.composite
def histories(draw):
    """Rounds of changes, most of them followed by a survey."""
    out = []
    if draw(st.booleans()):
        out.append(draw(surveys))
    for _ in range(draw(st.integers(1, 4))):
        out += draw(st.lists(ops, min_size=1, max_size=3))
        if draw(st.integers(0, 4)):
            out.append(draw(surveys))
    return [listed(o) for o in out]


def listed(o):
    return [listed(x) for x in o] if isinstance(o, tuple) else o


@st.composite
def cases(draw):
    spec = draw(gen.specs(nmax=20, thin=True, naux=2, maxdepth=2, model_spaces=True))
    if draw(st.integers(0, 7)) == 0 and not spec["derived"]:
        spec["lum"] = None
    # a derived luminosity may be attached besides a distribution
    other = draw(gen.specs(nmax=15, thin=True, naux=1, maxdepth=1))
    return dict(spec=spec, other=other, ops=draw(histories()))


def rename(node, prefix):
    node = copy.deepcopy(node)

    def w(n):
        for k in ("name", "refname"):
            if k in n:
                n[k] = prefix + n[k]
        for s in n.get("sec", []):
            w(s)
    w(node)
    return node


class Live:
    def __init__(self, case):
        self.spec = gen.resolve(case["spec"]) if self.has_lum(case["spec"]) else self.numbers(case["spec"])
        self.b = gen.build(self.spec)
        self.synth, self.reg = self.b.synth, self.b.reg
        self.sels = dict(flux=self.b.flux_sel, dist=self.b.dist_sel, spat=self.b.spat_sel)
        self.n_new = 0

    @staticmethod
    def has_lum(spec):
        return bool(spec.get("lum") or spec.get("derived"))

    @staticmethod
    def numbers(spec):
        """Without a survey to place selections in."""
        spec = copy.deepcopy(spec)
        for k in ("flux_sel", "dist_sel", "spat_sel"):
            if spec.get(k):
                spec[k] = gen.resolve_sel(spec[k], [])
        for n, _, _ in gen.walk_nodes(spec):
            if n.get("sel"):
                n["sel"] = gen.resolve_sel(n["sel"], [])
        return spec

    def repair(self, defs):
        """Samplers shared with removed ones are defined where they are left."""
        seen = set()

        def w(n):
            for i, s in enumerate(n["sec"]):
                if "refname" in s and s["refname"] not in seen:
                    s = n["sec"][i] = copy.deepcopy(defs[s["refname"]])
                if "refname" not in s:
                    w(s)
            seen.add(n["name"])

        for n in ([self.spec["derived"]] if self.spec.get("derived") else []) + self.spec["aux"]:
            w(n)

    def settle(self, draw):
        """Numbers for newly given selections."""
        s = dict(self.spec, draw=dict(n_samples=20))
        s = gen.resolve(s) if self.has_lum(s) else self.numbers(s)
        s["draw"] = draw
        self.spec = s

    def node(self, name):
        for n, _, _ in gen.walk_nodes(self.spec):
            if n["name"] == name:
                return n

    def nodes(self):
        return [n for n, _, _ in gen.walk_nodes(self.spec)]

    def holders(self):
        """(spec part, object) pairs with parameters."""
        out = [(self.spec["spatial"], self.synth.spatial_distribution)]
        if self.spec.get("lum"):
            out.append((self.spec["lum"], self.synth.luminosity_distribution))
        for k, o in self.sels.items():
            if o is not None:
                out.append((self.spec[k + "_sel"], o))
        for n in self.nodes():
            out.append((n, self.reg[n["name"]]))
            if n.get("sel"):
                out.append((n["sel"], self.reg[n["name"]].selector))
        return out


def run(case):
    live = Live(case)
    synth = live.synth
    lab = dict(draws=0, changes=0, refused=0, cleaned=0, redrawn=0, nolum=0, norm=0)
    other_spec = gen.resolve(case["other"])
    other = gen.build(other_spec)
    other_first = rec.full(other.synth.draw_survey(**other_spec["draw"]))
    past = []   # populations with what they were
    last = dict(n_samples=10)
    changed = False

    def config():
        return rec.config(synth.to_dict())

    def draw(d):
        nonlocal changed
        what = "survey %d" % len(past)
        if not live.has_lum(live.spec):
            before = config()
            try:
                synth.draw_survey(**d)
            except Exception:
                lab["nolum"] += 1
                lab["refused"] += 1
                check(config() == before, "a survey refused without luminosity changed the synthesizer")
                return
            fail("a survey was drawn without any luminosity")
        pop = synth.draw_survey(**d)
        got = rec.full(pop)
        fresh = gen.build(live.spec).synth.draw_survey(**d)
        want = rec.full(fresh)
        dd = rec.diff(want, got)
        check(not dd, "%s with %s after this history differs from that of a fresh synthesizer in %s: %s", what, d, dd,
              rec.show(want, got, dd))
        lab["draws"] += 1
        lab["norm"] += bool(d.get("normalize"))
        if past:
            lab["redrawn"] += 1
        if changed and past:
            lab["changes"] += 1
        changed = False
        past.append((pop, got, rec.stan(pop)))

    for op in case["ops"]:
        o = op[0]
        if o == "draw":
            last = op[1]
            draw(last)
        elif o == "again":
            draw(last)
        elif o == "other":
            got = rec.full(other.synth.draw_survey(**other_spec["draw"]))
            dd = rec.diff(other_first, got)
            check(not dd, "the survey of another synthesizer changed: %s", rec.show(other_first, got, dd))
        elif o == "param":
            hs = live.holders()
            part, obj = hs[op[1] % len(hs)]
            names = sorted(k for k in part["params"] if k in MOVES and not (
                k == "mu" and part["cls"].startswith("Truncated")))
            if names:
                k = names[op[2] % len(names)]
                v = gen.sig(MOVES[k](part["cls"], part["params"][k], op[3]))
                setattr(obj, k, v)
                part["params"][k] = v
                changed = True
        elif o == "attach":
            forest, _ = gen.name_forest([op[1]])
            n = rename(forest[0], "n%d" % live.n_new)
            live.n_new += 1
            live.spec["aux"].append(n)
            live.settle(last)
            synth.add_auxiliary_sampler(gen.build_node(live.spec["aux"][-1], live.reg))
            changed = True
        elif o == "derive":
            _, dn = gen.name_forest([], op[1])
            n = rename(dn, "d%d" % live.n_new)
            n["name"] = "pvlum"
            live.n_new += 1
            defs = {x["name"]: x for x in live.nodes()}
            live.spec["derived"] = n
            live.repair(defs)
            live.settle(last)
            synth.add_observed_quantity(gen.build_node(live.spec["derived"], live.reg))
            changed = True
        elif o == "select":
            k, s = op[1]
            live.spec[k + "_sel"] = s
            live.settle(last)
            live.sels[k] = gen.build_sel(live.spec[k + "_sel"])
            dict(flux=synth.set_flux_selection, dist=synth.set_distance_selection, spat=synth.add_spatial_selector)[k](live.sels[k])
            changed = True
        elif o == "auxsel":
            ns = live.nodes()
            if ns:
                n = ns[op[1] % len(ns)]
                n["sel"] = op[2]
                name = n["name"]
                live.settle(last)
                live.reg[name].set_selection_probability(gen.build_sel(live.node(name)["sel"]))
                changed = True
        elif o == "depend":
            ns = [n for n in live.nodes() if n["cls"].startswith("Pv")]
            if ns:
                name = ns[op[1] % len(ns)]["name"]
                _, dn = gen.name_forest([], dict(cls="x", sec=[op[2]]))
                n = rename(dn["sec"][0], "s%d" % live.n_new)
                live.n_new += 1
                live.node(name)["sec"].append(n)
                live.settle(last)
                live.reg[name].set_secondary_sampler(gen.build_node(live.node(name)["sec"][-1], live.reg))
                changed = True
        elif o == "clean":
            defs = {x["name"]: x for x in live.nodes()}
            old = [(n, live.reg[n["name"]]) for n in live.spec["aux"]]
            synth.clean(reset=op[1])
            live.spec["aux"], live.spec["derived"] = [], None
            for k in live.sels:
                live.spec[k + "_sel"] = None
                live.sels[k] = None
            if op[2]:
                # the same samplers are attached anew
                for n, obj in old:
                    synth.add_auxiliary_sampler(obj)
                    live.spec["aux"].append(n)
                live.repair(defs)
            lab["cleaned"] += 1
            changed = True
        elif o == "grid":
            i = len(live.spec.get("model_spaces") or [])
            synth.add_model_space("grid%d" % i, op[1], op[2], log=op[3])
            live.spec.setdefault("model_spaces", []).append(dict(start=op[1], stop=op[2], log=op[3]))
            changed = True
        elif o == "look":
            k = op[1] % 5
            if k == 0:
                repr(synth) if live.has_lum(live.spec) else None
            elif k == 1:
                d = synth.to_dict()
                d["seed"] = -1
                d["auxiliary samplers"].clear()
            elif k == 2 and live.has_lum(live.spec):
                list(synth.graph.nodes)
            elif k == 3:
                popsynth.PopulationSynth.from_dict(synth.to_dict()) if not live.spec.get("derived") else None
            elif k == 4:
                np.random.uniform(size=op[1])
        elif o == "reset":
            objs = [live.reg[n["name"]] for n in live.nodes()] + [s for s in live.sels.values() if s is not None]
            if objs:
                objs[op[1] % len(objs)].reset()
        elif o == "use":
            # a population is used
            if past:
                p = past[op[1] % len(past)][0]
                q = p.to_sub_population()
                repr(p), p.to_stan_data(), q.to_stan_data()
        elif o == "refuse":
            kind, k, w = op[1], op[2], op[3]
            before = config()
            f, exc = None, Exception
            bad = (popsynth.LowerBound(use_flux=True) if w == "selection" else
                   popsynth.NormalAuxSampler("zz") if w == "sampler" else wrong(w))
            isa = w == "selection"
            iss = w == "sampler"
            if kind == "aux" and not iss:
                f = lambda: synth.add_auxiliary_sampler(bad)
            elif kind in ("flux", "dist", "spat") and not isa:
                f = lambda: dict(flux=synth.set_flux_selection, dist=synth.set_distance_selection,
                                 spat=synth.add_spatial_selector)[kind](bad)
            elif kind == "auxsel" and not isa and live.nodes():
                t = live.reg[live.nodes()[k % len(live.nodes())]["name"]]
                f = lambda: t.set_selection_probability(bad)
            elif kind == "secondary" and not iss and live.nodes():
                t = live.reg[live.nodes()[k % len(live.nodes())]["name"]]
                f = lambda: t.set_secondary_sampler(bad)
            elif kind == "twice" and live.spec["aux"]:
                t = live.reg[live.spec["aux"][k % len(live.spec["aux"])]["name"]]
                f = lambda: synth.add_observed_quantity(t)
            elif kind == "name" and live.spec["aux"]:
                t = popsynth.NormalAuxSampler(live.spec["aux"][k % len(live.spec["aux"])]["name"])
                f = lambda: synth.add_auxiliary_sampler(t)
            elif kind == "dependent":
                ns = [n for n, depth, _ in gen.walk_nodes(live.spec) if depth > 0]
                if ns:
                    t = live.reg[ns[k % len(ns)]["name"]]
                    f = lambda: synth.add_auxiliary_sampler(t)
            elif kind == "limit":
                hs = [(obj, n) for part, obj in live.holders() for n in sorted(part["params"])
                      if n in ("r_max", "sigma", "Lmin", "xmin", "b_limit", "probability")]
                if hs:
                    obj, q = hs[k % len(hs)]
                    f = lambda: setattr(obj, q, -1.5)
            if f is None:
                continue
            try:
                f()
            except Exception:
                pass
            else:
                fail("%s of %s was not refused", kind, w)
            lab["refused"] += 1
            got = config()
            check(got == before, "the refused %s (%s) changed the synthesizer: %s -> %s", kind, w, before, got)
    draw(last)
    for i, (p, was, stan) in enumerate(past):
        now = rec.full(p)
        dd = rec.diff(was, now)
        check(not dd, "survey %d was changed by what happened later: %s", i, rec.show(was, now, dd))
        check(not rec.diff(stan, rec.stan(p)), "the export of survey %d was changed later", i)
    got = rec.full(other.synth.draw_survey(**other_spec["draw"]))
    dd = rec.diff(other_first, got)
    check(not dd, "the survey of another synthesizer changed: %s", rec.show(other_first, got, dd))
    lab["nontrivial"] = lab["changes"] > 0
    return lab


SUBCHECKS = [
    Sub("history", cases(), run, quick=1000, thorough=20000, rule="the synthesizer was changed between two surveys"),
]
