import os
from unittest import mock

import matplotlib as mpl
import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

import popsynth
import popsynth.population as ppop
from .. import gen, peek, rec
from ..core import Sub, check, fail

ASSUMPTIONS = [
    "the sphere displays draw through stand-ins for ipyvolume and pythreejs which record what they are given",
    "objects beyond the maximum distance (spiral arms are scattered after the draw) are outside of the histogram",
]


@st.composite
def cases(draw):
    spec = draw(gen.specs(nmax=16, thin=True, naux=1, maxdepth=1))
    if draw(st.booleans()):
        # measurement errors need a flux selection
        spec["flux_sel"] = spec["flux_sel"] or draw(gen.flux_sels())
        spec["draw"]["flux_sigma"] = draw(gen.num(0.05, 1.5))
    spec["view"] = draw(st.sampled_from(["", "", "", "reload", "detected", "hidden"]))
    spec["given_ax"] = draw(st.booleans())
    spec["transform"] = draw(st.sampled_from([None, "log", "sqrt"]))
    spec["order"] = draw(st.permutations(list(range(10))))[:draw(st.integers(3, 10))]
    return spec


def rows(xs, ys):
    a = np.array([np.array(xs, dtype=float), np.array(ys, dtype=float)]).T.reshape(-1, 2)
    return a[np.lexsort((a[:, 1], a[:, 0]))]


def drawn(ax):
    """(points, colour) of everything scattered in the axes."""
    out = []
    for c in ax.collections:
        o = np.ma.filled(np.ma.array(c.get_offsets(), dtype=float), np.nan).reshape(-1, 2)
        f = c.get_facecolor()
        out.append((rows(o[:, 0], o[:, 1]), mpl.colors.to_hex(f[0]) if len(f) else None))
    for l in ax.lines:
        out.append((rows(*l.get_data()), mpl.colors.to_hex(l.get_color())))
    return [d for d in out if len(d[0])]


def arrows(ax):
    """(x, from, to) of every arrow."""
    out = []
    for p in ax.patches:
        v = np.array(p.get_xy()) if hasattr(p, "get_xy") else np.empty((0, 2))
        if v.ndim != 2 or not len(v) or not isinstance(p, mpl.patches.FancyArrow):
            continue
        lo, hi = v[:, 1].min(), v[:, 1].max()
        if lo == hi:
            continue
        # the tip is a point, the other end is as wide as the line
        eps = 1e-6 * (hi - lo)
        at_lo, at_hi = v[v[:, 1] <= lo + eps], v[v[:, 1] >= hi - eps]
        wide_lo, wide_hi = np.ptp(at_lo[:, 0]), np.ptp(at_hi[:, 0])
        start, stop = (lo, hi) if wide_lo > wide_hi else (hi, lo)
        tip = at_hi if wide_lo > wide_hi else at_lo
        out.append((float(tip[:, 0].mean()), float(start), float(stop)))
    return sorted(out)


def close(a, b):
    return np.allclose(a, b, rtol=1e-9, atol=0)


class View:
    """The population's own values, by plain indexing."""

    def __init__(self, pop):
        a = gen.arrays(pop)
        self.m = np.array(a["selection"], dtype=bool)
        self.d, self.true, self.obs = a["distances"], a["fluxes_latent"], a["fluxes"]
        self.lum, self.theta, self.phi = a["luminosities"], a["theta"], a["phi"]


def expect(ax, want, what):
    got = drawn(ax)
    want = [(rows(x, y), mpl.colors.to_hex(c)) for x, y, c in want]
    want = [w for w in want if len(w[0])]
    check(len(got) == len(want), "%s draws %d sets of points, not %d", what, len(got), len(want))
    for w, c in want:
        hit = [g for g in got if g[0].shape == w.shape and close(g[0], w) and g[1] == c]
        check(hit, "%s does not draw %s in %s but %s", what, w[:4].tolist(), c, [(g[0][:4].tolist(), g[1]) for g in got])


def run(case):
    spec = gen.resolve(case)
    pop = gen.build(spec).synth.draw_survey(**spec["draw"])
    if case["view"] == "reload":
        f = os.path.abspath("c20.h5")
        pop.writeto(f)
        pop = popsynth.Population.from_file(f)
        os.remove(f)
    elif case["view"]:
        pop = pop.to_sub_population(observed=case["view"] == "detected")
    v = View(pop)
    m = v.m
    before, stan = rec.full(pop), rec.stan(pop)
    lab = dict(hidden=bool((~m).any()), dark=not m.any(), empty=len(m) == 0, full=bool(m.all()) and len(m) > 0,
               noisy=not gen.same(v.true, v.obs), arrows=0, spheres=0)
    lab["nontrivial"] = bool(m.any() and (~m).any())
    np.random.seed(len(m) + 11)
    state = np.random.get_state()

    def axes():
        plt.close("all")
        if not case["given_ax"]:
            return {}
        fig, (a, b) = plt.subplots(1, 2)
        return dict(ax=b)

    def where(fig, kw, what):
        """The axes drawn on."""
        if kw:
            check(len(plt.get_fignums()) == 1, "%s opens a figure although axes are given", what)
            check(fig is None or fig is kw["ax"].figure, "%s returns another figure", what)
            other = kw["ax"].figure.axes[0]
            check(not other.collections and not other.patches, "%s draws on other axes", what)
            return kw["ax"]
        if not plt.get_fignums():
            return None
        check(len(plt.get_fignums()) == 1, "%s opens %d figures", what, len(plt.get_fignums()))
        return plt.gcf().axes[0]

    def same_arrows(ax, what, want):
        got = arrows(ax)

        # arrows shorter than the rounding of their ends may be drawn or not
        def tiny(a):
            return abs(a[2] - a[1]) <= 1e-5 * max(abs(a[1]), abs(a[2]))

        sure = sorted((x, a, b) for x, a, b in want if not tiny((x, a, b)))
        lab["arrows"] += len(sure)
        check(len(got) <= len(want), "%s draws %d arrows, not %d", what, len(got), len(want))
        rest = list(got)
        for w in sure:
            hit = [g for g in rest if np.allclose(g[:2], w[:2], rtol=1e-4, atol=0) and abs(g[2] - w[2]) <= 1e-3 * abs(w[2] - w[1]) + 1e-6 * abs(w[1])]
            check(hit, "%s draws no arrow of the object at %s with true flux %s, observed %s: %s", what, *w, rest[:5])
            rest.remove(hit[0])
        extra = [g for g in rest if abs(g[2] - g[1]) > 2e-5 * max(abs(g[1]), abs(g[2]))]
        check(not extra, "%s draws arrows of no object: %s", what, extra[:5])

    def true_fluxes():
        kw = axes()
        fig = pop.display_true_fluxes(flux_color="red", **kw)
        ax = where(fig, kw, "display_true_fluxes")
        expect(ax, [(v.d, v.true, "red")], "display_true_fluxes")

    def obs_fluxes():
        kw = axes()
        fig = pop.display_obs_fluxes(flux_color="blue", **kw)
        ax = where(fig, kw, "display_obs_fluxes")
        if ax is not None:
            expect(ax, [(v.d[m], v.obs[m], "blue")], "display_obs_fluxes")
        else:
            check(not m.any(), "display_obs_fluxes draws nothing")

    def fluxes(with_arrows):
        kw = axes()
        fig = pop.display_fluxes(true_color="red", obs_color="blue", with_arrows=with_arrows, **kw)
        what = "display_fluxes"
        ax = where(fig, kw, what)
        expect(ax, [(v.d, v.true, "red"), (v.d[m], v.obs[m], "blue")], what)
        same_arrows(ax, what, list(zip(v.d[m], v.true[m], v.obs[m])) if with_arrows else [])

    def lums():
        kw = axes()
        fig = pop.display_luminosities(true_color="red", obs_color="blue", **kw)
        ax = where(fig, kw, "display_luminosities")
        expect(ax, [(v.d[m], v.lum[m], "blue"), (v.d[~m], v.lum[~m], "red")], "display_luminosities")

    def dists():
        kw = axes()
        pop.display_distances(**kw)
        ax = where(None, kw, "display_distances")
        bars = {}
        for cont in ax.containers:
            edges = [p.get_x() for p in cont.patches] + [cont.patches[-1].get_x() + cont.patches[-1].get_width()]
            # depending on its version, matplotlib puts the label on the bars or on their container
            names = [cont.get_label()] + [p.get_label() for p in cont.patches]
            bars[next((n for n in names if n in ("Total Pop.", "Obs. Pop.")), None)] = (np.array(edges), np.array([p.get_height() for p in cont.patches]))
        check(len(bars) == 2, "display_distances draws %d histograms", len(bars))
        for name, d in (("Total Pop.", v.d), ("Obs. Pop.", v.d[m])):
            check(name in bars, "display_distances has no %s", name)
            e, h = bars[name]
            inside = d[(d >= 0) & (d <= peek.r_max(pop))]
            check(int(h.sum()) == len(inside), "display_distances: %s counts %s objects, not %d", name, h.sum(), len(inside))
            # cumulative counts away from the edges
            cum = np.cumsum(h)
            for i in range(len(h)):
                t = 1e-9 * max(e[-1], 1e-300)
                lo, hi = (inside < e[i + 1] - t).sum(), (inside < e[i + 1] + t).sum()
                if i + 1 == len(h):
                    hi = len(inside)
                check(lo <= cum[i] <= hi, "display_distances: %s has %s objects below %s, should be %s", name, cum[i], e[i + 1], lo)

    transform = dict(log=lambda x: np.log1p(np.asarray(x)), sqrt=lambda x: np.sqrt(np.asarray(x))).get(case["transform"])

    def sphere(which):
        parts = dict(obs=[("obs", m)], hidden=[("hid", ~m)], both=[("obs", m), ("hid", ~m)])[which]
        with mock.patch.object(ppop, "ipv") as ipv, mock.patch.object(ppop, "pythreejs"):
            kw = dict(distance_transform=transform)
            if which == "both":
                pop.display_flux_sphere(seen_cmap="viridis", unseen_cmap="cividis", **kw)
            elif which == "obs":
                pop.display_obs_fluxes_sphere(cmap="viridis", **kw)
            else:
                pop.display_hidden_fluxes_sphere(cmap="cividis", **kw)
            calls = ipv.scatter.call_args_list
        want = []
        for name, k in parts:
            if not k.any():
                continue
            r = transform(v.d[k]) if transform else v.d[k]
            x = np.array([r * np.sin(v.theta[k]) * np.cos(v.phi[k]), r * np.sin(v.theta[k]) * np.sin(v.phi[k]), r * np.cos(v.theta[k])])
            want.append((name, x, v.obs[k]))
        what = "display of the %s objects on the sphere" % which
        check(len(calls) == len(want), "%s: %d scatters, not %d", what, len(calls), len(want))
        for c, (name, x, f) in zip(calls, want):
            got = np.array([np.array(a, dtype=float) for a in c.args[:3]])
            check(got.shape == x.shape and np.allclose(got, x, rtol=1e-9, atol=1e-9 * np.abs(x).max()),
                  "%s: the %s objects are drawn at %s, not %s", what, name, got.T[:3].tolist(), x.T[:3].tolist())
            col = np.array([np.array(q, dtype=float)[:3] for q in c.kwargs["color"]])
            check(len(col) == len(f), "%s: %d colours of %d objects", what, len(col), len(f))
            if f.max() > f.min() * (1 + 1e-6):
                cm = mpl.colormaps["viridis" if name == "obs" else "cividis"]
                t = (np.log(f) - np.log(f.min())) / (np.log(f.max()) - np.log(f.min()))
                exp = cm(t)[:, :3]
                # one step of the colour map for rounding
                check(np.allclose(col, exp, atol=0.03), "%s: colours of the %s objects do not follow their observed fluxes", what, name)
            lab["spheres"] += 1

    def tables():
        shown = []
        with mock.patch.object(ppop, "display", side_effect=shown.append):
            pop.display()
        text = " ".join(getattr(s, "data", "") or "" for s in shown if not hasattr(s, "columns"))
        check("%d out of %d" % (int(m.sum()), len(m)) in text, "display() says %s of %d of %d objects", text, int(m.sum()), len(m))
        frames = [dict(zip(s["parameter"], s["value"])) for s in shown if hasattr(s, "columns")]
        want = ([pop.luminosity_parameters] if pop.luminosity_parameters is not None else []) + [pop.spatial_parameters]
        check(frames == [dict(w) for w in want], "display() shows %s, not %s", frames, want)

    todo = [true_fluxes, obs_fluxes, lambda: fluxes(True), lambda: fluxes(False), lums, dists, lambda: sphere("obs"),
            lambda: sphere("hidden"), lambda: sphere("both"), tables]
    for i in case["order"]:
        todo[i]()
        now = np.random.get_state()
        check(state[2] == now[2] and np.array_equal(state[1], now[1]) and state[3:] == now[3:],
              "display %d changes the random state", i)
    plt.close("all")
    after = rec.full(pop)
    dd = rec.diff(before, after)
    check(not dd, "displaying changed the population: %s", rec.show(before, after, dd))
    check(not rec.diff(stan, rec.stan(pop)), "displaying changed the export")
    return lab


SUBCHECKS = [
    Sub("plots", cases(), run, quick=500, thorough=10000, rule="a population with detected and hidden objects"),
]
