"""Everything observable of a population, in a comparable form."""

import networkx as nx
import numpy as np

from . import gen, peek
from .child import plain


def config(d):
    """The stored configuration; lists of names may come as mappings."""
    if isinstance(d, dict):
        out = {}
        for k, v in d.items():
            if k == "secondary" and isinstance(v, dict) and all(isinstance(x, dict) and not x for x in v.values()):
                v = list(v)
            out[str(k)] = config(v)
        return out
    if isinstance(d, (list, tuple)):
        return [config(x) for x in d]
    return plain(d)


def stan(pop):
    out = {}
    for k, v in pop.to_stan_data().items():
        if np.ndim(v):
            out[k] = np.array(v)
        else:
            out[k] = plain(v)
    return out


def full(pop):
    out = dict(gen.arrays(pop))
    out = {"array " + k: v for k, v in out.items()}
    for k in ("luminosities", "distances", "fluxes", "theta", "phi"):
        v = getattr(pop, k)
        out["array selected " + k] = np.array(v.selected)
        out["array hidden " + k] = np.array(v.non_selected)
        out["array latent " + k] = np.array(v.latent)
    out["array ra"], out["array dec"] = np.array(pop.ra), np.array(pop.dec)
    if peek.aux(pop) is not None:
        out["aux names"] = sorted(peek.aux(pop))
        for k, v in peek.aux(pop).items():
            out["array raw true " + k] = np.array(v["true_values"])
            out["array raw obs " + k] = np.array(v["obs_values"])
    for k, v in peek.model_spaces(pop).items():
        out["array grid " + k] = np.array(v)
    out["grids"] = sorted(peek.model_spaces(pop))
    out["has probability"] = pop.probability is not None
    out["counts"] = [int(pop.n_objects), int(pop.n_detections), int(pop.n_non_detections), bool(pop.has_detections)]
    out["truth"] = plain(pop.truth)
    out["config"] = config(pop.pop_synth)
    out["spatial"] = plain(pop.spatial_parameters)
    out["lf"] = plain(pop.luminosity_parameters)
    out["sigma"] = plain(pop.flux_sigma)
    out["forms"] = peek.forms(pop)
    out["name"] = peek.name(pop)
    out["seed"] = plain(peek.seed(pop))
    out["r_max"] = plain(peek.r_max(pop))
    out["n_model"] = int(peek.n_model(pop))
    out["nodes"] = sorted(pop.graph.nodes)
    out["edges"] = sorted(map(list, pop.graph.edges))
    out["directed"] = bool(nx.is_directed(pop.graph))
    return out


def eq(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return gen.same(a, b)
    return a == b


def diff(a, b):
    """What differs between two records."""
    return sorted(k for k in set(a) | set(b) if k not in a or k not in b or not eq(a[k], b[k]))


def show(a, b, keys):
    return "; ".join("%s: %s != %s" % (k, str(a.get(k))[:200], str(b.get(k))[:200]) for k in keys[:3])


def numeric(x):
    """Whole numbers and floats of the same value are the same."""
    if isinstance(x, dict):
        return {k: numeric(v) for k, v in x.items()}
    if isinstance(x, list):
        return [numeric(v) for v in x]
    if isinstance(x, int) and not isinstance(x, bool):
        return float(x).hex()
    return x
