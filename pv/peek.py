"""Attributes that have no public name, with a public way around them.

The checks judge what the code does: should one of these be renamed, they
are taken from what the population exports instead.
"""

import numpy as np


def _stan(pop):
    return pop.to_stan_data()


def known_idx(pop):
    if hasattr(pop, "_known_distance_idx"):
        return np.asarray(pop._known_distance_idx)
    return np.asarray(_stan(pop)["z_idx"], dtype=int) - 1


def unknown_idx(pop):
    if hasattr(pop, "_unknown_distance_idx"):
        return np.asarray(pop._unknown_distance_idx)
    return np.asarray(_stan(pop)["z_nidx"], dtype=int) - 1


FIXED = ("luminosities", "distances", "theta", "phi", "fluxes", "selection", "flux_selection", "spatial_selection")


def aux(pop):
    """name -> true and observed values."""
    if hasattr(pop, "_auxiliary_quantities"):
        return pop._auxiliary_quantities or {}
    from popsynth.simulated_variable import SimulatedVariable

    return {k: dict(true_values=np.array(v.latent), obs_values=np.array(v)) for k, v in vars(pop).items()
            if isinstance(v, SimulatedVariable) and not k.startswith("_") and k not in FIXED}


def r_max(pop):
    return pop._r_max if hasattr(pop, "_r_max") else _stan(pop)["z_max"]


def n_model(pop):
    return pop._n_model if hasattr(pop, "_n_model") else _stan(pop)["N_model"]


def model_spaces(pop):
    return getattr(pop, "_model_spaces", None) or {}


def seed(pop):
    return getattr(pop, "_seed", None) if hasattr(pop, "_seed") else pop.pop_synth["seed"]


def name(pop):
    return getattr(pop, "_name", None)


def forms(pop):
    return [getattr(pop, "_spatial_form", None), getattr(pop, "_lf_form", None)]


def selection_of(v, default):
    """The selection a simulated variable carries, the default if it is not accessible."""
    if hasattr(v, "_selection"):
        return v._selection
    return getattr(v, "selection", default)
