PS = "popsynth/population_synth.py"
POP = "popsynth/population.py"
DI = "popsynth/distribution.py"
AUX = "popsynth/auxiliary_sampler.py"
SV = "popsynth/simulated_variable.py"
SEL = "popsynth/selection_probability/selection_probability.py"
GEN = "popsynth/selection_probability/generic_selectors.py"

POPS = """
def survey(**kw):
    ps = popsynth.populations.ParetoHomogeneousSphericalPopulation(Lambda=0.05, Lmin=1, alpha=2, r_max=5, seed=3)
    return ps
def cut(x):
    from popsynth.selection_probability import HardFluxSelection
    s = HardFluxSelection()
    s.boundary = x
    return s
"""

BUGS = [
    dict(
        id="c13-hidden-latent-flux",
        property="C13",
        edits=[
            (
                SV,
                "        non_selected_latent = self._latent_values[~self._selection]\n",
                "        non_selected_latent = (\n"
                "            self._latent_values[~self._selection]\n"
                "            if self._selection.any()\n"
                "            else non_selected.copy()\n"
                "        )\n",
            )
        ],
        demo=POPS
        + """
ps = survey()
ps.set_flux_selection(cut(1e9))
pop = ps.draw_survey(flux_sigma=0.4)
assert not pop.selection.any()
sub = pop.to_sub_population(observed=False)
assert np.array_equal(np.array(sub.fluxes.latent), np.array(pop.fluxes.latent)[~pop.selection])
""",
        needs="the hidden sub-population of a survey with measurement error in which nothing is selected",
        breaks="the latent values of hidden objects are their observed values",
    ),
    dict(
        id="c13-known-distances-order",
        property="C13",
        edits=[
            (
                POP,
                "            known_distances=np.array(known_distances),\n",
                "            known_distances=np.unique(known_distances),\n",
            )
        ],
        demo=POPS
        + """
pop = survey().draw_survey()
sub = pop.to_sub_population()
assert np.array_equal(np.array(sub.known_distances), np.array(pop.known_distances))
""",
        needs="a sub-population with several known distances that are not sorted",
        breaks="the known distances of a sub-population are sorted and no longer belong to their indices",
    ),
    dict(
        id="c14-right-operand",
        property="C14",
        edits=[
            (
                SV,
                """                latent_args.append(input_._latent_values.view(np.ndarray))
""",
                """                latent_args.append(
                    input_._latent_values.view(np.ndarray) if i < 2 else args[-1]
                )
""",
            )
        ],
        demo="""
from popsynth.simulated_variable import SimulatedVariable
s = np.array([True, False, True])
v = SimulatedVariable(np.array([1.0, 2, 3]), np.array([10.0, 20, 30]), s)
r = np.clip(np.array([0.0, 0.0, 0.0]), np.array([-1.0] * 3), v)
lo = SimulatedVariable(np.array([0.0, 0, 0]), np.array([0.0, 0, 0]), s)
x = SimulatedVariable(np.array([5.0, 5, 5]), np.array([50.0, 50, 50]), s)
r = np.clip(x, lo, v)
assert np.array_equal(np.asarray(r.latent), [10, 20, 30]), r.latent
""",
        needs="an operation of three operands (clip) whose last one is a simulated variable",
        breaks="the latent result uses the observed values of the third operand",
    ),
    dict(
        id="c14-hidden-mask-kept",
        property="C14",
        edits=[
            (
                SV,
                """        self._selection = getattr(obj, "_selection", None)
""",
                """        if getattr(self, "_selection", None) is None:
            self._selection = getattr(obj, "_selection", None)
            self._latent_values = getattr(obj, "_latent_values", None)
            return

        self._selection = np.ones(len(self), dtype=bool)
""",
            )
        ],
        demo="",
        needs="",
        breaks="",
    ),
    dict(
        id="c15-class-wide-fix",
        property="C15",
        edits=[
            (
                "popsynth/utils/meta.py",
                """        obj._parameter_storage[self.name] = value

""",
                """        obj._parameter_storage[self.name] = value

        # what was valid once is not checked against anything smaller

        if self._vmax is not None and value == self._vmax:

            self._vmax = value + 1e-6 * abs(value)

""",
            )
        ],
        demo="",
        needs="",
        breaks="",
    ),
    dict(
        id="c15-nudged-limit",
        property="C15",
        edits=[
            (
                "popsynth/utils/meta.py",
                "            if not (value <= self._vmax):\n",
                "            if not (value < self._vmax):\n",
            )
        ],
        demo="""
from popsynth.selection_probability import BernoulliSelection, GalacticPlaneSelection
b = BernoulliSelection()
b.probability = 1
assert b.probability == 1
g = GalacticPlaneSelection()
g.b_limit = 90
assert g.b_limit == 90
""",
        needs="a parameter set to exactly its upper limit",
        breaks="the upper limit itself is refused",
    ),
    dict(
        id="c15-lower-limit-once",
        property="C15",
        edits=[
            (
                "popsynth/utils/meta.py",
                "        if self._vmin is not None:\n",
                "        if self._vmin is not None and self.name not in obj._parameter_storage:\n",
            )
        ],
        demo="""
d = popsynth.distributions.ParetoDistribution()
d.Lmin = 2.0
try:
    d.Lmin = -1.0
except RuntimeError:
    pass
assert d.Lmin == 2.0, d.Lmin
""",
        needs="a parameter set (or read) once and then set below its lower limit",
        breaks="the lower limit is only checked the first time",
    ),
    dict(
        id="c16-aux-latent-of-unobserved",
        property="C16",
        edits=[
            (
                POP,
                """            output["%s_obs" % k] = v["obs_values"][self._selection]
""",
                """            output["%s_obs" % k] = getattr(self, k).selected.latent
""",
            )
        ],
        demo=POPS
        + """
from popsynth.aux_samplers import NormalAuxSampler
ps = survey()
s = NormalAuxSampler("s")
ps.add_auxiliary_sampler(s)
ps.set_flux_selection(cut(1e-2))
pop = ps.draw_survey()
assert np.array_equal(np.array(pop.to_stan_data()["s_obs"]), np.array(pop.s)[pop.selection])
""",
        needs="an auxiliary quantity observed with noise",
        breaks="the export contains the true instead of the observed auxiliary values",
    ),
    dict(
        id="c17-clean-keeps-spatial",
        property="C17",
        edits=[
            (
                PS,
                """            if self._spatial_selector is not None:

                self._spatial_selector.reset()

        self._spatial_selector = None
""",
                """            if self._spatial_selector is not None:

                self._spatial_selector.reset()

        else:

            self._spatial_selector = None
""",
            )
        ],
        demo=POPS
        + """
from popsynth.selection_probability import GalacticPlaneSelection
ps = survey()
g = GalacticPlaneSelection()
g.b_limit = 45
ps.add_spatial_selector(g)
ps.draw_survey()
ps.clean(reset=True)
assert ps.draw_survey().n_detections == survey().draw_survey().n_detections
""",
        needs="a spatial selection, then clean(reset=True), then another survey",
        breaks="the spatial selection stays attached",
    ),
    dict(
        id="c17-second-draw-keeps-selector-values",
        property="C17",
        edits=[
            (
                SEL,
                """        self._observed_value = observed_value  # type: np.ndarray
""",
                """        if self._observed_value is None or len(self._observed_value) != len(
            observed_value
        ):

            self._observed_value = observed_value  # type: np.ndarray
""",
            )
        ],
        demo=POPS
        + """
from popsynth.aux_samplers import NormalAuxSampler
from popsynth.selection_probability import LowerBound
ps = survey()
s = NormalAuxSampler("s")
l = LowerBound(use_obs_value=True)
l.boundary = 0.0
s.set_selection_probability(l)
ps.add_auxiliary_sampler(s)
ps.draw_survey(n_samples=50)
s.mu = 1.0
pop = ps.draw_survey(n_samples=50)
assert np.array_equal(pop.selection, np.array(pop.s) >= 0)
""",
        needs="a second survey of the same size after a parameter of a sampler with a selection changed",
        breaks="the selection is made on the values of the first survey",
    ),
    dict(
        id="c18-sfr-late-peak",
        property="C18",
        edits=[
            (
                "popsynth/populations/spatial_populations.py",
                """        spatial_distribution.peak = peak
""",
                """        spatial_distribution.peak = min(peak, r_max)
""",
            )
        ],
        demo="""
ps = popsynth.populations.SFRPopulation(r0=1.0, a=1.0, rise=1.0, decay=4.0, peak=4.5, r_max=3.0, seed=2)
assert ps.spatial_distribution.peak == 4.5
""",
        needs="a star-formation population whose peak lies beyond the largest distance",
        breaks="the peak of the density is moved to r_max",
    ),
    dict(
        id="c19-silence-console-keeps-file",
        property="C19",
        edits=[
            (
                "popsynth/utils/logging.py",
                "        popsynth_usr_log_handler.setLevel(current_usr_logging_level)\n",
                "        popsynth_usr_log_handler.setLevel(current_console_logging_level)\n",
            )
        ],
        demo="""
import logging
import popsynth.utils.logging as L
L.popsynth_usr_log_handler.setLevel(logging.INFO)
L.popsynth_console_log_handler.setLevel(logging.WARNING)
with L.silence_console_log():
    pass
assert L.popsynth_usr_log_handler.level == logging.INFO
""",
        needs="different levels for the console and the file, then a temporary silence",
        breaks="the file log gets the level of the console afterwards",
    ),
    dict(
        id="c20-hidden-luminosities-latent",
        property="C20",
        edits=[
            (
                POP,
                """        bins = np.linspace(0, self._r_max, 40)
""",
                """        bins = np.linspace(0, np.floor(self._r_max), 40)
""",
            )
        ],
        demo=POPS
        + """
import matplotlib.pyplot as plt
ps = survey()
ps.spatial_distribution.r_max = 5.9
pop = ps.draw_survey()
fig, ax = plt.subplots()
pop.display_distances(ax=ax)
n = sum(p.get_height() for p in ax.containers[0])
assert n == pop.n_objects, (n, pop.n_objects)
""",
        needs="a maximum distance that is not a whole number",
        breaks="objects beyond the last whole distance are missing in the histogram",
    ),
    dict(
        id="c09-second-draw-sky",
        property="C09",
        edits=[
            (
                AUX,
                """        self._theta = value.theta
        self._phi = value.phi
""",
                """        if not hasattr(self, "_theta") or len(self._theta) != len(value.theta):

            self._theta = value.theta
            self._phi = value.phi

""",
            )
        ],
        demo="""
class Sky(popsynth.AuxiliarySampler if hasattr(popsynth, "AuxiliarySampler") else popsynth.auxiliary_sampler.AuxiliarySampler):
    _auxiliary_sampler_name = "DemoSky"
    def __init__(self):
        super().__init__("sky", observed=False, uses_sky_position=True)
    def true_sampler(self, size):
        self._true_values = np.array(self._theta)
ps = popsynth.populations.ParetoZPowerSphericalPopulation(Lambda=0.05, delta=1.0, Lmin=1, alpha=2, r_max=5, seed=3)
s = Sky()
ps.add_auxiliary_sampler(s)
ps.draw_survey(n_samples=40)
ps.spatial_distribution.delta = -2.0
pop = ps.draw_survey(n_samples=40)
assert np.array_equal(np.array(pop.sky), np.array(pop.theta))
""",
        needs="a sampler that uses the sky position and a second survey of the same size with other positions",
        breaks="the sampler sees the sky positions of the first survey",
    ),
    dict(
        id="c11-group-labels",
        property="C11",
        edits=[
            (
                "popsynth/utils/hdf5_utils.py",
                """                if ans[key] == "FILL_VALUE":
""",
                """                if ans[key] in ("FILL_VALUE", ""):
""",
            )
        ],
        demo="",
        needs="",
        breaks="",
    ),
    dict(
        id="c11-graph-of-leaf",
        property="C11",
        edits=[
            (
                "popsynth/utils/hdf5_utils.py",
                """        if len(v) == 0:

            new_dict[k] = fill_value
""",
                """        if len(v) == 0:

            new_dict[k] = fill_value

        elif len(new_dict) > 8:

            new_dict[k] = {x: fill_value for x in sorted(v)[:1]}
""",
            )
        ],
        demo="",
        needs="",
        breaks="",
    ),
    dict(
        id="c11-single-precision-aux",
        property="C11",
        edits=[
            (
                POP,
                """                "obs_values", data=v["obs_values"], compression="gzip"
""",
                """                "obs_values",
                data=v["obs_values"],
                dtype=q_grp["true_values"].dtype,
                compression="gzip",
""",
            )
        ],
        demo=POPS
        + """
from popsynth.aux_samplers import DeltaAuxSampler
from popsynth.population import Population
ps = survey()
s = DeltaAuxSampler("s")
s.xp = 3
s.sigma = 0.5
ps.add_auxiliary_sampler(s)
pop = ps.draw_survey()
pop.writeto("x.h5")
q = Population.from_file("x.h5")
assert np.array_equal(np.array(q.s), np.array(pop.s))
""",
        needs="an auxiliary quantity with integer true values and noisy observed values, saved and reloaded",
        breaks="the observed values are truncated to the type of the true values",
    ),
    dict(
        id="c12-shared-secondary",
        property="C12",
        edits=[
            (
                PS,
                """                tmp["secondary"] = list(v.secondary_samplers.keys())
""",
                """                tmp["secondary"] = [
                    x for x in v.secondary_samplers if x not in aux_samplers
                ]
""",
            )
        ],
        demo="",
        needs="",
        breaks="",
    ),
]
BUGS = [b for b in BUGS if b["demo"]]
