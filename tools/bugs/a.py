PS = "popsynth/population_synth.py"
POP = "popsynth/population.py"
DI = "popsynth/distribution.py"
AUX = "popsynth/auxiliary_sampler.py"
SEL = "popsynth/selection_probability/selection_probability.py"
GEN = "popsynth/selection_probability/generic_selectors.py"

BUGS = [
    dict(
        id="c01-spatial-only-when-others-hide",
        property="C01",
        edits=[
            (
                PS,
                """        if self._spatial_selector is not None:

            self._spatial_selector.set_spatial_distribution(
                self._spatial_distribution
            )
""",
                """        if (
            self._spatial_selector is not None
            and 0 < global_selection.n_selected < n
        ):

            self._spatial_selector.set_spatial_distribution(
                self._spatial_distribution
            )
""",
            )
        ],
        demo="""
from popsynth.selection_probability import GalacticPlaneSelection
ps = popsynth.populations.ParetoHomogeneousSphericalPopulation(Lambda=0.05, Lmin=1, alpha=2, r_max=5, seed=3)
s = GalacticPlaneSelection()
s.b_limit = 30
ps.add_spatial_selector(s)
pop = ps.draw_survey()
from astropy.coordinates import SkyCoord
b = SkyCoord(np.array(pop.ra), np.array(pop.dec), unit="deg").galactic.b.deg
want = np.abs(b) >= 30
assert (pop.selection == want).all(), (pop.selection.sum(), want.sum())
""",
        needs="a spatial selection and nothing else that hides an object",
        breaks="the galactic plane selection is skipped when flux and auxiliary selections hide nothing, so objects in the plane are marked detected",
    ),
    dict(
        id="c02-progress-draw-order",
        property="C02",
        edits=[
            (
                DI,
                """                    y = np.random.uniform(low=0, high=ymax)  # type: float

                    # get an rvs from 0 to the maximum distance

                    r = np.random.uniform(low=0, high=self.r_max)  # type: float
""",
                """                    r = np.random.uniform(low=0, high=self.r_max)  # type: float

                    # get an rvs from 0 to the maximum distance

                    y = np.random.uniform(low=0, high=ymax)  # type: float
""",
            )
        ],
        demo="""
from popsynth.utils.logging import show_progress_bars, silence_progress_bars
def draw():
    return popsynth.populations.ParetoHomogeneousSphericalPopulation(Lambda=0.02, Lmin=1, alpha=2, r_max=5, seed=3).draw_survey()
silence_progress_bars()
a = draw()
show_progress_bars()
b = draw()
assert np.array_equal(np.array(a.distances), np.array(b.distances))
""",
        needs="the same survey drawn with the progress bar on and off",
        breaks="with the progress bar the random numbers are used in another order, so the same seed gives other distances than without it",
    ),
    dict(
        id="c03-zero-samples",
        property="C03",
        edits=[(PS, "        if n_samples is None:\n", "        if not n_samples:\n")],
        demo="""
ps = popsynth.populations.ParetoHomogeneousSphericalPopulation(Lambda=0.05, Lmin=1, alpha=2, r_max=5, seed=3)
pop = ps.draw_survey(n_samples=0)
assert pop.n_objects == 0, pop.n_objects
""",
        needs="a survey requested with n_samples=0",
        breaks="a request of zero objects is treated as no request, so a Poisson number of objects is drawn",
    ),
    dict(
        id="c04-maximum-inside-default-range",
        property="C04",
        edits=[
            (
                DI,
                """        tmp = np.linspace(
            0.0, self.r_max, 500, dtype=np.float64
        )  # type: ArrayLike
""",
                """        tmp = np.linspace(
            0.0,
            min(self.r_max, type(self).r_max_scan),
            500,
            dtype=np.float64,
        )  # type: ArrayLike
""",
            ),
            (
                DI,
                """    _distribution_name = "SpatialDistribution"

    r_max = DistributionParameter(vmin=0, default=10)
""",
                """    _distribution_name = "SpatialDistribution"
    r_max_scan = 10.0

    r_max = DistributionParameter(vmin=0, default=10)
""",
            ),
        ],
        demo="""
d = popsynth.distributions.ConstantSphericalDistribution()
d.Lambda = 1.0
d.r_max = 20.0
np.random.seed(1)
d.draw_distance(4000)
# uniform in volume: half of the objects beyond r_max / 2**(1/3)
f = np.mean(d.distances > 20 / 2 ** (1 / 3))
assert abs(f - 0.5) < 0.05, f
""",
        needs="a density that peaks beyond a distance of 10, so r_max larger than 10",
        breaks="the maximum of the density is searched only up to a distance of 10, so for larger surveys the far objects are under-represented",
    ),
    dict(
        id="c04-spiral-one-side",
        property="C04",
        edits=[
            (
                "popsynth/distributions/spiral_galaxy_distribution.py",
                "        zpos *= np.random.choice([-1, 1], size=size)\n",
                "        zpos *= np.random.choice([-1, 1])\n",
            )
        ],
        demo="""
d = popsynth.distributions.SpiralGalaxyDistribution()
d.rho, d.a, d.b, d.R1, d.R0, d.r_max = 1.0, 1.64, 4.01, 0.55, 8.5, 15.0
np.random.seed(1)
d.draw_distance(400)
d.draw_sky_positions(400)
f = np.mean(d.theta > np.pi / 2)
assert 0.3 < f < 0.7, f
""",
        needs="looking at the sides of the galactic mid-plane of a spiral galaxy population of more than one object",
        breaks="all objects of a spiral galaxy lie on the same side of the plane",
    ),
    dict(
        id="c05-probability-of-unselected",
        property="C05",
        edits=[
            (
                PS,
                """            # unity selections don't add anything

            if isinstance(v["selection"], UnitySelection):
""",
                """            # unity selections don't add anything

            probability *= v["probability"]

            if isinstance(v["selection"], UnitySelection):
""",
            ),
            (
                PS,
                """                continue

            probability *= v["probability"]

            auxiliary_selection += v["selection"]
""",
                """                continue

            auxiliary_selection += v["selection"]
""",
            ),
        ],
        demo="""
from popsynth.aux_samplers import ViewingAngleSampler
def draw(aux):
    ps = popsynth.populations.ParetoHomogeneousSphericalPopulation(Lambda=0.05, Lmin=1, alpha=2, r_max=5, seed=3)
    if aux:
        v = ViewingAngleSampler()
        v.max_angle = 60.0
        ps.add_auxiliary_sampler(v)
    return ps.draw_survey()
a, b = draw(False), draw(True)
assert np.allclose(np.array(a.probability), np.array(b.probability))
""",
        needs="an auxiliary sampler with a density of its own (the viewing angle) and no selection",
        breaks="the recorded probability of objects includes the density of auxiliary samplers that have no selection",
    ),
    dict(
        id="c05-lognormal-width",
        property="C05",
        edits=[
            (
                "popsynth/distributions/log_normal_distribution.py",
                "np.random.lognormal(mean=self.mu, sigma=self.tau, size=size)",
                "np.random.lognormal(mean=self.mu, sigma=self.tau**2, size=size)",
            )
        ],
        demo="""
d = popsynth.distributions.LogNormalDistribution()
d.mu, d.tau = 1.0, 0.5
np.random.seed(2)
x = np.log(d.draw_luminosity(4000))
assert abs(np.std(x) - 0.5) < 0.04, np.std(x)
""",
        needs="a log-normal luminosity distribution with a width other than one",
        breaks="luminosities are drawn with the square of the width, while the reported density uses the width",
    ),
    dict(
        id="c06-common-scatter",
        property="C06",
        edits=[
            (
                PS,
                """                    log10_fluxes_obs = self.draw_log_fobs(
                        fluxes, flux_sigma, size=n
                    )  # type: np.ndarray
""",
                """                    log10_fluxes_obs = self.draw_log_fobs(
                        fluxes, flux_sigma
                    )  # type: np.ndarray
""",
            )
        ],
        demo="""
from popsynth.selection_probability import HardFluxSelection
ps = popsynth.populations.ParetoHomogeneousSphericalPopulation(Lambda=0.05, Lmin=1, alpha=2, r_max=5, seed=3)
s = HardFluxSelection()
s.boundary = 1e-3
ps.set_flux_selection(s)
pop = ps.draw_survey(flux_sigma=0.3, log10_flux_draw=False)
r = np.log(np.array(pop.fluxes) / np.array(pop.fluxes.latent))
assert np.std(r) > 0.1, np.std(r)
""",
        needs="a survey with a flux selection, a flux error and natural logarithms requested",
        breaks="all objects share one measurement error instead of independent ones",
    ),
    dict(
        id="c07-dark-energy-of-configured-universe",
        property="C07",
        edits=[
            (
                "popsynth/utils/cosmology.py",
                "        return 1 - self.Om - (Onu0 + Ogamma0)\n",
                "        return Ode0\n",
            ),
            (
                "popsynth/utils/cosmology.py",
                "Ogamma0 = cosmo.Ogamma0\n",
                'Ogamma0 = cosmo.Ogamma0\nOde0 = 1 - popsynth_config["cosmology"]["Om"] - (Onu0 + Ogamma0)\n',
            ),
        ],
        demo="""
from popsynth.utils.cosmology import cosmology
cosmology.Om = 0.6
z = 1.5
dh = 299792.458 / cosmology.h0
dl = cosmology.luminosity_distance(z) / 3.086e24
want = dh * (dl / (1 + z)) ** 2 / np.sqrt(0.6 * (1 + z) ** 3 + 0.4) * 1e-9
got = cosmology.differential_comoving_volume(z)
assert abs(got / want - 1) < 0.01, got / want
""",
        needs="the matter density changed after import",
        breaks="the dark energy density stays that of the configuration file, so volumes are wrong after changing the matter density",
    ),
    dict(
        id="c08-wide-viewing-angle",
        property="C08",
        edits=[
            (
                "popsynth/aux_samplers/viewing_angle_sampler.py",
                "        self._true_values = np.arccos(1.0 - theta_inverse)\n",
                "        self._true_values = np.arcsin(\n            np.sqrt(theta_inverse * (2.0 - theta_inverse))\n        )\n",
            )
        ],
        demo="""
v = popsynth.aux_samplers.ViewingAngleSampler()
v.max_angle = 150.0
np.random.seed(1)
v.true_sampler(2000)
x = np.rad2deg(v.true_values)
assert x.max() > 120, x.max()
""",
        needs="a maximum viewing angle above 90 degrees",
        breaks="viewing angles never exceed 90 degrees, whatever the maximum",
    ),
    dict(
        id="c09-sibling-secondaries",
        property="C09",
        edits=[
            (
                AUX,
                """                recursive_secondaries += v.get_secondary_properties(
                    graph, k, spatial_distribution
                )
""",
                """                deeper = v.get_secondary_properties(
                    graph, k, spatial_distribution
                )

                if v.has_secondary or recursive_secondaries.empty():

                    recursive_secondaries = deeper

                else:

                    recursive_secondaries += deeper
""",
            )
        ],
        demo="""
from popsynth.aux_samplers import NormalAuxSampler
def mk(name):
    s = NormalAuxSampler(name)
    return s
top, a, b, c = mk("top"), mk("a"), mk("b"), mk("c")
b.set_secondary_sampler(c)
top.set_secondary_sampler(a)
top.set_secondary_sampler(b)
ps = popsynth.populations.ParetoHomogeneousSphericalPopulation(Lambda=0.05, Lmin=1, alpha=2, r_max=5, seed=3)
ps.add_auxiliary_sampler(top)
pop = ps.draw_survey()
for n in ["top", "a", "b", "c"]:
    assert hasattr(pop, n), n
""",
        needs="a sampler with two dependencies of which the second has a dependency itself",
        breaks="the values (and the selection) of the earlier dependency are lost from the population",
    ),
    dict(
        id="c10-conjunction-in-place",
        property="C10",
        edits=[
            (
                SEL,
                "        new_selection = np.logical_and(self._selection, other.selection)\n",
                "        # no need for another array, the mask is only combined further\n        new_selection = np.logical_and(\n            self._selection, other.selection, out=other.selection\n        )\n",
            )
        ],
        demo="""
from popsynth.selection_probability import LowerBound, UpperBound
x = np.arange(10.0)
a, b = LowerBound(use_obs_value=True), UpperBound(use_obs_value=True)
a.boundary, b.boundary = 3.0, 6.0
for s in (a, b):
    s.set_observed_value(x)
    s.select(10)
c = a + b
assert c.n_selected == 4
assert b.n_selected == 7, b.n_selected
""",
        needs="looking at a selection after it was combined into another",
        breaks="combining two selections overwrites the mask of the right one",
    ),
    dict(
        id="c10-index-kept",
        property="C10",
        edits=[
            (
                SEL,
                """    def selection_index(self) -> np.ndarray:
        return np.where(self._selection)[0]
""",
                """    def selection_index(self) -> np.ndarray:
        if self._index is None:
            self._index = np.where(self._selection)[0]
        return self._index
""",
            ),
            (
                SEL,
                "        self._selection = None  # type: np.ndarray\n        self._is_sampled: bool = False\n",
                "        self._selection = None  # type: np.ndarray\n        self._index = None\n        self._is_sampled: bool = False\n",
            ),
        ],
        demo="""
from popsynth.selection_probability import LowerBound
a = LowerBound(use_obs_value=True)
a.boundary = 3.0
a.set_observed_value(np.arange(10.0))
a.select(10)
assert len(a.selection_index) == a.n_selected
a.reset()
a.set_observed_value(np.arange(5.0))
a.select(5)
assert len(a.selection_index) == a.n_selected == 2, a.selection_index
""",
        needs="the index list read, the selector reset and drawn again",
        breaks="the list of selected objects stays that of the first draw, also for the known distances of a second survey",
    ),
    dict(
        id="c11-zero-flux-error",
        property="C11",
        edits=[
            (
                POP,
                """        f.attrs["flux_sigma"] = self._flux_sigma
""",
                """        if self._flux_sigma > 0:

            f.attrs["flux_sigma"] = self._flux_sigma

""",
            ),
            (POP, """        flux_sigma = f.attrs["flux_sigma"]
""", """        flux_sigma = f.attrs.get("flux_sigma", -1)
"""),
        ],
        demo="""
from popsynth.selection_probability import HardFluxSelection
from popsynth.population import Population
ps = popsynth.populations.ParetoHomogeneousSphericalPopulation(Lambda=0.05, Lmin=1, alpha=2, r_max=5, seed=3)
s = HardFluxSelection()
s.boundary = 1e-3
ps.set_flux_selection(s)
pop = ps.draw_survey(flux_sigma=0.0)
pop.writeto("x.h5")
q = Population.from_file("x.h5")
assert q.flux_sigma == pop.flux_sigma, (q.flux_sigma, pop.flux_sigma)
""",
        needs="a survey drawn with a flux error of exactly zero, saved and reloaded",
        breaks="the flux error comes back as the dummy value -1",
    ),
    dict(
        id="c12-zero-parameters",
        property="C12",
        edits=[
            (
                PS,
                """                for k, v in params.items():

                    log.debug(f"trying to set {k} to {v}")

                    for x in tmp.__class__.mro():
""",
                """                for k, v in params.items():

                    if not v:

                        # nothing given, leave the default

                        continue

                    for x in tmp.__class__.mro():
""",
            )
        ],
        demo="""
from popsynth.aux_samplers import NormalAuxSampler
ps = popsynth.populations.ParetoHomogeneousSphericalPopulation(Lambda=0.05, Lmin=1, alpha=2, r_max=5, seed=3)
s = NormalAuxSampler("s")
s.mu, s.tau, s.sigma = 2.0, 1.0, 0.0
ps.add_auxiliary_sampler(s)
ps.write_to("x.yml")
q = popsynth.PopulationSynth.from_file("x.yml")
a, b = ps.draw_survey(), q.draw_survey()
assert np.array_equal(np.array(a.s), np.array(b.s))
""",
        needs="an auxiliary sampler with a parameter set to zero whose default is not zero",
        breaks="parameters that are zero are not restored from a document, the default is used",
    ),
    dict(
        id="c15-zero-reads-default",
        property="C15",
        edits=[
            (
                "popsynth/utils/meta.py",
                "            if obj._parameter_storage[self.name] is None:\n",
                "            if not obj._parameter_storage[self.name]:\n",
            )
        ],
        demo="""
d = popsynth.distributions.ParetoDistribution()
d.alpha = 0.0
assert d.alpha == 0, d.alpha
d = popsynth.aux_samplers.NormalAuxSampler("x")
d.sigma = 0
assert d.sigma == 0, d.sigma
""",
        needs="a parameter set to zero whose default is something else",
        breaks="zero is read back as the default",
    ),
    dict(
        id="c16-one-based-in-place",
        property="C16",
        edits=[
            (
                POP,
                """        # create a dict for Stan
        output = dict(
""",
                """        # Stan counts from one
        known_idx = self._known_distance_idx
        unknown_idx = self._unknown_distance_idx
        known_idx += 1
        unknown_idx += 1

        # create a dict for Stan
        output = dict(
""",
            ),
            (
                POP,
                """            z_idx=self._known_distance_idx + 1,  # stan indexing
            z_nidx=self._unknown_distance_idx + 1,  # stan indexing
""",
                """            z_idx=known_idx,
            z_nidx=unknown_idx,
""",
            ),
            (
                POP,
                """            r_idx=self._known_distance_idx + 1,  # stan indexing
            r_nidx=self._unknown_distance_idx + 1,  # stan indexing
""",
                """            r_idx=known_idx,
            r_nidx=unknown_idx,
""",
            ),
        ],
        demo="""
ps = popsynth.populations.ParetoHomogeneousSphericalPopulation(Lambda=0.05, Lmin=1, alpha=2, r_max=5, seed=3)
pop = ps.draw_survey()
a = {k: np.array(v) for k, v in pop.to_stan_data().items()}
b = {k: np.array(v) for k, v in pop.to_stan_data().items()}
for k in a:
    assert np.array_equal(a[k], b[k]), k
""",
        needs="exporting the same population twice, or saving it after an export",
        breaks="each export shifts the population's own distance indices by one",
    ),
]
