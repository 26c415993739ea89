"""User-defined classes, written as the documentation tells users to."""

import numpy as np

import popsynth
from popsynth.auxiliary_sampler import (
    AuxiliaryParameter,
    AuxiliarySampler,
    DerivedLumAuxSampler,
    NonObservedAuxSampler,
)
from popsynth.distribution import (
    DistributionParameter,
    LuminosityDistribution,
    SpatialDistribution,
)


def combine(scale, secs, coef, distance=None, luminosity=None, dec=None):
    """The documented relation of the samplers below."""
    out = None
    for i, s in enumerate(secs):
        t = np.tanh(np.asarray(s, dtype=float) / 3.0) * (i + 1) * coef
        out = t if out is None else out + t
    if out is None:
        out = 0.0
    out = out + scale
    if distance is not None:
        out = out + np.log1p(np.asarray(distance, dtype=float))
    if luminosity is not None:
        out = out + 0.1 * np.log10(np.asarray(luminosity, dtype=float))
    if dec is not None:
        out = out + np.asarray(dec, dtype=float) / 90.0
    return out


class _Dep(AuxiliarySampler):
    """true = combine(...), obs = true + 0.25"""

    _auxiliary_sampler_name = "_PvDep"

    scale = AuxiliaryParameter(default=1.0)
    coef = AuxiliaryParameter(default=0.5, vmin=0)

    _D = False
    _L = False
    _S = False

    def __init__(self, name, observed=True):
        super(_Dep, self).__init__(
            name=name,
            observed=observed,
            uses_distance=self._D,
            uses_luminosity=self._L,
            uses_sky_position=self._S,
        )
        self.pv_draws = 0
        self.pv_seen = None

    def true_sampler(self, size):
        self.pv_draws += 1
        seen = dict(
            sec={
                k: (np.array(v.true_values), np.array(v.obs_values))
                for k, v in self._secondary_samplers.items()
            }
        )
        kw = {}
        if self._D:
            kw["distance"] = self._distance
            seen["distance"] = np.array(self._distance)
            seen["lumdist"] = np.array(self.luminosity_distance)
        if self._L:
            kw["luminosity"] = self._luminosity
            seen["luminosity"] = np.array(self._luminosity)
        if self._S:
            kw["dec"] = self._dec
            seen["dec"] = np.array(self._dec)
            seen["ra"] = np.array(self._ra)
            seen["theta"] = np.array(self._theta)
            seen["phi"] = np.array(self._phi)
        self.pv_seen = seen
        out = combine(
            self.scale,
            [v.true_values for v in self._secondary_samplers.values()],
            self.coef,
            **kw,
        )
        self._true_values = np.zeros(size) + out

    def observation_sampler(self, size):
        if self._is_observed:
            self._obs_values = self._true_values + 0.25
        else:
            self._obs_values = self._true_values


class PvDep(_Dep):
    _auxiliary_sampler_name = "PvDep"


class PvDepD(_Dep):
    _auxiliary_sampler_name = "PvDepD"
    _D = True


class PvDepL(_Dep):
    _auxiliary_sampler_name = "PvDepL"
    _L = True


class PvDepDL(_Dep):
    _auxiliary_sampler_name = "PvDepDL"
    _D = True
    _L = True


class PvDepS(_Dep):
    _auxiliary_sampler_name = "PvDepS"
    _D = True
    _S = True


class PvDerived(DerivedLumAuxSampler):
    """true ~ N(mu, tau); L = 10^(true + sum tanh(secondary))."""

    _auxiliary_sampler_name = "PvDerived"

    mu = AuxiliaryParameter(default=2.0)
    tau = AuxiliaryParameter(default=0.5, vmin=0)

    _D = False

    def __init__(self, name="pvlum"):
        super(PvDerived, self).__init__(name, uses_distance=self._D)
        self.pv_draws = 0
        self.pv_seen = None

    def true_sampler(self, size):
        self.pv_draws += 1
        self.pv_seen = dict(
            sec={
                k: (np.array(v.true_values), np.array(v.obs_values))
                for k, v in self._secondary_samplers.items()
            }
        )
        if self._D:
            self.pv_seen["distance"] = np.array(self._distance)
        self._true_values = np.random.normal(self.mu, self.tau, size=size)

    def compute_luminosity(self):
        return derived_luminosity(
            self._true_values,
            [v.true_values for v in self._secondary_samplers.values()],
            self._distance if self._D else None,
        )


class PvDerivedD(PvDerived):
    _auxiliary_sampler_name = "PvDerivedD"
    _D = True


def derived_luminosity(true, secs, distance=None):
    e = np.asarray(true, dtype=float)
    for s in secs:
        e = e + 0.3 * np.tanh(np.asarray(s, dtype=float) / 3.0)
    if distance is not None:
        e = e + 0.2 * np.asarray(distance, dtype=float) / (
            1 + np.asarray(distance, dtype=float)
        )
    return np.power(10.0, e)


class PvBumpSphere(SpatialDistribution):
    """A user-defined spatial distribution with a named normalization."""

    _distribution_name = "PvBumpSphere"

    K = DistributionParameter(default=2.0, vmin=0, is_normalization=True)
    centre = DistributionParameter(default=1.0, vmin=0)
    width = DistributionParameter(default=0.5, vmin=0)

    def __init__(self, seed=1234, name="pvbump"):
        super(PvBumpSphere, self).__init__(seed=seed, name=name, form="bump")

    def differential_volume(self, r):
        return 4 * np.pi * r * r

    def dNdV(self, r):
        return self.K * np.exp(-0.5 * ((r - self.centre) / self.width) ** 2)

    def time_adjustment(self, r):
        return 1.0 + 0.5 * r

    def transform(self, L, r):
        return L / (4.0 * np.pi * (r * r + 0.01))


BY_NAME = dict(
    PvDep=PvDep, PvDepD=PvDepD, PvDepL=PvDepL, PvDepDL=PvDepDL, PvDepS=PvDepS,
    PvDerived=PvDerived, PvDerivedD=PvDerivedD, PvBumpSphere=PvBumpSphere,
)


class PvSky(SpatialDistribution):
    """Objects at stated places."""

    _distribution_name = "PvSky"

    r_limit = DistributionParameter(default=1.0, vmin=0)

    def __init__(self, theta=(), phi=(), distances=(), seed=1234, name="pvsky"):
        super(PvSky, self).__init__(seed=seed, name=name, form="points")
        self._pv = (np.array(theta, dtype=float), np.array(phi, dtype=float),
                    np.array(distances, dtype=float))
        self.draw_sky_positions(None)
        self.draw_distance(None)

    def differential_volume(self, r):
        return r * 0 + 1.0

    def dNdV(self, r):
        return r * 0 + 1.0

    def time_adjustment(self, r):
        return r * 0 + 1.0

    def transform(self, L, r):
        return L

    def draw_sky_positions(self, size):
        self._theta, self._phi = self._pv[0], self._pv[1]

    def draw_distance(self, size, normalize=False):
        self._distances = self._pv[2]


class PvInit(AuxiliarySampler):
    """A sampler with arguments of its own."""

    _auxiliary_sampler_name = "PvInit"

    mu = AuxiliaryParameter(default=0.5)

    def __init__(self, name, observed=True, shift=0.0, noisy=False):
        super(PvInit, self).__init__(name=name, observed=observed)
        self.pv_shift = shift
        self.pv_noisy = noisy

    def true_sampler(self, size):
        self._true_values = np.random.normal(self.mu, 1.0, size=size) + self.pv_shift

    def observation_sampler(self, size):
        self._obs_values = self._true_values
        if self._is_observed and self.pv_noisy:
            self._obs_values = self._true_values + np.random.normal(0, 0.1, size=size)


BY_NAME["PvInit"] = PvInit
