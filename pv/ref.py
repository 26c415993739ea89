"""Reference models, written from the documentation."""

import numpy as np
from scipy import special, stats

C_KM = 299792.458
MPC = 3.0857e24


# -------------------------------------------------------------- statistics

def ks_p(u):
    """p-value of a uniform sample."""
    u = np.asarray(u, dtype=float)
    if len(u) < 5:
        return 1.0
    return float(stats.kstest(u, "uniform").pvalue)


def ks2_p(a, b):
    return float(stats.ks_2samp(a, b, method="asymp").pvalue)


def poisson_p(k, mean):
    """Two-sided tail probability."""
    return float(min(1.0, 2 * min(stats.poisson.cdf(k, mean), stats.poisson.sf(k - 1, mean))))


def binom_p(k, n, p):
    return float(min(1.0, 2 * min(stats.binom.cdf(k, n, p), stats.binom.sf(k - 1, n, p))))


def corr_p(a, b):
    """p-value of the rank correlation of two samples."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if len(a) < 20 or len(np.unique(a)) < 5 or len(np.unique(b)) < 5:
        return 1.0
    r = stats.spearmanr(a, b).statistic
    z = abs(r) * np.sqrt(len(a) - 1)
    return float(2 * stats.norm.sf(z))


# --------------------------------------------------------------- cosmology

_GL = np.polynomial.legendre.leggauss(64)


def _quad(f, a, b):
    """Gauss-Legendre on [a, b], b may be an array."""
    b = np.asarray(b, dtype=float)
    x, w = _GL
    h = 0.5 * (b - a)
    pts = a + h[..., None] * (x + 1)
    return (f(pts) * w).sum(-1) * h


def E(z, Om):
    return np.sqrt(Om * (1 + z) ** 3 + 1 - Om)


def lum_distance_mpc(z, Om=0.307, h0=67.7):
    z = np.asarray(z, dtype=float)
    return (1 + z) * C_KM / h0 * _quad(lambda x: 1 / E(x, Om), 0.0, z)


def lum_distance_cm(z, Om=0.307, h0=67.7):
    return lum_distance_mpc(z, Om, h0) * MPC


def diff_volume(z, Om=0.307, h0=67.7):
    """Gpc^3 per unit redshift and steradian."""
    z = np.asarray(z, dtype=float)
    dm = lum_distance_mpc(z, Om, h0) / (1 + z)
    return C_KM / h0 * dm ** 2 / E(z, Om) * 1e-9


# ----------------------------------------------------------------- spatial

COSMO = ("ZPowerCosmoDistribution", "SFRDistribution", "UniformCosmoDistribution")
NORM = dict(ConstantSphericalDistribution="Lambda", ZPowerSphericalDistribution="Lambda",
            ZPowerCosmoDistribution="Lambda", SFRDistribution="r0",
            UniformCosmoDistribution="r0", PvBumpSphere="K")
DEFAULTS = dict(
    ConstantSphericalDistribution=dict(Lambda=1.0),
    ZPowerSphericalDistribution=dict(Lambda=1.0, delta=1.0),
    ZPowerCosmoDistribution=dict(Lambda=1.0),
    FlatlandDistribution=dict(Lambda=1.0),
    PvBumpSphere=dict(K=2.0, centre=1.0, width=0.5),
)


def spatial_params(s):
    p = dict(r_max=10.0)
    p.update(DEFAULTS.get(s["cls"], {}))
    p.update(s["params"])
    return p


def norm_name(s):
    return NORM.get(s["cls"])


def dndv(s, r, unit=False):
    p = spatial_params(s)
    if unit and norm_name(s):
        p[norm_name(s)] = 1.0
    r = np.asarray(r, dtype=float)
    c = s["cls"]
    if c in ("ConstantSphericalDistribution", "FlatlandDistribution"):
        return p["Lambda"] + 0 * r
    if c in ("ZPowerSphericalDistribution", "ZPowerCosmoDistribution"):
        return p["Lambda"] * (1 + r) ** p["delta"]
    if c == "SFRDistribution":
        return p["r0"] * (p["a"] + p["rise"] * r) / (1 + (r / p["peak"]) ** p["decay"])
    if c == "UniformCosmoDistribution":
        return p["r0"] / (p["zmax"] - p["zmin"]) + 0 * r
    if c == "SpiralGalaxyDistribution":
        t = p["R0"] + p["R1"]
        return p["rho"] * ((r + p["R1"]) / t) ** p["a"] * np.exp(-p["b"] * (r - p["R0"]) / t)
    if c == "PvBumpSphere":
        return p["K"] * np.exp(-0.5 * ((r - p["centre"]) / p["width"]) ** 2)
    raise KeyError(c)


def density(s, r, unit=False):
    """d N / d r"""
    r = np.asarray(r, dtype=float)
    c = s["cls"]
    d = dndv(s, r, unit)
    if c in COSMO:
        rate = True if s.get("rate") is None else s["rate"]
        return d * diff_volume(r) / ((1 + r) if rate else 1.0)
    if c == "FlatlandDistribution":
        return d
    if c == "PvBumpSphere":
        return d * 4 * np.pi * r ** 2 / (1 + 0.5 * r)
    return d * 4 * np.pi * r ** 2


def rmax(s):
    return spatial_params(s)["r_max"]


def cumulative(s, unit=False, n=4001):
    """Grid, cumulative integral on it (Simpson per cell)."""
    g = np.linspace(0, rmax(s), n)
    m = 0.5 * (g[1:] + g[:-1])
    f, fm = density(s, g, unit), density(s, m, unit)
    cell = (g[1:] - g[:-1]) / 6 * (f[1:] + f[:-1] + 4 * fm)
    return g, np.concatenate([[0], np.cumsum(cell)])


def integral(s, unit=False):
    return float(cumulative(s, unit)[1][-1])


def flux(s, L, d):
    L, d = np.asarray(L, float), np.asarray(d, float)
    c = s["cls"]
    if c in COSMO:
        return L / (4 * np.pi * lum_distance_cm(d) ** 2)
    if c == "FlatlandDistribution":
        return L
    if c == "PvBumpSphere":
        return L / (4 * np.pi * (d * d + 0.01))
    return L / (4 * np.pi * (1 + d) ** 2)


# -------------------------------------------------------------- luminosity

LUM_DEFAULTS = dict(ParetoDistribution=dict(Lmin=1.0, alpha=1.0),
                    SchechterDistribution=dict(Lmin=1.0, alpha=1.0))


def _pl(xa, xb, a):
    """int x^a over [xa, xb]"""
    if a == -1:
        return np.log(xb / xa)
    return (xb ** (a + 1) - xa ** (a + 1)) / (a + 1)


def lum_params(l):
    p = dict(LUM_DEFAULTS.get(l["cls"], {}))
    p.update(l["params"])
    return p


def lum_support(l):
    p = lum_params(l)
    c = l["cls"]
    if c == "ParetoDistribution":
        return p["Lmin"], np.inf
    if c in ("BPLDistribution", "LogUniLuminiosityDistribution"):
        return p["Lmin"], p["Lmax"]
    if c == "DeltaDistribution":
        return p["Lp"], p["Lp"]
    return 0.0, np.inf


def bpl_cdf(x, x0, x1, x2, a1, a2):
    x = np.asarray(x, float)
    A = _pl(x0, x1, a1)
    k = float(x1) ** (a1 - a2)
    B = k * _pl(x1, x2, a2)
    lo = _pl(x0, np.clip(x, x0, x1), a1)
    hi = k * _pl(x1, np.clip(x, x1, x2), a2)
    return (lo + hi) / (A + B)


def bpl_pdf(x, x0, x1, x2, a1, a2):
    x = np.asarray(x, float)
    A = _pl(x0, x1, a1)
    k = float(x1) ** (a1 - a2)
    B = k * _pl(x1, x2, a2)
    out = np.where(x < x1, x ** a1, k * x ** a2) / (A + B)
    return np.where((x >= x0) & (x <= x2), out, 0.0)


def lum_pdf(l, L):
    p = lum_params(l)
    L = np.asarray(L, float)
    c = l["cls"]
    if c == "ParetoDistribution":
        return np.where(L >= p["Lmin"], p["alpha"] / p["Lmin"] * (p["Lmin"] / L) ** (p["alpha"] + 1), 0.0)
    if c == "SchechterDistribution":
        return stats.gamma.pdf(L, 1 + p["alpha"], scale=p["Lmin"])
    if c == "BPLDistribution":
        return bpl_pdf(L, p["Lmin"], p["Lbreak"], p["Lmax"], p["alpha"], p["beta"])
    if c == "LogNormalDistribution":
        return stats.norm.pdf(np.log(L), p["mu"], p["tau"]) / L
    if c == "Log10NormalDistribution":
        return stats.norm.pdf(np.log10(L), p["mu"], p["tau"]) / (L * np.log(10))
    if c == "LogUniLuminiosityDistribution":
        return np.where((L >= p["Lmin"]) & (L <= p["Lmax"]), 1 / (L * np.log(p["Lmax"] / p["Lmin"])), 0.0)
    if c == "DeltaDistribution":
        return (L == p["Lp"]).astype(float)
    raise KeyError(c)


def lum_cdf(l, L):
    p = lum_params(l)
    L = np.asarray(L, float)
    c = l["cls"]
    if c == "ParetoDistribution":
        return 1 - (p["Lmin"] / np.maximum(L, p["Lmin"])) ** p["alpha"]
    if c == "SchechterDistribution":
        return special.gammainc(1 + p["alpha"], L / p["Lmin"])
    if c == "BPLDistribution":
        return bpl_cdf(L, p["Lmin"], p["Lbreak"], p["Lmax"], p["alpha"], p["beta"])
    if c == "LogNormalDistribution":
        return stats.norm.cdf(np.log(L), p["mu"], p["tau"])
    if c == "Log10NormalDistribution":
        return stats.norm.cdf(np.log10(L), p["mu"], p["tau"])
    if c == "LogUniLuminiosityDistribution":
        return np.log(np.clip(L, p["Lmin"], p["Lmax"]) / p["Lmin"]) / np.log(p["Lmax"] / p["Lmin"])
    raise KeyError(c)


# --------------------------------------------------------------- auxiliary

AUX_DEFAULTS = dict(
    DeltaAuxSampler=dict(xp=0.0, sigma=1.0),
    NormalAuxSampler=dict(mu=0.0, tau=1.0, sigma=1.0),
    LogNormalAuxSampler=dict(mu=0.0, tau=1.0, sigma=1.0),
    Log10NormalAuxSampler=dict(mu=0.0, tau=1.0, sigma=1.0),
    TruncatedNormalAuxSampler=dict(mu=0.0, tau=1.0, sigma=1.0),
    TruncatedLogNormalAuxSampler=dict(mu=0.0, tau=1.0, sigma=1.0),
    TruncatedLog10NormalAuxSampler=dict(mu=0.0, tau=1.0, sigma=1.0),
    ParetoAuxSampler=dict(xmin=1.0, alpha=1.0, sigma=1.0),
    PowerLawAuxSampler=dict(xmin=1.0, xmax=2.0, alpha=1.0, sigma=1.0),
    BrokenPowerLawAuxSampler=dict(sigma=1.0),
    ViewingAngleSampler=dict(max_angle=90.0),
)


def aux_params(n):
    p = dict(AUX_DEFAULTS.get(n["cls"], {}))
    p.update(n["params"])
    return p


def _trunc(y, mu, tau, a, b):
    # symmetric evaluation keeps precision in either tail
    za, zb, z = (a - mu) / tau, (b - mu) / tau, (np.clip(y, a, b) - mu) / tau
    if za > 0:
        za, zb, z = -zb, -za, -z
        fa, fb = special.ndtr(za), special.ndtr(zb)
        return (fb - special.ndtr(z)) / (fb - fa)
    fa, fb = special.ndtr(za), special.ndtr(zb)
    return (special.ndtr(z) - fa) / (fb - fa)


def aux_cdf(n, x):
    """CDF of the documented law of true values; None for point masses."""
    p = aux_params(n)
    c = n["cls"]
    x = np.asarray(x, float)
    if c == "DeltaAuxSampler" or (p.get("tau") == 0):
        return None
    if c == "NormalAuxSampler":
        return special.ndtr((x - p["mu"]) / p["tau"])
    if c == "LogNormalAuxSampler":
        return special.ndtr((np.log(x) - p["mu"]) / p["tau"])
    if c == "Log10NormalAuxSampler":
        return special.ndtr((np.log10(x) - p["mu"]) / p["tau"])
    if c == "TruncatedNormalAuxSampler":
        return _trunc(x, p["mu"], p["tau"], p["lower"], p["upper"])
    if c in ("TruncatedLogNormalAuxSampler", "TruncatedLog10NormalAuxSampler"):
        f = np.log if c == "TruncatedLogNormalAuxSampler" else np.log10
        a = f(p["lower"]) if p["lower"] > 0 else p["mu"] - 40 * p["tau"]
        return _trunc(f(x), p["mu"], p["tau"], a, f(p["upper"]))
    if c == "ParetoAuxSampler":
        return 1 - (p["xmin"] / np.maximum(x, p["xmin"])) ** p["alpha"]
    if c == "PowerLawAuxSampler":
        return _pl(p["xmin"], np.clip(x, p["xmin"], p["xmax"]), p["alpha"]) / _pl(p["xmin"], p["xmax"], p["alpha"])
    if c == "BrokenPowerLawAuxSampler":
        return bpl_cdf(x, p["xmin"], p["xbreak"], p["xmax"], p["alpha"], p["beta"])
    if c == "ViewingAngleSampler":
        return (1 - np.cos(x)) / (1 - np.cos(np.deg2rad(p["max_angle"])))
    if c == "RASampler":
        return x / (2 * np.pi)
    if c == "DecSampler":
        return 0.5 * (1 + np.sin(x))
    raise KeyError(c)


def aux_point(n):
    """The value of a law that is a point mass."""
    p = aux_params(n)
    return {"DeltaAuxSampler": lambda: p["xp"], "NormalAuxSampler": lambda: p["mu"],
            "LogNormalAuxSampler": lambda: np.exp(p["mu"]),
            "Log10NormalAuxSampler": lambda: 10.0 ** p["mu"]}[n["cls"]]()


def aux_support(n):
    p = aux_params(n)
    c = n["cls"]
    if c.startswith("Truncated"):
        return p["lower"], p["upper"]
    if c == "ParetoAuxSampler":
        return p["xmin"], np.inf
    if c in ("PowerLawAuxSampler", "BrokenPowerLawAuxSampler"):
        return p["xmin"], p["xmax"]
    if c in ("LogNormalAuxSampler", "Log10NormalAuxSampler"):
        return 0.0, np.inf
    if c == "ViewingAngleSampler":
        return 0.0, np.deg2rad(p["max_angle"])
    if c == "RASampler":
        return 0.0, 2 * np.pi
    if c == "DecSampler":
        return -np.pi / 2, np.pi / 2
    return -np.inf, np.inf
