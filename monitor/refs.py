"""
References that are independent of the code under test: densities,
distribution functions, an exact flat universe, rotations.
"""
import numpy as np
from scipy import integrate, special, stats

C_KMS = 299792.458
MPC_CM = 3.0856775814913673e24

# ---------------------------------------------------------- cosmology


class Cosmo:
    """Flat universe of matter and a cosmological constant."""

    def __init__(self, om=0.307, h0=67.7, zmax=12.0, n=6001):
        self.om, self.h0 = om, h0
        self.dh = C_KMS / h0
        z = np.concatenate([[0.0], np.geomspace(1e-6, zmax, n)])
        f = 1.0 / self.E(z)
        # Simpson on each interval
        m = 0.5 * (z[1:] + z[:-1])
        seg = (z[1:] - z[:-1]) / 6.0 * (f[1:] + f[:-1] + 4.0 / self.E(m))
        self._z, self._d = z, np.concatenate([[0.0], np.cumsum(seg)])

    def E(self, z):
        return np.sqrt(self.om * (1 + z) ** 3 + 1 - self.om)

    def dc(self, z):
        """comoving distance in Mpc"""
        return self.dh * np.interp(z, self._z, self._d)

    def dl_cm(self, z):
        return (1 + z) * self.dc(z) * MPC_CM

    def dvdz(self, z):
        """Gpc^3 per sr"""
        return self.dh * self.dc(z) ** 2 / self.E(z) * 1e-9


DEFAULT_COSMO = Cosmo()

# ------------------------------------------------------------ spatial

SPATIAL_DEFAULTS = {
    "cons_sphere": dict(Lambda=1, r_max=10),
    "zpow_sphere": dict(Lambda=1, delta=1, r_max=10),
    "zpow_cosmo": dict(Lambda=1, r_max=10),
    "sfr": dict(r_max=10),
    "uniform_cosmo": dict(r_max=10),
    "flatland": dict(Lambda=1, r_max=10),
    "spiral": dict(r_max=10),
    "shell": dict(K=2.5, c=2.0, w=1.5, r_max=10),
    "plain": dict(q=0.7, r_max=10),
}
NORMALIZATION = {
    "cons_sphere": "Lambda", "zpow_sphere": "Lambda", "zpow_cosmo": "Lambda",
    "sfr": "r0", "uniform_cosmo": "r0", "shell": "K",
}
SPATIAL_NAME = {
    "cons_sphere": "cons_sphere", "zpow_sphere": "zpow_sphere", "zpow_cosmo": "zpow_cosmo", "sfr": "sfr",
    "uniform_cosmo": "uniform_cosmo", "flatland": "flatland", "spiral": "spiral_galaxy", "shell": "mon_shell", "plain": "mon_plain",
}
LUM_NAME = {
    "pareto": "pareto", "schechter": "schechter", "bpl": "bpl", "lognorm": "lognorm", "log10norm": "log10norm",
    "delta": "delta", "loguni": "logunilum", "monlum": "mon_lum",
}


def spatial_name(d):
    return d.get("name") or SPATIAL_NAME[d["kind"]]


def lum_name(d):
    return d.get("name") or LUM_NAME[d["kind"]]


def spatial_params(d):
    P = dict(SPATIAL_DEFAULTS[d["kind"]])
    P.update(d["params"])
    return P


def spatial_density(d, unit=False, cosmo=DEFAULT_COSMO):
    """density times differential volume over time adjustment"""
    k = d["kind"]
    P = spatial_params(d)
    if unit and k in NORMALIZATION:
        P[NORMALIZATION[k]] = 1.0
    if k == "cons_sphere":
        return lambda r: P["Lambda"] * 4 * np.pi * r**2 + 0.0 * r
    if k == "zpow_sphere":
        return lambda r: P["Lambda"] * (1.0 + r) ** P["delta"] * 4 * np.pi * r**2
    if k == "flatland":
        return lambda r: P["Lambda"] + 0.0 * r
    if k == "spiral":
        s = P["R0"] + P["R1"]
        return lambda r: P["rho"] * ((r + P["R1"]) / s) ** P["a"] * np.exp(-P["b"] * (r - P["R0"]) / s) * 4 * np.pi * r**2
    if k == "shell":
        return lambda r: P["K"] * np.exp(-(((r - P["c"]) / P["w"]) ** 2)) * (1 + r) / (1 + 0.3 * r)
    if k == "plain":
        return lambda r: P["q"] * (1 + 0.5 * np.cos(r)) * 2 * r
    rate = d.get("is_rate", True)

    def adj(z):
        return (1.0 + z) if rate else 1.0

    if k == "zpow_cosmo":
        return lambda z: P["Lambda"] * (1.0 + z) ** P["delta"] * cosmo.dvdz(z) / adj(z)
    if k == "sfr":
        return lambda z: P["r0"] * (P["a"] + P["rise"] * z) / (1 + (z / P["peak"]) ** P["decay"]) * cosmo.dvdz(z) / adj(z)
    if k == "uniform_cosmo":
        return lambda z: P["r0"] / (P["zmax"] - P["zmin"]) * cosmo.dvdz(z) / adj(z)
    raise ValueError(k)


def number_density(d):
    """the declared number density (no volume, no time adjustment)"""
    k = d["kind"]
    P = {a: float(b) for a, b in spatial_params(d).items()}
    if k in ("cons_sphere", "flatland"):
        return lambda r: P["Lambda"] + 0.0 * r
    if k in ("zpow_sphere", "zpow_cosmo"):
        return lambda r: P["Lambda"] * np.exp(P["delta"] * np.log1p(r))
    if k == "spiral":
        s = P["R0"] + P["R1"]
        return lambda r: P["rho"] * ((r + P["R1"]) / s) ** P["a"] * np.exp(-P["b"] * (r - P["R0"]) / s)
    if k == "sfr":
        return lambda z: P["r0"] * (P["a"] + P["rise"] * z) / (1 + (z / P["peak"]) ** P["decay"])
    if k == "uniform_cosmo":
        return lambda z: P["r0"] / (P["zmax"] - P["zmin"]) + 0.0 * z
    return None


class GridCDF:
    """distribution function of a density on [a, b]"""

    def __init__(self, f, a, b, n=20001):
        x = np.linspace(a, b, n)
        y = f(x)
        y = np.where(np.isfinite(y), y, 0.0)
        m = f(0.5 * (x[1:] + x[:-1]))
        seg = (x[1] - x[0]) / 6.0 * (y[1:] + y[:-1] + 4 * m)
        c = np.concatenate([[0.0], np.cumsum(seg)])
        self.total = c[-1]
        self.x, self.c = x, c / c[-1]

    def __call__(self, v):
        return np.interp(v, self.x, self.c, left=0.0, right=1.0)


def expected_number(d, normalize=False):
    P = spatial_params(d)
    if normalize:
        return float(P[NORMALIZATION[d["kind"]]]) if d["kind"] in NORMALIZATION else 1.0
    return integrate.quad(spatial_density(d), 0.0, P["r_max"], limit=200)[0]


def transform(d, L, r, cosmo=DEFAULT_COSMO):
    k = d["kind"]
    L = np.asarray(L, dtype=float)
    r = np.asarray(r, dtype=float)
    if k in ("cons_sphere", "zpow_sphere", "spiral"):
        return L / (4 * np.pi * (1.0 + r) ** 2)
    if k == "flatland":
        return L
    if k == "shell":
        return L * np.exp(-r / 3.0) / (2.0 + r)
    if k == "plain":
        return L / (1.0 + r * r)
    return L / (4 * np.pi * cosmo.dl_cm(r) ** 2)


def transform_rtol(kind):
    return 2e-2 if kind in ("zpow_cosmo", "sfr", "uniform_cosmo") else 1e-12


# ---------------------------------------------------- luminosity functions

LUM_DEFAULTS = {
    "pareto": dict(Lmin=1, alpha=1), "schechter": dict(Lmin=1, alpha=1), "delta": dict(Lp=0),
    "bpl": {}, "lognorm": {}, "log10norm": {}, "loguni": {}, "monlum": dict(s=2.0),
}


def lum_params(d):
    P = dict(LUM_DEFAULTS[d["kind"]])
    P.update(d["params"])
    # (numpy cannot compute with larger integers)
    return {k: float(v) if isinstance(v, int) and abs(v) >= 2**63 else v for k, v in P.items()}


def _pl_int(x0, x, a):
    """Integral of x^a from x0, in a form that holds next to a = -1, too."""
    k, l = a + 1.0, np.log(np.asarray(x, dtype=float) / x0)
    return np.power(x0, k) * (l if k == 0 else np.expm1(k * l) / k)


class BPL:
    """In units of the break, such that nothing overflows."""

    def __init__(self, lo, al, br, be, hi):
        self.lo, self.al, self.br, self.be, self.hi = map(float, (lo, al, br, be, hi))
        self.a, self.b = self.lo / self.br, self.hi / self.br
        self.i1 = _pl_int(self.a, 1.0, self.al)
        self.t = self.i1 + _pl_int(1.0, self.b, self.be)

    def pdf(self, x):
        x = np.asarray(x, dtype=float)
        y = x / self.br
        with np.errstate(all="ignore"):
            y = np.where(y < 1, np.power(y, self.al), np.power(y, self.be)) / self.t / self.br
        return np.where((x > self.lo) & (x < self.hi), y, 0.0)

    def cdf(self, x):
        y = np.clip(np.asarray(x, dtype=float), self.lo, self.hi) / self.br
        return (_pl_int(self.a, np.minimum(y, 1), self.al) + _pl_int(1.0, np.maximum(y, 1), self.be)) / self.t


class PL:
    def __init__(self, lo, hi, a):
        self.lo, self.hi, self.a = float(lo), float(hi), float(a)
        self.t = _pl_int(1.0, self.hi / self.lo, self.a)

    def cdf(self, x):
        return _pl_int(1.0, np.clip(x, self.lo, self.hi) / self.lo, self.a) / self.t


def lum_dist(d):
    """(pdf, cdf, low, high) of a luminosity function; None pdf for delta"""
    P = {k: float(v) for k, v in lum_params(d).items()}
    k = d["kind"]
    if k == "pareto":
        D = stats.pareto(P["alpha"], scale=P["Lmin"])
        return D.pdf, D.cdf, P["Lmin"], np.inf
    if k == "schechter":
        D = stats.gamma(1 + P["alpha"], scale=P["Lmin"])
        return D.pdf, D.cdf, 0.0, np.inf
    if k == "bpl":
        D = BPL(P["Lmin"], P["alpha"], P["Lbreak"], P["beta"], P["Lmax"])
        return D.pdf, D.cdf, P["Lmin"], P["Lmax"]
    if k == "lognorm":
        D = stats.lognorm(P["tau"], scale=np.exp(P["mu"]))
        return D.pdf, D.cdf, 0.0, np.inf
    if k == "log10norm":
        D = stats.lognorm(P["tau"] * np.log(10), scale=10 ** P["mu"])
        return D.pdf, D.cdf, 0.0, np.inf
    if k == "loguni":
        D = stats.loguniform(P["Lmin"], P["Lmax"])
        return D.pdf, D.cdf, P["Lmin"], P["Lmax"]
    if k == "monlum":
        D = stats.uniform(P["s"], 2 * P["s"])
        return D.pdf, D.cdf, P["s"], 3 * P["s"]
    if k == "delta":
        return None, None, P["Lp"], P["Lp"]
    raise ValueError(k)


# ------------------------------------------------------ auxiliary samplers

AUX_DEFAULTS = {
    "normal": dict(mu=0, tau=1, sigma=1), "lognormal": dict(mu=0, tau=1, sigma=1), "log10normal": dict(mu=0, tau=1, sigma=1),
    "tnormal": dict(mu=0, tau=1, sigma=1), "tlognormal": dict(mu=0, tau=1, sigma=1), "tlog10normal": dict(mu=0, tau=1, sigma=1),
    "pareto": dict(xmin=1, alpha=1, sigma=1), "plaw": dict(xmin=1, xmax=2, alpha=1, sigma=1), "bplaw": dict(sigma=1),
    "delta": dict(xp=0, sigma=1), "va": dict(max_angle=90), "ra": {}, "dec": {},
    "probe": dict(scale=1.0, shift=0.0, noise=0.5), "probe_d": dict(scale=1.0, shift=0.0, noise=0.5),
    "probe_l": dict(scale=1.0, shift=0.0, noise=0.5), "probe_dl": dict(scale=1.0, shift=0.0, noise=0.5),
    "probe_p": dict(scale=1.0, shift=0.0, noise=0.5),
    "init": dict(scale=1.0, shift=0.0, noise=0.5),
    "derived": dict(scale=1.0, shift=0.0), "derived_d": dict(scale=1.0, shift=0.0),
}


def aux_params(d):
    P = dict(AUX_DEFAULTS[d["kind"]])
    P.update(d["params"])
    return P


def aux_dist(kind, params):
    """(cdf, low, high) of the true values; cdf None for delta"""
    P = {k: float(v) for k, v in aux_params(dict(kind=kind, params=params)).items()}
    if kind == "normal":
        return stats.norm(P["mu"], P["tau"]).cdf, -np.inf, np.inf
    if kind == "lognormal":
        return stats.lognorm(P["tau"], scale=np.exp(P["mu"])).cdf, 0.0, np.inf
    if kind == "log10normal":
        return stats.lognorm(P["tau"] * np.log(10), scale=10 ** P["mu"]).cdf, 0.0, np.inf
    if kind in ("tnormal", "tlognormal", "tlog10normal"):
        f = {"tnormal": lambda x: x, "tlognormal": np.log, "tlog10normal": np.log10}[kind]
        D = stats.norm(P["mu"], P["tau"])
        lo, hi = P["lower"], P["upper"]

        def z(x):
            with np.errstate(divide="ignore"):
                return f(np.clip(x, lo, hi))

        # from the nearer tail
        if z(lo) > P["mu"]:
            a, b = D.sf(z(lo)), D.sf(z(hi))
            return (lambda x: np.clip((a - D.sf(z(x))) / (a - b), 0, 1)), lo, hi
        a, b = D.cdf(z(lo)), D.cdf(z(hi))
        return (lambda x: np.clip((D.cdf(z(x)) - a) / (b - a), 0, 1)), lo, hi
    if kind == "pareto":
        return stats.pareto(P["alpha"], scale=P["xmin"]).cdf, P["xmin"], np.inf
    if kind == "plaw":
        return PL(P["xmin"], P["xmax"], P["alpha"]).cdf, P["xmin"], P["xmax"]
    if kind == "bplaw":
        return BPL(P["xmin"], P["alpha"], P["xbreak"], P["beta"], P["xmax"]).cdf, P["xmin"], P["xmax"]
    if kind == "delta":
        return None, P["xp"], P["xp"]
    if kind == "va":
        m = 1 - np.cos(np.deg2rad(P["max_angle"]))
        return (lambda x: np.clip((1 - np.cos(x)) / m, 0, 1)), 0.0, np.deg2rad(P["max_angle"])
    if kind == "ra":
        return (lambda x: np.clip(x / (2 * np.pi), 0, 1)), 0.0, 2 * np.pi
    if kind == "dec":
        return (lambda x: np.clip(0.5 * (1 + np.sin(x)), 0, 1)), -np.pi / 2, np.pi / 2
    raise ValueError(kind)


# -------------------------------------------------------------- sky

# ICRS to galactic, Hipparcos vol. 1, section 1.5.3
_AG = np.array(
    [
        [-0.0548755604162154, -0.8734370902348850, -0.4838350155487132],
        [+0.4941094278755837, -0.4448296299600112, +0.7469822444972189],
        [-0.8676661490190047, -0.1980763734312015, +0.4559837761750669],
    ]
)


def galactic_b(ra_deg, dec_deg):
    ra, dec = np.deg2rad(ra_deg), np.deg2rad(dec_deg)
    v = np.array([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)])
    return np.rad2deg(np.arcsin(np.clip(_AG @ v, -1, 1)[2]))


# -------------------------------------------------------------- tests


def ks_p(x, cdf):
    """p-value of a one-sample Kolmogorov-Smirnov test"""
    x = np.asarray(x, dtype=float)
    if len(x) == 0:
        return 1.0
    u = np.asarray(cdf(x), dtype=float)
    if not np.all(np.isfinite(u)):
        return 0.0
    n = len(u)
    u = np.sort(u)
    d = max(np.max(np.arange(1, n + 1) / n - u), np.max(u - np.arange(n) / n))
    return float(stats.kstwo.sf(d, n))


def var_p(x, sigma):
    """two-sided p-value for the variance of normal deviates"""
    n = len(x)
    if n == 0:
        return 1.0
    q = float(np.sum((np.asarray(x) / sigma) ** 2))
    return float(min(1.0, 2 * min(stats.chi2.cdf(q, n), stats.chi2.sf(q, n))))


def mean_p(x, sigma):
    n = len(x)
    if n == 0:
        return 1.0
    return float(2 * stats.norm.sf(abs(np.mean(x)) * np.sqrt(n) / sigma))


def norm_ks_p(x, sigma):
    return min(ks_p(np.asarray(x) / sigma, stats.norm.cdf) , 1.0)


def corr_p(x, y):
    """two-sided p-value of a rank correlation"""
    n = len(x)
    if n < 20:
        return 1.0
    r, p = stats.spearmanr(x, y)
    return 1.0 if not np.isfinite(p) else float(p)


def binom_p(k, n, p):
    if n == 0:
        return 1.0
    if p <= 0:
        return 1.0 if k == 0 else 0.0
    if p >= 1:
        return 1.0 if k == n else 0.0
    return float(stats.binomtest(int(k), int(n), float(p)).pvalue)


def poisson_p(k, mu):
    return float(min(1.0, 2 * min(stats.poisson.cdf(k, mu), stats.poisson.sf(k - 1, mu))))


def bernoulli_probs_p(sel, probs):
    """
    p-value for independent Bernoulli draws with known probabilities
    (sum of standardized residuals, and by halves of the probabilities)
    """
    sel = np.asarray(sel, dtype=float)
    probs = np.asarray(probs, dtype=float)
    if np.any((probs <= 0) & (sel > 0)) or np.any((probs >= 1) & (sel < 1)):
        return 0.0
    out = 1.0
    for m in (np.ones(len(probs), bool), probs < 0.5, probs >= 0.5):
        v = float(np.sum(probs[m] * (1 - probs[m])))
        if v > 25:
            z = float(np.sum(sel[m] - probs[m])) / np.sqrt(v)
            out = min(out, 2 * stats.norm.sf(abs(z)))
    # unlikely single events
    for m, k in ((probs < 1e-12, 1), (probs > 1 - 1e-12, 0)):
        if np.any(sel[m] == k):
            out = min(out, 1e-12)
    return float(out)


def repeated(x, digits=None):
    """How many values of a sample of a continuous distribution occur more than once."""
    x = np.asarray(x)
    x = x[np.isfinite(x)]
    if digits is not None:
        x = np.round(x, digits)
    return len(x) - len(np.unique(x))


def repeated_ok(x, digits=None):
    """
    Independent draws of a continuous distribution hardly repeat; a few may
    at the resolution of the numbers
    """
    return repeated(x, digits) <= 1e-3 * len(x)
