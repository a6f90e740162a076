"""
Descriptions of population synths as plain (JSON) data, and how to build
them with popsynth's public interface.

User-defined distributions, samplers and selectors ("probes") follow the
documented extension protocol; they record what they are given.
"""
import zlib

import numpy as np
import popsynth
from popsynth.auxiliary_sampler import (
    AuxiliaryParameter,
    AuxiliarySampler,
    DerivedLumAuxSampler,
)
from popsynth.distribution import (
    DistributionParameter,
    LuminosityDistribution,
    SpatialDistribution,
)
from popsynth.selection_probability.selection_probability import (
    SelectionParameter,
    SelectionProbability,
)
from popsynth.selection_probability.spatial_selection import (
    DistanceSelection,
    GalacticPlaneSelection,
    SpatialSelection,
)
from popsynth.aux_samplers.sky_sampler import DecSampler, RASampler

PS = vars(popsynth)
TRACE = []  # what the probes were given


def trace_clear():
    del TRACE[:]


def cp(x):
    return None if x is None else np.array(x, copy=True)


# --------------------------------------------------------------- probes


class MonShellDistribution(SpatialDistribution):
    """A user-defined spatial distribution with everything non-standard."""

    _distribution_name = "MonShellDistribution"
    K = DistributionParameter(default=2.5, vmin=0, is_normalization=True)
    c = DistributionParameter(default=2.0)
    w = DistributionParameter(default=1.5, vmin=0)

    def __init__(self, seed=1234, name="mon_shell", form=r"K e^{-(r-c)^2/w^2}"):
        super(MonShellDistribution, self).__init__(seed=seed, name=name, form=form)

    def differential_volume(self, r):
        return 1.0 + r

    def dNdV(self, r):
        return self.K * np.exp(-(((r - self.c) / self.w) ** 2))

    def time_adjustment(self, r):
        return 1.0 + 0.3 * r

    def transform(self, L, r):
        return L * np.exp(-r / 3.0) / (2.0 + r)


class MonPlainDistribution(SpatialDistribution):
    """A user-defined spatial distribution without a normalization."""

    _distribution_name = "MonPlainDistribution"
    q = DistributionParameter(default=0.7, vmin=0)

    def __init__(self, seed=1234, name="mon_plain", form="q"):
        super(MonPlainDistribution, self).__init__(seed=seed, name=name, form=form)

    def differential_volume(self, r):
        return 2.0 * r

    def dNdV(self, r):
        return self.q * (1.0 + 0.5 * np.cos(r))

    def transform(self, L, r):
        return L / (1.0 + r * r)


class MonLumBase(LuminosityDistribution):
    _distribution_name = "MonLumBase"
    s = DistributionParameter(default=2.0, vmin=0)

    def phi(self, L):
        raise NotImplementedError

    def draw_luminosity(self, size=1):
        raise NotImplementedError


class MonLumDistribution(MonLumBase):
    """A user-defined luminosity distribution, uniform between s and 3 s."""

    _distribution_name = "MonLumDistribution"

    def __init__(self, seed=1234, name="mon_lum"):
        super(MonLumDistribution, self).__init__(seed=seed, name=name, form="1/2s")

    def phi(self, L):
        L = np.asarray(L, dtype=float)
        return np.where((L >= self.s) & (L <= 3 * self.s), 0.5 / self.s, 0.0)

    def draw_luminosity(self, size=1):
        return self.s * (1.0 + 2.0 * np.random.uniform(size=size))


class _Probe(object):
    def _init_probe(self):
        self._mon_draws = 0

    def _given(self):
        g = {}
        for k in ("_luminosity", "_distance", "_theta", "_phi", "_ra", "_dec"):
            g[k] = cp(getattr(self, k, None))
        g["secondaries"] = {
            k: (cp(v.true_values), cp(v.obs_values)) for k, v in self._secondary_samplers.items()
        }
        return g

    def _base(self, size):
        x = np.random.normal(size=size)
        if self._uses_distance:
            x = x + 0.3 * np.log1p(self._distance)
        if self._uses_sky_position:
            x = x + np.cos(self._theta) + 0.1 * self._phi
        if self._uses_luminosity:
            x = x + 0.2 * np.log10(1 + self._luminosity)
        for k, v in self._secondary_samplers.items():
            x = x + 0.1 * v.true_values + 0.05 * v.obs_values
        return x

    def true_sampler(self, size):
        TRACE.append(dict(who=self.name, ev="true", size=size, given=self._given(), obj=id(self)))
        self._true_values = self.shift + self.scale * self._base(size)
        TRACE[-1]["out"] = cp(self._true_values)

    def observation_sampler(self, size):
        TRACE.append(dict(who=self.name, ev="obs", size=size, true=cp(self._true_values), obj=id(self)))
        self._obs_values = self._true_values + self.noise * np.random.normal(size=size)
        TRACE[-1]["out"] = cp(self._obs_values)


class MonProbe(_Probe, AuxiliarySampler):
    _auxiliary_sampler_name = "MonProbe"
    scale = AuxiliaryParameter(default=1.0)
    shift = AuxiliaryParameter(default=0.0)
    noise = AuxiliaryParameter(default=0.5, vmin=0)

    def __init__(self, name, observed=True):
        AuxiliarySampler.__init__(self, name=name, observed=observed)


class MonProbeD(_Probe, AuxiliarySampler):
    _auxiliary_sampler_name = "MonProbeD"
    scale = AuxiliaryParameter(default=1.0)
    shift = AuxiliaryParameter(default=0.0)
    noise = AuxiliaryParameter(default=0.5, vmin=0)

    def __init__(self, name, observed=True):
        AuxiliarySampler.__init__(self, name=name, observed=observed, uses_distance=True, uses_sky_position=True)


class MonProbeL(_Probe, AuxiliarySampler):
    _auxiliary_sampler_name = "MonProbeL"
    scale = AuxiliaryParameter(default=1.0)
    shift = AuxiliaryParameter(default=0.0)
    noise = AuxiliaryParameter(default=0.5, vmin=0)

    def __init__(self, name, observed=True):
        AuxiliarySampler.__init__(self, name=name, observed=observed, uses_luminosity=True)


class MonProbeDL(_Probe, AuxiliarySampler):
    _auxiliary_sampler_name = "MonProbeDL"
    scale = AuxiliaryParameter(default=1.0)
    shift = AuxiliaryParameter(default=0.0)
    noise = AuxiliaryParameter(default=0.5, vmin=0)

    def __init__(self, name, observed=True):
        AuxiliarySampler.__init__(self, name=name, observed=observed, uses_luminosity=True, uses_distance=True)


class MonProbeP(MonProbe):
    """A probe with a draw probability of its own, and inherited parameters."""

    _auxiliary_sampler_name = "MonProbeP"
    noise = AuxiliaryParameter(default=0.5, vmin=0)

    def _compute_probability(self):
        return probe_probability(self._true_values)


def probe_probability(x):
    return 1.0 / (1.0 + np.square(x))


class MonInit(_Probe, AuxiliarySampler):
    """A sampler with an argument besides name and observed."""

    _auxiliary_sampler_name = "MonInit"
    scale = AuxiliaryParameter(default=1.0)
    shift = AuxiliaryParameter(default=0.0)
    noise = AuxiliaryParameter(default=0.5, vmin=0)

    def __init__(self, name, observed=True, offset=0.0):
        AuxiliarySampler.__init__(self, name=name, observed=observed)
        self.offset = offset

    def _base(self, size):
        return self.offset + super(MonInit, self)._base(size)


class MonDerived(_Probe, DerivedLumAuxSampler):
    _auxiliary_sampler_name = "MonDerived"
    scale = AuxiliaryParameter(default=1.0)
    shift = AuxiliaryParameter(default=0.0)

    def __init__(self, name):
        DerivedLumAuxSampler.__init__(self, name=name)

    def compute_luminosity(self):
        e = 1.0 + 0.1 * self._true_values
        for k, v in self._secondary_samplers.items():
            e = e + 0.05 * v.true_values
        out = np.power(10.0, np.clip(e, -6, 6))
        TRACE.append(dict(who=self.name, ev="lum", out=cp(out), true=cp(self._true_values), obj=id(self)))
        return out


class MonDerivedD(_Probe, DerivedLumAuxSampler):
    _auxiliary_sampler_name = "MonDerivedD"
    scale = AuxiliaryParameter(default=1.0)
    shift = AuxiliaryParameter(default=0.0)

    def __init__(self, name):
        DerivedLumAuxSampler.__init__(self, name=name, uses_distance=True)

    def compute_luminosity(self):
        out = (1.0 + self._distance) * np.exp(np.clip(0.2 * self._true_values, -10, 10))
        TRACE.append(dict(who=self.name, ev="lum", out=cp(out), true=cp(self._true_values), obj=id(self)))
        return out


def pattern(size, salt, p):
    """The selection a probe selector makes: known in advance."""
    g = np.random.Generator(np.random.PCG64([int(salt), 77]))
    return g.uniform(size=size) < p


class MonSelectionBase(SelectionProbability):
    _selection_name = "MonSelectionBase"
    p = SelectionParameter(default=0.7, vmin=0, vmax=1)

    def draw(self, size=1):
        raise NotImplementedError


class MonSelection(MonSelectionBase):
    """Inherits one of its parameters."""

    _selection_name = "MonSelection"
    salt = SelectionParameter(default=1)

    def __init__(self, name="mon"):
        super(MonSelection, self).__init__(name=name)

    def draw(self, size=1):
        TRACE.append(
            dict(
                who="selector", ev="select", salt=int(self.salt), size=int(size),
                flux=cp(self._observed_flux), obs=cp(self._observed_value),
                distance=cp(self._distance), luminosity=cp(self._luminosity),
            )
        )
        self._selection = pattern(int(size), self.salt, self.p)


class MonSpatialBase(SpatialSelection):
    _selection_name = "MonSpatialBase"
    salt = SelectionParameter(default=1)

    def draw(self, size=1):
        raise NotImplementedError


class MonSpatialSelection(MonSpatialBase):
    """Inherits one of its parameters."""

    _selection_name = "MonSpatialSelection"
    p = SelectionParameter(default=0.7, vmin=0, vmax=1)

    def __init__(self, name="mon spatial"):
        super(MonSpatialSelection, self).__init__(name=name)

    def draw(self, size=1):
        TRACE.append(
            dict(who="selector", ev="select", salt=int(self.salt), size=int(size),
                 distances=cp(self._spatial_distribution.distances),
                 theta=cp(self._spatial_distribution.theta), phi=cp(self._spatial_distribution.phi))
        )
        self._selection = pattern(int(size), self.salt, self.p)


# ------------------------------------------------------------- registry

SPATIAL = {
    "cons_sphere": "ConstantSphericalDistribution",
    "zpow_sphere": "ZPowerSphericalDistribution",
    "zpow_cosmo": "ZPowerCosmoDistribution",
    "sfr": "SFRDistribution",
    "uniform_cosmo": "UniformCosmoDistribution",
    "flatland": "FlatlandDistribution",
    "spiral": "SpiralGalaxyDistribution",
    "shell": "MonShellDistribution",
    "plain": "MonPlainDistribution",
}
COSMO = ("zpow_cosmo", "sfr", "uniform_cosmo")
SPHERE = ("cons_sphere", "zpow_sphere", "spiral")
LUM = {
    "pareto": "ParetoDistribution",
    "schechter": "SchechterDistribution",
    "bpl": "BPLDistribution",
    "lognorm": "LogNormalDistribution",
    "log10norm": "Log10NormalDistribution",
    "delta": "DeltaDistribution",
    "loguni": "LogUniLuminiosityDistribution",
    "monlum": "MonLumDistribution",
}
AUX = {
    "normal": "NormalAuxSampler",
    "lognormal": "LogNormalAuxSampler",
    "log10normal": "Log10NormalAuxSampler",
    "tnormal": "TruncatedNormalAuxSampler",
    "tlognormal": "TruncatedLogNormalAuxSampler",
    "tlog10normal": "TruncatedLog10NormalAuxSampler",
    "pareto": "ParetoAuxSampler",
    "plaw": "PowerLawAuxSampler",
    "bplaw": "BrokenPowerLawAuxSampler",
    "delta": "DeltaAuxSampler",
    "va": "ViewingAngleSampler",
    "ra": "RASampler",
    "dec": "DecSampler",
    "probe": "MonProbe",
    "probe_d": "MonProbeD",
    "probe_l": "MonProbeL",
    "probe_dl": "MonProbeDL",
    "probe_p": "MonProbeP",
    "init": "MonInit",
    "derived": "MonDerived",
    "derived_d": "MonDerivedD",
}
NORMALIZATION_KINDS = ("cons_sphere", "zpow_sphere", "zpow_cosmo", "sfr", "uniform_cosmo", "shell")
FIXED_NAME = ("va", "ra", "dec")
USES_DISTANCE = ("probe_d", "probe_dl", "derived_d")
USES_LUM = ("probe_l", "probe_dl")
SEL = {
    "unity": "UnitySelection",
    "bernoulli": "BernoulliSelection",
    "box": "BoxSelection",
    "lower": "LowerBound",
    "upper": "UpperBound",
    "soft": "SoftSelection",
    "hardflux": "HardFluxSelection",
    "softflux": "SoftFluxSelection",
    "galplane": "GalacticPlaneSelection",
    "distance": "DistanceSelection",
    "mon": "MonSelection",
    "monspatial": "MonSpatialSelection",
}
_CLS = {}
_CLS.update({k: PS.get(v) or globals()[v] for k, v in [(("s", a), b) for a, b in SPATIAL.items()]})
_CLS.update({("l", k): PS.get(v) or globals()[v] for k, v in LUM.items()})
_CLS.update({("a", k): PS.get(v) or globals()[v] for k, v in AUX.items()})
_CLS.update({("c", k): PS.get(v) or globals()[v] for k, v in SEL.items()})


def cls_of(family, kind):
    return _CLS[(family, kind)]


def set_params(obj, params):
    for k, v in params.items():
        setattr(obj, k, v)
    return obj


def build_spatial(d):
    kw = dict(d.get("kw", {}))
    if d["kind"] in COSMO and "is_rate" in d:
        kw["is_rate"] = d["is_rate"]
    if d.get("name"):
        kw["name"] = d["name"]
    return set_params(_CLS[("s", d["kind"])](**kw), d["params"])


def build_lum(d):
    if d is None:
        return None
    kw = dict(name=d["name"]) if d.get("name") else {}
    return set_params(_CLS[("l", d["kind"])](**kw), d["params"])


ON = {"obs": "use_obs_value", "distance": "use_distance", "luminosity": "use_luminosity", "flux": "use_flux"}


SEL_NAMES = [None, None, None, "unity", "global", "", "unity flux selector", "none", "total auxiliary selection", "größe/L", "distance"]


def build_sel(d):
    """None for no selection."""
    if d is None:
        return None
    k = d["kind"]
    # any name, which means nothing
    name = SEL_NAMES[zlib.crc32(repr(sorted(d.items(), key=str)).encode()) % len(SEL_NAMES)]
    kw = {} if name is None or k in ("bernoulli", "hardflux", "softflux") else dict(name=name)
    if k in ("box", "lower", "upper", "soft"):
        kw[ON[d["on"]]] = True
    s = _CLS[("c", k)](**kw)
    return set_params(s, d.get("params", {}))


def build_aux(d):
    c = _CLS[("a", d["kind"])]
    if d["kind"] in FIXED_NAME:
        s = c()
    elif d["kind"].startswith("derived"):
        s = c(d["name"])
    else:
        # observed is the default; said and unsaid it means the same
        how = (len(d["name"]) + len(d["params"])) % 3
        init = dict(d.get("init", {}))
        if not d["observed"] or how == 1:
            init["observed"] = d["observed"]
        s = c(d["name"], d["observed"], **d.get("init", {})) if how == 2 else c(d["name"], **init)
    set_params(s, d["params"])
    sel = build_sel(d.get("sel"))
    if sel is not None:
        s.set_selection_probability(sel)
    return s


class Built:
    pass


def build(spec, attach_order=None):
    """Build the synth of a spec."""
    b = Built()
    b.spec = spec
    b.spatial = build_spatial(spec["spatial"])
    b.lum = build_lum(spec.get("lum"))
    b.synth = popsynth.PopulationSynth(b.spatial, luminosity_distribution=b.lum, seed=spec["seed"])
    b.aux = {}
    for d in spec.get("aux", []):
        b.aux[d["name"]] = build_aux(d)
    for d in spec.get("aux", []):
        for s in d.get("sec", []):
            b.aux[d["name"]].set_secondary_sampler(b.aux[s])
    tops = list(spec.get("top", []))
    if attach_order is not None:
        tops = [tops[i] for i in attach_order]
    for name in tops:
        b.synth.add_observed_quantity(b.aux[name])
    b.flux_sel = build_sel(spec.get("flux_sel"))
    if b.flux_sel is not None:
        b.synth.set_flux_selection(b.flux_sel)
    b.dist_sel = build_sel(spec.get("dist_sel"))
    if b.dist_sel is not None:
        b.synth.set_distance_selection(b.dist_sel)
    b.spatial_sel = build_sel(spec.get("spatial_sel"))
    if b.spatial_sel is not None:
        b.synth.add_spatial_selector(b.spatial_sel)
    for m in spec.get("model_spaces", []):
        b.synth.add_model_space(m["name"], m["start"], m["stop"], log=m["log"])
    return b


def draw(b, spec=None):
    d = dict((spec or b.spec).get("draw", {}))
    return b.synth.draw_survey(**d)


def progress(flag):
    if flag:
        popsynth.show_progress_bars()
    else:
        popsynth.silence_progress_bars()


# ------------------------------------------------------------ generators


def _i(rng, lo, hi):
    return int(rng.integers(lo, hi + 1))


def _u(rng, lo, hi):
    return float(round(rng.uniform(lo, hi), 4))


def _maybe_int(rng, params, p=0.15, skip=()):
    """Integers are as good as floats."""
    if rng.uniform() < p:
        for k in params:
            if k not in skip and abs(params[k]) >= 1:
                params[k] = int(round(params[k]))
    return params


def r_spatial(rng, kinds=None, defaults=0.15):
    kind = str(rng.choice(kinds or list(SPATIAL)))
    d = dict(kind=kind, params={})
    P = d["params"]
    if kind == "cons_sphere":
        P.update(Lambda=_u(rng, 0.1, 3), r_max=_u(rng, 0.5, 8))
    elif kind == "zpow_sphere":
        P.update(Lambda=_u(rng, 0.1, 3), delta=_u(rng, -3, 3), r_max=_u(rng, 0.5, 8))
    elif kind == "zpow_cosmo":
        P.update(Lambda=_u(rng, 0.1, 20), delta=_u(rng, -3, 3), r_max=_u(rng, 0.5, 8))
    elif kind == "sfr":
        P.update(r0=_u(rng, 0.5, 50), a=_u(rng, 0.05, 2), rise=_u(rng, 0, 3), decay=_u(rng, 1, 5), peak=_u(rng, 0.5, 4), r_max=_u(rng, 1, 8))
    elif kind == "uniform_cosmo":
        z0 = _u(rng, 0, 0.5)
        P.update(r0=_u(rng, 0.5, 50), zmin=z0, zmax=_u(rng, z0 + 0.5, z0 + 5), r_max=_u(rng, 1, 8))
    elif kind == "flatland":
        P.update(Lambda=_u(rng, 0.1, 10), r_max=_u(rng, 0.5, 20))
    elif kind == "spiral":
        P.update(rho=_u(rng, 0.5, 10), a=_u(rng, 0.5, 3), b=_u(rng, 1, 6), R1=_u(rng, 0.2, 1), R0=_u(rng, 5, 10), r_max=_u(rng, 8, 25))
    elif kind == "shell":
        P.update(K=_u(rng, 0.3, 5), c=_u(rng, 0.5, 4), w=_u(rng, 0.4, 3), r_max=_u(rng, 1, 8))
    elif kind == "plain":
        P.update(q=_u(rng, 0.2, 3), r_max=_u(rng, 1, 8))
    if kind in COSMO:
        d["is_rate"] = bool(rng.uniform() < 0.5)
    if rng.uniform() < defaults:
        # leave parameters with a default to it
        for k in ("Lambda", "r_max", "K", "c", "w", "q") + (("delta",) if kind == "zpow_sphere" else ()):
            if k in P and kind != "sfr" and kind != "uniform_cosmo" and rng.uniform() < 0.5:
                del P[k]
    if rng.uniform() < 0.12 and "r_max" in P and kind != "spiral":
        # nearby, or (in kpc, say) far away
        P["r_max"] = float("%.4g" % (P["r_max"] * (0.05 if kind in COSMO + ("shell", "plain") or rng.uniform() < 0.6 else 25)))
    if rng.uniform() < 0.5:
        items = list(P.items())
        rng.shuffle(items)
        d["params"] = P = dict((str(k), float(v)) for k, v in items)
    _maybe_int(rng, P)
    if kind == "uniform_cosmo" and P["zmax"] <= P["zmin"]:
        P["zmax"] = P["zmin"] + 1
    return d


def r_lum(rng, kinds=None, defaults=0.1):
    kind = str(rng.choice(kinds or list(LUM)))
    d = dict(kind=kind, params={})
    P = d["params"]
    sc = float(10.0 ** int(rng.integers(-2, 4)))
    if kind == "pareto":
        P.update(Lmin=_u(rng, 0.5, 9) * sc, alpha=_u(rng, 0.4, 4))
        if rng.uniform() < defaults:
            del P["Lmin" if rng.uniform() < 0.5 else "alpha"]
    elif kind == "schechter":
        P.update(Lmin=_u(rng, 0.5, 9) * sc, alpha=_u(rng, -0.9, 3))
        if rng.uniform() < defaults:
            del P["Lmin" if rng.uniform() < 0.5 else "alpha"]
    elif kind == "bpl":
        lo = _u(rng, 0.5, 9) * sc
        br = lo * _u(rng, 1.5, 20)
        P.update(Lmin=lo, alpha=_u(rng, -3, 2), Lbreak=br, beta=_u(rng, -4, 1), Lmax=br * _u(rng, 1.5, 50))
        if rng.uniform() < 0.25:
            P["alpha"] = [-1, -1.0, -2, 0, 1][_i(rng, 0, 4)]
        if rng.uniform() < 0.25:
            P["beta"] = [-1, -1.0, -2, 0, -3][_i(rng, 0, 4)]
    elif kind == "lognorm":
        P.update(mu=_u(rng, -2, 5), tau=_u(rng, 0.1, 2))
    elif kind == "log10norm":
        P.update(mu=_u(rng, -2, 5), tau=_u(rng, 0.1, 1.2))
    elif kind == "delta":
        P.update(Lp=_u(rng, 0.5, 9) * sc)
    elif kind == "loguni":
        lo = _u(rng, 0.5, 9) * sc
        P.update(Lmin=lo, Lmax=lo * _u(rng, 1.5, 500))
    elif kind == "monlum":
        P.update(s=_u(rng, 0.5, 9) * sc)
        if rng.uniform() < defaults:
            del P["s"]
    return d


POSITIVE_AUX = ("lognormal", "log10normal", "tlognormal", "tlog10normal", "pareto", "plaw", "bplaw")
PLAIN_AUX = ["normal", "lognormal", "log10normal", "tnormal", "tlognormal", "tlog10normal", "pareto", "plaw", "bplaw", "delta"]
PROBE_AUX = ["probe", "probe_d", "probe_l", "probe_dl", "probe_p"]


def r_aux_params(rng, kind, defaults=0.15):
    P = {}
    if kind in ("normal", "lognormal", "log10normal"):
        P.update(mu=_u(rng, -2, 3), tau=_u(rng, 0.05, 1.5), sigma=_u(rng, 0, 2))
    elif kind == "tnormal":
        lo = _u(rng, -3, 1)
        P.update(mu=_u(rng, -2, 2), tau=_u(rng, 0.3, 2), lower=lo, upper=_u(rng, lo + 0.5, lo + 5), sigma=_u(rng, 0, 2))
    elif kind in ("tlognormal", "tlog10normal"):
        lo = _u(rng, 0.05, 2)
        P.update(mu=_u(rng, -0.5, 1), tau=_u(rng, 0.3, 1.5), lower=lo, upper=lo * _u(rng, 2, 30), sigma=_u(rng, 0, 2))
        if rng.uniform() < 0.15:
            P["lower"] = 0
            P["upper"] *= float(rng.choice([1.0, 0.1, 0.01]))
    elif kind == "pareto":
        P.update(xmin=_u(rng, 0.2, 5), alpha=_u(rng, 0.4, 4), sigma=_u(rng, 0, 2))
    elif kind == "plaw":
        lo = _u(rng, 0.2, 5)
        P.update(xmin=lo, xmax=lo * _u(rng, 1.5, 30), alpha=_u(rng, -3, 2), sigma=_u(rng, 0, 2))
        if rng.uniform() < 0.25:
            P["alpha"] = [-1, -1.0, -2, 0, 1][_i(rng, 0, 4)]
    elif kind == "bplaw":
        lo = _u(rng, 0.2, 5)
        br = lo * _u(rng, 1.5, 8)
        P.update(xmin=lo, alpha=_u(rng, -3, 2), xbreak=br, beta=_u(rng, -4, 1), xmax=br * _u(rng, 1.5, 20), sigma=_u(rng, 0, 2))
        if rng.uniform() < 0.25:
            P["alpha"] = [-1, -2, 0, 1][_i(rng, 0, 3)]
        if rng.uniform() < 0.25:
            P["beta"] = [-1, -2, 0, -3][_i(rng, 0, 3)]
    elif kind == "delta":
        P.update(xp=_u(rng, -5, 5), sigma=_u(rng, 0, 2))
    elif kind == "va":
        P.update(max_angle=_u(rng, 1, 180))
        if rng.uniform() < 0.2:
            P["max_angle"] = 180
    elif kind.startswith("probe") or kind == "init":
        P.update(scale=_u(rng, 0.3, 2), shift=_u(rng, -2, 2), noise=_u(rng, 0, 1))
    elif kind.startswith("derived"):
        P.update(scale=_u(rng, 0.3, 2), shift=_u(rng, -2, 2))
    if rng.uniform() < defaults:
        opt = {
            "plaw": ("xmin_xmax", "alpha", "sigma"), "pareto": ("xmin", "alpha", "sigma"), "bplaw": ("sigma",),
            "tnormal": ("mu", "tau", "sigma"), "tlognormal": ("sigma",), "tlog10normal": ("sigma",),
            "delta": ("xp", "sigma"), "va": ("max_angle",), "ra": (), "dec": (),
        }.get(kind, ("mu", "tau", "sigma", "scale", "shift", "noise"))
        for k in opt:
            if rng.uniform() < 0.6:
                for kk in (("xmin", "xmax") if k == "xmin_xmax" else (k,)):
                    P.pop(kk, None)
    if rng.uniform() < 0.1 and kind in ("normal", "delta", "pareto"):
        for k in P:
            if abs(P[k]) >= 1:
                P[k] = int(round(P[k]))
    return P


def q_of(values, q):
    """A value of the sample at the quantile q (an exact boundary)."""
    v = np.sort(np.asarray(values, dtype=float))
    return float(v[min(len(v) - 1, int(q * len(v)))]) if len(v) else 1.0


def r_cut(rng, kind, on, values):
    """Parameters of a cut which splits values."""
    values = np.asarray(values, dtype=float)
    values = values[np.isfinite(values)]
    if not len(values):
        values = np.array([1.0])
    exact = rng.uniform() < 0.6
    j = 1.0 if exact else 1 + 1e-3

    def q(a, b):
        return q_of(values, rng.uniform(a, b)) * j

    if kind == "box":
        lo, hi = sorted((q(0, 0.5), q(0.5, 1)))
        return dict(kind=kind, on=on, params=dict(vmin=lo, vmax=hi))
    if kind == "lower":
        return dict(kind=kind, on=on, params=dict(boundary=q(0.05, 0.6)))
    if kind == "upper":
        return dict(kind=kind, on=on, params=dict(boundary=q(0.4, 0.95)))
    if kind == "soft":
        v = values[values > 0]
        b = q_of(v, rng.uniform(0.2, 0.7)) if len(v) else 1.0
        return dict(kind=kind, on=on, params=dict(boundary=max(b, 1e-300), strength=_u(rng, 0.5, 20)))
    raise ValueError(kind)


NAMES = ["alpha1", "Epeak", "tau_x", "secret", "size1", "spin", "mass", "Gamma", "t90", "opening", "colour", "width", "B", "x y", "kappa", "z_phot", "E/L", "50%", "λ_c", "größe", "a.b", "yes", "1e5", "12", "null", "T:x", "#1", "obs_x", "_hidden", "it's"]


DIST_NAMES = ["größe", "φ(L)", "my pareto", "a/b", "L", "rate", "x_1", "5%", "α"]


def r_dist_names(rng, spec):
    """Names of its own for a survey's distributions."""
    names = [str(x) for x in rng.permutation(DIST_NAMES)]
    spec["spatial"] = dict(spec["spatial"], name=names[0])
    if spec["lum"]:
        spec["lum"] = dict(spec["lum"], name=names[1])
    return spec


def r_aux_graph(rng, n, derived=False, kinds=None, p_sec=0.55, shared=True, p_fixed=0.1, below_derived_lum=False):
    """
    A random directed acyclic graph of samplers. Returns (nodes, top).
    Nodes come in an order in which secondaries precede their parents.
    """
    kinds = kinds or (PLAIN_AUX + PROBE_AUX * 2)
    names = [str(x) for x in rng.permutation(NAMES)]
    nodes = []
    fixed = [str(x) for x in rng.permutation(["va"])]
    for i in range(n):
        if rng.uniform() < p_fixed and fixed:
            kind = fixed.pop()
            name = kind
        else:
            kind = str(rng.choice(kinds))
            name = names[i]
        nodes.append(
            dict(name=name, kind=kind, observed=bool(rng.uniform() < 0.7) and kind not in FIXED_NAME,
                 params=r_aux_params(rng, kind), sec=[], sel=None)
        )
    if derived:
        kind = "derived" if rng.uniform() < 0.5 else "derived_d"
        nodes.append(dict(name="Lum0", kind=kind, observed=False, params=r_aux_params(rng, kind), sec=[], sel=None))
    used = set()
    lum_free = {}
    for i, d in enumerate(nodes):
        cand = list(range(i))
        rng.shuffle(cand)
        for j in cand:
            s = nodes[j]
            if not shared and s["name"] in used:
                continue
            if d["kind"].startswith("derived"):
                # nothing below a derived luminosity can use one
                if not lum_free[s["name"]]:
                    continue
            if len(d["sec"]) >= 3:
                break
            if rng.uniform() < (p_sec if s["name"] not in used else 0.15):
                d["sec"].append(s["name"])
                used.add(s["name"])
        lum_free[d["name"]] = d["kind"] not in USES_LUM and all(lum_free[s] for s in d["sec"])
    top = [d["name"] for d in nodes if d["name"] not in used]
    rng.shuffle(top)
    return nodes, [str(x) for x in top]


def below(nodes, root):
    """The names of a node and everything it depends on."""
    by = {d["name"]: d for d in nodes}
    out = []

    def go(n):
        if n not in out:
            out.append(n)
            for s in by[n]["sec"]:
                go(s)

    go(root)
    return out


def r_spec(rng, n=(0, 60), aux=(0, 6), derived=None, sels="any", yaml_safe=False, options=True, spatial=None, lum=None,
           p_poisson=0.0, aux_kinds=None, p_aux_sel=0.4, p_sec=0.55, shared=True, no_flux_only=False):
    """
    A random synth with everything.
    sels: "any", "probe" (patterns known in advance), or "none"
    """
    # seeds of the generator have 32 bits
    spec = dict(seed=_i(rng, 0, 2**32 - 1), spatial=r_spatial(rng, spatial))
    derived = bool(rng.uniform() < 0.3) if derived is None else derived
    if not derived or rng.uniform() < 0.15:
        spec["lum"] = r_lum(rng, lum)
    else:
        spec["lum"] = None
    nodes, top = r_aux_graph(rng, _i(rng, *aux), derived=derived, kinds=aux_kinds, p_sec=p_sec, shared=shared)
    spec["aux"], spec["top"] = nodes, top
    ns = int(rng.choice([_i(rng, *n), _i(rng, *n), _i(rng, n[0], min(n[1], n[0] + 3))]))
    dr = dict(n_samples=ns)
    if rng.uniform() < 0.6:
        dr["flux_sigma"] = _u(rng, 0.01, 1.5)
        if rng.uniform() < 0.4:
            dr["log10_flux_draw"] = False
    if rng.uniform() < 0.2:
        dr["normalize"] = True
    spec["draw"] = dr if options else dict(n_samples=ns)
    spec["progress"] = bool(rng.uniform() < 0.15)
    if rng.uniform() < p_poisson:
        spec["draw"].pop("n_samples")
    if sels != "none":
        r_sels(rng, spec, sels, yaml_safe, p_aux_sel)
    return spec


def large(n, i=0, **kw):
    """A survey of many objects, some of which are hidden and some distances of which are known."""
    rng = np.random.default_rng([77, n, i])
    kw = dict(dict(aux=(2, 3), spatial=["cons_sphere" if i % 2 == 0 else "zpow_sphere"], sels="probe"), **kw)
    s = r_spec(rng, n=(n, n), **kw)
    if s["spatial"]["kind"] == "zpow_sphere":
        s["spatial"]["params"]["delta"] = -1.0
    s["flux_sel"] = dict(kind="mon", params=dict(salt=12, p=0.9))
    s["spatial_sel"] = None
    s["dist_sel"] = dict(kind="mon", params=dict(salt=13, p=0.5))
    for d in s["aux"]:
        if d.get("sel"):
            d["sel"] = dict(kind="mon", params=dict(salt=d["sel"]["params"]["salt"], p=0.95))
    return s


def r_sels(rng, spec, sels="any", yaml_safe=False, p_aux=0.4):
    """Attach selections; cuts are placed with the help of a pilot draw."""
    pilot = None
    if sels == "any":
        old = popsynth.popsynth_config.show_progress
        bare = dict(spec, flux_sel=None, dist_sel=None, spatial_sel=None)
        bare["aux"] = [dict(d, sel=None) for d in spec["aux"]]
        bare["draw"] = dict(spec["draw"], n_samples=max(3, spec["draw"].get("n_samples", 20)))
        popsynth.silence_progress_bars()
        st = np.random.get_state()
        try:
            b = build(bare)
            pilot = draw(b)
        finally:
            np.random.set_state(st)
            popsynth.popsynth_config.show_progress = old
        trace_clear()
    salt = [_i(rng, 2, 10**6)]

    def mon(kind="mon"):
        salt[0] += 1
        return dict(kind=kind, params=dict(salt=salt[0], p=float(rng.choice([0.3, 0.6, 0.8, 0.9, 1.0, 0.0], p=[0.15, 0.3, 0.25, 0.2, 0.06, 0.04]))))

    for d in spec["aux"]:
        if rng.uniform() < p_aux:
            if sels == "probe" or rng.uniform() < 0.25:
                d["sel"] = mon()
                continue
            ks = ["box", "lower", "upper", "bernoulli", "unity"]
            ons = ["obs"]
            if not yaml_safe:
                ons.append("distance")
                if not any(d["name"] in below(spec["aux"], x["name"]) for x in spec["aux"] if x["kind"].startswith("derived")):
                    ons.append("luminosity")
            on = str(rng.choice(ons))
            vals = {"obs": lambda: np.asarray(getattr(pilot, d["name"])), "distance": lambda: np.asarray(pilot.distances), "luminosity": lambda: np.asarray(pilot.luminosities)}[on]()
            if (on == "obs" and d["kind"] in ("lognormal", "pareto", "plaw") and (not d["observed"])) or on in ("distance", "luminosity"):
                ks.append("soft")
            k = str(rng.choice(ks))
            if k == "bernoulli":
                d["sel"] = dict(kind=k, params=dict(probability=_u(rng, 0, 1)) if rng.uniform() < 0.9 else {})
            elif k == "unity":
                d["sel"] = dict(kind=k)
            else:
                d["sel"] = r_cut(rng, k, on, vals)
    if rng.uniform() < 0.75:
        if sels == "probe" or rng.uniform() < 0.15:
            spec["flux_sel"] = mon()
        else:
            ks = ["hardflux", "hardflux", "softflux", "lower", "upper", "box", "bernoulli", "unity", "soft"]
            k = str(rng.choice(ks))
            v = np.asarray(pilot.fluxes)
            if k in ("hardflux", "softflux"):
                c = r_cut(rng, "lower" if k == "hardflux" else "soft", "flux", v)
                spec["flux_sel"] = dict(kind=k, params=c["params"])
            elif k == "bernoulli":
                spec["flux_sel"] = dict(kind=k, params=dict(probability=_u(rng, 0, 1)))
            elif k == "unity":
                spec["flux_sel"] = dict(kind=k)
            else:
                spec["flux_sel"] = r_cut(rng, k, "flux", v)
    if rng.uniform() < 0.6:
        if sels == "probe" or rng.uniform() < 0.2:
            spec["dist_sel"] = mon()
        else:
            k = str(rng.choice(["bernoulli", "bernoulli", "box", "lower", "upper", "soft", "unity"]))
            v = np.asarray(pilot.distances)
            if k == "bernoulli":
                spec["dist_sel"] = dict(kind=k, params=dict(probability=float(rng.choice([0, 0.3, 0.5, 0.8, 1]))))
            elif k == "unity":
                spec["dist_sel"] = dict(kind=k)
            else:
                spec["dist_sel"] = r_cut(rng, k, "distance", v)
    if rng.uniform() < 0.45:
        if sels == "probe" or rng.uniform() < 0.2:
            spec["spatial_sel"] = mon("monspatial")
        elif rng.uniform() < 0.5:
            spec["spatial_sel"] = dict(kind="galplane", params=dict(b_limit=_u(rng, 0, 60)))
        else:
            v = np.asarray(pilot.distances)
            lo, hi = sorted((abs(q_of(v, rng.uniform(0, 0.5))), abs(q_of(v, rng.uniform(0.5, 1)))))
            spec["spatial_sel"] = dict(kind="distance", params=dict(min_distance=lo, max_distance=hi))
    return spec
