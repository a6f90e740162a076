"""Observed fluxes."""
import numpy as np

from monitor import gen, refs, world
from monitor.core import Check


class C07(Check):
    pid = "C07"
    quick = 320
    thorough = 6000
    rule = "surveys with a flux selection and errors from 1e-4 to 3 in decadic or natural logarithms, or none; non-trivial: more than 300 residuals"
    required = ("residuals", "zero_error", "log10", "ln", "no_error", "repeat_sigma", "no_selection_no_error")

    def directed(self, tier):
        out = []
        for j, draw in enumerate((dict(flux_sigma=0.3), dict(flux_sigma=0.3, log10_flux_draw=True), dict(flux_sigma=0.3, log10_flux_draw=False), dict(), dict(log10_flux_draw=False), dict(flux_sigma=1e-3), dict(flux_sigma=2, log10_flux_draw=False))):
            for sel in ("hardflux", "softflux", "mon", "bernoulli", "box", None):
                for k in ("cons_sphere", "zpow_cosmo"):
                    rng = np.random.default_rng(j)
                    if sel is None and "flux_sigma" in draw:
                        continue
                    out.append(self.make(rng, k, draw, sel, 1200, derived=False))
        for k in gen.SPATIAL:
            for log in (True, False):
                out.append(self.make(np.random.default_rng(3), k, dict(flux_sigma=0, log10_flux_draw=log), "mon", 60, derived=log))
        for n in (2500, 5000, 12000, 40000):
            for log in (True, False):
                out.append(self.make(np.random.default_rng(4), "cons_sphere", dict(flux_sigma=0.3, log10_flux_draw=log), "mon", n, derived=False))
        # fluxes of any magnitude
        for L in (1e-170, 1e-30, 1e52, 1e200):
            for k in ("cons_sphere", "flatland"):
                for draw in (dict(flux_sigma=0.3), dict(flux_sigma=0.3, log10_flux_draw=False), dict()):
                    s = self.make(np.random.default_rng(3), k, draw, "mon", 700, derived=False)
                    s["lum"] = dict(kind="pareto", params=dict(Lmin=L, alpha=1.5))
                    out.append(s)
        return out

    def make(self, rng, k, draw, sel, n, derived):
        s = gen.r_spec(rng, n=(n, n), aux=(0, 2), derived=derived, spatial=[k], sels="none")
        s["draw"] = dict(draw, n_samples=n)
        s["progress"] = False
        s["flux_sel"] = None if sel is None else {
            "hardflux": dict(kind="hardflux", params=dict(boundary=1e-3)),
            "softflux": dict(kind="softflux", params=dict(boundary=1e-3, strength=2.0)),
            "mon": dict(kind="mon", params=dict(salt=3)),
            "bernoulli": dict(kind="bernoulli", params=dict(probability=0.4)),
            "box": dict(kind="box", on="flux", params=dict(vmin=1e-5, vmax=1e3)),
        }[sel]
        return s

    def gen(self, rng, idx, tier):
        d = {}
        if rng.uniform() < 0.8:
            d["flux_sigma"] = float("%.4g" % 10 ** rng.uniform(-4, 0.5))
            if rng.uniform() < 0.15:
                d["flux_sigma"] = int(rng.integers(1, 3))
        if rng.uniform() < 0.5:
            d["log10_flux_draw"] = bool(rng.uniform() < 0.4)
        return self.make(rng, str(rng.choice(list(gen.SPATIAL))), d, str(rng.choice(["hardflux", "softflux", "mon", "bernoulli", "box"])),
                         int(rng.choice([1, 5, 600, 1500, 2600], p=[0.2, 0.2, 0.25, 0.25, 0.1])), bool(rng.uniform() < 0.3))

    def run(self, spec, mon):
        gen.trace_clear()
        b = gen.build(spec)
        pop = gen.draw(b)
        d = spec["draw"]
        n = pop.n_objects
        f, o = world.lat(pop.fluxes), world.arr(pop.fluxes)
        mon.check(len(f) == n and len(o) == n and np.all(np.isfinite(o)) and np.all(o > 0), "flux-values", "observed fluxes are positive and finite")
        sig = d.get("flux_sigma")
        if sig is None:
            mon.same(o, f, "flux-no-error", "observed fluxes are latent fluxes")
            mon.check(pop.flux_sigma == -1, "flux-sigma", "no error is reported as -1", got=pop.flux_sigma)
            mon.ev("no_error" if spec["flux_sel"] else "no_selection_no_error")
        else:
            if d.get("log10_flux_draw", True):
                e = np.log10(o) - np.log10(f)
                mon.ev("log10")
            else:
                e = np.log(o) - np.log(f)
                mon.ev("ln")
            mon.check(pop.flux_sigma == sig, "flux-sigma", f"the error {sig} is reported", got=pop.flux_sigma)
        if sig == 0:
            mon.same(o, f, "flux-no-error", "an error of zero leaves the fluxes", rtol=1e-11)
            mon.ev("zero_error")
            pop2 = b.synth.draw_survey(**dict(d, flux_sigma=0.5))
            if n > 1:
                mon.check(np.all(np.abs(world.arr(pop2.fluxes) / world.lat(pop2.fluxes) - 1) > 1e-9), "flux-error", "errors in a second survey")
        elif sig is not None:
            mon.pvalue(refs.norm_ks_p(e, sig), "flux-error", "residuals are normal", sigma=sig, std=float(np.std(e)), draw=d)
            mon.pvalue(refs.var_p(e, sig), "flux-error", "variance of the residuals", sigma=sig, std=float(np.std(e)))
            mon.pvalue(refs.mean_p(e, sig), "flux-error", "mean of the residuals")
            if n > 100:
                if len(np.unique(f)) > n // 2:
                    mon.pvalue(refs.corr_p(e, f), "flux-error", "residuals are independent of the flux")
                    mon.pvalue(refs.corr_p(np.abs(e), f), "flux-error", "residuals are homoskedastic")
                mon.pvalue(refs.corr_p(e[1:], e[:-1]), "flux-error", "residuals are independent")
                mon.pvalue(refs.corr_p(np.abs(e[1:]), np.abs(e[:-1])), "flux-error", "residuals are independent")
                mon.pvalue(refs.corr_p(e, world.arr(pop.distances)), "flux-error", "residuals are independent of the distance")
            mon.ev("residuals", n)
            if sig > 0.05:
                mon.check(refs.repeated_ok(e / sig, 10), "flux-error", "every object has an error of its own", repeated=refs.repeated(e / sig, 10), n=n)
            # a second survey keeps the kind of error
            sig2 = sig * 0.5
            pop2 = b.synth.draw_survey(**dict(d, flux_sigma=sig2))
            lg = np.log10 if d.get("log10_flux_draw", True) else np.log
            e2 = lg(world.arr(pop2.fluxes)) - lg(world.lat(pop2.fluxes))
            mon.pvalue(refs.var_p(e2, sig2), "flux-error", "variance in a second survey", sigma=sig2)
            mon.check(pop2.flux_sigma == sig2, "flux-sigma", "error of a second survey")
            mon.ev("repeat_sigma")
        # the flux selection was given the observed fluxes
        for t in gen.TRACE:
            if t["ev"] == "select" and t.get("flux") is not None and spec["flux_sel"] and t["salt"] == spec["flux_sel"]["params"].get("salt"):
                last = pop2 if sig is not None else pop
        if spec["flux_sel"] and spec["flux_sel"]["kind"] == "mon":
            ts = [t for t in gen.TRACE if t["ev"] == "select" and t["salt"] == 3]
            if mon.check(len(ts) >= 1, "flux-selection-input", "the flux selection was used"):
                mon.same(ts[0]["flux"], o, "flux-selection-input", "the flux selection sees the observed fluxes")
        mon.nontrivial = n > 300
        mon.state(sig is not None, d.get("log10_flux_draw"), spec["flux_sel"] and spec["flux_sel"]["kind"], spec["spatial"]["kind"])


CHECK = C07()
