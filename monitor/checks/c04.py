"""Luminosity functions: density, normalization, support and sampling."""
import numpy as np
from scipy import integrate

from monitor import gen, refs, world
from monitor.core import Check


class C04(Check):
    pid = "C04"
    quick = 420
    thorough = 8000
    rule = "all luminosity distributions with random parameters (floats, integers, indices of -1); non-trivial: at least 1000 luminosities compared with the reference distribution"
    required = ("luminosities", "density_points", "integer_luminosities", "outside_points", "integer_parameters", "index_minus_one", "by_survey", "large_integer_luminosities")

    def directed(self, tier):
        out = []
        for k, P in [
            ("pareto", dict(Lmin=1, alpha=1)), ("pareto", {}), ("pareto", dict(Lmin=3, alpha=2)), ("schechter", {}), ("schechter", dict(Lmin=2, alpha=0)),
            ("schechter", dict(Lmin=2.0, alpha=-0.5)), ("bpl", dict(Lmin=1, alpha=-1, Lbreak=10, beta=-2, Lmax=100)), ("bpl", dict(Lmin=1, alpha=-2, Lbreak=10, beta=-1, Lmax=100)),
            ("bpl", dict(Lmin=1.0, alpha=-1.0, Lbreak=10.0, beta=-1.0, Lmax=100.0)), ("bpl", dict(Lmin=1, alpha=1, Lbreak=2, beta=-3, Lmax=4)), ("bpl", dict(Lmin=2, alpha=0, Lbreak=5, beta=0, Lmax=9)),
            ("lognorm", dict(mu=0, tau=1)), ("log10norm", dict(mu=0, tau=1)), ("log10norm", dict(mu=3.0, tau=0.2)), ("loguni", dict(Lmin=1, Lmax=100)), ("delta", dict(Lp=5)), ("delta", {}), ("monlum", {}),
        ]:
            out.append(dict(lum=dict(kind=k, params=P), n=20000, seed=len(out)))
            if P and k != "bpl":
                out.append(dict(lum=dict(kind=k, params=P), n=150000, seed=len(out)))
        # large integers
        E = 10
        for k, P in [
            ("pareto", dict(Lmin=10, alpha=2)), ("pareto", dict(Lmin=E**9, alpha=3)), ("pareto", dict(Lmin=E**18, alpha=2)), ("pareto", dict(Lmin=E**52, alpha=1)),
            ("schechter", dict(Lmin=E**8, alpha=3)), ("schechter", dict(Lmin=E**18, alpha=2)), ("schechter", dict(Lmin=E**52, alpha=1)),
            ("bpl", dict(Lmin=E**8, alpha=2, Lbreak=E**9, beta=-4, Lmax=E**10)), ("bpl", dict(Lmin=E**50, alpha=-1, Lbreak=E**51, beta=-2, Lmax=E**52)),
            ("loguni", dict(Lmin=E**17, Lmax=E**18)), ("loguni", dict(Lmin=E**50, Lmax=E**52)), ("delta", dict(Lp=E**52)), ("delta", dict(Lp=E**12)),
        ]:
            out.append(dict(lum=dict(kind=k, params=P), n=20000, seed=len(out)))
        # luminosities in erg/s
        for k, P in [
            ("pareto", dict(Lmin=1e52, alpha=1.5)), ("pareto", dict(Lmin=3e48, alpha=3.0)), ("schechter", dict(Lmin=1e51, alpha=-0.5)), ("schechter", dict(Lmin=1e52, alpha=2.5)),
            ("bpl", dict(Lmin=1e50, alpha=-1.2, Lbreak=2e51, beta=-2.5, Lmax=1e54)), ("bpl", dict(Lmin=1e46, alpha=0.5, Lbreak=1e51, beta=-3.5, Lmax=1e53)),
            ("loguni", dict(Lmin=1e44, Lmax=1e54)), ("lognorm", dict(mu=118.0, tau=1.0)), ("log10norm", dict(mu=52.0, tau=0.7)), ("delta", dict(Lp=1e52)),
        ]:
            out.append(dict(lum=dict(kind=k, params=P), n=20000, seed=len(out)))
        # indices within rounding of -1, and near
        for e in (1.2e-16, 2.3e-16, 9e-16, 1e-14, 1e-12, 1e-10, 1e-8, 2e-7, 1e-5):
            for a in (-1 + e, -1 - e):
                out.append(dict(lum=dict(kind="bpl", params=dict(Lmin=1.0, alpha=a, Lbreak=30.0, beta=-2.5, Lmax=1e3)), n=5000, seed=len(out)))
                out.append(dict(lum=dict(kind="bpl", params=dict(Lmin=1.0, alpha=0.5, Lbreak=2.0, beta=a, Lmax=1e3)), n=5000, seed=len(out)))
        return out

    def gen(self, rng, idx, tier):
        d = gen.r_lum(rng)
        if rng.uniform() < 0.2:
            # other units
            f = float(10.0 ** int(rng.integers(-20, 51)))
            for k in ("Lmin", "Lbreak", "Lmax", "Lp", "s"):
                if k in d["params"]:
                    d["params"][k] *= f
        elif rng.uniform() < 0.25:
            for k, v in d["params"].items():
                if float(v) == round(v) or (abs(v) >= 2 and k != "alpha" and k != "beta"):
                    d["params"][k] = int(round(v))
        return dict(lum=d, n=int(rng.choice([1, 2000, 8000, 20000])), seed=int(rng.integers(0, 2**31)))

    def run(self, spec, mon):
        d = spec["lum"]
        k = d["kind"]
        n = spec["n"]
        obj = gen.build_lum(d)
        P = refs.lum_params(d)
        pdf, cdf, lo, hi = refs.lum_dist(d)
        np.random.seed(spec["seed"])
        L = world.arr(obj.draw_luminosity(size=n))
        mon.ev("luminosities", n)
        if any(isinstance(v, int) for v in P.values()):
            mon.ev("integer_parameters")
        if k == "bpl" and -1 in (P["alpha"], P["beta"]):
            mon.ev("index_minus_one")
        if not mon.check(L.shape == (n,) and np.all(np.isfinite(L)), "luminosity-number", f"{n} finite luminosities", L=L):
            return
        tol = 1e-9
        mon.check(np.all(L >= lo * (1 - tol)) and np.all(L <= hi * (1 + tol)), "luminosity-support", f"luminosities lie in [{lo}, {hi}]", lo=L.min(), hi=L.max(), lum=d)
        # the same through a survey
        b = gen.build(dict(seed=spec["seed"], spatial=dict(kind="cons_sphere", params=dict(Lambda=1.0, r_max=2.0)), lum=d, aux=[], top=[]))
        m = min(n, 400)
        pop = b.synth.draw_survey(n_samples=m)
        Ls = world.arr(pop.luminosities)
        mon.check(len(Ls) == m and np.all(Ls >= lo * (1 - tol)) and np.all(Ls <= hi * (1 + tol)), "luminosity-support", "luminosities of a survey lie in the support")
        mon.ev("by_survey")
        if k == "delta":
            lp = P["Lp"]
            x = np.array([lp, lp + max(1.0, 1e-6 * lp), lp * 0.5 - 1.0, lp], dtype=float)
            mon.same(obj.phi(x), np.array([1.0, 0.0, 0.0, 1.0]), "delta-density", "density of the delta function")
            mon.same([obj.phi(float(v)) for v in x], [1.0, 0.0, 0.0, 1.0], "delta-density", "density of a scalar")
            mon.nontrivial = n > 500
            mon.state(k, n)
            return
        mon.pvalue(refs.ks_p(L, cdf), "luminosity-distribution", f"luminosities of {k} follow the distribution", lum=d)
        mon.pvalue(refs.ks_p(Ls, cdf), "luminosity-distribution", f"luminosities of a survey of {k} follow the distribution", lum=d)
        mon.check(refs.repeated_ok(L), "luminosity-independence", "luminosities are distinct", repeated=refs.repeated(L), n=n)
        if n > 100:
            mon.pvalue(refs.corr_p(L[1:], L[:-1]), "luminosity-independence", "luminosities are independent")
            mon.pvalue(refs.corr_p(L, np.arange(n)), "luminosity-independence", "luminosities are independent of the index")
        # density inside
        a = max(lo, 1e-12)
        q = np.quantile(L, np.linspace(0.001, 0.999, 60)) if n > 60 else np.atleast_1d(L[:1])
        x = q[(q > lo * (1 + 1e-9)) & (q < hi * (1 - 1e-9) if np.isfinite(hi) else True)]
        ref = pdf(x)
        got = np.asarray(obj.phi(x.copy()))
        rtol = 2e-3 if k == "bpl" else 1e-9
        mon.same(got, ref, "density", f"density of {k}", rtol=rtol)
        mon.ev("density_points", len(x))
        # spread beyond the quantiles
        far = np.geomspace(max(lo, np.min(L) * 1e-2, 1e-9) * (1 + 1e-6), (hi if np.isfinite(hi) else np.max(L) * 1e2) * (1 - 1e-6), 40)
        if k != "schechter":
            mon.same(np.asarray(obj.phi(far.copy())), pdf(far), "density", f"density of {k}", rtol=rtol, atol=1e-290)
        else:
            far = far[far < 500 * P["Lmin"]]
            mon.same(np.asarray(obj.phi(far.copy())), pdf(far), "density", f"density of {k}", rtol=1e-8)
        mon.check(np.all(np.asarray(obj.phi(far.copy())) >= 0), "density", "the density is not negative")
        # outside
        out = []
        if lo > 0:
            out += [lo * 0.5, lo * 0.999, lo * 1e-3]
        if np.isfinite(hi):
            out += [hi * 1.001, hi * 2, hi * 1e3]
        if out:
            z = np.asarray(obj.phi(np.array(out)))
            mon.check(np.all(z == 0), "density-outside", "the density vanishes outside of the support", at=out, values=z)
            mon.ev("outside_points", len(out))
        # integers
        ints = np.unique(np.clip(np.round(np.geomspace(max(1, a), max(2, min(hi, 1e9, np.max(L))), 12)), 1, 2**31)).astype(np.int64)
        g = ints.astype(float)
        if k == "bpl":
            keep = (g != P["Lmin"]) & (g != P["Lmax"])
            ints, g = ints[keep], g[keep]
        if len(ints) and np.all(np.isfinite(pdf(g))):
            with np.errstate(all="ignore"):
                fi, ff = np.asarray(obj.phi(ints.copy()), dtype=float), np.asarray(obj.phi(g.copy()), dtype=float)
            ok = np.isfinite(ff)
            mon.same(fi[ok], ff[ok], "density-integers", "density of integer luminosities", rtol=1e-9)
            mon.ev("integer_luminosities", len(ints))
        # large ones
        big = [v for v in (1.001, 1.5, 3.0, 9.0) for v in (int(max(lo, 1) * v),) if 1 < v < 9 * 10**18 and lo < v < hi]
        big += [v for v in (10**4 + 1, 10**6 + 3, 10**9 + 7, 10**12) if lo < v < hi]
        if big:
            g = np.array(big, dtype=float)
            want = pdf(g)
            ok = np.isfinite(want) & (want > 1e-250) & (np.array([v not in P.values() for v in big]))
            for dt in (np.int64, np.int32, np.uint64):
                fit = ok & (g < np.iinfo(dt).max)
                mon.same(np.asarray(obj.phi(np.array([v for v, o in zip(big, fit) if o], dtype=dt)), dtype=float), want[fit], "density-integers", f"density of large {np.dtype(dt)} luminosities", rtol=rtol)
                mon.ev("large_integer_luminosities", int(np.sum(fit)))
        # normalization of the declared density
        if n >= 8000:
            lo_i, hi_i = (a if lo > 0 else np.min(L) * 1e-3), (hi if np.isfinite(hi) else np.max(L) * 1e3)
            t = np.linspace(np.log(lo_i) + 1e-9, np.log(hi_i) - 1e-9, 20001)
            y = np.asarray(obj.phi(np.exp(t))) * np.exp(t)
            with np.errstate(all="ignore"):
                s = integrate.simpson(y, x=t)
            want = float(cdf(hi_i) - cdf(lo_i))
            mon.check(abs(s - want) < 5e-3, "density-normalization", f"the density integrates to {s}, expected {want}", lum=d)
            mon.ev("integrals")
        mon.nontrivial = n > 500
        mon.state(k, sorted(d["params"]), n, any(isinstance(v, int) for v in P.values()))


CHECK = C04()
