"""Sampled distances follow the declared density."""
import numpy as np
import popsynth

from monitor import gen, refs, world
from monitor.core import Check


class C02(Check):
    pid = "C02"
    quick = 110
    thorough = 1500
    quick_s = 60
    rule = "random spatial distributions and parameters; samples drawn by surveys and by the distribution, with and without progress bars and normalization; non-trivial: a sample of at least 1000 was compared with the reference distribution function"
    required = ("distances", "normalized", "progress", "quiet", "scaled", "by_survey", "declared", "whole_numbers", "peaked")
    assumptions = ("reference distances of an exact flat universe; the code's approximation differs by less than the resolution of the tests",)

    def directed(self, tier):
        out = []
        for k in gen.SPATIAL:
            for norm in (False, True):
                for prog in (False, True):
                    rng = np.random.default_rng(sum(map(ord, k)) + 3 * norm)
                    s = gen.r_spatial(rng, [k], defaults=0)
                    out.append(dict(spatial=s, normalize=norm, progress=prog, n=2500, seed=11, scale=3.7))
        for k in gen.COSMO:
            for rate in (False, True):
                s = dict(kind=k, is_rate=rate, params={
                    "zpow_cosmo": dict(Lambda=5.0, delta=0.5, r_max=8.0),
                    "sfr": dict(r0=3.0, a=1.0, rise=0.5, decay=1.2, peak=4.0, r_max=8.0),
                    "uniform_cosmo": dict(r0=3.0, zmin=0.0, zmax=5.0, r_max=8.0)}[k])
                out.append(dict(spatial=s, normalize=False, progress=False, n=6000, seed=3, scale=1.0))
        for k in ("flatland", "cons_sphere", "zpow_cosmo"):
            for prog in (False, True):
                s = gen.r_spatial(np.random.default_rng(12), [k], defaults=0)
                out.append(dict(spatial=s, normalize=False, progress=prog, n=40000, seed=21, scale=1.0))
        rng = np.random.default_rng(8)
        for i in range(8):
            out.append(dict(spatial=self.peaked(rng), normalize=i % 4 == 1, progress=i % 3 == 1, n=5000, seed=4 + i, scale=1.0, peaked=True))
        return out

    def peaked(self, rng):
        """A density whose peak is narrow compared to the range of distances, but resolved by some hundred points."""
        while True:
            k = str(rng.choice(["sfr", "shell", "zpow_sphere", "zpow_cosmo"]))
            s = gen.r_spatial(rng, [k], defaults=0)
            P = s["params"]
            if k == "sfr":
                P.update(a=float(rng.uniform(0.001, 0.3)), rise=float(rng.uniform(0.5, 3)), decay=float(rng.uniform(5, 16)), peak=float(rng.uniform(0.3, 1.0)))
            elif k == "shell":
                P["w"] = float(rng.uniform(0.02, 0.15) * P["r_max"])
                P["c"] = float(rng.uniform(0.1, 0.9) * P["r_max"])
            else:
                P["delta"] = float(-rng.uniform(8, 40))
            f = refs.spatial_density(s, unit=True)
            y = np.array([float(f(x)) for x in np.linspace(0.0, float(P["r_max"]), 2001)[1:]])
            if np.all(np.isfinite(y)) and 0.02 < y.mean() / y.max() < 0.13:
                return s

    def gen(self, rng, idx, tier):
        if rng.uniform() < 0.2:
            return dict(spatial=self.peaked(rng), normalize=bool(rng.uniform() < 0.4), progress=bool(rng.uniform() < 0.3), n=4000, seed=int(rng.integers(0, 2**31)), scale=1.0, peaked=True)
        return dict(spatial=gen.r_spatial(rng), normalize=bool(rng.uniform() < 0.4), progress=bool(rng.uniform() < 0.3),
                    n=int(rng.choice([1200, 3000, 5000] if tier == "quick" else [2000, 5000, 20000])), seed=int(rng.integers(0, 2**31)), scale=float(rng.choice([1.0, 1.0, 0.01, 250.0])))

    def run(self, spec, mon):
        sp = spec["spatial"]
        P = refs.spatial_params(sp)
        n = spec["n"]
        f = refs.spatial_density(sp, unit=True)
        cdf = refs.GridCDF(f, 0.0, float(P["r_max"]))
        gen.progress(spec["progress"])
        d = gen.build_spatial(sp)
        nname = refs.NORMALIZATION.get(sp["kind"])
        if nname and spec["scale"] != 1.0:
            setattr(d, nname, P[nname] * spec["scale"])
            mon.ev("scaled")
        dens = refs.number_density(sp)
        if dens is not None:
            k = spec["scale"] if nname and spec["scale"] != 1.0 else 1.0
            grid = np.linspace(0.0, float(P["r_max"]), 41)
            mon.same(np.asarray(d.dNdV(grid)) + 0 * grid, k * dens(grid), "declared-density", f"number density of {sp['kind']}", rtol=1e-9)
            mon.same(np.array([float(d.dNdV(x)) for x in grid[1:7]]), k * dens(grid)[1:7], "declared-density", f"number density of {sp['kind']}, one by one", rtol=1e-9)
            # whole numbers
            for z in (np.arange(0, int(P["r_max"]) + 1), *range(1, min(4, int(P["r_max"]) + 1))):
                mon.same(np.asarray(d.dNdV(z)) + 0.0 * z, k * dens(np.asarray(z, dtype=float)), "declared-density", f"number density of {sp['kind']} at whole numbers", rtol=1e-9)
                mon.ev("whole_numbers")
            mon.ev("declared")
        np.random.seed(spec["seed"])
        d.draw_distance(size=n, normalize=spec["normalize"])
        r = world.arr(d.distances)
        self.judge(mon, r, n, P, cdf, sp, "distribution")
        if sp["kind"] != "spiral":
            m = n // 2
            b = gen.build(dict(seed=spec["seed"] % (2**31), spatial=sp, lum=dict(kind="delta", params=dict(Lp=2.0)), aux=[], top=[]))
            pop = b.synth.draw_survey(n_samples=m, normalize=spec["normalize"])
            self.judge(mon, world.arr(pop.distances), m, P, cdf, sp, "survey")
            mon.ev("by_survey")
        if spec.get("peaked"):
            mon.ev("peaked")
        mon.ev("normalized" if spec["normalize"] else "unnormalized")
        mon.ev("progress" if spec["progress"] else "quiet")
        mon.nontrivial = n >= 1000
        mon.state(sp["kind"], spec["normalize"], spec["progress"], sp.get("is_rate"), int(P["r_max"]))

    def judge(self, mon, r, n, P, cdf, sp, what):
        mon.ev("distances", len(r))
        if not mon.check(r.shape == (n,) and np.all(np.isfinite(r)), "distance-number", f"{n} finite distances", shape=r.shape):
            return
        mon.check(np.all(r >= 0) and np.all(r <= P["r_max"]), "distance-range", f"distances of the {what} lie in [0, {P['r_max']}]", lo=r.min(), hi=r.max())
        mon.pvalue(refs.ks_p(r, cdf), "distance-distribution", f"distances of the {what} follow the density of {sp['kind']}", spatial=sp, n=n)
        u = cdf(r)
        mon.pvalue(refs.corr_p(u[1:], u[:-1]), "distance-independence", "successive distances are independent")
        mon.pvalue(refs.corr_p(u, np.arange(n)), "distance-independence", "distances do not depend on the index")
        mon.check(refs.repeated_ok(r), "distance-independence", "distances are distinct draws", n=n, distinct=len(np.unique(r)))


CHECK = C02()
