"""Latent flux = transform(own luminosity, own distance)."""
import numpy as np

from monitor import gen, refs, world
from monitor.core import Check


class C06(Check):
    pid = "C06"
    quick = 700
    thorough = 12000
    rule = "random synths over all spatial distributions and luminosity sources; non-trivial: more than one object with different luminosities and distances"
    required = ("objects", "derived", "direct", "cosmo", "sphere", "flat", "user", "derived_over_lum")
    assumptions = ("the luminosity distance of the code may deviate by 2 percent from the exact one (its accuracy is decided by C24)",)

    def directed(self, tier):
        import itertools

        out = []
        rng = np.random.default_rng(5)
        for i, (k, der) in enumerate(itertools.product(gen.SPATIAL, (False, True))):
            s = gen.r_spec(rng, n=(40, 60), aux=(1, 3), derived=der, spatial=[k], sels="probe" if i % 2 else "none")
            s["draw"].pop("flux_sigma", None)
            out.append(s)
            if der:
                # a derived luminosity with a luminosity distribution present
                s2 = dict(s, lum=gen.r_lum(rng))
                out.append(s2)
        # large surveys
        for i, n in enumerate((300, 3000, 70000)):
            out.append(lambda n=n, i=i: gen.large(n, i, derived=False))
        return out

    def gen(self, rng, idx, tier):
        return gen.r_spec(rng, n=(2, 80), aux=(0, 5))

    def run(self, spec, mon):
        gen.trace_clear()
        gen.progress(spec["progress"])
        b = gen.build(spec)
        pop = gen.draw(b)
        n = pop.n_objects
        L, r = world.arr(pop.luminosities), world.arr(pop.distances)
        f = world.lat(pop.fluxes)
        mon.check(len(L) == n and len(r) == n and len(f) == n, "latent-flux", "lengths", n=n)
        mon.same(world.lat(pop.luminosities), L, "luminosity-latent", "luminosities are always latent")
        mon.same(world.lat(pop.distances), r, "distance-latent", "distances are latent")
        ref = refs.transform(spec["spatial"], L, r)
        kind = spec["spatial"]["kind"]
        ok = np.isfinite(ref)
        mon.same(f[ok], ref[ok], "latent-flux", f"latent fluxes of {kind} are the transform of luminosity and distance", rtol=refs.transform_rtol(kind))
        if kind in gen.COSMO and np.any(ok) and n > 1:
            # the same approximation for all objects: smooth in redshift
            d2 = L[ok] / f[ok]
            o = np.argsort(r[ok])
            mon.check(np.all(np.diff(d2[o]) >= -1e-9 * d2[o][1:]), "latent-flux", "L/F grows with redshift")
        # the population agrees with the transform the user calls
        again = np.asarray(b.spatial.transform(L.copy(), r.copy()))
        mon.same(again, f, "latent-flux-user", "transform called by the user", rtol=1e-12)
        # luminosity enters as a factor
        if kind in gen.COSMO and n:
            one = np.asarray(b.spatial.transform(np.ones(n), r.copy()))
            mon.same(f, L * one, "latent-flux", f"latent fluxes of {kind} are proportional to luminosity", rtol=1e-12)
            k = int(n // 2)
            mon.check(np.isclose(float(b.spatial.transform(L[k], r[k])), f[k], rtol=1e-10, atol=1e-300), "latent-flux-user", "transform of a single object")
        mon.ev("objects", n)
        mon.ev("cosmo" if kind in gen.COSMO else "sphere" if kind in gen.SPHERE else "flat" if kind == "flatland" else "user")
        der = world.derived_of(spec)
        if der is not None:
            mon.ev("derived")
            if spec["lum"] is not None:
                mon.ev("derived_over_lum")
            ev = [t for t in gen.TRACE if t["ev"] == "lum"]
            mon.check(len(ev) >= 1, "derived-luminosity", "the derived luminosity was computed")
            if ev:
                mon.same(L, ev[-1]["out"], "derived-luminosity", "luminosities are the derived ones")
                tv = world.lat(getattr(pop, der["name"]))
                mon.same(tv, ev[-1]["true"], "derived-luminosity", "computed from the sampled values of the survey")
                # recompute from the values in the population
                if der["kind"] == "derived":
                    e = 1.0 + 0.1 * tv
                    for s in der["sec"]:
                        e = e + 0.05 * world.lat(getattr(pop, s))
                    mon.same(L, np.power(10.0, np.clip(e, -6, 6)), "derived-luminosity", "recomputed from the population", rtol=1e-12)
                else:
                    mon.same(L, (1 + r) * np.exp(np.clip(0.2 * tv, -10, 10)) if kind != "spiral" else L, "derived-luminosity", "recomputed from the population", rtol=1e-12)
        else:
            mon.ev("direct")
            pdf, cdf, lo, hi = refs.lum_dist(spec["lum"])
            tol = 1e-9
            mon.check(np.all(L >= lo * (1 - tol)) and np.all(L <= hi * (1 + tol)), "luminosity-source", "luminosities are those of the attached distribution", lo=lo, hi=hi, L=L)
        mon.nontrivial = n > 1 and len(np.unique(np.round(r, 12))) > 1
        mon.state(kind, der is not None and der["kind"], spec["lum"] and spec["lum"]["kind"], n > 1)


CHECK = C06()
