"""Sky positions."""
import numpy as np
from scipy import stats
import popsynth
from popsynth.utils.spherical_geometry import sample_theta_phi, xyz
from popsynth.aux_samplers.sky_sampler import DecSampler, RASampler, SkySampler

from monitor import gen, refs, world
from monitor.core import Check


# positions at the poles, the equator and where the coordinates begin and end
SEAM_THETA = [0.0, 1e-300, 1e-12, 1e-6, 0.5 * np.pi - 1e-12, 0.5 * np.pi, 0.5 * np.pi + 1e-12, np.pi - 1e-6, np.pi - 1e-15, np.pi, 1.0, 2.0]
SEAM_PHI = [0.0, 1e-300, 1e-12, 1e-6, np.pi - 1e-12, np.pi, np.pi + 1e-9, 1.5 * np.pi, 2 * np.pi - 1e-6, 2 * np.pi - 1e-12, 2 * np.pi, 3.0, 0.5 * np.pi]


class C03(Check):
    pid = "C03"
    quick = 220
    thorough = 3000
    rule = "surveys and distributions of all kinds, sky samplers and coordinate functions; non-trivial: at least 500 positions"
    required = ("positions", "isotropic", "spiral", "samplers", "ra_dec", "probe_inputs", "small_sizes", "arms", "seam")

    def directed(self, tier):
        return [dict(what=w, n=n, seed=n + 1, spatial=gen.r_spatial(np.random.default_rng(n), [k]))
                for w in ("survey", "samplers") for n in (0, 1, 2, 4000) for k in gen.SPATIAL] + [
            dict(what="samplers", n=400000, seed=5, spatial=gen.r_spatial(np.random.default_rng(4), ["cons_sphere"])),
            dict(what="positions", n=400000, seed=6, spatial=gen.r_spatial(np.random.default_rng(4), ["cons_sphere"])),
            dict(what="positions", n=400000, seed=7, spatial=gen.r_spatial(np.random.default_rng(4), ["zpow_cosmo"])),
            dict(what="positions", n=400000, seed=8, spatial=gen.r_spatial(np.random.default_rng(4), ["flatland"])),
            dict(what="seam", n=2 * len(SEAM_THETA), seed=1, spatial=gen.r_spatial(np.random.default_rng(3), ["cons_sphere"])),
            dict(what="seam", n=3 * len(SEAM_THETA), seed=1, spatial=gen.r_spatial(np.random.default_rng(3), ["plain"])),
            dict(what="spiral", n=6000, seed=1, spatial=gen.r_spatial(np.random.default_rng(3), ["spiral"]))]

    def gen(self, rng, idx, tier):
        w = str(rng.choice(["survey", "survey", "samplers", "spiral"]))
        return dict(what=w, n=int(rng.choice([3, 600, 2000, 4000])), seed=int(rng.integers(0, 2**31)),
                    spatial=gen.r_spatial(rng, ["spiral"] if w == "spiral" else None))

    def iso(self, mon, theta, phi, what):
        n = len(theta)
        mon.ev("isotropic", n)
        for x, w in ((theta, "theta"), (phi, "phi")):
            # no value is taken by many
            many = int(np.unique(x, return_counts=True)[1].max()) if n else 0
            mon.check(many <= 3 + n // 10**5, "sky-isotropy", f"{w} of {what}: one value is taken {many} times", n=n)
        if n > 1000:
            for eps in (1e-4, 1e-3, 1e-2):
                mon.pvalue(refs.binom_p(int(np.sum(np.cos(theta) > 1 - 2 * eps)), n, eps), "sky-isotropy", f"{what} at the north pole", eps=eps)
                mon.pvalue(refs.binom_p(int(np.sum(np.cos(theta) < 2 * eps - 1)), n, eps), "sky-isotropy", f"{what} at the south pole", eps=eps)
                mon.pvalue(refs.binom_p(int(np.sum(phi < 2 * np.pi * eps)), n, eps), "sky-isotropy", f"{what} after the origin of phi", eps=eps)
                mon.pvalue(refs.binom_p(int(np.sum(phi > 2 * np.pi * (1 - eps))), n, eps), "sky-isotropy", f"{what} before the origin of phi", eps=eps)
        mon.check(refs.repeated_ok(phi) and refs.repeated_ok(theta), "sky-isotropy", f"positions of {what} are distinct", n=n)
        mon.pvalue(refs.ks_p(np.cos(theta), lambda c: np.clip(0.5 * (1 + c), 0, 1)), "sky-isotropy", f"cos(theta) of {what} is uniform", n=n)
        mon.pvalue(refs.ks_p(phi, lambda p: np.clip(p / (2 * np.pi), 0, 1)), "sky-isotropy", f"phi of {what} is uniform", n=n)
        mon.pvalue(refs.corr_p(theta, phi), "sky-isotropy", f"theta and phi of {what} are independent")
        mon.pvalue(refs.corr_p(theta[1:], theta[:-1]), "sky-isotropy", f"positions of {what} are independent")
        mon.pvalue(refs.corr_p(phi[1:], phi[:-1]), "sky-isotropy", f"positions of {what} are independent")
        # neighbours in one coordinate (or in the list) are strangers in the other
        for o, w in ((np.arange(n), "the list"), (np.argsort(theta), "theta")):
            mon.pvalue(self.pairs_p(phi[o], 2 * np.pi), "sky-isotropy", f"phi of {what}: neighbours in {w}")
        for o, w in ((np.arange(n), "the list"), (np.argsort(phi), "phi")):
            mon.pvalue(self.pairs_p(0.5 * (1 + np.cos(theta[o])), 1.0), "sky-isotropy", f"theta of {what}: neighbours in {w}")

    def pairs_p(self, x, period):
        """Differences of disjoint pairs of uniform values are uniform on the circle."""
        m = len(x) // 2
        if m < 20:
            return 1.0
        d = np.mod(x[1 : 2 * m : 2] - x[0 : 2 * m : 2], period) / period
        return refs.ks_p(d, lambda u: np.clip(u, 0, 1))

    def arms(self, mon, r, phi):
        """Every object is on one of four arms, chosen by itself."""
        ok = np.flatnonzero(r > 3.0)
        if len(ok) < 200:
            return
        r, phi = r[ok], phi[ok]
        k, r0, t0 = np.array([4.25, 4.25, 4.89, 4.89]), np.array([3.48, 3.48, 4.90, 4.90]), np.array([0.0, 3.141, 2.525, 5.666])

        def off(x):
            return np.mod(x[:, None] - (k * np.log(r[:, None] / r0) + t0), 2 * np.pi)

        near = off(phi) <= 2 * np.pi * np.exp(-0.35 * r[:, None]) * (1 + 1e-9) + 1e-6
        mon.check(np.all(near.any(axis=1)), "spiral-arms", "objects are on the arms", off=int(np.sum(~near.any(axis=1))))
        one = near.sum(axis=1) == 1
        arm = np.argmax(near, axis=1)
        # the arms of neighbours in the list
        both = one[1:] & one[:-1]
        t = np.zeros((4, 4))
        np.add.at(t, (arm[:-1][both], arm[1:][both]), 1)
        t = t[t.sum(axis=1) > 0][:, t.sum(axis=0) > 0]
        if both.sum() > 200 and t.size and t.shape[0] > 1 and t.shape[1] > 1:
            mon.pvalue(float(stats.chi2_contingency(t)[1]), "spiral-arms", "arms of neighbours are independent")
            mon.ev("arms")
        # all arms are used alike
        rng = np.random.default_rng(len(r))
        i = rng.integers(0, 4, size=(25, len(r)))
        ref = k[i] * np.log(r / r0[i]) + t0[i] + rng.uniform(0, 2 * np.pi, size=i.shape) * np.exp(-0.35 * r)
        for a in range(4):
            x = k[a] * np.log(r / r0[a]) + t0[a]
            mon.pvalue(float(stats.ks_2samp(np.mod(phi - x, 2 * np.pi), np.mod(ref - x, 2 * np.pi).ravel(), method="asymp")[1]), "spiral-arms", "all arms are used alike")

    def valid(self, mon, theta, phi, n, what):
        mon.ev("positions", n)
        mon.check(len(theta) == n and len(phi) == n, "sky-number", f"{n} positions of {what}")
        mon.check(np.all((theta >= 0) & (theta <= np.pi)), "sky-range", f"theta of {what} in [0, pi]", theta=theta)
        mon.check(np.all((phi >= 0) & (phi <= 2 * np.pi)), "sky-range", f"phi of {what} in [0, 2 pi]", phi=phi)

    def run(self, spec, mon):
        n = spec["n"]
        sp = spec["spatial"]
        gen.trace_clear()
        if n < 3:
            mon.ev("small_sizes")
        if spec["what"] == "samplers":
            np.random.seed(spec["seed"])
            t, p = sample_theta_phi(n)
            self.valid(mon, t, p, n, "sample_theta_phi")
            self.iso(mon, t, p, "sample_theta_phi")
            r = np.random.uniform(0.1, 5, size=n)
            x, y, z = xyz(r, t, p)
            mon.same(np.sqrt(x**2 + y**2 + z**2), r, "xyz", "radius", rtol=1e-9)
            mon.same(z, r * np.cos(t), "xyz", "height", rtol=1e-9, atol=1e-12)
            mon.check(np.allclose(np.mod(np.arctan2(y, x), 2 * np.pi), np.mod(p, 2 * np.pi), atol=1e-7) if n else True, "xyz", "azimuth")
            for ra_s, dec_s in ((RASampler(), DecSampler()), (SkySampler().ra_sampler, SkySampler().dec_sampler)):
                ra_s.draw(size=n)
                dec_s.draw(size=n)
                ra, dec = world.arr(ra_s.true_values), world.arr(dec_s.true_values)
                mon.check(np.all((ra >= 0) & (ra <= 2 * np.pi)) and len(ra) == n, "sky-samplers", "right ascension in radians")
                mon.check(np.all((dec >= -np.pi / 2) & (dec <= np.pi / 2)) and len(dec) == n, "sky-samplers", "declination in radians")
                self.iso(mon, np.pi / 2 - dec, ra, "the sky samplers")
                mon.same(ra_s.obs_values, ra, "sky-samplers", "not observed")
                mon.same(dec_s.obs_values, dec, "sky-samplers", "not observed")
            mon.ev("samplers")
            mon.nontrivial = n > 500
            mon.state("samplers", n)
            return
        if spec["what"] == "positions":
            # many positions, no survey
            d = gen.build_spatial(sp)
            np.random.seed(spec["seed"])
            d.draw_sky_positions(n)
            t, p = world.arr(d.theta), world.arr(d.phi)
            self.valid(mon, t, p, n, sp["kind"])
            self.iso(mon, t, p, sp["kind"])
            mon.nontrivial = True
            mon.state("positions", sp["kind"])
            return
        if spec["what"] == "spiral":
            d = gen.build_spatial(sp)
            np.random.seed(spec["seed"])
            d.draw_distance(size=n)
            before = world.arr(d.distances)
            d.draw_sky_positions(size=n)
            after = world.arr(d.distances)
            mon.pvalue(refs.norm_ks_p(after / before - 1, 0.07), "spiral-scatter", "distances are scattered by 7 percent")
            mon.pvalue(refs.var_p(after / before - 1, 0.07), "spiral-scatter", "distances are scattered by 7 percent")
            th, ph = world.arr(d.theta), world.arr(d.phi)
            self.valid(mon, th, ph, n, "spiral galaxy")
            zz = np.abs(after) / np.tan(th)
            mon.pvalue(refs.ks_p(np.abs(zz), stats.expon(scale=0.3).cdf), "spiral-plane", "heights over the plane are exponential with 0.3")
            mon.pvalue(refs.binom_p(int(np.sum(zz > 0)), n, 0.5), "spiral-plane", "both sides of the plane")
            self.arms(mon, before, ph)
            mon.ev("spiral", n)
            mon.nontrivial = n > 500
            mon.state("spiral", n)
            return
        nodes = [dict(name="p0", kind="probe_d", observed=True, params={}, sec=["p1"], sel=None), dict(name="p1", kind="probe", observed=False, params={}, sec=[], sel=None)]
        b = gen.build(dict(seed=spec["seed"], spatial=sp, lum=dict(kind="pareto", params=dict(Lmin=1.0, alpha=2.0)), aux=nodes[::-1], top=["p0"]))
        if spec["what"] == "seam":
            def positions(size):
                b.spatial._theta = np.resize(SEAM_THETA, size)
                b.spatial._phi = np.resize(SEAM_PHI, size)

            # a distribution with positions of its own
            b.spatial.draw_sky_positions = positions
        pop = b.synth.draw_survey(n_samples=n)
        if spec["what"] == "seam":
            mon.same(pop.theta, np.resize(SEAM_THETA, n), "ra-dec", "theta of a distribution with positions of its own")
            mon.same(pop.phi, np.resize(SEAM_PHI, n), "ra-dec", "phi of a distribution with positions of its own")
            mon.ev("seam")
        th, ph = world.arr(pop.theta), world.arr(pop.phi)
        self.valid(mon, th, ph, n, sp["kind"])
        if spec["what"] == "seam":
            pass
        elif sp["kind"] != "spiral":
            self.iso(mon, th, ph, sp["kind"])
            r = world.arr(pop.distances)
            mon.pvalue(refs.corr_p(th, r), "sky-isotropy", "theta is independent of distance")
            mon.pvalue(refs.corr_p(ph, r), "sky-isotropy", "phi is independent of distance")
            o = np.argsort(r, kind="stable")
            mon.pvalue(self.pairs_p(ph[o], 2 * np.pi), "sky-isotropy", "phi is independent of distance (neighbours)")
            mon.pvalue(self.pairs_p(0.5 * (1 + np.cos(th[o])), 1.0), "sky-isotropy", "theta is independent of distance (neighbours)")
            o = np.argsort(world.arr(pop.luminosities), kind="stable")
            mon.pvalue(self.pairs_p(ph[o], 2 * np.pi), "sky-isotropy", "phi is independent of luminosity (neighbours)")
        elif n > 500:
            mon.check(np.mean(np.abs(np.cos(th))) < 0.25, "spiral-plane", "objects concentrate on the plane")
        tol = dict(rtol=1e-12, atol=1e-9)
        for o, w in ((pop, "population"), (b.spatial, "distribution"), (b.spatial.spatial_values, "spatial values")):
            mon.same(o.ra, np.rad2deg(ph), "ra-dec", f"right ascension of the {w}", **tol)
            mon.same(o.dec, 90 - np.rad2deg(th), "ra-dec", f"declination of the {w}", **tol)
            mon.same(o.theta, th, "ra-dec", f"theta of the {w}")
            mon.same(o.phi, ph, "ra-dec", f"phi of the {w}")
            mon.ev("ra_dec")
        mon.same(world.lat(pop.ra), np.rad2deg(ph), "ra-dec", "latent right ascension", **tol)
        mon.same(world.lat(pop.dec), 90 - np.rad2deg(th), "ra-dec", "latent declination", **tol)
        for t in gen.TRACE:
            if t["ev"] == "true":
                mon.same(t["given"]["_theta"], th, "ra-dec", "theta given to the samplers")
                mon.same(t["given"]["_phi"], ph, "ra-dec", "phi given to the samplers")
                mon.same(t["given"]["_ra"], np.rad2deg(ph), "ra-dec", "ra given to the samplers", **tol)
                mon.same(t["given"]["_dec"], 90 - np.rad2deg(th), "ra-dec", "dec given to the samplers", **tol)
                mon.ev("probe_inputs")
        mon.nontrivial = n > 500
        mon.state("survey", sp["kind"], n)


CHECK = C03()
