"""Cosmological distances and volumes."""
import json
import os
import subprocess
import sys

import numpy as np
import popsynth
from popsynth.distributions.cosmological_distribution import CosmologicalDistribution
from popsynth.utils.cosmology import cosmology

from monitor import gen, refs, world
from monitor.core import Check


def tol(om):
    """The stated accuracy of the distances."""
    return 5e-3 if om >= 0.3 else 3e-2


def consistent(mon, om, h0, z, dl, dv, what, f32=False):
    """Distances and volumes at z > 0 against the exact integral."""
    ref = refs.Cosmo(om, h0, zmax=max(12.0, float(np.max(z)) * 1.01))
    want = ref.dl_cm(z)
    dl, dv = np.asarray(dl, float), np.asarray(dv, float)
    t = tol(om)
    e = np.abs(dl / want - 1)
    i = int(np.argmax(e)) if len(e) else 0
    mon.check(np.all(np.isfinite(dl)) and np.all(e <= t), "luminosity-distance", f"{what}: luminosity distance within {t} of the exact one", Om=om, h0=h0, z=z[i], got=dl[i], want=want[i])
    o = np.argsort(z)
    d = np.diff(dl[o])
    far = np.diff(np.asarray(z)[o]) > 1e-9
    mon.check(np.all(d[far] > 0), "increases", f"{what}: the luminosity distance increases with redshift", Om=om)
    want = ref.dvdz(z)
    e = np.abs(dv / want - 1)
    i = int(np.argmax(e)) if len(e) else 0
    mon.check(np.all(np.isfinite(dv)) and np.all(e <= 2.2 * t), "volume", f"{what}: differential comoving volume", Om=om, h0=h0, z=z[i], got=dv[i], want=want[i])
    # and exactly the one of its own distances
    dm = dl / (1 + z) / refs.MPC_CM
    mon.same(dv, ref.dh * dm**2 / ref.E(z) * 1e-9, "volume", f"{what}: dH dM^2 / E per steradian in Gpc^3", rtol=1.5e-3)
    mon.ev("distances", len(z))
    mon.ev("volumes", len(z))
    return ref


class Powerlaw(CosmologicalDistribution):
    _distribution_name = "MonCosmoPowerlaw"

    def __init__(self, is_rate=True):
        super(Powerlaw, self).__init__(seed=1, name="mon_pl", form="1", is_rate=is_rate)

    def dNdV(self, z):
        return 30.0 * np.exp(-z)


class C24(Check):
    pid = "C24"
    quick = 55
    thorough = 4000
    quick_s = 60
    rule = "random matter densities in [0.2, 1], Hubble constants and redshifts, set at run time and in configuration files, in interpreted and compiled code; surveys drawn before and after a change; non-trivial: a cosmology other than the default one was used"
    required = ("distances", "volumes", "changes", "surveys", "config_files", "compiled", "auxiliary", "user_class", "h0_scaling", "scalars")

    def directed(self, tier):
        out = []
        k = 0
        for om in (0.3, 0.315, 0.5, 0.9, 1.0, 0.2, 0.25):
            for h0 in (50.0, 70, 100.0):
                out.append(dict(kind="numbers", steps=[dict(Om=om, h0=h0)], seed=k))
                k += 1
        for sp in gen.COSMO:
            for rate in (False, True):
                out.append(dict(kind="survey", spatial=sp, is_rate=rate, steps=[dict(h0=50.0), dict(Om=0.9), dict(Om=0.3, h0=80.0)], seed=k))
                k += 1
        # processes: a configuration file with some of the entries
        cfgs = [None, dict(Om=0.4), dict(h0=52.5), dict(Om=0.35, h0=73), dict(Om=0.27, h0=100), dict(Om=1.0, h0=50)]
        for j, cfg in enumerate(cfgs):
            out.append(dict(kind="process", cfg=cfg, jit=str(j % 2 if j < 4 else 0), steps=[dict(Om=0.45), dict(h0=91.0), dict(Om=0.307, h0=67.7)], seed=k))
            k += 1
        return out

    def gen(self, rng, idx, tier):
        steps = []
        for _ in range(int(rng.integers(1, 6))):
            s = {}
            om = float(rng.choice([rng.uniform(0.3, 1.0), rng.uniform(0.3, 0.35), rng.uniform(0.2, 0.3)]))
            if rng.uniform() < 0.7:
                s["Om"] = om
            if rng.uniform() < 0.7 or not s:
                s["h0"] = float(rng.uniform(40, 110)) if rng.uniform() < 0.8 else int(rng.integers(40, 111))
            steps.append(s)
        x = rng.uniform()
        if x < 0.03 or (tier == "thorough" and x < 0.08):
            cfg = {}
            if rng.uniform() < 0.7:
                cfg["Om"] = float(np.round(rng.uniform(0.2, 1), 3))
            if rng.uniform() < 0.7:
                cfg["h0"] = float(np.round(rng.uniform(40, 110), 2))
            return dict(kind="process", cfg=cfg or None, jit=str(int(rng.uniform() < 0.5)), steps=steps[:2], seed=int(rng.integers(0, 2**31)))
        if x < 0.4:
            return dict(kind="survey", spatial=str(rng.choice(gen.COSMO)), is_rate=bool(rng.uniform() < 0.5), steps=steps, seed=int(rng.integers(0, 2**31)))
        return dict(kind="numbers", steps=steps, seed=int(rng.integers(0, 2**31)))

    def run(self, spec, mon):
        if spec["kind"] == "process":
            return self.process(spec, mon)
        om, h0 = cosmology.Om, cosmology.h0
        try:
            mon.check(abs(om - 0.307) < 1e-6 and abs(h0 - 67.7) < 1e-5, "default", "default matter density and Hubble constant", got=[om, h0])
            getattr(self, spec["kind"])(spec, mon)
        finally:
            cosmology.Om, cosmology.h0 = om, h0
        mon.nontrivial = True

    def redshifts(self, rng, n=400):
        return np.concatenate([10 ** rng.uniform(-4, 1.3, size=n), [1e-4, 0.01, 1.0, 10.0, 20.0]])

    def numbers(self, spec, mon):
        rng = np.random.default_rng(spec["seed"])
        cur = dict(Om=cosmology.Om, h0=cosmology.h0)
        dists = [gen.build_spatial(gen.r_spatial(rng, [k], defaults=0)) for k in gen.COSMO] + [Powerlaw()]
        probe = gen.build_aux(dict(kind="probe_d", name="probe", observed=False, params={}))
        for step in [{}] + spec["steps"]:
            for k, v in step.items():
                setattr(cosmology, k, v)
                cur[k] = v
                mon.ev("changes")
            mon.check(cosmology.Om == cur["Om"] and cosmology.h0 == cur["h0"], "parameters", "the parameters are those set")
            mon.check(np.isclose(cosmology.dh, refs.C_KMS / cur["h0"], rtol=1e-6), "parameters", "Hubble distance")
            z = self.redshifts(rng)
            dl, dv = cosmology.luminosity_distance(z), cosmology.differential_comoving_volume(z)
            ref = consistent(mon, cur["Om"], cur["h0"], z, dl, dv, "at run time")
            mon.check(abs(cosmology.luminosity_distance(0.0)) < 1e-9 * ref.dh * refs.MPC_CM, "zero", "no distance at zero redshift", got=cosmology.luminosity_distance(0.0))
            mon.check(abs(cosmology.differential_comoving_volume(0.0)) < 1e-9, "zero", "no volume at zero redshift")
            mon.same(cosmology.comoving_transverse_distance(z), dl / (1 + z), "transverse", "dL = (1 + z) dM", rtol=1e-9)
            for i in range(0, len(z), 37):
                mon.check(np.isclose(cosmology.luminosity_distance(float(z[i])), dl[i], rtol=1e-9) and np.isclose(cosmology.differential_comoving_volume(float(z[i])), dv[i], rtol=1e-9), "scalars", "numbers and arrays agree")
                mon.ev("scalars")
            # the Hubble constant only scales
            h = cur["h0"]
            cosmology.h0 = 2.5 * h
            mon.same(2.5 * np.asarray(cosmology.luminosity_distance(z)), dl, "h0-scaling", "distances scale inversely with the Hubble constant", rtol=1e-6)
            mon.same(2.5**3 * np.asarray(cosmology.differential_comoving_volume(z)), dv, "h0-scaling", "volumes scale with the inverse cube of the Hubble constant", rtol=1e-6)
            cosmology.h0 = h
            mon.ev("h0_scaling")
            mon.same(cosmology.luminosity_distance(z), dl, "h0-scaling", "and back", rtol=1e-12)
            # what depends on them, made before the change
            L = 10 ** rng.uniform(45, 55, size=len(z))
            fresh = [gen.build_spatial(gen.r_spatial(rng, [str(rng.choice(gen.COSMO))], defaults=0))]
            for d in dists + fresh:
                mon.same(d.transform(L, z), L / (4 * np.pi * ref.dl_cm(z) ** 2), "transform", f"fluxes of {d.name}", rtol=2.2 * tol(cur["Om"]))
                mon.same(d.differential_volume(z), ref.dvdz(z), "differential-volume", f"differential volume of {d.name}", rtol=2.2 * tol(cur["Om"]))
            mon.ev("user_class")
            probe._distance = z
            mon.same(probe.luminosity_distance, ref.dl_cm(z), "auxiliary", "luminosity distance of a sampler", rtol=tol(cur["Om"]))
            mon.ev("auxiliary")
            mon.state(round(cur["Om"], 2), round(cur["h0"]))

    def judge_survey(self, mon, pop, sp, ref, what, n=None, cdf=None):
        r, L, f = world.arr(pop.distances), world.arr(pop.luminosities), world.lat(pop.fluxes)
        mon.same(f, L / (4 * np.pi * ref.dl_cm(r) ** 2), "survey-fluxes", f"{what}: latent fluxes", rtol=2.2 * tol(ref.om))
        if cdf is not None and len(r) > 20:
            mon.pvalue(refs.ks_p(r, cdf), "survey-distances", f"{what}: distances of {sp}", Om=ref.om, h0=ref.h0, n=len(r))
        mon.ev("surveys")
        mon.ev("survey_objects", len(r))

    def survey(self, spec, mon):
        rng = np.random.default_rng(spec["seed"])
        sp = gen.r_spatial(rng, [spec["spatial"]], defaults=0)
        sp["is_rate"] = spec["is_rate"]
        seen = []

        class Far(gen.MonProbeD):
            def _base(self, size):
                seen.append((gen.cp(self._distance), gen.cp(self.luminosity_distance)))
                return super(Far, self)._base(size)

        b = gen.build(dict(seed=spec["seed"] % 2**31, spatial=sp, lum=dict(kind="pareto", params=dict(Lmin=1e50, alpha=1.5)), aux=[], top=[]))
        b.synth.add_observed_quantity(Far("far"))
        cur = dict(Om=cosmology.Om, h0=cosmology.h0)
        rmax = float(sp["params"].get("r_max", 10))
        before = None
        for step in [{}] + spec["steps"]:
            for k, v in step.items():
                setattr(cosmology, k, v)
                cur[k] = v
                mon.ev("changes")
            ref = refs.Cosmo(cur["Om"], cur["h0"], zmax=max(12.0, rmax))
            del seen[:]
            dens = refs.spatial_density(sp, cosmo=ref)
            cdf = refs.GridCDF(dens, 0.0, rmax)
            pop = b.synth.draw_survey(n_samples=1500)
            self.judge_survey(mon, pop, sp["kind"], ref, "a survey", cdf=cdf)
            mon.check(len(seen) == 1, "auxiliary", "the sampler was drawn once")
            for r, dl in seen:
                mon.same(dl, ref.dl_cm(r), "auxiliary", "luminosity distance of a sampler in a survey", rtol=tol(cur["Om"]))
                mon.ev("auxiliary")
            # numbers of objects follow too
            mu = cdf.total
            if 0 < mu < 4000:
                tot, K = 0, max(1, min(30, int(2000 / mu)))
                for j in range(K):
                    again = popsynth.PopulationSynth(b.spatial, luminosity_distribution=b.lum, seed=spec["seed"] % 2**31 + j)
                    tot += again.draw_survey().n_objects
                t = 2.2 * tol(cur["Om"])
                lo, hi = K * mu * (1 - t), K * mu * (1 + t)
                p = 1.0 if lo <= tot <= hi else refs.poisson_p(tot, lo if tot < lo else hi)
                mon.pvalue(p, "survey-numbers", f"{K} surveys have {tot} objects, expected {K * mu:.1f}", Om=cur["Om"], h0=cur["h0"], spatial=sp)
                mon.ev("counts", K)
            if before is not None:
                old, f, d = before
                mon.same(world.lat(old.fluxes), f, "earlier-survey", "an earlier survey keeps its fluxes")
                mon.same(world.arr(old.distances), d, "earlier-survey", "an earlier survey keeps its distances")
            before = (pop, world.lat(pop.fluxes), world.arr(pop.distances))
            mon.state(sp["kind"], spec["is_rate"], round(cur["Om"], 1), round(cur["h0"], -1))

    def process(self, spec, mon):
        rng = np.random.default_rng(spec["seed"])
        z = self.redshifts(rng, 60)
        sp = [json.loads(json.dumps(gen.r_spatial(rng, [k], defaults=0))) for k in gen.COSMO]
        survey = dict(seed=int(rng.integers(0, 2**31)), spatial=sp[int(rng.integers(0, 3))], lum=dict(kind="pareto", params=dict(Lmin=1e50, alpha=1.5)), aux=[], top=[], draw=dict(n_samples=800))
        home = os.path.join(mon.scratch, "home")
        os.makedirs(os.path.join(home, ".config", "popsynth"), exist_ok=True)
        want = dict(Om=0.307, h0=67.7)
        if spec["cfg"] is not None:
            with open(os.path.join(home, ".config", "popsynth", "popsynth_config.yml"), "w") as f:
                f.write("cosmology:\n" + "".join(f"  {k}: {v}\n" for k, v in spec["cfg"].items()))
            want.update(spec["cfg"])
            mon.ev("config_files")
        src, dst, err = (os.path.join(mon.scratch, x) for x in ("job.json", "out.json", "err.txt"))
        json.dump(dict(z=z.tolist(), spatial=sp, steps=spec["steps"], survey=survey), open(src, "w"))
        env = dict(os.environ, HOME=home, NUMBA_DISABLE_JIT="0" if spec["jit"] == "1" else "1", NUMBA_CACHE_DIR=os.path.join(mon.scratch, "nb"))
        p = subprocess.run([sys.executable, "-W", "ignore", "-m", "monitor.cosmo_sub", src, dst], env=env, stdout=subprocess.DEVNULL, stderr=open(err, "w"), cwd=mon.scratch)
        if not mon.check(p.returncode == 0, "process", "a process with a cosmology of its own ends normally: " + open(err).read()[-400:]):
            return
        res = json.load(open(dst))
        for step, r in zip([{}] + spec["steps"], res):
            want.update(step)
            what = f"{'compiled' if spec['jit'] == '1' else 'interpreted'} process, configuration {spec['cfg']}, changes {step}"
            mon.check(np.isclose(r["Om"], want["Om"], rtol=1e-6) and np.isclose(r["h0"], want["h0"], rtol=1e-6), "parameters", what, got=[r["Om"], r["h0"]], want=want)
            mon.check(np.isclose(r["dh"], refs.C_KMS / want["h0"], rtol=1e-6), "parameters", f"{what}: Hubble distance")
            ref = consistent(mon, want["Om"], want["h0"], z, r["dl"], r["dv"], what)
            mon.check(abs(r["zero"]) < 1e-6 * ref.dh * refs.MPC_CM, "zero", f"{what}: no distance at zero redshift")
            mon.same(r["dl1"], r["dl"], "scalars", f"{what}: distances of numbers and arrays", rtol=1e-6)
            mon.same(r["dv1"], r["dv"], "scalars", f"{what}: volumes of numbers and arrays", rtol=1e-6)
            mon.same(r["dm"], np.array(r["dl"]) / (1 + z), "transverse", f"{what}: dL = (1 + z) dM", rtol=1e-6)
            mon.same(r["probe"], ref.dl_cm(z), "auxiliary", f"{what}: luminosity distance of a sampler", rtol=tol(want["Om"]))
            for d, x in zip(sp, r["spatial"]):
                mon.same(x["flux"], 1e50 / (4 * np.pi * ref.dl_cm(z) ** 2), "transform", f"{what}: fluxes of {d['kind']}", rtol=2.2 * tol(want["Om"]))
                mon.same(x["dv"], ref.dvdz(z), "differential-volume", f"{what}: volume of {d['kind']}", rtol=2.2 * tol(want["Om"]))
            s = r["survey"]
            rr, L, f = (np.array(s[k]) for k in ("r", "L", "f"))
            mon.same(f, L / (4 * np.pi * ref.dl_cm(rr) ** 2), "survey-fluxes", f"{what}: latent fluxes of a survey", rtol=2.2 * tol(want["Om"]))
            cdf = refs.GridCDF(refs.spatial_density(survey["spatial"], cosmo=ref), 0.0, float(survey["spatial"]["params"].get("r_max", 10)))
            mon.pvalue(refs.ks_p(rr, cdf), "survey-distances", f"{what}: distances of a survey", spatial=survey["spatial"])
            mon.ev("surveys")
            mon.ev("compiled", bool(r["jit"]))
            mon.ev("changes", len(step))
        mon.check(len(res) == 1 + len(spec["steps"]), "process", "all steps were made")
        mon.nontrivial = spec["cfg"] is not None
        mon.state(spec["cfg"] is None, spec["jit"])


CHECK = C24()
