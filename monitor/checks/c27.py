"""Draw probabilities."""
import os

import numpy as np
import popsynth

from monitor import gen, refs, world
from monitor.core import Check

AUXP = ("probe_p", "va")


def density(sp, r, normalize):
    """Density factor, from the definition."""
    f = refs.spatial_density(sp, unit=True)
    P = refs.spatial_params(sp)
    d = f(r)
    if normalize:
        from scipy import integrate

        d = d / integrate.quad(f, 0.0, float(P["r_max"]), limit=400)[0]
    return d


def own(sp, r):
    """... with the functions of a fresh distribution (the cosmology is judged by C24)"""
    d = gen.build_spatial(sp)
    n = refs.NORMALIZATION.get(sp["kind"])
    if n:
        setattr(d, n, 1)
    return np.broadcast_to(d.dNdV(r) * d.differential_volume(r) / d.time_adjustment(r), np.shape(r))


def aux_probability(d, true, forced):
    if d["name"] in forced:
        return np.exp(-np.abs(true))
    if d["kind"] == "probe_p":
        return gen.probe_probability(true)
    if d["kind"] == "va":
        a = np.deg2rad(refs.aux_params(d)["max_angle"])
        return np.sin(true) / (1 - np.cos(a))
    return np.ones(len(true))


class C27(Check):
    pid = "C27"
    quick = 600
    thorough = 12000
    rule = "random surveys with samplers that have a probability and a selection, at any depth; non-trivial: a luminosity distribution or a sampler with a probability and a selection, and more than 5 objects"
    required = ("probabilities", "normalized", "unnormalized", "with_lum", "without_lum", "aux_factors", "aux_without_selection", "aux_unity", "secondary_factors", "derived_factor", "second_survey", "scaled", "reloaded", "sub")
    assumptions = ("samplers without a selection, or with a unity selection, contribute no factor",)

    def directed(self, tier):
        out = []
        i = 0
        for k in gen.SPATIAL:
            for norm in (False, True):
                for prog in (False, True):
                    rng = np.random.default_rng(i)
                    s = gen.r_spec(rng, n=(20, 40), aux=(0, 3), spatial=[k], aux_kinds=["probe_p"], sels="probe", p_aux_sel=0.7)
                    s["draw"].pop("normalize", None)
                    if norm:
                        s["draw"]["normalize"] = True
                    s["progress"] = prog
                    out.append(s)
                    i += 1
        for l in gen.LUM:
            for j in range(2):
                rng = np.random.default_rng(100 + i)
                out.append(gen.r_spec(rng, n=(30, 40), aux=(0, 1), derived=False, lum=[l], sels="any"))
                i += 1
        for depth in (1, 2, 3):
            for root in ("probe", "derived", "va"):
                if root == "va" and depth > 1:
                    continue
                rng = np.random.default_rng(200 + i)
                s = gen.r_spec(rng, n=(30, 40), aux=(0, 0), derived=False, sels="none")
                nodes = []
                for j in range(depth + 1):
                    kind = root if j == depth else "probe_p"
                    nodes.append(dict(name="va" if kind == "va" else f"s{j}", kind=kind, observed=kind not in ("derived", "va"), params=gen.r_aux_params(rng, kind), sec=[nodes[j - 1]["name"]] if j else [], sel=dict(kind="mon", params=dict(salt=5 + j, p=0.8))))
                s["aux"], s["top"] = nodes, [nodes[-1]["name"]]
                s["force"] = [n["name"] for n in nodes[-1:]]
                out.append(s)
                i += 1
        # large surveys
        for i, n in enumerate((300, 3000, 70000)):
            out.append(lambda n=n, i=i: gen.large(n, i))
        return out

    def gen(self, rng, idx, tier):
        s = gen.r_spec(rng, n=(0, 60), aux=(0, 6), aux_kinds=gen.PLAIN_AUX[:3] + ["probe_p"] * 6 + ["probe_d"], p_aux_sel=0.65, sels="any" if rng.uniform() < 0.4 else "probe", p_poisson=0.05)
        s["force"] = [d["name"] for d in s["aux"] if rng.uniform() < 0.2]
        return s

    def judge(self, spec, b, pop, rec, mon, what, factors=None):
        n = pop.n_objects
        p = world.arr(pop.probability)
        mon.check(p.shape == (n,), "aligned", f"{what}: a probability for each object", shape=p.shape)
        if p.shape != (n,):
            return
        mon.check(np.all(np.isfinite(p)) and np.all(p >= 0), "finite", f"{what}: probabilities are finite and not negative", worst=p[~(p >= 0)][:3])
        mon.same(world.lat(pop.probability), p, "latent", f"{what}: latent probabilities")
        sp, norm = spec["spatial"], bool(spec["draw"].get("normalize", False))
        r = rec["r"]
        if sp["kind"] != "spiral":
            mon.same(world.arr(pop.distances), r, "distances", f"{what}: distances are those drawn")
        with np.errstate(all="ignore"):
            space = density(sp, r, norm)
        mon.same(rec["p"], space, "space-factor", f"{what}: density factor of {sp['kind']}, normalized: {norm}", rtol=2.5e-2 if sp["kind"] in gen.COSMO else 1e-6)
        # relative to the first object: the shape without the integral
        if n and not norm:
            mon.same(rec["p"], own(sp, r), "space-factor", f"{what}: density factor of {sp['kind']}", rtol=1e-9)
        elif n > 1:
            o = own(sp, r)
            if o[0] > 0:
                mon.same(rec["p"] / rec["p"][0], o / o[0], "space-factor", f"{what}: density factor of {sp['kind']}", rtol=1e-9)
        want = np.array(rec["p"], dtype=float)
        derived = [d for d in spec["aux"] if d["kind"].startswith("derived")]
        if not derived:
            L = world.lat(pop.luminosities)
            if spec["lum"]["kind"] == "delta":
                f = np.ones(n)
            else:
                f = refs.lum_dist(spec["lum"])[0](L)
            mon.same(b.lum.probability if n else np.ones(0), f, "luminosity-factor", f"{what}: luminosity density of {spec['lum']['kind']}", rtol=1e-6)
            want = want * f
            mon.ev("with_lum")
        else:
            mon.ev("without_lum")
        sec = {x for d in spec["aux"] for x in d["sec"]}
        k = 0
        for d in spec["aux"]:
            has = d.get("sel") is not None and d["sel"]["kind"] != "unity"
            p_own = d["kind"] in AUXP or d["name"] in spec.get("force", [])
            if not has:
                mon.ev("aux_without_selection", p_own)
                mon.ev("aux_unity", p_own and d.get("sel") is not None)
                continue
            want = want * aux_probability(d, world.lat(getattr(pop, d["name"])), spec.get("force", []))
            k += p_own
            mon.ev("aux_factors", p_own)
            mon.ev("secondary_factors", p_own and d["name"] in sec)
            mon.ev("derived_factor", p_own and d["kind"].startswith("derived"))
        mon.same(p, want, "probability", f"{what}: product of the densities", rtol=2e-6)
        mon.ev("probabilities", n)
        mon.ev("normalized" if norm else "unnormalized")
        return bool((not derived or k) and n > 5)

    def run(self, spec, mon):
        spec = dict(spec)
        if "n_samples" not in spec["draw"]:
            if not refs.expected_number(spec["spatial"], spec["draw"].get("normalize", False)) < 400:
                spec["draw"] = dict(spec["draw"], n_samples=30)
        gen.progress(spec["progress"])
        b = gen.build(spec)
        for name in spec.get("force", []):
            self.force(b.aux[name])
        rec = {}
        f = b.spatial.draw_distance

        def hook(*a, **k):
            f(*a, **k)
            rec["r"] = world.arr(b.spatial.distances)
            # (a constant density has a constant probability)
            rec["p"] = np.array(np.broadcast_to(world.arr(b.spatial.probability), rec["r"].shape))

        b.spatial.draw_distance = hook
        pop = gen.draw(b)
        mon.nontrivial = self.judge(spec, b, pop, rec, mon, "a survey") or False
        S = world.arr(pop.probability)
        mon.same(np.concatenate([world.arr(pop.probability.selected), world.arr(pop.probability.non_selected)]),
                 np.concatenate([S[world.arr(pop.selection)], S[~world.arr(pop.selection)]]), "parts", "probabilities of the detected and of the hidden")
        if mon.idx % 3 == 0:
            path = os.path.join(mon.scratch, "p.h5")
            pop.writeto(path)
            mon.same(world.arr(popsynth.Population.from_file(path).probability), S, "reloaded", "probabilities of a reloaded survey")
            mon.ev("reloaded")
        if mon.idx % 3 == 1 and pop.n_detections:
            mon.same(world.arr(pop.to_sub_population().probability), S[world.arr(pop.selection)], "sub", "probabilities of a sub-population")
            mon.ev("sub")
        # the normalization does not enter, another survey has its own
        k = refs.NORMALIZATION.get(spec["spatial"]["kind"])
        P = refs.spatial_params(spec["spatial"])
        if k and "n_samples" in spec["draw"]:
            setattr(b.spatial, k, P[k] * 7.5)
            pop2 = gen.draw(b)
            mon.same(world.arr(pop2.probability), S, "scaled", "scaling the density does not change the probabilities", rtol=1e-9)
            mon.check(getattr(b.spatial, k) == P[k] * 7.5, "scaled", "the normalization keeps its value")
            setattr(b.spatial, k, P[k])
            mon.ev("scaled")
        spec2 = dict(spec, draw=dict(spec["draw"]))
        if "normalize" in spec2["draw"]:
            del spec2["draw"]["normalize"]
        else:
            spec2["draw"]["normalize"] = True
        if "n_samples" in spec2["draw"]:
            spec2["draw"]["n_samples"] += 3
            pop2 = gen.draw(b, spec2)
            self.judge(spec2, b, pop2, rec, mon, "another survey")
            mon.same(world.arr(pop.probability), S, "earlier", "the earlier survey keeps its probabilities")
            mon.ev("second_survey")
        mon.state(spec["spatial"]["kind"], (spec["lum"] or {}).get("kind"), [(d["kind"], d["name"] in spec.get("force", []), bool(d.get("sel"))) for d in spec["aux"]])

    def force(self, a):
        """Give a sampler a probability of its own."""
        cls = type(a)
        if cls.__name__.startswith("Forced"):
            return

        def _compute_probability(self):
            return np.exp(-np.abs(self._true_values))

        a._compute_probability = lambda: _compute_probability(a)


CHECK = C27()
