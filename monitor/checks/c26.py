"""Prebuilt populations."""
import os

import numpy as np
import popsynth
from popsynth.populations.spatial_populations import MWRadialPopulation

from monitor import gen, refs, world
from monitor.core import Check

# name of the class: parameters of its space, as arguments in their order
SPACE = {
    "HomogeneousSpherical": ("cons_sphere", ["Lambda"]),
    "ZPowerSpherical": ("zpow_sphere", ["Lambda", "delta"]),
    "ZPowerCosmo": ("zpow_cosmo", ["Lambda", "delta"]),
    "SFR": ("sfr", ["r0", "a", "rise", "decay", "peak"]),
}
LUMI = {
    "Pareto": ("pareto", ["Lmin", "alpha"]),
    "BPL": ("bpl", ["Lmin", "alpha", "Lbreak", "beta", "Lmax"]),
    "Schechter": ("schechter", ["Lmin", "alpha"]),
    "Log10Normal": ("log10norm", ["mu", "tau"]),
    "LogNormal": ("lognorm", ["mu", "tau"]),
}
CLASSES = {}
for a, (sk, sp) in SPACE.items():
    for b, (lk, lp) in LUMI.items():
        CLASSES[f"{b}{a}Population"] = (sk, lk, sp, lp)
    CLASSES["SphericalPopulation" if a.startswith("Homo") else f"{a}Population"] = (sk, None, sp, None)
CLASSES["MWRadialPopulation"] = ("spiral", None, ["rho"], None)
MW = dict(a=1.64, b=4.01, R1=0.55, R0=8.5)
DIST = {
    "cons_sphere": "ConstantSphericalDistribution", "zpow_sphere": "ZPowerSphericalDistribution", "zpow_cosmo": "ZPowerCosmoDistribution",
    "sfr": "SFRDistribution", "spiral": "SpiralGalaxyDistribution",
}


class C26(Check):
    pid = "C26"
    quick = 330
    thorough = 8000
    rule = "every prebuilt class, random arguments by position and by keyword, with optional ones left out, against the generic synth built from the documented ingredients; non-trivial: a survey with more than 5 objects"
    required = ("classes", "surveys", "poisson", "positional", "keywords", "defaults", "steady", "seeds", "with_samplers", "descriptions", "changed", "second_survey") + tuple(CLASSES)

    def directed(self, tier):
        out = []
        for i, c in enumerate(CLASSES):
            for j in range(4 if tier == "quick" else 12):
                out.append(self.make(np.random.default_rng([i, j]), c, j))
        return out

    def gen(self, rng, idx, tier):
        return self.make(rng, str(rng.choice(list(CLASSES))), None)

    def make(self, rng, c, j):
        sk, lk, sp, lp = CLASSES[c]
        s = gen.r_spatial(rng, [sk], defaults=0)
        P = s["params"]
        spec = dict(cls=c, space={k: P[k] for k in sp}, lum=None, opt={})
        if sk == "spiral":
            for k in MW:
                if rng.uniform() < 0.6 or j == 0:
                    spec["opt"][k] = P[k]
        if lk:
            spec["lum"] = gen.r_lum(rng, [lk], defaults=0)["params"]
        else:
            spec["other_lum"] = gen.r_lum(rng, defaults=0)
        if rng.uniform() < 0.7 or j == 0:
            spec["opt"]["r_max"] = P["r_max"]
        if rng.uniform() < 0.8 or j == 0:
            spec["opt"]["seed"] = int(rng.integers(0, 2**31))
        if sk in gen.COSMO and (rng.uniform() < 0.7 or j == 0):
            spec["opt"]["is_rate"] = bool(rng.uniform() < 0.3) if j != 0 else False
        spec["positional"] = int(rng.integers(0, len(sp) + len(lp or []) + 3)) if j != 1 else 0
        # what is done with it
        extra = gen.r_spec(rng, n=(0, 60), aux=(0, 3), derived=False if rng.uniform() < 0.8 else True, sels="probe")
        spec["extra"] = {k: extra[k] for k in ("aux", "top", "draw")}
        for k in ("flux_sel", "dist_sel", "spatial_sel"):
            spec["extra"][k] = extra.get(k)
        if rng.uniform() < 0.3:
            del spec["extra"]["draw"]["n_samples"]
        return spec

    def attach(self, b, e):
        for d in e["aux"]:
            b.aux[d["name"]] = gen.build_aux(d)
        for d in e["aux"]:
            for s in d.get("sec", []):
                b.aux[d["name"]].set_secondary_sampler(b.aux[s])
        for n in e["top"]:
            b.synth.add_observed_quantity(b.aux[n])
        for k, f in (("flux_sel", "set_flux_selection"), ("dist_sel", "set_distance_selection"), ("spatial_sel", "add_spatial_selector")):
            s = gen.build_sel(e.get(k))
            if s is not None:
                getattr(b.synth, f)(s)

    def prebuilt(self, spec, mon, lum=None):
        cls = gen.PS.get(spec["cls"]) or MWRadialPopulation
        sk, lk, sp, lp = CLASSES[spec["cls"]]
        names = list(sp) + list(lp or [])
        values = dict(spec["space"])
        values.update(spec["lum"] or {})
        opt = dict(spec["opt"])
        order = names + (["a", "b", "R1", "R0"] if sk == "spiral" else []) + ["r_max", "seed"]
        values.update(opt)
        args = []
        kw = dict(values)
        for k in order[: spec["positional"]]:
            if k not in kw:
                break
            args.append(kw.pop(k))
        mon.ev("positional", len(args))
        mon.ev("keywords", len(kw))
        if lum is not None:
            kw["luminosity_distribution"] = lum
        return cls(*args, **kw)

    def generic(self, spec):
        sk, lk, sp, lp = CLASSES[spec["cls"]]
        opt = spec["opt"]
        P = dict(spec["space"])
        if sk == "spiral":
            P.update({k: opt.get(k, v) for k, v in MW.items()})
        P["r_max"] = opt.get("r_max", 20 if sk == "spiral" else 10 if lk == "schechter" else 5)
        s = dict(kind=sk, params=P)
        if sk in gen.COSMO:
            s["is_rate"] = opt.get("is_rate", True)
        g = dict(seed=opt.get("seed", 1234), spatial=s, lum=dict(kind=lk, params=spec["lum"]) if lk else spec["other_lum"], aux=[], top=[])
        return g

    def run(self, spec, mon):
        sk, lk, sp, lp = CLASSES[spec["cls"]]
        g = self.generic(spec)
        rate = g["spatial"].get("is_rate", True)
        if "n_samples" not in spec["extra"]["draw"]:
            mu = refs.expected_number(g["spatial"], spec["extra"]["draw"].get("normalize", False))
            if not mu < 600:
                spec["extra"]["draw"]["n_samples"] = 30
            else:
                mon.ev("poisson")
        lum = None if lk else gen.build_lum(spec["other_lum"])
        A, B = gen.Built(), gen.build(g)
        A.synth = self.prebuilt(spec, mon, lum)
        A.aux = {}
        A.spec = B.spec = dict(g, draw=spec["extra"]["draw"])
        mon.ev("classes")
        mon.ev(spec["cls"])
        mon.ev("seeds", "seed" in spec["opt"])
        mon.ev("steady", sk in gen.COSMO and not rate)
        mon.ev("defaults", "r_max" not in spec["opt"] or "seed" not in spec["opt"])
        # the ingredients, as it describes itself
        d = A.synth.to_dict()
        mon.check([k for k in d["spatial distribution"] if k != "is_rate"] == [DIST[sk]], "ingredients", f"space of {spec['cls']}", got=list(d["spatial distribution"]))
        got = d["spatial distribution"][DIST[sk]]
        want = dict(g["spatial"]["params"])
        if sk in gen.COSMO:
            mon.check(d["spatial distribution"].get("is_rate") is rate, "ingredients", f"transient or steady rate of {spec['cls']}", got=d["spatial distribution"].get("is_rate"), want=rate)
        mon.check({k: got.get(k) for k in want} == want, "ingredients", f"parameters of the space of {spec['cls']}", got=got, want=want)
        mon.check(A.synth.spatial_distribution.r_max == want["r_max"], "ingredients", "maximum distance", got=A.synth.spatial_distribution.r_max, want=want["r_max"])
        lkind = lk or spec["other_lum"]["kind"]
        ln = gen.LUM[lkind]
        mon.check(sorted(d["luminosity distribution"]) == [ln], "ingredients", f"luminosities of {spec['cls']}", got=list(d["luminosity distribution"]), want=ln)
        want = refs.lum_params(g["lum"])
        got = d["luminosity distribution"].get(ln, {})
        mon.check({k: got.get(k) for k in want} == want, "ingredients", f"parameters of the luminosities of {spec['cls']}", got=got, want=want)
        mon.check(d["seed"] == g["seed"], "ingredients", "seed", got=d["seed"], want=g["seed"])
        dd = world.diff(world.plain(d), world.plain(B.synth.to_dict()))
        mon.check(not dd, "description", f"description of {spec['cls']} and of the generic synth: {dd[:3]}")
        mon.ev("descriptions")
        # its survey
        e = spec["extra"]
        with_aux = bool(e["aux"])
        names = [x["name"] for x in e["aux"]]
        if with_aux or e.get("flux_sel") or e.get("dist_sel") or e.get("spatial_sel"):
            for X in (A, B):
                self.attach(X, e)
            mon.ev("with_samplers")
        pa = gen.draw(A)
        a = world.pop_state(pa, names)
        b = world.pop_state(gen.draw(B), names)
        world.compare(mon, a, b, "survey", f"survey of {spec['cls']} and of the generic synth")
        mon.ev("surveys")
        mon.check(type(A.synth.spatial_distribution) is gen.cls_of("s", sk), "ingredients", "class of the space")
        # a second one, and one after a change of every parameter
        world.compare(mon, world.pop_state(gen.draw(A), names), b, "second-survey", f"second survey of {spec['cls']}")
        mon.ev("second_survey")
        other = self.prebuilt(spec, mon, None if lk else gen.build_lum(spec["other_lum"]))
        for X in (A, B):
            s = X.synth.spatial_distribution
            s.r_max = g["spatial"]["params"]["r_max"] * 0.75
            for k in g["spatial"]["params"]:
                if k not in ("r_max",):
                    setattr(s, k, getattr(s, k) * 1.25)
        n = dict(n_samples=12)
        world.compare(mon, world.pop_state(A.synth.draw_survey(**n), names), world.pop_state(B.synth.draw_survey(**n), names), "changed", f"survey of {spec['cls']} after a change")
        dd = world.diff(world.plain(other.to_dict()), world.plain(d))
        mon.check(not dd, "shared", f"another {spec['cls']} is not changed: {dd[:3]}")
        mon.ev("changed")
        # written and read
        if not with_aux or True:
            C = popsynth.PopulationSynth.from_dict(other.to_dict())
            D = popsynth.PopulationSynth.from_dict(gen.build(g).synth.to_dict())
            world.compare(mon, world.pop_state(C.draw_survey(**n), []), world.pop_state(D.draw_survey(**n), []), "rebuilt", f"survey of a rebuilt {spec['cls']}")
            world.compare(mon, world.pop_state(other.draw_survey(**n), []), world.pop_state(D.draw_survey(**n), []), "rebuilt", f"survey of another {spec['cls']}")
        mon.nontrivial = pa.n_objects > 5
        mon.state(spec["cls"], spec["positional"], sorted(spec["opt"]), with_aux, rate)


CHECK = C26()
