"""Misuse is rejected, and failing surveys leave no trace."""
import copy

import numpy as np
import popsynth
from popsynth.simulated_variable import SimulatedVariable

from monitor import gen, world
from monitor.core import Check
from monitor.checks.c23 import TABLE


class Injected(Exception):
    pass


def strangers(rng):
    """Things that are not what is asked for."""
    return [
        None, 3, 2.5, "sampler", b"x", object(), [1, 2], {}, np.arange(3), lambda size: size, Injected("x"), popsynth, True,
        gen.MonProbe, gen.MonSelection, gen.cls_of("s", "cons_sphere"), gen.cls_of("l", "pareto"),
    ]


def a_sampler(rng):
    return gen.build_aux(dict(name="stranger", kind="probe", observed=True, params={}))


def a_selector(rng):
    return gen.build_sel(dict(kind="mon", params=dict(salt=99, p=0.5)))


def a_space(rng):
    return gen.build_spatial(dict(kind="cons_sphere", params=dict(Lambda=1.0)))


def a_lum(rng):
    return gen.build_lum(dict(kind="delta", params=dict(Lp=1.0)))


OPS = ["bad_value", "bad_value", "sampler", "sampler", "same_name", "same_name", "same_object", "secondary", "flux", "distance", "spatial", "aux_selection", "aux_secondary", "synth_space", "synth_lum", "unequal", "unknown", "failing", "failing", "failing", "no_lum"]


class C28(Check):
    pid = "C28"
    quick = 420
    thorough = 8000
    rule = "random synths on which misuse of every kind is tried and surveys are made to fail at random places, between good surveys; non-trivial: more than 5 objects"
    required = tuple("rejected_" + x for x in sorted(set(OPS))) + ("surveys", "failed_true", "failed_obs", "failed_length", "failed_select", "failed_lum", "failed_space", "interrupted", "derived_name")

    def directed(self, tier):
        out = []
        for i, op in enumerate(sorted(set(OPS))):
            for j in range(3):
                rng = np.random.default_rng([i, j])
                s = gen.r_spec(rng, n=(6, 25), aux=(1, 4), derived=j == 2, sels="probe")
                s["ops"] = [op, op]
                s["ops_seed"] = i
                out.append(s)
        return out

    def gen(self, rng, idx, tier):
        s = gen.r_spec(rng, n=(0, 40), aux=(0, 5), sels="any" if rng.uniform() < 0.3 else "probe")
        s["ops"] = [str(rng.choice(OPS)) for _ in range(int(rng.integers(1, 7)))]
        s["ops_seed"] = int(rng.integers(0, 2**31))
        return s

    def all(self, spec, b):
        """What can be seen of a synth: its description, its graph."""
        out = dict(edges=world.graph_edges(b.synth.graph))
        try:
            out["dict"] = world.plain(b.synth.to_dict())
        except Exception as e:
            out["dict"] = type(e).__name__
        out["name"] = b.synth.name
        return out

    def build(self, spec):
        b = gen.build(spec)
        if "bad_value" in spec["ops"]:
            # (parameters that are read gain their defaults)
            for o, name, _ in self.bounded(spec, b):
                try:
                    getattr(o, name)
                except AssertionError:
                    pass
        return b

    def run(self, spec, mon):
        gen.progress(spec["progress"])
        names = world.aux_names(spec)
        ref = self.build(spec)
        before = self.all(spec, ref)
        want = world.pop_state(gen.draw(ref), names)
        b = self.build(spec)
        rng = np.random.default_rng(spec["ops_seed"])
        d = world.diff(self.all(spec, b), before)
        mon.check(not d, "description", f"two builds have the same description: {d[:2]}")
        for op in spec["ops"]:
            cur = self.all(spec, b)
            what = getattr(self, op)(spec, b, rng, mon)
            if what is None:
                continue
            mon.ev("rejected_" + op)
            if op != "failing":
                d = world.diff(self.all(spec, b), cur)
                mon.check(not d, "changed", f"{what} changes the synth: {d[:2]}")
            if rng.uniform() < 0.5:
                world.compare(mon, world.pop_state(gen.draw(b), names), want, "survey", f"the survey after {what}")
                mon.ev("surveys")
            if mon.fails:
                return
        world.compare(mon, world.pop_state(gen.draw(b), names), want, "survey", f"the survey after {spec['ops']}")
        mon.ev("surveys")
        mon.nontrivial = spec["draw"]["n_samples"] > 5
        mon.state(spec["ops"], bool(spec["lum"]), len(names))

    # ------------------------------------------------------- misuse

    def pick(self, rng, *more):
        pool = strangers(rng) + [m(rng) for m in more]
        return pool[int(rng.integers(0, len(pool)))]

    def sampler(self, spec, b, rng, mon):
        x = self.pick(rng, a_selector, a_space, a_lum)
        f = b.synth.add_observed_quantity if rng.uniform() < 0.6 else b.synth.add_auxiliary_sampler
        what = f"attaching {x!r:.80} as a sampler"
        mon.raises(lambda: f(x), "rejected", what)
        return what

    def same_name(self, spec, b, rng, mon):
        tops = [n for n in spec["top"]]
        if not tops:
            return None
        n = str(rng.choice(tops))
        d = next(d for d in spec["aux"] if d["name"] == n)
        if d["kind"].startswith("derived"):
            # an auxiliary sampler of this name
            other = gen.build_aux(dict(name=n, kind="probe", observed=False, params={}))
            mon.ev("derived_name")
        elif n in gen.FIXED_NAME:
            other = gen.build_aux(dict(name=n, kind=n, params={}))
        else:
            ks = ["normal", "probe", "probe_d", "delta"]
            if any(x["kind"].startswith("derived") for x in spec["aux"]):
                ks.append("derived")
            k = str(rng.choice(ks))
            mon.ev("derived_name", k == "derived")
            other = gen.build_aux(dict(name=n, kind=k, observed=True, params={}))
        what = f"attaching another sampler with the name {n}"
        mon.raises(lambda: b.synth.add_observed_quantity(other), "rejected", what)
        return what

    def same_object(self, spec, b, rng, mon):
        tops = [d["name"] for d in spec["aux"] if d["name"] in spec["top"] and not d["kind"].startswith("derived")]
        if not tops:
            return None
        n = str(rng.choice(tops))
        what = f"attaching {n} again"
        mon.raises(lambda: b.synth.add_observed_quantity(b.aux[n]), "rejected", what)
        return what

    def secondary(self, spec, b, rng, mon):
        sec = sorted({x for d in spec["aux"] for x in d["sec"]})
        if not sec:
            return None
        n = str(rng.choice(sec))
        what = f"attaching the secondary {n}"
        mon.raises(lambda: b.synth.add_observed_quantity(b.aux[n]), "rejected", what)
        return what

    def flux(self, spec, b, rng, mon):
        x = self.pick(rng, a_sampler, a_space, a_lum)
        what = f"{x!r:.80} as the flux selection"
        mon.raises(lambda: b.synth.set_flux_selection(x), "rejected", what)
        return what

    def distance(self, spec, b, rng, mon):
        x = self.pick(rng, a_sampler, a_space, a_lum)
        what = f"{x!r:.80} as the distance selection"
        mon.raises(lambda: b.synth.set_distance_selection(x), "rejected", what)
        return what

    def spatial(self, spec, b, rng, mon):
        x = self.pick(rng, a_sampler, a_space, a_lum)
        what = f"{x!r:.80} as a spatial selection"
        mon.raises(lambda: b.synth.add_spatial_selector(x), "rejected", what)
        return what

    def aux_selection(self, spec, b, rng, mon):
        if not b.aux:
            return None
        n = str(rng.choice(sorted(b.aux)))
        x = self.pick(rng, a_sampler, a_space, a_lum)
        what = f"{x!r:.80} as the selection of {n}"
        mon.raises(lambda: b.aux[n].set_selection_probability(x), "rejected", what)
        return what

    def aux_secondary(self, spec, b, rng, mon):
        if not b.aux:
            return None
        n = str(rng.choice(sorted(b.aux)))
        x = self.pick(rng, a_selector, a_space, a_lum)
        what = f"{x!r:.80} as a secondary of {n}"
        mon.raises(lambda: b.aux[n].set_secondary_sampler(x), "rejected", what)
        return what

    def synth_space(self, spec, b, rng, mon):
        x = self.pick(rng, a_sampler, a_selector, a_lum)
        what = f"a synth with {x!r:.80} as its space"
        lum = a_lum(rng) if rng.uniform() < 0.5 else None
        mon.raises(lambda: popsynth.PopulationSynth(x, luminosity_distribution=lum), "rejected", what)
        return what

    def synth_lum(self, spec, b, rng, mon):
        x = self.pick(rng, a_sampler, a_selector, a_space)
        if x is None:
            x = 0
        what = f"a synth with {x!r:.80} as its luminosities"
        mon.raises(lambda: popsynth.PopulationSynth(b.spatial, luminosity_distribution=x), "rejected", what)
        mon.raises(lambda: popsynth.PopulationSynth(b.spatial, x), "rejected", what)
        return what

    def unequal(self, spec, b, rng, mon):
        n = int(rng.integers(0, 6))
        a, c, e = [int(x) for x in rng.integers(0, 6, size=3)]
        if a == c == e:
            e = a + 1
        what = f"a variable of {a} observed, {c} latent values and {e} selections"
        mon.raises(lambda: SimulatedVariable(np.arange(a) * 1.0, np.arange(c) * 1.0, np.ones(e, bool)), "rejected", what)
        return what

    def unknown(self, spec, b, rng, mon):
        try:
            D = b.synth.to_dict()
        except Exception:
            D = gen.build(dict(seed=1, spatial=dict(kind="cons_sphere", params=dict(Lambda=1.0)), lum=dict(kind="delta", params=dict(Lp=1.0)), aux=[], top=[])).synth.to_dict()
        D = copy.deepcopy(world.plain(D))
        x = str(rng.choice(["spatial distribution", "luminosity distribution", "auxiliary samplers", "flux selection", "distance selection"]))
        bad = "NoSuchThing" + str(int(rng.integers(0, 9)))
        if x == "auxiliary samplers":
            D.setdefault(x, {})["odd"] = dict(type=bad, observed=False)
        elif x in ("flux selection", "distance selection"):
            D[x] = {bad: {}}
        else:
            y = dict(D.get(x) or {})
            p = next((v for k, v in y.items() if isinstance(v, dict)), {})
            D[x] = {bad: p}
        what = f"a description with {bad} among its {x}"
        mon.raises(lambda: popsynth.PopulationSynth.from_dict(D), "rejected", what)
        return what

    def bounded(self, spec, b):
        things = [("s", spec["spatial"]["kind"], b.spatial)]
        if b.lum is not None:
            things.append(("l", spec["lum"]["kind"], b.lum))
        for d in spec["aux"]:
            k = d["kind"]
            k = "probe" if k.startswith("probe") or k == "init" else "derived" if k.startswith("derived") else k
            things.append(("a", k, b.aux[d["name"]]))
            if d.get("sel"):
                things.append(("c", d["sel"]["kind"], b.aux[d["name"]].selector))
        for s, o in (("flux_sel", b.flux_sel), ("dist_sel", b.dist_sel), ("spatial_sel", b.spatial_sel)):
            if o is not None:
                things.append(("c", spec[s]["kind"], o))
        cand = []
        for f, k, o in things:
            for name, p in TABLE.get((f, "mon" if k == "monspatial" else k), {}).items():
                if p["vmin"] is not None:
                    cand += [(o, name, p["vmin"] - x) for x in (1e-9, 0.5, 3, np.inf)] + [(o, name, np.nan)]
                if p["vmax"] is not None:
                    cand += [(o, name, p["vmax"] + x) for x in (1e-9, 0.5, 3, np.inf)]
        return cand

    def bad_value(self, spec, b, rng, mon):
        """Values out of bounds are rejected and forgotten."""
        cand = self.bounded(spec, b)
        if not cand:
            return None
        o, name, v = cand[int(rng.integers(0, len(cand)))]
        # reading a parameter without a value is an error of its own
        try:
            old = getattr(o, name)
        except AssertionError:
            old = None
        what = f"{v} as {name} of {type(o).__name__}"
        mon.raises(lambda: setattr(o, name, v), "rejected", what)
        try:
            new = getattr(o, name)
        except AssertionError:
            new = None
        mon.check(new == old, "changed", f"{what}: {old} became {new}")
        return what

    def no_lum(self, spec, b, rng, mon):
        """Surveys without luminosities fail; once there are some all is well."""
        s = dict(spec, lum=None)
        keep = [d for d in spec["aux"] if not d["kind"].startswith("derived") and not any(d["name"] in gen.below(spec["aux"], x["name"]) for x in spec["aux"] if x["kind"].startswith("derived"))]
        keep = [d for d in keep if all(n in [x["name"] for x in keep] for n in gen.below(spec["aux"], d["name"]))]
        s["aux"], s["top"] = keep, [d["name"] for d in keep if not any(d["name"] in x["sec"] for x in keep)]
        c = gen.build(s)
        for _ in range(int(rng.integers(1, 3))):
            mon.raises(lambda: gen.draw(c), "rejected", "a survey without luminosities")
            m = int(rng.choice([0, 0, 1, 5]))
            mon.raises(lambda: c.synth.draw_survey(**dict(s["draw"], n_samples=m)), "rejected", f"a survey of {m} objects without luminosities")
        new = dict(name="Lnew", kind="derived", observed=False, params=dict(scale=0.5, shift=1.0), sec=[], sel=None)
        c.synth.add_observed_quantity(gen.build_aux(new))
        full = dict(s, aux=s["aux"] + [new], top=s["top"] + ["Lnew"])
        names = world.aux_names(full)
        world.compare(mon, world.pop_state(gen.draw(c), names), world.pop_state(gen.draw(gen.build(full)), names), "survey", "the survey with luminosities after ones without")
        # taken away again
        c.synth.clean()
        mon.raises(lambda: gen.draw(c), "rejected", "a survey without luminosities")
        return "a survey without luminosities"

    def failing(self, spec, b, rng, mon):
        """Something in a survey raises."""
        err = KeyboardInterrupt if rng.uniform() < 0.25 else Injected
        places = [("space", b.spatial, "dNdV"), ("space", b.spatial, "draw_sky_positions"), ("space", b.spatial, "transform"), ("space", b.spatial, "differential_volume")]
        if b.lum is not None and not any(d["kind"].startswith("derived") for d in spec["aux"]):
            places += [("lum", b.lum, "draw_luminosity"), ("lum", b.lum, "phi")]
        for d in spec["aux"]:
            a = b.aux[d["name"]]
            places.append(("true", a, "true_sampler"))
            if d["observed"]:
                places.append(("obs", a, "observation_sampler"))
            if d["kind"].startswith("derived"):
                places.append(("lum", a, "compute_luminosity"))
                places.append(("lum", a, "compute_luminosity"))
            if d.get("sel"):
                places.append(("select", a.selector, "draw"))
        for s in (b.flux_sel, b.dist_sel, b.spatial_sel):
            if s is not None:
                places.append(("select", s, "draw"))
        kind, obj, attr = places[int(rng.integers(0, len(places)))]
        f = getattr(obj, attr)
        at = int(rng.integers(0, 3)) if attr not in ("dNdV", "differential_volume") else int(rng.choice([0, 1, 2, 3, 10, 20, 21, 22, 23, 40, 60]))
        calls = [0]
        length = kind == "true" and rng.uniform() < 0.4 and err is Injected

        def hook(*a, **k):
            calls[0] += 1
            out = f(*a, **k)
            if calls[0] == at + 1 or (length and calls[0] == 1):
                if length:
                    obj._true_values = np.append(obj._true_values, 1.0)
                    return out
                raise err("injected")
            return out

        if attr not in ("dNdV", "differential_volume"):
            at = 0
        opt = dict(spec["draw"])
        if attr in ("dNdV", "differential_volume") and rng.uniform() < 0.6:
            opt["normalize"] = True
        setattr(obj, attr, hook)
        try:
            b.synth.draw_survey(**opt)
            if calls[0] > at:
                mon.fail("hidden", f"an error in {attr} of {type(obj).__name__} is not passed on", calls=calls[0])
        except (Injected, KeyboardInterrupt, AssertionError, ValueError) as e:
            mon.ev("failed_length" if length else "failed_" + kind)
            mon.ev("interrupted", isinstance(e, KeyboardInterrupt))
            if not length and not isinstance(e, err):
                raise
        finally:
            delattr(obj, attr)
        return f"a survey that failed in {attr} of {type(obj).__name__}, call {at + 1}"


CHECK = C28()
