"""Descriptions of synths: YAML and dictionaries."""
import copy
import os
import re

import numpy as np
import yaml

import popsynth
from monitor import gen, refs, world
from monitor.core import Check


def num(rng, v):
    """A number as somebody may write it."""
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        return v
    if isinstance(v, int):
        return v
    k = int(rng.integers(0, 4))
    if float(v).is_integer() and abs(v) < 1e6 and k < 2:
        return int(v)
    if k == 2:
        return repr(v).replace("e+", "e")  # text such as 1e52
    return v


def described(spec, rng=None, order=None, plainly=False):
    """
    The documented description of a spec, written by hand. With a generator,
    in one of the many ways of writing it down.
    """
    N = (lambda v: v) if plainly else (lambda v: num(rng, v))
    U = (lambda: 1.0) if plainly else rng.uniform

    def pars(P):
        return {k: N(v) for k, v in P.items()}

    def sel(s):
        d = pars(s.get("params", {}))
        if not d and U() < 0.5:
            d = None
        return {gen.SEL[s["kind"]]: d}

    out = {"seed": spec["seed"]}
    sd = {gen.SPATIAL[spec["spatial"]["kind"]]: pars(spec["spatial"]["params"])}
    if not spec["spatial"]["params"] and U() < 0.5:
        sd[gen.SPATIAL[spec["spatial"]["kind"]]] = None
    if spec["spatial"]["kind"] in gen.COSMO:
        if not (spec["spatial"].get("is_rate", True) and U() < 0.5):
            sd["is_rate"] = spec["spatial"].get("is_rate", True)
    out["spatial distribution"] = sd
    if spec.get("lum") is not None:
        p = pars(spec["lum"]["params"])
        out["luminosity distribution"] = {gen.LUM[spec["lum"]["kind"]]: p if p or U() < 0.5 else None}
    elif U() < 0.3:
        out["luminosity distribution"] = None
    for key, name in (("flux_sel", "flux selection"), ("dist_sel", "distance selection"), ("spatial_sel", "spatial selection")):
        if spec.get(key):
            out[name] = sel(spec[key])
        elif U() < 0.4:
            out[name] = None
    by = {d["name"]: d for d in spec["aux"]}
    ax = {}
    for n in order if order is not None else list(by):
        d = by[n]
        e = {"type": gen.AUX[d["kind"]], "observed": bool(d["observed"])}
        e.update(pars(d["params"]))
        if d.get("sel"):
            e["selection"] = sel(d["sel"])
        elif U() < 0.5:
            e["selection"] = None
        if d["sec"]:
            k = int(rng.integers(0, 3)) if not plainly else 0
            if k == 1 and len(d["sec"]) == 1:
                e["secondary"] = d["sec"][0]
            elif k == 2:
                e["secondary"] = {s: None for s in d["sec"]}
            else:
                e["secondary"] = list(d["sec"])
        elif U() < 0.4:
            e["secondary"] = []
        elif U() < 0.3:
            e["secondary"] = None
        if d.get("init"):
            e["init variables"] = dict(d["init"])
        elif U() < 0.3:
            e["init variables"] = None
        items = list(e.items())
        if not plainly:
            rng.shuffle(items)
        ax[n] = {str(k): v for k, v in items}
    if ax or U() < 0.5:
        out["auxiliary samplers"] = ax
    elif U() < 0.5:
        out["auxiliary samplers"] = None
    if not plainly:
        items = list(out.items())
        rng.shuffle(items)
        out = {str(k): v for k, v in items}
    return out


class C16(Check):
    pid = "C16"
    quick = 420
    thorough = 12000
    rule = "random synths through dictionary and YAML, and random hand-written descriptions against the Python calls; non-trivial: a synth with a sampler and a selection"
    required = ("dict_round_trips", "yaml_round_trips", "hand_written", "surveys_compared", "after_draw", "secondary", "derived", "transient", "steady", "text_numbers", "null_entries", "init_variables", "independent", "quantity_selector", "in_file_order", "contents")

    def directed(self, tier):
        out = []
        for i, k in enumerate(gen.SPATIAL):
            for j in range(3):
                rng = np.random.default_rng(i * 3 + j)
                out.append(self.make(rng, spatial=[k], defaults=j == 1))
        for i, k in enumerate(gen.LUM):
            for j in range(3):
                rng = np.random.default_rng(i * 3 + j)
                out.append(self.make(rng, derived=False, lum=[k], defaults=j == 1))
        for i, k in enumerate(gen.PLAIN_AUX + gen.PROBE_AUX + ["init"]):
            for j in range(3):
                rng = np.random.default_rng(i * 3 + j)
                out.append(self.make(rng, derived=False, aux=(2, 3), aux_kinds=[k], defaults=j == 1))
        out += [dict(quantity=q) for q in ("distance", "luminosity")]
        out.append(dict(init=True))
        return out

    def make(self, rng, defaults=False, aux=(0, 6), **kw):
        s = gen.r_spec(rng, n=(5, 60), aux=aux, yaml_safe=True, **kw)
        for d in s["aux"]:
            if d["kind"] == "init":
                d["init"] = dict(offset=float(np.round(rng.uniform(-5, 5), 3)))
        if defaults:
            s["spatial"] = gen.r_spatial(rng, [s["spatial"]["kind"]], defaults=1.0)
            if s["lum"]:
                s["lum"] = gen.r_lum(rng, [s["lum"]["kind"]], defaults=1.0)
            for d in s["aux"]:
                d["params"] = gen.r_aux_params(rng, d["kind"], defaults=1.0)
        return s

    def gen(self, rng, idx, tier):
        kinds = gen.PLAIN_AUX + gen.PROBE_AUX + ["init"]
        return self.make(rng, aux_kinds=kinds if rng.uniform() < 0.3 else None, defaults=bool(rng.uniform() < 0.1), p_aux_sel=0.6)

    def quantity(self, spec, mon):
        """A sampler's selection on something other than its observed value."""
        on = "use_" + spec["quantity"]
        P = gen.PS
        sp = P["ConstantSphericalDistribution"]()
        lum = P["ParetoDistribution"]()
        lum.Lmin, lum.alpha = 1.0, 1.0
        ps = P["PopulationSynth"](sp, lum, seed=5)
        a = gen.MonProbeDL("q")
        s = P["LowerBound"](**{on: True})
        s.boundary = 3.0
        a.set_selection_probability(s)
        ps.add_observed_quantity(a)
        one = ps.draw_survey(n_samples=60)
        two = P["PopulationSynth"].from_dict(ps.to_dict()).draw_survey(n_samples=60)
        mon.ev("quantity_selector")
        v = world.arr(one.distances if on == "use_distance" else one.luminosities)
        mon.same(world.arr(one.selection), v >= 3.0, "selection-in-survey", "the selection on " + on)
        mon.same(world.arr(two.q), world.arr(one.q), "round-trip-survey", "values of the sampler")
        mon.same(world.arr(two.selection), world.arr(one.selection), "selector-quantity-not-stored", "the selection of the reloaded synth on " + on)

    def init(self, mon):
        """A sampler with a constructor argument of its own."""
        P = gen.PS
        ps = P["PopulationSynth"](P["ConstantSphericalDistribution"](), gen.build_lum(dict(kind="pareto", params={})), seed=5)
        ps.add_observed_quantity(gen.MonInit("q", offset=2.5))
        one = ps.draw_survey(n_samples=20)
        two = P["PopulationSynth"].from_dict(ps.to_dict()).draw_survey(n_samples=20)
        mon.same(world.lat(two.q), world.lat(one.q), "init-variables-not-stored", "the sampler of the reloaded synth")

    def survey(self, synth, spec, names):
        gen.progress(spec["progress"])
        return world.pop_state(synth.draw_survey(**spec["draw"]), names)

    def same_synth(self, mon, a, b, what):
        da, db = world.plain(a.to_dict()), world.plain(b.to_dict())
        d = world.diff(da, db)
        mon.check(not d, "description", f"{what}: descriptions differ: {d[:4]}")
        mon.check(list(da.get("auxiliary samplers", {})) == list(db.get("auxiliary samplers", {})), "description", f"{what}: order of samplers")

    def run(self, spec, mon):
        if "quantity" in spec:
            return self.quantity(spec, mon)
        if "init" in spec:
            return self.init(mon)
        PS = popsynth.PopulationSynth
        names = world.aux_names(spec)
        A = self.survey(gen.build(spec).synth, spec, names)
        if any(d.get("init") for d in spec["aux"]):
            self.by_hand(spec, names, mon)
            return self.account(spec, names, mon)
        # a synth that was never drawn, and one that was
        for drawn in (False, True):
            b = gen.build(spec)
            if drawn:
                gen.draw(b)
                mon.ev("after_draw")
            D = b.synth.to_dict()
            keep = copy.deepcopy(D)
            self.contents(mon, spec, D)
            c = PS.from_dict(D)
            mon.check(D == keep and list(D) == list(keep), "description-changed", "building a synth leaves the dictionary as it was")
            self.same_synth(mon, b.synth, c, "through a dictionary")
            skip = ("_name",)
            B = self.survey(c, spec, names)
            world.compare(mon, A, B, "round-trip-survey", "through a dictionary")
            mon.ev("dict_round_trips")
            # the same dictionary once more
            c2 = PS.from_dict(D)
            world.compare(mon, A, self.survey(c2, spec, names), "round-trip-survey", "through a dictionary a second time")
            fn = os.path.join(mon.scratch, f"synth{int(drawn)}.yml")
            b.synth.write_to(fn)
            f = PS.from_file(fn)
            self.same_synth(mon, b.synth, f, "through a file")
            world.compare(mon, A, self.survey(f, spec, names), "round-trip-survey", "through a file")
            mon.ev("yaml_round_trips")
            # and again from the reloaded one, which was drawn
            f.write_to(fn)
            g = PS.from_file(fn)
            world.compare(mon, A, self.survey(g, spec, names), "round-trip-survey", "through a file twice")
            mon.ev("surveys_compared", 4)
            # writing does not change the synth
            world.compare(mon, A, self.survey(b.synth, spec, names), "description-changed", "the synth that was written")
        # the description that the population carries
        self.population(spec, A, names, mon)
        # synths of one description are independent
        c, c2 = PS.from_dict(D), PS.from_dict(D)
        P = dict(c.spatial_distribution.params)
        c.spatial_distribution.r_max = 3.25
        new = c.spatial_distribution.r_max
        mon.check(new == 3.25 and c2.spatial_distribution.r_max == P.get("r_max", c2.spatial_distribution.r_max), "shared-objects", "two synths of one description are independent")
        world.compare(mon, A, self.survey(c2, spec, names), "shared-objects", "changing another synth of the description")
        mon.ev("independent")
        self.by_hand(spec, names, mon)
        self.account(spec, names, mon)

    def contents(self, mon, spec, D):
        """What the dictionary says about the synth."""
        mon.check(D["seed"] == spec["seed"], "description-contents", "the seed")
        ax = D.get("auxiliary samplers") or {}
        mon.check(sorted(ax) == sorted(world.aux_names(spec)), "description-contents", "the names of the samplers", said=sorted(ax))
        for d in spec["aux"]:
            e = ax.get(d["name"], {})
            n = d["name"]
            mon.check(e.get("type") == gen.AUX[d["kind"]], "description-contents", f"the type of {n}", said=e.get("type"))
            obs = False if d["kind"].startswith("derived") or d["kind"] in gen.FIXED_NAME else bool(d["observed"])
            mon.check(bool(e.get("observed")) == obs, "description-contents", f"whether {n} is observed", said=e.get("observed"))
            mon.check(sorted(e.get("secondary") or []) == sorted(d["sec"]), "description-contents", f"the secondaries of {n}", said=e.get("secondary"))
            for k, v in d["params"].items():
                mon.check(k in e and e[k] == v, "description-contents", f"{k} of {n}", said=e.get(k), want=v)
            if d.get("sel"):
                mon.check(list(e.get("selection") or {}) == [gen.SEL[d["sel"]["kind"]]], "description-contents", f"the selection of {n}", said=e.get("selection"))
        mon.ev("contents", len(ax))

    def by_hand(self, spec, names, mon):
        PS = popsynth.PopulationSynth
        for j in range(3):
            rng = np.random.default_rng([spec["seed"], j])
            order = [str(x) for x in rng.permutation(names)] if j else list(names)
            H = described(spec, rng, order, plainly=j == 0)
            keep = copy.deepcopy(H)
            top = [n for n in order if n in spec["top"]]
            ref = self.survey(gen.build(dict(spec, top=top)).synth, spec, names)
            got = PS.from_dict(H)
            mon.check(H == keep, "description-changed", "building a synth leaves the hand-written description as it was")
            world.compare(mon, ref, self.survey(got, spec, names), "hand-written", "a hand-written dictionary and the Python calls")
            fn = os.path.join(mon.scratch, f"hand{j}.yml")
            with open(fn, "w") as fh:
                text = yaml.safe_dump(H, sort_keys=False)
                # numbers, names and kinds are commonly written without quotes
                bare = j == 2 and all(yaml.safe_load(n) == n for n in names)
                fh.write("# a description\n" + (re.sub(r"'([^'\n]*)'", lambda m: m[0] if m[1] in names else m[1], text) if bare else text))
            world.compare(mon, ref, self.survey(PS.from_file(fn), spec, names), "hand-written", "a hand-written file and the Python calls")
            mon.ev("hand_written")
            mon.ev("surveys_compared", 2)
            mon.ev("text_numbers", "e5" in text or "'" in text)
            mon.ev("null_entries", "null" in text)
            mon.ev("in_file_order", top != spec["top"])

    def account(self, spec, names, mon):
        for d in spec["aux"]:
            mon.ev("secondary", len(d["sec"]))
            mon.ev("init_variables", bool(d.get("init")))
        mon.ev("derived", world.derived_of(spec) is not None)
        if spec["spatial"]["kind"] in gen.COSMO:
            mon.ev("transient" if spec["spatial"]["is_rate"] else "steady")
        mon.nontrivial = bool(names) and bool(world.active_selections(spec) or spec.get("dist_sel"))
        mon.state(spec["spatial"]["kind"], spec["lum"] and spec["lum"]["kind"], sorted((d["kind"], len(d["sec"]), str(d["sel"] and d["sel"]["kind"])) for d in spec["aux"]), bool(spec.get("flux_sel")), bool(spec.get("dist_sel")), bool(spec.get("spatial_sel")))

    def population(self, spec, A, names, mon):
        b = gen.build(spec)
        p = gen.draw(b)
        c = popsynth.PopulationSynth.from_dict(p.pop_synth)
        world.compare(mon, A, self.survey(c, spec, names), "round-trip-survey", "the description a population carries")


CHECK = C16()
