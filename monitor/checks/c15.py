"""The truth of a population."""
import copy

import numpy as np

from monitor import gen, refs, world
from monitor.core import Check

# parameters with a default that need not be used in a survey
OPTIONAL = {
    "sigma": lambda d: not d["observed"],
    "noise": lambda d: not d["observed"],
}


class C15(Check):
    pid = "C15"
    quick = 900
    thorough = 16000
    rule = "random synths with parameters left at their defaults, changed and redrawn; non-trivial: a sampler at depth 2 or more"
    required = ("truths", "values", "defaults_used", "depth2", "depth3", "derived", "derived_over_lum", "later_changes", "second_survey", "shared")

    def directed(self, tier):
        out = []
        for i, k in enumerate(gen.SPATIAL):
            for j in range(3):
                rng = np.random.default_rng(i * 7 + j)
                s = gen.r_spec(rng, n=(3, 9), aux=(1, 5), spatial=[k], sels="none", p_sec=0.8)
                s["spatial"] = gen.r_spatial(rng, [k], defaults=float(j == 1))
                out.append(s)
        for i, k in enumerate(gen.LUM):
            for j in range(3):
                rng = np.random.default_rng(i * 7 + j)
                s = gen.r_spec(rng, n=(3, 9), aux=(0, 2), derived=False, sels="none")
                s["lum"] = gen.r_lum(rng, [k], defaults=float(j == 1))
                out.append(s)
        for i, k in enumerate(list(gen.PLAIN_AUX) + gen.PROBE_AUX):
            for j in range(4):
                rng = np.random.default_rng(i * 7 + j)
                s = gen.r_spec(rng, n=(3, 9), aux=(3, 4), derived=bool(j == 3) and k not in gen.USES_LUM, sels="none", p_sec=0.9, aux_kinds=[k])
                for d in s["aux"]:
                    if d["kind"] == k:
                        d["params"] = gen.r_aux_params(rng, k, defaults=float(j == 1))
                out.append(s)
        # large surveys
        for i, n in enumerate((300, 3000, 70000)):
            out.append(lambda n=n, i=i: gen.large(n, i))
        return out

    def gen(self, rng, idx, tier):
        spec = gen.r_spec(rng, n=(0, 12), aux=(0, 7), sels="none" if rng.uniform() < 0.7 else "probe", p_sec=0.7)
        return gen.r_dist_names(rng, spec) if rng.uniform() < 0.3 else spec

    def judge(self, S, pop, mon, what):
        E = world.expected_truth(S)
        T = pop.truth
        by = {d["name"]: d for d in S["aux"]}
        mon.check(set(T) == set(E), "truth-entries", f"{what}: the truth misses {sorted(set(E) - set(T))} and has additional {sorted(set(T) - set(E))}")
        mon.ev("truths")
        for name in set(T) & set(E):
            got, want = dict(T[name]), dict(E[name])
            d = by.get(name)
            mon.check(set(got) <= set(want), "truth-parameters", f"{what}: {name} has additional parameters {sorted(set(got) - set(want))}")
            for k, v in want.items():
                if k not in got:
                    explicit = k in (d["params"] if d else S["spatial"]["params"] if name == refs.spatial_name(S["spatial"]) else S["lum"]["params"])
                    if not explicit and d and k in OPTIONAL and OPTIONAL[k](d):
                        continue
                    mon.check(False, "truth-parameters", f"{what}: {name}.{k} = {v} is not recorded", kind=d and d["kind"], recorded=got)
                else:
                    mon.check(got[k] == v, "truth-values", f"{what}: {name}.{k} is recorded as {got[k]!r}, simulated with {v!r}")
                    mon.ev("values")
                    mon.ev("defaults_used", d is not None and k not in d["params"])
        return T

    def run(self, spec, mon):
        gen.progress(spec["progress"])
        S = copy.deepcopy(spec)
        b = gen.build(S)
        pop = gen.draw(b)
        self.judge(S, pop, mon, "a survey")
        before = world.plain(copy.deepcopy(dict(pop.truth)))
        sp = world.plain(copy.deepcopy(dict(pop.spatial_parameters)))
        # everything is changed, and drawn again
        rng = np.random.default_rng(spec["seed"] % 2**31)
        new = gen.r_spatial(rng, [S["spatial"]["kind"]], defaults=0)["params"]
        S["spatial"]["params"].update(new)
        gen.set_params(b.spatial, new)
        if S["lum"] is not None:
            new = gen.r_lum(rng, [S["lum"]["kind"]], defaults=0)["params"]
            S["lum"]["params"].update(new)
            gen.set_params(b.lum, new)
        for d in S["aux"]:
            new = gen.r_aux_params(rng, d["kind"], defaults=0)
            d["params"].update(new)
            gen.set_params(b.aux[d["name"]], new)
        mon.check(world.plain(dict(pop.truth)) == before, "truth-later", "changing parameters leaves the truth of a drawn population")
        pop2 = gen.draw(b, S)
        mon.check(world.plain(dict(pop.truth)) == before, "truth-later", "another survey leaves the truth of a drawn population")
        mon.check(world.plain(dict(pop.spatial_parameters)) == sp, "truth-later", "and its spatial parameters")
        mon.ev("later_changes")
        self.judge(S, pop2, mon, "a second survey")
        mon.ev("second_survey")
        # the recorded parameters agree with the truth
        t = pop2.truth[refs.spatial_name(S["spatial"])]
        for k, v in dict(pop2.spatial_parameters).items():
            if k in t:
                mon.check(t[k] == v, "truth-values", f"the spatial parameter {k} is {v}, the truth {t[k]}")
        used = [s for d in S["aux"] for s in d["sec"]]
        for d in S["aux"]:
            deep = [x for x in d["sec"] if {y["name"]: y for y in S["aux"]}[x]["sec"]]
            mon.ev("depth2", bool(deep))
            mon.ev("depth3", len(gen.below(S["aux"], d["name"])) > 3)
            mon.nontrivial = mon.nontrivial or bool(deep)
        mon.ev("shared", len(set(used)) < len(used))
        mon.ev("derived", world.derived_of(S) is not None)
        mon.ev("derived_over_lum", world.derived_of(S) is not None and S["lum"] is not None)
        mon.state(S["spatial"]["kind"], S["lum"] and S["lum"]["kind"], sorted((d["kind"], len(d["sec"]), d["observed"]) for d in S["aux"]))


CHECK = C15()
