"""The event log of the samplers of a survey."""
import numpy as np

from monitor import gen, world
from monitor.core import Check

PROBES = ["probe", "probe_d", "probe_l", "probe_dl", "probe_p"]


class C13(Check):
    pid = "C13"
    quick = 1200
    thorough = 20000
    rule = "random graphs of recording samplers (shared secondaries, diamonds, derived luminosities), the event log of every survey is judged; non-trivial: a survey with at least one secondary sampler"
    required = ("true_events", "observation_events", "secondary_inputs", "shared", "below_derived", "depth3", "luminosity_seen", "second_survey", "stochastic_size")

    def directed(self, tier):
        out = []
        rng = np.random.default_rng(1)
        for der in (False, True):
            for k in PROBES:
                for depth in (1, 2, 3, 4, 6):
                    kk = k if not (der and k in gen.USES_LUM) else "probe_d"
                    nodes = [dict(name=f"n{i}", kind=kk, observed=bool(i % 2), params={}, sec=[f"n{i-1}"] if i else [], sel=None) for i in range(depth)]
                    top = [nodes[-1]["name"]]
                    if der:
                        nodes.append(dict(name="L0", kind="derived_d" if depth % 2 else "derived", observed=False, params={}, sec=top, sel=None))
                        top = ["L0"]
                    out.append(self.wrap(rng, nodes, top, der))
            # a diamond, a shared leaf for two tops, a sampler that is under the derived luminosity and under a top
            mk = lambda n, s, k="probe_d": dict(name=n, kind=k, observed=True, params={}, sec=s, sel=None)  # noqa: E731
            nodes = [mk("D", []), mk("B", ["D"]), mk("C", ["D"]), mk("A", ["B", "C", "D"]), mk("E", ["D"], "probe_dl")]
            tops = ["A", "E"]
            if der:
                nodes.append(dict(name="L0", kind="derived", observed=False, params={}, sec=["B", "D"], sel=None))
                tops.append("L0")
            out.append(self.wrap(rng, nodes, tops, der))
            out.append(self.wrap(rng, nodes, tops[::-1], der))
        for i, n in enumerate((300, 3000)):
            out.append(lambda n=n, i=i: gen.large(n, i, aux=(4, 5), aux_kinds=PROBES, p_sec=0.8))
        return out

    def wrap(self, rng, nodes, top, der):
        return dict(seed=int(rng.integers(0, 2**31)), spatial=gen.r_spatial(rng, ["cons_sphere", "spiral", "zpow_cosmo", "flatland"]),
                    lum=None if der else gen.r_lum(rng), aux=nodes, top=top, draw=dict(n_samples=30), progress=False)

    def gen(self, rng, idx, tier):
        if rng.uniform() < 0.8:
            return gen.r_spec(rng, n=(0, 40), aux=(1, 9), aux_kinds=PROBES, sels="probe", p_sec=float(rng.choice([0.3, 0.6, 0.9])))
        return gen.r_spec(rng, n=(0, 40), aux=(2, 8), sels="probe")

    def judge(self, spec, b, pop, mon):
        n = pop.n_objects
        by = {d["name"]: d for d in spec["aux"]}
        der = world.derived_of(spec)
        under = set(gen.below(spec["aux"], der["name"])) if der else set()
        r, th, ph = world.arr(pop.distances), world.arr(pop.theta), world.arr(pop.phi)
        ra, dec, L = world.arr(pop.ra), world.arr(pop.dec), world.arr(pop.luminosities)
        pos = {}
        for i, t in enumerate(gen.TRACE):
            if t["ev"] in ("true", "obs"):
                pos.setdefault((t["who"], t["ev"]), []).append(i)
        used = {}
        for d in spec["aux"]:
            for s in d["sec"]:
                used[s] = used.get(s, 0) + 1
        for d in spec["aux"]:
            k, name = d["kind"], d["name"]
            v = getattr(pop, name)
            if not (k.startswith("probe") or k.startswith("derived")):
                continue
            ti = pos.get((name, "true"), [])
            oi = pos.get((name, "obs"), [])
            if not mon.check(len(ti) == 1, "sampled-once", f"{name} ({k}) was sampled {len(ti)} times"):
                continue
            ev = gen.TRACE[ti[0]]
            mon.ev("true_events")
            mon.check(ev["size"] == n, "sampled-size", f"{name} was sampled for {ev['size']} of {n} objects")
            want_obs = d["observed"] and k.startswith("probe")
            if mon.check(len(oi) == int(want_obs), "observed-once", f"{name} was observed {len(oi)} times, observed={d['observed']}"):
                if want_obs:
                    oe = gen.TRACE[oi[0]]
                    mon.check(oi[0] > ti[0], "observed-after", f"{name} is observed after it is sampled")
                    mon.check(oe["size"] == n, "sampled-size", f"{name} was observed for {oe['size']} of {n} objects")
                    mon.same(oe["true"], ev["out"], "observed-after", f"the observation of {name} sees its true values")
                    mon.same(world.arr(v), oe["out"], "in-population", f"observed values of {name}")
                    mon.ev("observation_events")
                else:
                    mon.same(world.arr(v), ev["out"], "in-population", f"values of the unobserved {name}")
            mon.same(world.lat(v), ev["out"], "in-population", f"true values of {name}")
            g = ev["given"]
            mon.check(set(g["secondaries"]) == set(d["sec"]), "secondaries", f"{name} has the secondaries {sorted(g['secondaries'])}, not {d['sec']}")
            for s in d["sec"]:
                for e2 in ("true", "obs"):
                    for i in pos.get((s, e2), []):
                        mon.check(i < ti[0], "secondaries-first", f"{s} is sampled before {name}")
                w = getattr(pop, s)
                if s in g["secondaries"] and mon.check(g["secondaries"][s][0] is not None and g["secondaries"][s][1] is not None, "secondary-values", f"{name} sees values of {s}"):
                    mon.same(g["secondaries"][s][0], world.lat(w), "secondary-values", f"{name} sees the final true values of {s}")
                    mon.same(g["secondaries"][s][1], world.arr(w), "secondary-values", f"{name} sees the final observed values of {s}")
                    mon.ev("secondary_inputs")
            for key, want in (("_distance", r), ("_theta", th), ("_phi", ph), ("_ra", ra), ("_dec", dec)):
                if mon.check(g[key] is not None, "spatial-values", f"{name} is given {key}"):
                    mon.same(g[key], want, "spatial-values", f"{name} sees the {key} of the objects")
            if name not in under:
                if mon.check(g["_luminosity"] is not None, "luminosity-values", f"{name} is given the luminosity"):
                    mon.same(g["_luminosity"], L, "luminosity-values", f"{name} sees the luminosities of the objects")
                    mon.ev("luminosity_seen")
            else:
                mon.ev("below_derived")
            mon.ev("shared", used.get(name, 0) > 1)
            mon.ev("depth3", len(gen.below(spec["aux"], name)) > 3)
        if der:
            le = [t for t in gen.TRACE if t["ev"] == "lum"]
            if mon.check(len(le) == 1, "sampled-once", f"the derived luminosity was computed {len(le)} times"):
                mon.same(le[0]["out"], L, "in-population", "derived luminosities")

    def run(self, spec, mon):
        gen.trace_clear()
        gen.progress(spec["progress"])
        b = gen.build(spec)
        gen.trace_clear()
        pop = gen.draw(b)
        self.judge(spec, b, pop, mon)
        # once more, with another number of objects
        gen.trace_clear()
        if spec["seed"] % 3 == 0 and spec["spatial"]["kind"] in gen.NORMALIZATION_KINDS:
            d = {k: v for k, v in spec["draw"].items() if k != "n_samples"}
            pop2 = b.synth.draw_survey(**dict(d, normalize=True))
            mon.ev("stochastic_size")
        else:
            pop2 = b.synth.draw_survey(**dict(spec["draw"], n_samples=spec["draw"]["n_samples"] + 5))
        self.judge(spec, b, pop2, mon)
        mon.ev("second_survey")
        mon.nontrivial = any(d["sec"] for d in spec["aux"]) and pop.n_objects > 0
        ids = {d["name"]: i for i, d in enumerate(spec["aux"])}
        mon.state([(d["kind"], d["observed"], [ids[s] for s in d["sec"]]) for d in spec["aux"]])


CHECK = C13()
