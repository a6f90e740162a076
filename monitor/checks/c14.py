"""The graph of the model."""
import copy

import numpy as np

from monitor import gen, world
from monitor.core import Check


class C14(Check):
    pid = "C14"
    quick = 1500
    thorough = 25000
    rule = "random synths which are changed step by step, the graph is compared with the declared structure after every step; non-trivial: at least 2 samplers and one secondary"
    required = ("graphs", "population_graphs", "snapshots", "secondary_added", "attached", "cleaned", "derived", "derived_secondaries", "distance_edges", "no_luminosity", "cleaned_derived")

    def directed(self, tier):
        out = []
        for i in range(40):
            rng = np.random.default_rng(i)
            out.append(dict(spec=gen.r_spec(rng, n=(3, 9), aux=(0, 6), derived=bool(i % 2), sels="none", p_sec=0.8), steps=["secondary", "attach", "clean", "attach"], seed=i))
        for i, k in enumerate(gen.SPATIAL):
            rng = np.random.default_rng(i)
            out.append(dict(spec=gen.r_spec(rng, n=(3, 9), aux=(2, 5), spatial=[k], sels="none"), steps=["attach"], seed=i))
        return out

    def gen(self, rng, idx, tier):
        spec = gen.r_spec(rng, n=(0, 9), aux=(0, 8), sels="none", p_sec=float(rng.choice([0.3, 0.7])))
        if rng.uniform() < 0.3:
            gen.r_dist_names(rng, spec)
        return dict(spec=spec,
                    steps=[str(rng.choice(["attach", "secondary", "clean", "draw", "derived", "clean_soft"])) for _ in range(int(rng.integers(1, 5)))], seed=int(rng.integers(0, 2**31)))

    def judge(self, S, g, mon, what):
        E, N = world.expected_edges(S)
        ge, gn = world.graph_edges(g)
        E, N = sorted(E), sorted(N)
        mon.check(bool(g.is_directed()), "graph", f"{what}: the graph has directions")
        mon.check(ge == E, "graph-edges", f"{what}: edges missing {sorted(set(E) - set(ge))}, too many {sorted(set(ge) - set(E))}")
        mon.check(gn == N, "graph-nodes", f"{what}: nodes missing {sorted(set(N) - set(gn))}, too many {sorted(set(gn) - set(N))}")
        mon.ev("graphs")
        for d in S["aux"]:
            mon.ev("distance_edges", d["kind"] in gen.USES_DISTANCE)
        der = world.derived_of(S)
        mon.ev("derived", der is not None)
        mon.ev("derived_secondaries", der is not None and len(der["sec"]) > 0)
        mon.state(E)

    def drawable(self, S):
        return S.get("lum") is not None or world.derived_of(S) is not None

    def run(self, case, mon):
        S = copy.deepcopy(case["spec"])
        rng = np.random.default_rng(case["seed"])
        b = gen.build(S)
        self.judge(S, b.synth.graph, mon, "a synth")
        self.judge(S, b.synth.graph, mon, "a synth read twice")
        pops = []

        def draw():
            gen.progress(S["progress"])
            p = gen.draw(b, S)
            self.judge(S, p.graph, mon, "a population")
            pops.append((p, copy.deepcopy(S)))
            mon.ev("population_graphs")

        draw()
        self.judge(S, b.synth.graph, mon, "a synth after a survey")
        for st in case["steps"]:
            names = world.aux_names(S)
            if st in ("attach", "secondary"):
                name = str(rng.choice([n for n in gen.NAMES if n not in names]))
                kind = str(rng.choice(gen.PLAIN_AUX + gen.PROBE_AUX if st == "attach" else gen.PLAIN_AUX + ["probe", "probe_d"]))
                d = dict(name=name, kind=kind, observed=bool(rng.uniform() < 0.6), params=gen.r_aux_params(rng, kind), sec=[], sel=None)
                par = [x for x in S["aux"]]
                if st == "secondary" and not par:
                    continue
                S["aux"].insert(0, d)
                b.aux[name] = gen.build_aux(d)
                if st == "attach":
                    S["top"].append(name)
                    b.synth.add_observed_quantity(b.aux[name])
                    mon.ev("attached")
                else:
                    p = par[int(rng.integers(0, len(par)))]
                    p["sec"].append(name)
                    b.aux[p["name"]].set_secondary_sampler(b.aux[name])
                    mon.ev("secondary_added")
            elif st == "derived":
                if world.derived_of(S) is not None:
                    continue
                kind = str(rng.choice(["derived", "derived_d"]))
                d = dict(name="Lum1", kind=kind, observed=False, params={}, sec=[], sel=None)
                S["aux"].append(d)
                S["top"].append("Lum1")
                b.aux["Lum1"] = gen.build_aux(d)
                b.synth.add_observed_quantity(b.aux["Lum1"])
            elif st in ("clean", "clean_soft"):
                if world.derived_of(S) is not None:
                    mon.ev("cleaned_derived")
                b.synth.clean(reset=st == "clean")
                S.update(aux=[], top=[])
                mon.ev("cleaned")
            self.judge(S, b.synth.graph, mon, f"after {st}")
            if self.drawable(S):
                draw()
                self.judge(S, b.synth.graph, mon, f"after {st} and a survey")
            else:
                mon.ev("no_luminosity")
        # earlier populations keep their graphs
        for p, s in pops:
            self.judge(s, p.graph, mon, "an earlier population")
            mon.ev("snapshots")
        mon.nontrivial = len(case["spec"]["aux"]) >= 2 and any(d["sec"] for d in case["spec"]["aux"])


CHECK = C14()
