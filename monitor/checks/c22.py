"""Drawn populations are snapshots; reading and displaying changes nothing."""
import contextlib
import copy
import io
import os

import numpy as np
import popsynth

from monitor import gen, world
from monitor.core import Check
from monitor.checks.c12 import CHECK as HIST, OPS as SYNTH_OPS

SHOW = ["display", "display_true_fluxes", "display_obs_fluxes", "display_fluxes", "display_luminosities", "display_distances",
        "display_obs_fluxes_sphere", "display_hidden_fluxes_sphere", "display_flux_sphere"]
POP_READS = SHOW + ["repr", "stan", "writeto", "addto", "sub", "deprecated", "arithmetic", "graph", "truth"]
SYNTH_READS = ["s.display", "s.repr", "s.to_dict", "s.write_to", "s.graph", "s.params", "s.sampler", "s.distribution"]
SYNTH_WRITES = SYNTH_OPS + ["model_space", "dict_edit", "seeded"]


class Silent:
    """Takes what an operation of another monitor reports."""

    def __getattr__(self, k):
        return lambda *a, **kw: True


class C22(Check):
    pid = "C22"
    quick = 330
    thorough = 6000
    rule = "random histories of changes to a synth, surveys, displays, conversions and reads with all populations drawn so far under observation; non-trivial: at least two populations and changes after the first"
    required = ("snapshots_compared", "reads", "changes", "next_survey", "protected", "protected_reloaded", "protected_sub", "clean", "model_space", "dict_edit") + tuple(SHOW)

    def directed(self, tier):
        out = []
        for i, op in enumerate(SYNTH_WRITES + POP_READS + SYNTH_READS):
            for j in range(2):
                rng = np.random.default_rng(10 * i + j)
                s = gen.r_spec(rng, n=(12, 25), aux=(2, 4), sels="any" if j else "probe", derived=bool(j))
                out.append(dict(spec=s, ops=[op, "redraw", op], seed=i))
        # large surveys
        for i, n in enumerate((300, 3000, 70000)):
            out.append(lambda n=n, i=i: dict(spec=gen.large(n, i), ops=["stan", "flux_sel", "redraw"], seed=i))
        return out

    def gen(self, rng, idx, tier):
        s = gen.r_spec(rng, n=(0, 40), aux=(0, 4), sels=str(rng.choice(["probe", "any", "none"])))
        k = int(rng.integers(3, 9 if tier == "quick" else 14))
        pools = [SYNTH_WRITES, POP_READS, SYNTH_READS, ["redraw"]]
        ops = [str(rng.choice(pools[int(rng.choice(4, p=[0.5, 0.25, 0.1, 0.15]))])) for _ in range(k)]
        return dict(spec=s, ops=ops, seed=int(rng.integers(0, 2**31)))

    def pop_read(self, op, pop, S, rng, mon, i):
        import matplotlib.pyplot as plt

        if op in SHOW:
            with contextlib.redirect_stdout(io.StringIO()):
                kw = {}
                if op in ("display_true_fluxes", "display_obs_fluxes", "display_fluxes", "display_luminosities", "display_distances") and rng.uniform() < 0.3:
                    kw["ax"] = plt.subplots()[1]
                if op == "display_fluxes" and rng.uniform() < 0.4:
                    kw["with_arrows"] = False
                if op.endswith("sphere") and rng.uniform() < 0.5:
                    kw["distance_transform"] = lambda d: d * 2.0
                getattr(pop, op)(**kw)
            plt.close("all")
            if op.endswith("sphere"):
                import ipyvolume

                ipyvolume.clear()
        elif op == "repr":
            repr(pop), str(pop)
        elif op == "stan":
            # what one is given can be changed as one likes
            d = pop.to_stan_data()
            d["N"] = -5
            d.pop("z_obs")
        elif op == "writeto":
            pop.writeto(os.path.join(mon.scratch, f"w{i}.h5"))
        elif op == "addto":
            import h5py

            p = os.path.join(mon.scratch, f"a{i}.h5")
            h5py.File(p, "w").close()
            pop.addto(p, "one")
            pop.addto(p, "two")
        elif op == "sub":
            for o in (True, False):
                pop.to_sub_population(observed=o)
        elif op == "deprecated":
            for k in ("fluxes_latent", "fluxes_observed", "selected_fluxes_observed", "selected_fluxes_latent", "selected_distances", "hidden_fluxes_observed", "hidden_fluxes_latent", "hidden_distances", "luminosities_latent"):
                getattr(pop, k)
        elif op == "arithmetic":
            for k in ("fluxes", "luminosities", "distances", "theta", "phi"):
                v = getattr(pop, k)
                np.log10(v + 1), v * 2, v / v, v.selected, v.non_selected, v.latent, -v, v[v > 0], v[::2], v.copy()
                x = v.copy()
                x *= 2
                y = v.selected
                y += 1
        elif op == "graph":
            world.graph_edges(pop.graph)
        elif op == "truth":
            dict(pop.truth), dict(pop.spatial_parameters)

    def synth_read(self, op, b, S, rng, mon, i):
        with contextlib.redirect_stdout(io.StringIO()):
            if op == "s.display":
                b.synth.display()
            elif op == "s.repr":
                repr(b.synth), str(b.synth)
            elif op == "s.to_dict":
                b.synth.to_dict()
            elif op == "s.write_to":
                b.synth.write_to(os.path.join(mon.scratch, f"s{i}.yml"))
            elif op == "s.graph":
                world.graph_edges(b.synth.graph)
            elif op == "s.params":
                dict(b.spatial.params), b.spatial.truth, b.synth.name
                if b.lum is not None:
                    dict(b.lum.params), b.lum.truth
            elif op == "s.sampler":
                for s in b.aux.values():
                    s.display()
                    repr(s), s.truth, s.selector, s.name, s.observed, s.secondary_samplers
            elif op == "s.distribution":
                b.spatial.display()
                repr(b.spatial)
                b.synth.spatial_distribution, b.synth.luminosity_distribution
                if b.lum is not None:
                    b.lum.display()
                    repr(b.lum)

    def protect(self, pop, names, mon, key):
        for n in names:
            v = getattr(pop, n)
            for new in (v * 2, None, 3.0):
                def put(n=n, new=new):
                    setattr(pop, n, new)
                mon.raises(put, "protected", f"{key}: assigning to {n}", AttributeError)
            mon.check(getattr(pop, n) is v or np.array_equal(world.arr(getattr(pop, n)), world.arr(v), equal_nan=True), "protected", f"{key}: {n} is as it was")
            mon.ev(key)

    def run(self, case, mon):
        S = copy.deepcopy(case["spec"])
        rng = np.random.default_rng(case["seed"])
        gen.progress(S["progress"])
        b = gen.build(S)
        pops = []

        def draw():
            gen.progress(S["progress"])
            p = gen.draw(b, S)
            names = world.aux_names(S)
            pops.append((p, names, copy.deepcopy(world.pop_state(p, names)), copy.deepcopy(S)))

        def compare(what):
            for j, (p, names, T, _) in enumerate(pops):
                world.compare(mon, T, world.pop_state(p, names), "snapshot", f"population {j} after {what}")
                mon.ev("snapshots_compared")

        draw()
        n0 = b.synth.to_dict()
        changes = 0
        read_only = True
        for i, op in enumerate(case["ops"]):
            gen.trace_clear()
            if op == "redraw":
                draw()
            elif op in POP_READS:
                p, names, _, SS = pops[int(rng.integers(0, len(pops)))]
                self.pop_read(op, p, SS, rng, mon, i)
                mon.ev("reads")
                mon.ev(op)
            elif op in SYNTH_READS:
                before = copy.deepcopy(world.plain(b.synth.to_dict()))
                self.synth_read(op, b, S, rng, mon, i)
                d = world.diff(before, world.plain(b.synth.to_dict()))
                mon.check(not d, "description", f"{op} changes the description of the synth: {d[:3]}")
                mon.ev("reads")
            elif op == "model_space":
                b.synth.add_model_space(f"space{int(rng.integers(0, 3))}", 1.0, float(rng.uniform(2, 50)), log=bool(rng.uniform() < 0.5))
                mon.ev("changes")
                mon.ev(op)
                # (a fresh synth for comparison has none)
                S["model_spaces"] = []
                changes += 1
            elif op == "dict_edit":
                # the description one is given is one's own
                d = b.synth.to_dict()
                d["seed"] = -1
                for k in ("spatial distribution", "luminosity distribution"):
                    for kk in d.get(k) or {}:
                        if isinstance(d[k][kk], dict):
                            for q in list(d[k][kk]):
                                d[k][kk][q] = -99.0
                for a in d.get("auxiliary samplers", {}).values():
                    a["type"] = "nothing"
                mon.ev(op)
                changes += 1
            elif op == "seeded":
                np.random.seed(int(rng.integers(0, 1000)))
                np.random.uniform(size=7)
                changes += 1
            else:
                if HIST.apply(op, S, b, rng, Silent()) is not False:
                    mon.ev("changes")
                    mon.ev("clean", op.startswith("clean"))
                    changes += 1
            compare(f"{case['ops'][: i + 1]}")
            if mon.fails:
                return
        # the next survey is the one of a synth nobody looked at
        spaces = S.pop("model_spaces", None)
        gen.progress(S["progress"])
        ref = gen.build(S)
        names = world.aux_names(S)
        skip = ("stan",) if spaces is not None else ()
        A, B = world.pop_state(gen.draw(b, S), names), world.pop_state(gen.draw(ref, S), names)
        world.compare(mon, B, A, "next-survey", f"after {case['ops']} the survey is that of a fresh synth", skip=skip)
        mon.ev("next_survey")
        compare("a further survey")
        p, names, _, _ = pops[-1]
        self.protect(p, names, mon, "protected")
        if rng.uniform() < 0.4:
            path = os.path.join(mon.scratch, "r.h5")
            p.writeto(path)
            self.protect(popsynth.Population.from_file(path), names, mon, "protected_reloaded")
            self.protect(p.to_sub_population(), names, mon, "protected_sub")
        compare("rejected assignments")
        mon.nontrivial = len(pops) > 1 and changes > 0
        for x, y in zip(case["ops"], case["ops"][1:]):
            mon.state(x, y)


CHECK = C22()
