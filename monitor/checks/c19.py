"""Sub-populations."""
import os

import networkx as nx
import numpy as np
import popsynth

from monitor import gen, refs, world
from monitor.core import Check
from monitor.checks.c17 import state as stored_state
from monitor.checks.c18 import QUANTITIES, judge as judge_accessors


def known_mask(pop):
    """Which of all objects have a known distance (from the Stan data)."""
    m = np.zeros(pop.n_objects, bool)
    where = np.where(world.arr(pop.selection))[0]
    m[where[np.asarray(pop.to_stan_data()["r_idx"]).astype(int).ravel() - 1]] = True
    return m


def judge_sub(spec, parent, sub, observed, mon, what):
    names = world.aux_names(spec)
    sel = world.arr(parent.selection)
    part = sel if observed else ~sel
    n = int(np.sum(part))
    mon.check(sub.n_objects == n and sub.n_detections == n and sub.n_non_detections == 0, "sub-counts", f"{what}: {n} objects, all selected", got=[sub.n_objects, sub.n_detections])
    mon.check(np.all(world.arr(sub.selection)) and len(sub.selection) == n, "sub-counts", f"{what}: selection")
    for q in QUANTITIES + tuple(names):
        a, s = getattr(parent, q), getattr(sub, q)
        mon.same(world.arr(s), world.arr(a)[part], "sub-values", f"{what}: observed {q}")
        mon.same(world.lat(s), world.lat(a)[part], "sub-values", f"{what}: latent {q}")
        mon.ev("quantities")
    if parent.probability is None:
        mon.check(sub.probability is None, "sub-values", f"{what}: probability")
    else:
        mon.same(world.arr(sub.probability), world.arr(parent.probability)[part], "sub-values", f"{what}: probability")
    km = known_mask(parent)
    mon.same(world.arr(sub.known_distances), world.arr(parent.distances)[km & part], "sub-known", f"{what}: known distances")
    st = sub.to_stan_data()
    mon.same(np.asarray(st["r_idx"]).astype(int), np.where(km[part])[0] + 1, "sub-known", f"{what}: known index")
    mon.same(np.asarray(st["r_nidx"]).astype(int), np.where(~km[part])[0] + 1, "sub-known", f"{what}: unknown index")
    ps = parent.to_stan_data()
    mon.check(set(st) == set(ps), "sub-stan", f"{what}: Stan keys", a=sorted(st), b=sorted(ps))
    mon.check(st["N"] == n and st["Nz"] == int(np.sum(km & part)) and st["Nnz"] == int(np.sum(~km & part)), "sub-stan", f"{what}: Stan counts")
    for k in ("r_max", "z_max", "flux_sigma", "N_model") + tuple(m["name"] for m in spec.get("model_spaces", [])):
        mon.check(not world.diff(world.plain(st[k]), world.plain(ps[k])), "sub-stan", f"{what}: {k}", a=st[k], b=ps[k])
    for q in names:
        mon.same(np.asarray(st[q + "_obs"]), world.arr(getattr(parent, q))[part], "sub-stan", f"{what}: {q}_obs")
    for k in ("truth", "spatial_parameters", "luminosity_parameters", "pop_synth", "flux_sigma"):
        d = world.diff(world.plain(getattr(parent, k)), world.plain(getattr(sub, k)), k)
        mon.check(not d, "sub-kept", f"{what}: {d[:3]}")
    mon.check(world.graph_edges(sub.graph) == world.graph_edges(parent.graph), "sub-kept", f"{what}: graph")
    for k in ("_seed", "_name", "_spatial_form", "_lf_form", "_r_max"):
        a, c = getattr(parent, k, world.MISSING), getattr(sub, k, world.MISSING)
        if not (isinstance(a, str) and a == world.MISSING or isinstance(c, str) and c == world.MISSING):
            mon.check(a == c, "sub-kept", f"{what}: {k} {a!r} {c!r}")
    mon.ev("subs_observed" if observed else "subs_hidden")
    mon.ev("sub_objects", n)
    mon.ev("sub_known", int(np.sum(km & part)))
    mon.ev("sub_unknown_observed", int(np.sum(~km & part)) if observed else 0)
    mon.ev("empty_sub", n == 0)


class C19(Check):
    pid = "C19"
    quick = 300
    thorough = 5000
    rule = "random surveys with everything, sub-populations of sub-populations and of reloaded populations; non-trivial: detected and hidden objects, some but not all detected distances known"
    required = ("subs_observed", "subs_hidden", "sub_objects", "sub_known", "sub_unknown_observed", "empty_sub", "nested", "saved", "displayed", "of_reloaded", "all_known", "none_known", "model_spaces")

    def directed(self, tier):
        out = []
        for i, k in enumerate(gen.SPATIAL):
            for j, (p, q) in enumerate(((0.5, 0.5), (0.3, 1.0), (0.7, 0.0), (1.0, 0.5), (0.0, 0.5))):
                rng = np.random.default_rng(i * 5 + j)
                s = gen.r_spec(rng, n=(5, 30), aux=(1, 4), spatial=[k], sels="none", p_aux_sel=0)
                s["flux_sel"] = dict(kind="mon", params=dict(salt=12, p=p))
                s["dist_sel"] = dict(kind="mon", params=dict(salt=13, p=q))
                s["model_spaces"] = [dict(name="grid", start=1.0, stop=10.0, log=bool(j % 2))]
                out.append(s)
        # large surveys
        for i, n in enumerate((300, 3000, 34000)):
            out.append(lambda n=n, i=i: gen.large(n, i))
        return out

    def gen(self, rng, idx, tier):
        s = gen.r_spec(rng, n=(0, 50), aux=(0, 5), sels="any" if rng.uniform() < 0.5 else "probe", p_aux_sel=0.2)
        if rng.uniform() < 0.7:
            s["dist_sel"] = dict(kind="mon", params=dict(salt=4, p=float(rng.choice([0, 0.3, 0.6, 1]))))
        if rng.uniform() < 0.4:
            s["model_spaces"] = [dict(name="grid", start=1.0, stop=10.0, log=bool(rng.uniform() < 0.5))]
        return s

    def run(self, spec, mon):
        import matplotlib.pyplot as plt

        gen.progress(spec["progress"])
        b = gen.build(spec)
        pop = gen.draw(b)
        rng = np.random.default_rng(spec["seed"] % 2**31)
        names = world.aux_names(spec)
        if rng.uniform() < 0.3:
            path = os.path.join(mon.scratch, "q.h5")
            pop.writeto(path)
            pop = popsynth.Population.from_file(path)
            mon.ev("of_reloaded")
        S = world.pop_state(pop, names)
        subs = {}
        for observed in (True, False):
            st = np.random.get_state()
            sub = pop.to_sub_population(observed=observed) if rng.uniform() < 0.8 or not observed else pop.to_sub_population()
            en = np.random.get_state()
            mon.check(st[2] == en[2] and np.array_equal(st[1], en[1]), "sub-parent", "no random numbers are used")
            world.compare(mon, S, world.pop_state(pop, names), "sub-parent", "the parent is as it was")
            judge_sub(spec, pop, sub, observed, mon, f"observed={observed}")
            subs[observed] = sub
        # they share nothing with the parent that changes with them
        for observed, sub in subs.items():
            T = stored_state(sub, names)
            # sub-populations of it
            judge_sub(spec, sub, sub.to_sub_population(observed=True), True, mon, f"the observed part of observed={observed}")
            judge_sub(spec, sub, sub.to_sub_population(observed=False), False, mon, f"the hidden part of observed={observed}")
            judge_accessors(spec, sub, mon, f"observed={observed}")
            mon.ev("nested")
            path = os.path.join(mon.scratch, f"{observed}.h5")
            sub.writeto(path)
            back = popsynth.Population.from_file(path)
            d = world.diff(T, stored_state(back, names))
            mon.check(not d, "sub-saved", f"observed={observed}: saving and reloading: {d[:3]}")
            mon.ev("saved")
            if rng.uniform() < 0.3:
                sub.display()
                if sub.n_objects:
                    sub.display_fluxes()
                    sub.display_luminosities()
                    sub.display_distances()
                    plt.close("all")
                mon.ev("displayed")
            # values of a sub-population are its own
            for q in ("luminosities", "distances", "fluxes"):
                v = getattr(sub, q)
                v *= 3.0
            for q in ("theta", "phi", *names):
                v = getattr(sub, q)
                if v.dtype.kind == "f":
                    np.add(v, 2.0, out=v)
            world.compare(mon, S, world.pop_state(pop, names), "sub-parent", "changing the values of a sub-population leaves the parent")
        nd = pop.n_detections
        kn = len(pop.known_distances)
        mon.ev("all_known", nd > 0 and kn == nd)
        mon.ev("none_known", nd > 0 and kn == 0)
        mon.ev("model_spaces", len(spec.get("model_spaces", [])))
        mon.nontrivial = 0 < kn < nd < pop.n_objects
        mon.state(spec["spatial"]["kind"], sorted(d["kind"] for d in spec["aux"]), nd == 0, nd == pop.n_objects, kn == 0, kn == nd)


CHECK = C19()
