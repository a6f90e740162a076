"""Populations conserve and align their objects."""
import os

import numpy as np
import popsynth

from monitor import gen, refs, world
from monitor.core import Check

QUANTITIES = ("luminosities", "distances", "fluxes", "theta", "phi", "ra", "dec")


def readers(names):
    """All ways to read a population, by name."""
    R = {}
    for q in QUANTITIES + tuple(names):
        for part in ("", "selected", "non_selected"):
            for la in ("", "latent"):
                def f(p, q=q, part=part, la=la):
                    v = getattr(p, q)
                    if part:
                        v = getattr(v, part)
                    return getattr(v, la) if la else v
                R[".".join(x for x in (q, part, la) if x)] = f
    for k in DEPRECATED:
        R[k] = lambda p, k=k: getattr(p, k)
    for k in ("selection", "known_distances", "n_objects", "n_detections", "n_non_detections", "has_detections", "flux_sigma",
              "truth", "luminosity_parameters", "spatial_parameters", "pop_synth", "graph", "probability"):
        R[k] = lambda p, k=k: getattr(p, k)
    R["repr"] = repr
    R["stan"] = lambda p: p.to_stan_data()
    return R


DEPRECATED = {
    "luminosities_latent": ("luminosities", None, True),
    "fluxes_latent": ("fluxes", None, True),
    "fluxes_observed": ("fluxes", None, False),
    "selected_fluxes_observed": ("fluxes", True, False),
    "selected_fluxes_latent": ("fluxes", True, True),
    "selected_distances": ("distances", True, False),
    "hidden_fluxes_observed": ("fluxes", False, False),
    "hidden_fluxes_latent": ("fluxes", False, True),
    "hidden_distances": ("distances", False, False),
}


def judge(spec, pop, mon, what):
    """All accessors of a population against its plain arrays."""
    n = pop.n_objects
    sel = world.arr(pop.selection)
    mon.check(sel.shape == (n,) and sel.dtype == bool, "selection", f"{what}: one choice per object", n=n, shape=sel.shape)
    nd = int(np.sum(sel))
    mon.check(pop.n_detections == nd, "counts", f"{what}: detections", got=pop.n_detections, want=nd)
    mon.check(pop.n_non_detections == n - nd, "counts", f"{what}: non-detections", got=pop.n_non_detections, want=n - nd)
    mon.check(pop.n_detections + pop.n_non_detections == pop.n_objects, "counts", f"{what}: sum")
    mon.check(bool(pop.has_detections) == (nd > 0), "counts", f"{what}: has_detections", got=pop.has_detections)
    r = repr(pop)
    nums = [int(x) for x in __import__("re").findall(r"\d+", r)]
    mon.check(all(k in nums for k in (n, nd, n - nd)), "counts", f"{what}: printed counts", text=r)
    full = {}
    for q in QUANTITIES + tuple(world.aux_names(spec)):
        v = getattr(pop, q)
        o, l = world.arr(v), world.lat(v)
        full[q] = (o, l)
        if not mon.check(o.shape == (n,) and l.shape == (n,), "aligned", f"{what}: {q} has one observed and one latent value per object", n=n, obs=o.shape, latent=l.shape):
            continue
        for part, m in (("selected", sel), ("non_selected", ~sel)):
            x = getattr(v, part)
            mon.same(world.arr(x), o[m], "partition", f"{what}: {q}.{part}")
            mon.same(world.lat(x), l[m], "partition", f"{what}: {q}.{part}.latent")
            mon.same(world.arr(getattr(x, part)), o[m], "partition", f"{what}: {q}.{part}.{part}")
            mon.same(world.lat(getattr(x, part)), l[m], "partition", f"{what}: {q}.{part}.{part}.latent")
            other = "non_selected" if part == "selected" else "selected"
            mon.check(len(getattr(x, other)) == 0, "partition", f"{what}: {q}.{part}.{other} is empty")
            mon.ev("parts")
        # putting the parts back in their places gives the quantity
        back = np.empty(n)
        back[sel] = world.arr(v.selected)
        back[~sel] = world.arr(v.non_selected)
        mon.same(back, o, "partition", f"{what}: the parts of {q} are all of it")
        mon.ev("quantities")
    for k, (q, part, la) in DEPRECATED.items():
        want = full[q][1 if la else 0]
        if part is not None:
            want = want[sel if part else ~sel]
        mon.same(world.arr(getattr(pop, k)), want, "deprecated", f"{what}: {k}")
        mon.ev("deprecated")
    mon.same(full["ra"][0], np.rad2deg(full["phi"][0]), "angles", f"{what}: right ascension", rtol=1e-12)
    mon.same(full["ra"][1], np.rad2deg(full["phi"][1]), "angles", f"{what}: right ascension, latent", rtol=1e-12)
    mon.same(full["dec"][0], 90 - np.rad2deg(full["theta"][0]), "angles", f"{what}: declination", rtol=1e-12, atol=1e-10)
    mon.same(full["dec"][1], 90 - np.rad2deg(full["theta"][1]), "angles", f"{what}: declination, latent", rtol=1e-12, atol=1e-10)
    for q in ("luminosities", "distances", "theta", "phi"):
        mon.same(*full[q], "latent", f"{what}: {q} are not obscured")
    if pop.probability is not None:
        mon.check(len(pop.probability) == n, "aligned", f"{what}: probabilities")
    known = world.arr(pop.known_distances)
    mon.check(len(known) <= nd and np.all(np.isin(known, full["distances"][0][sel])), "known", f"{what}: known distances are distances of detected objects")
    mon.ev("objects", n)
    mon.ev("detected", nd)
    mon.ev("hidden", n - nd)
    return full


class C18(Check):
    pid = "C18"
    quick = 380
    thorough = 6000
    rule = "random surveys with everything, saved and reloaded and down-selected ones, all accessors in random order; non-trivial: detected and hidden objects and a sampler"
    required = ("objects", "detected", "hidden", "parts", "deprecated", "reads", "reloaded", "sub", "traced", "none_detected", "all_detected")

    def directed(self, tier):
        out = []
        for i, k in enumerate(gen.SPATIAL):
            for j, p in enumerate((0.0, 0.4, 1.0)):
                rng = np.random.default_rng(i * 5 + j)
                s = gen.r_spec(rng, n=(5, 30), aux=(1, 4), spatial=[k], sels="none")
                s["flux_sel"] = dict(kind="mon", params=dict(salt=12, p=p))
                s["dist_sel"] = dict(kind="mon", params=dict(salt=13, p=0.5))
                out.append(s)
        # large surveys
        for i, n in enumerate((300, 3000, 70000)):
            out.append(lambda n=n, i=i: gen.large(n, i))
        return out

    def gen(self, rng, idx, tier):
        return gen.r_spec(rng, n=(0, 60), aux=(0, 6), sels="any" if rng.uniform() < 0.5 else "probe")

    def run(self, spec, mon):
        gen.trace_clear()
        gen.progress(spec["progress"])
        b = gen.build(spec)
        pop = gen.draw(b)
        # the values are the ones that were sampled, in their order
        last = {}
        for t in gen.TRACE:
            if t["ev"] in ("true", "obs"):
                last[(t["who"], t["ev"])] = t["out"]
        for d in spec["aux"]:
            if (d["name"], "true") in last:
                v = getattr(pop, d["name"])
                mon.same(world.lat(v), last[(d["name"], "true")], "sampled", f"latent values of {d['name']} are the sampled ones")
                if (d["name"], "obs") in last and d["observed"]:
                    mon.same(world.arr(v), last[(d["name"], "obs")], "sampled", f"observed values of {d['name']} are the sampled ones")
                mon.ev("traced")
        rng = np.random.default_rng(spec["seed"] % 2**31)
        names = world.aux_names(spec)
        S = world.pop_state(pop, names)
        judge(spec, pop, mon, "a population")
        # all readers, in random order, twice
        R = readers(names)
        first = {}
        for k in [str(x) for x in rng.permutation(list(R) * 2)]:
            v = R[k](pop)
            dg = world.digest(world.plain(v) if k != "graph" else world.graph_edges(v))
            mon.check(first.setdefault(k, dg) == dg, "reading", f"{k} reads the same twice")
            mon.ev("reads")
        world.compare(mon, S, world.pop_state(pop, names), "reading", "reading leaves the population as it was")
        x = rng.uniform()
        if x < 0.5:
            sub = pop.to_sub_population(observed=bool(rng.uniform() < 0.5))
            judge(spec, sub, mon, "a sub-population")
            mon.ev("sub")
        elif x < 0.8:
            path = os.path.join(mon.scratch, "p.h5")
            pop.writeto(path)
            judge(spec, popsynth.Population.from_file(path), mon, "a reloaded population")
            mon.ev("reloaded")
        n, nd = pop.n_objects, pop.n_detections
        mon.ev("none_detected", n > 0 and nd == 0)
        mon.ev("all_detected", n > 0 and nd == n)
        mon.nontrivial = 0 < nd < n and bool(names)
        mon.state(spec["spatial"]["kind"], sorted(d["kind"] for d in spec["aux"]), nd == 0, nd == n, n == 0)


CHECK = C18()
