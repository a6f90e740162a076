"""Detection is the conjunction of all attached selections."""
import numpy as np

from monitor import gen, refs, world
from monitor.core import Check


def mon_sel(salt, p=0.6):
    return dict(kind="mon", params=dict(salt=salt, p=p))


def chain(kinds, sel_at, seed=3, derived=None, extra_sec=()):
    """A chain of samplers n0 <- n1 <- n2 ...; derived: on top of it."""
    nodes = []
    for i, k in enumerate(kinds):
        nodes.append(dict(name=f"n{i}", kind=k, observed=True, params={}, sec=[f"n{i-1}"] if i else [], sel=None))
    if derived:
        nodes.append(dict(name="Lum0", kind=derived, observed=False, params={}, sec=[nodes[-1]["name"]] if nodes else [], sel=None))
    for i in sel_at:
        nodes[i]["sel"] = mon_sel(100 + i)
    return dict(seed=seed, spatial=dict(kind="cons_sphere", params=dict(Lambda=1.0, r_max=5.0)),
                lum=None if derived else dict(kind="pareto", params=dict(Lmin=1.0, alpha=1.5)),
                aux=nodes, top=[nodes[-1]["name"]], draw=dict(n_samples=70, flux_sigma=0.2), progress=False)


class C08(Check):
    pid = "C08"
    quick = 700
    thorough = 14000
    rule = "random synths with selections of all kinds on fluxes, space, samplers and secondary samplers of any depth; non-trivial: at least two selections that neither select nor reject all objects"
    required = ("objects", "selections", "secondary_selection", "deep_selection", "derived_selection", "spatial", "flux", "permuted", "no_selection", "distance_selection_present", "shared_selector", "random_selection")

    def directed(self, tier):
        out = []
        for depth in (1, 2, 3, 4, 5):
            for at in range(depth):
                out.append(chain(["probe"] * depth, [at]))
                out.append(chain(["normal"] * depth, [at]))
                if depth > 1:
                    out.append(chain(["probe"] * (depth - 1), [at], derived="derived"))
        out.append(chain([], [0], derived="derived"))
        # a diamond with one shared secondary, under the derived luminosity and elsewhere
        for who in "ABCDL":
            ns = [dict(name=n, kind="probe", observed=True, params={}, sec=s, sel=mon_sel(7) if n == who else None)
                  for n, s in (("D", []), ("B", ["D"]), ("C", ["D"]), ("A", ["B", "C"]))]
            ns.append(dict(name="L", kind="derived", observed=False, params={}, sec=["D"], sel=mon_sel(7) if who == "L" else None))
            base = chain(["probe"], [])
            for order in (["A", "L"], ["L", "A"]):
                out.append(dict(base, lum=None, aux=ns, top=order))
        for f in ("flux_sel", "spatial_sel"):
            for ds in (None, mon_sel(9)):
                s = chain(["probe"], [])
                s[f] = mon_sel(5) if f == "flux_sel" else dict(kind="monspatial", params=dict(salt=5, p=0.5))
                s["dist_sel"] = ds
                out.append(s)
        # only a distance selection
        s = chain(["probe"], [])
        s["dist_sel"] = mon_sel(9)
        out.append(s)
        # unity selections of all sorts mixed with one other
        for i in range(3):
            s = chain(["probe"] * 3, [i])
            for j, d in enumerate(s["aux"]):
                if j != i:
                    d["sel"] = dict(kind="unity")
            s["flux_sel"] = dict(kind="unity")
            out.append(s)
        # two samplers share one selector object
        out.append(dict(chain(["probe"], []), shared_selector=True))
        # large surveys
        for i, n in enumerate((300, 3000, 70000)):
            out.append(lambda n=n, i=i: gen.large(n, i))
        return out

    def gen(self, rng, idx, tier):
        return gen.r_spec(rng, n=(0, 120), aux=(0, 6), sels="probe" if rng.uniform() < 0.35 else "any", p_aux_sel=float(rng.choice([0.1, 0.4, 0.9])))

    def shared(self, spec, mon):
        """Both samplers keep values above the boundary."""
        b = gen.build(spec)
        P = gen.PS
        sel = P["LowerBound"](use_obs_value=True)
        sel.boundary = 0.0
        aux = []
        for n in ("one", "two"):
            a = P["NormalAuxSampler"](n, observed=False)
            a.mu, a.tau = 0.3, 1.0
            a.set_selection_probability(sel)
            b.synth.add_observed_quantity(a)
            aux.append(a)
        pop = gen.draw(b)
        want = (world.arr(pop.one) >= 0) & (world.arr(pop.two) >= 0)
        mon.ev("shared_selector")
        mon.same(world.arr(pop.selection), want, "shared-selector", "two samplers with the same selector object")

    def parts(self, v, sel, k, mon):
        x = world.arr(v)
        mon.same(world.arr(v.selected), x[sel], "conjunction", f"the detected part of {k}")
        mon.same(world.arr(v.non_selected), x[~sel], "conjunction", f"the hidden part of {k}")

    def run(self, spec, mon):
        if spec.get("shared_selector"):
            return self.shared(spec, mon)
        gen.trace_clear()
        gen.progress(spec["progress"])
        b = gen.build(spec)
        pop = gen.draw(b)
        n = pop.n_objects
        sel = world.arr(pop.selection)
        mon.check(sel.dtype == bool and sel.shape == (n,), "selection-shape", "one boolean per object", dtype=str(sel.dtype), n=n)
        if "n_samples" in spec["draw"]:
            mon.check(n == spec["draw"]["n_samples"], "selection-shape", "number of objects")
        flux, r, L = world.arr(pop.fluxes), world.arr(pop.distances), world.arr(pop.luminosities)
        known = np.ones(n, bool)
        want = np.ones(n, bool)
        partial = 0
        for label, s, node in world.active_selections(spec):
            obs = world.arr(getattr(pop, node["name"])) if node else None
            e, probs = world.expected_one(s, obs=obs, distance=r, luminosity=L, flux=flux, ra=world.arr(pop.ra), dec=world.arr(pop.dec), size=n)
            if e is None:
                e = world.arr(world.selector_object(b, label).selection).astype(bool)
                mon.ev("random_selection")
                mon.check(e.shape == (n,), "selection-shape", f"{label} makes a choice for each object")
                if n > 0:
                    mon.pvalue(refs.bernoulli_probs_p(e, probs), "selection-probability", f"{label} {s}")
            elif e.dtype.kind == "i":
                known &= e >= 0
                e = e == 1
            else:
                e = e.astype(bool)
            want &= e
            partial += bool(0 < np.sum(e) < n)
            mon.ev("selections")
            mon.ev("secondary_selection", bool(node and node["name"] not in spec["top"]))
            mon.ev("deep_selection", bool(node and any(node["name"] in x["sec"] and x["name"] not in spec["top"] for x in spec["aux"])))
            mon.ev("derived_selection", bool(node and node["kind"].startswith("derived")))
            mon.ev(label if label in ("flux", "spatial") else "aux")
            mon.state(label.split(":")[0], s["kind"], s.get("on"), node and node["kind"], bool(0 < np.sum(e) < n))
        mon.same(sel[known], want[known], "conjunction", "detected objects are those all selections select: " + ", ".join(f"{l}={s['kind']}" for l, s, _ in world.active_selections(spec)))
        for k in ("luminosities", "distances", "fluxes", "theta", "phi", "ra", "dec"):
            self.parts(getattr(pop, k), sel, k, mon)
        for d in spec["aux"]:
            self.parts(getattr(pop, d["name"]), sel, d["name"], mon)
        if not world.active_selections(spec):
            mon.ev("no_selection")
            mon.check(bool(np.all(sel)), "conjunction", "without a selection all objects are detected")
        mon.ev("objects", n)
        if spec.get("dist_sel"):
            mon.ev("distance_selection_present")
        # the order of attachment is irrelevant
        acts = world.active_selections(spec)
        if all(s["kind"] in ("mon", "monspatial", "unity") for _, s, _ in acts) and len(spec["top"]) > 1:
            b2 = gen.build(spec, attach_order=list(range(len(spec["top"])))[::-1])
            pop2 = gen.draw(b2)
            mon.same(world.arr(pop2.selection), sel, "attach-order", "samplers attached in the opposite order")
            mon.ev("permuted")
        mon.nontrivial = partial >= 2


CHECK = C08()
