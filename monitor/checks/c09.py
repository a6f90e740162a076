"""Selectors on their own."""
import numpy as np
import scipy.special as sf

import popsynth
from monitor import gen, refs, world
from monitor.core import Check

QUANT = ("obs", "distance", "luminosity", "flux")


def r_values(rng, n, positive=False):
    k = int(rng.integers(0, 5))
    if k == 0:
        v = rng.normal(0, 3, n)
    elif k == 1:
        v = rng.integers(-4, 5, n).astype(float)  # ties
    elif k == 2:
        v = 10.0 ** rng.uniform(-12, 12, n)
    elif k == 3:
        v = rng.pareto(1.0, n) + 1
    else:
        v = rng.uniform(-1, 1, n) * 1e-3
    return np.abs(v) + 1e-15 if positive else v


class C09(Check):
    pid = "C09"
    quick = 2500
    thorough = 40000
    rule = "every selector with random quantities, parameters and boundaries equal to data values; non-trivial: a selection of a part of at least 20 objects"
    required = ("box", "lower", "upper", "soft", "soft_linear", "hardflux", "softflux", "bernoulli", "bernoulli_progress", "unity", "galplane", "galplane_near",
                "distance", "boundary_hit", "sum", "kept", "reset", "empty", "in_survey", "empty_box", "wide_box", "whole_numbers")

    def directed(self, tier):
        out = []
        for kind in gen.SEL:
            if kind in ("mon", "monspatial"):
                continue
            for on in QUANT if kind in ("box", "lower", "upper", "soft") else (None,):
                for n in (0, 1, 2, 50, 400):
                    for pr in (False, True) if kind == "bernoulli" else (False,):
                        out.append(dict(kind=kind, on=on, n=n, seed=n + 7, progress=pr, linear=False))
        for on in QUANT:
            out.append(dict(kind="soft", on=on, n=300, seed=11, progress=False, linear=True))
        for p in (0, 1, 0.0, 1.0, 0.5):
            for pr in (False, True):
                out.append(dict(kind="bernoulli", on=None, n=300, seed=5, progress=pr, linear=False, p=p))
        for b in (0, 90, 30, 89.9, 60.0):
            out.append(dict(kind="galplane", on=None, n=3000, seed=5, progress=False, linear=False, b=b))
        for on in QUANT:
            for n in (50, 400):
                out.append(dict(kind="box", on=on, n=n, seed=n + 9, progress=False, linear=False, reversed=True))
        for on in QUANT:
            for w in range(4):
                for n in (40, 400):
                    out.append(dict(kind="box", on=on, n=n, seed=10 * w + n, progress=False, linear=False, wide=w))
        for kind in ("distance",):
            out.append(dict(kind=kind, on=None, n=100, seed=3, progress=False, linear=False, reversed=True))
        # whole numbers
        for kind in ("box", "lower", "upper", "soft", "softflux", "hardflux", "distance"):
            for on in QUANT if kind in ("box", "lower", "upper", "soft") else (None,):
                for w in ("round", "large"):
                    out.append(dict(kind=kind, on=on, n=400, seed=4, progress=False, linear=False, whole=w))
        for lo, hi in ((0.0, 0.0), (0.0, 1e-9), (0, 5), (5, 0), (0.0, 1e9), (3.0, 1e9), (1e9, 2e9), (0, 0)):
            out.append(dict(kind="distance", on=None, n=200, seed=3, progress=False, linear=False, range=[lo, hi]))
        # many objects, small and large probabilities
        for kind in gen.SEL:
            if kind in ("mon", "monspatial", "galplane", "distance"):
                continue
            for n in (3000, 34000, 70000):
                out.append(dict(kind=kind, on="obs", n=n, seed=n + 5, progress=False, linear=False))
        for p in (1e-3, 0.01, 0.99, 0.999):
            for pr in (False, True):
                out.append(dict(kind="bernoulli", on=None, n=40000 if not pr else 6000, seed=6, progress=pr, linear=False, p=p))
        for kind in ("galplane", "distance"):
            out.append(dict(kind=kind, on=None, n=34000, seed=6, progress=False, linear=False))
        return out

    def gen(self, rng, idx, tier):
        kind = str(rng.choice([k for k in gen.SEL if k not in ("mon", "monspatial")]))
        return dict(kind=kind, on=str(rng.choice(QUANT)), n=int(rng.choice([0, 1, 3, 40, 150, 600])), seed=int(rng.integers(0, 2**31)),
                    progress=bool(rng.uniform() < 0.3), linear=bool(rng.uniform() < 0.3), reversed=bool(rng.uniform() < 0.06))

    def run(self, spec, mon):
        rng = np.random.default_rng(spec["seed"])
        kind, on, n = spec["kind"], spec["on"], spec["n"]
        gen.progress(spec["progress"])
        soft = kind in ("soft", "softflux")
        linear = spec["linear"] and kind == "soft"
        vals = {q: r_values(rng, n, positive=soft and not linear) for q in QUANT}
        sp = gen.PS["ConstantSphericalDistribution"]()
        sp.r_max = 10.0
        np.random.seed(spec["seed"] % 2**32)
        sp.draw_distance(n)
        sp.draw_sky_positions(n)
        vals["distance"] = np.array(sp.distances) if kind == "distance" else vals["distance"]
        d = dict(kind=kind, on=on, params={})
        target = {"hardflux": "flux", "softflux": "flux", "distance": "distance"}.get(kind, on)
        v = np.sort(vals[target]) if target else np.array([])
        pick = lambda: float(v[int(rng.integers(0, len(v)))]) if len(v) and rng.uniform() < 0.8 else float(rng.normal())  # noqa: E731
        P = d["params"]
        if kind == "box":
            P["vmin"], P["vmax"] = sorted((pick(), pick()), reverse=spec.get("reversed", False))
            wide = spec.get("wide")
            if wide is None and rng.uniform() < 0.15:
                wide = int(rng.integers(0, 4))
            if wide is not None and len(v):
                # one side far away, the other at a value
                far = [-1e3, -1e9, -1.0, -12345.678][wide] * (1 + abs(v[-1])) + v[0]
                P["vmin"], P["vmax"] = (far, float(v[len(v) // 2])) if wide != 2 else (float(v[len(v) // 2]), -far)
                mon.ev("wide_box")
            mon.ev("empty_box", P["vmin"] > P["vmax"])
        elif kind in ("lower", "upper", "hardflux"):
            P["boundary"] = pick()
        elif soft:
            P["boundary"] = pick() if linear else abs(pick()) + 1e-12
            P["strength"] = float(rng.choice([0.5, 1, 3, 10, 40, 0]))
        elif kind == "bernoulli":
            P["probability"] = spec.get("p", float(rng.choice([0, 1, 0.5, rng.uniform()])))
            if rng.uniform() < 0.1 and "p" not in spec:
                P.clear()
        elif kind == "galplane":
            P["b_limit"] = spec.get("b", float(rng.uniform(0, 90)))
        elif kind == "distance":
            P["min_distance"], P["max_distance"] = sorted((abs(pick()), abs(pick())), reverse=spec.get("reversed", False))
            if "range" in spec:
                P["min_distance"], P["max_distance"] = spec["range"]
        if spec.get("whole"):
            for k in [k for k in P if k in ("boundary", "vmin", "vmax", "min_distance", "max_distance")]:
                P[k] = int(round(P[k])) + soft if spec["whole"] == "round" else 10**25 if k in ("boundary", "vmax", "max_distance") else 0
            mon.ev("whole_numbers")
        s = gen.build_sel(d)
        for k in P:
            # what is expected is computed with floats
            P[k] = float(P[k])
        # all four quantities are set, to different values
        s.set_observed_value(vals["obs"].copy())
        s.set_distance(vals["distance"].copy())
        s.set_luminosity(vals["luminosity"].copy())
        s.set_observed_flux(vals["flux"].copy())
        if kind in ("galplane", "distance"):
            s.set_spatial_distribution(sp)
        if linear:
            s.draw(n, use_log=False)
            probs = sf.expit(P["strength"] * (vals[on] - P["boundary"]))
            e = None
            mon.ev("soft_linear")
        else:
            s.select(n)
            # the galactic latitude is a cross-check of the transformation
            e, probs = world.expected_one(d, obs=vals["obs"], distance=vals["distance"], luminosity=vals["luminosity"], flux=vals["flux"],
                                          ra=np.rad2deg(sp.phi), dec=90 - np.rad2deg(sp.theta), size=n)
        mon.ev(kind)
        if kind == "bernoulli" and spec["progress"]:
            mon.ev("bernoulli_progress")
        if n == 0:
            mon.ev("empty")
        got = world.arr(s.selection)
        if not mon.check(got.shape == (n,) and got.dtype == bool, "selection-shape", f"{kind}: one boolean per object", shape=got.shape, dtype=str(got.dtype)):
            return
        if e is None:
            if n:
                mon.pvalue(refs.bernoulli_probs_p(got, probs), "selection-probability", f"{kind} {d}", selected=int(got.sum()), expected=float(np.sum(probs)))
                if n >= 40:
                    r = got - probs
                    w = np.sqrt(np.maximum(probs * (1 - probs), 1e-12))
                    if np.sum(w > 0.1) > 30:
                        z = (r / w)[w > 0.1]
                        mon.pvalue(float(2 * gauss_sf(abs(np.sum(z[1:] * z[:-1])) / np.sqrt(len(z)) / 1.5)), "selection-probability", f"{kind}: choices are independent")
        else:
            ok = np.ones(n, bool)
            if e.dtype.kind == "i":
                ok = e >= 0
                mon.ev("galplane_near", bool(np.any(np.abs(np.abs(refs.galactic_b(np.rad2deg(sp.phi), 90 - np.rad2deg(sp.theta))) - P["b_limit"]) < 1)))
                e = e == 1
            mon.same(got[ok], e.astype(bool)[ok], "selection-rule", f"{kind} on {target} with {P}")
            if target and P:
                mon.ev("boundary_hit", bool(np.any(np.isin(vals[target], list(P.values())))))
        # counts and indices
        mon.check(s.n_selected == int(got.sum()) and s.n_non_selected == int((~got).sum()) and s.n_objects == n, "selector-counts", f"{kind}: counts",
                  got=[s.n_selected, s.n_non_selected, s.n_objects], want=int(got.sum()))
        mon.same(s.selection_index, np.flatnonzero(got), "selector-counts", "selected indices")
        mon.same(s.non_selection_index, np.flatnonzero(~got), "selector-counts", "other indices")
        mon.same(np.sort(np.concatenate([s.selection_index, s.non_selection_index])), np.arange(n), "selector-counts", "indices partition")
        # the sum of two selectors
        other = gen.build_sel(dict(kind="mon", params=dict(salt=spec["seed"] % 1000 + 1, p=0.5)))
        other.select(n)
        o = gen.pattern(n, spec["seed"] % 1000 + 1, 0.5)
        for x, y in ((s, other), (other, s)):
            z = x + y
            mon.same(z.selection, got & o, "selector-sum", f"{kind}: sum of two selectors")
            mon.check(z.n_selected == int((got & o).sum()) and z.n_objects == n, "selector-sum", "counts of the sum")
        third = gen.build_sel(dict(kind="mon", params=dict(salt=3, p=0.6)))
        third.select(n)
        mon.same(((s + other) + third).selection, got & o & gen.pattern(n, 3, 0.6), "selector-sum", "sum of three")
        u = gen.build_sel(dict(kind="unity"))
        u.select(n)
        u += s
        mon.same(u.selection, got, "selector-sum", "unity is neutral")
        mon.same(s.selection, got, "selector-sum", "summing leaves the summands")
        mon.same(other.selection, o, "selector-sum", "summing leaves the summands")
        mon.ev("sum")
        # drawn once, until it is reset
        if not linear:
            if kind in ("box", "lower", "upper", "hardflux", "soft", "softflux"):
                (s.set_observed_value, s.set_distance, s.set_luminosity, s.set_observed_flux)[QUANT.index(target)](vals[target] * 0 + 1.5)
            popsynth.quiet_mode()
            s.select(n)
            mon.same(s.selection, got, "selector-kept", f"{kind}: selecting again keeps the selection")
            mon.ev("kept")
            s.reset()
            if kind in ("box", "lower", "upper", "hardflux", "soft", "softflux"):
                s.select(n)
                e2, p2 = world.expected_one(d, **{target: vals[target] * 0 + 1.5}, size=n)
                if e2 is not None:
                    mon.same(s.selection, e2, "selector-reset", f"{kind}: draws anew after a reset")
                elif n:
                    mon.pvalue(refs.bernoulli_probs_p(s.selection, p2), "selector-reset", f"{kind}: draws anew after a reset")
            elif kind in ("bernoulli", "unity"):
                s.select(2 * n + 1)
                mon.check(s.n_objects == 2 * n + 1, "selector-reset", "draws anew for another size")
                if kind == "bernoulli":
                    mon.pvalue(refs.binom_p(int(world.arr(s.selection).sum()), 2 * n + 1, P.get("probability", 0.5)), "selector-reset", "probability after a reset")
                    if n > 40 and 0.2 < P.get("probability", 0.5) < 0.8:
                        mon.check(not np.array_equal(s.selection[:n], got), "selector-reset", "a new draw differs")
            else:
                sp.draw_distance(n)
                sp.draw_sky_positions(n)
                s.select(n)
                e2, _ = world.expected_one(d, distance=np.array(sp.distances), ra=np.rad2deg(sp.phi), dec=90 - np.rad2deg(sp.theta), size=n)
                ok = np.ones(n, bool) if e2.dtype == bool else e2 >= 0
                mon.same(world.arr(s.selection)[ok], (e2 == 1)[ok] if e2.dtype != bool else e2, "selector-reset", f"{kind}: draws anew after a reset")
            mon.ev("reset")
        # the same selector in a survey
        if spec["seed"] % 3 == 0 and n and kind not in ("galplane", "distance"):
            self.survey(spec, d, mon, target)
        mon.nontrivial = n >= 20 and 0 < got.sum() < n
        mon.state(kind, on if kind in ("box", "lower", "upper", "soft") else None, n, linear, bool(got.any()), bool(got.all()))

    def survey(self, spec, d, mon, target):
        """The quantity a selector sees in a survey."""
        where = "flux" if (target == "flux" or d["kind"] in ("bernoulli", "unity")) else "aux"
        node = dict(name="q", kind="probe_dl", observed=True, params={}, sec=[], sel=d if where == "aux" else None)
        s = dict(seed=spec["seed"], spatial=dict(kind="zpow_cosmo", params=dict(Lambda=1.0, delta=1.0, r_max=3.0), is_rate=True),
                 lum=dict(kind="pareto", params=dict(Lmin=2.0, alpha=1.0)), aux=[node], top=["q"], draw=dict(n_samples=60, flux_sigma=0.4), progress=spec["progress"])
        if where == "flux":
            s["flux_sel"] = d
        pilot = gen.draw(gen.build(dict(s, flux_sel=None, aux=[dict(node, sel=None)])))
        v = {"obs": pilot.q, "flux": pilot.fluxes, "distance": pilot.distances, "luminosity": pilot.luminosities}.get(target)
        d = dict(d, params=dict(d["params"]))
        if v is not None and d["kind"] in ("lower", "upper", "hardflux", "box", "soft", "softflux"):
            v = np.sort(world.arr(v))
            if d["kind"] == "box":
                d["params"].update(vmin=float(v[15]), vmax=float(v[45]))
            else:
                d["params"]["boundary"] = float(abs(v[30]))
            if d["kind"] == "soft" and target == "obs":
                return
        if where == "flux":
            s["flux_sel"] = d
        else:
            node["sel"] = d
        b = gen.build(s)
        pop = gen.draw(b)
        e, probs = world.expected_one(d, obs=world.arr(pop.q), distance=world.arr(pop.distances), luminosity=world.arr(pop.luminosities), flux=world.arr(pop.fluxes), size=60)
        sel = world.arr(pop.selection)
        if e is not None:
            mon.same(sel, e, "selection-in-survey", f"{d['kind']} on {target} in a survey")
        else:
            mon.pvalue(refs.bernoulli_probs_p(sel, probs), "selection-in-survey", f"{d['kind']} on {target} in a survey")
        mon.ev("in_survey")


def gauss_sf(x):
    from scipy import stats

    return stats.norm.sf(x)


CHECK = C09()
