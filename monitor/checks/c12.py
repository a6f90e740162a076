"""Histories of a population synth against freshly built ones."""
import copy

import numpy as np

import popsynth
from monitor import gen, refs, world
from monitor.core import Check

OPS = ["redraw", "draw", "spatial", "lum", "aux", "selpar", "attach", "secondary", "flux_sel", "dist_sel", "spatial_sel", "aux_sel", "progress", "clean", "clean_soft", "clean_part", "size"]


class C12(Check):
    pid = "C12"
    quick = 420
    thorough = 8000
    rule = "random histories of one synth (redraws, parameters, samplers, selections, sizes, cleaning and re-attaching), every survey compared with that of a freshly built synth; non-trivial: at least 3 surveys and 3 different operations"
    required = ("surveys_compared", "redraw", "spatial", "lum", "aux", "selpar", "attach", "secondary", "flux_sel", "dist_sel", "spatial_sel", "aux_sel", "clean", "reattached", "bare_after_clean", "size", "progress", "partly_reattached", "rewired")

    def directed(self, tier):
        out = []
        for i, op in enumerate(OPS):
            for j in range(3):
                rng = np.random.default_rng(10 * i + j)
                s = gen.r_spec(rng, n=(25, 40), aux=(2, 4), sels="probe" if j else "any", derived=bool(j == 2))
                out.append(dict(spec=s, ops=[op, "redraw", op], seed=i))
        # large surveys
        for i, n in enumerate((300, 3000, 70000)):
            out.append(lambda n=n, i=i: dict(spec=gen.large(n, i), ops=["flux_sel", "redraw"], seed=i))
        return out

    def gen(self, rng, idx, tier):
        s = gen.r_spec(rng, n=(0, 50), aux=(0, 4), sels=str(rng.choice(["probe", "any", "none"])))
        n = int(rng.integers(2, 7 if tier == "quick" else 12))
        return dict(spec=s, ops=[str(rng.choice(OPS)) for _ in range(n)], seed=int(rng.integers(0, 2**31)))

    # ------------------------------------------------------ operations

    def mon_sel(self, rng, spatial=False):
        return dict(kind="monspatial" if spatial else "mon", params=dict(salt=int(rng.integers(2, 10**6)), p=float(rng.choice([0.0, 0.4, 0.7, 1.0]))))

    def apply(self, op, S, b, rng, mon):
        """Change the spec and the synth alike."""
        by = {d["name"]: d for d in S["aux"]}
        if op in ("draw", "size"):
            if op == "size":
                S["draw"]["n_samples"] = int(rng.choice([0, 1, 2, 17, 60]))
            else:
                S["draw"].pop("flux_sigma", None)
                if rng.uniform() < 0.7:
                    S["draw"]["flux_sigma"] = float(np.round(rng.uniform(0.05, 1), 3))
                S["draw"]["log10_flux_draw"] = bool(rng.uniform() < 0.5)
                S["draw"]["normalize"] = bool(rng.uniform() < 0.3)
        elif op == "spatial":
            new = gen.r_spatial(rng, [S["spatial"]["kind"]], defaults=0)
            S["spatial"]["params"].update(new["params"])
            gen.set_params(b.spatial, new["params"])
        elif op == "lum":
            if S["lum"] is None:
                return False
            new = gen.r_lum(rng, [S["lum"]["kind"]], defaults=0)
            S["lum"]["params"].update(new["params"])
            gen.set_params(b.lum, new["params"])
        elif op == "aux":
            if not S["aux"]:
                return False
            d = S["aux"][int(rng.integers(0, len(S["aux"])))]
            new = gen.r_aux_params(rng, d["kind"], defaults=0)
            d["params"].update(new)
            gen.set_params(b.aux[d["name"]], new)
        elif op == "selpar":
            hit = False
            for lab, s in [("aux:" + d["name"], d.get("sel")) for d in S["aux"]] + [(k, S.get(k + "_sel")) for k in ("flux", "spatial", "dist")]:
                if s and s["kind"] in ("mon", "monspatial", "bernoulli"):
                    P = dict(salt=int(rng.integers(2, 10**6))) if s["kind"] != "bernoulli" else dict(probability=float(rng.uniform()))
                    s["params"].update(P)
                    gen.set_params(world.selector_object(b, "distance" if lab == "dist" else lab), P)
                    hit = True
            return hit
        elif op == "attach":
            free = [n for n in gen.NAMES if n not in by]
            name = str(rng.choice(free))
            kind = str(rng.choice(gen.PLAIN_AUX + gen.PROBE_AUX))
            d = dict(name=name, kind=kind, observed=bool(rng.uniform() < 0.7), params=gen.r_aux_params(rng, kind), sec=[], sel=self.mon_sel(rng) if rng.uniform() < 0.4 else None)
            S["aux"].append(d)
            S["top"].append(name)
            b.aux[name] = gen.build_aux(d)
            b.synth.add_observed_quantity(b.aux[name])
        elif op == "secondary":
            par = [d for d in S["aux"] if not d["kind"].startswith("derived")]
            if not par:
                return False
            p = par[int(rng.integers(0, len(par)))]
            name = str(rng.choice([n for n in gen.NAMES if n not in by]))
            kind = str(rng.choice(gen.PLAIN_AUX + ["probe", "probe_d"]))
            d = dict(name=name, kind=kind, observed=bool(rng.uniform() < 0.7), params=gen.r_aux_params(rng, kind), sec=[], sel=self.mon_sel(rng) if rng.uniform() < 0.4 else None)
            S["aux"].insert(0, d)
            p["sec"].append(name)
            b.aux[name] = gen.build_aux(d)
            b.aux[p["name"]].set_secondary_sampler(b.aux[name])
        elif op == "aux_sel":
            if not S["aux"]:
                return False
            d = S["aux"][int(rng.integers(0, len(S["aux"])))]
            d["sel"] = self.mon_sel(rng)
            b.aux[d["name"]].set_selection_probability(gen.build_sel(d["sel"]))
        elif op in ("flux_sel", "dist_sel", "spatial_sel"):
            S[op] = self.mon_sel(rng, op == "spatial_sel")
            s = gen.build_sel(S[op])
            setattr(b, op, s)
            {"flux_sel": b.synth.set_flux_selection, "dist_sel": b.synth.set_distance_selection, "spatial_sel": b.synth.add_spatial_selector}[op](s)
        elif op == "progress":
            S["progress"] = not S["progress"]
        elif op in ("clean", "clean_soft", "clean_part"):
            b.synth.clean(reset=op != "clean_soft")
            bare = copy.deepcopy(S)
            bare.update(aux=[], top=[], flux_sel=None, dist_sel=None, spatial_sel=None)
            if S["lum"] is not None:
                self.same(bare, b, mon, "clean", "a cleaned synth")
                # the defaults it used are its values now, also where a
                # derived luminosity takes over again
                S["lum"] = dict(S["lum"], params=dict(b.lum.truth))
                mon.ev("bare_after_clean")
            else:
                mon.raises(lambda: b.synth.draw_survey(n_samples=5), "clean", "no luminosity is left after cleaning")
                mon.ev("bare_after_clean")
            order = list(rng.permutation(len(S["top"])))
            S["top"] = [S["top"][i] for i in order]
            if op == "clean_part" and S["top"]:
                # some of the samplers are not attached again
                left = [n for n in S["top"] if rng.uniform() < 0.5]
                if S["lum"] is None and world.derived_of(S)["name"] not in left:
                    left.append(world.derived_of(S)["name"])
                mon.ev("partly_reattached", len(left) < len(S["top"]))
                S["top"] = left
                seen = {n for t in left for n in gen.below(S["aux"], t)}
                S["aux"] = [d for d in S["aux"] if d["name"] in seen]
            ok = [d["name"] for d in S["aux"] if d["name"] in S["top"] and not d["kind"].startswith("derived") and d["kind"] not in gen.FIXED_NAME]
            if len(ok) > 1 and rng.uniform() < 0.5:
                # a sampler of its own becomes one another depends on
                parent, child = [ok[i] for i in rng.permutation(len(ok))[:2]]
                next(d for d in S["aux"] if d["name"] == parent)["sec"].append(child)
                S["top"].remove(child)
                b.aux[parent].set_secondary_sampler(b.aux[child])
                mon.ev("rewired")
            for n in S["top"]:
                b.synth.add_observed_quantity(b.aux[n])
            if S.get("flux_sel"):
                b.synth.set_flux_selection(b.flux_sel)
            if S.get("dist_sel"):
                b.synth.set_distance_selection(b.dist_sel)
            if S.get("spatial_sel"):
                b.synth.add_spatial_selector(b.spatial_sel)
            mon.ev("reattached")
        return True

    def same(self, S, b, mon, key, msg):
        gen.progress(S["progress"])
        ref = gen.build(S)
        if S["lum"] is not None and world.derived_of(S) is not None:
            # a luminosity distribution which is not used: a default may not
            # have been read yet, which is no part of the survey
            for x in (b.lum, ref.lum):
                for k in refs.LUM_DEFAULTS[S["lum"]["kind"]]:
                    getattr(x, k)
        got = gen.draw(b, S)
        names = world.aux_names(S)
        G = world.pop_state(got, names)
        R = world.pop_state(gen.draw(ref, S), names)
        # nothing but the declared quantities
        q = set(getattr(got, "_auxiliary_quantities", {}) or {})
        mon.check(not q or q == set(names), key, f"{msg}: the quantities of the population are {sorted(q)}, not {sorted(names)}")
        world.compare(mon, R, G, key, msg + " and a fresh one draw the same survey")
        mon.check(world.plain(b.synth.to_dict()) == world.plain(ref.synth.to_dict()), key, msg + " has the same description")
        mon.ev("surveys_compared")

    def run(self, case, mon):
        S = copy.deepcopy(case["spec"])
        rng = np.random.default_rng(case["seed"])
        gen.trace_clear()
        b = gen.build(S)
        self.same(S, b, mon, "first", "a synth")
        done = []
        for op in case["ops"]:
            gen.trace_clear()
            if self.apply(op, S, b, rng, mon) is False:
                continue
            done.append(op)
            mon.ev(op)
            self.same(S, b, mon, "history", f"a synth after {done}")
            if mon.fails:
                break
        for x, y in zip(done, done[1:]):
            mon.state(x, y, S["spatial"]["kind"], world.derived_of(S) is not None)
        mon.nontrivial = len(done) >= 2 and len(set(done)) >= 2


CHECK = C12()
