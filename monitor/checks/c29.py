"""Degenerate surveys are ordinary surveys."""
import contextlib
import io
import os
import re

import h5py
import numpy as np
import popsynth

from monitor import gen, refs, world
from monitor.core import Check
from monitor.checks.c12 import CHECK as HIST
from monitor.checks.c17 import state as stored_state
from monitor.checks.c18 import judge as judge_accessors, readers
from monitor.checks.c19 import judge_sub
from monitor.checks.c21 import judge as judge_stan
from monitor.checks.c22 import CHECK as READS, POP_READS, SYNTH_READS, SHOW

SIZES = (0, 1, 2)
PARTS = (0.0, 1.0, 0.5)


class C29(Check):
    pid = "C29"
    quick = 150
    thorough = 4000
    rule = "surveys of no, one and two objects, with none, all or some detected and none, all or some of those distances known, of every configuration, and their sub-populations and reloaded copies; non-trivial: a degenerate survey (no object, one object, nothing detected, everything detected, no or all distances known)"
    required = ("no_objects", "one_object", "none_detected", "all_detected", "none_known", "all_known", "no_objects_poisson", "files", "groups", "sub_populations", "empty_sub", "stan_data", "displays", "repr", "graphs", "redrawn", "resurveyed", "reads") + tuple(SHOW)

    def directed(self, tier):
        out = []

        def add(i, n, p, q, **kw):
            rng = np.random.default_rng([29, i, n])
            s = gen.r_spec(rng, n=(n, n), sels="none", p_aux_sel=0, **{**dict(aux=(0, 4)), **kw})
            self.degenerate(s, p, q)
            out.append(s)

        i = 0
        for k in gen.SPATIAL:
            for n in SIZES:
                p, q = PARTS[i % 3], PARTS[(i // 3) % 3]
                add(i, n, p, q, spatial=[k])
                i += 1
        for k in gen.LUM:
            for n in SIZES[:2]:
                add(i, n, PARTS[i % 2], PARTS[(i // 2) % 2], lum=[k], derived=False)
                i += 1
        for k in gen.PLAIN_AUX + gen.PROBE_AUX:
            for n in SIZES[:2]:
                add(i, n, PARTS[i % 2], PARTS[(i // 2) % 2], aux=(1, 3), aux_kinds=[k], derived=False)
                i += 1
        for n in SIZES + (15,):
            for p in PARTS[:2]:
                for q in PARTS[:2]:
                    for der in (False, True):
                        add(i, n, p, q, aux=(2, 4), derived=der)
                        i += 1
        return out

    def degenerate(self, s, p, q):
        if p is not None:
            s["flux_sel"] = dict(kind="mon", params=dict(salt=3, p=p))
        if q is not None:
            s["dist_sel"] = dict(kind="mon", params=dict(salt=4, p=q))

    def gen(self, rng, idx, tier):
        n = int(rng.choice([0, 1, 2, 3, 12], p=[0.25, 0.25, 0.15, 0.1, 0.25]))
        s = gen.r_spec(rng, n=(n, n), aux=(0, 5), sels=str(rng.choice(["none", "none", "any", "probe"])))
        p = None if rng.uniform() < 0.2 else float(rng.choice([0.0, 1.0, 0.5], p=[0.4, 0.4, 0.2]))
        q = None if rng.uniform() < 0.2 else float(rng.choice([0.0, 1.0, 0.5], p=[0.4, 0.4, 0.2]))
        self.degenerate(s, p, q)
        if n == 0 and rng.uniform() < 0.4:
            # a rate at which no object exists
            s["rare"] = True
        if rng.uniform() < 0.5:
            s["model_spaces"] = [dict(name="grid", start=1.0, stop=10.0, log=bool(rng.uniform() < 0.5))]
        return s

    def whole(self, spec, pop, mon, what, r_max, rng, depth=0):
        """Everything there is to do with a population."""
        names = world.aux_names(spec)
        judge_accessors(spec, pop, mon, what)
        judge_stan(spec, pop, mon, what, r_max, spec["draw"].get("flux_sigma"))
        text = repr(pop)
        mon.check(isinstance(text, str) and text and str(pop) == text, "repr", f"{what}: printed", text=text)
        mon.ev("repr")
        S = stored_state(pop, names)
        show = [str(x) for x in rng.permutation(SHOW)[: (3, 1, 1)[depth]]]
        for op in show + ["arithmetic", "stan", "graph", "truth", "deprecated"]:
            try:
                READS.pop_read(op, pop, spec, rng, mon, 0)
            except Exception as e:
                import traceback

                mon.fail("reading", f"{what}: {op}: {type(e).__name__}: {e}", traceback=traceback.format_exc()[-1500:])
            if op in SHOW:
                mon.ev(op)
                mon.ev("displays")
            mon.ev("reads")
        world.compare(mon, S, stored_state(pop, names), "reading", f"{what}: reading it changes nothing")
        # kept in a file and in a group
        fn = os.path.join(mon.scratch, f"p{depth}.h5")
        pop.writeto(fn)
        back = popsynth.Population.from_file(fn)
        world.compare(mon, S, stored_state(back, names), "stored", f"{what}: from a file")
        mon.ev("files")
        fg = os.path.join(mon.scratch, f"g{depth}.h5")
        if os.path.exists(fg):
            os.unlink(fg)
        h5py.File(fg, "w").close()
        pop.addto(fg, "a")
        back.addto(fg, "b")
        for g in "ab":
            world.compare(mon, S, stored_state(popsynth.Population.from_group(fg, g), names), "stored", f"{what}: from a group")
            mon.ev("groups")
        E, N = world.expected_edges(spec)
        ge = world.graph_edges(pop.graph)
        mon.check(set(ge[0]) == E and set(ge[1]) >= {n for e in E for n in e}, "graph", f"{what}: model graph", got=ge[0], want=sorted(E))
        mon.ev("graphs")
        subs = []
        for observed in (True, False):
            sub = pop.to_sub_population(observed=observed)
            judge_sub(spec, pop, sub, observed, mon, f"{what}, observed={observed}")
            mon.ev("sub_populations")
            subs.append((observed, sub))
        if depth < 2:
            o, sub = subs[int(rng.integers(0, 2))]
            self.whole(spec, sub if rng.uniform() < 0.7 else back, mon, f"{what} > observed={o}", r_max, rng, depth + 1)

    def run(self, spec, mon):
        gen.progress(spec["progress"])
        rng = np.random.default_rng(spec["seed"] % 2**31)
        b = gen.build(spec)
        if spec.get("rare") and self.rare(spec, b):
            spec = dict(spec, draw={k: v for k, v in spec["draw"].items() if k != "n_samples"})
            mon.ev("no_objects_poisson")
        pop = gen.draw(b, spec)
        names = world.aux_names(spec)
        n, nd, nk = pop.n_objects, pop.n_detections, len(pop.known_distances)
        if "n_samples" in spec["draw"]:
            mon.check(n == spec["draw"]["n_samples"], "objects", "as many objects as are asked for", got=n)
        fs, ds = spec.get("flux_sel"), spec.get("dist_sel")
        if ds and ds["kind"] == "mon" and ds["params"]["p"] in (0, 1):
            mon.check(nk == (nd if ds["params"]["p"] else 0), "known", "distances known to none or all", got=nk, nd=nd)
        if fs and fs["kind"] == "mon" and fs["params"]["p"] == 0:
            mon.check(nd == 0, "detected", "a selector without detections", got=nd)
        self.whole(spec, pop, mon, "a survey", b.spatial.r_max, rng)
        first = world.pop_state(pop, names)
        # the synth goes on
        for op in SYNTH_READS:
            READS.synth_read(op, b, spec, rng, mon, 0)
            mon.ev("reads")
        gen.progress(spec["progress"])
        if spec["draw"].get("n_samples", 1) is not None:
            ref = gen.draw(gen.build(spec), spec)
            gen.progress(spec["progress"])
            again = gen.draw(b, spec)
            world.compare(mon, world.pop_state(ref, names), world.pop_state(again, names), "redrawn", "a further survey of the same synth")
            mon.ev("redrawn")
        # it has no consequences for a survey of ordinary size
        big = dict(spec, draw=dict(spec["draw"], n_samples=20))
        world.compare(mon, world.pop_state(gen.draw(gen.build(big), big), names), world.pop_state(gen.draw(b, big), names), "resurveyed", "an ordinary survey after a degenerate one")
        mon.ev("resurveyed")
        # and back
        small = dict(spec, draw=dict(spec["draw"], n_samples=int(rng.integers(0, 2))))
        world.compare(mon, world.pop_state(gen.draw(gen.build(small), small), names), world.pop_state(gen.draw(b, small), names), "resurveyed", "a degenerate survey after an ordinary one")
        world.compare(mon, first, world.pop_state(pop, names), "snapshot", "the first survey is as it was")
        mon.ev("no_objects", n == 0)
        mon.ev("one_object", n == 1)
        mon.ev("none_detected", n > 0 and nd == 0)
        mon.ev("all_detected", n > 0 and nd == n)
        mon.ev("none_known", nd > 0 and nk == 0)
        mon.ev("all_known", nd > 0 and nk == nd)
        mon.nontrivial = n < 2 or nd in (0, n) or nk in (0, nd)
        mon.state(spec["spatial"]["kind"], spec["lum"] and spec["lum"]["kind"], sorted(d["kind"] for d in spec["aux"]), min(n, 2), nd == 0, nd == n, nk == 0, nk == nd)

    def rare(self, spec, b):
        """Make the objects so rare that there are none."""
        p = spec["spatial"]["params"]
        for k in ("Lambda", "rho", "r0"):
            if k in b.spatial.params and b.spatial.params[k] is not None:
                lo = 1e-300
                setattr(b.spatial, k, lo)
                p[k] = lo
                return True
        return False


CHECK = C29()
