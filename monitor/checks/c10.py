"""Known and unknown distances."""
import numpy as np

from monitor import gen, refs, world
from monitor.core import Check


class C10(Check):
    pid = "C10"
    quick = 700
    thorough = 14000
    rule = "random synths with all kinds of distance selections, including ones that select none or all; non-trivial: some but not all detected distances known, and some objects hidden"
    required = ("detected", "known", "unknown", "none_known", "all_known", "none_detected", "probe_input", "random_selection", "boundary", "redrawn")

    def directed(self, tier):
        out = []
        for i, k in enumerate(gen.SPATIAL):
            for ds in (dict(kind="bernoulli", params=dict(probability=0)), dict(kind="bernoulli", params=dict(probability=1)), dict(kind="mon", params=dict(salt=4, p=0.5)),
                       dict(kind="bernoulli", params=dict(probability=0.5)), dict(kind="unity"), None, dict(kind="mon", params=dict(salt=4, p=0.0)),
                       dict(kind="lower", on="distance", params=dict(boundary=2.0)), dict(kind="box", on="distance", params=dict(vmin=1.0, vmax=3.0)),
                       dict(kind="upper", on="distance", params=dict(boundary=1.5)), dict(kind="soft", on="distance", params=dict(boundary=1.5, strength=3.0))):
                for p in (0.0, 0.5, 1.0):
                    rng = np.random.default_rng(i)
                    s = gen.r_spec(rng, n=(40, 60), aux=(0, 2), spatial=[k], sels="none")
                    s["flux_sel"] = dict(kind="mon", params=dict(salt=12, p=p))
                    s["dist_sel"] = ds
                    out.append(s)
        # large surveys
        for i, n in enumerate((300, 3000, 70000)):
            out.append(lambda n=n, i=i: gen.large(n, i))
        return out

    def gen(self, rng, idx, tier):
        s = gen.r_spec(rng, n=(0, 120), aux=(0, 4), sels="any" if rng.uniform() < 0.6 else "probe", p_aux_sel=0.2)
        if s.get("dist_sel") is None or rng.uniform() < 0.3:
            s["dist_sel"] = dict(kind="mon", params=dict(salt=4, p=float(rng.choice([0, 0.2, 0.5, 1]))))
        return s

    def judge(self, spec, b, pop, mon):
        n = pop.n_objects
        r, sel = world.arr(pop.distances), world.arr(pop.selection)
        rd = r[sel]
        det = len(rd)
        known = world.arr(pop.known_distances)
        st = pop.to_stan_data()
        ki = np.asarray(st["r_idx"]).astype(int).ravel() - 1
        ui = np.asarray(st["r_nidx"]).astype(int).ravel() - 1
        mon.same(np.sort(np.concatenate([ki, ui])), np.arange(det), "partition", "known and unknown indices cover the detected objects once")
        mon.check(np.all(np.diff(ki) > 0) and np.all(np.diff(ui) > 0), "partition", "indices are in order")
        if not (np.all(ki >= 0) and np.all(ki < det)):
            return
        mon.same(known, rd[ki], "known-distances", "known distances are the true distances of these objects")
        d = spec.get("dist_sel")
        if d is None:
            want, probs = np.ones(det, bool), None
        else:
            want, probs = world.expected_one(d, distance=rd, size=det)
        got = np.zeros(det, bool)
        got[ki] = True
        if want is not None:
            mon.same(got, want, "known-selection", f"the distance selection {d} decides which distances are known")
            if d and d["kind"] in ("box", "lower", "upper"):
                mon.ev("boundary", bool(np.any(np.isin(rd, list(d["params"].values())))))
        else:
            own = b.dist_sel.selection
            mon.same(got, own, "known-selection", "the choice of the distance selection")
            mon.ev("random_selection")
            if det:
                mon.pvalue(refs.bernoulli_probs_p(got, probs), "known-selection", f"probability of {d}")
        mon.ev("detected", det)
        mon.ev("known", len(ki))
        mon.ev("unknown", len(ui))
        mon.ev("none_known", det > 0 and len(ki) == 0)
        mon.ev("all_known", det > 0 and len(ki) == det)
        mon.ev("none_detected", det == 0)
        mon.state(d and d["kind"], det > 0, len(ki) == det, len(ki) == 0, n == det)
        mon.nontrivial = mon.nontrivial or (0 < len(ki) < det < n)

    def run(self, spec, mon):
        gen.trace_clear()
        gen.progress(spec["progress"])
        b = gen.build(spec)
        pop = gen.draw(b)
        self.judge(spec, b, pop, mon)
        if spec.get("dist_sel", {}) and spec["dist_sel"]["kind"] == "mon":
            ts = [t for t in gen.TRACE if t["ev"] == "select" and t["salt"] == spec["dist_sel"]["params"].get("salt", 1) and t["distance"] is not None and t["flux"] is None and t["obs"] is None]
            rd = world.arr(pop.distances)[world.arr(pop.selection)]
            if mon.check(len(ts) == 1, "selection-input", "the distance selection is used once", n=len(ts)):
                mon.same(ts[0]["distance"], rd, "selection-input", "it sees the distances of the detected objects only")
                mon.check(ts[0]["size"] == len(rd), "selection-input", "and their number")
                mon.ev("probe_input")
        # and in another survey of another size
        d2 = dict(spec["draw"], n_samples=spec["draw"]["n_samples"] // 2 + 3)
        pop2 = b.synth.draw_survey(**d2)
        self.judge(spec, b, pop2, mon)
        mon.ev("redrawn")


CHECK = C10()
