"""Reproducibility."""
import copy
import json
import os
import pickle
import random
import subprocess
import sys

import numpy as np

import popsynth
from monitor import gen, world
from monitor.core import Check

COPIES = {"pickle": lambda q: pickle.loads(pickle.dumps(q)), "deep copy": copy.deepcopy}
MODES = (None, "quiet", "loud", "debug")


class C11(Check):
    pid = "C11"
    quick = 320
    thorough = 6000
    rule = "random synths drawn again under other states of the random generators, logging levels and in other processes; non-trivial: more than 5 objects"
    required = ("in_process", "log_levels", "processes", "process_surveys", "jit_processes", "seeds_differ", "seed_bits", "copied_synths", "after_other_use")

    def directed(self, tier):
        out = []
        for j in range(2 if tier == "quick" else 10):
            out.append(lambda j=j: self.batch(100 + j, "0", 12 if tier == "quick" else 24))
        for j in range(1 if tier == "quick" else 4):
            out.append(lambda j=j: self.batch(200 + j, "1", 12 if tier == "quick" else 24))
        for i, k in enumerate(gen.SPATIAL):
            rng = np.random.default_rng(i)
            out.append(gen.r_spec(rng, n=(20, 30), aux=(3, 5), spatial=[k], sels="any"))
        for i, k in enumerate(gen.LUM):
            rng = np.random.default_rng(i)
            out.append(gen.r_spec(rng, n=(20, 30), aux=(0, 2), derived=False, lum=[k], sels="any"))
        for i, k in enumerate(gen.PLAIN_AUX):
            rng = np.random.default_rng(i)
            s = gen.r_spec(rng, n=(20, 30), aux=(2, 3), derived=False, aux_kinds=[k], sels="none")
            out.append(s)
        # large surveys
        for i, n in enumerate((300, 3000, 34000)):
            out.append(lambda n=n, i=i: gen.large(n, i))
        return out

    def batch(self, seed, jit, n):
        rng = np.random.default_rng(seed)
        specs = [json.loads(json.dumps(gen.r_spec(rng, n=(5, 60), aux=(0, 6), p_poisson=0.1))) for _ in range(n - 5)]
        for k in ("sfr", "zpow_cosmo", "spiral"):
            specs.append(json.loads(json.dumps(gen.r_spec(rng, n=(20, 30), aux=(0, 2), spatial=[k]))))
        for k in ("plaw", "bplaw"):
            specs.append(json.loads(json.dumps(gen.r_spec(rng, n=(20, 30), aux=(2, 3), derived=False, aux_kinds=[k]))))
        for s in specs:
            self.small(s)
        return dict(batch=specs, jit=jit)

    def small(self, s):
        """Poisson numbers only where these are small"""
        from monitor import refs

        if "n_samples" not in s["draw"] and not refs.expected_number(s["spatial"], s["draw"].get("normalize", False)) < 300:
            s["draw"]["n_samples"] = 40

    def gen(self, rng, idx, tier):
        s = gen.r_spec(rng, n=(0, 80), aux=(0, 6), p_poisson=0.15)
        self.small(s)
        return s

    def state(self, spec, b=None):
        gen.progress(spec["progress"])
        b = b or gen.build(spec)
        return world.pop_state(gen.draw(b), world.aux_names(spec))

    def run(self, spec, mon):
        if "batch" in spec:
            return self.processes(spec, mon)
        np.random.seed(11)
        A = self.state(spec)
        for s in (0, 12345, None):
            np.random.seed(s)
            random.seed(s)
            np.random.normal(size=7)
            world.compare(mon, A, self.state(spec), "random-state", f"the same survey after numpy.random.seed({s})")
            mon.ev("in_process")
        # draws between building and drawing
        gen.progress(spec["progress"])
        b = gen.build(spec)
        np.random.uniform(size=13)
        np.random.seed(99)
        world.compare(mon, A, self.state(spec, b), "random-state", "the same survey after other draws")
        # copies of a synth, made before and after it is drawn
        for how, f in [list(COPIES.items())[int(spec["seed"]) % 2]]:
            b = gen.build(spec)
            gen.progress(spec["progress"])
            early = f(b.synth)
            pops = [gen.draw(b)]
            late = f(b.synth)
            pops += [early.draw_survey(**spec["draw"]), late.draw_survey(**spec["draw"])]
            for w, q in zip(("synth with a {}", "{} of a synth", "{} of a used synth"), pops):
                world.compare(mon, A, world.pop_state(q, world.aux_names(spec)), "copied-synth", "the survey of a " + w.format(how))
            # changes of the original are not changes of the copy
            kept = f(b.synth)
            b.synth.clean(reset=True)
            for d in spec["aux"]:
                for k, v in d["params"].items():
                    if d["kind"] in ("normal", "delta", "mon_plain") and isinstance(v, float) and v > 0:
                        setattr(b.aux[d["name"]], k, v * 1.5)
            world.compare(mon, A, world.pop_state(kept.draw_survey(**spec["draw"]), world.aux_names(spec)), "copied-synth", f"the survey of a {how} after changes of the synth")
            mon.ev("copied_synths")
        try:
            for m in MODES[1:]:
                getattr(popsynth, m + "_mode")()
                world.compare(mon, A, self.state(spec), "log-level", f"the same survey in {m} mode")
                mon.ev("log_levels")
            # silenced and activated
            popsynth.silence_warnings()
            popsynth.silence_logs()
            world.compare(mon, A, self.state(spec), "log-level", "the same survey with silent logs")
            popsynth.activate_logs()
            popsynth.activate_warnings()
        finally:
            popsynth.quiet_mode()
        # other uses of popsynth in between
        other = dict(spec, seed=(spec["seed"] * 7 + 1) % 2**31)
        B = self.state(other)
        world.compare(mon, A, self.state(spec), "after-other", "the same survey after another one")
        mon.ev("after_other_use")
        n = A["n_objects"]
        if n > 5 and B["n_objects"] == n:
            mon.check(not np.array_equal(A["distances.obs"], B["distances.obs"]), "seed-ignored", "another seed gives other distances")
            mon.check(not np.array_equal(A["theta.obs"], B["theta.obs"]), "seed-ignored", "another seed gives other positions")
            if spec["lum"] and spec["lum"]["kind"] != "delta" and world.derived_of(spec) is None:
                mon.check(not np.array_equal(A["luminosities.obs"], B["luminosities.obs"]), "seed-ignored", "another seed gives other luminosities")
            for d in spec["aux"]:
                if d["kind"] != "delta":
                    mon.check(not np.array_equal(A[f"aux.{d['name']}.latent"], B[f"aux.{d['name']}.latent"]), "seed-ignored", f"another seed gives other values of {d['name']}")
            mon.ev("seeds_differ")
        if n > 0 and n < 1000:
            # seeds that are close, or differ by their highest bits only
            for bit in (0, 31, int(spec["seed"]) % 31):
                s2 = gen.build(dict(spec, seed=int(spec["seed"]) ^ (1 << bit)))
                r2 = world.arr(gen.draw(s2).distances)
                mon.check(not np.array_equal(A["distances.obs"], r2), "seed-ignored", f"a seed with another bit {bit} gives other distances")
                mon.ev("seed_bits")
        mon.nontrivial = n > 5
        mon.state(spec["spatial"]["kind"], spec["lum"] and spec["lum"]["kind"], spec["progress"], sorted(d["kind"] for d in spec["aux"]))

    def processes(self, spec, mon):
        specs = spec["batch"]
        jit = spec["jit"]
        runs = []
        procs = []
        variants = [("0", "quiet", 0), ("4711", None, 5)] + ([("1", "debug", 17)] if jit == "0" else [])
        for j, (hs, log, st) in enumerate(variants):
            order = list(range(len(specs)))
            if j % 2:
                order = order[::-1]
            src = os.path.join(mon.scratch, f"job{j}.json")
            dst = os.path.join(mon.scratch, f"out{j}.json")
            json.dump(dict(specs=specs, log=log, state=st, order=order), open(src, "w"))
            home = os.path.join(mon.scratch, f"home{j}")
            os.makedirs(home)
            env = dict(os.environ, PYTHONHASHSEED=hs, HOME=home, NUMBA_DISABLE_JIT="0" if jit == "1" else "1", NUMBA_CACHE_DIR=home)
            err = open(os.path.join(mon.scratch, f"err{j}"), "wb")
            procs.append((dst, err.name, subprocess.Popen([sys.executable, "-W", "ignore", "-m", "monitor.sub", src, dst], env=env, stdout=subprocess.DEVNULL, stderr=err, cwd=mon.scratch)))
        for dst, errn, p in procs:
            rc = p.wait()
            if not mon.check(rc == 0 and os.path.exists(dst), "unexpected-error", f"a process which draws surveys failed ({rc})", traceback=open(errn, errors="replace").read()[-2500:]):
                return
            d = json.load(open(dst))
            assert d["jit"] == (jit == "1")
            runs.append(dict((i, x) for i, x in d["res"]))
            mon.ev("jit_processes" if jit == "1" else "processes")
        if jit == "0":
            own = {}
            for i, s in enumerate(specs):
                own[i] = {k: world.digest(v) for k, v in self.state(s).items()}
            runs.append(own)
        for i in range(len(specs)):
            for r in runs[1:]:
                d = [k for k in runs[0][i] if runs[0][i][k] != r[i].get(k)]
                mon.check(not d and set(r[i]) == set(runs[0][i]), "other-process", f"survey {i} in another process{' (compiled)' if jit == '1' else ''} differs in {d[:6]}", spec=specs[i])
                mon.ev("process_surveys")
        mon.nontrivial = True
        mon.state("processes", jit, len(specs))


CHECK = C11()
