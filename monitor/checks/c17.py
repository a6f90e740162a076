"""Populations through HDF5."""
import copy
import os
import pickle

import h5py
import numpy as np

import popsynth
from monitor import gen, world
from monitor.core import Check


COPIES = {"pickle": lambda q: pickle.loads(pickle.dumps(q)), "deep copy": copy.deepcopy}


def norm(x):
    """Lists of names are stored like dictionaries of empty entries."""
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    if isinstance(x, list) and all(isinstance(v, str) for v in x):
        return {v: {} for v in x}
    if isinstance(x, list):
        return [norm(v) for v in x]
    return x


def state(pop, names):
    S = world.pop_state(pop, names)
    S["pop_synth"] = norm(S["pop_synth"])
    S["pop_synth_order"] = list(S["pop_synth"].get("auxiliary samplers", {}))
    S["secondary_order"] = {k: list(v.get("secondary", {})) for k, v in S["pop_synth"].get("auxiliary samplers", {}).items()}
    S["truth"] = norm(S["truth"])
    return S


class C17(Check):
    pid = "C17"
    quick = 150
    thorough = 8000
    rule = "random populations (also empty, undetected and sub-populations) through files and groups, several times; non-trivial: auxiliary quantities and hidden objects"
    required = ("files", "groups", "cycles", "sub_populations", "stored_surveys", "empty", "no_luminosity", "model_spaces", "stored_secondaries", "deep_graph", "overwritten", "numpy_parameters", "copies", "named_distributions")

    def directed(self, tier):
        out = []
        for i, k in enumerate(gen.SPATIAL):
            for j in range(2):
                rng = np.random.default_rng(i * 3 + j)
                out.append(self.make(rng, spatial=[k], n=(5, 30)))
        for i, k in enumerate(gen.LUM):
            rng = np.random.default_rng(i)
            out.append(self.make(rng, derived=False, lum=[k]))
        for i, k in enumerate(gen.PLAIN_AUX + gen.PROBE_AUX):
            rng = np.random.default_rng(i)
            out.append(self.make(rng, derived=False, aux=(2, 3), aux_kinds=[k]))
        for n in (0, 1):
            for p in (0.0, 1.0):
                for q in (0.0, 1.0):
                    rng = np.random.default_rng(3)
                    s = self.make(rng, n=(n, n), aux=(2, 3))
                    s["flux_sel"] = dict(kind="mon", params=dict(salt=3, p=p))
                    s["dist_sel"] = dict(kind="mon", params=dict(salt=4, p=q))
                    out.append(s)
        # large surveys
        for i, n in enumerate((300, 3000, 36000)):
            out.append(lambda n=n, i=i: dict(gen.large(n, i, yaml_safe=True, **(dict(aux=(1, 1)) if n > 30000 else {})), model_spaces=[], numpy=False, **(dict(flux_sel=None, dist_sel=None) if n > 30000 else {})))
        return out

    def make(self, rng, n=(0, 50), aux=(0, 6), **kw):
        s = gen.r_spec(rng, n=n, aux=aux, yaml_safe=True, **kw)
        s["model_spaces"] = []
        for j in range(int(rng.integers(0, 4))):
            a = float(np.round(10 ** rng.uniform(-3, 3), 4))
            s["model_spaces"].append(dict(name=("grid0", "L/grid", "5% grid", "x")[j], start=a, stop=a * float(np.round(rng.uniform(2, 50), 2)), log=bool(rng.uniform() < 0.5)))
        s["numpy"] = bool(rng.uniform() < 0.2)
        if rng.uniform() < 0.2:
            gen.r_dist_names(rng, s)
        return s

    def gen(self, rng, idx, tier):
        return self.make(rng)

    def build(self, spec):
        b = gen.build(spec)
        if spec.get("numpy"):
            # parameters which are numpy scalars
            for k, v in list(b.spatial.params.items()):
                if v is not None:
                    setattr(b.spatial, k, np.float64(v))
            for d in spec["aux"]:
                for k, v in d["params"].items():
                    setattr(b.aux[d["name"]], k, np.int64(v) if isinstance(v, int) else np.float64(v))
        return b

    def run(self, spec, mon):
        Pop = popsynth.Population
        names = world.aux_names(spec)
        gen.progress(spec["progress"])
        b = self.build(spec)
        pop = gen.draw(b)
        mon.ev("numpy_parameters", spec["numpy"])
        A = state(pop, names)
        fn = os.path.join(mon.scratch, "a.h5")
        pop.writeto(fn)
        world.compare(mon, A, state(pop, names), "writing-changes", "writing leaves the population as it was")
        p1 = Pop.from_file(fn)
        world.compare(mon, A, state(p1, names), "round-trip", "read from a file")
        mon.check(isinstance(p1, Pop), "round-trip", "a population is read")
        mon.ev("files")
        # write what was read, three times
        p = p1
        for i in range(3):
            f2 = os.path.join(mon.scratch, f"c{i}.h5")
            p.writeto(f2)
            p = Pop.from_file(f2)
            if not world.compare(mon, A, state(p, names), "round-trip-cycle", f"after {i + 2} cycles"):
                break
            mon.ev("cycles")
        # groups in one file, of different populations
        other_spec = dict(copy.deepcopy(spec), seed=(spec["seed"] + 17) % 2**32)
        other_spec["draw"] = dict(spec["draw"], n_samples=spec["draw"]["n_samples"] // 2 + 4)
        other = gen.draw(self.build(other_spec))
        B = state(other, names)
        subs = [(obs, pop.to_sub_population(obs)) for obs in (True, False)]
        rng = np.random.default_rng(spec["seed"])
        items = [("one", pop, A), ("other", other, B), ("again/nested", p1, A)] + [(f"sub{int(o)}", s, state(s, names)) for o, s in subs]
        items = [items[i] for i in rng.permutation(len(items))]
        fg = os.path.join(mon.scratch, "groups.h5")
        if rng.uniform() < 0.5:
            with h5py.File(fg, "w"):
                pass
            root = None
        else:
            # the file itself holds a population, too
            other.writeto(fg)
            root = B
        for name, q, Q in items:
            q.addto(fg, name)
        for i in rng.permutation(len(items)):
            name, q, Q = items[i]
            world.compare(mon, Q, state(Pop.from_group(fg, name), names), "groups", f"the group {name} of a file with {[x[0] for x in items]}")
            mon.ev("groups")
            mon.ev("sub_populations", name.startswith("sub"))
        if root is not None:
            world.compare(mon, root, state(Pop.from_file(fg), names), "groups", "the population of a file to which groups were added")
        # copies and pickles
        for what, q in (("population", pop), ("population from a file", p1)):
            for how, f in COPIES.items():
                c = f(q)
                world.compare(mon, A, state(c, names), "copy", f"a {how} of the {what}")
                mon.check(isinstance(c, Pop) and c is not q, "copy", "a population of its own")
                for o, s in subs:
                    world.compare(mon, state(s, names), state(c.to_sub_population(o), names), "copy", f"the sub-population of a {how}")
                # and it is independent of the population
                for n in names + ["fluxes", "distances"]:
                    v = getattr(c, n)
                    if v.dtype.kind == "f":
                        v.view(np.ndarray)[...] = -5.5
                        v.latent[...] = -7.5
                c.truth.clear()
                c.selection[...] = ~c.selection
                mon.ev("copies")
            world.compare(mon, A, state(q, names), "copy", f"the {what} after changes of its copies")
        # a group that is in use is not replaced
        try:
            other.addto(fg, "one")
        except Exception:
            world.compare(mon, A, state(Pop.from_group(fg, "one"), names), "groups", "a group that exists already")
        # sub-populations have files, and files are overwritten
        for o, s in subs:
            s.writeto(fn)
            world.compare(mon, state(s, names), state(Pop.from_file(fn), names), "overwritten", "a file that is overwritten")
            mon.ev("overwritten")
            q = Pop.from_file(fn).to_sub_population(o)
            world.compare(mon, {k: v for k, v in state(s.to_sub_population(o), names).items()}, state(q, names), "round-trip", "sub-populations of a population from a file")
        # and reading it gives the same sub-populations
        for o, s in subs:
            world.compare(mon, state(s, names), state(p1.to_sub_population(o), names), "round-trip", "sub-population of a reloaded population")
        # the stored description
        for what, q in (("the population", pop), ("a reloaded population", p1), ("a population read three times", p)):
            D = q.pop_synth
            keep = copy.deepcopy(D)
            synth = popsynth.PopulationSynth.from_dict(D)
            mon.check(repr(D) == repr(keep), "stored-description", "building a synth leaves the description as it was")
            for m in spec["model_spaces"]:
                synth.add_model_space(m["name"], m["start"], m["stop"], log=m["log"])
            gen.progress(spec["progress"])
            C = state(synth.draw_survey(**spec["draw"]), names)
            if spec["spatial"].get("name"):
                # descriptions have no names of distributions
                for k in ("_name", "truth", "edges", "nodes", "repr"):
                    C[k] = A[k]
                mon.ev("named_distributions")
            world.compare(mon, A, C, "stored-description", f"a survey of the synth stored in {what}")
            mon.ev("stored_surveys")
        n = pop.n_objects
        mon.ev("empty", n == 0)
        mon.ev("no_luminosity", spec["lum"] is None)
        mon.ev("model_spaces", len(spec["model_spaces"]))
        mon.ev("stored_secondaries", sum(len(d["sec"]) for d in spec["aux"]))
        mon.ev("deep_graph", any(len(gen.below(spec["aux"], d["name"])) > 3 for d in spec["aux"]))
        mon.nontrivial = bool(names) and 0 < pop.n_detections < n
        mon.state(spec["spatial"]["kind"], spec["lum"] and spec["lum"]["kind"], n, pop.n_detections == n, len(names), len(spec["model_spaces"]))


CHECK = C17()
