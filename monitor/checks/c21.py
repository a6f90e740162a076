"""Stan data."""
import json
import os

import numpy as np
import popsynth

from monitor import gen, refs, world
from monitor.core import Check

BASE = {"N", "Nz", "Nnz", "z_obs", "known_z_obs", "z_idx", "z_nidx", "r_obs", "known_r_obs", "r_idx", "r_nidx", "log_flux_obs", "flux_obs", "flux_sigma", "z_max", "r_max", "N_model"}
N_MODEL = 500


def space(m, n):
    """The grid of a model space, from its definition."""
    t = np.arange(n) / (n - 1.0)
    if m["log"]:
        return m["start"] * (m["stop"] / m["start"]) ** t
    return m["start"] + (m["stop"] - m["start"]) * t


def judge(spec, pop, mon, what, r_max=None, flux_sigma=None, known=None):
    st = pop.to_stan_data()
    names = world.aux_names(spec)
    spaces = {m["name"]: m for m in spec.get("model_spaces", [])}
    want = BASE | {n + "_obs" for n in names} | set(spaces)
    mon.check(set(st) == want, "keys", f"{what}: missing {sorted(want - set(st))}, additional {sorted(set(st) - want)}")
    sel = world.arr(pop.selection)
    N = int(sel.sum())
    for k in ("N", "Nz", "Nnz", "N_model"):
        mon.check(type(st[k]) is int, "plain-integers", f"{what}: {k} is a plain integer", type=type(st[k]).__name__)
    mon.check(st["N"] == N, "counts", f"{what}: N", got=st["N"], want=N)
    mon.check(st["Nz"] + st["Nnz"] == N, "counts", f"{what}: Nz + Nnz = N", got=[st["Nz"], st["Nnz"]], N=N)
    d = world.arr(pop.distances)[sel]
    f = world.arr(pop.fluxes)[sel]
    for k in ("z_obs", "r_obs"):
        mon.same(world.arr(st[k]), d, "distances", f"{what}: {k}")
    mon.same(world.arr(st["flux_obs"]), f, "fluxes", f"{what}: flux_obs")
    with np.errstate(all="ignore"):
        mon.same(world.arr(st["log_flux_obs"]), np.log10(f), "fluxes", f"{what}: log_flux_obs", rtol=1e-13)
    for k in ("known_z_obs", "known_r_obs"):
        mon.same(world.arr(st[k]), world.arr(pop.known_distances), "known", f"{what}: {k}")
        mon.check(len(st[k]) == st["Nz"], "known", f"{what}: {k} has Nz entries")
    for a, c in (("z_idx", "z_nidx"), ("r_idx", "r_nidx")):
        i, j = np.asarray(st[a]), np.asarray(st[c])
        if not mon.check(i.ndim == 1 and j.ndim == 1 and i.dtype.kind in "iu" and j.dtype.kind in "iu", "index", f"{what}: {a} and {c} are lists of integers", a=i.dtype.str, b=j.dtype.str):
            continue
        mon.check(len(i) == st["Nz"] and len(j) == st["Nnz"], "index", f"{what}: {a} has Nz, {c} Nnz entries")
        mon.same(np.sort(np.concatenate([i, j])), np.arange(1, N + 1), "index", f"{what}: {a} and {c} partition 1..N")
        if len(i) and i.min() >= 1 and i.max() <= N:
            mon.same(d[i - 1], world.arr(pop.known_distances), "index", f"{what}: {a} are the known distances")
    if known is not None:
        i = np.asarray(st["r_idx"]).astype(int)
        got = np.zeros(N, bool)
        got[i[(i > 0) & (i <= N)] - 1] = True
        mon.same(got, known, "index", f"{what}: the known ones are the selected ones")
    for n in names:
        mon.same(np.asarray(st[n + "_obs"]).view(np.ndarray), world.arr(getattr(pop, n))[sel], "auxiliary", f"{what}: {n}_obs")
        mon.check(type(st[n + "_obs"]) is np.ndarray or isinstance(st[n + "_obs"], np.ndarray), "auxiliary", f"{what}: {n}_obs is an array")
    mon.check(st["N_model"] == N_MODEL, "model-spaces", f"{what}: N_model", got=st["N_model"])
    for n, m in spaces.items():
        v = np.asarray(st[n])
        mon.check(len(v) == st["N_model"], "model-spaces", f"{what}: {n} has N_model entries", n=len(v))
        if len(v) == N_MODEL:
            mon.same(v, space(m, N_MODEL), "model-spaces", f"{what}: {n} as it was registered", rtol=1e-10, atol=1e-12 * (abs(m["start"]) + abs(m["stop"])))
        mon.ev("model_spaces_log" if m["log"] else "model_spaces_lin")
    for k in ("z_max", "r_max"):
        mon.check(st[k] == r_max, "r_max", f"{what}: {k}", got=st[k], want=r_max)
    mon.check(st["flux_sigma"] == pop.flux_sigma, "flux-sigma", f"{what}: flux_sigma", got=st["flux_sigma"])
    if flux_sigma is not None and spec.get("flux_sel") and spec["flux_sel"]["kind"] != "unity":
        # (without a flux selection there is no flux error: C07)
        mon.check(st["flux_sigma"] == flux_sigma, "flux-sigma", f"{what}: flux_sigma", got=st["flux_sigma"], want=flux_sigma)
    # Stan reads them as JSON
    text = json.dumps({k: (np.asarray(v).tolist() if isinstance(v, np.ndarray) else v) for k, v in st.items()}, allow_nan=True)
    mon.check(len(text) > 10, "json", f"{what}: JSON")
    # every call gives the same, and what one is given is one's own
    again = pop.to_stan_data()
    dd = world.diff(world.plain(st), world.plain(again))
    mon.check(not dd, "again", f"{what}: called twice: {dd[:3]}")
    mon.ev("stan_data")
    mon.ev("known", st["Nz"])
    mon.ev("unknown", st["Nnz"])
    mon.ev("auxiliary", len(names))
    mon.ev("empty", N == 0)
    return st


class C21(Check):
    pid = "C21"
    quick = 600
    thorough = 10000
    rule = "random surveys with everything and model spaces, also reloaded and down-selected; non-trivial: known and unknown distances, hidden objects, a sampler and a model space"
    required = ("stan_data", "known", "unknown", "auxiliary", "empty", "model_spaces_log", "model_spaces_lin", "reloaded", "sub", "second_survey", "later_space", "replaced_space")

    def directed(self, tier):
        out = []
        for i, k in enumerate(gen.SPATIAL):
            for j, (p, q) in enumerate(((0.5, 0.5), (0.3, 1.0), (0.7, 0.0), (1.0, 0.5), (0.0, 0.5))):
                rng = np.random.default_rng(i * 5 + j)
                s = gen.r_spec(rng, n=(5, 30), aux=(1, 4), spatial=[k], sels="none", p_aux_sel=0)
                s["flux_sel"] = dict(kind="mon", params=dict(salt=12, p=p))
                s["dist_sel"] = dict(kind="mon", params=dict(salt=13, p=q))
                s["model_spaces"] = [dict(name="grid", start=1.0, stop=10.0, log=bool(j % 2)), dict(name="Lgrid", start=1e-3, stop=1e5, log=not j % 2)]
                out.append(s)
        # large surveys
        for i, n in enumerate((300, 3000, 70000)):
            out.append(lambda n=n, i=i: gen.large(n, i))
        return out

    def gen(self, rng, idx, tier):
        s = gen.r_spec(rng, n=(0, 60), aux=(0, 5), sels="any" if rng.uniform() < 0.5 else "probe", p_aux_sel=0.2)
        if rng.uniform() < 0.7:
            s["dist_sel"] = dict(kind="mon", params=dict(salt=4, p=float(rng.choice([0, 0.3, 0.6, 1]))))
        s["model_spaces"] = []
        for i in range(int(rng.integers(0, 4))):
            log = bool(rng.uniform() < 0.5)
            a, c = rng.uniform(0.001, 5), rng.uniform(6, 5000)
            if not log and rng.uniform() < 0.5:
                a = -a
            if rng.uniform() < 0.2:
                a, c = c, a
            if not log or a > 0 and c > 0:
                s["model_spaces"].append(dict(name=str(rng.choice(["space", "Lspace", "zgrid", "x"])) + str(i), start=float(a), stop=float(c), log=log))
        return s

    def run(self, spec, mon):
        import copy

        spec = copy.deepcopy(spec)
        gen.progress(spec["progress"])
        b = gen.build(spec)
        pop = gen.draw(b)
        rng = np.random.default_rng(spec["seed"] % 2**31)
        r_max = b.spatial.r_max
        mon.check(r_max == refs.spatial_params(spec["spatial"]).get("r_max", r_max), "r_max", "maximum distance")
        fs = spec["draw"].get("flux_sigma")
        known = None
        ds = spec.get("dist_sel")
        if ds and ds["kind"] == "mon":
            known = gen.pattern(pop.n_detections, ds["params"].get("salt", 1), ds["params"].get("p", 0.7))
        elif ds is None:
            known = np.ones(pop.n_detections, bool)
        st = judge(spec, pop, mon, "a survey", r_max, fs, known)
        path = os.path.join(mon.scratch, "p.h5")
        if rng.uniform() < 0.4:
            pop.writeto(path)
            judge(spec, popsynth.Population.from_file(path), mon, "a reloaded survey", r_max, fs, known)
            mon.ev("reloaded")
        if rng.uniform() < 0.4:
            judge(spec, pop.to_sub_population(), mon, "a sub-population", r_max, fs, known)
            mon.ev("sub")
        mon.nontrivial = 0 < st["Nz"] < st["N"] < pop.n_objects and bool(spec["aux"]) and bool(spec.get("model_spaces"))
        if rng.uniform() < 0.5:
            # further model spaces count from the next survey on
            old = copy.deepcopy(spec)
            m = dict(name="later", start=2.0, stop=300.0, log=bool(rng.uniform() < 0.5))
            b.synth.add_model_space(m["name"], m["start"], m["stop"], log=m["log"])
            spec["model_spaces"] = spec.get("model_spaces", []) + [m]
            mon.ev("later_space")
            if len(spec["model_spaces"]) > 1 and rng.uniform() < 0.6:
                m = dict(spec["model_spaces"][0], start=0.5, stop=7.0)
                b.synth.add_model_space(m["name"], m["start"], m["stop"], log=m["log"])
                spec["model_spaces"][0] = m
                mon.ev("replaced_space")
            judge(old, pop, mon, "an earlier survey", r_max, fs, known)
            pop2 = gen.draw(b, spec)
            judge(spec, pop2, mon, "a later survey", r_max, fs)
            mon.ev("second_survey")
        mon.state(spec["spatial"]["kind"], sorted(d["kind"] for d in spec["aux"]), st["N"] == 0, st["Nz"] == 0, st["Nnz"] == 0, len(spec.get("model_spaces", [])))


CHECK = C21()
