"""Simulated variables against two plain arrays."""
import copy
import operator
import pickle

import numpy as np
from popsynth.simulated_variable import SimulatedVariable

from monitor.core import Check, StopCase

# elementwise operations, with arguments that keep all values finite
UNARY = {
    "negative": np.negative, "absolute": np.abs, "sqrt_abs": lambda x: np.sqrt(np.abs(x)), "log1p_abs": lambda x: np.log1p(np.abs(x)),
    "tanh": np.tanh, "arctan": np.arctan, "cos": np.cos, "sin": np.sin, "square_tanh": lambda x: np.square(np.tanh(x)), "rad2deg": np.rad2deg,
    "deg2rad": np.deg2rad, "sign": np.sign, "floor": np.floor, "rint": np.rint, "exp_neg": lambda x: np.exp(-np.abs(x)), "isfinite": np.isfinite,
    "log10": lambda x: np.log10(np.abs(x) + 1e-3), "reciprocal": lambda x: 1.0 / (1.0 + x * x), "pos": lambda x: +x, "neg": lambda x: -x, "abs": abs,
    "clip": lambda x: np.clip(x, -1.5, 2.5), "clip_method": lambda x: x.clip(-1.0, 1.0), "cbrt": np.cbrt, "conj": np.conjugate, "pow2": lambda x: np.tanh(x) ** 2,
    "expit": lambda x: 1.0 / (1.0 + np.exp(-np.clip(x, -50, 50))), "logical_not": np.logical_not,
}
BINARY = {
    "add": operator.add, "sub": operator.sub, "mul_tanh": lambda x, y: np.tanh(x) * y, "div": lambda x, y: x / (1.0 + y * y), "np.add": np.add,
    "np.subtract": np.subtract, "np.multiply": lambda x, y: np.multiply(x, np.tanh(y)), "maximum": np.maximum, "minimum": np.minimum, "hypot": np.hypot,
    "arctan2": np.arctan2, "lt": operator.lt, "ge": operator.ge, "eq": operator.eq, "ne": operator.ne, "le": np.less_equal, "gt": np.greater,
    "power": lambda x, y: np.power(np.abs(x) + 0.1, np.tanh(y)), "pow": lambda x, y: (abs(x) + 0.1) ** np.tanh(y), "fmod": lambda x, y: np.fmod(x, np.abs(y) + 0.5),
    "mod": lambda x, y: x % (abs(y) + 0.5), "floordiv": lambda x, y: x // (abs(y) + 0.5), "copysign": np.copysign, "logaddexp": np.logaddexp,
    "true_divide": lambda x, y: np.true_divide(x, np.abs(y) + 1.0), "heaviside": np.heaviside, "nextafter": np.nextafter,
}
PAIR = {"modf": np.modf, "frexp": np.frexp, "divmod": lambda x: np.divmod(x, 2.5), "divmod_op": lambda x: divmod(x, 1.5)}
INPLACE = {
    "iadd": operator.iadd, "isub": operator.isub, "imul": operator.imul, "itruediv": operator.itruediv, "ipow": operator.ipow, "ifloordiv": operator.ifloordiv, "imod": operator.imod,
}
OUT1 = {"negative": np.negative, "tanh": np.tanh, "abs": np.abs, "cos": np.cos, "rad2deg": np.rad2deg, "exp2": lambda x, out: np.exp2(np.clip(x, -20, 20), out=out)}
OUT2 = {"add": np.add, "subtract": np.subtract, "maximum": np.maximum, "arctan2": np.arctan2, "hypot": np.hypot}
REDUCE = {
    "sum": np.sum, "mean": np.mean, "min": np.min, "max": np.max, "std": np.std, "var": np.var, "prod_tanh": lambda x: np.prod(np.tanh(x)), "ptp": np.ptp, "argmax": np.argmax,
    "argmin": np.argmin, "any": np.any, "all": np.all, "median": np.median, "percentile": lambda x: np.percentile(x, 30), ".sum": lambda x: x.sum(), ".min": lambda x: x.min(),
    ".max": lambda x: x.max(), ".mean": lambda x: x.mean(), ".std": lambda x: x.std(), "add.reduce": np.add.reduce, "maximum.reduce": np.maximum.reduce, "len": len,
    "builtin_sum": lambda x: float(sum(x)), "builtin_min": lambda x: min(x), "count_nonzero": np.count_nonzero, "dot": lambda x: np.dot(x, x),
}
REDUCE_EMPTY = ("sum", "any", "all", ".sum", "add.reduce", "len", "builtin_sum", "count_nonzero")


class Var:
    """A simulated variable and the plain arrays it must equal."""

    def __init__(self, sv, obs, lat, sel, own):
        self.sv, self.obs, self.lat, self.sel = sv, np.array(obs), np.array(lat), np.array(sel)
        self.own = own  # memory of its own: can be changed in place


class C20(Check):
    pid = "C20"
    quick = 1600
    thorough = 40000
    rule = "random programs of up to 40 operations on variables of 0 to 40 objects; non-trivial: an in-place operation after a selection or a slice of a variable with different observed and latent values"
    required = ("unary", "binary_scalar", "binary_array", "binary_pair", "pair", "inplace", "out_self", "out_other", "out_plain", "where", "at", "reduce", "index", "slice", "mask", "fancy", "selected", "non_selected", "copies", "same_latent", "empty", "accumulate", "bad_lengths", "where_variable", "parts_in_place", "assigned", "rearranged", "sorted", "rounded", "pickles", "deep_copies", "like", "axes", "integer_latent")

    def directed(self, tier):
        out = []
        for n in (0, 1, 2, 7):
            for same in (False, True):
                for sel in ("none", "all", "some"):
                    out.append(dict(n=n, same=same, sel=sel, seed=n, steps=0))
        for i in range(40):
            out.append(dict(n=i % 9, same=bool(i % 2), sel="some", seed=900 + i, steps=150))
        return out

    def gen(self, rng, idx, tier):
        return dict(n=int(rng.choice([0, 1, 2, 3, 8, 20, 40])), same=bool(rng.uniform() < 0.3), sel=str(rng.choice(["some", "some", "some", "none", "all"])),
                    seed=int(rng.integers(0, 2**31)), steps=int(rng.integers(5, 40)))

    def make(self, rng, n, same, sel, kind="f"):
        if kind == "i":
            lat = rng.integers(-5, 6, size=n)
            obs = lat if same else rng.integers(-5, 6, size=n)
        else:
            lat = rng.normal(0, 2, size=n)
            obs = lat if same else lat + rng.normal(0, 1, size=n)
        if kind == "m":
            # integers, observed with errors
            lat = rng.integers(-9, 10, size=n)
            obs = lat + rng.normal(0, 1, size=n)
            same = False
        s = {"some": rng.uniform(size=n) < 0.6, "none": np.zeros(n, bool), "all": np.ones(n, bool)}[sel]
        return Var(SimulatedVariable(obs, lat, s), obs, lat.astype(float) if kind == "m" else lat, s, not same)

    def equal(self, v, mon, what):
        sv = v.sv
        ok = mon.check(isinstance(sv, SimulatedVariable), "type", f"{what}: is a simulated variable", type=type(sv).__name__)
        if not ok:
            raise StopCase()
        p = dict(rtol=1e-13, atol=1e-300)
        ok = mon.same(np.asarray(sv).view(np.ndarray), v.obs, "observed", what, **p)
        ok &= mon.same(np.asarray(sv.latent).view(np.ndarray), v.lat, "latent", what, **p)
        if len(v.sel) == len(v.obs):
            for name, m in (("selected", v.sel), ("non_selected", ~v.sel)):
                x = getattr(sv, name)
                ok &= mon.same(np.asarray(x).view(np.ndarray), v.obs[m], "selection", f"{what}: {name}", **p)
                ok &= mon.same(np.asarray(x.latent).view(np.ndarray), v.lat[m], "selection", f"{what}: {name}.latent", **p)
        if not ok:
            raise StopCase()
        # rounding of the last digit (strided and contiguous loops) is not
        # carried along: what follows starts from identical values
        v.obs, v.lat = np.array(np.asarray(sv).view(np.ndarray)), np.array(np.asarray(sv.latent).view(np.ndarray))
        if v.obs.dtype.kind == "f":
            v.lat = v.lat.astype(float)

    def run(self, spec, mon):
        rng = np.random.default_rng(spec["seed"])
        n = spec["n"]
        v0 = self.make(rng, n, spec["same"], spec["sel"], "m" if spec["steps"] and not spec["same"] and rng.uniform() < 0.2 else "f")
        mon.ev("integer_latent", np.asarray(v0.sv.latent).dtype.kind == "i")
        pool = [v0]
        mon.ev("same_latent", spec["same"])
        mon.ev("empty", n == 0)
        self.equal(v0, mon, "a new variable")
        with np.errstate(all="ignore"):
            if spec["steps"] == 0:
                self.table(spec, rng, mon)
            for i in range(spec["steps"]):
                what = self.step(rng, pool, mon, spec)
                for k, v in enumerate(pool):
                    self.equal(v, mon, f"after step {i} ({what}), variable {k}")
                if len(pool) > 7:
                    del pool[int(rng.integers(0, len(pool)))]
        mon.state(spec["n"], spec["sel"], spec["same"], spec["seed"])

    def table(self, spec, rng, mon):
        """Each operation once on fresh variables."""
        n, same, sel = spec["n"], spec["same"], spec["sel"]
        for name, f in UNARY.items():
            a = self.make(rng, n, same, sel)
            r = Var(f(a.sv), f(a.obs), f(a.lat), a.sel, True)
            self.equal(r, mon, name)
            self.equal(a, mon, name + ": operand")
            mon.ev("unary")
        for name, f in BINARY.items():
            for mode in ("sv", "scalar", "rscalar", "array", "rarray", "npscalar", "list"):
                a = self.make(rng, n, same, sel)
                if mode == "sv":
                    b = self.make(rng, n, not same, sel)
                    b.sv = SimulatedVariable(b.obs.copy(), b.lat.copy(), a.sel)
                    b.sel = a.sel
                    r = Var(f(a.sv, b.sv), f(a.obs, b.obs), f(a.lat, b.lat), a.sel, True)
                    self.equal(b, mon, name + ": operand")
                    mon.ev("binary_pair")
                else:
                    if mode == "list" and not name in ("add", "np.add", "hypot", "maximum", "np.subtract"):
                        continue
                    w = {"scalar": 1.7, "rscalar": -0.6, "npscalar": np.float64(0.8), "array": rng.normal(size=n), "rarray": rng.normal(size=n), "list": rng.normal(size=n).tolist()}[mode]
                    g = (lambda x, f=f, w=w: f(w, x)) if mode in ("rscalar", "rarray") else (lambda x, f=f, w=w: f(x, w))
                    r = Var(g(a.sv), g(a.obs), g(a.lat), a.sel, True)
                    mon.ev("binary_array" if "array" in mode else "binary_scalar")
                self.equal(r, mon, f"{name} ({mode})")
                self.equal(a, mon, f"{name} ({mode}): operand")
        # lengths that do not fit
        for k in range(3):
            parts = [np.zeros(n), np.zeros(n), np.zeros(n, bool)]
            parts[k] = np.zeros(n + 1, bool if k == 2 else float)
            mon.raises(lambda: SimulatedVariable(*parts), "lengths", f"parts of lengths {[len(p) for p in parts]}")
            mon.ev("bad_lengths")

    def step(self, rng, pool, mon, spec):
        v = pool[int(rng.integers(0, len(pool)))]
        same_len = [w for w in pool if len(w.obs) == len(v.obs) and np.array_equal(w.sel, v.sel)]
        w = same_len[int(rng.integers(0, len(same_len)))]
        n = len(v.obs)
        num = v.obs.dtype.kind == "f"
        pick = rng.uniform()
        k = str(rng.choice(["unary", "scalar", "array", "pair", "inplace", "out", "at", "reduce", "index", "slice", "mask", "fancy", "selected", "non_selected", "copy", "multi", "accumulate", "where", "wherevar", "part", "assign", "arrange", "sort", "round", "like", "axes"]))
        if not num and k in ("unary", "scalar", "array", "pair", "inplace", "out", "at", "multi", "accumulate", "where", "reduce", "wherevar", "part", "assign", "sort", "round", "like", "axes"):
            # results of comparisons: count them or turn them into numbers
            r = Var(v.sv * 1.5, v.obs * 1.5, v.lat * 1.5, v.sel, True)
            pool.append(r)
            mon.ev("unary")
            return "bool * 1.5"
        if w.obs.dtype.kind != "f":
            w = v
        if k == "unary":
            name = str(rng.choice(list(UNARY)))
            f = UNARY[name]
            pool.append(Var(f(v.sv), f(v.obs), f(v.lat), v.sel, True))
            mon.ev("unary")
            return name
        if k in ("scalar", "array", "pair"):
            name = str(rng.choice(list(BINARY)))
            f = BINARY[name]
            if k == "pair":
                pool.append(Var(f(v.sv, w.sv), f(v.obs, w.obs), f(v.lat, w.lat), v.sel, True))
                mon.ev("binary_pair")
                return f"{name} of two"
            c = float(rng.normal()) if k == "scalar" else rng.normal(size=n)
            c0 = np.array(c)
            if pick < 0.5:
                pool.append(Var(f(v.sv, c), f(v.obs, c), f(v.lat, c), v.sel, True))
            else:
                pool.append(Var(f(c, v.sv), f(c, v.obs), f(c, v.lat), v.sel, True))
            mon.same(np.array(c), c0, "operand", "a plain operand is as it was")
            mon.ev("binary_" + k)
            return f"{name} with a {k}"
        if k == "inplace":
            if not v.own:
                return "nothing"
            name = str(rng.choice(list(INPLACE)))
            f = INPLACE[name]
            c = [float(rng.uniform(0.5, 2)), rng.uniform(0.5, 2, size=n), w][int(rng.integers(0, 3))]
            if name == "ipow":
                c = 2.0 if np.max(np.abs(v.obs), initial=0) < 1e3 and np.max(np.abs(v.lat), initial=0) < 1e3 else 1.0
            if isinstance(c, Var):
                if name in ("itruediv", "ifloordiv", "imod", "imul"):
                    f, name = INPLACE["iadd"], "iadd"
                co, cl, cs = c.obs.copy(), c.lat.copy(), c.sv
            else:
                co = cl = cs = c
            x = v.sv
            y = f(x, cs)
            mon.check(y is x, "in-place", f"{name}: the result is the variable itself")
            v.obs, v.lat = f(v.obs.copy(), co), f(v.lat.copy(), cl)
            if len(np.unique(v.obs - v.lat)) > 1 and n < spec["n"]:
                mon.nontrivial = True
            if n == spec["n"] and n > 1:
                mon.nontrivial = True
            mon.ev("inplace")
            return name
        if k == "out":
            two = rng.uniform() < 0.5
            name = str(rng.choice(list(OUT2 if two else OUT1)))
            f = (OUT2 if two else OUT1)[name]
            mode = str(rng.choice(["self", "other", "plain", "tuple"]))
            args = (v, w) if two else (v,)
            eo = f(*[a.obs for a in args], out=np.empty(n))
            el = f(*[a.lat for a in args], out=np.empty(n))
            if mode in ("self", "tuple"):
                if not v.own:
                    return "nothing"
                r = f(*[a.sv for a in args], out=(v.sv,) if mode == "tuple" and name != "exp2" else v.sv)
                mon.check(r is v.sv, "in-place", f"{name} out=: the result is the output")
                v.obs, v.lat = eo, el
                mon.ev("out_self")
            elif mode == "other":
                t = [u for u in same_len if u.own and u.obs.dtype.kind == "f"]
                if not t:
                    return "nothing"
                t = t[int(rng.integers(0, len(t)))]
                r = f(*[a.sv for a in args], out=t.sv)
                mon.check(r is t.sv, "in-place", f"{name} out=: the result is the output")
                t.obs, t.lat = eo, el
                mon.ev("out_other")
            else:
                o = np.full(n, -7.0)
                f(*[a.sv for a in args], out=o)
                mon.same(o, eo, "observed", f"{name} into a plain array", rtol=1e-13)
                mon.ev("out_plain")
            return f"{name} out={mode}"
        if k == "where":
            if not v.own:
                return "nothing"
            m = rng.uniform(size=n) < 0.5
            eo, el = np.add(v.obs, 1.5, out=v.obs.copy(), where=m), np.add(v.lat, 1.5, out=v.lat.copy(), where=m)
            np.add(v.sv, 1.5, out=v.sv, where=m)
            v.obs, v.lat = eo, el
            mon.ev("where")
            return "where"
        if k == "wherevar":
            # the mask is a variable itself: observed and latent values have
            # masks of their own
            if not v.own:
                return "nothing"
            m, mo, ml = w.sv > 0.25, w.obs > 0.25, w.lat > 0.25
            eo, el = np.add(v.obs, 1.5, out=v.obs.copy(), where=mo), np.add(v.lat, 1.5, out=v.lat.copy(), where=ml)
            np.add(v.sv, 1.5, out=v.sv, where=m)
            v.obs, v.lat = eo, el
            pool.append(Var(np.fix(v.sv), np.fix(v.obs), np.fix(v.lat), v.sel, True))
            mon.ev("where_variable")
            return "where a variable"
        if k == "part":
            # in place on a part of a variable
            if not v.own or not n:
                return "nothing"
            item = [slice(*sorted(rng.integers(0, n + 1, size=2).tolist())), slice(None, None, 2), rng.uniform(size=n) < 0.5, rng.permutation(n)[: int(rng.integers(0, n + 1))], Ellipsis][int(rng.integers(0, 5))]
            c = float(rng.uniform(0.5, 2))
            name = str(rng.choice(["iadd", "isub", "imul", "itruediv"]))
            f = INPLACE[name]
            if rng.uniform() < 0.3:
                # the mask depends on the observed values
                t = float(np.median(v.obs))
                item, plain = v.sv > t, v.obs > t
            else:
                plain = item
            v.sv[item] = f(v.sv[item], c)
            v.obs[plain], v.lat[plain] = f(v.obs[plain], c), f(v.lat[plain], c)
            mon.nontrivial = mon.nontrivial or n > 1
            mon.ev("parts_in_place")
            return f"{name} on a part"
        if k == "assign":
            # the values of other objects
            if not v.own or not n or not len(w.obs):
                return "nothing"
            m = int(rng.integers(0, n + 1))
            i, j = rng.permutation(n)[:m], rng.integers(0, len(w.obs), size=m)
            vo, vl = w.obs[j].copy(), w.lat[j].copy()
            v.sv[i] = w.sv[j]
            v.obs[i], v.lat[i] = vo, vl
            mon.ev("assigned")
            return "assigned objects"
        if k == "arrange":
            ii = rng.integers(0, n, size=int(rng.integers(0, 2 * n + 1))) if n else np.zeros(0, int)
            m = rng.uniform(size=n) < 0.5
            r = rng.integers(0, 3, size=n)
            name, f = [("take", lambda x: x.take(ii)), ("np.take", lambda x: np.take(x, ii)), ("compress", lambda x: x.compress(m)), ("np.compress", lambda x: np.compress(m, x)),
                       ("np.extract", lambda x: np.extract(m, x)), ("repeat", lambda x: x.repeat(2)), ("np.repeat", lambda x: np.repeat(x, r)), ("np.flip", np.flip), ("tile", lambda x: np.tile(x, 2)),
                       ("take with axis", lambda x: x.take(ii, axis=0)), ("flatten", lambda x: x.flatten()), ("take_along_axis", lambda x: np.take_along_axis(x, ii, 0))][int(rng.integers(0, 12))]
            if name in ("tile", "repeat", "np.repeat") and n > 60:
                return "nothing"
            if name in ("np.flip", "flatten"):
                for u in pool:
                    if np.shares_memory(np.asarray(u.sv), np.asarray(v.sv)):
                        u.own = False
            pool.append(Var(f(v.sv), f(v.obs), f(v.lat), f(v.sel), name != "np.flip"))
            mon.ev("rearranged")
            return name
        if k == "sort":
            kind = str(rng.choice(["quicksort", "stable"]))
            o = np.argsort(v.obs, kind="stable")
            if len(np.unique(v.obs)) < n:
                # the order of equal values is only given for a stable sort
                kind = "stable"
            a = v.sv.argsort(kind=kind)
            mon.check(np.array_equal(np.asarray(a), o), "sort", "argsort", got=a, want=o)
            pool.append(Var(v.sv[a], v.obs[o], v.lat[o], v.sel[o], True))
            if rng.uniform() < 0.5 or not v.own:
                pool.append(Var(np.sort(v.sv, kind=kind), v.obs[o], v.lat[o], v.sel[o], True))
            else:
                v.sv.sort(kind=kind)
                v.obs, v.lat, v.sel = v.obs[o], v.lat[o], v.sel[o]
            u, i = np.unique(v.obs, return_index=True)
            if len(u) == n:
                pool.append(Var(np.unique(v.sv), u, v.lat[i], v.sel[i], True))
            mon.ev("sorted")
            return f"sort ({kind})"
        if k == "round":
            d = int(rng.integers(0, 4))
            f = [lambda x: np.round(x, d), lambda x: x.round(d), lambda x: np.around(x, decimals=d), lambda x: (x * 10).clip(-1e6, 1e6).astype(int) * 0.1][int(rng.integers(0, 4))]
            pool.append(Var(f(v.sv), f(v.obs), f(v.lat), v.sel, True))
            mon.ev("rounded")
            return f"round to {d}"
        if k == "like":
            name, f = [("zeros_like", np.zeros_like), ("ones_like", np.ones_like), ("full_like", lambda x: np.full_like(x, 2.5)), ("nan_to_num", lambda x: np.nan_to_num(x)),
                       ("gradient", lambda x: np.gradient(x) if len(x) > 1 else np.zeros_like(x))][int(rng.integers(0, 5))]
            r = Var(f(v.sv), f(v.obs), f(v.lat), v.sel, True)
            r.sv += v.sv
            r.obs, r.lat = r.obs + v.obs, r.lat + v.lat
            pool.append(r)
            mon.ev("like")
            return name
        if k == "axes":
            # every object against every other
            name, f = [("x[:, None] - x[None, :]", lambda x: x[:, None] - x[None, :]), ("x[:, None] - x[:, None].T", lambda x: x[:, None] - x[:, None].T),
                       ("reshape", lambda x: x.reshape(-1, 1) * np.array([1.0, 2.0, -1.0])), ("transpose", lambda x: (x.reshape(1, -1) + np.zeros((2, 1))).transpose()),
                       ("expand_dims", lambda x: np.expand_dims(x, 1) + np.arange(2.0)), ("broadcast", lambda x: np.arange(2.0)[:, None] * x)][int(rng.integers(0, 6))]
            if n > 20:
                return "nothing"
            r, ro, rl = f(v.sv), f(v.obs), f(v.lat)
            mon.same(np.asarray(r).view(np.ndarray), ro, "observed", name, rtol=1e-13)
            if isinstance(r, SimulatedVariable):
                mon.same(np.asarray(r.latent).view(np.ndarray), rl, "latent", name, rtol=1e-13)
            mon.ev("axes")
            return name
        if k == "at":
            if not v.own or not n:
                return "nothing"
            ii = rng.integers(0, n, size=int(rng.integers(1, 4)))
            np.add.at(v.sv, ii, 2.5)
            np.add.at(v.obs, ii, 2.5)
            np.add.at(v.lat, ii, 2.5)
            mon.ev("at")
            return "at"
        if k == "multi":
            name = str(rng.choice(list(PAIR)))
            f = PAIR[name]
            r, ro, rl = f(v.sv), f(v.obs), f(v.lat)
            mon.check(isinstance(r, tuple) and len(r) == 2, "type", f"{name} has two results")
            for a, o, l in zip(r, ro, rl):
                if o.dtype.kind == "f":
                    pool.append(Var(a, o, l, v.sel, True))
                else:
                    self.equal(Var(a, o, l, v.sel, True), mon, name)
            mon.ev("pair")
            return name
        if k == "reduce":
            for name in ([str(x) for x in rng.permutation(list(REDUCE))][:6] if n else REDUCE_EMPTY):
                f = REDUCE[name]
                a, e = f(v.sv), f(v.obs)
                mon.check(np.ndim(a) == 0, "reduction", f"{name} is a number", got=repr(a))
                mon.check(np.isclose(float(a), float(e), rtol=1e-12, atol=1e-290), "reduction", f"{name} is that of the observed values", got=float(a), want=float(e))
                mon.ev("reduce")
            return "reduce"
        if k == "accumulate":
            a, e = np.cumsum(v.sv), np.cumsum(v.obs)
            mon.same(np.asarray(a).view(np.ndarray), e, "observed", "cumulative sum", rtol=1e-12, atol=1e-12)
            mon.ev("accumulate")
            return "cumsum"
        if k == "index":
            if n:
                i = int(rng.integers(-n, n))
                a = v.sv[i]
                mon.check(np.ndim(a) == 0 and (a == v.obs[i] or np.isnan(v.obs[i])), "index", f"[{i}]", got=a, want=v.obs[i])
                a = v.sv[np.int64(i)]
                mon.check(np.ndim(a) == 0 and (a == v.obs[i] or np.isnan(v.obs[i])), "index", f"[int64 {i}]", got=a, want=v.obs[i])
                mon.ev("index")
            mon.check(not n or not np.isnan(v.obs).any() and np.array_equal([float(x) for x in v.sv], v.obs.astype(float)) or np.isnan(v.obs.astype(float)).any(), "index", "iteration")
            return "index"
        if k == "slice":
            a, b = sorted(rng.integers(0, n + 1, size=2).tolist())
            st = int(rng.choice([1, 1, 2, 3, -1, -2]))
            s = slice(a, b, st) if st > 0 else slice(None, None, st)
            if rng.uniform() < 0.2:
                s = Ellipsis
            # views share memory: neither is changed in place from now on
            v.own = False
            for u in pool:
                if np.shares_memory(np.asarray(u.sv), np.asarray(v.sv)):
                    u.own = False
            pool.append(Var(v.sv[s], v.obs[s], v.lat[s], v.sel[s], False))
            mon.ev("slice")
            return f"[{s}]"
        if k == "mask":
            m = rng.uniform(size=n) < rng.choice([0, 0.3, 0.7, 1])
            if n and rng.uniform() < 0.3:
                # a mask computed from simulated variables uses observed values
                c = float(np.median(v.obs))
                mv = v.sv > c
                pool.append(Var(v.sv[mv], v.obs[v.obs > c], v.lat[v.obs > c], v.sel[v.obs > c], True))
            else:
                pool.append(Var(v.sv[m], v.obs[m], v.lat[m], v.sel[m], True))
            mon.ev("mask")
            return "mask"
        if k == "fancy":
            ii = rng.integers(0, n, size=int(rng.integers(0, 2 * n + 1))) if n else np.zeros(0, int)
            j = ii.tolist() if len(ii) and rng.uniform() < 0.5 else ii
            pool.append(Var(v.sv[j], v.obs[ii], v.lat[ii], v.sel[ii], True))
            mon.ev("fancy")
            return "fancy"
        if k in ("selected", "non_selected"):
            m = v.sel if k == "selected" else ~v.sel
            pool.append(Var(getattr(v.sv, k), v.obs[m], v.lat[m], np.full(int(m.sum()), k == "selected"), True))
            mon.ev(k)
            return k
        if k == "copy":
            if pick < 0.6:
                c = v.sv.copy() if pick < 0.3 else np.copy(v.sv, subok=True)
                mon.ev("copies")
            elif pick < 0.8:
                c = pickle.loads(pickle.dumps(v.sv, protocol=int(rng.integers(2, 6))))
                mon.ev("pickles")
            else:
                c = copy.deepcopy(v.sv)
                if n:
                    # nothing is shared
                    keep = np.array(c.latent)
                    c.latent[...] = 0
                    self.equal(v, mon, "the original of a deep copy")
                    c.latent[...] = keep
                mon.ev("deep_copies")
            pool.append(Var(c, v.obs, v.lat, v.sel, True))
            return "copy"
        raise AssertionError(k)


CHECK = C20()
