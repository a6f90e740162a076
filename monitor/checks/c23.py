"""Parameters against a dictionary."""
import contextlib
import io

import numpy as np
import popsynth

from monitor import gen
from monitor.core import Check

N = None  # no default, no bound
NORM = "normalization"


def P(default=N, vmin=N, vmax=N, norm=False, free=True):
    return dict(default=default, vmin=vmin, vmax=vmax, norm=norm, free=free)


R = dict(r_max=P(10, 0))
SIG = dict(sigma=P(1, 0))
MTS = dict(mu=P(0), tau=P(1, 0), **SIG)
# what the built-in classes declare
TABLE = {
    ("s", "cons_sphere"): dict(Lambda=P(1, 0, norm=True), **R),
    ("s", "zpow_sphere"): dict(Lambda=P(1, 0, norm=True), delta=P(1), **R),
    ("s", "zpow_cosmo"): dict(Lambda=P(1, 0, norm=True), delta=P(), **R),
    ("s", "sfr"): dict(r0=P(N, 0, norm=True), a=P(N, 0), rise=P(), decay=P(), peak=P(N, 0), **R),
    ("s", "uniform_cosmo"): dict(r0=P(N, 0, norm=True), zmin=P(N, 0), zmax=P(N, 0), **R),
    ("s", "flatland"): dict(Lambda=P(1, 0), **R),
    ("s", "spiral"): dict(rho=P(N, 0), a=P(), b=P(), R1=P(), R0=P(), **R),
    ("s", "shell"): dict(K=P(2.5, 0, norm=True), c=P(2.0), w=P(1.5, 0), **R),
    ("s", "plain"): dict(q=P(0.7, 0), **R),
    ("l", "pareto"): dict(Lmin=P(1, 0), alpha=P(1)),
    ("l", "schechter"): dict(Lmin=P(1, 0), alpha=P(1)),
    ("l", "bpl"): dict(Lmin=P(N, 0), alpha=P(), Lbreak=P(N, 0), beta=P(), Lmax=P(N, 0)),
    ("l", "lognorm"): dict(mu=P(), tau=P(N, 0)),
    ("l", "log10norm"): dict(mu=P(), tau=P(N, 0)),
    ("l", "delta"): dict(Lp=P(0, 0)),
    ("l", "loguni"): dict(Lmin=P(N, 0), Lmax=P(N, 0)),
    ("l", "monlum"): dict(s=P(2.0, 0)),
    ("a", "normal"): MTS,
    ("a", "lognormal"): MTS,
    ("a", "log10normal"): MTS,
    ("a", "tnormal"): dict(lower=P(), upper=P(), **MTS),
    ("a", "tlognormal"): dict(lower=P(N, 0), upper=P(N, 0), **MTS),
    ("a", "tlog10normal"): dict(lower=P(N, 0), upper=P(N, 0), **MTS),
    ("a", "pareto"): dict(xmin=P(1, 0), alpha=P(1, 0), **SIG),
    ("a", "plaw"): dict(xmin=P(1, 0), xmax=P(2, 0), alpha=P(1), **SIG),
    ("a", "bplaw"): dict(xmin=P(N, 0), alpha=P(), xbreak=P(N, 0), beta=P(), xmax=P(N, 0), **SIG),
    ("a", "delta"): dict(xp=P(0), **SIG),
    ("a", "va"): dict(max_angle=P(90, 0, 180)),
    ("a", "probe"): dict(scale=P(1.0), shift=P(0.0), noise=P(0.5, 0)),
    ("a", "derived"): dict(scale=P(1.0), shift=P(0.0)),
    ("c", "bernoulli"): dict(probability=P(0.5, 0, 1)),
    ("c", "box"): dict(vmin=P(), vmax=P()),
    ("c", "lower"): dict(boundary=P()),
    ("c", "upper"): dict(boundary=P()),
    ("c", "soft"): dict(boundary=P(), strength=P(N, 0)),
    ("c", "hardflux"): dict(boundary=P()),
    ("c", "softflux"): dict(boundary=P(), strength=P(N, 0)),
    ("c", "galplane"): dict(b_limit=P(N, 0, 90)),
    ("c", "distance"): dict(min_distance=P(N, 0), max_distance=P(N, 0)),
    ("c", "mon"): dict(salt=P(1), p=P(0.7, 0, 1)),
}
SERIAL = [0]


def user_class(rng, family, base=None, base_table=None):
    """A class of a user with parameters of all sorts."""
    from popsynth.auxiliary_sampler import AuxiliaryParameter
    from popsynth.distribution import DistributionParameter
    from popsynth.selection_probability.selection_probability import SelectionParameter

    kind = {"s": "plain", "l": "monlum", "a": "probe", "c": "mon"}[family]
    par = {"s": DistributionParameter, "l": DistributionParameter, "a": AuxiliaryParameter, "c": SelectionParameter}[family]
    attr = {"s": "_distribution_name", "l": "_distribution_name", "a": "_auxiliary_sampler_name", "c": "_selection_name"}[family]
    base = base or gen.cls_of(family, kind)
    table = dict(base_table or TABLE[(family, kind)])
    own = {}
    for i in range(int(rng.integers(1, 5))):
        name = str(rng.choice(["alpha", "beta", "mu", "Lambda", "q", "s", "scale", "p", "x0", "x1", "Gamma"]))
        d = float(np.round(rng.uniform(-3, 3), 2)) if rng.uniform() < 0.5 else [0, 0.0, 1, -1, None, None][int(rng.integers(0, 6))]
        lo = [None, None, 0, -3.5, -5][int(rng.integers(0, 5))]
        hi = [None, None, 3.5, 5, 10.0][int(rng.integers(0, 5))]
        if d is not None and lo is not None and d < lo:
            lo = d
        own[name] = P(d, lo, hi, False, bool(rng.uniform() < 0.8))
    have = [k for k, v in table.items() if v["norm"]]
    # (a class with a normalization of its own and another inherited one is
    # not covered: which of them counts is not defined)
    if family in "sl" and rng.uniform() < 0.6 and (not have or have[0] in own):
        k = have[0] if have else str(rng.choice(list(own)))
        own[k]["norm"] = True
        own[k]["free"] = True
    SERIAL[0] += 1
    name = f"MonUser{family}{SERIAL[0]}"
    attrs = {k: par(default=v["default"], vmin=v["vmin"], vmax=v["vmax"], free=v["free"], is_normalization=v["norm"]) if family in "sl"
             else par(default=v["default"], vmin=v["vmin"], vmax=v["vmax"], free=v["free"]) for k, v in own.items()}
    attrs[attr] = name
    cls = type(base)(name, (base,), attrs)
    table.update(own)
    return cls, table


class Obj:
    def __init__(self, obj, table, label):
        self.obj, self.table, self.label = obj, table, label
        self.values = {}

    def want(self, k):
        return self.values.get(k, self.table[k]["default"])

    def norm(self):
        for k, v in self.table.items():
            if v["norm"]:
                return k


class C23(Check):
    pid = "C23"
    quick = 1500
    thorough = 30000
    rule = "random histories of sets, rejected sets and reads on up to 8 objects of built-in and user-defined classes; non-trivial: two objects with a parameter of the same name, and a rejected set after an accepted one"
    required = ("sets", "rejected_low", "rejected_high", "rejected_fixed", "reads", "default_reads", "falsy_default", "missing_reads", "boundary_sets", "normalization_reads", "normalization_writes", "normalization_rejected", "two_normalizations", "same_class", "inherited", "unread_default", "refix", "nan") 

    def directed(self, tier):
        return [dict(builtin=f"{a}:{k}", seed=i, n=0) for i, (a, k) in enumerate(TABLE)] + [dict(builtin=f"{a}:{k}", seed=i, n=60) for i, (a, k) in enumerate(TABLE)]

    def gen(self, rng, idx, tier):
        return dict(builtin=None, seed=int(rng.integers(0, 2**31)), n=int(rng.integers(10, 80)))

    def new(self, family, kind, i=0):
        c = gen.cls_of(family, kind)
        if family == "a" and kind not in gen.FIXED_NAME:
            return c(f"name{i}")
        return c()

    def read(self, o, k, mon):
        w = o.want(k)
        if w is None:
            mon.raises(lambda: getattr(o.obj, k), "missing", f"reading {o.label}.{k}, which has neither value nor default")
            mon.ev("missing_reads")
        else:
            g = getattr(o.obj, k)
            ok = (g == w) or (g != g and w != w)
            mon.check(ok, "value", f"{o.label}.{k} is {g!r}, not {w!r}", history=o.values)
            mon.ev("reads")
            if k not in o.values:
                mon.ev("default_reads")
                mon.ev("falsy_default", w == 0)

    def views(self, o, mon):
        """The dictionaries of parameters agree with the parameters."""
        dicts = []
        for a in ("params", "truth", "parameters"):
            if hasattr(type(o.obj), a):
                dicts.append((a, dict(getattr(o.obj, a))))
        for a, d in dicts:
            for k, v in o.values.items():
                mon.check(k in d and (d[k] == v or v != v), "views", f"{o.label}.{a}[{k}] is {d.get(k)!r}, not {v!r}")
            for k, v in d.items():
                if v is not None and k in o.table:
                    w = o.want(k)
                    mon.check(v == w or (v != v and w != w), "views", f"{o.label}.{a}[{k}] is {v!r}, not {w!r}")

    def set(self, o, k, v, mon):
        t = o.table[k]
        bad = not t["free"] or (t["vmin"] is not None and not v >= t["vmin"]) or (t["vmax"] is not None and not v <= t["vmax"])

        def put():
            setattr(o.obj, k, v)

        if bad:
            mon.raises(put, "rejected", f"setting {o.label}.{k} to {v!r} ({t})")
            mon.ev("rejected_fixed" if not t["free"] else "rejected_high" if t["vmin"] is None or v >= t["vmin"] else "rejected_low")
            if o.values:
                mon.nontrivial = mon.nontrivial or len(o.values) > 0
        else:
            put()
            o.values[k] = v
            mon.ev("sets")
            mon.ev("boundary_sets", v in (t["vmin"], t["vmax"]))
        return not bad

    def normalization(self, o, nk, v, mon):
        """Through normalization_parameter, as through the parameter itself."""
        t = o.table[nk]

        def put():
            o.obj.normalization_parameter = v

        if not t["free"] or (t["vmin"] is not None and not v >= t["vmin"]) or (t["vmax"] is not None and not v <= t["vmax"]):
            mon.raises(put, "rejected", f"setting the normalization of {o.label} to {v!r} ({t})")
            mon.ev("normalization_rejected")
        else:
            put()
            o.values[nk] = v
            mon.ev("normalization_writes")

    def run(self, spec, mon):
        rng = np.random.default_rng(spec["seed"])
        objs = []
        if spec["builtin"]:
            fam, kind = spec["builtin"].split(":")
            for i in range(3):
                objs.append(Obj(self.new(fam, kind, i), TABLE[(fam, kind)], f"{kind}{i}"))
            if spec["n"] == 0:
                self.exhaust(objs[0], objs[1], mon, rng)
            mon.ev("same_class")
        else:
            classes = []
            for i in range(int(rng.integers(1, 4))):
                fam = str(rng.choice(list("slac")))
                c, t = user_class(rng, fam)
                classes.append((fam, c, t))
                if rng.uniform() < 0.5:
                    c2, t2 = user_class(rng, fam, c, t)
                    classes.append((fam, c2, t2))
                    mon.ev("inherited")
                if rng.uniform() < 0.3:
                    fam2, kind2 = list(TABLE)[int(rng.integers(0, len(TABLE)))]
                    objs.append(Obj(self.new(fam2, kind2, 80 + i), TABLE[(fam2, kind2)], kind2))
            for i in range(int(rng.integers(2, 7))):
                fam, c, t = classes[int(rng.integers(0, len(classes)))]
                objs.append(Obj(c(f"obj{i}") if fam == "a" else c(), t, f"{c.__name__}[{i}]"))
            if len({type(o.obj) for o in objs}) < len(objs):
                mon.ev("same_class")
            if rng.uniform() < 0.3:
                self.two(mon, rng)
        seen = 0
        for step in range(spec["n"]):
            o = objs[int(rng.integers(0, len(objs)))]
            k = str(rng.choice(list(o.table)))
            t = o.table[k]
            x = rng.uniform()
            if x < 0.5:
                pool = [float(np.round(rng.uniform(-4, 4), 3)), int(rng.integers(-3, 4)), np.float64(rng.normal()), float(rng.uniform(0, 1)), float(10 ** rng.uniform(-3, 4)), 0, 0.0, 2**70, -(2**65)]
                for lim in ("vmin", "vmax"):
                    if t[lim] is not None:
                        pool += [t[lim], np.nextafter(t[lim], -np.inf), np.nextafter(t[lim], np.inf), t[lim]]
                if rng.uniform() < 0.1:
                    pool = [float("nan")]
                    if t["vmin"] is not None or t["vmax"] is not None:
                        mon.ev("nan")
                    else:
                        pool = [1.0]
                self.set(o, k, pool[int(rng.integers(0, len(pool)))], mon)
            elif x < 0.75:
                self.read(o, k, mon)
            elif x < 0.85:
                nk = o.norm()
                if nk and hasattr(type(o.obj), "normalization_parameter"):
                    if rng.uniform() < 0.5:
                        w = o.want(nk)
                        if w is None:
                            mon.raises(lambda: o.obj.normalization_parameter, "missing", f"normalization of {o.label} has no value")
                        else:
                            g = o.obj.normalization_parameter
                            mon.check(g == w, "normalization", f"normalization of {o.label} is {g!r}, {nk} is {w!r}")
                        mon.ev("normalization_reads")
                    else:
                        v = float(np.round(rng.uniform(-6, 12) if rng.uniform() < 0.4 else rng.uniform(0, 3), 3))
                        self.normalization(o, nk, v, mon)
            elif x < 0.92:
                with contextlib.redirect_stdout(io.StringIO()):
                    repr(o.obj)
                    if hasattr(o.obj, "display"):
                        o.obj.display()
                self.views(o, mon)
            else:
                # the descriptor can be fixed and released
                d = next(b.__dict__[k] for b in type(o.obj).__mro__ if k in b.__dict__)
                users = [q for q in objs if next((b.__dict__[k] for b in type(q.obj).__mro__ if k in b.__dict__), None) is d]
                if t["free"]:
                    d.fix = True
                    mon.check(d.fix and not d.free, "fix", "a parameter is fixed")
                    for q in users:
                        mon.raises(lambda: setattr(q.obj, k, 1.0), "rejected", f"setting the fixed {q.label}.{k}")
                        if q.norm() == k and hasattr(type(q.obj), "normalization_parameter"):
                            def put(q=q):
                                q.obj.normalization_parameter = 1.0

                            mon.raises(put, "rejected", f"setting the fixed normalization of {q.label}")
                            mon.ev("normalization_rejected")
                    d.free = True
                    mon.check(d.free and not d.fix, "fix", "a parameter is free")
                    mon.ev("refix")
            if step % 7 == 0:
                for o in objs:
                    k = str(rng.choice(list(o.table)))
                    self.read(o, k, mon)
            if mon.fails:
                break
        for o in objs:
            for k in o.table:
                mon.ev("unread_default", k not in o.values and o.want(k) is not None)
                self.read(o, k, mon)
            self.views(o, mon)
            mon.state(o.label.split("[")[0], sorted(o.values))

    def exhaust(self, o, other, mon, rng):
        """Each parameter of a built-in class."""
        for k, t in o.table.items():
            self.read(o, k, mon)
            vals = [1.5, 2]
            for lim in ("vmin", "vmax"):
                if t[lim] is not None:
                    vals += [t[lim], np.nextafter(t[lim], -np.inf), t[lim] - 1, np.nextafter(t[lim], np.inf), t[lim] + 1, float("nan")]
            for v in vals:
                self.set(o, k, v, mon)
                self.read(o, k, mon)
                self.read(other, k, mon)
            self.set(o, k, 0.75, mon)
            self.read(o, k, mon)
        self.views(o, mon)
        nk = o.norm()
        if nk:
            mon.check(o.obj.normalization_parameter == o.want(nk), "normalization", f"of {o.label}")
            for v in (3.25, -1.0, 7, -1e-9, float("nan"), 0.0, 2.5):
                self.normalization(o, nk, v, mon)
                self.read(o, nk, mon)
            self.read(other, nk, mon)
        mon.nontrivial = True

    def two(self, mon, rng):
        from popsynth.distribution import DistributionParameter

        def make():
            SERIAL[0] += 1
            base = gen.cls_of("s", "plain")
            type(base)(f"MonTwo{SERIAL[0]}", (base,), dict(_distribution_name=f"MonTwo{SERIAL[0]}", a=DistributionParameter(default=1, is_normalization=True),
                                                            b=DistributionParameter(default=1), c=DistributionParameter(default=2, is_normalization=True)))

        mon.raises(make, "two-normalizations", "a class with two normalizations")
        mon.ev("two_normalizations")


CHECK = C23()
