"""Built-in auxiliary samplers: truths and observation noise."""
import numpy as np
from scipy import stats

from monitor import gen, refs, world
from monitor.core import Check

KINDS = ["normal", "lognormal", "log10normal", "tnormal", "tlognormal", "tlog10normal", "pareto", "plaw", "bplaw", "delta", "va"]


class C05(Check):
    pid = "C05"
    quick = 420
    thorough = 8000
    rule = "all built-in auxiliary samplers with random parameters, drawn alone and in surveys; non-trivial: at least 500 values with noise"
    required = ("true_values", "noise_values", "unobserved", "zero_noise", "in_survey", "integer_parameters", "defaults", "index_minus_one", "radec_in_survey")

    def directed(self, tier):
        out = []
        for i, k in enumerate(KINDS + ["ra", "dec"]):
            for o in (True, False):
                for dft in (0, 1.0):
                    rng = np.random.default_rng(i)
                    P = gen.r_aux_params(rng, k, defaults=dft)
                    out.append(dict(kind=k, params=P, observed=o and k not in gen.FIXED_NAME, n=10000, seed=i, how="alone"))
                    out.append(dict(kind=k, params=P, observed=o and k not in gen.FIXED_NAME, n=2000, seed=i, how="survey"))
        for k, P in (("plaw", dict(xmin=1, xmax=10, alpha=-1)), ("plaw", dict(xmin=1, xmax=10, alpha=2)), ("plaw", dict(xmin=1.0, xmax=10.0, alpha=-1.0)),
                     ("bplaw", dict(xmin=1, alpha=-1, xbreak=3, beta=-2, xmax=9)), ("bplaw", dict(xmin=1, alpha=-3, xbreak=3, beta=-1, xmax=9)),
                     ("normal", dict(mu=5, tau=2, sigma=3)), ("va", dict(max_angle=180)), ("va", dict(max_angle=90)), ("tlog10normal", dict(mu=1.0, tau=0.5, lower=2.0, upper=30.0, sigma=0.5)),
                     ("tlognormal", dict(mu=1.0, tau=0.5, lower=0, upper=30.0, sigma=0.5)), ("tlog10normal", dict(mu=0.0, tau=0.5, lower=0, upper=30.0, sigma=0.5)),
                     ("delta", dict(xp=3, sigma=1)), ("delta", dict(xp=-2, sigma=0)), ("normal", dict(mu=1.0, tau=0.0, sigma=0.0))):
            out.append(dict(kind=k, params=P, observed=k != "va", n=10000, seed=77, how="alone"))
        # truncation far from the mean, on either side and at zero
        for j, (mu, tau, lo, hi) in enumerate(((0.0, 1.0, 4.0, 6.0), (0.0, 1.0, -7.0, -5.0), (-2.0, 0.3, 1.0, 3.0), (5.0, 0.5, 0.0, 2.5), (0.0, 2.0, -30.0, 30.0), (1.0, 0.1, 0.999, 1.001))):
            out.append(dict(kind="tnormal", params=dict(mu=mu, tau=tau, lower=lo, upper=hi, sigma=0.5), observed=True, n=10000, seed=90 + j, how="alone"))
        for k, e in (("tlognormal", np.e), ("tlog10normal", 10.0)):
            for j, z in enumerate((-6.0, -4.5, -4.0, -3.5, -2.0, 0.0, 3.0)):
                # lower is zero, upper is z standard deviations from the mean
                for mu, tau in ((0.0, 1.0), (2.0, 0.5), (-1.0, 1.5)):
                    out.append(dict(kind=k, params=dict(mu=mu, tau=tau, lower=0, upper=float(e ** (mu + z * tau)), sigma=0.5), observed=True, n=10000, seed=100 + j, how="alone"))
            out.append(dict(kind=k, params=dict(mu=0.0, tau=0.5, lower=float(e**2.5), upper=float(e**4), sigma=0.5), observed=True, n=10000, seed=110, how="alone"))
        # indices around -1, where power laws become logarithms
        for a in (-0.9, -0.95, -0.99, -0.999, -1.001, -1.01, -1.05, -1.1):
            out.append(dict(kind="plaw", params=dict(xmin=1e-2, xmax=1e6, alpha=a, sigma=1.0), observed=True, n=60000, seed=78, how="alone"))
            out.append(dict(kind="bplaw", params=dict(xmin=1e-2, alpha=a, xbreak=1e2, beta=-2.5, xmax=1e6, sigma=1.0), observed=True, n=60000, seed=79, how="alone"))
            out.append(dict(kind="bplaw", params=dict(xmin=1e-2, alpha=-0.4, xbreak=1.0, beta=a, xmax=1e6, sigma=1.0), observed=True, n=60000, seed=80, how="alone"))
        # and within rounding of it
        for e in (1.2e-16, 2.3e-16, 9e-16, 1e-14, 1e-12, 1e-10, 1e-8, 2e-7, 1e-5):
            for a in (-1 + e, -1 - e):
                out.append(dict(kind="plaw", params=dict(xmin=1e-2, xmax=1e6, alpha=a, sigma=1.0), observed=True, n=5000, seed=82, how="alone"))
                out.append(dict(kind="bplaw", params=dict(xmin=1e-2, alpha=a, xbreak=1e2, beta=-2.5, xmax=1e6, sigma=1.0), observed=True, n=5000, seed=83, how="alone"))
                out.append(dict(kind="bplaw", params=dict(xmin=1e-2, alpha=-0.4, xbreak=1.0, beta=a, xmax=1e6, sigma=1.0), observed=True, n=5000, seed=84, how="alone"))
        # extreme shapes
        for j, (k, P) in enumerate((("pareto", dict(xmin=1.0, alpha=0.04)), ("pareto", dict(xmin=1e-8, alpha=0.09)), ("pareto", dict(xmin=1e40, alpha=25.0)),
                                    ("plaw", dict(xmin=0.5, xmax=2.0, alpha=15.0)), ("plaw", dict(xmin=0.5, xmax=50.0, alpha=-12.0)), ("plaw", dict(xmin=2.0, xmax=2.001, alpha=-2.0)), ("plaw", dict(xmin=1e40, xmax=1e52, alpha=-1.5)),
                                    ("bplaw", dict(xmin=1.0, alpha=8.0, xbreak=2.0, beta=-9.0, xmax=10.0)), ("bplaw", dict(xmin=1e-3, alpha=-0.5, xbreak=10.0, beta=0.0, xmax=20.0)),
                                    ("lognormal", dict(mu=0.0, tau=12.0)), ("lognormal", dict(mu=100.0, tau=0.001)), ("log10normal", dict(mu=50.0, tau=2.0)), ("log10normal", dict(mu=-40.0, tau=0.01)),
                                    ("normal", dict(mu=1e4, tau=1e-3)), ("normal", dict(mu=-3.0, tau=1e9)), ("va", dict(max_angle=1.0)), ("va", dict(max_angle=179.5)))):
            out.append(dict(kind=k, params=P, observed=False, n=10000, seed=120 + j, how="alone"))
        # large samples
        for i, k in enumerate(KINDS):
            out.append(dict(kind=k, params=gen.r_aux_params(np.random.default_rng([5, i]), k, defaults=0), observed=k != "va", n=40000 if k != "bplaw" else 20000, seed=81, how="survey" if k in ("normal", "delta") else "alone"))
        return out

    def gen(self, rng, idx, tier):
        k = str(rng.choice(KINDS))
        P = gen.r_aux_params(rng, k)
        if "sigma" in P and rng.uniform() < 0.12:
            P["sigma"] = 0
        return dict(kind=k, params=P, observed=bool(rng.uniform() < 0.75) and k != "va", n=int(rng.choice([0, 1, 700, 3000, 10000])),
                    seed=int(rng.integers(0, 2**31)), how=str(rng.choice(["alone", "survey"])))

    def run(self, spec, mon):
        k, n = spec["kind"], spec["n"]
        P = refs.aux_params(spec)
        node = dict(name=k if k in gen.FIXED_NAME else "x", kind=k, observed=spec["observed"], params=spec["params"], sec=[], sel=None)
        if spec["how"] == "alone":
            s = gen.build_aux(node)
            np.random.seed(spec["seed"])
            s.draw(size=n)
            t, o = world.arr(s.true_values), world.arr(s.obs_values)
        else:
            twin = dict(node, name="twin") if k not in gen.FIXED_NAME else None
            nodes = [node] + ([twin] if twin else [])
            b = gen.build(dict(seed=spec["seed"], spatial=dict(kind="flatland", params=dict(Lambda=1.0, r_max=2.0)), lum=dict(kind="pareto", params={}), aux=nodes, top=[x["name"] for x in nodes]))
            try:
                pop = b.synth.draw_survey(n_samples=n)
            except AttributeError:
                if k in ("ra", "dec"):
                    mon.ev("radec_in_survey")
                    mon.fail("sky-sampler-in-survey", f"a survey with the {k} sampler cannot be drawn: the population has an attribute of that name")
                    return
                raise
            if k in ("ra", "dec"):
                mon.ev("radec_in_survey")
            v = getattr(pop, node["name"])
            t, o = world.lat(v), world.arr(v)
            mon.same(b.aux[node["name"]].true_values, t, "in-survey", "the sampler's true values are in the population")
            mon.same(b.aux[node["name"]].obs_values, o, "in-survey", "the sampler's observed values are in the population")
            mon.ev("in_survey")
            if twin and k != "delta" and P.get("tau", 1) > 0 and n > 500:
                w = getattr(pop, "twin")
                mon.pvalue(refs.corr_p(t, world.lat(w)), "independence", "two samplers are independent")
        mon.ev("true_values", n)
        if not mon.check(t.shape == (n,) and o.shape == (n,) and np.all(np.isfinite(t)) and np.all(np.isfinite(o)), "aux-number", f"{n} finite values", t=t, o=o):
            return
        if len(spec["params"]) < len(refs.AUX_DEFAULTS[k]):
            mon.ev("defaults")
        if any(isinstance(v, int) for v in spec["params"].values()):
            mon.ev("integer_parameters")
        if k in ("plaw", "bplaw") and -1 in (P["alpha"], P.get("beta")):
            mon.ev("index_minus_one")
        cdf, lo, hi = refs.aux_dist(k, spec["params"])
        if k != "delta" and P.get("tau", 1) > 0:
            mon.check(refs.repeated_ok(t), "independence", f"true values of {k} are distinct", repeated=refs.repeated(t), n=n)
        tol = 1e-9 * max(1, abs(lo) if np.isfinite(lo) else 1)
        mon.check(np.all(t >= lo - tol * 0 - abs(lo if np.isfinite(lo) else 0) * 1e-9) and np.all(t <= hi + abs(hi if np.isfinite(hi) else 0) * 1e-9), "aux-bounds", f"true values of {k} lie in [{lo}, {hi}]", values=t, params=spec["params"])
        if cdf is not None and P.get("tau", 1) > 0:
            mon.pvalue(refs.ks_p(t, cdf), "aux-distribution", f"true values of {k} follow the distribution", params=spec["params"])
            if n > 100:
                mon.pvalue(refs.corr_p(t[1:], t[:-1]), "independence", "true values are independent")
        elif P.get("tau", 1) == 0:
            mon.check(np.all(t == P["mu"]), "aux-distribution", "no spread")
        if not spec["observed"]:
            mon.same(o, t, "unobserved", f"unobserved values of {k} are the true ones")
            mon.ev("unobserved", n)
        elif P["sigma"] == 0:
            mon.same(o, t, "noise", f"no noise on {k}")
            mon.ev("zero_noise", n)
        else:
            e = o - t
            # heavy tails: differences lose precision
            ok = np.abs(t) < 1e8 * P["sigma"]
            e, tt = e[ok], t[ok]
            if len(e) > 0.9 * n:
                mon.pvalue(refs.norm_ks_p(e, P["sigma"]), "noise", f"noise of {k} is normal with {P['sigma']}", params=spec["params"])
                mon.pvalue(refs.var_p(e, P["sigma"]), "noise", f"variance of the noise of {k}", std=float(np.std(e)) if len(e) else None, sigma=P["sigma"])
                mon.pvalue(refs.mean_p(e, P["sigma"]), "noise", f"mean of the noise of {k}")
                if k != "delta" and P.get("tau", 1) > 0:
                    mon.pvalue(refs.corr_p(e, tt), "noise", f"noise of {k} is independent of the truth")
                    if len(e) > 100:
                        mon.pvalue(refs.corr_p(np.abs(e), tt), "noise", f"noise of {k} is homoskedastic")
                if len(e) > 100:
                    mon.pvalue(refs.corr_p(e[1:], e[:-1]), "noise", "noise is independent")
                if len(tt) and np.max(np.abs(tt)) < 1e4 * P["sigma"]:
                    mon.check(refs.repeated_ok(e / P["sigma"], 10), "noise", f"every value of {k} has an error of its own", repeated=refs.repeated(e / P["sigma"], 10), n=n)
                mon.ev("noise_values", len(e))
        mon.nontrivial = n >= 500
        mon.state(k, spec["observed"], spec["how"], n, sorted(spec["params"]))


CHECK = C05()
