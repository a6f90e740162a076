"""The number of objects is one Poisson draw of the expected number."""
import numpy as np
from scipy import stats

from monitor import gen, refs, world
from monitor.core import Check


def scale_spec(s, mu):
    """Set the normalization such that about mu objects are expected."""
    k = s["kind"]
    P = s["params"]
    name = refs.NORMALIZATION.get(k, {"flatland": "Lambda", "spiral": "rho", "plain": "q"}.get(k))
    if name not in P:
        return s
    P[name] = float(P[name])
    m = refs.expected_number(s)
    P[name] = float("%.6g" % (P[name] * mu / m))
    return s


class C01(Check):
    pid = "C01"
    quick = 260
    thorough = 3000
    rule = "random spatial distributions scaled to 0.5-300 expected objects, many seeds each; non-trivial: at least two different counts were seen or a requested number was checked"
    required = ("poisson_draws", "poisson_mean_seen", "normalized_draws", "requested_draws", "zero_requested", "defaults")
    assumptions = ("the mean handed to the generator is compared when the call is seen; otherwise only the counts are tested", "expected numbers in the code's cosmology may deviate by 2 percent from the exact ones")

    def directed(self, tier):
        out = []
        for k in gen.SPATIAL:
            for norm in (False, True):
                for mode in ("poisson", "requested"):
                    rng = np.random.default_rng(sum(map(ord, k)) + 7 * norm)
                    s = scale_spec(gen.r_spatial(rng, [k], defaults=0), 60)
                    out.append(dict(spatial=s, normalize=norm, mode=mode, seeds=40, seed0=100))
        for k, P in (("shell", dict(r_max=4.0)), ("cons_sphere", dict(r_max=2.0)), ("zpow_cosmo", dict(delta=1.0, r_max=1.0)), ("flatland", {})):
            for norm in (False, True):
                out.append(dict(spatial=dict(kind=k, params=P), normalize=norm, mode="poisson", seeds=30, seed0=5, twice=True))
        # many objects
        for k, mu, seeds in (("flatland", 2.4e4, 16), ("flatland", 1.2e5, 3), ("plain", 1.1e4, 14), ("cons_sphere", 4e4, 4)):
            s = scale_spec(gen.r_spatial(np.random.default_rng(5), [k], defaults=0), mu)
            out.append(dict(spatial=s, normalize=False, mode="poisson", seeds=seeds, seed0=77))
        # nothing to normalize to
        for k in sorted(refs.NORMALIZATION):
            rng = np.random.default_rng(sum(map(ord, k)))
            s = gen.r_spatial(rng, [k], defaults=0)
            s["params"][refs.NORMALIZATION[k]] = 0
            for norm in (False, True):
                for v in (0, 0.0):
                    t = dict(s, params=dict(s["params"], **{refs.NORMALIZATION[k]: v}))
                    out.append(dict(spatial=t, normalize=norm, mode="poisson", seeds=3, seed0=100, twice=True))
        return out

    def gen(self, rng, idx, tier):
        s = gen.r_spatial(rng)
        mu = float(rng.choice([0.5, 3, 15, 40, 90, 250]))
        scale_spec(s, mu)
        if refs.expected_number(s) > 1500:
            s = scale_spec(gen.r_spatial(rng, ["cons_sphere"], defaults=0), mu)
        norm = bool(rng.uniform() < 0.35)
        if norm and s["kind"] in refs.NORMALIZATION and refs.NORMALIZATION[s["kind"]] in s["params"]:
            s["params"][refs.NORMALIZATION[s["kind"]]] = float("%.4g" % (mu * rng.uniform(0.5, 2)))
        return dict(spatial=s, normalize=norm, mode="poisson" if rng.uniform() < 0.75 else "requested", seeds=int(rng.choice([4, 12, 25])),
                    seed0=int(rng.integers(0, 10**6)), lum=gen.r_lum(rng), twice=bool(rng.uniform() < 0.2))

    def run(self, spec, mon):
        sp = spec["spatial"]
        kind = sp["kind"]
        P = refs.spatial_params(sp)
        mu = refs.expected_number(sp, spec["normalize"])
        rtol = 2e-2 if kind in gen.COSMO and not spec["normalize"] else 1e-6
        counts = []
        lams = []
        real = np.random.poisson

        def hook(lam=1.0, size=None):
            out = real(lam, size) if size is not None else real(lam)
            calls.append((lam, out))
            return out

        lum = spec.get("lum", dict(kind="delta", params=dict(Lp=1.0)))
        norm_name = refs.NORMALIZATION.get(kind)
        for i in range(spec["seeds"]):
            b = gen.build(dict(seed=spec["seed0"] + i, spatial=sp, lum=lum, aux=[], top=[]))
            for rep in range(2 if spec.get("twice") else 1):
                calls = []
                kw = {}
                if spec["normalize"]:
                    kw["normalize"] = True
                if spec["mode"] == "requested":
                    want = (0, 1, 2, 17, 50)[i % 5]
                    kw["n_samples"] = want
                    pop = b.synth.draw_survey(**kw)
                    mon.check(pop.n_objects == want and len(pop.distances) == want and len(pop.luminosities) == want, "requested-number", f"{want} objects were requested, {pop.n_objects} made")
                    mon.ev("requested_draws")
                    if want == 0:
                        mon.ev("zero_requested")
                else:
                    np.random.poisson = hook
                    try:
                        pop = b.synth.draw_survey(**kw)
                    finally:
                        np.random.poisson = real
                    mon.ev("poisson_draws")
                    n = pop.n_objects
                    mon.check(len(pop.distances) == n, "count-consistent", "as many distances as objects")
                    if rep == 0:
                        counts.append(n)
                    else:
                        mon.check(n == counts[-1], "count-redraw", "a second draw has the same size", first=counts[-1], second=n)
                    if len(calls) == 1 and np.isscalar(calls[0][1]) and int(calls[0][1]) == n:
                        mon.ev("poisson_mean_seen")
                        lam = float(calls[0][0])
                        lams.append(lam)
                        mon.check(abs(lam - mu) <= rtol * max(mu, 1e-12), "poisson-mean", f"the mean {lam} is the integral {mu}", spatial=sp, normalize=spec["normalize"])
                if spec["normalize"]:
                    mon.ev("normalized_draws")
                # parameters are as they were
                for k, v in sp["params"].items():
                    mon.check(getattr(b.spatial, k) == v and type(getattr(b.spatial, k)) == type(v), "parameters-kept", f"{k} is still {v}", now=getattr(b.spatial, k))
                if norm_name is not None:
                    mon.check(float(b.spatial.normalization_parameter) == float(P[norm_name]), "parameters-kept", "normalization parameter is back", now=b.spatial.normalization_parameter, was=P[norm_name])
                    mon.check(float(pop.truth[refs.SPATIAL_NAME[kind]][norm_name]) == float(P[norm_name]), "parameters-kept", "normalization parameter in the truth")
                    if norm_name not in sp["params"]:
                        mon.ev("defaults")
        if counts:
            K = len(counts)
            slack = rtol * mu * K if rtol > 1e-3 else 0
            tot = sum(counts)
            p = max(refs.poisson_p(tot, max(K * mu - slack, 1e-12)), refs.poisson_p(tot, K * mu + slack)) if abs(tot - K * mu) > slack else 1.0
            mon.pvalue(p, "poisson-counts", f"{K} surveys have {tot} objects, expected {K * mu:.2f}", spatial=sp)
            if mu > 10 and K >= 12:
                d = float(np.sum((np.array(counts) - np.mean(counts)) ** 2) / np.mean(counts))
                p = 2 * min(stats.chi2.sf(d, K - 1), stats.chi2.cdf(d, K - 1))
                mon.pvalue(p, "poisson-dispersion", f"variance over mean of the counts is {d / (K - 1):.3f}")
            mon.nontrivial = len(set(counts)) > 1
            mon.state(kind, spec["normalize"], "poisson", int(np.log2(1 + mu)))
        else:
            mon.nontrivial = True
            mon.state(kind, spec["normalize"], "requested")


CHECK = C01()
