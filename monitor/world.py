"""What can be seen of populations and synths, and comparisons of it."""
import numpy as np
import networkx as nx
import scipy.special as sf

from . import gen, refs

MISSING = "<missing>"


def arr(x):
    """A plain copy of an array."""
    return np.array(np.asarray(x).view(np.ndarray), copy=True)


def lat(x):
    return np.array(np.asarray(x.latent).view(np.ndarray), copy=True)


def plain(x):
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, bytes):
        return x.decode()
    if isinstance(x, np.ndarray):
        return arr(x) if x.ndim else x.item()
    if isinstance(x, np.generic):
        return x.item()
    return x


def graph_edges(g):
    return sorted((str(a), str(b)) for a, b in g.edges()), sorted(str(n) for n in g.nodes())


def pop_state(pop, aux_names, stan=True):
    """Everything a user can see of a population, copied."""
    S = {}
    for k in ("luminosities", "distances", "fluxes", "theta", "phi", "ra", "dec"):
        v = getattr(pop, k)
        S[k + ".obs"] = arr(v)
        S[k + ".latent"] = lat(v)
        S[k + ".selected"] = arr(v.selected)
        S[k + ".non_selected"] = arr(v.non_selected)
    for k in aux_names:
        v = getattr(pop, k)
        S["aux." + k + ".obs"] = arr(v)
        S["aux." + k + ".latent"] = lat(v)
    if pop.probability is None:
        S["probability"] = None
    else:
        S["probability"] = arr(pop.probability)
        S["probability.latent"] = lat(pop.probability)
    S["selection"] = arr(pop.selection)
    S["known_distances"] = arr(pop.known_distances)
    for k in ("flux_sigma", "n_objects", "n_detections", "n_non_detections", "has_detections"):
        S[k] = plain(getattr(pop, k))
    S["lf_params"] = plain(pop.luminosity_parameters)
    S["spatial_params"] = plain(pop.spatial_parameters)
    S["truth"] = plain(pop.truth)
    S["pop_synth"] = plain(pop.pop_synth)
    S["edges"], S["nodes"] = graph_edges(pop.graph)
    S["directed"] = bool(pop.graph.is_directed())
    for k in ("_name", "_seed", "_spatial_form", "_lf_form"):
        S[k] = plain(getattr(pop, k, MISSING))
    S["repr"] = repr(pop)
    if stan:
        S["stan"] = plain(pop.to_stan_data())
    return S


def diff(a, b, path="", rtol=0.0):
    """Differences between two nested structures, as text."""
    out = []
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                out.append(f"{path}.{k}: only in the first")
            else:
                out += diff(a[k], b[k], f"{path}.{k}", rtol)
        for k in b:
            if k not in a:
                out.append(f"{path}.{k}: only in the second")
        return out
    if isinstance(a, str) and a == MISSING or isinstance(b, str) and b == MISSING:
        return out
    if isinstance(a, (np.ndarray, list)) and isinstance(b, (np.ndarray, list)):
        if len(a) != len(b):
            return [f"{path}: lengths {len(a)} and {len(b)}"]
        if isinstance(a, list) and isinstance(b, list) and not all(np.isscalar(v) for v in a + b):
            for i, (x, y) in enumerate(zip(a, b)):
                out += diff(x, y, f"{path}[{i}]", rtol)
            return out
        x, y = np.asarray(a), np.asarray(b)
        if x.dtype.kind in "fciub" and y.dtype.kind in "fciub":
            if rtol:
                ok = np.isclose(x, y, rtol=rtol, atol=1e-300, equal_nan=True)
            else:
                ok = (x == y) | ((x != x) & (y != y))
        else:
            ok = np.array([p == q for p, q in zip(x.ravel().tolist(), y.ravel().tolist())], dtype=bool)
        if not np.all(ok):
            i = int(np.argmin(np.atleast_1d(ok).ravel()))
            out.append(f"{path}[{i}]: {x.ravel()[i]!r} and {y.ravel()[i]!r} ({int(np.sum(~ok))} of {ok.size} differ)")
        return out
    if isinstance(a, (int, float, bool)) and isinstance(b, (int, float, bool)):
        if a == b or (a != a and b != b) or (rtol and np.isclose(a, b, rtol=rtol, atol=1e-300)):
            return out
        return [f"{path}: {a!r} and {b!r}"]
    if type(a) != type(b) or a != b:
        out.append(f"{path}: {a!r} and {b!r}"[:300])
    return out


def compare(mon, a, b, key, msg, skip=()):
    a = {k: v for k, v in a.items() if k not in skip}
    b = {k: v for k, v in b.items() if k not in skip}
    d = diff(a, b)
    return mon.check(not d, key, msg + ": " + "; ".join(d[:4]))


def aux_names(spec):
    return [d["name"] for d in spec.get("aux", [])]


def derived_of(spec):
    for d in spec.get("aux", []):
        if d["kind"].startswith("derived") and d["name"] in spec["top"]:
            return d
    return None


def expected_one(sel, obs=None, distance=None, luminosity=None, flux=None, ra=None, dec=None, size=None):
    """
    The selection a deterministic selector must make, or (None, probs)
    for one that makes random choices.
    """
    k = sel["kind"]
    P = sel.get("params", {})
    vals = {"obs": obs, "distance": distance, "luminosity": luminosity, "flux": flux}
    v = vals.get(sel.get("on"))
    if k == "unity":
        return np.ones(size, bool), None
    if k in ("mon", "monspatial"):
        return gen.pattern(size, P.get("salt", 1), P.get("p", 0.7)), None
    if k == "box":
        return (v >= P["vmin"]) & (v <= P["vmax"]), None
    if k == "lower":
        return v >= P["boundary"], None
    if k == "upper":
        return v <= P["boundary"], None
    if k == "hardflux":
        return flux >= P["boundary"], None
    if k in ("soft", "softflux"):
        if k == "softflux":
            v = flux
        with np.errstate(all="ignore"):
            return None, sf.expit(P["strength"] * (np.log10(v) - np.log10(P["boundary"])))
    if k == "bernoulli":
        return None, np.full(size, P.get("probability", 0.5))
    if k == "galplane":
        b = np.abs(refs.galactic_b(ra, dec))
        near = np.abs(b - P["b_limit"]) < 1e-5
        return np.where(near, -1, b >= P["b_limit"]).astype(int), None
    if k == "distance":
        return (distance >= P["min_distance"]) & (distance <= P["max_distance"]), None
    raise ValueError(k)


def active_selections(spec):
    """(label, selection, node) of all selections that decide on detection"""
    out = []
    for d in spec.get("aux", []):
        if d.get("sel"):
            out.append(("aux:" + d["name"], d["sel"], d))
    if spec.get("flux_sel"):
        out.append(("flux", spec["flux_sel"], None))
    if spec.get("spatial_sel"):
        out.append(("spatial", spec["spatial_sel"], None))
    return out


def selector_object(b, label):
    if label == "flux":
        return b.flux_sel
    if label == "spatial":
        return b.spatial_sel
    if label == "distance":
        return b.dist_sel
    return b.aux[label[4:]].selector


def expected_edges(spec):
    """The model graph of a spec: (edges, nodes)."""
    sname = refs.spatial_name(spec["spatial"])
    E, N = set(), {sname, "obs_flux"}
    E.add((sname, "obs_flux"))
    by = {d["name"]: d for d in spec.get("aux", [])}
    der = derived_of(spec)
    if der is not None:
        E.add((der["name"], "obs_flux"))
    elif spec.get("lum"):
        E.add((refs.lum_name(spec["lum"]), "obs_flux"))
    seen = set()
    for t in spec.get("top", []):
        seen |= set(gen.below(spec["aux"], t))
    for n in seen:
        d = by[n]
        N.add(n)
        if d["observed"] and not d["kind"].startswith("derived"):
            E.add((n, n + "_obs"))
        if d["kind"] in gen.USES_DISTANCE:
            E.add((sname, n))
        for s in d["sec"]:
            E.add((s, n))
    for a, b in E:
        N |= {a, b}
    return E, N


def expected_truth(spec):
    """Truth by name; values for parameters with certainly used defaults."""
    T = {}
    T[refs.spatial_name(spec["spatial"])] = refs.spatial_params(spec["spatial"])
    by = {d["name"]: d for d in spec.get("aux", [])}
    der = derived_of(spec)
    if der is None:
        T[refs.lum_name(spec["lum"])] = refs.lum_params(spec["lum"])
    for t in spec["top"]:
        for n in gen.below(spec["aux"], t):
            T[n] = dict(refs.aux_params(by[n]))
    return T


def digest(x):
    """A digest of a nested structure, bit for bit."""
    import hashlib

    h = hashlib.sha256()

    def go(v):
        if isinstance(v, dict):
            h.update(b"{")
            for k in sorted(v, key=str):
                h.update(str(k).encode() + b":")
                go(v[k])
            h.update(b"}")
        elif isinstance(v, (list, tuple)):
            h.update(b"[")
            for k in v:
                go(k)
                h.update(b",")
            h.update(b"]")
        elif isinstance(v, np.ndarray) and v.dtype.kind in "fciub":
            h.update(str((v.shape, v.dtype.kind)).encode())
            h.update(np.ascontiguousarray(v).tobytes())
        elif isinstance(v, np.ndarray):
            go(v.tolist())
        elif isinstance(v, float):
            h.update(v.hex().encode())
        else:
            h.update(repr(v).encode())

    go(x)
    return h.hexdigest()[:24]
