"""Displays show what is there."""
import contextlib
import html
import io
import os
import re

import matplotlib
import matplotlib.colors
import matplotlib.pyplot as plt
import numpy as np
import popsynth

from monitor import gen, refs, world
from monitor.core import Check

SHELL = []


@contextlib.contextmanager
def shown():
    """What is displayed, as in a notebook."""
    if not SHELL:
        import pandas as pd
        from IPython.core.interactiveshell import InteractiveShell

        keep = __import__("sys").excepthook, __import__("sys").displayhook
        with contextlib.redirect_stdout(io.StringIO()):
            SHELL.append(InteractiveShell.instance())
        __import__("sys").excepthook, __import__("sys").displayhook = keep
        pd.set_option("display.float_format", lambda x: repr(float(x)))
        pd.set_option("display.max_rows", 1000)
    from IPython.utils.capture import capture_output

    out = Shown()
    with capture_output() as c:
        yield out
    out.read(c)


class Shown:
    def read(self, c):
        self.markdown, self.latex, self.tables, self.order = [], [], [], []
        self.n = len(c.outputs)
        self.stdout = c.stdout
        for o in c.outputs:
            d = o.data
            if "text/markdown" in d:
                self.markdown.append(d["text/markdown"])
                self.order.append(("text", d["text/markdown"]))
            elif "text/latex" in d:
                self.latex.append(d["text/latex"])
                self.order.append(("latex", d["text/latex"]))
            elif "text/html" in d:
                cells = [html.unescape(x) for x in re.findall(r"<td>(.*?)</td>", d["text/html"], re.S)]
                t = dict(zip(cells[::2], [number(x) for x in cells[1::2]]))
                self.tables.append(t)
                self.order.append(("table", t))


def number(x):
    try:
        return float(x)
    except ValueError:
        return None if x in ("None", "NaN", "nan") else x


def table(params):
    return {str(k): (None if v is None else float(v)) for k, v in params.items()}


def rgb(c):
    return np.array(matplotlib.colors.to_rgb(c))


def points(coll):
    return np.asarray(np.ma.getdata(coll.get_offsets()), dtype=float).reshape(-1, 2)


def cloud(x, y):
    return np.column_stack([world.arr(x), world.arr(y)]).astype(float)


class C30(Check):
    pid = "C30"
    quick = 170
    thorough = 4000
    rule = "random surveys, their sub-populations and reloaded copies, displayed in every way and read back from the figures and tables that appear; non-trivial: detected and hidden objects whose observed flux is not the latent one"
    required = (
        "true_fluxes", "obs_fluxes", "fluxes", "luminosities", "distances", "obs_sphere", "hidden_sphere", "both_sphere", "points", "arrows", "bars", "sphere_points",
        "no_arrows", "tables", "counts", "own_axes", "two_in_one", "nothing_detected", "everything_detected", "synth_tables", "sampler_tables", "distribution_tables", "changed_parameters", "transformed", "reloaded", "sub", "colours",
    )

    def directed(self, tier):
        out = []
        for i, k in enumerate(gen.SPATIAL):
            for j, p in enumerate((0.5, 0.0, 1.0)):
                rng = np.random.default_rng([30, i, j])
                s = gen.r_spec(rng, n=(6, 20), aux=(1, 3), spatial=[k], sels="none", p_aux_sel=0)
                s["flux_sel"] = dict(kind="mon", params=dict(salt=12, p=p))
                s["draw"]["flux_sigma"] = 0.4
                out.append(s)
        # large surveys
        for i, n in enumerate((300, 1500)):
            out.append(lambda n=n, i=i: gen.large(n, i))
        return out

    def gen(self, rng, idx, tier):
        s = gen.r_spec(rng, n=(0, 25), aux=(0, 4), sels=str(rng.choice(["probe", "any"])))
        if not s.get("flux_sel"):
            s["flux_sel"] = dict(kind="mon", params=dict(salt=12, p=float(rng.choice([0.5, 0.8, 0.0, 1.0], p=[0.5, 0.3, 0.1, 0.1]))))
        return s

    # -- figures of matplotlib

    def axes(self, rng, mon, f, **kw):
        """Draw with f; the axes, and how many things there were before."""
        before = set(plt.get_fignums())
        if rng.uniform() < 0.5:
            fig, ax = plt.subplots(1, int(rng.integers(1, 3)))
            ax = np.atleast_1d(ax)
            target = ax[-1]
            f(ax=target, **kw)
            mon.check(all(len(a.collections) + len(a.patches) + len(a.lines) == 0 for a in ax[:-1]), "axes", "the other axes are left alone")
            mon.check(set(plt.get_fignums()) - before == {fig.number}, "axes", "no further figure is made")
            mon.ev("own_axes")
            return target
        f(**kw)
        new = set(plt.get_fignums()) - before
        if not new:
            return None
        mon.check(len(new) == 1, "axes", "one figure is made", n=len(new))
        fig = plt.figure(new.pop())
        mon.check(len(fig.axes) == 1, "axes", "with one pair of axes")
        return fig.axes[0]

    def scatter(self, ax, want, mon, what, colours=None):
        """The clouds of points in the axes, in any order."""
        colls = [c for c in ax.collections if len(points(c)) or any(len(w) == 0 for w in want)]
        want_n = [w for w in want if len(w)]
        colls = [c for c in colls if len(points(c))]
        if not mon.check(len(colls) == len(want_n), "points", f"{what}: {len(want_n)} clouds of points", got=len(colls)):
            return
        left = list(range(len(colls)))
        for j, w in enumerate(want):
            if not len(w):
                continue
            for i in left:
                p = points(colls[i])
                same = p.shape == w.shape and np.array_equal(p[np.lexsort(p.T)], w[np.lexsort(w.T)], equal_nan=True)
                if same and colours is not None and colours[j] is not None:
                    fc = colls[i].get_facecolors()
                    same = len(fc) > 0 and np.allclose(fc[:, :3], rgb(colours[j]))
                    mon.ev("colours")
                if same:
                    left.remove(i)
                    break
            else:
                mon.fail("points", f"{what}: no cloud shows {w[:3].tolist()}... ({len(w)} points) in {colours[j] if colours else 'any colour'}", got=[points(colls[i])[:3] for i in left])
            mon.ev("points", len(w))

    def judge_fluxes(self, pop, rng, mon, what):
        sel = world.arr(pop.selection)
        d, f, l = world.arr(pop.distances), world.arr(pop.fluxes), world.lat(pop.fluxes)
        r_max = pop.to_stan_data()["r_max"]
        pos = np.all(f > 0) and np.all(l > 0)
        nd = int(sel.sum())
        # latent
        ax = self.axes(rng, mon, pop.display_true_fluxes, flux_color="red")
        self.scatter(ax, [cloud(d, l)], mon, f"{what}: true fluxes", ["red"])
        if len(d) and pos:
            mon.check(ax.get_ylim()[0] <= np.min(l) * (1 + 1e-9), "range", f"{what}: all true fluxes are in view", lim=ax.get_ylim(), low=np.min(l))
        mon.check(ax.get_yscale() == "log", "scale", f"{what}: logarithmic fluxes")
        mon.ev("true_fluxes")
        # observed
        ax = self.axes(rng, mon, pop.display_obs_fluxes, flux_color="blue")
        if nd == 0:
            mon.check(ax is None or not len(ax.collections), "points", f"{what}: nothing to show without detections")
            mon.ev("nothing_detected")
        elif mon.check(ax is not None, "points", f"{what}: a figure of the observed fluxes"):
            self.scatter(ax, [cloud(d[sel], f[sel])], mon, f"{what}: observed fluxes", ["blue"])
            mon.check(ax.get_xlim()[1] == r_max, "range", f"{what}: up to the largest distance", lim=ax.get_xlim(), r_max=r_max)
            mon.check(ax.get_yscale() == "log", "scale", f"{what}: logarithmic fluxes")
            if pos:
                mon.check(ax.get_ylim()[0] <= np.min(f[sel]) * (1 + 1e-9), "range", f"{what}: all observed fluxes are in view")
        mon.ev("everything_detected", nd > 0 and nd == len(sel))
        mon.ev("obs_fluxes")
        # both
        arrows = bool(rng.uniform() < 0.6)
        kw = dict(with_arrows=arrows) if not arrows or rng.uniform() < 0.5 else {}
        ax = self.axes(rng, mon, pop.display_fluxes, true_color="red", obs_color="blue", arrow_color="green", **kw)
        self.scatter(ax, [cloud(d, l), cloud(d[sel], f[sel])], mon, f"{what}: both fluxes", ["red", "blue"])
        pa = list(ax.patches)
        mon.check(len(pa) == (nd if arrows else 0), "arrows", f"{what}: an arrow for each detected object", got=len(pa), want=nd if arrows else 0)
        if arrows and len(pa) == nd:
            got, want = [], []
            for a in pa:
                v = np.asarray(a.get_xy(), dtype=float).reshape(-1, 2)
                if len(v):
                    mon.check(np.allclose(a.get_facecolor()[:3], rgb("green")), "arrows", f"{what}: arrows in their colour")
                    x = 0.5 * (v[:, 0].min() + v[:, 0].max())
                    lo, hi = v[:, 1].min(), v[:, 1].max()
                    # the end with a width is where it starts
                    wl, wh = (np.ptp(v[np.abs(v[:, 1] - e) <= 1e-6 * (hi - lo), 0]) for e in (lo, hi))
                    got.append((x, lo, hi) if wl > wh else (x, hi, lo))
                    mon.ev("arrows")
            for x, a, c in zip(d[sel], l[sel], f[sel]):
                if a != c:
                    want.append((x, a, c))
            if mon.check(len(got) == len(want), "arrows", f"{what}: arrows of objects whose flux changed", got=len(got), want=len(want)) and got:
                g, w = np.array(sorted(got)), np.array(sorted(want))
                # (sorted by distance; arrows of nearly the same distance may swap)
                tol = 1e-6 * np.abs(w).max(axis=0)
                ok = np.all(np.abs(g - w) <= 1e-5 * np.abs(w) + 1e-12 + np.array([1e-6 * tol[0], 0, 0])[None, :]) or self.matching(g, w)
                mon.check(ok, "arrows", f"{what}: from the true to the observed flux", got=g[:3], want=w[:3])
        mon.ev("no_arrows", not arrows)
        mon.ev("fluxes")
        plt.close("all")

    @staticmethod
    def matching(g, w):
        left = list(range(len(g)))
        for row in w:
            for i in left:
                if np.allclose(g[i], row, rtol=1e-4, atol=1e-9):
                    left.remove(i)
                    break
            else:
                return False
        return True

    def judge_luminosities(self, pop, rng, mon, what):
        sel = world.arr(pop.selection)
        d, L = world.arr(pop.distances), world.arr(pop.luminosities)
        ax = self.axes(rng, mon, pop.display_luminosities, true_color="red", obs_color="blue")
        self.scatter(ax, [cloud(d[sel], L[sel]), cloud(d[~sel], L[~sel])], mon, f"{what}: luminosities", ["blue", "red"])
        mon.ev("luminosities")
        plt.close("all")

    def judge_distances(self, pop, rng, mon, what):
        sel = world.arr(pop.selection)
        d = world.arr(pop.distances)
        r_max = pop.to_stan_data()["r_max"]
        ax = self.axes(rng, mon, pop.display_distances)
        H = [c for c in ax.containers if hasattr(c, "patches")]
        if mon.check(len(H) == 2, "bars", f"{what}: two histograms of distances", n=len(H)):
            leg = ax.get_legend()
            mon.check(leg is not None and len(leg.get_texts()) == 2, "bars", f"{what}: a legend of both")
            H.sort(key=lambda h: "tot" not in str(h.get_label()).lower())
            for h, x, name in zip(H, (d, d[sel]), ("all", "detected")):
                lo = np.array([p.get_x() for p in h.patches])
                w = np.array([p.get_width() for p in h.patches])
                n = np.array([p.get_height() for p in h.patches])
                e = np.append(lo, lo[-1] + w[-1])
                mon.check(abs(e[0]) < 1e-9 * r_max and abs(e[-1] - r_max) < 1e-9 * r_max, "bars", f"{what}: from nothing to the largest distance", got=[e[0], e[-1]], r_max=r_max)
                mon.check(np.allclose(lo[1:], (lo + w)[:-1], rtol=1e-9, atol=1e-12 * r_max), "bars", f"{what}: bars side by side")
                want = np.array([np.sum((x >= a) & ((x < b) | (i == len(lo) - 1) & (x <= b))) for i, (a, b) in enumerate(zip(e[:-1], e[1:]))])
                # (distances at the edge of a bar may count on either side)
                edge = np.array([np.sum(np.abs(x[:, None] - np.array([[a, b]])) < 1e-9 * r_max) for a, b in zip(e[:-1], e[1:])])
                mon.check(np.all(np.abs(n - want) <= edge), "bars", f"{what}: {name} distances per bar", got=n, want=want)
                mon.ev("bars", len(n))
        mon.ev("distances")
        plt.close("all")

    # -- spheres

    def judge_spheres(self, pop, rng, mon, what):
        import ipyvolume

        sel = world.arr(pop.selection)
        d, t, p, f = (world.arr(getattr(pop, q)) for q in ("distances", "theta", "phi", "fluxes"))
        kw, tr = {}, lambda x: x
        if rng.uniform() < 0.5:
            tr = lambda x: np.log1p(x) * 3.0
            kw["distance_transform"] = tr
            mon.ev("transformed")
        log = bool(rng.uniform() < 0.5)
        if log:
            kw["use_log"] = True

        def xyz(m):
            r = tr(d[m])
            return np.column_stack([r * np.sin(t[m]) * np.cos(p[m]), r * np.sin(t[m]) * np.sin(p[m]), r * np.cos(t[m])])

        def judge(fig, parts, name):
            parts = [(m, c) for m, c in parts if np.any(m)]
            if not parts:
                mon.check(fig is None or not len(fig.scatters), "sphere", f"{what}: {name}: nothing to show")
                return
            if fig is None and name == "all" and not np.any(~sel):
                fig = ipyvolume.gcf()
            if not mon.check(fig is not None and len(fig.scatters) == len(parts), "sphere", f"{what}: {name}: {len(parts)} clouds of points", got=None if fig is None else len(fig.scatters)):
                return
            got = [np.column_stack([np.asarray(getattr(s, k), dtype=float).ravel() for k in "xyz"]) for s in fig.scatters]
            for m, cmap in parts:
                w = xyz(m)
                tol = 1e-5 * (1e-30 + np.abs(tr(d[m]))[:, None])
                for g, s in zip(got, fig.scatters):
                    if g.shape == w.shape and np.all(np.abs(g - w) <= tol):
                        if log and np.all(f[m] > 0) and np.ptp(f[m]) > 0 and cmap is not None:
                            x = np.log(f[m])
                            c = matplotlib.colormaps[cmap]((x - x.min()) / (x.max() - x.min()))
                            # (neighbouring colours of the map)
                            mon.check(np.allclose(np.asarray(s.color), c, atol=0.05), "sphere-colours", f"{what}: {name}: colours are those of the fluxes", got=np.asarray(s.color)[:2], want=c[:2])
                            mon.ev("colours")
                        mon.ev("sphere_points", len(w))
                        break
                else:
                    mon.fail("sphere", f"{what}: {name}: no cloud shows the positions of the {len(w)} objects", got=got[0][:3], want=w[:3])

        with shown() as out:
            fig = pop.display_obs_fluxes_sphere(cmap="viridis", **kw)
        judge(fig, [(sel, "viridis")], "detected")
        mon.check(out.n > 0 or not np.any(sel), "sphere", f"{what}: it is displayed")
        mon.ev("obs_sphere")
        ipyvolume.clear()
        with shown() as out:
            fig = pop.display_hidden_fluxes_sphere(cmap="plasma", **kw)
        judge(fig, [(~sel, "plasma")], "hidden")
        mon.ev("hidden_sphere")
        ipyvolume.clear()
        with shown() as out:
            fig = pop.display_flux_sphere(seen_cmap="viridis", unseen_cmap="plasma", **kw)
        judge(fig, [(sel, "viridis"), (~sel, "plasma")], "all")
        mon.check(out.n > 0, "sphere", f"{what}: it is displayed")
        mon.ev("both_sphere")
        ipyvolume.clear()
        if np.any(sel):
            with shown() as out:
                fig = pop.display_obs_fluxes_sphere(show=False, **kw)
            judge(fig, [(sel, None)], "detected, not shown")
            mon.check(out.n == 0, "sphere", f"{what}: show=False displays nothing", n=out.n)
        ipyvolume.clear()

    # -- tables

    def has_table(self, out, params, mon, what, least=None):
        """least: parameters that must be there (others are when they have been used)"""
        want = table(params)
        least = set(want if least is None else least)
        ok = any(least <= set(t) <= set(want) and all(self.equal(t[k], want[k]) for k in t) for t in out.tables)
        mon.check(ok, "tables", f"{what}: a table of {want}", got=out.tables)
        mon.ev("tables")

    @staticmethod
    def equal(a, b):
        if a is None or b is None:
            return a is None and b is None
        try:
            return bool(np.isclose(float(a), float(b), rtol=1e-5, atol=0))
        except (TypeError, ValueError):
            return False

    def judge_tables(self, spec, pop, mon, what):
        with shown() as out:
            pop.display()
        # the name of the population can hold numbers as well
        text = " ".join(out.markdown)
        nums = [int(x) for x in re.findall(r"\d+", text)]
        mon.check((int(np.sum(world.arr(pop.selection))), len(world.arr(pop.fluxes))) in list(zip(nums, nums[1:])), "counts", f"{what}: detected objects and all objects", text=text)
        mon.ev("counts")
        n = 1
        if pop.luminosity_parameters is not None:
            self.has_table(out, pop.luminosity_parameters, mon, f"{what}: luminosity function")
            n += 1
        self.has_table(out, pop.spatial_parameters, mon, f"{what}: spatial distribution")
        mon.check(len(out.tables) == n, "tables", f"{what}: {n} tables", got=len(out.tables))
        for form in (getattr(pop, "_spatial_form", None), getattr(pop, "_lf_form", None)):
            if form and pop.luminosity_parameters is not None:
                mon.check(any(form in x for x in out.latex), "tables", f"{what}: the form {form}", got=out.latex)

    def judge_synth(self, spec, b, mon, what):
        with shown() as out:
            b.synth.display()
        der = world.derived_of(spec)
        n = 1
        self.has_table(out, b.spatial.params, mon, f"{what}: spatial distribution")
        node = {d["name"]: d for d in spec["aux"]}
        P = lambda name: {k: getattr(b.aux[name], k) for k in refs.aux_params(node[name])}
        tops = [t for t in spec["top"] if der is None or t != der["name"]]
        if der is not None:
            self.has_table(out, P(der["name"]), mon, f"{what}: derived luminosity", der["params"])
            n += 1
            tops = sorted(set(tops) | set(der["sec"]))
        elif b.lum is not None:
            self.has_table(out, b.lum.params, mon, f"{what}: luminosity function")
            n += 1
        for t in tops:
            self.has_table(out, P(t), mon, f"{what}: {t}", node[t]["params"])
            mon.check(any(t in m for m in out.markdown), "tables", f"{what}: {t} is named", got=out.markdown)
            n += 1
        mon.check(len(out.tables) == n, "tables", f"{what}: {n} tables", got=len(out.tables))
        mon.ev("synth_tables")
        for t, s in b.aux.items():
            with shown() as out:
                s.display()
            self.has_table(out, P(t), mon, f"{what}: {t} itself", node[t]["params"])
            mon.check(len(out.tables) == 1, "tables", f"{what}: {t} itself: one table")
            text = repr(s)
            mon.check(t in text and all(f"{k}: {v}" in text for k, v in P(t).items()), "printed", f"{what}: {t} printed", text=text, params=P(t))
            mon.ev("sampler_tables")
        for dist in [b.spatial] + ([b.lum] if b.lum is not None else []):
            with shown() as out:
                dist.display()
            self.has_table(out, dist.params, mon, f"{what}: {dist.name}")
            text = repr(dist)
            mon.check(dist.name in text and all(f"{k}: {v}" in text for k, v in dist.params.items()), "printed", f"{what}: {dist.name} printed", text=text)
            mon.check(len(out.tables) == 1, "tables", f"{what}: {dist.name}: one table")
            mon.check(not dist.form or any(dist.form in x for x in out.latex), "tables", f"{what}: {dist.name}: the form", got=out.latex)
            mon.ev("distribution_tables")
        text = repr(b.synth)
        parts = [b.spatial] + [b.aux[t] for t in tops] + ([b.aux[der["name"]]] if der else [b.lum])
        for part in parts:
            mon.check(repr(part) in text, "printed", f"{what}: the synth printed has {part.name}", text=text)

    def judge(self, spec, pop, rng, mon, what):
        self.judge_fluxes(pop, rng, mon, what)
        self.judge_luminosities(pop, rng, mon, what)
        self.judge_distances(pop, rng, mon, what)
        self.judge_tables(spec, pop, mon, what)
        if rng.uniform() < 0.5:
            self.judge_spheres(pop, rng, mon, what)
        if rng.uniform() < 0.3:
            # several things in the same axes
            sel = world.arr(pop.selection)
            d, f, l, L = world.arr(pop.distances), world.arr(pop.fluxes), world.lat(pop.fluxes), world.arr(pop.luminosities)
            ax = plt.subplots()[1]
            pop.display_luminosities(ax=ax)
            pop.display_true_fluxes(ax=ax)
            pop.display_obs_fluxes(ax=ax)
            self.scatter(ax, [cloud(d[sel], L[sel]), cloud(d[~sel], L[~sel]), cloud(d, l), cloud(d[sel], f[sel])], mon, f"{what}: in the same axes")
            plt.close("all")
            mon.ev("two_in_one")

    def run(self, spec, mon):
        gen.progress(spec["progress"])
        rng = np.random.default_rng(spec["seed"] % 2**31)
        plt.close("all")
        b = gen.build(spec)
        self.judge_synth(spec, b, mon, "a new synth")
        pop = gen.draw(b, spec)
        self.judge(spec, pop, rng, mon, "a survey")
        # another value shows in the synth, not in the survey
        names = [t for t in b.aux]
        changed = []
        for dist in [b.spatial] + ([b.lum] if b.lum is not None else []):
            for k, v in dist.params.items():
                if k != "r_max" and isinstance(v, float) and rng.uniform() < 0.5:
                    try:
                        setattr(dist, k, v * (1 + 1e-3))
                        changed.append(k)
                    except Exception:
                        pass
        mon.ev("changed_parameters", len(changed))
        self.judge_synth(spec, b, mon, "a synth with other parameters")
        self.judge_tables(spec, pop, mon, "a survey before the change")
        x = rng.uniform()
        if x < 0.3:
            path = os.path.join(mon.scratch, "p.h5")
            pop.writeto(path)
            self.judge(spec, popsynth.Population.from_file(path), rng, mon, "a reloaded survey")
            mon.ev("reloaded")
        elif x < 0.6:
            o = bool(rng.uniform() < 0.5)
            self.judge(spec, pop.to_sub_population(observed=o), rng, mon, f"a sub-population, observed={o}")
            mon.ev("sub")
        sel = world.arr(pop.selection)
        mon.nontrivial = 0 < sel.sum() < len(sel) and not np.array_equal(world.arr(pop.fluxes), world.lat(pop.fluxes))
        mon.state(spec["spatial"]["kind"], spec["lum"] and spec["lum"]["kind"], sorted(d["kind"] for d in spec["aux"]), sel.sum() == 0, sel.all())


CHECK = C30()
