"""Configuration and logging state."""
import json
import os

import numpy as np
import yaml

from monitor.core import Check
from monitor.zygote import Zygote

DEFAULTS = dict(
    logging=dict(debug=False, console=dict(on=True, level="WARNING"), file=dict(on=True, level="WARNING")),
    cosmology=dict(Om=0.307, h0=67.7), show_progress=True,
)
LEVEL = dict(DEBUG=10, INFO=20, WARNING=30, ERROR=40, CRITICAL=50)
SWITCHES = ["silence_warnings", "activate_warnings", "silence_logs", "silence_logs", "activate_logs", "activate_logs", "show_progress_bars", "silence_progress_bars", "quiet_mode", "loud_mode", "debug_mode"]


def merged(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = merged(a[k], v) if isinstance(v, dict) else v
    return out


def r_cfg(rng, p=0.5):
    """Some entries of a configuration file."""
    c = {}

    def put(path, v):
        d = c
        for k in path[:-1]:
            d = d.setdefault(k, {})
        d[path[-1]] = v

    for path, pool in (
        (("logging", "debug"), [True, False]),
        (("logging", "console", "on"), [True, False]),
        (("logging", "console", "level"), ["DEBUG", "INFO", "WARNING", "ERROR"]),
        (("logging", "file", "on"), [True, False]),
        (("logging", "file", "level"), ["DEBUG", "INFO", "WARNING", "ERROR"]),
        (("cosmology", "Om"), [0.3, 0.25, 0.9, 1.0]),
        (("cosmology", "h0"), [70, 50.5, 100.0]),
        (("show_progress",), [True, False]),
    ):
        if rng.uniform() < p:
            put(path, pool[int(rng.integers(0, len(pool)))])
    return c


def r_ops(rng, n, depth=0):
    out = []
    for _ in range(n):
        x = rng.uniform()
        if x < 0.25:
            out.append(["emit", int(rng.integers(0, 4))])
        elif x < 0.28:
            out.append(["bars"])
        elif x < 0.38:
            out.append(["update", str(rng.choice(["DEBUG", "INFO", "WARNING", "ERROR"]))])
        elif x < 0.5 and depth < 3:
            out.append(["console", r_ops(rng, int(rng.integers(0, 4)), depth + 1), bool(rng.uniform() < 0.5)])
        elif depth:
            out.append([str(rng.choice(["silence_warnings", "activate_warnings", "show_progress_bars", "silence_progress_bars"]))])
        else:
            out.append([str(rng.choice(SWITCHES))])
    return out


class Model:
    """The documented state. None: nothing is promised."""

    def __init__(self, cfg):
        lg = cfg["logging"]
        self.on = dict(c=lg["console"]["on"], u=lg["file"]["on"], d=lg["debug"])
        self.u, self.c, self.d = LEVEL[lg["file"]["level"]], LEVEL[lg["console"]["level"]], 10
        self.filt = False
        self.prog = cfg["show_progress"]
        self.silent, self.saved, self.fresh = False, None, False
        self.stack = []

    def apply(self, op, arg):
        if op == "silence_warnings":
            self.filt = True
        elif op == "activate_warnings":
            self.filt = False
        elif op == "show_progress_bars":
            self.prog = True
        elif op == "silence_progress_bars":
            self.prog = False
        elif op == "update":
            self.c = LEVEL[arg]
            self.fresh = False
            if self.silent:
                self.saved = None
        elif op in ("silence_logs", "quiet_mode"):
            if not self.silent:
                self.saved = (self.u, self.c)
            self.u = self.c = self.d = 50
            self.silent, self.fresh = True, False
            if op == "quiet_mode":
                self.prog = False
        elif op == "activate_logs":
            self.d = 10
            if self.silent and self.saved is not None:
                self.u, self.c = self.saved
                self.fresh = True
            elif not self.fresh:
                self.u = self.c = None
            self.silent, self.saved = False, None
        elif op == "loud_mode":
            self.u = self.c = 20
            self.prog = True
            self.fresh = False
            if self.silent:
                # whether it ends the silence is not said
                self.saved, self.silent = None, None
        elif op == "debug_mode":
            self.c = 10
            self.fresh = False
            if self.silent:
                self.saved, self.silent = None, None
        elif op == "console-in":
            self.stack.append((self.u, self.c, self.silent, self.saved, self.fresh))
            self.u = self.c = 40
        elif op == "console-out":
            self.u, self.c, self.silent, self.saved, self.fresh = self.stack.pop()


class C25(Check):
    pid = "C25"
    quick = 55
    thorough = 1500
    quick_s = 60
    rule = "processes with random configuration files making random histories of switches, concurrent and killed first imports with random delays; non-trivial: entries of a configuration file or more than one process"
    required = ("switches", "records", "silenced_warnings", "silenced_twice", "restored", "failing_bodies", "nested", "bars", "imports", "concurrent", "killed", "created", "existing_file", "partial_entries")

    def directed(self, tier):
        out = []
        for i in range(8):
            out.append(dict(kind="import", n=8, cfg=None, seed=i))
        out.append(dict(kind="import", n=3, cfg="", seed=20))
        out.append(dict(kind="import", n=1, cfg=None, seed=21, plain=True))
        out.append(dict(kind="import", n=4, cfg={}, seed=22))
        for i, c in enumerate((dict(show_progress=False), dict(cosmology=dict(Om=0.4)), dict(logging=dict(console=dict(on=False))), dict(logging=dict(file=dict(level="INFO"), debug=True)))):
            out.append(dict(kind="import", n=2, cfg=c, seed=30 + i))
        for i, die in enumerate((1, -1, 2, -2, 3, -3, 4, -4, 5, 6, 7)):
            out.append(dict(kind="import", n=2, cfg=None, seed=40 + i, die=die))
        s, a, q, l, d = ["silence_logs"], ["activate_logs"], ["quiet_mode"], ["loud_mode"], ["debug_mode"]
        e = ["emit", 0]
        ops = []
        for pre in ([], [l], [d], [["update", "ERROR"]], [l, d]):
            for mid in ([s], [s, s], [q, s], [s, q, q], [s, ["silence_warnings"], s, ["activate_warnings"]], [q, ["show_progress_bars"]]):
                ops += pre + [e] + mid + [e, ["bars"]] + [a, e] + [a, e]
        out.append(dict(kind="log", cfg={}, ops=ops, seed=1))
        out.append(dict(kind="log", cfg=dict(logging=dict(debug=True)), ops=ops, seed=2))
        w, v = ["silence_warnings"], ["activate_warnings"]
        ops = [w, e, w, e, v, e, v, e, w, s, a, e, v, ["console", [e, ["console", [e], True], e], False], e, ["console", [["update", "DEBUG"], e], True], e, q, ["console", [], True], e, a, e]
        out.append(dict(kind="log", cfg={}, ops=ops * 3, seed=3))
        return out

    def gen(self, rng, idx, tier):
        if rng.uniform() < 0.3:
            cfg = r_cfg(rng) if rng.uniform() < 0.5 else None
            s = dict(kind="import", n=int(rng.integers(2, 9)), cfg=cfg, seed=int(rng.integers(0, 2**31)))
            if cfg is None and rng.uniform() < 0.4:
                s["die"] = int(rng.choice([-1, 1])) * int(rng.integers(1, 9))
            return s
        return dict(kind="log", cfg=r_cfg(rng, float(rng.choice([0.0, 0.3, 0.6]))), ops=r_ops(rng, 150), seed=int(rng.integers(0, 2**31)))

    def run(self, spec, mon):
        (self.import_ if spec["kind"] == "import" else self.log)(spec, mon)

    # -------------------------------------------------------- helpers

    def home(self, mon, cfg):
        h = os.path.join(mon.scratch, "home")
        os.makedirs(h)
        f = os.path.join(h, ".config", "popsynth", "popsynth_config.yml")
        raw = None
        if cfg is not None:
            os.makedirs(os.path.dirname(f))
            raw = cfg if isinstance(cfg, str) else "# mine\n" + yaml.safe_dump(cfg, default_flow_style=None)
            with open(f, "w") as g:
                g.write(raw)
            os.utime(f, (1.0e9, 1.0e9))
        return h, f, raw

    def untouched(self, mon, f, raw):
        mon.check(open(f).read() == raw and os.stat(f).st_mtime == 1.0e9, "file-modified", "an existing configuration file is not modified")
        mon.ev("existing_file")

    def created(self, mon, f):
        if mon.check(os.path.isfile(f), "file-created", "a missing configuration file is created"):
            got = yaml.safe_load(open(f).read())
            mon.check(got == DEFAULTS, "file-created", "with the defaults", got=got)
            mon.ev("created")

    # -------------------------------------------------------- imports

    def job(self, mon, spec, k, home, go, die=None, tag=""):
        src, dst = (os.path.join(mon.scratch, f"{x}{tag}{k}.json") for x in ("job", "out"))
        json.dump(dict(seed=spec["seed"] * 1000 + k, go=go, plain=spec.get("plain", False), die=die), open(src, "w"))
        return dict(mode="import", home=home, src=src, dst=dst, err=dst + ".err")

    def judge(self, mon, code, dst, want, what):
        mon.ev("imports")
        if not mon.check(code == 0 and os.path.exists(dst), "import", f"{what}: the import succeeds: " + open(dst + ".err").read()[-500:]):
            return
        r = json.load(open(dst))
        mon.check(r["config"] == want, "config", f"{what}: configuration", got=r["config"], want=want)
        mon.check(abs(r["Om"] - want["cosmology"]["Om"]) < 1e-6 and abs(r["h0"] - want["cosmology"]["h0"]) < 1e-4, "cosmology", f"{what}: cosmology", got=[r["Om"], r["h0"]])
        lg = want["logging"]
        mon.check(r["u"] == LEVEL[lg["file"]["level"]] and r["c"] == LEVEL[lg["console"]["level"]], "levels", f"{what}: levels of the handlers", got=[r["u"], r["c"]])
        hs = sorted(k for k, on in (("dev", lg["debug"]), ("usr", lg["file"]["on"]), ("console", lg["console"]["on"])) if on)
        if hs:
            mon.check(len(r["handlers"]) >= 5, "handlers", f"{what}: loggers have handlers", got=r["handlers"])
        for n, got in r["handlers"].items():
            mon.check(got == hs, "handlers", f"{what}: handlers of {n}", got=got, want=hs)
        mon.ev("delayed_operations", r["ops"])

    def import_(self, spec, mon):
        cfg = spec["cfg"]
        home, f, raw = self.home(mon, cfg)
        want = merged(DEFAULTS, cfg if isinstance(cfg, dict) else {})
        go = os.path.join(mon.scratch, "go")
        if spec.get("die"):
            # the first import is killed
            c = Zygote.run([self.job(mon, spec, 99, home, go, die=spec["die"])], go)
            mon.ev("killed", c[0] == 9)
            os.unlink(go)
        jobs = [self.job(mon, spec, k, home, go) for k in range(spec["n"])]
        for k, (j, c) in enumerate(zip(jobs, Zygote.run(jobs, go))):
            self.judge(mon, c, j["dst"], want, f"process {k} of {spec['n']}")
        if raw is not None:
            self.untouched(mon, f, raw)
            mon.ev("partial_entries", bool(cfg))
        else:
            if not spec.get("die"):
                self.created(mon, f)
        if spec["n"] > 1:
            mon.ev("concurrent")
        # and afterwards
        j = self.job(mon, spec, 0, home, go, tag="later")
        self.judge(mon, Zygote.run([j], go)[0], j["dst"], want, "a later process")
        if raw is not None:
            self.untouched(mon, f, raw)
        mon.nontrivial = spec["n"] > 1 or bool(cfg)
        mon.state("import", spec["n"], json.dumps(cfg, sort_keys=True), spec.get("die"), spec["seed"])

    # -------------------------------------------------------- switches

    def log(self, spec, mon):
        home, f, raw = self.home(mon, spec["cfg"])
        want = merged(DEFAULTS, spec["cfg"])
        src, dst = os.path.join(mon.scratch, "job.json"), os.path.join(mon.scratch, "out.json")
        json.dump(dict(ops=spec["ops"]), open(src, "w"))
        err = os.path.join(mon.scratch, "err")
        code = Zygote.run([dict(mode="log", home=home, src=src, dst=dst, err=err)])[0]
        if not mon.check(code == 0, "process", "a history of switches ends normally: " + open(err).read()[-500:]):
            return
        res = json.load(open(dst))
        self.untouched(mon, f, raw)
        mon.check(abs(res["cfg"]["Om"] - want["cosmology"]["Om"]) < 1e-9, "config", "matter density")
        M = Model(want)
        flat = []

        def go(ops):
            for op in ops:
                if op[0] == "console":
                    flat.append(("console-in", None))
                    go(op[1])
                    flat.append(("console-out", op[2]))
                else:
                    flat.append((op[0], op[1] if len(op) > 1 else None))

        go(spec["ops"])
        recs = res["out"]
        mon.check(len(recs) == len(flat) + 1, "process", "all switches were made")
        hist = []
        for (op, arg), r in zip([("start", None)] + flat, recs):
            was = (M.silent, M.saved)
            if op not in ("start", "emit", "bars"):
                M.apply(op, arg)
                mon.ev("switches")
                hist = (hist + [op if op != "update" else f"update {arg}"])[-8:]
            mon.ev("silenced_twice", op in ("silence_logs", "quiet_mode") and was[0] is True)
            mon.ev("restored", op == "activate_logs" and was[0] is True and was[1] is not None)
            s = r["state"]
            if op == "console-out":
                mon.check((r["err"] is not None) == bool(arg), "error-hidden", "an error in the body is passed on", got=r["err"])
                mon.ev("failing_bodies", bool(arg))
                mon.ev("nested", len(M.stack) > 0)
            if op == "console-in" and was[0] is not False:
                # temporarily louder or not: not said
                M.u, M.c = s["u"], s["c"]
            for k in ("u", "c"):
                if getattr(M, k) is None:
                    setattr(M, k, s[k])
            ok = mon.check((s["u"], s["c"]) == (M.u, M.c), "levels", f"levels (file, console) after {hist}", got=[s["u"], s["c"]], want=[M.u, M.c], config=spec["cfg"])
            ok &= mon.check(s["d"] == M.d, "dev-level", f"level of the developer log after {hist}", got=s["d"], want=M.d)
            ok &= mon.check((s["fu"] > 0, s["fc"] > 0) == (M.filt, M.filt), "warning-filter", f"warnings are filtered only while silenced, after {hist}", got=[s["fu"], s["fc"]], want=M.filt)
            ok &= mon.check(s["prog"] == M.prog, "progress", f"progress flag after {hist}", got=s["prog"], want=M.prog)
            if op == "emit":
                for w in ("c", "u", "d"):
                    for l, n in r["emit"][w].items():
                        l = int(l)
                        exp = M.on[w] and l >= getattr(M, w) and not (w != "d" and l == 30 and M.filt)
                        ok &= mon.check(n == int(exp), "records", f"a record of level {l} is {'' if exp else 'not '}written once by {dict(c='the console', u='the user log', d='the developer log')[w]} after {hist}", times=n, config=spec["cfg"])
                        mon.ev("records")
                        mon.ev("silenced_warnings", l == 30 and M.filt and w != "d")
            if op == "bars":
                ok &= mon.check(r["bars"] == M.prog, "bars", f"progress bars are shown iff wanted, after {hist}", got=r["bars"], want=M.prog)
                mon.ev("bars")
            mon.state(M.u, M.c, M.d, M.filt, M.prog, M.silent, M.saved)
            if not ok:
                break
        mon.nontrivial = len(flat) > 10


CHECK = C25()
