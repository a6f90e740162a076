"""
The harness: runs the cases of a check in forked workers, collects what the
monitors observed, writes the evidence and gives the verdict.

Verdicts are three-valued: violated (exit 1), held on what was observed
(exit 0), inconclusive or broken harness (exit 2 / 3).
"""
import hashlib
import importlib
import json
import os
import pickle
import re
import signal
import sys
import time
import traceback

import numpy as np

VERIF = os.environ.get("MON_VERIF", "/verif")
REPO = os.environ.get("MON_REPO", "/repo")
SCRATCH = os.environ.get("MON_SCRATCH", "/tmp")
# significance of every single statistical test: a run makes fewer than 1e5
# of them, so false alarms are expected less than once in 1e4 runs
ALPHA = 1e-9


class CaseTimeout(BaseException):
    pass


class CaseHang(BaseException):
    pass


class StopCase(Exception):
    """The case has already failed and cannot go on."""


def jsonable(x, depth=0):
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray):
        x = np.asarray(x)
        if x.size > 12:
            return {"shape": list(x.shape), "head": [jsonable(v) for v in x.ravel()[:12].tolist()]}
        return [jsonable(v) for v in x.tolist()]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in list(x)[:60]]
    return repr(x)[:300]


class Monitor:
    """What one case observes."""

    def __init__(self, spec, idx, scratch):
        self.spec = spec
        self.idx = idx
        self.counts = {}
        self.states = set()
        self.fails = []
        self.scratch = scratch
        self.nontrivial = False

    def ev(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def state(self, *key):
        self.states.add(hashlib.md5(repr(key).encode()).hexdigest()[:12])

    def fail(self, key, msg, **info):
        if len(self.fails) < 25:
            self.fails.append(dict(key=key, msg=str(msg)[:600], info=jsonable(info)))

    def check(self, cond, key, msg="", **info):
        """Record a violation unless cond. Returns bool(cond)."""
        self.ev("assertions")
        try:
            ok = bool(cond)
        except Exception as e:  # e.g. an array where a bool is needed
            ok = False
            msg = f"{msg} [{type(e).__name__}: {e}]"
        if not ok:
            self.fail(key, msg, **info)
        return ok

    def same(self, a, b, key, msg="", rtol=0.0, atol=0.0):
        """Arrays are equal (bit for bit unless a tolerance is given)."""
        self.ev("assertions")
        try:
            a = np.asarray(a)
            b = np.asarray(b)
            if a.shape != b.shape:
                self.fail(key, f"{msg}: shapes {a.shape} and {b.shape} differ")
                return False
            if a.dtype.kind in "fciub" and b.dtype.kind in "fciub":
                if rtol == 0 and atol == 0:
                    bad = ~((a == b) | ((a != a) & (b != b)))
                else:
                    # values below the smallest normal numbers have no relative accuracy
                    bad = ~(np.isclose(a, b, rtol=rtol, atol=max(atol, 1e-300), equal_nan=True))
            else:
                bad = np.array([x != y for x, y in zip(a.ravel(), b.ravel())], dtype=bool).reshape(a.shape)
        except Exception as e:
            self.fail(key, f"{msg}: cannot be compared [{type(e).__name__}: {e}]")
            return False
        if np.any(bad):
            i = int(np.argmax(np.atleast_1d(bad).ravel()))
            self.fail(
                key,
                f"{msg}: {int(np.sum(bad))} of {bad.size} values differ, first at {i}: "
                f"{a.ravel()[i]!r} and {b.ravel()[i]!r}",
            )
            return False
        return True

    def pvalue(self, p, key, msg="", **info):
        """A statistical test with p-value p."""
        self.ev("assertions")
        self.ev("statistical_tests")
        if not (p > ALPHA):
            self.fail(key, f"{msg} (p-value {p:.3g})", **info)
            return False
        return True

    def raises(self, f, key, msg, exc=Exception):
        self.ev("assertions")
        try:
            f()
        except exc:
            return True
        self.fail(key, f"{msg}: no error was raised")
        return False


class Check:
    pid = None
    level = "exploration"
    rule = ""
    assumptions = ()
    quick = 200  # number of cases
    thorough = 4000
    quick_s = 120.0  # time caps
    thorough_s = 420.0
    case_s = 240  # wall time of a case: inconclusive
    case_cpu = 60  # processor time of a case: it does not end
    required = ()  # events without which the run is inconclusive

    def directed(self, tier):
        """Specs that are always run."""
        return []

    def gen(self, rng, idx, tier):
        raise NotImplementedError

    def run(self, spec, mon):
        raise NotImplementedError


def case_rng(seed, pid, idx):
    return np.random.Generator(
        np.random.PCG64(np.random.SeedSequence([int(seed), int(pid[1:]), int(idx), ord(pid[0])]))
    )


def known_findings(pid):
    out = {}
    try:
        for line in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    except FileNotFoundError:
        pass
    return out


def _alarm(signum, frame):
    raise CaseTimeout()


def _hang(signum, frame):
    raise CaseHang()


def run_case(check, spec, idx, scratch):
    mon = Monitor(spec, idx, scratch)
    t = time.time()
    status = "ok"
    err = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _hang)
    signal.setitimer(signal.ITIMER_REAL, check.case_s)
    signal.setitimer(signal.ITIMER_PROF, check.case_cpu)
    try:
        state = np.random.get_state()
        try:
            check.run(spec, mon)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.setitimer(signal.ITIMER_PROF, 0)
            np.random.set_state(state)
    except StopCase:
        pass
    except CaseTimeout:
        status = "timeout"
    except CaseHang:
        mon.fail("hang", f"{check.case_cpu} s of processor time and no result", traceback=traceback.format_exc()[-2500:])
        mon.ev("hangs")
    except (MemoryError, KeyboardInterrupt):
        status = "harness"
        err = traceback.format_exc()
    except OSError as e:
        status = "harness" if e.errno in (28, 12, 24) else "ok"
        err = traceback.format_exc()
        if status == "ok":
            mon.fail("unexpected-error", f"{type(e).__name__}: {e}", traceback=err[-2500:])
    except Exception as e:
        # a valid workload must not raise: what the code under test raises,
        # or what it returns and no monitor can use, breaks the property
        err = traceback.format_exc()
        mon.fail("unexpected-error", f"{type(e).__name__}: {e}", traceback=err[-2500:])
    return mon, status, err, time.time() - t


def _worker(check, w, nw, items, deadline, path, scratch):
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    errf = os.open(path + ".err", os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(errf, 2)
    import popsynth

    popsynth.quiet_mode()
    nfail = 0
    with open(path, "wb") as f:
        for j, (idx, make) in enumerate(items):
            if j % nw != w:
                continue
            if time.time() > deadline:
                pickle.dump(dict(idx=idx, status="skipped"), f)
                continue
            d = os.path.join(scratch, f"case{idx}")
            os.makedirs(d, exist_ok=True)
            signal.signal(signal.SIGPROF, _hang)
            signal.setitimer(signal.ITIMER_PROF, check.case_cpu)
            try:
                spec = make()
                signal.setitimer(signal.ITIMER_PROF, 0)
            except (Exception, CaseHang) as e:
                signal.setitimer(signal.ITIMER_PROF, 0)
                err = traceback.format_exc()
                if os.path.join(REPO, "popsynth") in err:
                    # the pilot run of a valid workload raised
                    fails = [dict(key="unexpected-error", msg=f"{type(e).__name__}: {e}", info=dict(traceback=err[-2500:]))]
                    pickle.dump(dict(idx=idx, status="ok", err=err, dt=0, spec={"generation": idx}, counts={}, states=set(), fails=fails, nontrivial=False), f)
                    nfail += 1
                    if nfail >= 3:
                        break
                else:
                    pickle.dump(dict(idx=idx, status="harness", err=err), f)
                continue
            mon, status, err, dt = run_case(check, spec, idx, d)
            _rm(d, scratch)
            pickle.dump(
                dict(
                    idx=idx, status=status, err=err, dt=dt, spec=spec, counts=mon.counts,
                    states=mon.states, fails=mon.fails, nontrivial=mon.nontrivial,
                ),
                f,
            )
            f.flush()
            if mon.fails and any(x["key"] not in KNOWN for x in mon.fails):
                nfail += 3 if mon.counts.get("hangs") else 1
                if nfail >= 3:
                    break
        pickle.dump("end", f)
    os._exit(0)


def _rm(d, scratch):
    import shutil

    assert os.path.abspath(d).startswith(os.path.abspath(scratch) + os.sep)
    shutil.rmtree(d, ignore_errors=True)


KNOWN = {}


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--cases", type=int)
    ap.add_argument("--trace", action="store_true")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    pid = a.property
    import popsynth

    got = os.path.dirname(os.path.dirname(os.path.abspath(popsynth.__file__)))
    if os.path.realpath(got) != os.path.realpath(REPO):
        print(f"popsynth was imported from {got}, not from {REPO}", file=sys.stderr)
        return 3
    mod = importlib.import_module(f"monitor.checks.{pid.lower()}")
    check = mod.CHECK
    popsynth.quiet_mode()
    assert check.pid == pid
    KNOWN.update(known_findings(pid))

    if a.replay:
        spec = json.load(open(a.replay))["spec"]
        items = [(0, lambda: spec)]
        nw = 1
        cap = 3600
    else:
        directed = list(check.directed(a.tier))
        n = a.cases if a.cases is not None else (check.quick if a.tier == "quick" else check.thorough)
        items = [(i, s if callable(s) else (lambda s=s: s)) for i, s in enumerate(directed)]
        for i in range(n):
            k = 1000 + i
            items.append((k, lambda k=k: json.loads(json.dumps(check.gen(case_rng(seed, pid, k), k, a.tier), default=jsonable))))
        nw = max(1, a.jobs)
        cap = check.quick_s if a.tier == "quick" else check.thorough_s
    deadline = time.time() + cap
    pids = []
    paths = []
    for w in range(nw):
        path = os.path.join(SCRATCH, f"worker{w}.pkl")
        paths.append(path)
        sys.stdout.flush()
        sys.stderr.flush()
        p = os.fork()
        if p == 0:
            try:
                _worker(check, w, nw, items, deadline, path, SCRATCH)
            except BaseException:
                traceback.print_exc()
                os._exit(4)
        pids.append(p)
    codes = {}
    hard = deadline + check.case_s + 60
    while len(codes) < len(pids):
        for p in pids:
            if p not in codes:
                q, st = os.waitpid(p, os.WNOHANG)
                if q == p:
                    codes[p] = st
        if time.time() > hard:
            for p in pids:
                if p not in codes:
                    os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                    codes[p] = -1
        time.sleep(0.02)

    counts, states, recs, problems = {}, set(), [], []
    for w, path in enumerate(paths):
        ended = False
        try:
            with open(path, "rb") as f:
                while True:
                    r = pickle.load(f)
                    if r == "end":
                        ended = True
                        break
                    recs.append(r)
        except (EOFError, FileNotFoundError, pickle.UnpicklingError):
            pass
        if not ended:
            tail = ""
            try:
                tail = open(path + ".err").read()[-1500:]
            except OSError:
                pass
            problems.append(f"worker {w} ended early (status {codes[pids[w]]}) {tail}")
    recs.sort(key=lambda r: r["idx"])
    done = [r for r in recs if r["status"] == "ok"]
    for r in recs:
        if r["status"] == "harness":
            problems.append(r["err"])
        for k, v in r.get("counts", {}).items():
            counts[k] = counts.get(k, 0) + v
        states |= r.get("states", set())
    timeouts = [r for r in recs if r["status"] == "timeout"]
    skipped = sum(r["status"] == "skipped" for r in recs)

    fails = [(r, x) for r in recs for x in r.get("fails", [])]
    new = [(r, x) for r, x in fails if x["key"] not in KNOWN]
    old = [(r, x) for r, x in fails if x["key"] in KNOWN]

    nontriv = set()
    for r in done:
        if r["nontrivial"]:
            nontriv.add(json.dumps(jsonable(r["spec"]), sort_keys=True)[:4000])
    samples = [jsonable(r["spec"]) for r in done if r["nontrivial"]][:3] or [jsonable(r["spec"]) for r in done[:2]]
    missing = [k for k in check.required if counts.get(k, 0) == 0]

    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    replay = None
    if new:
        replay = os.path.join(evdir, f"{pid}_replay.json")
        r, x = new[0]
        if not a.replay:
            json.dump(
                dict(property=pid, seed=seed, tier=a.tier, case=r["idx"], spec=r["spec"], fails=r["fails"],
                     how=f"./check {pid} --replay {replay}"),
                open(replay, "w"), indent=1, default=jsonable)
        else:
            replay = a.replay
    if not a.replay:
        json.dump(
            dict(
                property=pid, tier=a.tier, seed=seed, level=check.level,
                coverage=dict(
                    evaluations=len(done),
                    distinct_nontrivial=len(nontriv),
                    rule=check.rule,
                    samples=samples,
                    events=dict(sorted(counts.items())),
                    distinct_states=len(states),
                    cases_skipped_for_time=skipped,
                    cases_timed_out=len(timeouts),
                    inconclusive_reasons=missing,
                ),
                assumptions=list(check.assumptions) or ["one process per worker, interpreted numba functions unless stated otherwise"],
                wall_s=round(time.time() - t0, 2),
                violations=len({r["idx"] for r, _ in new}),
            ),
            open(os.path.join(evdir, f"{pid}.json"), "w"), indent=1)

    for k in sorted({x["key"] for _, x in old}):
        print(f"KNOWN-FINDING: property={pid} {k}: {KNOWN[k]}")
    for e in problems:
        print("harness problem:", e, file=sys.stderr)
    for r, x in new[: (40 if a.trace else 6)]:
        print(f"case {r['idx']}: [{x['key']}] {x['msg']}")
        if x["info"].get("traceback"):
            print("   " + x["info"]["traceback"].strip().replace("\n", "\n   ")[-1200:])
        elif x["info"]:
            print("   ", json.dumps(x["info"])[:600])
    print(
        f"{pid} {a.tier} seed={seed}: {len(done)} cases ({skipped} skipped, {len(timeouts)} timed out), "
        f"{counts.get('assertions', 0)} assertions, {len(states)} states, {len({r['idx'] for r, _ in new})} failing cases, "
        f"{time.time() - t0:.1f} s"
    )
    if new:
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    if problems:
        return 3
    if timeouts:
        print(f"inconclusive: {len(timeouts)} cases ran out of time, first {timeouts[0]['idx']}")
        return 2
    if not a.replay and (not done or missing or (not nontriv)):
        print(f"inconclusive: nothing was observed of {missing}")
        return 2
    return 0
