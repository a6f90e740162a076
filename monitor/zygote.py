"""
A process that has imported what popsynth needs, but not popsynth. For each
line it reads it forks the processes of a job, each with a home of its
own, lets them start together and reports how they ended.
"""
import json
import os
import signal
import subprocess
import sys
import time


def preload():
    import astropy.constants, astropy.coordinates, astropy.cosmology, astropy.units  # noqa: F401,E401
    import colorama, h5py, matplotlib.pyplot, networkx, numba, numpy, omegaconf, pandas  # noqa: F401,E401
    import pkg_resources, scipy.integrate, scipy.special, scipy.stats, tqdm.auto, yaml  # noqa: F401,E401

    for m in ("IPython.display", "ipyvolume", "betagen", "class_registry", "dotmap", "colour", "networkx.drawing.nx_agraph"):
        try:
            __import__(m)
        except Exception:
            pass
    assert "popsynth" not in sys.modules


def child(job):
    os.environ["HOME"] = job["home"]
    null = os.open(os.devnull, os.O_RDWR)
    err = os.open(job["err"], os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(null, 0)
    os.dup2(null, 1)
    os.dup2(err, 2)
    sys.stdout = open(1, "w", closefd=False)
    sys.stderr = open(2, "w", closefd=False)
    rc = 1
    try:
        if job["mode"] == "import":
            from monitor import import_sub

            import_sub.main(job["src"], job["dst"])
        else:
            from monitor import log_sub

            log_sub.main(job["src"], job["dst"])
        rc = 0
    except BaseException:
        import traceback

        traceback.print_exc()
    finally:
        sys.stderr.flush()
        os._exit(rc)


def main():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    preload()
    for line in sys.stdin:
        req = json.loads(line)
        pids = []
        for job in req["jobs"]:
            p = os.fork()
            if p == 0:
                child(job)
            pids.append(p)
        codes = {}
        t = time.time()
        gone = False
        while len(codes) < len(pids):
            for p in pids:
                if p not in codes:
                    q, st = os.waitpid(p, os.WNOHANG)
                    if q:
                        codes[p] = os.waitstatus_to_exitcode(st) if hasattr(os, "waitstatus_to_exitcode") else (os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st))
            if req.get("go") and not gone and all(os.path.exists(j["dst"] + ".ready") or p in codes for p, j in zip(pids, req["jobs"])):
                open(req["go"], "w").close()
                gone = True
            if time.time() - t > 150:
                for p in pids:
                    if p not in codes:
                        os.kill(p, signal.SIGKILL)
                        os.waitpid(p, 0)
                        codes[p] = -99
            time.sleep(0.002)
        out.write(json.dumps([codes[p] for p in pids]) + "\n")
        out.flush()


class Zygote:
    """The other side."""

    p = None

    @classmethod
    def run(cls, jobs, go=None):
        if cls.p is None:
            env = dict(os.environ, NUMBA_DISABLE_JIT="1")
            cls.p = subprocess.Popen([sys.executable, "-W", "ignore", "-m", "monitor.zygote"], env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        cls.p.stdin.write(json.dumps(dict(jobs=jobs, go=go)) + "\n")
        cls.p.stdin.flush()
        line = cls.p.stdout.readline()
        if not line:
            raise MemoryError("the zygote ended")
        return json.loads(line)


if __name__ == "__main__":
    main()
