"""
Runs in a process of its own: imports popsynth when told to, with delays
around every access to its files, and writes the configuration it got.
"""
import json
import os
import random
import sys
import time

import astropy.constants  # noqa: F401
import numpy  # noqa: F401
import numba  # noqa: F401
import omegaconf
import pandas  # noqa: F401
import pathlib


def main(src, dst):
    job = json.load(open(src))
    rng = random.Random(job["seed"])
    ops = [0]

    def slow(f, name):
        def g(*a, **k):
            if ("popsynth" in str(a[:2]) or name in ("save", "load")) and not job.get("plain"):
                ops[0] += 1
                if job.get("die") == ops[0]:
                    os._exit(9)
                time.sleep(rng.choice([0, 0, 0.001, 0.01, 0.03]))
                r = f(*a, **k)
                time.sleep(rng.choice([0, 0, 0.001, 0.01, 0.03]))
                if job.get("die") == -ops[0]:
                    os._exit(9)
                return r
            return f(*a, **k)

        return g

    for n in ("is_file", "exists", "mkdir", "open"):
        setattr(pathlib.Path, n, slow(getattr(pathlib.Path, n), n))
    for n in ("save", "load"):
        setattr(omegaconf.OmegaConf, n, staticmethod(slow(getattr(omegaconf.OmegaConf, n), n)))
    for n in ("mkdir", "makedirs"):
        setattr(os, n, slow(getattr(os, n), "os." + n))
    open(dst + ".ready", "w").close()
    t = time.time()
    while not os.path.exists(job["go"]) and time.time() - t < 120:
        time.sleep(0.0005)
    import popsynth
    from popsynth.utils.configuration import popsynth_config
    from popsynth.utils import logging as plog

    c = omegaconf.OmegaConf.to_container(popsynth_config)
    from popsynth.utils.cosmology import cosmology

    json.dump(
        dict(
            config=c, ops=ops[0], Om=float(cosmology.Om), h0=float(cosmology.h0),
            u=plog.popsynth_usr_log_handler.level, c=plog.popsynth_console_log_handler.level,
            handlers=handlers(plog), version=popsynth.__version__,
        ),
        open(dst + ".part", "w"))
    os.rename(dst + ".part", dst)


def handlers(plog):
    import logging

    names = {id(plog.popsynth_dev_log_handler): "dev", id(plog.popsynth_usr_log_handler): "usr", id(plog.popsynth_console_log_handler): "console"}
    out = {}
    for n in sorted(logging.root.manager.loggerDict):
        if n.startswith("popsynth."):
            l = logging.getLogger(n)
            if l.handlers:
                out[n] = sorted(names.get(id(h), "?") for h in l.handlers)
    return out


if __name__ == "__main__":
    main(*sys.argv[1:])
