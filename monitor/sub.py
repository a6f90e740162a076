"""
Runs in a process of its own: draws the surveys of the specs in a JSON file
and writes what can be seen of them (a digest for each part).
"""
import json
import random
import sys

import numpy as np
import popsynth

from monitor import gen, world


def main(path, out):
    job = json.load(open(path))
    if job.get("log") == "quiet":
        popsynth.quiet_mode()
    elif job.get("log") == "loud":
        popsynth.loud_mode()
    elif job.get("log") == "debug":
        popsynth.debug_mode()
    popsynth.silence_progress_bars()
    np.random.seed(job.get("state", 0))
    random.seed(job.get("state", 0))
    res = []
    order = job.get("order") or list(range(len(job["specs"])))
    for i in order:
        spec = job["specs"][i]
        gen.progress(spec.get("progress", False))
        b = gen.build(spec)
        S = world.pop_state(gen.draw(b), world.aux_names(spec))
        res.append((i, {k: world.digest(v) for k, v in S.items()}))
    json.dump(dict(res=res, jit=jit_on()), open(out, "w"))


def jit_on():
    import numba

    return not numba.config.DISABLE_JIT


if __name__ == "__main__":
    main(*sys.argv[1:])
