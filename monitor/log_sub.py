"""
Runs in a process of its own: makes a history of logging and progress
switches and records the state after each of them, and what is really
written.
"""
import contextlib
import io
import json
import logging
import sys

import numpy as np
import popsynth
from popsynth.utils import logging as plog
from popsynth.utils.configuration import popsynth_config

LEVELS = (10, 20, 30, 40, 50)
LOGGERS = ("popsynth.population", "popsynth.distribution", "popsynth.auxiliary_sampler", "popsynth.simulated_variable")


class Boom(Exception):
    pass


def state():
    u, c, d, f = plog.popsynth_usr_log_handler, plog.popsynth_console_log_handler, plog.popsynth_dev_log_handler, plog.warning_filter
    return dict(u=u.level, c=c.level, d=d.level, fu=u.filters.count(f), fc=c.filters.count(f), prog=bool(popsynth_config.show_progress))


COUNT = [0]


def text(h):
    h.flush()
    try:
        return open(h.baseFilename).read()
    except OSError:
        return ""


def emit(which):
    """Log one record of each level; who wrote it?"""
    log = logging.getLogger(LOGGERS[which % len(LOGGERS)])
    marks = {}
    buf = io.StringIO()
    h = plog.popsynth_console_log_handler
    old = h.setStream(buf)
    try:
        for l in LEVELS:
            COUNT[0] += 1
            marks[l] = f"mark-{COUNT[0]:06d}-end"
            log.log(l, marks[l])
    finally:
        h.setStream(old)
    c, u, d = buf.getvalue(), text(plog.popsynth_usr_log_handler), text(plog.popsynth_dev_log_handler)
    return {w: {l: t.count(m) for l, m in marks.items()} for w, t in (("c", c), ("u", u), ("d", d))}


def bars():
    """Is a progress bar shown when distances are drawn?"""
    s = popsynth.ConstantSphericalDistribution()
    s.Lambda = 1.0
    s.r_max = 2.0
    err = io.StringIO()
    st = np.random.get_state()
    with contextlib.redirect_stderr(err):
        s.draw_distance(size=20)
    np.random.set_state(st)
    return len(err.getvalue()) > 0


def do(op, out):
    k = op[0]
    rec = dict(op=k)
    if k == "update":
        popsynth.update_logging_level(op[1])
    elif k == "console":
        r = dict(op="console-in")
        out.append(r)
        err = None
        try:
            with plog.silence_console_log():
                r["state"] = state()
                for o in op[1]:
                    do(o, out)
                if op[2]:
                    raise Boom("inside")
        except Boom:
            err = "Boom"
        rec["op"] = "console-out"
        rec["err"] = err
    elif k == "emit":
        rec["emit"] = emit(op[1])
    elif k == "bars":
        rec["bars"] = bars()
    else:
        getattr(popsynth, k)()
    rec["state"] = state()
    out.append(rec)


def main(path, dst):
    job = json.load(open(path))
    out = []
    out.append(dict(op="start", state=state()))
    for op in job["ops"]:
        do(op, out)
    cfg = dict(Om=float(popsynth_config.cosmology.Om), h0=float(popsynth_config.cosmology.h0))
    json.dump(dict(out=out, cfg=cfg), open(dst, "w"))


if __name__ == "__main__":
    main(*sys.argv[1:])
