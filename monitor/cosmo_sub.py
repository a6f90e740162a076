"""
Runs in a process of its own: cosmological distances, volumes and what
depends on them, for the cosmology of the configuration file and for those
set at run time.
"""
import json
import sys

import numpy as np
import popsynth
from popsynth.utils.cosmology import cosmology

from monitor import gen, world


def main(path, out):
    job = json.load(open(path))
    popsynth.quiet_mode()
    z = np.array(job["z"])
    dists = [gen.build_spatial(d) for d in job["spatial"]]
    probe = gen.build_aux(dict(kind="probe_d", name="probe", observed=False, params={}))
    probe._distance = z
    res = []
    for step in [None] + job["steps"]:
        if step is not None:
            for k, v in step.items():
                setattr(cosmology, k, v)
        r = dict(Om=float(cosmology.Om), h0=float(cosmology.h0), dh=float(cosmology.dh), jit=type(cosmology).__module__.startswith("numba"))
        r["dl"] = [float(x) for x in cosmology.luminosity_distance(z)]
        r["dl1"] = [float(cosmology.luminosity_distance(float(x))) for x in z]
        r["dm"] = [float(x) for x in cosmology.comoving_transverse_distance(z)]
        r["dv"] = [float(x) for x in cosmology.differential_comoving_volume(z)]
        r["dv1"] = [float(cosmology.differential_comoving_volume(float(x))) for x in z]
        r["zero"] = float(cosmology.luminosity_distance(0.0))
        r["probe"] = [float(x) for x in probe.luminosity_distance]
        r["spatial"] = []
        for d in dists:
            r["spatial"].append(dict(
                dv=[float(x) for x in d.differential_volume(z)],
                flux=[float(x) for x in d.transform(1e50, z)],
            ))
        np.random.seed(job.get("seed", 5))
        pop = gen.draw(gen.build(job["survey"]))
        r["survey"] = dict(r=world.arr(pop.distances).tolist(), L=world.arr(pop.luminosities).tolist(), f=world.arr(pop.fluxes.latent).tolist(), n=int(pop.n_objects))
        res.append(r)
    json.dump(res, open(out, "w"))


if __name__ == "__main__":
    main(*sys.argv[1:])
