"""Draw surveys in a fresh process: reads a JSON job on stdin."""

import json
import os
import sys


def encode(a):
    import numpy as np

    a = np.asarray(a)
    if a.dtype.kind == "b":
        return {"b": a.astype(int).tolist()}
    if a.dtype.kind in "iu":
        return {"i": a.tolist()}
    return {"f": [float(x).hex() for x in a.ravel()]}


def plain(d):
    import numpy as np

    if isinstance(d, dict):
        return {str(k): plain(v) for k, v in d.items()}
    if isinstance(d, (list, tuple)):
        return [plain(x) for x in d]
    if isinstance(d, np.ndarray):
        return [plain(x) for x in d.tolist()]
    if isinstance(d, (bool, np.bool_)):
        return bool(d)
    if isinstance(d, (int, np.integer)):
        return int(d)
    if isinstance(d, (float, np.floating)):
        return float(d).hex()
    if isinstance(d, bytes):
        return d.decode()
    return d


def record(pop):
    """Everything a survey consists of, as JSON."""
    from . import gen

    return dict(
        arrays={k: encode(v) for k, v in gen.arrays(pop).items()},
        truth=plain(pop.truth), config=plain(pop.pop_synth),
        spatial=plain(pop.spatial_parameters), lf=plain(pop.luminosity_parameters),
        sigma=plain(pop.flux_sigma),
        nodes=sorted(pop.graph.nodes), edges=sorted(map(list, pop.graph.edges)),
    )


def main():
    job = json.load(sys.stdin)
    out = os.dup(1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    from . import env

    env.setup()
    from . import gen
    import numpy as np
    import popsynth

    if job.get("progress"):
        popsynth.show_progress_bars()
    res = []
    for spec in job["specs"]:
        if job.get("noise") is not None:
            np.random.seed(job["noise"])
            np.random.uniform(size=7)
        b = gen.build(spec)
        res.append(record(b.synth.draw_survey(**spec["draw"])))
    if job.get("cosmology"):
        c = popsynth.cosmology
        vals = []
        for item in job["cosmology"]:
            c.Om, c.h0 = item["Om"], item["h0"]
            z = np.array(item["z"])
            vals.append([[float(x) for x in f(z)] for f in
                         (c.luminosity_distance, c.differential_comoving_volume,
                          c.comoving_transverse_distance)])
        res = dict(records=res, cosmology=vals)
    with os.fdopen(out, "w") as f:
        f.write(json.dumps(res))


if __name__ == "__main__":
    main()
