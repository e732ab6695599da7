"""A fresh interpreter of the simulated world: other hash seed, other imports
order, nothing shared with the zygote but the files.

usage: python -m sim.fresh REPO DTW JOBFILE OUTFILE
"""
import importlib
import json
import os
import pickle
import sys


def main():
    repo, dtw, jobs, outfile = sys.argv[1:5]
    sys.path.insert(0, repo)
    from sim import actor, zygote
    import warnings
    warnings.simplefilter('ignore')
    import ABXpy
    import ABXpy.distances
    if dtw != '-':
        import ABXpy.distances.metrics
        ABXpy.distances.metrics.dtw = zygote.load_extension(
            dtw, 'ABXpy.distances.metrics.dtw')
    import ABXpy.analyze
    import ABXpy.score
    import ABXpy.task
    import ABXpy.distances.distances
    with open(jobs) as f:
        todo = json.load(f)
    out = []
    for j in todo:
        fn = getattr(importlib.import_module(j['module']), j['fn'])
        o = actor.spawn(j['root'], fn, j['args'], j.get('kw', {}),
                        faults=j.get('faults', ()), seed=j['seed'],
                        np_seed=j.get('np_seed'), tag=j.get('tag', 'f'))
        out.append((o.status, o.value, o.brief(), o.sim))
    with open(outfile, 'wb') as f:
        pickle.dump(out, f)


if __name__ == '__main__':
    main()
    os._exit(0)
