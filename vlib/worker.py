import argparse
import importlib
import json
import os
import sys
import warnings


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    for k in ('tier', 'scratch', 'out', 'known', 'only'):
        ap.add_argument('--' + k, default='')
    for k in ('seed', 'shard', 'nshards'):
        ap.add_argument('--' + k, type=int)
    ap.add_argument('--budget', type=float)
    a = ap.parse_args()
    warnings.simplefilter('ignore')
    from . import core
    import panels
    where = os.path.realpath(panels.__file__)
    if not where.startswith(os.path.realpath(a.scratch) + os.sep):
        sys.exit('panels imported from %s, not from the scratch build' % where)
    work = os.path.join(a.scratch, '_work%d' % a.shard)
    os.makedirs(work, exist_ok=True)
    os.chdir(work)
    only = None
    if a.only:
        k, i = a.only.rsplit('#', 1)
        only = (k, int(i))
    ctx = core.Ctx(a.pid, a.tier, a.seed, a.shard, a.nshards, a.scratch,
                   [k for k in a.known.split(',') if k], a.budget, a.out + '.cur', only)
    mod = importlib.import_module('vlib.checks.' + a.pid.lower())
    # the library prints progress; keep stdout for verdicts
    sys.stdout = open(os.devnull, 'w')
    mod.run(ctx)
    with open(a.out + '.tmp', 'w') as f:
        json.dump(ctx.result(), f)
    os.replace(a.out + '.tmp', a.out)


if __name__ == '__main__':
    main()
