"""Entry point:  python -m ocnnmon.run C07 [--tier quick|thorough] [--seed N]
                 python -m ocnnmon.run C07 --replay replays/C07-....json"""
import argparse
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('MKL_NUM_THREADS', '1')
os.environ['CUDA_VISIBLE_DEVICES'] = ''

from . import core  # noqa

MODULES = ['octree', 'nnops', 'points', 'models', 'system', 'projects', 'data', 'tools', 'api', 'reject', 'resources']


def find(prop):
    for m in MODULES:
        try:
            mod = importlib.import_module('ocnnmon.props.' + m)
        except ModuleNotFoundError as e:
            if 'ocnnmon.props' in str(e):
                continue
            raise
        if prop in mod.KINDS:
            return mod
    raise SystemExit('unknown property ' + prop)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--kind')
    ap.add_argument('-j', type=int, default=None)
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    sys.path.insert(0, core.REPO)
    import torch  # noqa
    import ocnn
    here = os.path.realpath(ocnn.__file__)
    if not here.startswith(os.path.realpath(core.REPO) + '/'):
        print('INCONCLUSIVE: ocnn is imported from %s' % here)
        sys.exit(2)
    core.setup_torch()
    mod = find(args.prop)
    if args.replay:
        data = json.load(open(args.replay))
        mon = core.Mon()
        res = core.run_case(mod, args.prop, data['case'], mon)
        if res:
            print('[%s] %s' % res)
            print('VIOLATION property=%s replay=%s' % (args.prop, args.replay))
            sys.exit(1)
        print('the case passes')
        sys.exit(0)
    if args.kind:
        k = mod.KINDS[args.prop]
        mod.KINDS[args.prop] = {args.kind: k[args.kind]}
        mod.INFO[args.prop] = {}
    code = core.run_property(mod, args.prop, args.tier, args.seed, args.j, args.v)
    sys.stdout.flush()
    os._exit(code)


if __name__ == '__main__':
    main()
