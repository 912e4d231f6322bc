import argparse
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
REPO = os.environ.get('SEGPY_MC_REPO', '/repo')
sys.path[:0] = [REPO, os.path.join(REPO, 'segpy-ext', 'segpy_numpy')]
sys.dont_write_bytecode = True

import warnings
warnings.simplefilter('ignore')
import logging
logging.disable(logging.CRITICAL)


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--tier', choices=('quick', 'thorough'))
    parser.add_argument('--replay')
    parser.add_argument('--jobs', type=int)
    args = parser.parse_args()
    tier = args.tier or os.environ.get('VERIF_TIER') or 'quick'
    from mc import engine
    # Always compile the code under test from its current source, never from a stale bytecode file.
    import json, pickle, hashlib, struct, decimal, fractions, stevedore.extension, docopt_subcommands
    sys.pycache_prefix = '/nonexistent/segpy-mc'
    try:
        import_segpy()
        import segpy
        sys.pycache_prefix = None
        where = os.path.abspath(segpy.__file__)
        if not where.startswith(os.path.abspath(REPO) + os.sep):
            print('HARNESS-ERROR segpy was imported from %s, not from %s' % (where, REPO))
            return 2
        module = importlib.import_module('checks.' + args.property.lower())
    except Exception as e:
        return engine.unusable(args.property, e)
    return engine.main(module.CHECK, tier, replay=args.replay, jobs=args.jobs)


def import_segpy():
    for name in ('ibm_float_packer', 'reader', 'writer', 'toolkit', 'catalog', 'cli', 'dataset', 'trace_header',
                 'binary_reel_header', 'textual_reel_header'):
        importlib.import_module('segpy.' + name)


if __name__ == '__main__':
    sys.exit(main())
