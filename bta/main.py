import argparse
import importlib
import os
import sys

from bta import env


def main():
    p = argparse.ArgumentParser()
    p.add_argument('id')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    p.add_argument('--replay')
    p.add_argument('--cases', type=int)
    a = p.parse_args()
    try:
        lib = env.build_extension(os.environ['BTAV_SCRATCH'])
        env.activate(lib)
    except env.BuildError as e:
        print('ERROR: %s' % e)
        return 2
    import logging
    logging.disable(logging.CRITICAL)
    from bta import core
    mod = importlib.import_module('bta.checks.' + a.id.lower())
    return core.run_check(mod, a.seed, a.tier, replay=a.replay, max_cases=a.cases)


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
