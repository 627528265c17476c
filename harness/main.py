import argparse
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def selftest():
    """Imports every check and the package; runs no case."""
    import glob
    import core              # noqa: F401
    import target            # noqa: F401
    here = os.path.dirname(os.path.abspath(__file__))
    n = 0
    for p in sorted(glob.glob(os.path.join(here, "props", "c*.py"))):
        importlib.import_module("props." + os.path.basename(p)[:-3])
        n += 1
    print(n, "property modules")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--only', action='append')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    a = ap.parse_args()
    if a.prop == "selftest":
        return selftest()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    import core
    import target            # noqa: F401  imports the package under test
    mod = importlib.import_module('props.' + a.prop.lower())
    if a.replay:
        return core.replay(mod.P, a.replay)
    return core.run_prop(mod.P, a.tier, seed, a.only)


if __name__ == '__main__':
    sys.exit(main())
