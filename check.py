#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]: decides one property of /repo's current tree."""
import argparse, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    if a.setup or not a.prop:
        # nothing is prebuilt: every check compiles the current tree itself; this only checks the tools
        import subprocess, z3, jsonschema
        for t in ('clang++-18', 'llvm-dis-18', 'g++'):
            subprocess.run([t, '--version'], stdout=subprocess.DEVNULL, check=True)
        print('tools present')
        return 0
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    sys.setrecursionlimit(20000)
    import props
    return props.run(a.prop, tier, seed)


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    sys.stdout.flush()
    sys.exit(rc)
