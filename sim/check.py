#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE] | --setup"""
import os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, core, thr


def main():
    a = sys.argv[1:]
    if a == ['--setup']:
        import props
        for b in props.BUILDS + thr.BUILDS:
            print(b())
        return 0
    name = a[0]
    if '--replay' in a:
        if name in thr.PROPS:
            v, d, rec = thr.replay(name, a[a.index('--replay') + 1])
            v = [v] if v else []
        else:
            v, d, rec = core.replay_file(name, a[a.index('--replay') + 1])
        for x in v:
            print('  ' + x)
        if v:
            print('VIOLATION property=%s replay=%s' % (name, a[a.index('--replay') + 1]))
            if rec and d != rec:
                print('the execution differs from the recorded one: %s, recorded %s' % (d, rec))
                return 3
            return 1
        print('no violation')
        return 0
    tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    return (thr if name in thr.PROPS else core).check(name, tier, seed)


if __name__ == '__main__':
    try:
        rc = main()
    except build.BuildError as e:
        print('ERROR: %s' % e, file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
