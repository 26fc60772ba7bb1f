#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]   (see DESIGN.md)"""
import os, sys, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core
from vlib import checks
def main(a):
    if '--replay' in a:
        rc, data = core.replay(a[a.index('--replay') + 1])
        if rc is None:
            print('re-running the whole check for', data['property'])
            a = [data['property']]
        else: return rc
    prop = a[0]
    tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    env = core.Env(prop, tier, seed)
    try:
        return checks.CHECKS[prop](env)
    except core.CheckError as e:
        print('ERROR: %s' % e, file=sys.stderr); return 2
    except Exception:
        traceback.print_exc(); return 2
    finally:
        env.cleanup()
if __name__ == '__main__':
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    sys.exit(rc)
