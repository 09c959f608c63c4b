#!/usr/bin/env python3
"""usage: check.py <property id>   (VERIF_SEED, VERIF_TIER from the environment)"""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
MODULES = {}
for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06'): MODULES[p] = 'vf.p_ops'


MODULES['C22'] = 'vf.p_prog'
MODULES['C23'] = 'vf.p_upp'
MODULES['C24'] = 'vf.p_out'
MODULES['C09'] = 'vf.p_hist'
MODULES['C14'] = 'vf.p_disp'
MODULES['C15'] = 'vf.p_elide'
MODULES['C16'] = 'vf.p_sio'
MODULES['C21'] = 'vf.p_lim'
MODULES['C20'] = 'vf.p_thr'
MODULES['C19'] = 'vf.p_cat'
MODULES['C18'] = 'vf.p_cex'
MODULES['C17'] = 'vf.p_cpp'
for p in ('C10', 'C11'): MODULES[p] = 'vf.p_prim'
for p in ('C12', 'C13'): MODULES[p] = 'vf.p_ext'
for p in ('C07', 'C08'): MODULES[p] = 'vf.p_conv'


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2: os.environ['VERIF_TIER'] = sys.argv[2]
    from vf.core import HarnessError
    try:
        rc = importlib.import_module(MODULES[prop]).main(prop)
    except HarnessError as e:
        print('%s: harness error: %s' % (prop, e)); rc = 3
    except Exception:
        traceback.print_exc(); rc = 3
    sys.stdout.flush()
    sys.exit(rc)


main()
