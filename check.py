#!/usr/bin/env python3-vt
"""check.py <property id> quick|thorough"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
sys.setrecursionlimit(10000)
import props

if __name__ == '__main__':
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = props.CHECKS[sys.argv[1]](tier, seed)
    rc = c.main()
    sys.stdout.flush()
    sys.exit(rc)
