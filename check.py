#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]   (exit 0 held, 1 VIOLATION, 3 error of the check)"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks

def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    return checks.run(pid, tier)
if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
