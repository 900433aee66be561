#!/usr/bin/env python3
"""check.py PID [--tier quick|thorough]"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(400000)
import core  # noqa: E402

MODS = ['c_basic', 'c_arith', 'c_div', 'c_parse', 'c_math']


def all_checks():
    out = {}
    for m in MODS:
        if os.path.exists(os.path.join(core.HERE, m + '.py')):
            out.update(importlib.import_module(m).CHECKS)
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    c = all_checks()[pid]
    dl = c['deadline']
    if tier == 'thorough':
        dl = c.get('deadline_thorough', 7200)
    sys.exit(core.run_check(
        pid, c['title'], c['make'], tier, c['bounds'], c['outside'], dl,
        checked=c.get('checked', False), explain=c.get('explain', ''),
        stubs=c.get('stubs', ())))


if __name__ == '__main__':
    main()
