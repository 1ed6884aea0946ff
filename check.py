#!/usr/bin/env python3
"""Decides one property (or, with `all`, every property) on /repo's current tree. Usage: check.py ID [ID...] | all"""
import importlib
import os
import pkgutil
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, os.path.join(HERE, 'engine', 'props'))
sys.dont_write_bytecode = True
import ck
import props


def registry():
    reg = {}
    for m in sorted(pkgutil.iter_modules(props.__path__), key=lambda m: m.name):
        mod = importlib.import_module('props.' + m.name)
        for pid, parts in getattr(mod, 'PROPS', {}).items():
            old = reg.setdefault(pid, [])
            old.extend(parts if isinstance(parts, (list, tuple)) else [parts])
    return reg


def main():
    reg = registry()
    ids = sys.argv[1:]
    if ids == ['all']:
        ids = sorted(reg)
    prog = ck.load()
    rc = 0
    for i in ids:
        if i not in reg:
            print(f'no rule for {i}')
            return 2
        rc |= ck.run_property(i, reg[i], prog, os.environ.get('VERIF_TIER', 'quick'),
                              'Abstract interpretation and dataflow over the MIR of the current tree: all paths of the '
                              'anchored functions are covered by a fixpoint, and each rule instance is decided on the '
                              'resulting abstract paths, call events and values.')
    return rc


if __name__ == '__main__':
    sys.exit(main())
