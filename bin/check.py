#!/usr/bin/env python3
"""check.py ID [--thorough]: decides one property. Exit 0, 1 (VIOLATION) or 2 (error)."""
import importlib, os, sys, traceback
if '--thorough' in sys.argv:
    os.environ['VERIF_TIER'] = 'thorough'
import vlib

WHERE = {
    'C21': ('macros', 'c21'), 'C20': ('langs', 'c20'), 'C19': ('syntax', 'c19'),
    'C01': ('streams', 'c01'), 'C02': ('streams', 'c02'), 'C03': ('streams', 'c03'),
    'C18': ('comments', 'c18'),
    'C15': ('files', 'c15'), 'C16': ('files', 'c16'),
    'C10': ('strings', 'c10'), 'C06': ('macros', 'c06'), 'C07': ('macros', 'c07'), 'C08': ('macros', 'c08'),
    'C09': ('strings', 'c09'), 'C12': ('imports', 'c12'), 'C13': ('imports', 'c13'), 'C14': ('imports', 'c14'), 'C17': ('sinks', 'c17'), 'C04': ('streams', 'c04'), 'C05': ('streams', 'c05'), 'C11': ('streams', 'c11'),
}


def main():
    if sys.argv[1] == 'setup':
        vlib.build_core()
        import macros
        macros.build_mac()
        macros.flat()
        try:
            macros.build_mac()
        except vlib.ToolError:
            pass    # for C21 to judge
        return
    mod, fn = WHERE[sys.argv[1]]
    try:
        getattr(importlib.import_module(mod), fn)()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)


main()
