#!/opt/venv/bin/python
"""run.py ID [--replay FILE]: decides property ID on the working tree of /repo."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    ident = sys.argv[1]
    try:
        from pbt import core
        mod = importlib.import_module('pbt.checks.' + ident.lower())
        code = core.main(mod, sys.argv[2:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print(f'harness error in {ident}', file=sys.stderr)
        code = 3
    sys.stdout.flush()
    os._exit(code)


if __name__ == '__main__':
    main()
