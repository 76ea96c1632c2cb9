"""check.py <property>: runs one check (VERIF_SEED, VERIF_TIER)."""

import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

import lib  # noqa: E402


def main():
    prop = sys.argv[1]
    ctx = lib.Ctx(prop)
    try:
        mod = importlib.import_module(prop.lower())
        rc = mod.run(ctx)
    except lib.MachineryError as e:
        print('CHECK ERROR (%s): %s' % (prop, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        print('CHECK ERROR (%s)' % prop)
        rc = 2
    finally:
        ctx.close()
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == '__main__':
    main()
