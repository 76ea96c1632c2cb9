"""Worker process: runs scenarios against the code under test in /repo/src."""

import importlib
import json
import os
import signal
import sys
import traceback

if __name__ == '__main__':
    driver, src, dst = sys.argv[1:4]
    try:
        import warnings
        warnings.simplefilter('ignore')
        os.environ['PYTHONWARNINGS'] = 'ignore'
        mod = importlib.import_module('drivers')
        import reor
        assert os.path.abspath(list(reor.__path__)[0]).startswith(os.environ['REPO_SRC']), reor.__path__
        fn = getattr(mod, driver)
    except BaseException:
        traceback.print_exc()
        sys.stdout.flush()
        os._exit(97)
    with open(src) as f:
        scenarios = json.load(f)
    with open(dst, 'a') as out:
        for s in scenarios:
            if mod.HUNG[0] >= 5:      # enough calls that do not return
                out.write(json.dumps({'id': s['id'], 'dropped': True}) + '\n')
                continue
            try:
                t = fn(s)
                t['id'] = s['id']
                line = json.dumps(t)
            except (AttributeError, TypeError, ValueError, IndexError, KeyError):
                # results the driver cannot make sense of
                signal.alarm(0)
                line = json.dumps({'id': s['id'], 'dead': 'unusable-result',
                                   'error': traceback.format_exc()})
            except BaseException:
                signal.alarm(0)
                line = json.dumps({'id': s['id'], 'driver_error': traceback.format_exc()})
            out.write(line + '\n')
            out.flush()
        out.flush()
    os._exit(0)
