"""Once per sandbox: the exact arithmetic must compile and satisfy its specification."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import lib  # noqa: E402

ctx = lib.Ctx('setup')
try:
    cfg = open(os.path.join(lib.SPEC, 'RatTest.cfg')).read()
    ctx.model_check('RatTest', cfg)
    ctx.model_check('FactorisationTest', cfg)
    print('setup: Rat.java compiles and satisfies RatTest.tla')
finally:
    ctx.close()
