import importlib, sys, traceback
from vlib.check import Check, setup_repo
from vlib.tlc import TLCError
def main():
    prop = sys.argv[1]
    setup_repo()
    c = Check(prop)
    mod = importlib.import_module('checks.' + prop.lower())
    try:
        mod.run(c)
    except TLCError as e:
        print('MACHINERY FAILURE', e); return 2
    except Exception as e:
        # the code under test failing outside a replay (for example on import) is a verdict, the machinery failing is not
        tb = traceback.extract_tb(e.__traceback__)
        if not (any(f.filename.startswith('/repo/') for f in tb) or (isinstance(e, (ImportError, SyntaxError)) and 'pynlo' in str(e))):
            traceback.print_exc(); print('MACHINERY FAILURE', e); return 2
        c.violation('outside a replay', 'unexpected %s: %s' % (type(e).__name__, e))
    return c.finish()
if __name__ == '__main__':
    sys.exit(main())
