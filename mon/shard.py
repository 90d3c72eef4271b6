import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import compat
compat.install()
import lib
name = sys.argv[1]
try:
    module = __import__(name)
    lib.main(module, sys.argv[2:])
except SystemExit:
    raise
except:
    traceback.print_exc()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(5)
