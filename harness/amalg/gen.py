"""Runs the amalgamation tool of a source tree, with the directory entries in an order of its own,
and asks before everything it does to a file.  gen.py TOOL SEED REQUEST-FD ANSWER-FD ARGS..."""
import importlib.util, os, random, shutil, sys, warnings
warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
tool, seed, req, ans = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
rnd = random.Random(seed)
scandir, listdir = os.scandir, os.listdir
class Entries:
    def __init__(self, es):
        self.es = iter(es)
    def __iter__(self):
        return self.es
    def __next__(self):
        return next(self.es)
    def __enter__(self):
        return self
    def __exit__(self, *a):
        return False
    def close(self):
        pass
def shuffled(x):
    rnd.shuffle(x)
    return x
os.scandir = lambda p=".": Entries(shuffled(sorted(scandir(p), key=lambda e: e.name)))
os.listdir = lambda p=".": shuffled(sorted(listdir(p)))
on = False
def audit(event, args):
    if on and (event == "open" or event.startswith("os.") or event.startswith("shutil.")):
        os.write(req, b"p")
        if os.read(ans, 1) != b"g":
            os._exit(77)
def asking(f):      # contents that are moved in one piece: between the opening of the files and the moving, too
    def g(*a, **k):
        audit("os.write", ())
        return f(*a, **k)
    return g
os.sendfile = asking(os.sendfile)
shutil.copyfileobj = asking(shutil.copyfileobj)
if hasattr(shutil, "_fastcopy_sendfile"):
    shutil._fastcopy_sendfile = asking(shutil._fastcopy_sendfile)
spec = importlib.util.spec_from_file_location("amalgamate", tool)
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)
sys.addaudithook(audit)
on = True
rc = 0
try:
    mod.run_program(sys.argv[5:])
except SystemExit as e:
    rc = e.code or 0
except BaseException as e:
    print("%s: %s" % (type(e).__name__, e), file=sys.stderr)
    rc = 1
on = False
os._exit(rc if isinstance(rc, int) else 1)
