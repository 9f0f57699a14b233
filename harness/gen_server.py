# runs the label generator of the tree given as argument, one argument vector
# (a JSON list) per line; answers "ok" or the exception's name
import importlib.util, json, sys, warnings
warnings.simplefilter("ignore")
spec = importlib.util.spec_from_file_location("gen", sys.argv[1])
sys.dont_write_bytecode = True
gen = importlib.util.module_from_spec(spec)
spec.loader.exec_module(gen)
for line in sys.stdin:
    try:
        gen.run_program(json.loads(line)); r = "ok"
    except BaseException as e:
        r = type(e).__name__
    print(r, flush=True)
