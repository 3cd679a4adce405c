import importlib, json, os, sys, warnings
warnings.simplefilter("ignore")
from pbt import core
prop = sys.argv[1]
importlib.import_module("pbt.props." + prop.lower())
warnings.simplefilter("ignore")
sys.stdout.write("\n" + json.dumps([
    {"name": f.name, "quick": f.quick, "thorough": f.thorough, "shards": f.shards, "cost": getattr(f.check, "cost", 1.0)}
    for (p, _), f in core.FACETS.items() if p == prop]) + "\n")
sys.stdout.flush()
os._exit(0)
