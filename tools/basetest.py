"""run /opt/vp/test.sh and compare with the stable baseline (helper for development only)"""
import json, subprocess, sys, tempfile, os
out = tempfile.mktemp(suffix=".json")
subprocess.run(["bash", "/opt/vp/test.sh", out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open(out)); os.remove(out)
bad = sorted(set(b["stable"]) - set(o["passed"]))
print("stable", len(b["stable"]), "not passing now:", len(bad)); print("\n".join(bad[:40])); sys.exit(bool(bad))
