"""Worker: reads task lines (JSON) on stdin, runs them, writes result lines on fd 3's copy of stdout."""
from __future__ import annotations

import faulthandler
import importlib
import json
import os
import sys
import warnings


def main():
    prop = sys.argv[1]
    out = os.fdopen(os.dup(1), "w", buffering=1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.CRITICAL)
    from pbt import core

    try:
        import riptable

        want = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "riptable")
        if os.path.dirname(os.path.abspath(riptable.__file__)) != want:
            raise RuntimeError(f"imported {riptable.__file__}, wanted {want}")
        importlib.import_module("pbt.props." + prop.lower())
    except BaseException as e:
        import traceback

        out.write(json.dumps({"fatal": traceback.format_exc()[-3000:]}) + "\n")
        out.flush()
        os._exit(3)
    warnings.simplefilter("ignore")
    out.write(json.dumps({"ready": True}) + "\n")
    for line in sys.stdin:
        t = json.loads(line)
        if t.get("quit"):
            break
        if t["kind"] == "facet":
            f = core.FACETS[(prop, t["facet"])]
            r = core.run_facet(f, t["seed"], t["n"], t["cur"], t["fail"], t.get("deadline"))
        else:  # replay a literal case
            try:
                core.replay_case(prop, t["facet"], core.loads_case(t["case"]))
                r = {"replay_ok": True}
            except Exception as e:
                import traceback

                r = {"replay_ok": False, "error": f"{type(e).__name__}: {e}"[:3000], "traceback": traceback.format_exc()[-4000:]}
        r["id"] = t["id"]
        out.write(json.dumps(r) + "\n")
    out.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
