"""Child process: runs the code under test on scenarios, one JSON line each.

usage: python -m vh.worker <driver module> <scenarios.ndjson> <out.ndjson>
"""
import importlib
import json
import os
import sys
import traceback
import warnings


def main():
    drv, inp, outp = sys.argv[1:4]
    # installations without the optional parts
    for m in filter(None, os.environ.get("VH_HIDE", "").split(",")):
        sys.modules[m] = None
    warnings.simplefilter("ignore")
    devnull = open(os.devnull, "w")
    sys.stdout = devnull            # the library prints progress messages
    mod = importlib.import_module("vh.drivers." + drv)
    import logging
    logging.disable(logging.CRITICAL)
    with open(inp) as fi, open(outp, "a") as fo:
        for line in fi:
            sc = json.loads(line)
            try:
                obs = getattr(mod, "observe_" + sc["kind"])(sc)
                obs.setdefault("raised", "")
            except Exception as e:      # noqa: BLE001  (the judge decides)
                tb = traceback.extract_tb(e.__traceback__)
                obs = {"raised": type(e).__name__,
                       "detail": (str(e)[:300] + " @ " + " < ".join(
                           f"{os.path.basename(f.filename)}:{f.name}:{f.lineno}" for f in tb[::-1][:4]))}
            fo.write(json.dumps(obs) + "\n")
            fo.flush()


if __name__ == "__main__":
    main()
