"""Runs one harness and writes its result as JSON."""
import json
import sys
import time
import traceback


def main():
    prop, name, tier, seed, secs, out = sys.argv[1:7]
    from .run import run_harness

    t = time.time()
    try:
        res = run_harness(prop, name, tier, int(seed), t + float(secs))
    except BaseException:
        res = {"harness": name, "error": traceback.format_exc()[-4000:]}
    res["wall_s"] = round(time.time() - t, 2)
    with open(out, "w") as f:
        json.dump(res, f)


if __name__ == "__main__":
    main()
