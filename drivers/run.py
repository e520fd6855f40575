"""Driver runner (placo's Python):  run.py <area> <scenario> <seed> <count> <out> [behaviours]

Each case starts with a Reset event; an unexpected exception while a case runs is recorded as a Crash event (the
specifications have no such action).  Exit 3: the harness itself is broken."""
import importlib, json, os, signal, sys, traceback
import numpy as np


class Recorder:
    def __init__(self, path):
        self.f = open(path, "w")

    def __call__(self, e, **kw):
        rec = {"e": e}
        for k, v in kw.items():
            rec[k] = enc(v)
        self.f.write(json.dumps(rec) + "\n")


def enc(v):
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v) if abs(int(v)) < 2 ** 31 - 1 else num(float(v))
    if isinstance(v, (float, np.floating)):
        return num(float(v))
    if isinstance(v, np.ndarray):
        return [enc(x) for x in v]
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    if isinstance(v, dict):
        return {str(k): enc(x) for k, x in v.items()}
    if isinstance(v, str):
        return v
    raise TypeError(f"cannot encode {type(v)}")


def num(x):
    if x != x:
        return "NaN"
    if x in (float("inf"), float("-inf")):
        return "Infinity" if x > 0 else "-Infinity"
    return repr(x)


def main():
    area, scenario, seed, count, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
    try:
        mod = importlib.import_module("d_" + area)
        fn = getattr(mod, "s_" + scenario)
    except Exception:
        traceback.print_exc()
        sys.exit(3)
    rec = Recorder(out)
    if len(sys.argv) > 6:
        cases = [json.loads(x) for k, x in enumerate(open(sys.argv[6])) if k % count == seed]
    else:
        cases = list(range(count))
    for k, case in enumerate(cases):
        rng = np.random.default_rng([seed, k])
        rec("Reset")
        print("case", k, flush=True)
        signal.alarm(60)  # a case that does not end (inside the code under test) kills the driver
        try:
            fn(rng, rec, case)
        except Exception as ex:
            traceback.print_exc()
            rec("Crash", what=str(ex)[:300])
    rec.f.close()


main()
