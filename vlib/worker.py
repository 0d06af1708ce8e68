"""Runs a slice of a property's cases inside an instrumented Python process.

  worker.py MODULE SEED TIER LOG STATUS FIRST STRIDE TOTAL

Before a case starts, its number goes to STATUS, so that the runner knows which
case killed the process. LOG receives one JSON line per event.
"""
import gc
import importlib
import json
import os
import random
import sys
import time
import traceback
import warnings

warnings.filterwarnings("ignore")


class Violation(Exception):
    """key: stable signature of what went wrong; msg: human-readable witness."""
    def __init__(self, key, msg):
        Exception.__init__(self, key, msg)
        self.key, self.msg = key, msg


class Skip(Exception):
    """The generated case is outside the property's domain."""


class Recorder(object):
    def __init__(self):
        self.counts, self.sigs, self.samples, self.note = {}, set(), [], ""
        self.status_fd = None
        self.case = None

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sig(self, *parts):
        """Signature of a distinct, non-trivial observation."""
        self.sigs.add(hash(parts) & 0xFFFFFFFFFFFFFFFF)

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(str(text)[:400])

    def step(self, text):
        """What is being executed right now (kept for crash reports)."""
        data = ("%d\n%s" % (self.case, text)).encode("utf-8", "replace")[:4000]
        os.pwrite(self.status_fd, data + b"\0" * (4096 - len(data)), 0)


def main():
    import ctypes
    ctypes.CDLL(None).prctl(1, 9)          # do not outlive the runner
    module, seed, tier, log, status, first, stride, total = sys.argv[1:9]
    seed, first, stride, total = int(seed), int(first), int(stride), int(total)
    only = os.environ.get("VERIF_ONLY_CASE")
    mod = importlib.import_module("checks." + module)
    out = open(log, "a", buffering=1)
    rec = Recorder()
    rec.status_fd = os.open(status, os.O_RDWR | os.O_CREAT)
    rec.case = -1
    rec.step("start")
    rec.tier = tier
    if hasattr(mod, "setup"):
        mod.setup(rec)
    t0 = time.time()
    i = first
    nviol = 0
    while i < total:
        rec.case = i
        rec.step("begin")
        rng = random.Random("%s/%d/%d" % (module, seed, i))
        try:
            mod.run_case(rng, rec, i)
            rec.count("cases")
        except Skip:
            rec.count("skipped")
        except Violation as v:
            nviol += 1
            out.write(json.dumps({"ev": "violation", "case": i, "key": v.key, "msg": v.msg[:6000]}) + "\n")
        except Exception:
            # never happens on the unchanged tree (checked over many seeds): the
            # library returned something the monitor could not even read
            nviol += 1
            tb = traceback.format_exc()
            out.write(json.dumps({"ev": "violation", "case": i, "key": "monitor could not interpret the result: "
                                  + tb.strip().split("\n")[-1][:100], "msg": tb[-3000:]}) + "\n")
        if nviol > 200:
            break
        i += stride
        if (i // stride) % 200 == 0:
            gc.collect()
    out.write(json.dumps({"ev": "done", "counts": rec.counts, "sigs": [format(s, "x") for s in rec.sigs],
                          "samples": rec.samples, "s": round(time.time() - t0, 2)}) + "\n")
    rec.case = -2
    rec.step("end")
    out.close()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


if __name__ == "__main__":
    # the class objects must be the ones the checks import
    sys.modules["vlib.worker"] = sys.modules["__main__"]
    main()
