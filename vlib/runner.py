#!/usr/bin/env python3
"""runner.py CHECK [--seed N] [--tier quick|thorough] [--cases N] [--case I] [--variant V]

Builds the instrumented library from /repo's working tree, runs the workload of
checks/CHECK.py in worker processes, watches them, and decides.
Exit 0: held on everything explored. Exit 1: VIOLATION line(s). Exit 2: the check
itself failed (build error, harness error, too little observed).
"""
import argparse
import hashlib
import importlib.util
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B

STALL = 240         # seconds without progress before a worker counts as hung


def load_meta(check):
    """META dict of checks/<check>.py, without importing it (it needs the venv)."""
    import ast
    src = open(os.path.join(VERIF, "checks", check + ".py")).read()
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") == "META":
            return ast.literal_eval(node.value)
    raise SystemExit("no META in check " + check)


def load_known(prop):
    """Open entries of known_findings.txt. 'fixed:' lines suppress nothing."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("open: "):
                e = json.loads(line[6:])
                if e["property"] == prop:
                    out.append(e)
    return out


def start_repros(known, env, tmp):
    """Runs each finding's own reproducer (exit status 0: it no longer fails)."""
    procs = []
    for e in known:
        if e.get("repro"):
            p = subprocess.Popen([B.PY, "-c", "import numpy as np, awkward as ak\n" + e["repro"]], env=env, cwd=tmp,
                                 stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
            procs.append((e, p))
    return procs


FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?|\(\S+\))(:\d+)?(:\d+)?$", re.M)


def crash_key(log, rc):
    """Stable name of a sanitizer report or signal: kind + innermost repository function."""
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", log) or re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", log)
    kind = m.group(1) if m else None
    if kind is None:
        m = re.search(r"runtime error: (.+)", log)
        if m:
            kind = "UB " + re.sub(r"0x[0-9a-f]+|-?\d[\d.e+]*", "N", m.group(1))[:80]
    if kind is None:
        m = re.search(r"terminate called after throwing an instance of '([^']+)'", log)
        kind = "terminate " + m.group(1) if m else "exit %s" % rc
    where = ""
    for fn, path, _, _ in FRAME.findall(log):
        if "/src/" in path or "/include/awkward" in path:
            where = re.sub(r"\(.*|<.*", "", fn).split("::")[-1] + "@" + os.path.basename(path.split(":")[0])
            break
    return "crash %s %s" % (kind, where)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--case", type=int, help="run this one case only")
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--workers", type=int, default=os.cpu_count())
    ap.add_argument("--explore", action="store_true", help="list everything, print keys")
    a = ap.parse_args()
    meta = load_meta(a.check)
    prop = meta["property"]
    t0 = time.time()
    stall = meta.get("stall", STALL)
    variant = meta.get("variant", "asan")
    try:
        pkg, binfo = B.build(variant)
        for v in meta.get("extra_variants", []):
            B.build(v)
    except B.BuildError as e:
        print("BUILD-ERROR property=%s\n%s" % (prop, e))
        return 2
    total = a.cases or meta["cases"][a.tier]
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % a.check)
    env = B.env_for(variant)
    env["TMPDIR"] = tmp
    env["VERIF_TMP"] = tmp
    env["VERIF_TIER"] = a.tier
    env["VERIF_SEED"] = str(a.seed)
    env.update(meta.get("env", {}))
    W = max(1, min(a.workers, total, meta.get("workers", 64)))
    if a.case is not None:
        W, first0, stride, total = 1, a.case, 10**9, a.case + 1
    else:
        first0, stride = a.first, W
        total += a.first

    events, crashes, hangs, harness = [], [], [], []
    restarts = 0

    class Worker(object):
        def __init__(self, k):
            self.k, self.next = k, first0 + k
            self.log = os.path.join(tmp, "log%d" % k)
            self.status = os.path.join(tmp, "status%d" % k)
            self.err = os.path.join(tmp, "err%d" % k)
            self.proc = None
            self.gen = 0
            self.finished = False

        def start(self):
            self.gen += 1
            open(self.status, "wb").write(b"\0" * 4096)
            self.lastprog, self.laststat = time.time(), None
            self.errf = open(self.err, "wb")
            self.proc = subprocess.Popen(
                [B.PY, os.path.join(HERE, "worker.py"), a.check, str(a.seed), a.tier, self.log, self.status,
                 str(self.next), str(stride), str(total)],
                env=env, cwd=tmp, stdout=self.errf, stderr=subprocess.STDOUT, start_new_session=True)

        def stat(self):
            raw = open(self.status, "rb").read().split(b"\0")[0].decode("utf-8", "replace")
            if "\n" not in raw:
                return None, ""
            c, t = raw.split("\n", 1)
            return int(c), t

        def stop(self):
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except OSError:
                pass
            self.proc.wait()
            self.errf.close()

    known = load_known(prop)
    repros = start_repros(known, env, tmp) if a.case is None else []
    workers = [Worker(k) for k in range(W)]
    for w in workers:
        w.start()
    live = list(workers)
    crash_limit = 400 if a.explore else 12
    deadline = t0 + meta.get("max_s", {}).get(a.tier, 700 if a.tier == "quick" else 6 * 3600)
    timed_out = False
    while live:
        time.sleep(0.1)
        for w in list(live):
            rc = w.proc.poll()
            st = w.stat()
            if st != w.laststat:
                w.laststat, w.lastprog = st, time.time()
            if rc is None:
                if time.time() - w.lastprog > stall:
                    w.stop()
                    hangs.append((st[0], st[1], w.k))
                    rc = "hang"
                elif time.time() > deadline:
                    w.stop()
                    timed_out = True
                    live.remove(w)
                    continue
                else:
                    continue
            else:
                w.errf.close()
            if rc == 0 and st[0] == -2:
                w.finished = True
                live.remove(w)
                continue
            text = open(w.err, "rb").read().decode("utf-8", "replace")
            if rc != "hang":
                if st[0] is None or st[0] == -1:
                    harness.append("worker %d died before its first case (exit %s):\n%s" % (w.k, rc, text[-3000:]))
                    live.remove(w)
                    continue
                crashes.append({"case": st[0], "key": crash_key(text, rc), "step": st[1], "log": text[-20000:]})
            if len(crashes) + len(hangs) >= crash_limit or len(hangs) >= 3:
                live.remove(w)
                continue
            w.next = st[0] + stride
            if w.next >= total:
                w.finished = True
                live.remove(w)
                continue
            restarts += 1
            w.start()

    counts, sigs, samples = {}, set(), []
    violations = []
    for w in workers:
        if not os.path.exists(w.log):
            continue
        for line in open(w.log):
            try:
                e = json.loads(line)
            except ValueError:
                continue
            if e["ev"] == "violation":
                violations.append(e)
            elif e["ev"] == "harness-error":
                harness.append("case %d: %s" % (e["case"], e["msg"]))
            elif e["ev"] == "done":
                for k, v in e["counts"].items():
                    counts[k] = counts.get(k, 0) + v
                sigs.update(e["sigs"])
                samples.extend(e["samples"][:1])
    for c in crashes:
        violations.append({"case": c["case"], "key": c["key"], "msg": "while: %s\n%s" % (c["step"], c["log"])})
    # a hang is believed only if the case hangs again, alone
    for case, step, k in hangs:
        if case is None or case < 0:
            harness.append("worker hung outside a case")
            continue
        p = subprocess.Popen([B.PY, os.path.join(HERE, "worker.py"), a.check, str(a.seed), a.tier,
                              os.path.join(tmp, "hlog"), os.path.join(tmp, "hstat"), str(case), str(10**9), str(case + 1)],
                             env=env, cwd=tmp, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
        try:
            p.wait(stall)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            violations.append({"case": case, "key": "hang", "msg": "no progress in two runs while: " + step})
            break

    reported, suppressed = [], {}
    for v in violations:
        hit = None
        for e in known:
            if e.get("key") and e["key"] == v["key"]:
                hit = e
                break
        if hit is not None:
            suppressed.setdefault(hit["id"], 0)
            suppressed[hit["id"]] += 1
        else:
            reported.append(v)
    gone = set()
    for e, p in repros:
        try:
            if p.wait(60) == 0:
                gone.add(e["id"])
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
    for e in known:
        if e["id"] in gone:
            print("note: known finding %s no longer fails" % e["id"])
            continue
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, e["id"], e["what"]))

    rdir = os.path.join(VERIF, "replay", prop)
    shutil.rmtree(rdir, ignore_errors=True)
    if reported:
        os.makedirs(rdir, exist_ok=True)
    bykey = {}
    for v in reported:
        bykey.setdefault(v["key"], []).append(v)
    for key, vs in sorted(bykey.items(), key=lambda kv: -len(kv[1])):
        v = min(vs, key=lambda x: len(x["msg"]))
        path = os.path.join(rdir, hashlib.sha1(key.encode()).hexdigest()[:10] + ".txt")
        with open(path, "w") as f:
            f.write("property %s\nkey: %s\nseen %d times\nreplay: cd /verif && python3 vlib/runner.py %s --seed %d --tier %s --case %d\n\n%s\n"
                    % (prop, key, len(vs), a.check, a.seed, a.tier, v["case"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  key: %s (%d times, e.g. case %d)" % (key, len(vs), v["case"]))
        print("  " + v["msg"][: (6000 if a.explore else 1200)].replace("\n", "\n  "))
    evals = counts.get("cases", 0)
    evidence = {
        "property": prop, "tier": a.tier, "seed": a.seed, "level": meta.get("level", "exploration"),
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(sigs), "rule": meta["rule"],
            "samples": samples[:8] or ["none"], "observed": counts, "worker_restarts": restarts,
            "build": binfo, "instrumentation": variant,
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1), "violations": len(reported),
    }
    if suppressed:
        evidence["coverage"]["known_findings_hit"] = suppressed
    if a.case is None and not a.explore:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
    shutil.rmtree(tmp, ignore_errors=True)
    print("%s %s seed=%d: %d cases, %d distinct, %d skipped, %d violations (%d keys), build %ss, total %.1fs"
          % (prop, a.tier, a.seed, evals, len(sigs), counts.get("skipped", 0), len(reported), len(bykey), binfo["build_s"], time.time() - t0))
    if a.explore or os.environ.get("VERIF_VERBOSE"):
        for k, v in sorted(counts.items()):
            print("   %-50s %d" % (k, v))
    if reported:
        return 1
    if harness:
        print("HARNESS-ERROR property=%s (%d)\n%s" % (prop, len(harness), "\n".join(harness[:3])))
        return 2
    if timed_out:
        print("INCONCLUSIVE property=%s: time limit" % prop)
        return 2
    if a.case is None and (evals < 0.5 * (total - a.first) * meta.get("min_fraction", 0.5) or not sigs):
        print("INCONCLUSIVE property=%s: too little observed" % prop)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
