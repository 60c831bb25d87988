#!/opt/venv/bin/python
"""run.py --prop C01 [--tier quick|thorough]   run a property's check
run.py --replay FILE                            re-run one saved failing case"""
import argparse
import glob
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"
EXIT_ERROR = 3


def load(prop):
    """Import the property modules; only those that mention the id."""
    from vk import core
    for f in sorted(glob.glob(os.path.join(HERE, "props", "*.py"))):
        with open(f, encoding="utf-8") as fh:
            if '"%s"' % prop in fh.read():
                importlib.import_module("props." + os.path.basename(f)[:-3])
    return core.REGISTRY.get(prop, [])


def derived(*parts):
    return int.from_bytes(hashlib.sha256(":".join(map(str, parts)).encode()).digest()[:6], "big")


def base_env(scratch, hashseed):
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=str(hashseed), MPLBACKEND="Agg",
               LC_ALL="C.UTF-8", TZ="UTC", SCIKIT_MINE_DATA=os.path.join(scratch, "data"),
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
               PYTHONWARNINGS="ignore", TMPDIR=scratch, JOBLIB_TEMP_FOLDER=scratch)
    env["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(scratch, "hyp")
    env["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    env.pop("PYTHONPATH", None)
    return env


# ----------------------------------------------------------------- worker
def worker(a):
    out = open(a.out + ".log", "w")
    os.dup2(out.fileno(), 1)
    os.dup2(out.fileno(), 2)
    import warnings
    warnings.filterwarnings("ignore")
    res = {"subs": {}, "error": None, "failure": None}
    try:
        from vk import core
        core.setup_hypothesis()
        core.setup_repo()
        subs = load(a.prop)
        if a.only:
            subs = [s for s in subs if s.name in a.only.split(",")]
        for s in subs:
            f = run_sub(core, s, a, res)
            if f:
                res["failure"] = f
                break
            if os.path.exists(a.stop) or time.time() > a.deadline:
                break
    except BaseException:
        res["error"] = traceback.format_exc()
    with open(a.out + ".tmp", "w") as fh:
        json.dump(res, fh)
    os.rename(a.out + ".tmp", a.out)
    sys.stdout.flush()
    os._exit(0)


def run_sub(core, s, a, res):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed
    import random
    import numpy as np
    total = s.quick if a.tier == "quick" else s.thorough
    if a.scale != 1.0:
        total = max(1, int(total * a.scale))
    nsh = min(a.shards, s.shards or a.shards)
    n = total // nsh + (1 if a.shard < total % nsh else 0)
    if a.shard >= nsh:
        n = 0
    st = res["subs"].setdefault(s.name, {"eval": 0, "nt": 0, "digests": [], "labels": {}, "samples": [], "wall": 0})
    t0 = time.time()
    digests = set()
    state = {"fail": None, "harness": None}

    def one(case):
        case = json.loads(json.dumps(case))
        random.seed(0)
        np.random.seed(0)
        text = json.dumps(case)
        try:
            nt, labels = core.run_case(s, json.loads(text))
        except core.Violation as v:
            if state["fail"] is None:
                open(a.stop, "w").close()
            state["fail"] = {"sub": s.name, "case": case, "msg": str(v), "hashseed": os.environ["PYTHONHASHSEED"]}
            with open(a.out + ".fail.tmp", "w") as fh:
                json.dump(state["fail"], fh)
            os.rename(a.out + ".fail.tmp", a.out + ".fail")
            raise
        if state["fail"] is None:
            st["eval"] += 1
            for lb in labels:
                st["labels"][lb] = st["labels"].get(lb, 0) + 1
            if nt:
                d = core.digest(s.name, case)
                if d not in digests:
                    digests.add(d)
                    if len(st["samples"]) < 3 and len(text) < 1500 and st["eval"] % 7 == 3:
                        st["samples"].append(case)

    fail = None
    try:
        for i, ex in enumerate(s.examples):
            if i % a.shards == a.shard:
                one(ex)
        if n:
            strat = s.strategy() if callable(s.strategy) else s.strategy

            @hseed(derived(a.seed, s.prop, s.name, a.shard))
            @settings(max_examples=n, database=None, deadline=None, print_blob=False,
                      suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                      phases=[Phase.generate, Phase.shrink])
            @given(strat)
            def t(case):
                if state["fail"] is None and st["eval"] % 20 == 0:
                    if os.path.exists(a.stop):
                        raise StopRun()
                    if time.time() > a.deadline:
                        res["truncated"] = True
                        raise StopRun()
                one(case)

            t()
    except StopRun:
        pass
    except core.Violation:
        fail = state["fail"]
    except BaseException as e:
        # hypothesis wraps a failure that does not repeat (Flaky); the violation
        # itself was observed on a valid input, so it still counts
        if state["fail"] is not None and isinstance(e, (hypothesis.errors.Flaky, ExceptionGroup)):
            fail = state["fail"]
            fail["msg"] += " [did not repeat when the same case was run again in this process]"
        else:
            raise
    st["digests"] = sorted(digests)
    st["wall"] = round(time.time() - t0, 2)
    return fail


class StopRun(BaseException):
    pass


# ----------------------------------------------------------------- parent
def known_findings(prop):
    p = os.path.join(HERE, "known_findings.jsonl")
    res = []
    if os.path.exists(p):
        with open(p) as fh:
            for line in fh:
                line = line.strip()
                if line:
                    d = json.loads(line)
                    if d.get("property") == prop and d.get("status") == "known":
                        res.append(d)
    return res


def main_check(a):
    t0 = time.time()
    prop, tier, seed = a.prop, a.tier, a.seed
    scratch = tempfile.mkdtemp(prefix="vk_%s_" % prop)
    procs = []
    shards = a.shards
    rc = EXIT_ERROR
    try:
        stop = os.path.join(scratch, "stop")
        for i in range(shards):
            wd = os.path.join(scratch, "w%d" % i)
            os.mkdir(wd)
            hs = 0 if i == 0 else derived(seed, prop, "hash", i) % 4294967295
            env = base_env(wd, hs)
            outp = os.path.join(scratch, "r%d.json" % i)
            cmd = [PY, os.path.join(HERE, "run.py"), "--worker", "--prop", prop, "--tier", tier, "--seed", str(seed),
                   "--shard", str(i), "--shards", str(shards), "--out", outp, "--stop", stop,
                   "--deadline", str(t0 + a.budget), "--scale", str(a.scale), "--only", a.only or ""]
            os.mkdir(os.path.join(wd, "cwd"))
            procs.append((subprocess.Popen(cmd, cwd=os.path.join(wd, "cwd"), env=env, stdin=subprocess.DEVNULL,
                                           start_new_session=True), outp))
        first_fail = None
        while any(p.poll() is None for p, _ in procs):
            time.sleep(0.05)
            if first_fail is None and os.path.exists(stop):
                first_fail = time.time()
            if first_fail and time.time() - first_fail > a.shrink_s:
                break
            if time.time() - t0 > a.wall:
                break
        timed_out = False
        for p, o in procs:
            if p.poll() is None:
                timed_out = True
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait()
        results, errors, fails = [], [], []
        for i, (p, o) in enumerate(procs):
            if os.path.exists(o):
                with open(o) as fh:
                    r = json.load(fh)
                results.append(r)
                if r["error"]:
                    errors.append(r["error"])
                if r["failure"]:
                    fails.append(r["failure"])
                    continue
            elif first_fail is None or not timed_out:
                log = ""
                if os.path.exists(o + ".log"):
                    with open(o + ".log", errors="replace") as fh:
                        log = fh.read()[-3000:]
                errors.append("worker %d ended (%s) without a result\n%s" % (i, p.returncode, log))
            if os.path.exists(o + ".fail"):
                with open(o + ".fail") as fh:
                    fails.append(json.load(fh))
        rc = report(a, prop, tier, seed, results, errors, fails, t0)
    finally:
        for p, _ in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def report(a, prop, tier, seed, results, errors, fails, t0):
    known = known_findings(prop)
    subs, digs = {}, set()
    samples = []
    for r in results:
        for name, st in r["subs"].items():
            x = subs.setdefault(name, {"evaluations": 0, "distinct_nontrivial": 0, "labels": {}, "max_wall_s": 0, "_d": set()})
            x["evaluations"] += st["eval"]
            x["_d"].update(st["digests"])
            x["max_wall_s"] = max(x["max_wall_s"], st["wall"])
            for k, v in st["labels"].items():
                x["labels"][k] = x["labels"].get(k, 0) + v
            mine = sum(1 for s_ in samples if s_["sub_check"] == name)
            for c in st["samples"][: max(0, 2 - mine)]:
                samples.append({"sub_check": name, "case": c})
    for x in subs.values():
        x["distinct_nontrivial"] = len(x["_d"])
        digs |= x.pop("_d")
        x["labels"] = dict(sorted(x["labels"].items()))
    sys.path.insert(0, HERE)
    rules = json.load(open(os.path.join(HERE, "rules.json"))) if os.path.exists(os.path.join(HERE, "rules.json")) else {}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": sum(x["evaluations"] for x in subs.values()),
                       "distinct_nontrivial": len(digs),
                       "rule": rules.get(prop, ""),
                       "samples": samples, "sub_checks": subs, "workers": a.shards,
                       "cut_short_by_time_budget": any(r.get("truncated") for r in results)},
          "assumptions": ["CPython 3.12 and the pinned dependencies of /opt/venv; single machine",
                          "the oracle in /verif/props is itself correct"],
          "wall_s": round(time.time() - t0, 2), "violations": 1 if fails else 0}
    if os.environ.get("VERIF_EVIDENCE") != "0":  # a trial against a scratch copy leaves the evidence alone
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if fails:
        fails.sort(key=lambda f: len(json.dumps(f["case"])))
        f = fails[0]
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%s.json" % (prop, f["sub"], hashlib.sha256(json.dumps(f["case"]).encode()).hexdigest()[:10]))
        with open(path, "w") as fh:
            json.dump(dict(f, property=prop), fh, indent=1)
        print("sub-check: %s" % f["sub"])
        print("failure: %s" % f["msg"])
        cs = json.dumps(f["case"])
        print("case: %s" % (cs if len(cs) < 2000 else cs[:2000] + "..."))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("ERROR in the check of %s:\n%s" % (prop, errors[0]), file=sys.stderr)
        return EXIT_ERROR
    if not subs:
        print("ERROR: no sub-check for %s" % prop, file=sys.stderr)
        return EXIT_ERROR
    if a.verbose:
        for n, x in subs.items():
            print("  %-28s eval=%d nt=%d wall=%.1f %s" % (n, x["evaluations"], x["distinct_nontrivial"], x["max_wall_s"], x["labels"]))
    print("OK property=%s tier=%s seed=%d cases=%d distinct_nontrivial=%d wall=%.1fs" % (
        prop, tier, seed, ev["coverage"]["evaluations"], len(digs), ev["wall_s"]))
    return 0


def selftest():
    sys.dont_write_bytecode = True
    from vk import core
    core.setup_hypothesis()
    core.setup_repo()
    import hypothesis
    import skmine
    print("hypothesis %s, scikit-mine from %s" % (hypothesis.__version__, os.path.dirname(skmine.__file__)))
    return 0


def replay(path):
    with open(path) as fh:
        f = json.load(fh)
    if os.environ.get("PYTHONHASHSEED") != str(f["hashseed"]) or "VK_REPLAY" not in os.environ:
        scratch = tempfile.mkdtemp(prefix="vk_replay_")
        try:
            env = base_env(scratch, f["hashseed"])
            env["VK_REPLAY"] = "1"
            cwd = os.path.join(scratch, "cwd")
            os.mkdir(cwd)
            return subprocess.call([PY, os.path.join(HERE, "run.py"), "--replay", os.path.abspath(path)],
                                   env=env, cwd=cwd, stdin=subprocess.DEVNULL)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    import random
    import numpy as np
    from vk import core
    core.setup_hypothesis()
    core.setup_repo()
    s = [s for s in load(f["property"]) if s.name == f["sub"]][0]
    random.seed(0)
    np.random.seed(0)
    try:
        core.run_case(s, f["case"])
    except core.Violation as v:
        print("case: %s" % json.dumps(f["case"]))
        print("still fails: %s" % v)
        traceback.print_exc()
        print("VIOLATION property=%s replay=%s" % (f["property"], path))
        return 1
    print("passes")
    return 0


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--shards", type=int, default=8)
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--worker", action="store_true")
    ap.add_argument("--out")
    ap.add_argument("--stop")
    ap.add_argument("--only", default="")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--shrink-s", type=float, default=60, dest="shrink_s")
    ap.add_argument("--budget", type=float, default=None, help="seconds after which no further case is started")
    ap.add_argument("--deadline", type=float, default=0)
    ap.add_argument("--wall", type=float, default=None)
    ap.add_argument("--verbose", "-v", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true", help="the tools and the code under test can be loaded")
    a = ap.parse_args()
    if a.budget is None:
        a.budget = 600 if a.tier == "quick" else 5400
    if a.wall is None:
        a.wall = a.budget + 240
    if a.selftest:
        sys.exit(selftest())
    if a.replay:
        sys.exit(replay(a.replay))
    if a.worker:
        worker(a)
    try:
        sys.exit(main_check(a))
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(EXIT_ERROR)
