"""Driver: python -m vp.run P01 [--tier quick|thorough] [--replay F] [--seed N] [--only check]"""
import argparse
import importlib.util
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib

from . import boot

QUICK_BUDGET = float(os.environ.get("VERIF_QUICK_S", "150"))
THOROUGH_BUDGET = float(os.environ.get("VERIF_THOROUGH_S", "600"))
THOROUGH_SCALE = 5
WORKERS = 8


def load(pid):
    path = os.path.join(boot.VERIF, "props", pid + ".py")
    spec = importlib.util.spec_from_file_location("props_" + pid, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.P


BOOST = dict(P01=6, P02=4, P03=3, P04=6, P05=6, P06=5, P07=6, P08=5, P09=6, P10=4, P12=8, P13=4, P14=4, P15=4, P16=6, P27=2, P28=2, P30=3, P31=2, P32=2,
             P35=2, P36=2)


def load_known(pid):
    path = os.path.join(boot.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))["findings"] if k["property"] == pid]


def write_replay(pid, check, fail, seed, tier):
    d = os.path.join(os.environ.get("VP_OUT", boot.VERIF), "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{check}.json")
    with open(path, "w") as fh:
        json.dump(dict(property=pid, check=check, case=fail["case"], message=fail["message"], sig=fail["sig"],
                       seed=seed, tier=tier), fh, indent=1)
    return path


def fork_task(fn, out):
    """Run fn() in a forked child; its dict goes to `out` as JSON."""
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        return pid
    code = 0
    try:
        os.setpgid(0, 0)
        # whatever pymoo prints is not ours to show
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        r = fn()
        boot.cover_dump("task")
        with open(out + ".tmp", "w") as fh:
            json.dump(r, fh)
        os.rename(out + ".tmp", out)
    except BaseException:
        code = 70
        with open(out + ".err", "w") as fh:
            traceback.print_exc(file=fh)
    finally:
        os._exit(code)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--no-build", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    if not a.no_build:
        boot.build()
    boot.setup()
    from . import core

    P = load(a.prop)

    if a.replay:
        r = json.load(open(a.replay))
        t, bad = core.run_case(P.checks[r["check"]], r["case"])
        if bad:
            print(f"check {r['check']}: {bad[0]}")
            print(f"VIOLATION property={P.id} replay={a.replay}")
            return 1
        print("the case passes")
        return 0

    if P.warmup:
        P.warmup()
    known = load_known(P.id)
    scratch = tempfile.mkdtemp(prefix=f"vp-{P.id}-")
    os.environ["VP_SCRATCH"] = scratch
    cwd0 = os.getcwd()
    budget = QUICK_BUDGET if a.tier == "quick" else THOROUGH_BUDGET
    deadline = t0 + budget
    checks = [c for n, c in P.checks.items() if a.only is None or n == a.only]

    tasks = []
    for c in checks:
        n = c.quick if a.tier == "quick" else c.thorough
        shards = c.shards[0] if a.tier == "quick" else c.shards[1]
        if a.tier == "quick":
            # properties whose checks are cheap explore more
            b = BOOST.get(P.id, 1)
            n, shards = n * b, min(8, shards * b)
        n = max(1, int(n * a.scale * (1 if a.tier == "quick" else THOROUGH_SCALE)))
        for s in range(shards):
            tasks.append((c, s, max(1, n // shards)))
    # the longest first
    tasks.sort(key=lambda x: 0)
    running, results, errors, failures = {}, {}, [], []

    def start(i):
        c, s, n = tasks[i]
        out = os.path.join(scratch, f"{i}.json")
        prog = os.path.join(scratch, f"{i}.case")
        sd = zlib.crc32(f"{a.seed}:{P.id}:{c.name}:{s}:{a.tier}".encode())
        wd = os.path.join(scratch, f"wd{i}")
        os.makedirs(wd, exist_ok=True)

        def fn():
            os.chdir(wd)
            return core.search(P, c, n, sd, deadline, known, prog)

        running[fork_task(fn, out)] = i

    # listed findings first: each must still fail in the listed way (else it is simply not printed)
    known_lines = []
    for k in known:
        if a.only is not None and k["check"] != a.only:
            continue
        out = os.path.join(scratch, f"known-{k['id']}.json")

        def fnk(k=k):
            os.chdir(scratch)
            t, bad = core.run_case(P.checks[k["check"]], k["case"])
            return dict(bad=bad)

        pid = fork_task(fnk, out)
        os.waitpid(pid, 0)
        if os.path.exists(out):
            bad = json.load(open(out))["bad"]
            if bad and bad[1] == k["sig"]:
                known_lines.append(f"KNOWN-FINDING: property={P.id} {k['what']}")
            elif bad:
                failures.append((k["check"], dict(case=k["case"], message=bad[0], sig=bad[1])))

    nxt = 0
    hard = deadline + 240
    while nxt < len(tasks) or running:
        while nxt < len(tasks) and len(running) < WORKERS and not (failures and a.tier == "quick"):
            start(nxt)
            nxt += 1
        if not running:
            break
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            if time.time() > hard:
                for p in running:
                    try:
                        os.kill(p, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
            time.sleep(0.02)
            continue
        if pid not in running:
            continue
        i = running.pop(pid)
        c, s, n = tasks[i]
        out = os.path.join(scratch, f"{i}.json")
        if os.path.exists(out):
            r = json.load(open(out))
            results[i] = r
            if r["failure"]:
                failures.append((c.name, r["failure"]))
        elif os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE,
                                                                 signal.SIGABRT, signal.SIGILL):
            case = json.load(open(os.path.join(scratch, f"{i}.case")))
            failures.append((c.name, dict(case=case, message=f"the process died of signal {os.WTERMSIG(status)}",
                                          sig="crash")))
        else:
            err = out + ".err"
            errors.append(f"{c.name}/{s}: status {status}\n" + (open(err).read() if os.path.exists(err) else ""))

    os.chdir(cwd0)
    ev = sum(r["evaluations"] for r in results.values())
    nt = set()
    per = {}
    for i, r in results.items():
        c = tasks[i][0].name
        nt.update(c + h for h in r["nontrivial"])
        d = per.setdefault(c, dict(evaluations=0, distinct_nontrivial=0, labels={}))
        d["evaluations"] += r["evaluations"]
        d["distinct_nontrivial"] += len(r["nontrivial"])
        for k, v in r["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + v
    samples = []
    for i, r in results.items():
        for smp in r["samples"][:1]:
            samples.append(dict(check=tasks[i][0].name, case=smp))
    samples = samples[:12]
    rc = 0
    if failures:
        rc = 1
    elif errors or any(c.name not in per for c in checks):
        rc = 3
    evid = dict(
        property=P.id, tier=a.tier, seed=a.seed, level="exploration",
        coverage=dict(evaluations=ev, distinct_nontrivial=len(nt), rule=P.rule, samples=samples, per_check=per,
                      known_findings=[l for l in known_lines]),
        assumptions=P.assumptions, wall_s=round(time.time() - t0, 2), violations=len(failures))
    if a.only is None:
        os.makedirs(os.path.join(os.environ.get("VP_OUT", boot.VERIF), "evidence"), exist_ok=True)
        with open(os.path.join(os.environ.get("VP_OUT", boot.VERIF), "evidence", P.id + ".json"), "w") as fh:
            json.dump(evid, fh, indent=1)
    for l in known_lines:
        print(l)
    for e in errors:
        print("HARNESS ERROR " + e)
    for name, d in per.items():
        lab = " ".join(f"{k}={v}" for k, v in sorted(d["labels"].items()))
        print(f"{P.id} {name}: {d['evaluations']} cases, {d['distinct_nontrivial']} distinct non-trivial {lab}")
    seen = set()
    for name, f in failures:
        if name in seen:
            continue
        seen.add(name)
        path = write_replay(P.id, name, f, a.seed, a.tier)
        print(f"check {name}: {f['message'][:800]}")
        print(f"VIOLATION property={P.id} replay={path}")
    shutil.rmtree(scratch, ignore_errors=True)
    print(f"{P.id} {a.tier} seed={a.seed}: {ev} cases, {len(nt)} non-trivial, {time.time()-t0:.1f} s, exit {rc}")
    return rc


if __name__ == "__main__":
    sys.exit(main())
