"""Seeded search: run generation, isolation, minimisation, evidence."""

import copy
import gc
import hashlib
import importlib
import json
import os
import resource
import select
import shutil
import signal
import subprocess
import sys
import time
import traceback

from . import gen, sut
from .sut import Hang

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOBODY = 65534
LINE_BUDGET = 30_000_000


class HarnessError(Exception):
    pass


def load_prop(pid):
    return importlib.import_module("sim.props." + pid.lower())


# --------------------------------------------------------------------------
# one isolated run
# --------------------------------------------------------------------------


def scratch_base():
    for b in ("/dev/shm", "/tmp"):
        if os.path.isdir(b) and os.access(b, os.W_OK):
            p = os.path.join(b, "vsim-%08d" % os.getpid())
            shutil.rmtree(p, ignore_errors=True)
            os.mkdir(p)
            os.chmod(p, 0o755)
            return p
    raise HarnessError("no scratch space")


def _child(prop, scn, root, wfd, budget):
    rc = 0
    try:
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        if os.getuid() == 0:
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
        os.umask(0o022)
        os.environ["HOME"] = root
        os.chdir(root)
        if budget:
            left = [LINE_BUDGET]

            def local(frame, event, arg):
                if event == "line":
                    left[0] -= 1
                    if left[0] <= 0:
                        sys.settrace(None)
                        raise Hang()
                return local

            def glob(frame, event, arg):
                return local if frame.f_code.co_filename.startswith(sut.REPO + os.sep) else None

            sys.settrace(glob)
        try:
            res = prop.run(scn, root)
        except Hang:
            res = {"v": {"kind": "hang", "msg": "no progress after %d lines of converter code" % LINE_BUDGET}}
        except MemoryError:
            res = {"v": {"kind": "memory", "msg": "memory exhausted"}}
        except sut.InChild as e:
            if e.repo:
                res = {"v": {"kind": "exception", "msg": str(e)}}
            else:
                res = {"harness": e.tb}
        except Exception as e:
            if sut.from_repo(e):
                res = {"v": {"kind": "exception",
                             "msg": "%s: %s @ %s" % (type(e).__name__, e, sut.where(e))}}
            else:
                res = {"harness": traceback.format_exc()}
        sys.settrace(None)
        data = json.dumps(res).encode()
    except BaseException:
        data = json.dumps({"harness": traceback.format_exc()}).encode()
        rc = 3
    try:
        view = memoryview(data)
        while view:
            n = os.write(wfd, view)
            view = view[n:]
    finally:
        os._exit(rc)


def run_once(prop, scn, slot, wall, budget=False):
    """-> result dict; {'timeout': True} or {'died': status} otherwise"""
    root = os.path.join(slot, "r")
    shutil.rmtree(root, ignore_errors=True)
    os.mkdir(root)
    if os.getuid() == 0:
        os.chown(root, NOBODY, NOBODY)
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        try:
            os.setpgid(0, 0)
        except OSError:
            pass
        _child(prop, scn, root, wfd, budget)
    os.close(wfd)
    parts = []
    end = time.monotonic() + wall
    timeout = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timeout = True
            break
        r, _, _ = select.select([rfd], [], [], left)
        if not r:
            timeout = True
            break
        b = os.read(rfd, 1 << 20)
        if not b:
            break
        parts.append(b)
    os.close(rfd)
    for p in (-pid, pid):
        try:
            os.kill(p, signal.SIGKILL)
        except OSError:
            pass
    _, st = os.waitpid(pid, 0)
    shutil.rmtree(root, ignore_errors=True)
    if timeout:
        return {"timeout": True}
    if not parts:
        return {"died": st}
    res = json.loads(b"".join(parts))
    if res.get("v"):
        # the place of the scratch folder is not part of the result
        res["v"]["msg"] = res["v"]["msg"].replace(root, "<root>")
    return res


def run(prop, scn, slot):
    """Run with the hang classification done deterministically."""
    wall = scn.get("wall") or getattr(prop, "WALL", 30)
    res = run_once(prop, scn, slot, wall)
    if res.get("timeout") and scn.get("wall"):
        # a giant run on a slow machine: no verdict (hangs are for the others)
        return {"v": None, "sig": "", "nt": False, "probes": {"giant_run_given_up": 1}}
    if res.get("timeout"):
        res = run_once(prop, scn, slot, 240, budget=True)
        if res.get("timeout"):
            raise HarnessError("run did not end within the wall limit")
        if not res.get("v") and "harness" not in res:
            res = run_once(prop, scn, slot, 240)
            if res.get("timeout"):
                raise HarnessError("run did not end within the wall limit")
    if "died" in res:
        again = run_once(prop, scn, slot, wall)
        if "died" in again and again["died"] == res["died"]:
            return {"v": {"kind": "died", "msg": "process died, status %d" % res["died"]}}
        if "died" in again or again.get("timeout"):
            raise HarnessError("child died without a result: %r" % again)
        res = again
    if "harness" in res:
        raise HarnessError(res["harness"])
    return res


# --------------------------------------------------------------------------
# minimisation
# --------------------------------------------------------------------------


def _get(scn, path):
    for k in path:
        scn = scn[k]
    return scn


def _lists(scn, specs):
    """Expand paths with '*' into concrete list paths"""
    out = []
    for s in specs:
        acc = [()]
        for k in s:
            nxt = []
            for p in acc:
                try:
                    cur = _get(scn, p)
                except (KeyError, IndexError, TypeError):
                    continue
                if k == "*":
                    if isinstance(cur, list):
                        nxt += [p + (i,) for i in range(len(cur))]
                elif isinstance(cur, dict) and k in cur:
                    nxt.append(p + (k,))
            acc = nxt
        for p in acc:
            if isinstance(_get(scn, p), list):
                out.append(p)
    return out


def minimise(prop, scn, kind, slot, cap):
    end = time.monotonic() + cap
    best = copy.deepcopy(scn)
    tries = 0

    def fails(c):
        nonlocal tries
        tries += 1
        try:
            r = run(prop, c, slot)
        except HarnessError:
            return False
        return bool(r.get("v")) and r["v"]["kind"] == kind

    if hasattr(prop, "simplify"):
        for c in prop.simplify(copy.deepcopy(best)):
            if time.monotonic() > end:
                break
            if fails(c):
                best = c
    changed = True
    while changed and time.monotonic() < end:
        changed = False
        for path in _lists(best, getattr(prop, "SHRINK", ())):
            try:
                cur = _get(best, path)
            except (KeyError, IndexError):
                continue
            n = len(cur)
            size = max(1, n // 2)
            lo = getattr(prop, "KEEP", {}).get(path[-1], 0)
            while size >= 1 and time.monotonic() < end:
                i = 0
                while i < len(_get(best, path)) and time.monotonic() < end:
                    c = copy.deepcopy(best)
                    L = _get(c, path)
                    if len(L) - size < lo:
                        break
                    del L[i:i + size]
                    if len(L) < lo:
                        break
                    if fails(c):
                        best = c
                        changed = True
                    else:
                        i += size
                size //= 2
    return best, tries


# --------------------------------------------------------------------------
# batches
# --------------------------------------------------------------------------


def _worker(prop, seed, tier, idxs, slot, fd, deadline):
    os.makedirs(slot, exist_ok=True)
    os.chmod(slot, 0o755)
    gc.freeze()
    out = os.fdopen(fd, "w", buffering=1)
    for i in idxs:
        if time.monotonic() > deadline:
            out.write(json.dumps({"i": i, "late": True}) + "\n")
            break
        try:
            scn = prop.make(seed, i, tier)
            res = run(prop, scn, slot)
        except HarnessError as e:
            res = {"harness": str(e)}
        except Exception:
            res = {"harness": traceback.format_exc()}
        res["i"] = i
        out.write(json.dumps(res) + "\n")
        if "harness" in res:
            break
    out.close()
    os._exit(0)


def batch(prop, seed, tier, n, workers, base, deadline, sink):
    """Run indices 0..n-1; sink(res) returns True to stop."""
    procs = {}
    sys.stdout.flush()
    for k in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for fd in procs:
                os.close(fd)
            try:
                os.setpgid(0, 0)
            except OSError:
                pass
            _worker(prop, seed, tier, range(k, n, workers), os.path.join(base, "w%02d" % k), w, deadline)
        os.close(w)
        procs[r] = [pid, b""]
    stop = False
    while procs and not stop:
        rd, _, _ = select.select(list(procs), [], [], 5)
        for fd in rd:
            b = os.read(fd, 1 << 20)
            if not b:
                pid = procs[fd][0]
                os.close(fd)
                del procs[fd]
                _, st = os.waitpid(pid, 0)
                if st != 0:
                    raise HarnessError("worker died, status %d" % st)
                continue
            procs[fd][1] += b
            *lines, rest = procs[fd][1].split(b"\n")
            procs[fd][1] = rest
            for ln in lines:
                if sink(json.loads(ln)):
                    stop = True
                    break
            if stop:
                break
    for fd, (pid, _) in procs.items():
        for p in (-pid, pid):
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        os.waitpid(pid, 0)
        os.close(fd)


def _sub_env():
    e = dict(os.environ)
    e.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent", LANG="C.UTF-8", LC_ALL="C.UTF-8")
    return e


def replay_file(pid, path):
    return subprocess.run([sys.executable, "-B", os.path.join(VERIF, "check.py"), pid, "--replay", path],
                          env=_sub_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)


def known_findings(pid):
    out = {}
    with open(os.path.join(VERIF, "known_findings.txt"), encoding="utf-8") as f:
        for ln in f:
            if ln.startswith("finding: property=%s " % pid):
                rest = ln.split(" ", 2)[2].strip()
                fid, what = rest.split(" ", 1)
                out[fid[3:]] = what
    return out


def check(pid, tier, seed, runs=None, workers=None, digest=None):
    t0 = time.monotonic()
    sut.load()
    prop = load_prop(pid)
    n = runs if runs is not None else prop.RUNS[tier]
    workers = workers or min(os.cpu_count() or 1, 8)
    base = scratch_base()
    agg = {"runs": 0, "sigs": set(), "nt": set(), "fired": {}, "m": {}, "probes": {}, "known": {},
           "viol": None, "harness": None, "samples": [], "late": False, "digest": []}

    def add(d, e):
        for k, v in (e or {}).items():
            d[k] = d.get(k, 0) + v

    def sink(res):
        if res.get("late"):
            agg["late"] = True
            return False
        if "harness" in res:
            agg["harness"] = res
            return True
        agg["runs"] += 1
        if res.get("sig"):
            agg["sigs"].add(res["sig"])
            if res.get("nt", True):
                agg["nt"].add(res["sig"])
        add(agg["fired"], res.get("fired"))
        add(agg["m"], res.get("m"))
        add(agg["probes"], res.get("probes"))
        for k in res.get("known", ()):
            agg["known"][k] = agg["known"].get(k, 0) + 1
        if digest is not None:
            agg["digest"].append((res["i"], json.dumps(res, sort_keys=True)))
        if res.get("sample") is not None and len(agg["samples"]) < 6:
            agg["samples"].append({"run": res["i"], "case": res["sample"]})
        if res.get("v"):
            agg["viol"] = res
            return True
        return False

    cap = float(os.environ.get("VERIF_WALL", "0")) or (560 if tier == "quick" else 3 * 3600)
    rc = 0
    replay = None
    try:
        batch(prop, seed, tier, n, workers, base, time.monotonic() + cap, sink)
        if agg["harness"]:
            print("HARNESS ERROR in run %s:\n%s" % (agg["harness"].get("i"), agg["harness"]["harness"]))
            rc = 2
        elif agg["viol"]:
            rc, replay = report(pid, prop, tier, seed, agg["viol"], base)
        elif agg["runs"] == 0:
            print("HARNESS ERROR: no runs")
            rc = 2
    finally:
        shutil.rmtree(base, ignore_errors=True)
    wall = time.monotonic() - t0
    known = known_findings(pid)
    for fid, cnt in sorted(agg["known"].items()):
        if fid in known:
            print("KNOWN-FINDING: property=%s %s: %s (%d runs)" % (pid, fid, known[fid], cnt))
        else:
            print("HARNESS ERROR: unlisted finding %s" % fid)
            rc = rc or 2
    if digest is not None:
        h = hashlib.sha256()
        for i, s in sorted(agg["digest"]):
            h.update(("%d %s\n" % (i, s)).encode())
        with open(digest, "w") as f:
            f.write(h.hexdigest() + "\n")
            for i, s in sorted(agg["digest"]):
                f.write("%d %s\n" % (i, hashlib.sha256(s.encode()).hexdigest()[:20]))
    evidence(pid, prop, tier, seed, n, agg, wall, rc, replay)
    print("%s %s: %d/%d runs, %d distinct traces, %.1f s, faults %s, exit %d" % (
        pid, tier, agg["runs"], n, len(agg["sigs"]), wall,
        sum(agg["fired"].values()), rc))
    return rc


def report(pid, prop, tier, seed, res, base):
    slot = os.path.join(base, "min")
    os.makedirs(slot, exist_ok=True)
    os.chmod(slot, 0o755)
    scn = prop.make(seed, res["i"], tier)
    kind = res["v"]["kind"]
    print("violation in run %d (%s): %s" % (res["i"], kind, res["v"]["msg"]))
    sys.stdout.flush()
    cap = 60 if tier == "quick" else 300
    best, tries = minimise(prop, scn, kind, slot, cap)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", "%s-%d-%d.json" % (pid, seed, res["i"]))
    for cand in (best, scn):
        try:
            r = run(prop, dict(cand, trace=True), slot)
        except HarnessError as e:
            r = {}
        if not r.get("v"):
            continue
        with open(path, "w") as f:
            json.dump({"property": pid, "seed": seed, "run": res["i"], "tier": tier, "kind": r["v"]["kind"],
                       "message": r["v"]["msg"], "minimise_tries": tries, "scenario": cand,
                       "trace": r.get("trace")}, f, indent=1)
        p = replay_file(pid, path)
        if p.returncode == 1:
            print("minimised: %s" % r["v"]["msg"])
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1, path
    print("HARNESS ERROR: violation does not replay: %s" % json.dumps(res["v"]))
    return 2, None


def replay(pid, path):
    sut.load()
    prop = load_prop(pid)
    with open(path) as f:
        doc = json.load(f)
    base = scratch_base()
    try:
        slot = os.path.join(base, "w00")
        os.mkdir(slot)
        os.chmod(slot, 0o755)
        try:
            res = run(prop, doc["scenario"], slot)
        except HarnessError as e:
            print("HARNESS ERROR %s" % e)
            return 2
    finally:
        shutil.rmtree(base, ignore_errors=True)
    if res.get("v"):
        print("%s: %s" % (res["v"]["kind"], res["v"]["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, os.path.abspath(path)))
        return 1
    print("not reproduced")
    return 0


def evidence(pid, prop, tier, seed, n, agg, wall, rc, replay_path):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    m = agg["m"]
    cov = {
        "evaluations": agg["runs"],
        "distinct_nontrivial": len(agg["nt"]),
        "rule": prop.RULE + " A run counts as distinct by the hash of its ordered trace of seam events"
                            " and outputs, as non-trivial when at least one frame was carried and (where the"
                            " property is about faults) at least one fault fired.",
        "samples": agg["samples"],
        "planned_runs": n,
        "stopped_by_wall_limit": agg["late"],
        "seeds": "run i of VERIF_SEED=%d uses sha256(seed|property|i)" % seed,
        "runs_per_hour": round(agg["runs"] / max(wall, 1e-6) * 3600),
        "distinct_traces": len(agg["sigs"]),
        "simulated": m,
        "fault_kinds_fired": dict(sorted(agg["fired"].items())),
        "probes": dict(sorted(agg["probes"].items())),
        "real_components": prop.REAL,
        "simulated_components": prop.STUB,
        "known_findings_seen": agg["known"],
        "replay": replay_path,
    }
    doc = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
           "assumptions": getattr(prop, "ASSUME", []), "wall_s": round(wall, 2),
           "violations": 1 if rc == 1 else 0}
    tmp = os.path.join(d, pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(tmp, os.path.join(d, pid + ".json"))
