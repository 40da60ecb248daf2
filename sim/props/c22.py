"""C22: programs running at the same time do not disturb each other."""

import os
import pickle
import random
import select

from .. import gen, oracle, spec, sut, world
from .common import *  # noqa

RUNS = {"quick": 2600, "thorough": 100000}
SHRINK = [("procs", "*", "sources", "*", "segs"), ("procs", "*", "faults"), ("procs",)]
KEEP = {"procs": 1}
RULE = ("Two to four processes of the program share one disk and convert different sources, or the same source into"
        " different formats. Every process stops before each of its file and directory operations, and a seeded"
        " scheduler decides who goes next, so that every interleaving of these operations can occur; some processes"
        " are killed at a seeded point, some meet storage faults of their own. Folders (products and log, byte for"
        " byte), verdicts and the sources must equal those of the same process run alone. Non-trivial: at least one"
        " switch between running processes.")
REAL = REAL_ALL
STUB = STUB_FS + ["scheduler of the operating system (one process runs at a time, switches at file operations)",
                  "process death"]


def make(seed, i, tier):
    r = gen.rng_for(seed, "C22", i)
    n = r.choice((2, 2, 2, 3, 4))
    dirs = r.choice((("data",), ("data",), ("data", "more"), ("",)))
    shared = r.random() < 0.5  # one source, several formats
    modes = r.sample(spec.MODES, n) if shared else [r.choice(spec.MODES) for _ in range(n)]
    stems = ["s%d" % k for k in range(9)]
    if r.random() < 0.4:
        stems = ["s", "s-JSON", "s-MARGO", "s-JARGO", "s-JSON-B", "s1", "s.1", "s.log", "S"]
    r.shuffle(stems)
    common_src = None
    procs, pre = [], {}
    used = set()
    for k in range(n):
        mode = modes[k]
        srcs = []
        for j in range(r.choice((1, 1, 2))):
            if shared and common_src and j == 0:
                srcs.append(common_src)
                continue
            st = stems.pop()
            name = os.path.join(r.choice(dirs), st + ".rtcm3")
            # nothing else may own the same output folder
            fr = messages(r, "MARGO" if mode == "MARGO" and not shared else "JSON", r.choice((1, 2, 4)), small=True,
                          p_unsup=0.1, p_bad=0.1)
            src = {"name": name, "segs": gen.link(r, fr, rate=r.choice((0.0, 0.3)), small_max=True)}
            srcs.append(src)
            common_src = common_src or src
        p = {"mode": mode, "sources": srcs, "faults": [], "world": std_world(r), "chunk": r.choice((4096, 100, 1029)),
             "kill": r.random() if r.random() < 0.2 else None}
        for s in srcs:
            od = sut.outdir(s["name"], mode)
            if r.random() < 0.3:
                pre[od + "/old.txt"] = "h:6f6c64"
                pre[od + "/EPH/x.json"] = "h:6f6c64"
            if r.random() < 0.2:
                op, cls = r.choice((("open_w", "product"), ("write", "product"), ("close", "product"), ("read", "source"),
                                    ("mkdir", None), ("write", "log"), ("unlink", None)))
                f = {"op": op, "nth": r.choice((1, 2, 3)), "err": r.choice(("EIO", "ENOSPC", "EACCES")),
                     "sticky": r.random() < 0.3}
                if cls:
                    f["cls"] = cls
                if op != "read":
                    f["under"] = od
                p["faults"].append(f)
        procs.append(p)
    return {"ctrl": sut.rand_ctrl(r), "procs": procs, "pre": pre, "sched": r.getrandbits(30),
            "style": r.choice(("fair", "fair", "bursty", "lockstep"))}


def _setup(root, scn):
    sut.clean(root)
    seen = {}
    for p in scn["procs"]:
        for s in p["sources"]:
            seen[s["name"]] = s
    sut.setup_files(root, {"sources": list(seen.values()), "ctrl": scn["ctrl"], "pre": scn["pre"], "mode": "JSON"})


def _one(root, scn, p, point=None):
    s = {"mode": p["mode"], "sources": p["sources"], "ctrl": scn["ctrl"], "chunk": p["chunk"]}

    def prepare(w):
        if point:
            w.hooks["event"] = point

    o = sut.run_main(root, s, dict(p["world"], faults=p["faults"]), prepare=prepare)
    return {"exc": o.exc, "exit": o.exit, "verdicts": sut.verdicts(o.err), "stats": o.stats, "nev": o.w.nev,
            "sig": o.w.sig(), "fired": dict(o.w.fired), "esc": list(o.w.escapes), "open": [x[0] for x in o.open]}


def _alone(root, scn, k):
    _setup(root, scn)
    r = _one(root, scn, scn["procs"][k])
    r["tree"] = tree(root)
    return r


class _Proc:
    def __init__(self, root, scn, k):
        self.k = k
        self.p = scn["procs"][k]
        up_r, up_w = os.pipe()
        dn_r, dn_w = os.pipe()
        self.pid = world._O["fork"]()
        if self.pid == 0:
            os.close(up_r)
            os.close(dn_w)

            def point(op, rel):
                os.write(up_w, b"e")
                if os.read(dn_r, 1) != b"g":
                    world._O["_exit"](137)

            try:
                try:
                    data = pickle.dumps(("ok", _one(root, scn, self.p, point)))
                except sut.Hang:
                    data = pickle.dumps(("hang", None))
                except BaseException as e:
                    data = pickle.dumps(("err", (sut.from_repo(e), "%s: %s" % (type(e).__name__, e), sut.where(e))))
                view = memoryview(b"r" + data)
                while view:
                    view = view[os.write(up_w, view):]
            finally:
                world._O["_exit"](0)
        os.close(up_w)
        os.close(dn_r)
        self.up, self.dn = up_r, dn_w
        self.state = "running"
        self.events = 0
        self.result = None

    def wait(self):
        """until the process stops before an operation or ends"""
        b = os.read(self.up, 1)
        if b == b"e":
            self.events += 1
            self.state = "ready"
            return
        parts = []
        while b:
            x = os.read(self.up, 1 << 16)
            if not x:
                break
            parts.append(x)
        self.state = "done"
        if parts:
            self.result = pickle.loads(b"".join(parts))
        self.end()

    def go(self, kill=False):
        os.write(self.dn, b"k" if kill else b"g")
        if kill:
            self.state = "killed"
            self.end()
        else:
            self.wait()

    def end(self):
        os.close(self.up)
        os.close(self.dn)
        os.waitpid(self.pid, 0)


def _together(root, scn, lens):
    rng = random.Random(scn["sched"])
    ps = []
    order = []
    for k in range(len(scn["procs"])):
        p = _Proc(root, scn, k)
        p.wait()
        ps.append(p)
    kill_at = [1 + int(q["kill"] * lens[k]) if q["kill"] is not None else None for k, q in enumerate(scn["procs"])]
    cur, left = None, 0
    while True:
        live = [p for p in ps if p.state == "ready"]
        if not live:
            break
        if scn["style"] == "lockstep":
            p = min(live, key=lambda x: (x.events, x.k))
        elif cur in live and left > 0:
            p = cur
        else:
            p = rng.choice(live)
            left = rng.choice((1, 2, 3)) if scn["style"] == "fair" else rng.choice((1, 5, 20, 60))
        cur = p
        left -= 1
        order.append(p.k)
        p.go(kill_at[p.k] is not None and p.events >= kill_at[p.k])
    return ps, order


def _mine(t, p):
    ds = [sut.outdir(s["name"], p["mode"]) for s in p["sources"]]
    return {x: v for x, v in t.items() if any(x == d or x.startswith(d + "/") for d in ds)}


def run(scn, root):
    refs = [sut.isolated(_alone, root, scn, k) for k in range(len(scn["procs"]))]
    v, fired = None, {}
    for k, x in enumerate(refs):
        if x["exc"]:
            return {"v": viol("crash", "process %d alone: %s" % (k, x["exc"]))}
    _setup(root, scn)
    before = tree(root)
    ps, order = _together(root, scn, [x["nev"] for x in refs])
    after = tree(root)
    owned = set()
    for k, p in enumerate(ps):
        q = scn["procs"][k]
        owned |= set(_mine(after, q)) | set(_mine(before, q))
        if p.state == "killed":
            fired["kill"] = fired.get("kill", 0) + 1
            continue
        if p.result is None:
            raise RuntimeError("process %d vanished" % k)
        tag, got = p.result
        if tag == "hang":
            raise sut.Hang()
        if tag == "err":
            if got[0]:
                v = v or viol("exception", "%s @ %s" % got[1:])
                continue
            raise RuntimeError(str(got))
        for f, n in got["fired"].items():
            fired[f] = fired.get(f, 0) + n
        if v:
            continue
        ref = refs[k]
        if got["exc"]:
            v = viol("crash", "process %d: %s" % (k, got["exc"]))
        elif got["esc"]:
            v = viol("escape", "touched the world outside: " + got["esc"][0])
        elif got["verdicts"] != ref["verdicts"]:
            v = viol("verdict", "process %d: %s, alone %s" % (k, got["verdicts"], ref["verdicts"]))
        elif got["stats"] != ref["stats"]:
            v = viol("counts", "process %d: %s, alone %s" % (k, got["stats"], ref["stats"]))
        else:
            a, b = _mine(after, q), _mine(ref["tree"], q)
            if a != b:
                x = sorted(y for y in set(a) | set(b) if a.get(y) != b.get(y))[0]
                v = viol("output", "process %d (%s): %s %s" % (k, q["mode"], x, "missing" if x not in a else "left over"
                                                                if x not in b else "differs from the run alone"))
    if not v:
        for x in sorted(set(before) | set(after)):
            if x not in owned and before.get(x) != after.get(x):
                v = viol("foreign", "%s was changed by nobody's right" % x)
                break
    sw = sum(a != b for a, b in zip(order, order[1:]))
    size = sum(len(y["h"]) // 2 for p in scn["procs"] for s in p["sources"] for y in s["segs"])
    return {"v": v, "sig": sig_of(order, [r["sig"] for r in refs]), "nt": sw > 0, "fired": fired,
            "m": {"bytes": size, "seam_events": sum(r["nev"] for r in refs) + len(order)},
            "probes": {"processes": len(ps), "switches": sw}, "sample": sample(
                {"style": scn["style"], "order": "".join(map(str, order))[:120],
                 "modes": [p["mode"] for p in scn["procs"]]}) if len(order) < 120 else None}
