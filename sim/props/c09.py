"""C09: trouble with one source never affects the others."""

from .. import gen, oracle, spec, sut
from .common import *  # noqa

RUNS = {"quick": 2600, "thorough": 100000}
SHRINK = [("sources", "*", "segs"), ("world", "faults"), ("sources",)]
KEEP = {"sources": 1}
RULE = ("A batch of two to five sources, some in trouble (missing, unreadable, read error, interrupt, failing products"
        " or log, output folder that cannot be replaced, malformed or empty content), is converted in one run, and"
        " every source also alone in a fresh process with the same trouble; folders (products and log, byte for byte)"
        " and verdicts are compared. Non-trivial: at least one source in trouble.")
REAL = REAL_ALL
STUB = STUB_FS

TROUBLES = ("missing", "dirarg", "open", "read", "int", "popen", "pwrite", "pclose", "outfile", "undeletable",
            "rmdir", "malformed", "empty", "log", "mkoutdir", "logwrite", "lineint")


def make(seed, i, tier):
    r = gen.rng_for(seed, "C09", i)
    mode = spec.MODES[i % 4]
    n = r.choice((2, 2, 3, 4, 5))
    wide = i % 300 == 11  # a long batch
    if wide:
        n = r.choice((12, 25, 40))
    srcs, faults, pre = [], [], {}
    ip = None
    same = i % 97 == 5  # two sources that differ in the extension only
    names = ["s%d" % k for k in range(n)]
    r.shuffle(names)
    for k in range(n):
        name = "data/%s.rtcm3" % names[k]
        if same and k == n - 1:
            name = "data/%s.bin" % names[0]
        od = sut.outdir(name, mode)
        fr = messages(r, mode, r.choice((1, 2, 4)) if not wide else 1, small=True, p_unsup=0.1, p_bad=0.1)
        rate = r.choice((0.0, 0.3))
        if r.random() < 0.06:
            fr = gen.tiny(r, r.choice((70, 140, 300))) + fr
            rate = r.choice((0.0, 0.02, 0.1))
        segs = gen.link(r, fr, rate=rate, small_max=True)
        s = {"name": name, "segs": segs, "t": None}
        if r.random() < 0.2:
            pre[od + "/old.txt"] = "h:" + b"old".hex()
        if r.random() < 0.5 and not (same and k in (0, n - 1)):
            t = s["t"] = r.choice(TROUBLES)
            if t == "missing":
                s["absent"] = True
            elif t == "dirarg":
                s["absent"] = True
                pre[name] = "dir"
            elif t == "open":
                faults.append({"op": "open_r", "path": name, "nth": 1, "err": r.choice(E_OPENR)})
            elif t == "read":
                faults.append({"op": "read", "path": name, "nth": r.choice((1, 2)), "err": r.choice(E_READ)})
            elif t == "int":
                faults.append({"op": "read", "path": name, "nth": r.choice((1, 2)), "err": "INT"})
            elif t == "popen":
                faults.append({"op": "open_w", "cls": "product", "path": od + "/", "nth": r.choice((1, 2)),
                               "err": r.choice(E_OPENW), "sticky": r.random() < 0.5})
            elif t == "pwrite":
                faults.append({"op": "write", "cls": "product", "path": od + "/", "nth": r.choice((1, 2, 4)),
                               "err": r.choice(E_WRITE), "sticky": r.random() < 0.5})
            elif t == "pclose":
                faults.append({"op": "close", "cls": "product", "path": od + "/", "nth": r.choice((1, 2)),
                               "err": r.choice(E_CLOSE), "sticky": r.random() < 0.3})
            elif t == "outfile":
                pre[od] = "h:" + b"a file".hex()
                pre.pop(od + "/old.txt", None)
            elif t == "undeletable":
                pre[od + "/old.txt"] = "h:" + b"old".hex()
                pre[od + "/EPH/old.txt"] = "h:" + b"old".hex()
                faults.append({"op": "unlink", "path": od + "/", "nth": r.choice((1, 2)), "err": r.choice(E_DEL)})
            elif t == "rmdir":
                pre[od + "/old.txt"] = "h:" + b"old".hex()
                faults.append({"op": "rmdir", "path": od, "nth": 1, "err": r.choice(E_DEL)})
            elif t == "malformed":
                s["segs"] = [gen.seg("bad", spec.frame(gen.malformed(r, r.choice(nums_for(mode)), mode)))
                             for _ in range(3)] + [gen.seg("noise", gen.noise(r))]
            elif t == "empty":
                s["segs"] = []
            elif t == "log":
                faults.append({"op": "open_w", "path": od + "/", "cls": "log", "nth": r.choice((1, 2)),
                               "err": r.choice(E_OPENW)})
            elif t == "logwrite":
                faults.append({"op": "write", "path": od + "/", "cls": "log", "nth": r.choice((1, 2, 3)),
                               "err": r.choice(E_WRITE), "sticky": r.random() < 0.5})
            elif t == "mkoutdir":
                faults.append({"op": "mkdir", "path": od, "cls": "outdir", "nth": 1, "err": r.choice(E_MKDIR)})
        srcs.append(s)
    w = std_world(r)
    w["faults"] = faults
    return via_user(r, {"mode": mode, "ctrl": sut.rand_ctrl(r), "chunk": r.choice((4096, 100, 1029)), "world": w,
                        "sources": srcs, "pre": pre})


def _one(root, scn, args):
    sut.clean(root)
    s = dict(scn, args=args)
    sut.setup_files(root, s)
    o = sut.run_main(root, s)
    return o.exc, o.after, sut.verdicts(o.err), o.w.nev, dict(o.w.fired), o.w.escapes, o.open, o.w.sig()


def _part(after, d):
    """everything at or below an output folder"""
    return {p: v for p, v in after.items() if p == d or p.startswith(d + "/")}


def run(scn, root):
    names = [s["name"] for s in scn["sources"]]
    # One argument that is a folder switches to directory mode, which asks the
    # user; a second argument that is nobody's file keeps the list mode.
    exc, after, vs, nev, fired, esc, opn, sig = sut.isolated(_one, root, scn, names + ["data/nobody.rtcm3"])
    v = None
    known = []
    if exc:
        v = viol("crash", exc)
    elif esc:
        v = viol("escape", esc[0])
    elif opn:
        v = viol("open", "left open: %s" % opn[0][0])
    alone_v = []
    dirs = [sut.outdir(n, scn["mode"]) for n in names]
    size = 0
    for k, s in enumerate(scn["sources"]):
        if v:
            break
        size += sum(len(x["h"]) // 2 for x in s["segs"])
        e1, a1, v1, n1, *_ = sut.isolated(_one, root, scn, [s["name"], "data/nobody.rtcm3"])
        nev += n1
        if e1:
            v = viol("crash", "alone: " + e1)
            break
        alone_v += v1
        got, want = _part(after, dirs[k]), _part(a1, dirs[k])
        if got != want:
            if dirs[k] in dirs[k + 1:]:
                known.append("same-stem")
                continue
            p = sorted(x for x in set(got) | set(want) if got.get(x) != want.get(x))[0]
            v = viol("differs", "%s (trouble %s) differs from its conversion alone: %s: %s" % (
                s["name"], s["t"], p, _show(got.get(p), want.get(p))))
    if not v and alone_v != vs:
        v = viol("verdicts", "verdicts %r, alone %r" % (vs, alone_v))
    if not v:
        for s in scn["sources"]:
            if not s.get("absent") and after.get(s["name"]) != ("f", gen.join(s["segs"])):
                v = viol("source", "%s was changed" % s["name"])
    tr = {"trouble:" + s["t"]: 1 for s in scn["sources"] if s["t"]}
    fired = dict(fired)
    for k in tr:
        if k.split(":")[1] in ("missing", "dirarg", "outfile", "malformed", "empty"):
            fired[k] = fired.get(k, 0) + 1
    return {"v": v, "sig": sig, "nt": bool(tr), "m": {"bytes": size, "seam_events": nev}, "probes": tr,
            "fired": fired, "known": known, "sample": sample(scn) if size < 400 and tr else None}


def _show(a, b):
    if a is None or b is None or a[0] != "f" or b[0] != "f":
        return "%s in the batch, %s alone" % (a and a[0], b and b[0])
    i = 0
    while i < min(len(a[1]), len(b[1])) and a[1][i] == b[1][i]:
        i += 1
    return "batch ..%r, alone ..%r" % (a[1][max(0, i - 20):i + 40], b[1][max(0, i - 20):i + 40])
