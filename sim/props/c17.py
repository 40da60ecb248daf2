"""C17: trouble with logging never changes the products."""

from .. import gen, oracle, spec, sut
from .common import *  # noqa

RUNS = {"quick": 6000, "thorough": 250000}
SHRINK = [("sources", "*", "segs"), ("world", "faults"), ("sources",)]
KEEP = {"sources": 1}
RULE = ("A batch of one to four sources is converted while creating, writing or closing of logs fails (once, for good,"
        " partially, at any log operation), the diagnostic console rejects output or does not exist; products must be"
        " byte-identical to those of a run with healthy logging, logs of sources without trouble too. Non-trivial: at"
        " least one logging fault fired.")
REAL = REAL_ALL
STUB = STUB_FS


def make(seed, i, tier):
    r = gen.rng_for(seed, "C17", i)
    mode = spec.MODES[i % 4]
    n = r.choice((1, 1, 2, 3, 4))
    stems = r.sample(("alpha", "beta", "gamma", "delta", "eps"), n)
    srcs, faults = [], []
    for st in stems:
        name = r.choice(("data/", "data/", "more/")) + st + ".rtcm3"
        fr = messages(r, mode, r.choice((0, 1, 3, 6)), small=True, p_unsup=0.15, p_bad=0.15)
        srcs.append({"name": name, "segs": gen.link(r, fr, rate=r.choice((0.0, 0.4)), small_max=True)})
        if r.random() < 0.6:
            for _ in range(r.choice((1, 1, 2))):
                op = r.choice(("open_w", "open_w", "write", "write", "write", "close"))
                faults.append({"op": op, "cls": "log", "under": sut.outdir(name, mode),
                               "nth": r.choice((1, 1, 2, 2, 3, r.randrange(1, 12))),
                               "err": r.choice(E_OPENW + E_WRITE),
                               "part": r.choice((0, 0, 0.5)), "sticky": r.random() < 0.5})
    w = std_world(r)
    k = r.random()
    if k < 0.25:
        faults.append({"op": r.choice(("conwrite", "conflush")), "nth": r.choice((1, 2, r.randrange(1, 20))),
                       "err": r.choice(("EIO", "EPIPE", "ENOSPC", "EBADF")), "sticky": r.random() < 0.6})
    elif k < 0.35:
        w["stderr"] = "none"
    w["faults"] = faults
    return {"mode": mode, "ctrl": sut.rand_ctrl(r), "chunk": r.choice((4096, 64, 300)), "world": w, "sources": srcs}


def _healthy(root, scn):
    sut.clean(root)
    sut.setup_files(root, scn)
    o = sut.run_main(root, scn, {k: x for k, x in scn["world"].items() if k not in ("faults", "stderr")})
    return o.exc, o.after, sut.verdicts(o.err), o.w.nev


def run(scn, root):
    exc, ref, vref, n0 = sut.isolated(_healthy, root, scn)
    if exc:
        return {"v": viol("crash", "healthy run: " + exc)}
    sut.clean(root)
    sut.setup_files(root, scn)
    o = sut.run_main(root, scn)
    v = basic_faults(o)
    dirs = [sut.outdir(s["name"], scn["mode"]) for s in scn["sources"]]
    hit = {f["under"] for f in o.w.faults if f.get("under") and f["hits"]}
    con = scn["world"].get("stderr") == "none" or any(not f.get("under") for f in o.w.faults)
    size = 0
    if not v and o.open:
        v = viol("open", "left open: %s" % o.open[0][0])
    for k, s in enumerate(scn["sources"]):
        if v:
            break
        size += sum(len(x["h"]) // 2 for x in s["segs"])
        a = oracle.split_outdir(o.after, dirs[k])
        b = oracle.split_outdir(ref, dirs[k])
        if a is None:
            v = viol("product", "%s was not converted" % s["name"])
            break
        pa, pb = oracle.products_of(a), oracle.products_of(b)
        if pa != pb:
            p = sorted(x for x in set(pa) | set(pb) if pa.get(x) != pb.get(x))[0]
            v = viol("product", "%s/%s differs from the run with healthy logging" % (dirs[k], p))
        elif dirs[k] not in hit and a != b:
            v = viol("log", "the log of %s differs although its logging had no trouble" % s["name"])
        for p, x in a.items():
            if p.endswith("-log.txt"):
                for j, t in enumerate(scn["sources"]):
                    if j != k and t["name"].encode() in x:
                        v = v or viol("log", "the log of %s mentions %s" % (s["name"], t["name"]))
    if not v:
        for p in o.after:
            if p.endswith("-log.txt") and not any(p.startswith(d + "/") for d in dirs):
                v = viol("log", "log in a wrong place: %s" % p)
    if not v and not con:
        got = sut.verdicts(o.err)
        for word in set(vref):
            if got.count(word) < vref.count(word):
                v = viol("verdict", "%r is missing on the console, its log file had trouble" % word)
    if scn["world"].get("stderr") == "none":
        o.w.fired["no standard error"] = 1
    return finish(o, v, nt=bool(o.w.fired), m={"bytes": size, "seam_events": o.w.nev + n0},
                  probes={"sources": len(dirs), "logs_in_trouble": len(hit), "console_in_trouble": int(con)},
                  sample=sample(scn) if size < 400 and hit else None)
