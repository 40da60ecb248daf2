"""C12: after a crash at any point, converting again gives the clean result."""

import os
import random

from .. import gen, oracle, spec, sut
from .common import *  # noqa

RUNS = {"quick": 4000, "thorough": 160000}
SHRINK = [("sources", "*", "segs"), ("sources", "*", "old"), ("crashes",), ("busy",), ("sources",)]
KEEP = {"sources": 1}
RULE = ("A conversion is killed at a seeded seam event (only what reached the disk survives), the surviving output is"
        " further damaged (files cut at any length, lost, zeroed, folders lost), possibly killed again, on top of stale"
        " files and of the output of an older version of the source; then it is run to the end, sometimes after one more run during which leftovers cannot be deleted. The output folders must"
        " equal those of a first-time conversion. Between two seam events the disk does not change, so killing at every"
        " seam event covers every instant. Non-trivial: at least one kill happened.")
REAL = REAL_ALL
STUB = STUB_FS + ["process death (the run is a forked process that ends without any clean-up)"]


def make(seed, i, tier):
    r = gen.rng_for(seed, "C12", i)
    mode = spec.MODES[i % 4]
    srcs, pre = [], {}
    for k in range(r.choice((1, 1, 1, 2))):
        name = "data/s%d.rtcm3" % k
        fr = messages(r, mode, r.choice((1, 2, 4, 8)), small=True, p_unsup=0.05, p_bad=0.1)
        s = {"name": name, "segs": gen.link(r, fr, rate=r.choice((0.0, 0.3)), small_max=True)}
        if r.random() < 0.4:
            old = messages(r, mode, r.choice((1, 3, 8)), small=True)
            s["old"] = [gen.seg("frame", f) for f in old]
        od = sut.outdir(name, mode)
        if r.random() < 0.4:
            exp = spec.Expect(fr, mode, spec.DEF_CTRL)
            names = sorted(exp.products()) + ["old.txt", "EPH/x.json", "deep/er/file", "s%d-log.txt" % k,
                                              "G/GC1C.obs", ".hidden"]
            for p in r.sample(names, min(len(names), r.choice((1, 2, 4)))):
                pre[od + "/" + p] = "h:" + bytes(r.getrandbits(8) for _ in range(r.choice((0, 5, 300)))).hex()
        if r.random() < 0.1:
            pre[od + "/stale_dir"] = "dir"
        srcs.append(s)
    crashes = [{"u": r.random(), "dmg": r.choice((None, r.getrandbits(30))), "end": r.random() < 0.15}
               for _ in range(r.choice((1, 1, 1, 2, 3)))]
    scn = {"mode": mode, "ctrl": sut.rand_ctrl(r), "chunk": r.choice((4096, 100, 1029)), "world": std_world(r),
           "sources": srcs, "pre": pre, "crashes": crashes}
    if r.random() < 0.25:
        scn["busy"] = [{"op": r.choice(("unlink", "unlink", "unlink", "rmdir", "scandir")), "under": sut.outdir(s["name"], mode),
                        "nth": r.choice((1, 1, 2, 3, 4)), "err": r.choice(E_DEL), "sticky": r.random() < 0.3}
                       for s in srcs]
    return scn


def _dirs(scn):
    return [sut.outdir(s["name"], scn["mode"]) for s in scn["sources"]]


def _part(after, dirs):
    return {p: v for p, v in after.items() if any(p == d or p.startswith(d + "/") for d in dirs)}


def _run(root, scn, cfg):
    o = sut.run_main(root, scn, cfg)
    return o.exc, o.after, o.w.nev, o.w.sig(), o.open


def _first(root, scn, cfg):
    sut.clean(root)
    sut.setup_files(root, dict(scn, pre={}))
    return _run(root, scn, cfg)


def _damage(root, dirs, seed):
    """What a power failure leaves of unsynced output."""
    r = random.Random(seed)
    p_keep = r.choice((0.0, 0.3, 0.8))
    n = 0
    for d in dirs:
        top = os.path.join(root, d)
        if not os.path.isdir(top):
            continue
        if r.random() < 0.1:
            sut.clean(top)
            n += 1
            if r.random() < 0.5:
                os.rmdir(top)
            continue
        for dp, dn, fn in sorted(os.walk(top)):
            for f in sorted(fn):
                if r.random() < p_keep:
                    continue
                n += 1
                q = os.path.join(dp, f)
                size = os.path.getsize(q)
                k = r.random()
                if k < 0.5:
                    os.truncate(q, r.randrange(size + 1))
                elif k < 0.75:
                    os.unlink(q)
                else:
                    with open(q, "r+b") as h:
                        at = r.randrange(size + 1)
                        h.seek(at)
                        h.write(b"\0" * (size - at))
    return n


def run(scn, root):
    dirs = _dirs(scn)
    cfg = scn["world"]
    exc, ref, n, sig, opn = sut.isolated(_first, root, scn, cfg)
    if exc:
        return {"v": viol("crash", "clean run: " + exc), "sig": sig}
    want = _part(ref, dirs)
    nev, kills, sigs, fired = n, 0, [sig], {}
    sut.clean(root)
    sut.setup_files(root, scn)
    v = None
    if any("old" in s for s in scn["sources"]):
        for s in scn["sources"]:
            put(os.path.join(root, s["name"]), gen.join(s.get("old", s["segs"])))
        exc, _, k, sg, _ = sut.isolated(_run, root, scn, cfg)
        nev += k
        sigs.append(sg)
        if exc:
            v = viol("crash", "older version: " + exc)
        for s in scn["sources"]:
            put(os.path.join(root, s["name"]), gen.join(s["segs"]))
    for c in scn["crashes"]:
        if v:
            break
        stale = sum(1 for p in tree(root) if any(p.startswith(d) for d in dirs))
        last = n + stale
        at = max(1, last - int(c["u"] * 6)) if c["end"] else 1 + int(c["u"] * last)
        rfd, wfd = os.pipe()
        res = sut.isolated(_run, root, scn, dict(cfg, crash=at, crash_fd=wfd))
        os.close(wfd)
        note = os.read(rfd, 200).decode()
        os.close(rfd)
        nev += min(at, last)
        if res is None:
            kills += 1
            sigs.append((note, at))
            key = "kill:" + note
            fired[key] = fired.get(key, 0) + 1
        elif res[0]:
            v = viol("crash", "rerun: " + res[0])
        if c["dmg"] is not None:
            k = _damage(root, dirs, c["dmg"])
            sigs.append((c["dmg"], k))
            if k:
                fired["lost or torn output files"] = fired.get("lost or torn output files", 0) + k
    if not v and scn.get("busy"):
        # What is left cannot be deleted at the moment: the source is either skipped (nothing new appears)
        # or converted as if for the first time.
        before = _part(tree(root), dirs)
        exc, after, k, sg, opn = sut.isolated(_run, root, scn, dict(cfg, faults=scn["busy"]))
        nev += k
        sigs.append(sg)
        fired["rerun with undeletable output"] = 1
        if exc:
            v = viol("crash", "run with undeletable output: " + exc)
        for d in dirs:
            got, ok, old = _part(after, [d]), _part(want, [d]), _part(before, [d])
            bad = sorted(p for p, x in got.items() if old.get(p) != x)
            if not v and got != ok and bad:
                v = viol("mixed", "output could not be deleted, but %s is neither as before nor is the folder that of a"
                         " first-time conversion" % bad[0])
    if not v:
        exc, after, k, sg, opn = sut.isolated(_run, root, scn, cfg)
        nev += k
        sigs.append(sg)
        got = _part(after, dirs)
        if exc:
            v = viol("crash", "last run: " + exc)
        elif got != want:
            p = sorted(x for x in set(got) | set(want) if got.get(x) != want.get(x))[0]
            a, b = got.get(p), want.get(p)
            what = "left over" if b is None else "missing" if a is None else "has other content"
            v = viol("differs", "after %d kill(s) and a complete run, %s %s" % (kills, p, what))
        for s in scn["sources"]:
            if not v and after.get(s["name"]) != ("f", gen.join(s["segs"])):
                v = viol("source", "%s did not survive unmodified" % s["name"])
    size = sum(len(x["h"]) // 2 for s in scn["sources"] for x in s["segs"])
    return {"v": v, "sig": sig_of(*sigs), "nt": kills > 0, "fired": fired,
            "m": {"bytes": size, "seam_events": nev}, "probes": {"kills": kills, "reruns": len(scn["crashes"]) + 1},
            "sample": sample(scn) if size < 300 and kills else None}
