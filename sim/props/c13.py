"""C13: a conversion touches nothing but its own output folder."""

import os

from .. import gen, oracle, spec, sut
from .common import *  # noqa

RUNS = {"quick": 14000, "thorough": 600000}
SHRINK = [("sources", "*", "segs"), ("world", "faults"), ("sources",), ("extra",)]
KEEP = {"sources": 1}
RULE = ("Sources with all kinds of names are converted among neighbours with similar names (folders of other modes and"
        " sources, backups, configuration), with stale output that contains symbolic and hard links to neighbours, or"
        " with a file or link in place of the output folder, while deletions, directory and file operations fail,"
        " sources are unreadable or the user interrupts. Before/after snapshots and every recorded mutating call are"
        " compared with the set of output folders. Non-trivial: neighbours, links or faults present.")
REAL = REAL_ALL
STUB = STUB_FS

STEMS = ("s", "s.1", "a-JSON", "log", "s-log", ".hid", "x[1]", "\u017e", "a-MARGO.rtcm3", "S", "1", "defaults", "~", "a+b", "#")


WORDS = ("s", "a", "log", "2024", "1", "x y", "JSON", "MARGO", "rtcm3", "tmp", "Base", "\u00e9", "bak", "..", "0000000000", "old")


def rand_stem(r):
    """a name of several words: dashes, dots, blanks, digits, any length"""
    sep = r.choice("--.__ +,=@")
    s = sep.join(r.choice(WORDS) for _ in range(r.choice((1, 2, 3, 4, 6, 9, 14))))
    s = r.choice(("", "", "", ".", "-", "_")) + s + r.choice(("", "", "", "-", ".x", "~"))
    return s if s.strip(".") else "s" + s


def hx(b):
    return "h:" + b.hex()


def make(seed, i, tier):
    r = gen.rng_for(seed, "C13", i)
    mode = spec.MODES[i % 4]
    srcs, faults, extra = [], [], []
    stems = [rand_stem(r) if r.random() < 0.4 else st for st in r.sample(STEMS, r.choice((1, 1, 2, 3)))]
    stems = sorted(set(stems), key=stems.index)
    for k, st in enumerate(stems):
        folder = r.choice(("data/", "data/", "", "data/sub/", "data-" + mode + "/"))
        ext = r.choice((".rtcm3", ".rtcm3", ".bin", "", ".RTCM3", "."))
        name = ("data/" if not folder and st[0] == "-" else folder) + st + ext
        fr = messages(r, mode, r.choice((0, 1, 3)), small=True, p_unsup=0.1, p_bad=0.1)
        srcs.append({"name": name, "segs": gen.link(r, fr, rate=r.choice((0.0, 0.3)), small_max=True)})
        od = sut.outdir(name, mode)
        stem = sut.stem(name)
        # neighbours with similar names
        near = [stem + x for x in ("", "-", "-" + mode + "2", "-" + mode + ".bak", "-" + mode[:-1], ".bak", "-log.txt",
                                   ext + ".bak", ext + "~", "2" + ext, ".json")]
        near += [stem + "-" + m + "/EPH/keep.json" for m in spec.MODES if m != mode]
        near += [stem + "2-" + mode + "/keep.obs", folder + mode + "/keep", folder + "-" + mode + "/keep",
                 folder + "EPH/keep.json", folder + "BASE/x", "keep.txt", folder + "victim.json", "user.ini"]
        for p in r.sample(near, r.choice((2, 5, 9))) + [folder + "victim.json"]:
            extra.append([p, hx(b"neighbour " + p.encode())])
        extra.append([folder + "vdir/keep/me.txt", hx(b"precious")])
        old = r.random()
        if old < 0.6:
            exp = spec.Expect(fr, mode, spec.DEF_CTRL)
            names = sorted(exp.products()) or ["EPH/GPS-EPH-1019.json"]
            for _ in range(r.choice((0, 1, 3))):
                extra.append([od + "/" + r.choice(names + ["x", "d/e"]), hx(b"old")])
            up = "../" * (r.choice(names).count("/") + 1)
            kind = r.choice(("none", "none", "link", "dirlink", "hard", "loglink", "dirlink2"))
            p = r.choice(names)
            if kind == "link":
                extra.append([od + "/" + p, "link:" + "../" * (p.count("/") + 1) + "victim.json"])
            elif kind == "hard":
                extra.append([od + "/" + p, "hard:" + folder + "victim.json"])
            elif kind == "dirlink":
                extra.append([od + "/" + p.split("/")[0], "link:../vdir"])
            elif kind == "dirlink2":
                extra.append([od + "/sub", "link:../vdir/keep"])
            elif kind == "loglink":
                extra.append([od + "/" + stem.split("/")[-1] + "-log.txt", "link:../victim.json"])
            k = r.random()
            if k < 0.2:
                faults.append({"op": r.choice(("unlink", "unlink", "rmdir")), "under": od, "nth": r.choice((1, 1, 2)),
                               "err": r.choice(E_DEL + ("INT",))})
            elif k < 0.28:
                faults.append({"op": "scandir", "under": od, "nth": r.choice((1, 2)), "err": r.choice(("EACCES", "EIO"))})
        elif old < 0.75:
            extra.append([od, r.choice((hx(b"a file"), "link:vdir", "link:victim.json", "link:nowhere", "link:.",
                                        "link:../" + "keep-outside"))])
        k = r.random()
        if k < 0.1:
            faults.append({"op": "mkdir", "under": od, "nth": r.choice((1, 2)), "err": r.choice(E_MKDIR), "late": r.random() < 0.2})
        elif k < 0.2:
            faults.append({"op": "open_w", "under": od, "nth": r.choice((1, 2, 3)), "err": r.choice(E_OPENW),
                           "sticky": r.random() < 0.5})
        elif k < 0.3:
            faults.append({"op": r.choice(("write", "close")), "under": od, "nth": r.choice((1, 2, 5)),
                           "err": r.choice(E_WRITE), "sticky": r.random() < 0.5})
        elif k < 0.4:
            faults.append({"op": r.choice(("open_r", "read")), "under": name, "nth": 1,
                           "err": r.choice(E_OPENR)})
        elif k < 0.45:
            faults.append({"op": "read", "under": name, "nth": 1, "err": "INT"})
    w = std_world(r)
    w["faults"] = faults
    scn = {"mode": mode, "ctrl": sut.rand_ctrl(r), "chunk": r.choice((4096, 100)), "world": w, "sources": srcs,
           "extra": extra}
    if r.random() < 0.15:
        scn["int"] = {"where": r.choice(("parse_bytes", "decode", "print")), "conv": 1, "call": r.choice((1, 2)),
                      "line": r.randrange(1, 40)}
    if r.random() < 0.1:
        scn["missing_defaults"] = True
    return scn


def _setup(root, scn):
    """extra entries in order; those that do not fit on top of earlier ones are left out"""
    sut.setup_files(root, dict(scn, defaults=None if scn.get("missing_defaults") else "gen"))
    for p, what in scn["extra"]:
        q = os.path.join(root, p)
        try:
            if os.path.lexists(q):
                continue
            sut.setup_files(root, {"sources": [], "defaults": None, "pre": {p: what}})
        except OSError:
            pass


def run(scn, root):
    top = root
    root = os.path.join(root, "m")
    os.mkdir(root)
    put(os.path.join(top, "keep-outside", "x.txt"), b"outside")
    _setup(root, scn)
    out0 = tree(top)
    o = sut.run_main(root, scn, runs=[["-o", scn["mode"]] + [s["name"] for s in scn["sources"]]])
    out1 = tree(top)
    dirs = [sut.outdir(s["name"], scn["mode"]) for s in scn["sources"]]
    v = None
    if o.exc and "KeyboardInterrupt" not in o.exc:
        v = viol("crash", o.exc)
    elif o.w.escapes:
        v = viol("escape", "touched the world outside: " + o.w.escapes[0])
    # a folder is a legitimate output folder unless something else is in its place
    legit = [d for d in dirs if o.before.get(d) in (None, ("d",))]
    ok = lambda p: any(p == d or p.startswith(d + "/") for d in legit)
    if not v:
        for p in sorted(set(out0) | set(out1)):
            if p.startswith("m/") and ok(p[2:]):
                continue
            if out0.get(p) != out1.get(p):
                a, b = out0.get(p), out1.get(p)
                if a is None and b == ("d",) and any(("m/" + d).startswith(p + "/") for d in legit):
                    continue
                what = "created" if a is None else "deleted" if b is None else "changed"
                v = viol(what, "%s was %s; the output folders are %s" % (p, what, legit))
                break
    if not v:
        for op, p in o.w.mutations:
            if not ok(p):
                v = viol("mutation", "%s on %s; the output folders are %s" % (op, p, legit))
                break
    # an output folder that cannot be replaced: the source is skipped
    skipped = 0
    for f in o.w.faults:
        if v:
            break
        if f["op"] in ("unlink", "rmdir", "scandir") and f["hits"] and f["err"] != "INT":
            d = [x for x in dirs if x == f["under"]][0]
            skipped += 1
            new = [p for p in o.after if p.startswith(d + "/") and o.after[p] != o.before.get(p)]
            if new and dirs.count(d) == 1:
                v = viol("mixed", "%s could not be emptied, but %s was written" % (d, new[0]))
    data = sum(len(x["h"]) // 2 for s in scn["sources"] for x in s["segs"])
    inplace = sum(1 for d in dirs if d not in legit)
    return finish(o, v, nt=True, m={"bytes": data, "seam_events": o.w.nev},
                  probes={"not_replaceable": skipped, "something_in_place_of_folder": inplace,
                          "mutating_calls": len(o.w.mutations), "neighbours": len(out0)},
                  sample=sample(scn, {"folders": dirs}) if data < 200 else None)
