"""Shared pieces of the property checks."""

import hashlib
import os

from .. import gen, oracle, spec, sut
from ..world import tree, put

REAL_ALL = ["run_conversion (argument parsing, work folders, file loop, verdicts)", "converter_top", "decoder_top",
            "sub_decoders", "utilities", "gnss_types", "printer_top", "printers", "controls", "logger",
            "CPython io buffering, logging, configparser, argparse, shutil, glob"]
STUB_FS = ["raw file reads/writes/opens/closes and directory calls (fault-injecting layer over a tmpfs scratch"
           " directory)", "directory enumeration order", "clock", "standard streams and the user at the keyboard",
           "object-hash order of the printer set"]

# What system calls of a failing disk, share or device return. Each class of
# exception CPython makes of them is represented.
E_OPENR = ("EACCES", "EIO", "ENOENT", "EPERM", "ESTALE", "EMFILE", "ENFILE", "ELOOP", "ENOTDIR", "ETIMEDOUT", "ENXIO",
           "EISDIR", "ENOMEM", "EBUSY")
E_READ = ("EIO", "EIO", "ESTALE", "ENXIO", "ETIMEDOUT", "EACCES", "EPERM", "ENODEV", "EINVAL", "EISDIR", "ECONNRESET",
          "ENOMEM", "EAGAIN", "ENOENT", "EBADF", "ENOTCONN")
E_OPENW = ("EACCES", "ENOSPC", "EMFILE", "EROFS", "EIO", "ENAMETOOLONG", "EPERM", "ENFILE", "ENOENT", "ENOTDIR",
           "EISDIR", "EEXIST", "ETXTBSY", "EDQUOT", "ETIMEDOUT", "EINVAL", "ENOMEM")
E_MKDIR = ("EACCES", "ENOSPC", "EROFS", "EIO", "EEXIST", "EPERM", "EMLINK", "ENAMETOOLONG", "EDQUOT", "ENOENT",
           "ENOTDIR", "ETIMEDOUT")
E_WRITE = ("ENOSPC", "ENOSPC", "EIO", "EDQUOT", "EFBIG", "ESTALE", "ETIMEDOUT", "EPERM", "EACCES", "ENXIO", "EPIPE",
           "ENOMEM", "EBADF")
E_CLOSE = ("EIO", "ENOSPC", "EDQUOT", "ESTALE", "ETIMEDOUT", "EACCES", "EPERM")
E_DEL = ("EACCES", "EBUSY", "EPERM", "EIO", "EROFS", "ETXTBSY", "ESTALE", "ETIMEDOUT")

ALL_NUMS = gen.EPH_NUMS + gen.BASE_NUMS + gen.MSM_NUMS


def viol(kind, msg):
    return {"kind": kind, "msg": str(msg)[:600]}


def sig_of(*parts):
    h = hashlib.sha1()
    for p in parts:
        h.update(repr(p).encode("utf-8", "replace"))
    return h.hexdigest()[:16]


def nums_for(mode):
    return gen.MSM_NUMS if mode == "MARGO" else ALL_NUMS


def messages(r, mode, n, nums=None, small=False, p_unsup=0.0, p_bad=0.0):
    """n frames (bytes)"""
    nums = nums or nums_for(mode)
    # swarm: a few message types per run, so that products get several records
    pick = r.sample(nums, min(len(nums), r.choice((1, 2, 3, 6, len(nums)))))
    out = []
    story = r.choice((0.0, 0.0, 0.3, 0.7))  # how much messages have in common with earlier ones
    kept = []
    for _ in range(n):
        k = r.random()
        if k < p_unsup:
            out.append(spec.frame(gen.unsupported(r)))
            continue
        num = r.choice(pick)
        if k < p_unsup + p_bad:
            out.append(spec.frame(gen.malformed(r, num, mode)))
            continue
        kw = {"small": small} if num in spec.MSM else {}
        if kept and r.random() < story:
            kept.append(gen.variant(r, r.choice(kept), mode))
        else:
            kept.append(gen.good(r, num, mode, **kw))
        out.append(spec.frame(kept[-1]))
    return out


def long_run(r, mode, n, nums=None):
    """n frames of one or two numbers, made of a few different ones"""
    nums = nums or nums_for(mode)
    pool = []
    for num in r.sample(nums, min(len(nums), r.choice((1, 1, 2)))):
        kw = {"nsat": r.choice((1, 2))} if num in spec.MSM else {}
        pool += [spec.frame(gen.good(r, num, mode, **kw)) for _ in range(6)]
    return [r.choice(pool) for _ in range(n)]


def gnss_ms(frames):
    """GNSS time span carried (ms), for the evidence"""
    ts = []
    for f in frames:
        n = spec.msgnum(f) if len(f) > 8 else 0
        if n in spec.MSM:
            t = int.from_bytes(f[6:10], "big") >> 2
            if n // 10 == 108:
                t &= 0x7FFFFFF
            ts.append(t)
    return (max(ts) - min(ts)) if len(ts) > 1 else 0


def std_world(r):
    """Machine parameters varied in every run."""
    return {"seed": r.getrandbits(30), "buf": r.choice((16, 64, 256, 1000, 8192, 8192)),
            "txt": r.choice((None, None, 1, 50, 500)), "clock": r.choice((0.001, 0.0, 3600.0, -5.0))}


def via_user(r, scn, p=0.3):
    """The same settings, in some runs from the user's file on top of other defaults."""
    if r.random() < p:
        scn["ini"] = r.choice(("user.ini", "data/my.cfg"))
        scn["defaults"] = {"h": sut.ini_text(sut.norm(sut.rand_ctrl(r, 0.0))).encode().hex()}
        scn["pre"] = dict(scn.get("pre") or {}, **{scn["ini"]: "h:" + sut.ini_text(sut.norm(scn["ctrl"])).encode().hex()})
    return scn


def chunk_len(r):
    return r.choice((4096, 4096, 1, 7, 64, 500, 1029, 1030, r.randrange(1, 5000), 1 << 20))


def measure(data, frames, w=None):
    m = {"bytes": len(data), "frames": len(frames), "gnss_ms": gnss_ms(frames)}
    if w is not None:
        m["seam_events"] = w.nev
    return m


def expect_for(src, mode, ctrl):
    data = gen.join(src["segs"])
    frames, gaps = sut.frames_of(data)
    return data, frames, gaps, spec.Expect(frames, mode, sut.norm(ctrl))


def finish(o, v=None, **kw):
    d = {"v": v, "sig": o.w.sig(), "fired": dict(o.w.fired)}
    d.update(kw)
    return d


def basic_faults(o):
    """What no run may show, whatever happened."""
    if o.exc:
        return viol("crash", "the program crashed: " + o.exc)
    if o.w.escapes:
        return viol("escape", "touched the world outside: " + o.w.escapes[0])
    return None


def sample(scn, extra=None):
    """short readable form of a scenario for the evidence"""
    d = {}
    for k, v in scn.items():
        if k in ("segs",):
            d[k] = ["%s:%d" % (s["k"], len(s["h"]) // 2) for s in v][:20]
        elif k == "sources":
            d[k] = [{"name": s["name"], "segs": ["%s:%d" % (x["k"], len(x["h"]) // 2) for x in s["segs"]][:12]}
                    for s in v]
        elif k == "chunks":
            d[k] = v[:20]
        elif k == "ctrl":
            d[k] = {a: b for a, b in v.items() if a != "lit"}
        elif k in ("slicings", "pre", "sched"):
            d[k] = str(v)[:200]
        else:
            d[k] = v if len(str(v)) < 400 else str(v)[:400]
    if extra:
        d.update(extra)
    return d
