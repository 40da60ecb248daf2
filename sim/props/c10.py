"""C10: a malformed or unsupported message costs only itself."""

from .. import gen, oracle, spec, sut
from .common import *  # noqa

RUNS = {"quick": 6000, "thorough": 250000}
SHRINK = [("base",), ("extra",)]
RULE = ("Malformed (empty, cut, prolonged, contradictory masks), and unsupported messages with valid CRC are injected"
        " between good messages; products are compared byte for byte with a run without them, and with the reference;"
        " counts with the number of injected malformed messages. Non-trivial: at least one such message.")
REAL = REAL_ALL
STUB = STUB_FS


def make(seed, i, tier):
    r = gen.rng_for(seed, "C10", i)
    mode = spec.MODES[i % 4]
    base = [gen.seg("frame", f) for f in messages(r, mode, r.choice((0, 1, 3, 6)), small=True)]
    extra = []
    for _ in range(r.choice((1, 1, 2, 4, 8))):
        k = r.random()
        at = r.randrange(len(base) + 1)
        if k < 0.6:
            num = r.choice(nums_for(mode))
            near = [spec.msgnum(bytes.fromhex(base[j]["h"])) for j in (at, at - 1) if 0 <= j < len(base)]
            near = [x for x in near if spec.supported(x, mode)]
            if near and r.random() < 0.5:  # next to a good message of the same number
                num = near[0]
            p = gen.malformed(r, num, mode)
            lab = "malformed"
        elif k < 0.7:
            p, lab = b"", "empty"
        elif k < 0.8 and mode == "MARGO":
            p, lab = gen.good(r, r.choice(gen.EPH_NUMS + gen.BASE_NUMS), mode), "other"
        elif k < 0.85:
            p, lab = gen.unsupported(r, big=True), "unsupported"
        else:
            p, lab = gen.unsupported(r), "unsupported"
        extra.append({"at": at, "k": lab, "h": spec.frame(p).hex()})
    if r.random() < 0.04:  # a burst
        num = r.choice(nums_for(mode))
        one = r.random() < 0.5 and gen.malformed(r, num, mode)
        k = r.choice(("malformed", "malformed", "malformed", "unsupported", "empty"))
        at = r.choice((0, r.randrange(len(base) + 1)))
        for _ in range(r.choice((20, 40, 70, 130, 270, 600))):
            if k == "empty":
                p = b""
            elif k == "unsupported":
                p = gen.unsupported(r)
            else:
                p = one or gen.malformed(r, r.choice((num, num, r.choice(nums_for(mode)))), mode)
            extra.append({"at": at, "k": k, "h": spec.frame(p).hex()})
        if not base or at == len(base):
            base.append(gen.seg("frame", messages(r, mode, 1, small=True)[0]))
    return {"mode": mode, "ctrl": sut.rand_ctrl(r), "chunk": chunk_len(r), "world": std_world(r),
            "base": base, "extra": extra}


def _merge(scn):
    out = []
    for i in range(len(scn["base"]) + 1):
        out += [e for e in scn["extra"] if min(e["at"], len(scn["base"])) == i]
        if i < len(scn["base"]):
            out.append(scn["base"][i])
    return out


def _one(root, scn, segs):
    sut.clean(root)
    s = dict(scn, sources=[{"name": "data/s.rtcm3", "segs": segs}])
    sut.setup_files(root, s)
    o = sut.run_main(root, s)
    files = oracle.split_outdir(o.after, sut.outdir("data/s.rtcm3", scn["mode"]))
    return o.exc, files, o.stats, sut.verdicts(o.err), o.w.nev, o.w.sig()


def run(scn, root):
    segs = _merge(scn)
    exc, files, st, vs, nev, sig = sut.isolated(_one, root, scn, segs)
    v = None
    ctrl = sut.norm(scn["ctrl"])
    data, frames, gaps, exp = expect_for({"segs": segs}, scn["mode"], scn["ctrl"])
    bad = exp.errors
    if exc:
        v = viol("crash", exc)
    elif files is None or not st:
        v = viol("product", "no output")
    elif st[0][0] != exp.attempts or st[0][2] != bad or st[0][3]:
        v = viol("counts", "messages %d, decoding errors %d, printing errors %d; expected %d, %d, 0" % (
            st[0][0], st[0][2], st[0][3], exp.attempts, bad))
    elif "Decoding was terminated." in vs:
        v = viol("stopped", "a malformed message stopped the conversion")
    else:
        e = oracle.check_products(files, exp.products(), ctrl)
        if e:
            v = viol(*e)
    if not v:
        exc, ref, st0, _, n0, _ = sut.isolated(_one, root, scn, scn["base"])
        nev += n0
        a = oracle.products_of(files)
        b = oracle.products_of(ref or {})
        if exc:
            v = viol("crash", exc)
        elif a != b:
            p = sorted(x for x in set(a) | set(b) if a.get(x) != b.get(x))[0]
            v = viol("differs", "product %s differs from the run without the malformed messages" % p)
    fired = {}
    for e in scn["extra"]:
        fired["message:" + e["k"]] = fired.get("message:" + e["k"], 0) + 1
    return {"v": v, "sig": sig, "nt": bool(scn["extra"]), "fired": fired,
            "m": dict(measure(data, frames), seam_events=nev), "probes": {"decoding_errors": bad},
            "sample": sample({k: x for k, x in scn.items() if k not in ("base", "extra")},
                             {"segs": ["%s:%d" % (s["k"], len(s["h"]) // 2) for s in segs]})
            if len(data) < 300 else None}
