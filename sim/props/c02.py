"""C02: the result does not depend on the slicing of the input."""

import os

from .. import gen, oracle, spec, sut
from .common import *  # noqa
from .c01 import gen_stream, first_diff

RUNS = {"quick": 5000, "thorough": 250000}
SHRINK = [("segs",), ("slicings",), ("slicings", "*"), ("sources", "*", "segs")]
KEEP = {"slicings": 1}
RULE = ("One damaged stream is delivered several times under different seeded slicings (whole, one byte at a time,"
        " random pieces, empty deliveries; or a file read in pieces of several sizes while it is still growing); the"
        " frames, products (byte for byte) and counts of all deliveries are compared with each other.")
REAL = REAL_ALL
STUB = STUB_FS + ["the link and the delivery schedule", "growth of the source between two reads"]


def make(seed, i, tier):
    r = gen.rng_for(seed, "C02", i)
    mode = r.choice(spec.MODES)
    if i == 4:  # a very long stream, in very many deliveries
        segs = gen.giant(r, [spec.frame(gen.good(r, 1005, "JSON-B")) for _ in range(4)] + gen.tiny(r, 4), 6000, 9)
        return {"shape": "api", "mode": "JSON-B", "ctrl": sut.rand_ctrl(r), "segs": segs, "wall": 250,
                "slicings": [[4096] * 40, [1] * 68000]}
    n = r.choice((1, 2, 3, 5, 8))
    if r.random() < 0.5:
        segs = gen_stream(r, n)
    else:
        segs = gen.link(r, messages(r, mode, n, small=True, p_unsup=0.15, p_bad=0.1), rate=r.choice((0.0, 0.2, 0.5)))
    # the generator of damaged streams is not limited to satellites MARGO knows
    size = len(gen.join(segs))
    if i % 3:
        sl = [gen.chunks(r, size) for _ in range(r.choice((2, 3)))]
        if r.random() < 0.4 and size < 1500:
            sl.append([1] * size)
        # pieces that end exactly at, one before and one behind frame borders
        cut = [len(s["h"]) // 2 + r.choice((-1, 0, 0, 1, -2, 2)) for s in segs]
        sl.append([max(0, c) for c in cut])
        return {"shape": "api", "mode": mode, "ctrl": sut.rand_ctrl(r), "segs": segs, "slicings": sl}
    sl = []
    for _ in range(2):
        g = []
        pos = 0
        if r.random() < 0.7:
            for c in gen.chunks(r, size):
                if c:
                    pos += c
                    g.append(pos)
            if len(g) > 400:
                g = g[:400]
        sl.append({"chunk": chunk_len(r) if size < 3000 else r.choice((4096, 100, 1029)), "growth": g,
                   "world": std_world(r)})
    return {"shape": "main", "mode": mode, "ctrl": sut.rand_ctrl(r), "slicings": sl,
            "sources": [{"name": "data/s.rtcm3", "segs": segs}]}


def _api(root, scn, data, sizes):
    sut.clean(root)
    c = sut.make_converter(root, "c", scn["mode"], scn["ctrl"])
    frames = []

    def take(rv):
        for m in rv:
            frames.append(bytes(m))
            b = c.decode(m)
            if b is not None:
                c.print(b)

    pos = 0
    for s in sizes:
        take(c.parse_bytes(data[pos:pos + s]))
        pos = min(len(data), pos + s)
    if pos < len(data):
        take(c.parse_bytes(data[pos:]))
    if hasattr(c, "flush"):
        take(c.flush())
    st = sut.stats(c)
    c.release()
    t = tree(os.path.join(root, "c"))
    return frames, st, sorted((k, v) for k, v in t.items())


def _main(root, scn, sl):
    sut.clean(root)
    s = dict(scn, chunk=sl["chunk"])
    sut.setup_files(root, s)
    cfg = dict(sl["world"], growth={scn["sources"][0]["name"]: sl["growth"]})
    o = sut.run_main(root, s, cfg)
    d = sut.outdir(scn["sources"][0]["name"], scn["mode"])
    files = oracle.split_outdir(o.after, d)
    log = b""
    if files:
        for p in list(files):
            if p.endswith("-log.txt"):
                log = files.pop(p)
    v = sut.verdicts(log.decode())
    name = scn["sources"][0]["name"]
    return (o.intr.handed[0] if o.intr.observed(0, name) else None, (o.stats, v, o.exc, sut.last_totals(log.decode())),
            sorted((files or {}).items()), o.w.sig(), o.w.nev, o.w.kinds.get(("read", "source"), 0))


def run(scn, root):
    src = scn["segs"] if scn["shape"] == "api" else scn["sources"][0]["segs"]
    data = gen.join(src)
    want, gaps = sut.frames_of(data)
    probes = {"deliveries": 0}
    sigs = [data]
    ref = None
    v = None
    nev = 0
    plans = list(scn["slicings"])
    if scn["shape"] == "api":
        plans = [[len(data)]] + plans
    else:
        plans = [{"chunk": 4096, "growth": [], "world": {"seed": 0}}] + plans
    for k, sl in enumerate(plans):
        if scn["shape"] == "api":
            got = sut.isolated(_api, root, scn, data, sl)
            sigs.append(sl)
            probes["deliveries"] += len(sl)
        else:
            *got, sg, ev, reads = sut.isolated(_main, root, scn, sl)
            nev += ev
            sigs.append(sg)
            probes["deliveries"] += reads
            if got[1][2]:
                return {"v": viol("crash", got[1][2])}
        if ref is None:
            ref = got
            continue
        d = first_diff(ref[0], got[0]) if None not in (ref[0], got[0]) else None
        if d:
            v = viol("frames", "slicing %d: %s" % (k, d))
        elif ref[1] != got[1]:
            v = viol("counts", "slicing %d: counts %r, whole %r" % (k, got[1], ref[1]))
        elif ref[2] != got[2]:
            a, b = dict(ref[2]), dict(got[2])
            p = sorted(x for x in set(a) | set(b) if a.get(x) != b.get(x))
            v = viol("products", "slicing %d: product %s differs" % (k, p[0]))
        if v:
            break
    if not v:  # all equal; they must also agree with the bytes
        d = first_diff(want, ref[0]) if ref[0] is not None else None
        if d and scn["shape"] == "main":
            v = viol("frames", d)
    m = measure(data, want)
    if nev:
        m["seam_events"] = nev
    return {"v": v, "sig": sig_of(*sigs), "nt": bool(want), "m": m, "probes": probes,
            "fired": {"slicing:" + scn["shape"]: len(plans) - 1},
            "sample": sample(scn) if len(data) < 300 else None}
