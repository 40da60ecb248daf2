"""C03: prompt delivery, bounded resynchronisation, termination."""

from .. import gen, oracle, spec, sut
from .common import *  # noqa
from .c01 import gen_stream, feed

RUNS = {"quick": 22000, "thorough": 900000}
SHRINK = [("segs",), ("chunks",), ("sources", "*", "segs")]
RULE = ("A damaged stream is delivered in random pieces; after every delivery the frames handed over so far are"
        " compared with the set that is due by then (progress measured in delivered bytes). Source files made of"
        " preambles, cut headers and noise are read to their end; a run that makes no progress within a fixed number"
        " of executed lines is a hang.")
REAL = REAL_ALL
STUB = STUB_FS + ["the link and the delivery schedule"]
WALL = 20


def make(seed, i, tier):
    r = gen.rng_for(seed, "C03", i)
    if i % 6 == 5:
        k = r.randrange(6)
        if k == 0:
            segs = [gen.seg("noise", gen.noise(r, r.choice((1, 2, 3, 5, 6, 7, 1029, r.randrange(1, 3000)))))]
        elif k == 1:
            segs = []
        elif k == 2:
            segs = [gen.seg("false", gen.false_header(r)) for _ in range(r.choice((1, 3, 50, 200)))]
        elif k == 3:
            segs = [gen.seg("noise", b"\xd3\x00" * r.randrange(1, 400))]
        else:
            segs = gen_stream(r)
        return {"shape": "main", "mode": r.choice(spec.MODES), "ctrl": sut.rand_ctrl(r), "world": std_world(r),
                "chunk": r.choice((4096, 100, 1029, 1 << 20, 1000)),
                "sources": [{"name": "data/s.rtcm3", "segs": segs}]}
    if i % 6 == 4:  # undamaged link: strict promptness
        fr = []
        for _ in range(r.choice((1, 2, 4, 8))):
            k = r.random()
            if k < 0.2:
                fr.append(spec.frame(b""))
            elif k < 0.4:
                fr.append(spec.frame(gen.unsupported(r, big=True)))
            elif k < 0.6:
                fr.append(spec.frame(gen.unsupported(r)))
            else:
                fr.append(spec.frame(gen.good(r, r.choice(ALL_NUMS), "JSON")))
        segs = [gen.seg("frame", f) for f in fr]
    elif r.random() < 0.01:  # a burst of very many frames
        fr = gen.tiny(r, r.choice((130, 260, 520, 700, 1100)))
        segs = [gen.seg("frame", f) for f in fr] if r.random() < 0.5 else gen.link(r, fr, rate=0.01)
        size = len(gen.join(segs))
        return {"shape": "api", "mode": r.choice(spec.MODES), "segs": segs,
                "chunks": r.choice(([size], [4096] * (size // 4096 + 1), gen.chunks(r, size)))}
    else:
        segs = gen_stream(r)
    size = len(gen.join(segs))
    ch = gen.chunks(r, size)
    if r.random() < 0.3:  # one delivery per segment, exactly
        ch = [len(s["h"]) // 2 for s in segs]
    return {"shape": "api", "mode": r.choice(spec.MODES), "segs": segs, "chunks": ch}


def run(scn, root):
    if scn["shape"] == "main":
        src = scn["sources"][0]
        data, frames, gaps, exp = expect_for(src, scn["mode"], scn["ctrl"])
        sut.setup_files(root, scn)
        o = sut.run_main(root, scn)
        v = basic_faults(o)
        if not v and not sut.verdicts(o.err):
            v = viol("verdict", "the conversion did not come to an end")
        if not v and o.stats and o.stats[0][0] != exp.attempts:
            v = viol("progress", "%d messages processed, %d are there" % (o.stats[0][0], exp.attempts))
        return finish(o, v, nt=bool(data), m=measure(data, frames, o.w), probes={"files": 1})
    data = gen.join(scn["segs"])
    fr, _ = spec.scan(data, True)
    due = []
    prev_end, prev_due = 0, 0
    sync = 0
    for a, b in fr:
        if a == prev_end:
            d = max(b, prev_due)
            sync += d == b
        else:
            d = max(a + 1029, prev_due)
        due.append(d)
        prev_end, prev_due = b, d
    want = [data[a:b] for a, b in fr]
    conv = sut.make_converter(root, "c", scn["mode"], spec.DEF_CTRL)
    bad = []

    def on(pos, got):
        if bad:
            return
        need = sum(1 for d in due if d <= pos)
        if len(got) < need:
            k = len(got)
            bad.append("frame %d (bytes %d..%d) not handed over although %d bytes arrived, due at %d" % (
                k, fr[k][0], fr[k][1], pos, due[k]))
            return
        for k, g in enumerate(got):
            if k >= len(want) or bytes(g) != want[k]:
                # content is C01's business; do not judge timing on a wrong list
                bad.append("frame %d handed over is not frame %d of the stream" % (k, k))
                return

    feed(conv, data, scn["chunks"], on)
    fired = {}
    for s in scn["segs"]:
        if s["k"] != "frame":
            fired["link:" + s["k"]] = fired.get("link:" + s["k"], 0) + 1
    return {"v": viol("late", bad[0]) if bad else None, "sig": sig_of(data, scn["chunks"]), "nt": bool(want),
            "fired": fired, "m": measure(data, want),
            "probes": {"in_sync_frames": sync, "resync_frames": len(fr) - sync, "deliveries": len(scn["chunks"])},
            "sample": sample(scn) if len(data) < 200 else None}
