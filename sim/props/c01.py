"""C01: intact frames survive any damage around them."""

import os

from .. import gen, oracle, spec, sut
from .common import *  # noqa

RUNS = {"quick": 26000, "thorough": 1200000}
SHRINK = [("segs",), ("chunks",), ("sources", "*", "segs")]
RULE = ("Frames (supported, proprietary, zero- and maximum-length, payloads full of preamble bytes,"
        " checksums of chosen values such as zero) pass a simulated"
        " lossy link (noise, bit flips, cuts, duplicates, reordering, false headers, nested frames, cut tails) and"
        " reach the parser in randomly sliced deliveries, or a source file read to its end.")
REAL = REAL_ALL
STUB = STUB_FS + ["the link that carries the byte stream"]
ASSUME = ["reference scanner of sim/spec.py states the intended framing rule"]

PAD = bytes(1100)


def _frames(r, n):
    out = []
    for _ in range(n):
        k = r.random()
        if k < 0.35:
            p = bytearray(gen.unsupported(r))
            if r.random() < 0.6:  # payload that looks like headers
                for i in range(2, len(p)):
                    if r.random() < 0.5:
                        p[i] = r.choice((0xD3, 0, 1, 2, 3, 19))
            out.append(spec.frame(bytes(p)))
        elif k < 0.43:
            out.append(spec.frame(gen.unsupported(r, big=True)))
        elif k < 0.45:
            out.append(spec.frame(gen.peculiar(r, big=r.random() < 0.1)))
        elif k < 0.5:
            out.append(spec.frame(b""))
        else:
            num = r.choice(ALL_NUMS)
            kw = {"small": True} if num in spec.MSM else {}
            out.append(spec.frame(gen.good(r, num, "JSON-B", **kw)))
    return out


def gen_stream(r, n=None):
    n = n if n is not None else r.choice((1, 2, 3, 3, 5, 8, 12))
    fr = _frames(r, n)
    if r.random() < 0.01:  # a long stream
        fr += gen.tiny(r, r.choice((70, 140, 300, 600)))
        return gen.link(r, fr, rate=r.choice((0.0, 0.02, 0.1)), small_max=True)
    if r.random() < 0.004:  # a stream of many kilobytes
        n = r.choice((17, 34, 70, 140))
        fr += [spec.frame(gen.unsupported(r, big=True)) for _ in range(n)]
        return gen.link(r, fr, rate=r.choice((0.0, 0.1, 0.3)))
    segs = gen.link(r, fr, rate=r.choice((0.2, 0.4, 0.7)))
    if r.random() < 0.2:
        segs.insert(0, gen.seg("noise", gen.noise(r)))
    return segs


def make(seed, i, tier):
    r = gen.rng_for(seed, "C01", i)
    if i == 4:  # a very long stream
        segs = gen.giant(r, gen.tiny(r, 20), 67000, 5)
        return {"shape": "api", "segs": segs, "chunks": [r.choice((4096, 1029, 100))] * 30000, "mode": "JSON-B",
                "wall": 250}
    if i % 5 != 0:
        segs = gen_stream(r)
        return {"shape": "api", "segs": segs, "chunks": gen.chunks(r, len(gen.join(segs))),
                "mode": r.choice(spec.MODES)}
    n = r.choice((1, 2, 4, 8, 16))
    segs = gen_stream(r, n)
    return {"shape": "main", "mode": r.choice(("JSON-B", "JSON-B", "JSON")), "ctrl": sut.rand_ctrl(r),
            "sources": [{"name": "data/s.rtcm3", "segs": segs}], "chunk": chunk_len(r), "world": std_world(r)}


def feed(conv, data, sizes, on=None):
    """Deliver data in the given sizes; returns frames handed over."""
    got = []
    pos = 0
    for c in sizes:
        if pos >= len(data) and c > 0:
            break
        piece = data[pos:pos + c]
        pos += len(piece)
        rv = list(conv.parse_bytes(piece))
        got += rv
        if on:
            on(pos, got)
    if pos < len(data):
        got += list(conv.parse_bytes(data[pos:]))
        if on:
            on(len(data), got)
    return got


def first_diff(want, got):
    k = 0
    while k < min(len(want), len(got)) and bytes(got[k]) == want[k]:
        k += 1
    if k == len(want) == len(got):
        return None
    if k == len(got):
        return "frame %d of %d is lost (%d bytes, number %d)" % (
            k, len(want), len(want[k]), spec.msgnum(want[k]))
    if k == len(want):
        return "extra frame handed over: %s" % bytes(got[k]).hex()[:60]
    return "frame %d of %d differs: got %s.. (%d bytes), expected %s.. (%d bytes)" % (
        k, len(want), bytes(got[k]).hex()[:24], len(got[k]), want[k].hex()[:24], len(want[k]))


def run(scn, root):
    if scn["shape"] == "api":
        data = gen.join(scn["segs"])
        conv = sut.make_converter(root, "c", scn["mode"], spec.DEF_CTRL)
        want, gaps = sut.frames_of(data + PAD, False)
        got = feed(conv, data, scn["chunks"])
        got += list(conv.parse_bytes(PAD))
        d = first_diff(want, got)
        fired = {}
        for s in scn["segs"]:
            if s["k"] != "frame":
                fired["link:" + s["k"]] = fired.get("link:" + s["k"], 0) + 1
        return {"v": viol("frames", d) if d else None, "sig": sig_of(data, scn["chunks"], scn["mode"]),
                "nt": bool(want), "fired": fired, "m": measure(data, want),
                "probes": {"deliveries": len(scn["chunks"]), "gaps": gaps},
                "sample": sample(scn) if len(data) < 300 else None}
    src = scn["sources"][0]
    data, frames, gaps, exp = expect_for(src, scn["mode"], scn["ctrl"])
    early, _ = sut.frames_of(data, False)
    sut.setup_files(root, scn)
    o = sut.run_main(root, scn)
    v = basic_faults(o)
    if not v:
        d = first_diff(frames, o.intr.handed[0]) if o.intr.observed(0, src["name"]) else None
        if d:
            v = viol("frames", d)
    if not v:
        files = oracle.split_outdir(o.after, sut.outdir(src["name"], scn["mode"]))
        e = ("product", "no output folder") if files is None else \
            oracle.check_products(files, exp.products(), sut.norm(scn["ctrl"]))
        if e:
            v = viol(*e)
    fired = {}
    for s in src["segs"]:
        if s["k"] != "frame":
            fired["link:" + s["k"]] = fired.get("link:" + s["k"], 0) + 1
    return finish(o, v, nt=bool(frames), m=measure(data, frames, o.w), fired=fired,
                  probes={"frames_only_recovered_at_end_of_file": len(frames) - len(early), "gaps": gaps})
