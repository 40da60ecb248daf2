"""C11: counts, log and verdict tell the truth."""

from .. import gen, oracle, spec, sut
from .common import *  # noqa

RUNS = {"quick": 9000, "thorough": 350000}
SHRINK = [("sources", "*", "segs"), ("world", "faults"), ("sources",)]
KEEP = {"sources": 1}
RULE = ("A batch of one to three sources with link damage, malformed and unsupported messages and, in some runs,"
        " products that cannot be created; counts of the converter, the last progress line and the verdict of every"
        " source are compared with the reference counts. Non-trivial: at least one frame.")
REAL = REAL_ALL
STUB = STUB_FS + ["the link that carries the byte stream"]


def make(seed, i, tier):
    r = gen.rng_for(seed, "C11", i)
    mode = spec.MODES[i % 4]
    srcs, faults = [], []
    if i == 3:  # a very long file
        mode = "JSON-B"
        ok = [spec.frame(gen.good(r, 1005, mode)) for _ in range(3)]
        bad = [spec.frame(gen.malformed(r, n, mode)) for n in (1005, 1006, 1019)]
        fr = ok + bad + [spec.frame(gen.unsupported(r))]
        w = std_world(r)
        w.update(buf=8192, txt=None)
        seg = {"k": "frame", "h": b"\x55".join(fr[:3] + [b"".join(fr[3:]) + b"\x55"]).hex(), "n": 22500}  # every counter passes 65536
        return {"mode": mode, "ctrl": sut.rand_ctrl(r), "chunk": 4096, "world": w, "wall": 250,
                "sources": [{"name": "data/s.rtcm3", "segs": [seg, dict(seg, n=50)]}]}
    for k in range(r.choice((1, 1, 2, 3))):
        pb = r.choice((0, 0, 0, 0.2))
        fr = messages(r, mode, r.choice((0, 1, 3, 6, 12)), small=True, p_unsup=r.choice((0, 0.3)), p_bad=pb)
        long = r.random() < 0.012
        if long:
            fr += long_run(r, mode, r.choice((70, 140, 300)))
            r.shuffle(fr)
        ops = r.choice((None, None, ("dup", "swap", "zero", "max"), ("noise",), ("flip",), ("false",), ("tail",),
                        ("nest_bad",)))
        segs = gen.link(r, fr, rate=r.choice((0.0, 0.2, 0.5) if not long else (0.0, 0.01, 0.1)), ops=ops, small_max=True)
        if r.random() < 0.15:
            segs.insert(0, gen.seg("noise", gen.noise(r)))
        name = "data/s%d.rtcm3" % k
        srcs.append({"name": name, "segs": segs})
        if r.random() < 0.25:
            frames, _ = sut.frames_of(gen.join(segs))
            paths = sorted(spec.Expect(frames, mode, dict(spec.DEF_CTRL, hca=True, ltm=True)).products())
            if paths:
                faults.append({"op": "open_w", "cls": "product", "nth": 1, "sticky": r.random() < 0.7,
                               "err": r.choice(E_OPENW),
                               "path": sut.outdir(name, mode) + "/" + r.choice(paths)})
    w = std_world(r)
    w["faults"] = faults
    return {"mode": mode, "ctrl": sut.rand_ctrl(r), "chunk": chunk_len(r), "world": w, "sources": srcs}


def run(scn, root):
    sut.setup_files(root, scn)
    o = sut.run_main(root, scn)
    v = basic_faults(o)
    vs = sut.verdicts(o.err)
    m = {"bytes": 0, "frames": 0, "seam_events": o.w.nev}
    probes = {"parsing_errors": 0, "decoding_errors": 0, "printing_errors": 0, "clean": 0}
    if not v and len(vs) != len(scn["sources"]):
        v = viol("verdict", "%d verdicts for %d sources" % (len(vs), len(scn["sources"])))
    for k, src in enumerate(scn["sources"]):
        if v:
            break
        data, frames, gaps, exp = expect_for(src, scn["mode"], scn["ctrl"])
        m["bytes"] += len(data)
        m["frames"] += len(frames)
        d = sut.outdir(src["name"], scn["mode"])
        perr = 0
        for f in o.w.faults:
            if f["path"].startswith(d + "/") and f["hits"]:
                p = f["path"][len(d) + 1:]
                n = sum(1 for it in exp.items if it[0] == "ok" and any(x[0] == p for x in it[1]))
                perr += n if f.get("sticky") else min(n, 1)
        want = (exp.attempts, gaps, exp.errors, perr)
        files = oracle.split_outdir(o.after, d) or {}
        logs = [x.decode("utf-8", "replace") for p, x in files.items() if p.endswith("-log.txt")]
        log = logs[0] if logs else ""
        word = "Finished with errors." if any(want[1:]) else "Finished without errors."
        probes["parsing_errors"] += gaps
        probes["decoding_errors"] += exp.errors
        probes["printing_errors"] += perr
        probes["clean"] += not any(want[1:])
        if len(o.stats) == len(scn["sources"]) and o.stats[k] != want:
            v = viol("counts", "%s: counts (messages, parsing, decoding, printing) %r, true ones %r" % (
                src["name"], o.stats[k], want))
        elif sut.last_totals(log) != want:
            v = viol("progress", "%s: last progress line says %r, true counts %r" % (
                src["name"], sut.last_totals(log), want))
        elif sut.verdicts(log) != [word] or vs[k] != word:
            v = viol("verdict", "%s: verdict %r / %r, expected %r for counts %r" % (
                src["name"], vs[k], sut.verdicts(log), word, want))
    fired = dict(o.w.fired)
    for s in scn["sources"]:
        for x in s["segs"]:
            if x["k"] != "frame":
                fired["link:" + x["k"]] = fired.get("link:" + x["k"], 0) + 1
    return finish(o, v, nt=m["frames"] > 0, m=m, probes=probes, fired=fired,
                  sample=sample(scn) if m["bytes"] < 300 else None)
