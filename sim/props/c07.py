"""C07: a conversion cut short leaves complete products of a prefix."""

from .. import gen, oracle, spec, sut
from .common import *  # noqa

RUNS = {"quick": 7000, "thorough": 300000}
SHRINK = [("sources", "*", "segs"), ("world", "faults"), ("sources",)]
KEEP = {"sources": 1}
RULE = ("A batch of one to three sources is converted; at a seeded read, or at a seeded line inside a seeded parse or"
        " decode call, the user interrupts or the disk returns a read error (several sources may be hit). Non-trivial:"
        " a stop really happened while messages had been or were being processed.")
REAL = REAL_ALL
STUB = STUB_FS


def make(seed, i, tier):
    r = gen.rng_for(seed, "C07", i)
    mode = spec.MODES[i % 4]
    n = r.choice((1, 1, 2, 3))
    srcs = []
    faults = []
    ip = None
    victim = r.randrange(n)
    chunk = r.choice((4096, 300, 100, 1000, 64, 1029))
    for k in range(n):
        fr = messages(r, mode, r.choice((2, 4, 8, 12)), small=r.random() < 0.7, p_unsup=0.1, p_bad=0.05)
        segs = gen.link(r, fr, rate=r.choice((0.0, 0.0, 0.3)), small_max=True)
        name = "data/s%d.rtcm3" % k
        srcs.append({"name": name, "segs": segs})
        if k == victim or r.random() < 0.2:
            size = len(gen.join(segs))
            reads = size // chunk + 2
            kind = r.choice(("INT", "INT", "EIO", "line", "line", "line", "open"))
            if kind == "line" and ip is None and k == victim:
                where = r.choice(("decode", "decode", "parse_bytes"))
                ip = {"where": where, "conv": k + 1,
                      "call": 1 + r.randrange(len(fr) if where == "decode" else reads),
                      "line": r.choice((1, 2, 3, 5, 8, 13, 30, r.randrange(1, 200)))}
            elif kind == "open" and r.random() < 0.3:
                faults.append({"op": "open_r", "cls": "source", "path": name, "nth": 1,
                               "err": r.choice(E_OPENR)})
            else:
                faults.append({"op": "read", "cls": "source", "path": name, "nth": 1 + r.randrange(reads),
                               "err": "INT" if kind == "INT" else r.choice(E_READ)})
    w = std_world(r)
    w["faults"] = faults
    return {"mode": mode, "ctrl": sut.rand_ctrl(r), "chunk": chunk, "world": w, "sources": srcs, "int": ip}


def run(scn, root):
    sut.setup_files(root, scn)
    o = sut.run_main(root, scn)
    v = basic_faults(o)
    stopped = {}
    for f in o.w.faults:
        if f["hits"]:
            stopped[f["path"]] = f
    if o.intr.fired:
        stopped[scn["sources"][scn["int"]["conv"] - 1]["name"]] = scn["int"]
    m = {"bytes": 0, "frames": 0, "seam_events": o.w.nev}
    probes = {"stopped_sources": len(stopped), "partial_prefix": 0}
    vs = sut.verdicts(o.err)
    ctrl = sut.norm(scn["ctrl"])
    if not v and len(vs) != len(scn["sources"]):
        v = viol("verdict", "%d verdicts for %d sources: %r" % (len(vs), len(scn["sources"]), vs))
    if not v and o.open:
        v = viol("open", "left open: %s" % o.open[0][0])
    for k, src in enumerate(scn["sources"]):
        if v:
            break
        data, frames, gaps, exp = expect_for(src, scn["mode"], scn["ctrl"])
        m["bytes"] += len(data)
        m["frames"] += len(frames)
        files = oracle.split_outdir(o.after, sut.outdir(src["name"], scn["mode"]))
        if files is None:
            v = viol("product", "%s: no output folder" % src["name"])
            break
        hit = stopped.get(src["name"])
        log = "".join(d.decode("utf-8", "replace") for p, d in files.items() if p.endswith("-log.txt"))
        lv = sut.verdicts(log)
        if hit:
            if vs[k] != "Decoding was terminated." or lv != [vs[k]]:
                v = viol("verdict", "%s was stopped (%s) but reported as %r, log %r" % (
                    src["name"], hit.get("err", "interrupt"), vs[k], lv))
                break
            calls, done = o.intr.per_conv[k] if k < len(o.intr.per_conv) else ({"parse_bytes": 0}, {"decode": 0})
            upto = done["decode"]
            seen = o.intr.observed(k, src["name"])
            must = 0
            if hit.get("op") == "read":
                # everything that arrived before the stop was processed
                got = o.w.delivered.get(src["name"], 0)
                fr, _ = spec.scan(data[:got], False)
                must = sum(1 for a, b in fr if b + 1029 <= got) if _damaged(src) else len(fr)
                if seen and upto < must:
                    v = viol("prefix", "%s: %d frames arrived, only %d were processed before the stop" % (
                        src["name"], must, upto))
                    break
            probes["partial_prefix"] += 0 < upto < len(frames)
            # calls that cannot be observed: any prefix will do
            wants = [exp.products(upto=u) for u in ([upto] if seen else range(must, len(frames) + 1))]
        else:
            if vs[k] == "Decoding was terminated." or lv != [vs[k]]:
                v = viol("verdict", "%s was not stopped but reported as %r, log %r" % (src["name"], vs[k], lv))
                break
            wants = [exp.products()]
        e = None
        for want in wants:
            e = oracle.check_products(files, want, ctrl)
            if not e:
                break
        if e:
            v = viol(e[0], "%s (%s): %s" % (src["name"], "stopped" if hit else "not stopped", e[1]))
    return finish(o, v, nt=bool(stopped), m=m, probes=probes,
                  sample=sample(scn) if m["bytes"] < 500 else None)


def _damaged(src):
    return any(s["k"] != "frame" for s in src["segs"])
