"""C04, C05, C06: what a message carries is what its products show."""

from .. import gen, oracle, spec, sut
from .common import *  # noqa

GIANT = {"C04": {3: (1005, 1006, 1230), 4: (1019, 1020, 1042)}, "C05": {3: (1071, 1091), 4: (1074, 1127)}, "C06": {3: (1104, 1114), 4: (1137, 1117)}}
STUB = STUB_FS + ["the link that carries the byte stream"]


def fidelity_make(pid, seed, i, nums, modes, extra_nums):
    r = gen.rng_for(seed, pid, i)
    mode = modes[i % len(modes)]
    if i in GIANT[pid]:  # a very long file
        num = r.choice(GIANT[pid][i])
        if num in spec.MSM:  # one satellite, one signal: long tables
            sh = ([r.randrange(1, gen.sat_limit(num, mode) + 1)], [min(spec.SIG[spec.MSM[num][0]])], [1])
            fr = [spec.frame(gen.msm(r, num, shape=sh, hdr=(k, 0))) for k in range(12)]
        else:
            fr = [f for f in (spec.frame(gen.good(r, num, mode)) for _ in range(12)) if len(f) < 120]
        w = std_world(r)
        w.update(buf=8192, txt=None)
        return {"mode": mode, "ctrl": sut.rand_ctrl(r), "chunk": 4096, "world": w, "wall": 250,
                "sources": [{"name": "data/s.rtcm3", "segs": gen.giant(r, fr, 66000 if num < 1070 else 67000 if i == 3 else 11000, 3)}]}
    n = r.choice((3, 6, 10, 20))
    if i % 60 == 7:  # a long file: many records per product
        n = r.choice((130, 300, 550, 1100))
        fr = long_run(r, mode, n, nums)
    elif i % 60 == 37:  # a wide file: every kind of message, many products at once
        wide = list(nums) * r.choice((1, 1, 2, 3))
        if r.random() < 0.5:
            wide += extra_nums
        r.shuffle(wide)
        fr = [f for num in wide for f in messages(r, mode, 1, nums=[num], small=True)]
    else:
        fr = messages(r, mode, n, nums=nums)
    # neighbours of other kinds, malformed ones, proprietary ones
    mix = r.choice((0, 0, 2, 4))
    for f in messages(r, mode, mix, nums=extra_nums, small=True, p_unsup=0.3, p_bad=0.3) if mix else []:
        fr.insert(r.randrange(len(fr) + 1), f)
    rate = r.choice((0.0, 0.0, 0.1, 0.3))
    segs = gen.link(r, fr, rate=rate, small_max=True)
    return via_user(r, {"mode": mode, "ctrl": sut.rand_ctrl(r), "chunk": chunk_len(r), "world": std_world(r),
                        "sources": [{"name": "data/s.rtcm3", "segs": segs}]})


def fidelity_run(scn, root, mine, probes=None):
    src = scn["sources"][0]
    data, frames, gaps, exp = expect_for(src, scn["mode"], scn["ctrl"])
    sut.setup_files(root, scn)
    o = sut.run_main(root, scn)
    v = basic_faults(o)
    want = {p: x for p, x in exp.products().items() if mine(p)}
    if not v:
        files = oracle.split_outdir(o.after, sut.outdir(src["name"], scn["mode"]))
        if files is None:
            v = viol("product", "no output folder")
        else:
            files = {p: d for p, d in files.items() if mine(p)}
            e = oracle.check_products(files, want, sut.norm(scn["ctrl"]))
            if e:
                v = viol(*e)
    fired = {}
    for s in src["segs"]:
        if s["k"] != "frame":
            fired["link:" + s["k"]] = fired.get("link:" + s["k"], 0) + 1
    pr = {"records": sum(len(x) for x in want.values()), "products": len(want)}
    for p in want:
        pr["product:" + p.split("/")[-1] if p.startswith(("EPH", "BASE")) else "table_kind:" + _kind(p)] = 1
    return finish(o, v, nt=bool(want), m=measure(data, frames, o.w), fired=fired, probes=pr,
                  sample=sample(scn, {"products": sorted(want)[:4]}) if len(data) < 400 else None)


def _kind(p):
    n = p.split("/")[-1]
    return n[:4] if n.endswith(".obs") else n.split(".")[0]
