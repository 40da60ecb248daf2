"""C08: a storage failure is never reported as success and never invents data."""

import json

from .. import gen, oracle, spec, sut
from .common import *  # noqa

RUNS = {"quick": 6000, "thorough": 250000}
SHRINK = [("sources", "*", "segs"), ("world", "faults")]
RULE = ("A source is converted on a disk that fails at seeded events: product creation, folder creation, a write (no"
        " or partial progress, once or for good), a close, a full disk, exhausted file handles. The result is compared"
        " with the fault-free run. Non-trivial: at least one fault hit a product.")
REAL = REAL_ALL
STUB = STUB_FS


def make(seed, i, tier):
    r = gen.rng_for(seed, "C08", i)
    mode = spec.MODES[i % 4]
    fr = messages(r, mode, r.choice((1, 3, 6, 10)), small=r.random() < 0.6, p_unsup=0.05, p_bad=0.05)
    segs = gen.link(r, fr, rate=r.choice((0.0, 0.0, 0.2)), small_max=True)
    w = std_world(r)
    faults = []
    kind = r.choice(("open", "open", "mkdir", "write", "write", "write", "close", "close", "space", "fds", "multi"))
    exp = spec.Expect([f for f in fr], mode, spec.DEF_CTRL)
    paths = sorted(exp.products())

    def one(kind):
        if kind == "open":
            f = {"op": "open_w", "cls": "product", "nth": r.choice((1, 1, 2, 3, 5)),
                 "err": r.choice(E_OPENW)}
        elif kind == "mkdir":
            f = {"op": "mkdir", "cls": "product", "nth": r.choice((1, 1, 2)),
                 "err": r.choice(E_MKDIR)}
        elif kind == "write":
            f = {"op": "write", "cls": "product", "nth": r.choice((1, 1, 2, 3, 5, 8, r.randrange(1, 60))),
                 "err": r.choice(E_WRITE), "part": r.choice((0, 0, 0.3, 0.9))}
        else:
            f = {"op": "close", "cls": "product", "nth": r.choice((1, 1, 2, 3, 6)),
                 "err": r.choice(E_CLOSE)}
        f["sticky"] = r.random() < 0.4
        if kind in ("open", "mkdir") and r.random() < 0.25:
            f["late"] = True  # done, but the answer is an error (lost reply of a share, race with another program)
        if paths and r.random() < 0.4:
            p = r.choice(paths)
            f["path"] = p if kind != "mkdir" else p.split("/")[0]
            f["nth"] = r.choice((1, 1, 1, 2))
        return f

    if kind == "space":
        w["space"] = r.choice((0, 100, 1000, r.randrange(1, 20000)))
    elif kind == "fds":
        w["maxfd"] = r.choice((2, 3, 4, 6))
    elif kind == "multi":
        faults = [one(r.choice(("open", "mkdir", "write", "close"))) for _ in range(r.choice((2, 3)))]
    else:
        faults = [one(kind)]
    if r.random() < 0.2:
        faults.append({"op": "write", "cls": "product", "nth": 1, "err": "SHORT", "part": 0.3, "sticky": True})
    w["faults"] = faults
    return {"mode": mode, "ctrl": sut.rand_ctrl(r), "chunk": r.choice((4096, 200, 1029)), "world": w,
            "sources": [{"name": "data/s.rtcm3", "segs": segs}]}


# -- is D genuine output of a run that would have written F? ------------------


def json_tokens(text):
    dec = json.JSONDecoder()
    out = []
    i = 0
    while i < len(text):
        if text[i] in " \r\n\t[],":
            i += 1
            continue
        _, j = dec.raw_decode(text, i)
        out.append(text[i:j])
        i = j
    return out


def genuine_json(D, F):
    toks = json_tokens(F)
    i = 0
    ptr = 0
    while i < len(D):
        if D[i] in " \r\n\t[],":
            i += 1
            continue
        for j in range(ptr, len(toks)):
            if D.startswith(toks[j], i):
                if ptr == 0 and j != 0:
                    return "record without the leading source type"
                ptr = j + 1
                i += len(toks[j])
                break
        else:
            rest = D[i:]
            for cut in {rest} | {rest[:-len(x)] for x in ("]", "\r]", "\r") if rest.endswith(x)}:
                if any(t.startswith(cut) for t in toks[ptr:]):
                    return None
            return "holds something a fault-free run does not write: %r" % rest[:80]
    return None


def genuine_lines(D, F):
    toks = F.splitlines(True)
    ptr = 0
    lines = D.splitlines(True)
    for n, ln in enumerate(lines):
        for j in range(ptr, len(toks)):
            if toks[j] == ln:
                if n < 2 and j != n:
                    return "header is not in place"
                ptr = j + 1
                break
        else:
            if n == len(lines) - 1 and not ln.endswith("\n") and any(t.startswith(ln) for t in toks[ptr:]):
                return None
            return "row that a fault-free run does not write: %r" % ln[:80]
    return None


def genuine(path, D, F):
    try:
        D, F = D.decode("utf-8", "ignore"), F.decode("utf-8")
    except UnicodeDecodeError:
        return "not text"
    return genuine_json(D, F) if path.endswith(".json") else genuine_lines(D, F)


def _clean_run(root, scn):
    sut.clean(root)
    sut.setup_files(root, scn)
    o = sut.run_main(root, scn, {"seed": 0})
    return oracle.split_outdir(o.after, sut.outdir(scn["sources"][0]["name"], scn["mode"])), o.exc


def _complete(files, exp, ctrl):
    return oracle.check_products(files, exp.products(), ctrl) is None


def run(scn, root):
    src = scn["sources"][0]
    ref, exc = sut.isolated(_clean_run, root, scn)
    if exc or ref is None:
        return {"v": viol("crash", "fault-free run: %s" % exc)}
    sut.clean(root)
    sut.setup_files(root, scn)
    o = sut.run_main(root, scn)
    v = basic_faults(o)
    data, frames, gaps, exp = expect_for(src, scn["mode"], scn["ctrl"])
    ctrl = sut.norm(scn["ctrl"])
    d = sut.outdir(src["name"], scn["mode"])
    touched = {t[len(d) + 1:] for t in o.w.touched if t.startswith(d + "/") and not t.endswith("-log.txt")}
    dirs_hit = {t[len(d) + 1:] for t in o.w.dirs_touched if t.startswith(d + "/")} - {
        t[len(d) + 1:] for t in o.w.files_touched if t.startswith(d + "/")}
    files = oracle.split_outdir(o.after, d)
    vs = sut.verdicts(o.err)
    probes = {"finished_with_errors": 0, "terminated": 0, "untouched_products": 0, "touched_products": len(touched)}
    if not v and o.open:
        v = viol("open", "left open: %s" % o.open[0][0])
    if not v and files is None:
        v = viol("product", "no output folder")
    if not v and touched:
        # a folder that could not be made but is there after all is no failure of a product
        harmless = all(t in dirs_hit for t in touched) and _complete(files, exp, ctrl)
        if not vs or "Finished without errors." in vs and not harmless:
            v = viol("verdict", "output failed (%s) but the verdict is %r" % (dict(o.w.fired), vs))
        probes["terminated"] = int("Decoding was terminated." in vs)
        probes["finished_with_errors"] = int("Finished with errors." in vs)
    if not v:
        prod = oracle.products_of(files)
        if o.intr.per_conv:
            calls, done = o.intr.per_conv[0]
            n = done["decode"]
            cand = [n] if calls["print"] == done["print"] else [n - 1, n]
            if not o.intr.observed(0, src["name"]):
                cand = range(len(frames) + 1)  # the calls cannot be observed
        else:
            cand = [0]
        wants = [exp.products(upto=c) for c in cand]
        for p in sorted(set(prod) | set().union(*wants)):
            hit = p in touched or any(t == p.rsplit("/", 1)[0] for t in touched)
            if hit:
                if p not in prod:
                    continue
                if p not in ref:
                    v = viol("invented", "product %s does not belong to this source" % p)
                    break
                e = genuine(p, prod[p], ref[p])
                if e:
                    v = viol("invented", "%s: %s" % (p, e))
                    break
            else:
                probes["untouched_products"] += 1
                errs = []
                for want in wants:
                    if p not in want:
                        errs.append("unexpected product" if p in prod else None)
                    elif p not in prod:
                        errs.append("missing")
                    else:
                        errs.append(oracle.check_product(p, prod[p], want[p], ctrl))
                if all(errs):
                    v = viol("collateral", "%s was not hit by a failure but: %s" % (p, errs[0]))
                    break
    return finish(o, v, nt=bool(touched), m=measure(data, frames, o.w), probes=probes,
                  sample=sample(scn) if len(data) < 300 and touched else None)
