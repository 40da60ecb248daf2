"""C23: running out of memory is never silent and costs one message or stops one source."""

import os
import sys

from .. import gen, oracle, spec, sut
from .common import *  # noqa
from .c08 import genuine

RUNS = {"quick": 4500, "thorough": 200000}
SHRINK = [("sources", "*", "segs"), ("sources",)]
KEEP = {"sources": 1}
RULE = ("A batch of one to three sources is converted. While one of them is being parsed, decoded and printed, one"
        " call made by converter code fails because no memory is left: the call site is drawn uniformly from those"
        " that a healthy run passes, then one of its passages. Non-trivial: the failure happened.")
REAL = REAL_ALL
STUB = STUB_FS + ["memory allocation at call boundaries of converter code"]
ASSUME = ["one allocation failure per run; the finalisation of a source (closing, verdict) is spared"]

TOOL = 3


class Memory:
    """Lets the n-th call from one call site fail, while armed."""

    def __init__(self, plan=None):
        self.plan = plan
        self.sites = {}
        self.armed = False
        self.fired = None
        self.at = None

    def _call(self, code, off, fn, arg0):
        if not code.co_filename.startswith(sut.REPO + os.sep):
            return sys.monitoring.DISABLE
        if not self.armed:
            return None
        s = (os.path.relpath(code.co_filename, sut.REPO), code.co_qualname, off)
        n = self.sites[s] = self.sites.get(s, 0) + 1
        if self.plan is not None and self.plan[0] == s and self.plan[1] == n:
            self.armed = False
            self.fired = s
            if self.at is not None:
                self.at()
            raise MemoryError("no memory")
        return None

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(TOOL, "memory")
        m.register_callback(TOOL, m.events.CALL, self._call)
        m.set_events(TOOL, m.events.CALL)
        m.restart_events()
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(TOOL, 0)
        m.register_callback(TOOL, m.events.CALL, None)
        m.free_tool_id(TOOL)


def make(seed, i, tier):
    r = gen.rng_for(seed, "C23", i)
    mode = spec.MODES[i % 4]
    n = r.choice((1, 1, 2, 3))
    srcs = []
    for k in range(n):
        fr = messages(r, mode, r.choice((1, 2, 4, 7)), small=r.random() < 0.8, p_unsup=0.1, p_bad=0.05)
        srcs.append({"name": "data/s%d.rtcm3" % k,
                     "segs": gen.link(r, fr, rate=r.choice((0.0, 0.0, 0.3)), small_max=True)})
    return {"mode": mode, "ctrl": sut.rand_ctrl(r), "chunk": r.choice((4096, 300, 100, 1000)), "world": std_world(r),
            "sources": srcs, "victim": r.randrange(n), "site": r.random(), "pass": r.random(),
            "where": r.choice(("any", "any", "parse_bytes", "decode", "print"))}


def _exec(root, scn, plan):
    sut.clean(root)
    sut.setup_files(root, scn)
    mem = Memory(plan)
    victim = scn["sources"][scn["victim"] % len(scn["sources"])]
    vk = scn["sources"].index(victim)
    size = len(gen.join(victim["segs"]))
    got = {}

    def prepare(w):
        def event(op, rel):
            if rel != victim["name"]:
                return
            if op == "close" or op == "read" and w.delivered.get(rel, 0) >= size:
                mem.armed = False
                got["over"] = True
        w.hooks["event"] = event

    class Intr(sut.Interrupter):
        def _wrap(self, conv, name, me, calls, done):
            real = getattr(conv, name)

            def fn(*a, **kw):
                on = me == vk + 1 and mem.fired is None and not got.get("over") and got["w"].delivered.get(victim["name"], 0)
                if on:
                    mem.at = lambda: got.update(during=name, calls=dict(calls), done=dict(done))
                    if scn["where"] in ("any", name):
                        mem.armed = True
                try:
                    return real(*a, **kw)
                finally:
                    if on:
                        mem.at = lambda: got.update(during="loop", calls=dict(calls), done=dict(done))
                    if scn["where"] != "any":
                        mem.armed = False

            self._put(conv, name, fn)
            super()._wrap(conv, name, me, calls, done)

    def prep(w):
        got["w"] = w
        prepare(w)

    old = sut.Interrupter
    sut.Interrupter = Intr
    try:
        with mem:
            o = sut.run_main(root, scn, prepare=prep)
    except MemoryError as e:
        if mem.fired is None:
            raise
        return {"exc": "MemoryError @ " + sut.where(e), "fired": mem.fired, "got": {}, "err": "", "nev": 0, "sig": "",
                "escapes": [], "open": []}
    finally:
        sut.Interrupter = old
    got.pop("w")
    return {"exc": o.exc, "escapes": list(o.w.escapes), "after": o.after, "open": o.open, "err": o.err,
            "sites": mem.sites, "fired": mem.fired, "got": got, "nev": o.w.nev, "sig": o.w.sig()}


def _subsequence(path, data, items, ctrl):
    """None if the product is well formed and its records are some of the items, in order; else what is wrong"""
    n = len(items)
    if path.endswith(".json"):
        try:
            st, recs = oracle.parse_json_product(data)
        except oracle.Diff as e:
            return str(e)
        j = 0
        for k, rec in enumerate(recs):
            while j < n and oracle.same(items[j][1], rec):
                j += 1
            if j == n:
                return "record %d is not one of the source, or out of order" % k
            j += 1
        return None
    try:
        rows = oracle.parse_margo(data)
        oracle.check_margo_header(path, rows, ctrl)
    except oracle.Diff as e:
        return str(e)
    j = 0
    for k, row in enumerate(rows[2:]):
        while j < n and _bad_row(path, row, items[j], ctrl):
            j += 1
        if j == n:
            return "row %d is not one of the source, or out of order" % k
        j += 1
    return None


def _bad_row(path, row, item, ctrl):
    try:
        oracle.check_margo_row(path, row, item, ctrl)
    except oracle.Diff:
        return True
    return False


def run(scn, root):
    ref = sut.isolated(_exec, root, scn, None)
    sites = sorted(ref["sites"])
    vk = scn["victim"] % len(scn["sources"])
    if ref["exc"]:
        return {"v": viol("crash", "healthy run: " + ref["exc"])}
    plan = None
    if sites:
        s = sites[int(scn["site"] * len(sites))]
        plan = (s, 1 + int(scn["pass"] * ref["sites"][s]))
    o = sut.isolated(_exec, root, scn, plan) if plan else ref
    v = None
    fired = {}
    probes = {"call_sites": len(sites)}
    what = ""
    if o["fired"]:
        fired["memory:" + o["got"].get("during", "loop")] = 1
        what = "no memory at %s:%s" % o["fired"][:2]
    vs = sut.verdicts(o["err"])
    ctrl = sut.norm(scn["ctrl"])
    m = {"bytes": 0, "frames": 0, "seam_events": o["nev"] + ref["nev"]}
    if o["exc"]:
        v = viol("crash", "%s: the program crashed: %s" % (what, o["exc"]))
    elif o["escapes"]:
        v = viol("escape", o["escapes"][0])
    elif o["open"]:
        v = viol("open", "%s: left open: %s" % (what, o["open"][0][0]))
    elif len(vs) != len(scn["sources"]):
        v = viol("verdict", "%s: %d verdicts for %d sources" % (what, len(vs), len(scn["sources"])))
    for k, src in enumerate(scn["sources"]):
        if v:
            break
        data, frames, gaps, exp = expect_for(src, scn["mode"], scn["ctrl"])
        m["bytes"] += len(data)
        m["frames"] += len(frames)
        d = sut.outdir(src["name"], scn["mode"])
        files = oracle.split_outdir(o["after"], d)
        if files is None:
            v = viol("product", "%s: no output folder" % src["name"])
            break
        full = oracle.check_products(files, exp.products(), ctrl)
        if k != vk or not o["fired"]:
            if full:
                v = viol(full[0], "%s, not hit: %s" % (src["name"], full[1]))
            elif vs[k] == "Decoding was terminated.":
                v = viol("verdict", "%s, not hit, was terminated" % src["name"])
            continue
        if full is None:
            continue
        probes["lost_something"] = 1
        if vs[k] == "Finished without errors.":
            v = viol("silent", "%s in %s: %s, and yet: %s" % (what, o["got"].get("during"), full[1], vs[k]))
            break
        prod = oracle.products_of(files)
        refp = oracle.products_of(oracle.split_outdir(ref["after"], d))
        items = exp.products()
        g = o["got"]
        printing = g.get("during") == "print" and g["calls"]["print"] != g["done"]["print"]
        for p in sorted(prod):
            if p not in refp:
                v = viol("invented", "%s: product %s does not belong to this source" % (what, p))
                break
            e = genuine(p, prod[p], refp[p]) if printing else _subsequence(p, prod[p], items[p], ctrl)
            if e:
                v = viol("invented", "%s in %s: %s: %s" % (what, g.get("during"), p, e))
                break
        if v or not g.get("done"):
            continue
        # what had been converted before is still there
        n = g["done"]["decode"] - (g.get("during") in ("print", "loop"))
        for p, it in exp.products(upto=max(0, n)).items():
            e = "missing"
            if p in prod:
                cut = prod[p]
                if printing:
                    continue
                e = _leading(p, cut, it, ctrl)
            if e:
                v = viol("lost", "%s in %s, after %d messages: %s: %s" % (what, g.get("during"), n, p, e))
                break
        if not v and vs[k] == "Finished with errors." and not printing:
            # it went on: the message at hand is the only one missing
            j = g["done"]["decode"]
            less = spec.Expect(frames[:j] + frames[j + 1:], scn["mode"], ctrl)
            e = oracle.check_products(files, less.products(), ctrl)
            if e:
                v = viol("lost", "%s in %s: more than message %d is missing: %s" % (what, g.get("during"), j, e[1]))
    return {"v": v, "sig": sig_of(o["sig"], plan), "nt": bool(o["fired"]), "fired": fired, "m": m, "probes": probes,
            "sample": sample(scn, {"call": list(o["fired"] or ()), "verdicts": vs}) if m["bytes"] < 400 else None}


def _leading(path, data, items, ctrl):
    try:
        if path.endswith(".json"):
            recs = oracle.parse_json_product(data)[1]
            for a, b in zip(items, recs):
                e = oracle.same(a[1], b)
                if e:
                    return e
        else:
            recs = oracle.parse_margo(data)[2:]
            for it, row in zip(items, recs):
                oracle.check_margo_row(path, row, it, ctrl)
        if len(recs) < len(items):
            return "%d records, %d had been converted" % (len(recs), len(items))
    except oracle.Diff as e:
        return str(e)
    return None
