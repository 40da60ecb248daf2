"""C14: converters in one process do not influence each other."""

import gc
import os
import sys
import threading

from .. import gen, oracle, spec, sut, world
from ..world import World
from .common import *  # noqa

RUNS = {"quick": 2600, "thorough": 110000}
SHRINK = [("convs", "*", "segs"), ("quanta",), ("world", "faults"), ("convs",)]
KEEP = {"convs": 1}
WALL = 90
RULE = ("Two to four converters, each with its own byte stream, mode, settings, chunking and way of ending (released,"
        " abandoned alive, dropped, failing output), run on one thread each under a baton scheduler: the seeded list of"
        " quanta decides after how many executed lines (or bytecodes) of converter code, or after which library call,"
        " which thread goes on. What each returns, counts and writes is compared with the same converter alone in a"
        " fresh process. Distinct by the hash of the executed switch points and of the seam-event trace. Non-trivial:"
        " at least one switch between two live converters.")
REAL = ["converter_top", "decoder_top", "sub_decoders", "utilities", "gnss_types", "printer_top", "printers",
        "controls", "CPython io buffering"]
STUB = STUB_FS + ["thread scheduling (baton passing at line, bytecode or call boundaries of converter code)"]


def make(seed, i, tier):
    r = gen.rng_for(seed, "C14", i)
    n = r.choice((2, 2, 2, 3, 4))
    convs, faults = [], []
    twin = r.random() < 0.35
    mode0 = r.choice(spec.MODES)
    shared = messages(r, "MARGO", 3, nums=ALL_NUMS, small=True)
    mirror = r.random() < 0.25  # everybody listens to the same station
    nums0 = r.sample(gen.MSM_NUMS, 2) + r.sample(gen.EPH_NUMS + gen.BASE_NUMS, 2)
    common = r.choice((0.1, 0.5, 1.0))
    for k in range(n):
        mode = mode0 if twin else r.choice(spec.MODES)
        nums = [x for x in nums0 if x in nums_for(mode)] if r.random() < common else None
        fr = messages(r, mode, r.choice((1, 2, 4)), nums=nums, small=True, p_unsup=0.1, p_bad=r.choice((0, 0.2)))
        if mirror:
            if not k:
                shared = messages(r, "MARGO", r.choice((2, 4, 8)), nums=ALL_NUMS, small=True, p_bad=r.choice((0, 0.1)))
            fr = shared[:] if r.random() < 0.8 else shared[r.randrange(len(shared)):]
        elif r.random() < 0.3:
            fr += shared
            r.shuffle(fr)
        segs = gen.link(r, fr, rate=r.choice((0.0, 0.3)), small_max=True)
        c = {"mode": mode, "ctrl": sut.rand_ctrl(r), "segs": segs, "chunk": r.choice((7, 50, 300, 1000, 4096)),
             "end": r.choice(("release", "release", "release", "abandon", "drop", "noflush", "twice"))}
        if r.random() < 0.2:
            op = r.choice(("open_w", "write", "mkdir"))
            faults.append({"op": op, "under": "c%d" % k, "nth": r.choice((1, 2, 4)) + (op == "mkdir"), "err":
                           r.choice(E_WRITE if op == "write" else E_OPENW if op == "open_w" else E_MKDIR), "sticky": r.random() < 0.5})
        convs.append(c)
    sub = r.choice((None, None, "out", "s-" + mode0))
    level = r.choice(("call", "line", "line", "line", "opcode"))
    hi = {"call": 3, "line": r.choice((3, 30, 300)), "opcode": r.choice((10, 200, 2000))}[level]
    quanta = [[r.randrange(n), r.randrange(1, hi + 1)] for _ in range(r.choice((5, 20, 60, 150, 500)))]
    w = std_world(r)
    w["faults"] = faults
    return {"convs": convs, "sub": sub, "level": level, "quanta": quanta, "world": w}


class Script:
    """One user of one converter."""

    def __init__(self, w, root, k, c, order, sub=None):
        self.w, self.root, self.k, self.c, self.order = w, root, k, c, order
        self.name = "c%d" % k + ("/" + sub if sub else "")
        self.log = []
        self.conv = None
        self.step = lambda: None

    def act(self, name, fn):
        self.step()
        try:
            return fn()
        except (KeyboardInterrupt, MemoryError, sut.Hang):
            raise
        except Exception as e:
            self.log.append((name, type(e).__name__))
            return None

    def go(self):
        c = self.c
        self.order.reset()
        self.conv = self.act("make", lambda: sut.make_converter(self.root, self.name, c["mode"], c["ctrl"]))
        if self.conv is None:
            return
        data = gen.join(c["segs"])
        chunk = c["chunk"]
        parts = [data[j:j + chunk] for j in range(0, len(data), chunk)]
        if c["end"] != "noflush":
            parts.append(None)
        for p in parts:
            ms = self.act("parse", (lambda: self.conv.parse_bytes(p)) if p is not None else self.conv.flush)
            self.log.append(("frames", [bytes(m) for m in ms or ()]))
            for m in ms or ():
                x = self.act("decode", lambda: self.conv.decode(m))
                if x is not None:
                    self.act("print", lambda: self.conv.print(x))
            self.log.append(("stats", sut.stats(self.conv)))
        if c["end"] in ("release", "noflush", "twice"):
            self.act("release", self.conv.release)
            if c["end"] == "twice":
                self.act("release", self.conv.release)
            self.log.append(("stats", sut.stats(self.conv)))
        elif c["end"] == "drop":
            self.conv = None
            gc.collect()


class Baton:
    """Exactly one thread runs; the quanta decide which and for how long."""

    def __init__(self, level, quanta, scripts):
        self.level = level
        self.scripts = scripts
        self.quanta = quanta
        self.left = 0
        self.cur = None
        self.sems = [threading.Semaphore(0) for _ in scripts]
        self.back = threading.Semaphore(0)
        self.done = [False] * len(scripts)
        self.err = None
        self.switches = []
        self.stuck = set()
        self.lines = 0

    def tick(self, k):
        self.lines += 1
        if self.cur != k:
            return
        self.left -= 1
        if self.left <= 0:
            self.back.release()
            self.sems[k].acquire()

    def body(self, k):
        s = self.scripts[k]
        self.sems[k].acquire()
        if self.level == "call":
            s.step = lambda: self.tick(k)
        else:
            op = self.level == "opcode"
            want = "opcode" if op else "line"

            def local(frame, event, arg):
                if event == want:
                    self.tick(k)
                return local

            def glob(frame, event, arg):
                if not frame.f_code.co_filename.startswith(sut.REPO + os.sep):
                    return None
                if op:
                    frame.f_trace_opcodes = True
                return local

            sys.settrace(glob)
        try:
            s.go()
        except BaseException as e:
            self.err = e
        finally:
            sys.settrace(None)
            self.done[k] = True
            self.back.release()

    def give(self, k, n):
        self.cur, self.left = k, n
        at = self.lines
        self.sems[k].release()
        # A thread that waits for another one (a lock) cannot give the baton
        # back; the others go on then.
        if not self.back.acquire(timeout=10):
            self.stuck.add(k)
        if self.lines > at:
            self.switches.append((k, self.lines - at))

    def run(self):
        ts = [threading.Thread(target=self.body, args=(k,), daemon=True) for k in range(len(self.scripts))]
        for t in ts:
            t.start()
        for k, n in self.quanta:
            k %= len(ts)
            if not self.done[k] and k not in self.stuck:
                self.give(k, n)
        for _ in range(3):
            for k in range(len(ts)):
                if not self.done[k] and k not in self.stuck:
                    self.give(k, 1 << 60)
            if all(self.done):
                break
            self.stuck.clear()
        if self.err is not None:
            raise self.err
        for t in ts:
            t.join(20)


def _exec(root, scn, only):
    sut.clean(root)
    w = World(root, scn["world"])
    w.classify = lambda rel: "ini" if rel.endswith(".ini") else "product"
    order = world.HashOrder(scn["world"].get("seed", 0))
    scripts = [Script(w, root, k, c, order, scn.get("sub")) for k, c in enumerate(scn["convs"])]
    switches = []
    gc.collect()
    gc.disable()  # collected at defined points only (this process ends with the run)
    with w:
        if only is not None:
            scripts[only].go()
        else:
            b = Baton(scn["level"], scn["quanta"], scripts)
            b.run()
            switches = b.switches
        files = tree(root)
        opn = w.openset()
    out = []
    for k, s in enumerate(scripts):
        if only is None or k == only:
            d = "c%d" % k
            out.append((s.log, {p: v for p, v in files.items() if p == d or p.startswith(d + "/")},
                        [p for p, _ in opn if p.startswith(d + "/")]))
    return out, switches, w.nev, w.sig(), dict(w.fired), list(w.escapes)


def run(scn, root):
    out, switches, nev, sig, fired, esc = sut.isolated(_exec, root, scn, None)
    v = None
    if esc:
        v = viol("escape", esc[0])
    for k, c in enumerate(scn["convs"]):
        if v:
            break
        alone, _, n1, *_ = sut.isolated(_exec, root, scn, k)
        nev += n1
        (l1, f1, o1), (l2, f2, o2) = out[k], alone[0]
        if l1 != l2:
            j = 0
            while j < min(len(l1), len(l2)) and l1[j] == l2[j]:
                j += 1
            a = l1[j] if j < len(l1) else None
            b = l2[j] if j < len(l2) else None
            v = viol("behaviour", "converter %d (%s): step %d: %s among others, %s alone" % (
                k, c["mode"], j, str(a)[:150], str(b)[:150]))
        elif f1 != f2 and c["end"] != "drop":
            p = sorted(x for x in set(f1) | set(f2) if f1.get(x) != f2.get(x))[0]
            v = viol("products", "converter %d (%s): %s differs from its use alone" % (k, c["mode"], p))
        elif c["end"] in ("release", "twice", "noflush") and o1 and not o2:
            v = viol("open", "converter %d: %s still open" % (k, o1[0]))
    nsw = sum(1 for a, b in zip(switches, switches[1:]) if a[0] != b[0])
    size = sum(len(x["h"]) // 2 for c in scn["convs"] for x in c["segs"])
    return {"v": v, "sig": sig_of(sig, switches), "nt": nsw > 0, "fired": fired,
            "m": {"bytes": size, "seam_events": nev, "context_switches": nsw},
            "probes": {"level:" + scn["level"]: 1, **{"end:" + c["end"]: 1 for c in scn["convs"]}},
            "sample": {"convs": [[c["mode"], c["end"], c["chunk"], len(c["segs"])] for c in scn["convs"]],
                       "level": scn["level"], "switches": switches[:12]} if nsw else None}
