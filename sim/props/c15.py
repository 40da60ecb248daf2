"""C15: endless streams do not exhaust memory or file handles."""

import gc
import os
import random
import tracemalloc

from .. import gen, oracle, spec, sut, world
from ..world import World
from .common import *  # noqa

RUNS = {"quick": 320, "thorough": 16000}
SHRINK = [("nums",), ("kinds",), ("world", "faults")]
KEEP = {"nums": 1, "kinds": 1}
WALL = 120
RULE = ("A stream of fresh, never repeating messages, damage and noise is fed through the library or through a whole"
        " program run; live heap memory (every allocation of the process, after garbage collection) is measured after"
        " n, 2n and 4n messages. Memory proportional to the number of messages shows as growth between 2n and 4n,"
        " when every product is already open. Also: bytes withheld after a large piece of noise, no product opened"
        " twice at a time, nothing left open after the end (normal, failing, interrupted). Non-trivial: the set of"
        " open products was the same at 2n and 4n, so that growth is attributable.")
REAL = REAL_ALL
STUB = STUB_FS
ASSUME = ["growth below 2.5 KB (library) or 5 KB (program) over several hundred messages, or 200 bytes per source of a batch,"
          " is regarded as constant, and so is growth that does not go on in a four times longer stream"]

# what is in flight differs a little from sample to sample; opening a text file
# costs the interpreter some 60 bytes that never come back
LIMIT = {"api": lambda n: 2500, "main": lambda n: 5000, "batch": lambda n: 3000 + 200 * (n // 2)}
KINDS = ("good", "bad", "unsup", "noise", "flip", "d3", "text")


def make(seed, i, tier):
    r = gen.rng_for(seed, "C15", i)
    mode = spec.MODES[i % 4]
    nums = nums_for(mode)
    pick = r.sample(nums, r.choice((1, 1, 2, 3, 3, 16, 30)))
    kinds = ["good"] + r.sample(KINDS[1:], r.choice((0, 1, 2, 6)))
    if r.random() < 0.15:
        kinds = r.sample(("noise", "d3", "unsup", "flip", "bad"), r.choice((1, 2)))
    w = {"seed": r.getrandbits(30), "buf": r.choice((16, 256)), "txt": 1, "faults": []}
    how = r.choice(("api", "api", "api", "main", "main", "batch"))
    end = r.choice(("release", "release", "fault", "noflush")) if how == "api" else "main"
    if r.random() < 0.2:
        w["faults"].append({"op": "open_w", "cls": "product", "nth": r.choice((1, 2)), "err": "EACCES", "sticky": True})
    if end == "fault":
        w["faults"].append({"op": "close", "cls": "product", "nth": r.choice((1, 2)), "err": "EIO",
                            "sticky": r.random() < 0.5})
    return {"mode": mode, "ctrl": sut.rand_ctrl(r), "nums": pick, "kinds": kinds, "n": r.choice((80, 120, 200)),
            "unsup": [r.choice((1, 18, 999, 1010, 4072, 4095)) for _ in range(2)], "seed": r.getrandbits(40),
            "chunk": r.choice((1, 64, 500, 4096)), "how": how, "end": end, "world": w, "noise": r.getrandbits(30)}


def stream(scn):
    """4n pieces, every one fresh"""
    r = random.Random(scn["seed"])
    for j in range(4 * scn["n"]):
        kind = scn["kinds"][j % len(scn["kinds"])] if r.random() < 0.7 else r.choice(scn["kinds"])
        num = scn["nums"][j % len(scn["nums"])]
        kw = {"small": True} if num in spec.MSM else {}
        if kind == "good":
            yield spec.frame(gen.good(r, num, scn["mode"], **kw))
        elif kind == "bad":
            yield spec.frame(gen.malformed(r, num, scn["mode"]))
        elif kind == "unsup":
            u = r.choice(scn["unsup"])
            yield spec.frame((u << 4 | r.getrandbits(4)).to_bytes(2, "big") + r.randbytes(r.randrange(40)))
        elif kind == "noise":
            yield r.randbytes(r.randrange(1, 120))
        elif kind == "d3":
            yield b"\xd3\x00" + bytes([r.randrange(4, 60)]) + r.randbytes(r.randrange(60))
        elif kind == "text":
            yield b"$GPGGA,%d*00\r\n" % r.getrandbits(30)
        else:
            b = bytearray(spec.frame(gen.good(r, num, scn["mode"], **kw)))
            b[r.randrange(len(b))] ^= 1 << r.randrange(8)
            yield bytes(b)


def slow_noise(r):
    """Noise a parser may be tempted to collect"""
    c = r.choice((b"\xd3", b"\x00", b"\xff", bytes([r.randrange(256)]), None))
    out = r.choice((b"", b"\xd3\x03\xff", b"\xd3\x03\xff" + b"\xd3\x03\xff", b"\xd3\x00\x00"))
    k = r.choice((0, 1, 7))
    out += r.randbytes(k) + (r.randbytes(4000) if c is None else c * 4000)
    return out[:4000]


class Meter:
    def __init__(self, w):
        self.w = w
        self.at = []
        self.dup = None
        self.drop_delivered = False

    def take(self):
        w = self.w
        for x in (w.touched, w.dirs_touched, w.files_touched, w.mutations, w.listed, w.delivered if self.drop_delivered else []):
            x.clear()
        gc.collect()
        w.handles[:] = [h for h in w.handles if h[0]() is not None and not h[0]().closed]
        opn = len(w.openset())
        gc.collect()  # also empties the interpreter's free lists
        return tracemalloc.get_traced_memory()[0], opn

    def watch(self, op, rel):
        if op in ("open_w", "open_r") and self.dup is None and self.w.classify(rel) == "product":
            if any(p == rel for p, wr in self.w.openset()):
                self.dup = rel


def _api(root, scn, res):
    w = World(root, scn["world"])
    w.classify = lambda rel: "ini" if rel.endswith(".ini") else "product"
    order = world.HashOrder(scn["world"]["seed"])
    m = Meter(w)
    w.hooks["event"] = m.watch
    n = scn["n"]
    r = random.Random(scn["noise"])
    noise = r.randbytes(30000) if r.random() < 0.5 else (b"\xd3\x03\xff" + b"\x55" * r.randrange(40)) * 1500
    marks = {n: 0, 2 * n: 1, 4 * n: 2}
    with w:
        c = sut.make_converter(root, "out", scn["mode"], scn["ctrl"])
        tracemalloc.start()
        buf = b""

        def feed(b):
            for x in (c.parse_bytes(b) if b is not None else c.flush()):
                y = c.decode(x)
                if y is not None:
                    c.print(y)

        size = 0
        for j, piece in enumerate(stream(scn), 1):
            buf += piece
            size += len(piece)
            while len(buf) >= scn["chunk"]:
                feed(buf[:scn["chunk"]])
                buf = buf[scn["chunk"]:]
            if j in marks:
                feed(buf)
                buf = b""
                m.at.append(m.take())
        piece = None
        gc.collect()
        a = tracemalloc.get_traced_memory()[0]
        feed(noise)
        gc.collect()
        res["withheld"] = tracemalloc.get_traced_memory()[0] - a
        noise = None
        feed(b"\0" * 1100)
        slow = slow_noise(r)
        step = r.choice((1, 1, 1, 2, 5, 40))
        gc.collect()
        a = tracemalloc.get_traced_memory()[0]
        for j in range(0, len(slow), step):
            feed(slow[j:j + step])
            if j % 40 < step and tracemalloc.get_traced_memory()[0] - a > 1029 + 1000:
                gc.collect()
                res["withheld"] = max(res["withheld"], tracemalloc.get_traced_memory()[0] - a)
        slow = None
        tracemalloc.stop()
        if scn["end"] != "noflush":
            feed(None)
        try:
            c.release()
        except Exception as e:
            res["end_exc"] = type(e).__name__
        res["open"] = [p for p, _ in w.openset()]
    res.update(at=m.at, dup=m.dup, size=size)
    return w


def _main(root, scn, res):
    """Samples taken at reads of the source; of each quarter of the stream the
    smallest one counts (what is in flight differs from read to read)."""
    parts = list(stream(scn))
    acc = sum(map(len, parts))
    s = dict(scn, sources=[{"name": "data/s.rtcm3", "segs": []}], chunk=max(64, min(scn["chunk"], 500)))
    sut.setup_files(root, s)
    put(os.path.join(root, "data/s.rtcm3"), b"".join(parts))
    res["size"] = acc
    del parts
    box = {}
    step = max(1, acc // 40)

    def hook(w):
        m = box["m"] = Meter(w)
        w.out.drop = w.err.drop = True
        st = box["st"] = [acc // 4, 1 << 60, 1 << 60, -1, -2]  # next, least in 2nd and 4th quarter, open files

        def ev(op, rel):
            m.watch(op, rel)
            if op == "read" and rel == "data/s.rtcm3":
                d = w.delivered.get(rel, 0)
                if d >= st[0]:
                    st[0] = d + step
                    a, k = m.take()
                    if d * 2 < acc:
                        if k != st[3]:
                            st[1] = 1 << 60
                        st[1] = min(st[1], a)
                        st[3] = k
                    elif d * 4 >= acc * 3:
                        st[2] = min(st[2], a)
                        st[4] = k

        w.hooks["event"] = ev

    tracemalloc.start()
    o = sut.run_main(root, s, prepare=hook, light=True)
    tracemalloc.stop()
    _, two, four, k2, k4 = box["st"]
    at = [(two, k2), (two, k2), (four, k4)] if k2 == k4 and four < 1 << 60 else []
    res.update(at=at, dup=box["m"].dup, open=[p for p, _ in o.open], exc=o.exc)
    return o.w


def _batch(root, scn, res):
    """Many sources in one run; memory between sources."""
    it = stream(dict(scn, n=40))
    k = scn["n"] // 4
    names = []
    res["size"] = 0
    for j in range(4 * k):
        data = b"".join(p for _, p in zip(range(2), it))
        res["size"] += len(data)
        names.append("data/s%04d.rtcm3" % j)
        put(os.path.join(root, names[-1]), data)
    s = dict(scn, sources=[{"name": n, "segs": [], "absent": True} for n in names], chunk=4096)
    sut.setup_files(root, s)
    box = {}
    marks = {names[k]: 0, names[2 * k]: 1, names[4 * k - 1]: 2}

    def hook(w):
        m = box["m"] = Meter(w)
        m.drop_delivered = True
        w.out.drop = w.err.drop = True

        def ev(op, rel):
            m.watch(op, rel)
            if op == "open_r" and rel in marks:
                w.kinds.clear()
                m.at.append(m.take())

        w.hooks["event"] = ev

    tracemalloc.start()
    o = sut.run_main(root, s, prepare=hook, light=True)
    tracemalloc.stop()
    res.update(at=box["m"].at, dup=box["m"].dup, open=[p for p, _ in o.open], exc=o.exc)
    return o.w


def _longer(root, scn):
    sut.clean(root)
    res = {}
    {"main": _main, "api": _api, "batch": _batch}[scn["how"]](root, scn, res)
    return res["at"]


def _goes_on(root, scn, g2):
    """Does a four times longer stream take accordingly more? (A cache that fills up does not.)"""
    at = sut.isolated(_longer, root, dict(scn, n=4 * scn["n"]))
    return len(at) == 3 and at[2][0] - at[1][0] > max(2 * g2, LIMIT[scn["how"]](4 * scn["n"]))


def run(scn, root):
    gc.unfreeze()
    res = {}
    w = {"main": _main, "api": _api, "batch": _batch}[scn["how"]](root, scn, res)
    v = None
    at = res["at"]
    nt = len(at) == 3 and at[1][1:] == at[2][1:]
    g1, g2 = (at[1][0] - at[0][0], at[2][0] - at[1][0]) if len(at) == 3 else (0, 0)
    if res.get("exc"):
        v = viol("crash", res["exc"])
    elif res["open"]:
        v = viol("open", "left open: %s" % res["open"][0])
    elif res["dup"]:
        v = viol("handles", "%s was opened while it was open" % res["dup"])
    elif nt and g2 > LIMIT[scn["how"]](scn["n"]) and _goes_on(root, scn, g2):
        v = viol("memory", "memory grows with the number of messages (about 10^%d bytes per message)" % (
            len(str(int(g2 / (2 * scn["n"])))) - 1))
    elif res.get("withheld", 0) > 1029 + 1000:
        v = viol("withheld", "far more than one frame is withheld")
    return {"v": v, "sig": sig_of(w.sig(), scn["seed"]), "nt": nt, "fired": dict(w.fired),
            "m": {"bytes": res["size"], "frames": 0, "pieces": 4 * scn["n"], "seam_events": w.nev},
            "probes": {"how:" + scn["how"]: 1,
                       **{"kind:" + k: 1 for k in scn["kinds"]}},
            "sample": {k: scn[k] for k in ("mode", "nums", "kinds", "n", "how",
                                                                                 "chunk")}}
