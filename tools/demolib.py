"""Helpers of the demonstrations: builds RTCM3 frames and runs the converter of the current folder."""
import json, os, subprocess, sys, tempfile, shutil, atexit

REPO = os.getcwd()
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
TMP = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, TMP, True)


def crc24q(b):
    c = 0
    for x in b:
        c ^= x << 16
        for _ in range(8):
            c <<= 1
            if c & 0x1000000:
                c ^= 0x1864CFB
    return c & 0xFFFFFF


def frame(p):
    h = bytes([0xD3, len(p) >> 8, len(p) & 255]) + p
    return h + crc24q(h).to_bytes(3, "big")


def pack(*f):
    """(value, width) pairs to bytes"""
    s = "".join(format(v & ((1 << w) - 1), f"0{w}b") for v, w in f)
    s += "0" * (-len(s) % 8)
    return bytes(int(s[i:i + 8], 2) for i in range(0, len(s), 8))


def m1005(x=0, y=0, z=0, sid=1):
    return frame(pack((1005, 12), (sid, 12), (0, 6), (1, 1), (1, 1), (0, 1), (0, 1),
                      (x, 38), (0, 1), (0, 1), (y, 38), (0, 2), (z, 38)))


def m1006(x=0, y=0, z=0, h=0, sid=1):
    return frame(pack((1006, 12), (sid, 12), (0, 6), (1, 1), (1, 1), (0, 1), (0, 1),
                      (x, 38), (0, 1), (0, 1), (y, 38), (0, 2), (z, 38), (h, 16)))


def m1007(descr, sid=1):
    b = descr.encode()
    return frame(pack((1007, 12), (sid, 12), (len(b), 8), *[(c, 8) for c in b], (0, 8)))


def m1029(text, sid=1):
    b = text.encode()
    return frame(pack((1029, 12), (sid, 12), (60000, 16), (100, 17), (len(text), 7),
                      (len(b), 8), *[(c, 8) for c in b]))


def m1013(sched, sid=1, nm=None):
    return frame(pack((1013, 12), (sid, 12), (60000, 16), (100, 17),
                      (len(sched) if nm is None else nm, 5), (18, 8),
                      *[x for i, p, t in sched for x in ((i, 12), (p, 1), (t, 16))]))


def m1230(corr, sid=1):
    m = sum(b for k, b in (("1C", 8), ("1P", 4), ("2C", 2), ("2P", 1)) if k in corr)
    return frame(pack((1230, 12), (sid, 12), (1, 1), (0, 3), (m, 4),
                      *[(corr[k], 16) for k in ("1C", "1P", "2C", "2P") if k in corr]))


G19 = "satNum:6 weekNum:10 URA:4 L2:2 i_dot:14 IODE:8 tc:16 af2:8 af1:16 af0:22 IODC:10 crs:16 delta_n:16 m0:32 cuc:16 e:32 cus:16 sqrt_a:32 te:16 cic:16 omega0:32 cis:16 i0:32 crc:16 w:32 omega_dot:24 TGD:8 SVH:6 L2P:1 Fit:1"


def m1019(**kw):
    return frame(pack((1019, 12), *[(kw.get(n.split(":")[0], 1), int(n.split(":")[1])) for n in G19.split()]))


G20 = "satNum:6 frq:5 Cn:1 Alm:1 P1:2 tk:12 Bn:1 P2:1 tb:7 dotXn:24 xn:27 ddX:5 dotYn:24 yn:27 ddY:5 dotZn:24 zn:27 ddZ:5 P3:1 gamma:11 P:2 ln3:1 tauN:22 dtau:5 En:5 P4:1 Ft:4 Nt:11 M:2 aux:1 Na:11 tauC:32 N4:5 tauGPS:22 ln5:1 r:7"


def m1020(**kw):
    return frame(pack((1020, 12), *[(kw.get(n.split(":")[0], 1), int(n.split(":")[1])) for n in G20.split()]))


W = {7: (20, 24, 10, 10), 6: (20, 24, 10, 10), 5: (15, 22, 4, 6), 4: (15, 22, 4, 6),
     3: (15, 22, 4, 0), 2: (0, 22, 4, 0), 1: (15, 0, 0, 0)}


def msm(num, t, sats=(1,), sigs=(2,), cells=None, ms=70, rough=100, rate=0, rng=1000, ph=2000,
        lock=5, hc=0, cnr=40, frate=0, sid=1):
    """sats, sigs: 1-based; per-cell values are scalars or lists over the cells, per-satellite ones likewise"""
    k = num % 10
    cells = cells or [(s, g) for s in sats for g in sigs]
    n = len(cells) if sats else 0

    def lst(v, m):
        return list(v) if isinstance(v, (list, tuple)) else [v] * m

    f = [(num, 12), (sid, 12), (t, 30), (0, 1), (0, 3), (0, 7), (0, 2), (0, 2), (0, 1), (0, 3)]
    f += [(sum(1 << (64 - s) for s in sats), 64), (sum(1 << (32 - s) for s in sigs), 32)]
    if sats:
        f += [(int((s, g) in cells), 1) for s in sats for g in sigs]
        ns = len(sats)
        if k >= 4:
            f += [(v, 8) for v in lst(ms, ns)]
        if k in (5, 7):
            f += [(0, 4)] * ns
        f += [(v, 10) for v in lst(rough, ns)]
        if k in (5, 7):
            f += [(v, 14) for v in lst(rate, ns)]
        wr, wp, wl, wc = W[k]
        if wr:
            f += [(v, wr) for v in lst(rng, n)]
        if wp:
            f += [(v, wp) for v in lst(ph, n)] + [(v, wl) for v in lst(lock, n)] + [(v, 1) for v in lst(hc, n)]
        if wc:
            f += [(v, wc) for v in lst(cnr, n)]
        if k in (5, 7):
            f += [(v, 15) for v in lst(frate, n)]
    return frame(pack(*f))


def put(name, data):
    p = os.path.join(TMP, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode())
    return p


def cli(fmt, *src, ini=None, inp="", timeout=60, ext=None):
    """Run the command line tool, return (exit code, stdout + stderr)"""
    cmd = [sys.executable, os.path.join(REPO, "run_conversion.py"), "-o", fmt]
    cmd += (["-i", ini] if ini else []) + (["-ext", ext] if ext else []) + list(src)
    r = subprocess.run(cmd, cwd=REPO, input=inp, capture_output=True, text=True, timeout=timeout,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    return r.returncode, r.stdout + r.stderr


def tree(d):
    rv = {}
    for a, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(a, f), newline="") as h:
                rv[os.path.relpath(os.path.join(a, f), d)] = h.read()
    return rv


def products(d):
    return {k: v for k, v in tree(d).items() if not k.endswith("-log.txt")}


def records(d, rel):
    with open(os.path.join(d, rel)) as f:
        return json.load(f)[1:]


def converter(mode, out, ini=None):
    """A converter of the API, writing in out"""
    from controls import ConverterControls
    from converter_top import ConverterFactory
    c = ConverterControls()
    c.init_from_file(os.path.join(REPO, "defaults.ini"))
    if ini:
        c.update_from_file(ini)
    os.makedirs(out, exist_ok=True)
    return ConverterFactory(mode)(out, c.boxed_controls)


def feed(conv, data):
    n = 0
    for m in conv.parse_bytes(data):
        x = conv.decode(m)
        if x is not None:
            conv.print(x)
        n += 1
    return n


def check(ok, what):
    if not ok:
        print("BROKEN:", what)
        sys.exit(1)
