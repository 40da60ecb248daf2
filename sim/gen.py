"""Seeded generators: RTCM messages and the lossy link that carries them.

Everything drawn here is materialised into the scenario (hex segments), so a
replay file does not depend on this module."""

import hashlib
import random

from . import spec

EPH_NUMS = sorted(spec.EPH)
BASE_NUMS = sorted(spec.BASE)
MSM_NUMS = sorted(spec.MSM)
# numbers no mode supports
UNSUP = (1001, 1004, 1012, 1043, 1047, 1057, 1068, 1070, 1078, 1080, 1139, 1140, 1300, 4000, 4072, 4095, 0, 1)


def rng_for(seed, prop, idx, salt=""):
    h = hashlib.sha256(("%s|%s|%s|%s" % (seed, prop, idx, salt)).encode()).digest()
    return random.Random(int.from_bytes(h[:16], "big"))


def val(r, w):
    """boundary-biased w-bit pattern"""
    k = r.random()
    top = (1 << w) - 1
    if k < 0.55 or w < 3:
        return r.getrandbits(w)
    return r.choice((0, 1, top, top - 1, 1 << (w - 1), (1 << (w - 1)) + 1, (1 << (w - 1)) - 1,
                     r.getrandbits(max(1, w // 2)), top - r.getrandbits(max(1, w // 2)),
                     1 << r.randrange(w)))


def eph(r, num):
    b = spec.BitW()
    style = r.random()
    last = {}
    for name, w, kind, _ in spec.EPH[num][2]:
        if name == "msgNum":
            b.u(num, w)
        elif style < 0.1:
            b.u(r.getrandbits(w), w)
        elif style < 0.25 and w in last and r.random() < 0.6:  # equal fields (toe = toc, ...)
            b.u(last[w], w)
        elif style < 0.25 and last and r.random() < 0.3:  # equal low bits (IODE and IODC)
            lw = r.choice(sorted(last))
            b.u((val(r, w) >> lw << lw) | last[lw] if w > lw else last[lw], w)
        else:
            last[w] = val(r, w)
            b.u(last[w], w)
    return b.bytes()


def variant(r, p, mode):
    """A message that has a lot in common with p: a new issue of the same ephemeris, the next epoch of the same
    satellites, the rest of an epoch, ..."""
    num = int.from_bytes(p[:2], "big") >> 4
    q = spec.BitR(p)
    b = spec.BitW()
    if num in spec.EPH:
        rate = r.choice((0.05, 0.05, 0.5))
        keep = r.choice((1, 2, 3))
        for k, (name, w, kind, _) in enumerate(spec.EPH[num][2]):
            v = q.u(w)
            b.u(val(r, w) if k > keep and r.random() < rate else v, w)
        return b.bytes()
    if num in (1005, 1006):
        v = bytearray(p)
        for _ in range(r.choice((1, 1, 3))):
            v[r.randrange(3, len(v) - 1)] ^= 1 << r.randrange(8)
        return bytes(v)
    if num in spec.BASE:
        v = bytearray(base(r, num))
        v[1] = v[1] & 0xF0 | p[1] & 15
        v[2] = p[2]
        return bytes(v)
    g, k = spec.MSM[num]
    q.u(12)
    hdr = [(w, q.u(w)) for w in (12, 30, 19)]
    sm = q.u(64)
    ids = [i for i in range(1, 65) if (sm >> (64 - i)) & 1]
    sg = q.u(32)
    sigs = [i for i in range(1, 33) if (sg >> (32 - i)) & 1]
    cells = [q.u(1) for _ in range(len(ids) * len(sigs))]
    if not any(cells):
        return msm(r, num, max_sat=sat_limit(num, mode), small=True)
    t = hdr[1][1]
    day, ms, top = (t >> 27, t & 0x7FFFFFF, 86400000) if g == "R" else (0, t, 604800000)
    ms += r.choice((0, 0, 1, 1000, 1000, 30000))
    kind = r.random()
    if kind < 0.3:
        return msm(r, num, max_sat=sat_limit(num, mode), small=True, time=(day << 27) | ms % top)
    if kind < 0.5:
        r.shuffle(cells)
    return msm(r, num, time=(day << 27) | ms % top, shape=(ids, sigs, cells), hdr=(hdr[0][1], hdr[2][1]))


_ALPH = "ABCXYZabcxyz0189 .-/_#\"\\'<>&"
_UNI = ["é", "Ж", "€", "中", "😀", "µ", "\u0000", "\u2028", "\t", "\ufeff", "\n", "\r", "\x7f", "\x1b",
        "\xa0", "\u0301", "\U0010ffff", "\ud7ff", "\x85", "\x1f"]


def text(r, maxlen=255, ascii_only=False):
    k = r.random()
    if k < 0.12:
        n = 0
    elif k < 0.2:
        n = 1
    elif k < 0.26:
        n = maxlen
    elif k < 0.32:
        n = maxlen - r.randrange(3)
    else:
        n = r.randrange(1, 40)
    n = min(n, maxlen)
    out = b""
    while len(out) < n:
        if not ascii_only and r.random() < 0.15:
            c = r.choice(_UNI).encode()
            if len(out) + len(c) > n:
                c = b"~"
        else:
            c = r.choice(_ALPH).encode()
        out += c
    return out


def _str(b, octets):
    b.u(len(octets), 8)
    for o in octets:
        b.u(o, 8)


def base(r, num):
    b = spec.BitW()
    b.u(num, 12).u(val(r, 12), 12)
    if num in (1005, 1006):
        b.u(val(r, 6), 6).u(r.getrandbits(4), 4).u(val(r, 38), 38).u(r.getrandbits(2), 2)
        b.u(val(r, 38), 38).u(r.getrandbits(2), 2).u(val(r, 38), 38)
        if num == 1006:
            b.u(val(r, 16), 16)
    elif num in (1007, 1008, 1033):
        lim = 255 if num != 1033 else r.choice((31, 190, 190))
        _str(b, text(r, lim))
        b.u(val(r, 8), 8)
        if num in (1008, 1033):
            _str(b, text(r, lim))
        if num == 1033:
            for _ in range(3):
                _str(b, text(r, lim))
    elif num == 1013:
        b.u(val(r, 16), 16).u(val(r, 17), 17)
        k = r.choice((0, 0, 1, 2, r.randrange(1, 32), 31))
        unknown = r.random() < 0.2 or k == 0
        if unknown:
            k = r.choice((0, 1, 2, 3, 7, r.randrange(0, 30)))
        b.u(0 if unknown else k, 5).u(val(r, 8), 8)
        ids = r.sample(range(1001, 1300), k)
        for i in ids:
            b.u(i, 12).u(r.getrandbits(1), 1).u(val(r, 16), 16)
    elif num == 1029:
        b.u(val(r, 16), 16).u(val(r, 17), 17)
        t = text(r, 255)
        b.u(min(127, len(t.decode())), 7)
        _str(b, t)
    elif num == 1230:
        b.u(r.getrandbits(1), 1).u(0, 3)
        m = r.getrandbits(4)
        b.u(m, 4)
        for i in range(4):
            if (m >> (3 - i)) & 1:
                v = val(r, 16)
                b.u(0x8001 if v == 0x8000 else v, 16)
    return b.bytes()


def msm_time(r, g):
    if g == "R":
        day = r.randrange(7)
        t = r.choice((0, 1, 999, 10781999, 10782000, 10782001, 10800000, 10799999, 86399999, 86399000, 86400000, 86400500, 86400999,
                      r.randrange(86400000), r.randrange(86400000), r.randrange(86400000)))
        return (day << 27) | t
    return r.choice((0, 1, 999, 13999, 14000, 604799999, 604786000, 604785999, 604785001, 604800000 - 14001,
                     r.randrange(604800000), r.randrange(604800000), r.randrange(604800000)))


def _msm_field(r, k, name, w, signed):
    v = val(r, w)
    p = r.random()
    if name == "rng_ms":
        if p < 0.08:
            return 255
        return v
    if name in ("rng_fine", "phase_fine", "phase_rate_rough", "phase_rate_fine") and p < 0.12:
        return 1 << (w - 1)
    if name == "lock_time" and w == 10:
        if p < 0.3:
            blk = r.randrange(0, 22)
            return min(704, max(0, 32 * blk + r.choice((-1, 0, 1, 31))))
        return min(v, 704)
    return v


def msm(r, num, max_sat=64, nsat=None, time=None, small=False, empty_ok=True, full=False,
        shape=None, hdr=None):
    """Consistent MSM payload."""
    g, k = spec.MSM[num]
    sig_ids = sorted(spec.SIG[g])
    b = spec.BitW()
    b.u(num, 12).u(val(r, 12) if hdr is None else hdr[0], 12)
    b.u(msm_time(r, g) if time is None else time, 30)
    if shape is not None:
        b.u(hdr[1], 19)
        return _msm_data(r, b, k, *shape)
    b.u(r.getrandbits(1), 1).u(r.getrandbits(3), 3).u(r.getrandbits(7), 7)
    b.u(r.getrandbits(2), 2).u(r.getrandbits(2), 2).u(r.getrandbits(1), 1).u(r.getrandbits(3), 3)
    if empty_ok and nsat is None and r.random() < 0.04:
        b.u(0, 64).u(0 if r.random() < 0.5 else _mask(r.sample(sig_ids, 1), 32), 32)
        return b.bytes()
    while True:
        if small:
            ng = r.choice((1, 1, 2, min(3, len(sig_ids))))
            ns = r.choice((1, 2, 3, 4))
        else:
            ng = r.choice((1, 1, 2, 2, 3, 4, len(sig_ids), r.randrange(1, len(sig_ids) + 1)))
            ns = r.choice((1, 2, 3, 5, 8, 10, 16, r.randrange(1, max_sat + 1), max_sat))
        ng = min(ng, len(sig_ids))
        ns = min(ns, max_sat)
        if nsat is not None:
            ns = nsat
        if ng * ns <= 64:
            break
    lohi = r.random()
    if lohi < 0.1:
        sats = list(range(max_sat - ns + 1, max_sat + 1))
    elif lohi < 0.2:
        sats = list(range(1, ns + 1))
    else:
        sats = sorted(r.sample(range(1, max_sat + 1), ns))
        if r.random() < 0.2:
            sats[-1] = max_sat
    sigs = sorted(r.sample(sig_ids, ng))
    ncell = ns * ng
    fixed = sum(w for _, w, _ in spec.MSM_SAT[k]) * ns
    per = sum(w for _, w, _ in spec.MSM_SGN[k])
    room = (1023 * 8 - b.n - 96 - ncell - fixed) // per
    style = r.random()
    if full or style < 0.2:
        cells = [1] * ncell
    else:
        p = r.choice((0.15, 0.5, 0.8, 0.95))
        cells = [1 if r.random() < p else 0 for _ in range(ncell)]
    for i in range(ns):  # every satellite and signal is used, as a rule
        if not any(cells[i * ng:(i + 1) * ng]) and r.random() < 0.9:
            cells[i * ng + r.randrange(ng)] = 1
    for j in range(ng):
        if not any(cells[j::ng]) and r.random() < 0.9:
            cells[r.randrange(ns) * ng + j] = 1
    if not any(cells):
        cells[r.randrange(ncell)] = 1
    while sum(cells) > room:
        on = [i for i, c in enumerate(cells) if c]
        cells[r.choice(on)] = 0
    return _msm_data(r, b, k, sats, sigs, cells)


def _msm_data(r, b, k, sats, sigs, cells):
    ns = len(sats)
    b.u(_mask(sats, 64), 64).u(_mask(sigs, 32), 32)
    for c in cells:
        b.u(c, 1)
    for name, w, sg in spec.MSM_SAT[k]:
        for _ in range(ns):
            b.u(_msm_field(r, k, name, w, sg), w)
    cols = []
    for name, w, sg in spec.MSM_SGN[k]:
        cols.append((name, w, [_msm_field(r, k, name, w, sg) for _ in range(sum(cells))]))
    if k == 3:
        for i, v in enumerate(cols[0][2]):
            if v == 1 << 14:
                cols[1][2][i] = 1 << 21
    for name, w, vs in cols:
        for v in vs:
            b.u(v, w)
    return b.bytes()


def _mask(ids, w):
    return sum(1 << (w - i) for i in ids)


def sat_limit(num, mode):
    g, _ = spec.MSM[num]
    return spec.MAX_SAT[g] if mode in ("MARGO", "JARGO") else 64


def good(r, num, mode, **kw):
    """A consistent payload of a supported number."""
    if num in spec.EPH:
        return eph(r, num)
    if num in spec.BASE:
        return base(r, num)
    return msm(r, num, max_sat=sat_limit(num, mode), **kw)


def unsupported(r, big=False):
    num = r.choice(UNSUP)
    n = r.choice((2, 2, 3, 5, 8, 20, r.randrange(2, 60)))
    if big:
        n = r.choice((1023, 1022, r.randrange(256, 1024), 255, 256, 511, 512, 768))
    p = bytearray(r.getrandbits(8) for _ in range(n))
    p[0] = num >> 4
    p[1] = ((num & 15) << 4) | (p[1] & 15)
    return bytes(p)


def with_crc(payload, crc):
    """The payload with its last three bytes chosen so that the checksum of its frame is crc."""
    n = len(payload)
    reg = spec.crc24q(bytes([0xD3, n >> 8, n & 255]) + payload[:-3])
    for _ in range(24):  # the shift register, backwards
        crc = ((crc ^ 0x1864CFB) >> 1) if crc & 1 else crc >> 1
    return payload[:-3] + (reg ^ crc).to_bytes(3, "big")


def peculiar(r, big=False):
    """A proprietary payload whose frame has a peculiar checksum."""
    p = unsupported(r, big)
    if len(p) < 5:
        p += bytes(5 - len(p))
    return with_crc(p, r.choice((0, 0, 0xFFFFFF, 1, 0x800000, 0xD30000, 0xD3D3D3, 0x00D300, 0x0000D3, 0xD30001,
                                 r.getrandbits(8), r.getrandbits(16) << 8, 0x864CFB)))


def malformed(r, num, mode):
    """A payload of a supported number that contradicts itself."""
    if num in spec.MSM:
        k = r.choice(("short", "short", "short", "long", "nosig", "cells", "hdr"))
    elif num in spec.BASE:
        k = r.choice(("short", "short", "long", "two"))
        if num == 1013:
            k = r.choice(("short0", "two", "count", "count", "count"))
    else:
        k = r.choice(("short", "short", "two"))
    if k == "nosig":
        p = msm(r, num, max_sat=sat_limit(num, mode), empty_ok=False)
        v = int.from_bytes(p, "big")
        n = len(p) * 8
        v &= ~(((1 << 32) - 1) << (n - 73 - 64 - 32))
        return v.to_bytes(len(p), "big")
    if k == "cells":
        g, _ = spec.MSM[num]
        p = msm(r, num, max_sat=sat_limit(num, mode), empty_ok=False)
        sig_ids = sorted(spec.SIG[g])
        ms = sat_limit(num, mode)
        ng = len(sig_ids)
        ns = min(ms, 64 // ng + 1 + r.randrange(4))
        if ng * ns <= 64:
            return p[:-1]
        b = spec.BitW()
        b.u(int.from_bytes(p, "big") >> (len(p) * 8 - 73), 73)
        b.u(_mask(range(1, ns + 1), 64), 64).u(_mask(sig_ids, 32), 32)
        b.u(r.getrandbits(2000) | 1, 2000)
        return b.bytes()
    p = good(r, num, mode, empty_ok=False) if num in spec.MSM else good(r, num, mode)
    if k == "count":  # 1013: another number of announcements than there are
        n = (len(p) * 8 - 70) // 29
        v = int.from_bytes(p, "big")
        at = len(p) * 8 - 62
        v &= ~(31 << at)
        m = r.choice([x for x in (n + 1, n + 1, n + 2, 31, r.randrange(1, 32), n - 1) if 0 < x < 32 and x != n])
        return (v | (m << at)).to_bytes(len(p), "big")
    if k == "hdr":
        return p[: r.randrange(2, 22)]
    if k == "two":
        return p[:2]
    if k == "short0":
        return p[: r.randrange(2, 9)]
    if k == "long":
        q = p + bytes(r.getrandbits(8) for _ in range(r.choice((1, 1, 2, 5, 60))))
        return q if len(q) <= 1023 else p[:-1]
    cut = r.choice((1, 1, 1, 2, 3, r.randrange(1, max(2, len(p) - 2))))
    return p[: max(2, len(p) - cut)]


def is_malformed(payload, mode):
    fr = spec.frame(payload)
    return spec.decode(fr, mode, spec.DEF_CTRL)[0] == "bad"


# --------------------------------------------------------------------------
# link
# --------------------------------------------------------------------------


def seg(kind, data):
    return {"k": kind, "h": data.hex()}


def noise(r, n=None):
    n = n if n is not None else r.choice((1, 1, 2, 3, 5, 6, 7, 20, 100, r.randrange(1, 400)))
    style = r.randrange(5)
    if style == 0:
        return bytes(r.getrandbits(8) for _ in range(n))
    if style == 1:
        return bytes(r.choice((0xD3, 0, 1, 2, 3, 4, 0xFF)) for _ in range(n))
    if style == 2:
        return bytes([0xD3]) * n
    if style == 3:
        return bytes(n)
    return bytes(r.choice((0xD3, r.getrandbits(8))) for _ in range(n))


def false_header(r, maxlen=1023):
    n = r.choice((0, 1, 2, 3, 6, 10, 100, 1023, r.randrange(maxlen + 1), r.randrange(60)))
    n = min(n, maxlen)
    k = r.random()
    if k < 0.15:
        return b"\xd3"
    if k < 0.25:
        return bytes([0xD3, n >> 8])
    if k < 0.35:  # reserved bits set
        return bytes([0xD3, (n >> 8) | r.choice((4, 8, 0x80, 0xFC)), n & 255])
    return bytes([0xD3, n >> 8, n & 255])


def flip(r, data):
    d = bytearray(data)
    for _ in range(r.choice((1, 1, 1, 2, 3, 8))):
        region = r.random()
        if region < 0.3:
            i = r.randrange(min(3, len(d)))
        elif region < 0.5:
            i = len(d) - 1 - r.randrange(min(3, len(d)))
        else:
            i = r.randrange(len(d))
        d[i] ^= 1 << r.randrange(8)
    return bytes(d)


LINK_OPS = ("noise", "flip", "trunc", "dup", "swap", "false", "nest_bad", "nest_good", "zero", "max", "tail", "forged",
            "fill", "storm")


def forged(r, f):
    """Something that is a frame but for one rule of the framing; its checksum is that of its own bytes."""
    k = r.randrange(5)
    d = bytearray(f[:-3])
    if k == 0:  # one reserved bit
        d[1] |= 1 << r.randrange(2, 8)
    elif k == 1:
        d[1] |= r.randrange(1, 64) << 2
    elif k == 2:  # one bit of the preamble
        d[0] ^= 1 << r.randrange(8)
    elif k == 3:  # checksum of another convention
        c = spec.crc24q(bytes(d)) ^ r.choice((0xFFFFFF, 1 << r.randrange(24), 0x864CFB, 0x800000, 1))
        return bytes(d) + c.to_bytes(3, "big")
    else:  # bytes of the checksum in another order
        c = spec.crc24q(bytes(d)).to_bytes(3, "big")
        return bytes(d) + r.choice((c[::-1], c[1:] + c[:1], c[:2] + b"\0", b"\0\0\0", c[:1] * 3))
    return bytes(d) + spec.crc24q(bytes(d)).to_bytes(3, "big")


def tiny(r, n):
    """n short frames, as many as fit a delivery"""
    one = spec.frame(unsupported(r)[:2 + r.randrange(4)])
    style = r.randrange(3)
    out = []
    for _ in range(n):
        if style == 0:
            out.append(one)
        else:
            out.append(spec.frame(b"" if style == 1 else unsupported(r)[:r.choice((2, 2, 3, 8))]))
    return out


def link(r, frames, rate=0.35, ops=None, small_max=False):
    """Carry frames (bytes) over a lossy link; returns segments."""
    ops = list(ops if ops is not None else LINK_OPS)
    # swarm: only a subset of the fault kinds is on in one run
    if len(ops) > 2 and r.random() < 0.6:
        ops = r.sample(ops, r.randrange(1, len(ops) + 1))
    out = []
    fr = list(frames)
    if "swap" in ops:
        for i in range(len(fr) - 1):
            if r.random() < rate / 3:
                fr[i], fr[i + 1] = fr[i + 1], fr[i]
    for f in fr:
        if r.random() >= rate:
            out.append(seg("frame", f))
            continue
        op = r.choice(ops)
        if op == "noise":
            out.append(seg("noise", noise(r)))
            out.append(seg("frame", f))
        elif op == "flip":
            out.append(seg("flip", flip(r, f)))
        elif op == "trunc":
            a = r.randrange(len(f))
            b = r.randrange(a, len(f) + 1)
            d = f[:a] + f[b:]
            if r.random() < 0.5:
                d = f[: r.randrange(1, len(f))]
            if d:
                out.append(seg("trunc", d))
        elif op == "dup":
            out.append(seg("frame", f))
            out.append(seg("dup", f))
        elif op == "false":
            out.append(seg("false", false_header(r)))
            out.append(seg("frame", f))
        elif op == "nest_bad":  # intact frame inside a damaged outer one
            outer = bytearray(spec.frame((noise(r, r.randrange(0, 30)) + f)[:1023]))
            outer[-1 - r.randrange(3)] ^= 1 << r.randrange(8)
            out.append(seg("nest_bad", bytes(outer)))
        elif op == "nest_good":  # intact frame inside an intact proprietary one
            pay = unsupported(r)[:2] + noise(r, r.randrange(0, 20)) + f
            if len(pay) <= 1023:
                out.append(seg("nest_good", spec.frame(pay)))
            else:
                out.append(seg("frame", f))
        elif op == "zero":
            out.append(seg("zero", spec.frame(b"")))
            out.append(seg("frame", f))
        elif op == "max":
            out.append(seg("max", spec.frame(unsupported(r, big=not small_max))))
            out.append(seg("frame", f))
        elif op == "fill":  # a long pause of the link, filled with bytes that are no preamble
            n = r.choice((10, 60, 400, r.randrange(1, 1200), 1100, 2100, 5000, r.randrange(1, 9000)))
            x = r.choice((0, 0xFF, 0x55, 0x0A, r.randrange(0xD3)))
            out.append(seg("fill", bytes([x]) * n if r.random() < 0.6 else
                           bytes(r.randrange(0xD3) for _ in range(n))))
            out.append(seg("frame", f))
        elif op == "storm":  # very many candidates that fail one after the other
            n = r.choice((5, 20, 40, 70, 130, r.randrange(1, 300)))
            if r.random() < 0.7:
                d = b"".join(bytes((0xD3, 0, r.choice((0, 0, 1, 2, 5)))) + bytes(r.randrange(3, 7)) for _ in range(n))
            else:
                d = flip(r, tiny(r, 1)[0]) * n
            out.append(seg("storm", d))
            out.append(seg("frame", f))
        elif op == "forged":
            out.append(seg("forged", forged(r, f)))
            if r.random() < 0.7:
                out.append(seg("frame", f))
        else:
            out.append(seg("frame", f))
    if "tail" in ops and r.random() < 0.5:
        k = r.randrange(5)
        if k == 0:
            out.append(seg("tail", b"\xd3"))
        elif k == 1 and fr:
            f = r.choice(fr)
            out.append(seg("tail", f[: r.randrange(1, len(f))]))
        elif k == 2 and fr:
            f = r.choice(fr)
            pre = false_header(r)
            pos = r.randrange(0, len(out) + 1)
            out.insert(pos if r.random() < 0.3 else max(0, len(out) - r.randrange(1, 4)), seg("tail", pre))
        elif k == 3:
            out.append(seg("tail", noise(r)))
        else:
            out.append(seg("tail", false_header(r)))
    return out


def giant(r, frames, total, breaks=0):
    """A very long stream: the frames over and over, at least total of them, with some noise in between."""
    h = b"".join(frames).hex()
    n = -(-total // len(frames))
    out = []
    for k in range(breaks + 1):
        out.append({"k": "frame", "h": h, "n": n // (breaks + 1) + 1})
        if k < breaks:
            out.append(seg("noise", bytes(r.choice((1, 0x55)) for _ in range(r.choice((1, 5))))))
    return out


def join(segs):
    return b"".join(bytes.fromhex(s["h"]) * s.get("n", 1) for s in segs)


def chunks(r, n):
    """Sizes in which n bytes are delivered (zeros allowed)."""
    style = r.randrange(7) if n < 12000 else r.choice((1, 4, 4, 5, 6, 7))
    out = []
    left = n
    if style == 0:
        out = [1] * n
        return out
    fixed = r.choice((2, 3, 5, 6, 7, 64, 1029, 4096, r.randrange(1, 2000)))
    while left > 0:
        if style == 1:
            c = fixed
        elif style == 2:
            c = r.randrange(1, 12)
        elif style == 3:
            c = r.choice((1, 1, 2, r.randrange(1, 200)))
        elif style == 4:
            c = left
        elif style == 5:
            c = r.choice((0, 1, 3, 6, 50, r.randrange(1, 1100)))
        elif style == 7:  # large pieces
            c = r.randrange(1, 1 << r.choice((12, 14, 15, 16, 17)))
        else:
            c = r.randrange(1, 1100)
        c = min(c, left)
        out.append(c)
        left -= c
    return out
