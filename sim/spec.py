"""Independent executable reference of the part of RTCM 10403 the converter
supports: frame layout, CRC-24Q, message field tables, observable
reconstruction and the content of every product.

Nothing here is imported from /repo.  All functions are pure: expected
products are a function of (list of frames, mode, controls).
"""

# --------------------------------------------------------------------------
# CRC-24Q and frames
# --------------------------------------------------------------------------

_POLY = 0x1864CFB


def _mk_table():
    tab = []
    for i in range(256):
        c = i << 16
        for _ in range(8):
            c <<= 1
            if c & 0x1000000:
                c ^= _POLY
        tab.append(c & 0xFFFFFF)
    return tab


_TAB = _mk_table()


def crc24q(data: bytes) -> int:
    c = 0
    tab = _TAB
    for b in data:
        c = ((c << 8) & 0xFFFFFF) ^ tab[(c >> 16) ^ b]
    return c


def frame(payload: bytes) -> bytes:
    n = len(payload)
    assert n <= 1023
    body = bytes([0xD3, n >> 8, n & 0xFF]) + payload
    return body + crc24q(body).to_bytes(3, "big")


def scan(data: bytes, final: bool):
    """Reference scanner.

    Returns (frames, gaps): frames = [(start, end)], gaps = number of places
    where bytes were skipped between two recovered frames.  With final=False
    the scan stops at the first candidate whose bytes are not all there."""
    out = []
    gaps = 0
    pos = 0
    n = len(data)
    skipped = False
    while pos < n:
        if data[pos] != 0xD3:
            nxt = data.find(b"\xd3", pos)
            skipped = True
            if nxt < 0:
                break
            pos = nxt
            continue
        if pos + 1 < n and data[pos + 1] & 0xFC:
            pos += 1
            skipped = True
            continue
        ln = None
        if pos + 2 < n:
            ln = (((data[pos + 1] & 3) << 8) | data[pos + 2]) + 6
        if ln is None or pos + ln > n:
            if not final:
                break
            pos += 1
            skipped = True
            continue
        if crc24q(data[pos : pos + ln - 3]) == int.from_bytes(
            data[pos + ln - 3 : pos + ln], "big"
        ):
            if out and skipped:
                gaps += 1
            out.append((pos, pos + ln))
            skipped = False
            pos += ln
        else:
            pos += 1
            skipped = True
    return out, gaps


# --------------------------------------------------------------------------
# Bit-level reader / writer
# --------------------------------------------------------------------------


class BitW:
    def __init__(self):
        self.v = 0
        self.n = 0

    def u(self, val, width):
        self.v = (self.v << width) | (val & ((1 << width) - 1))
        self.n += width
        return self

    def bytes(self):
        pad = (-self.n) % 8
        return ((self.v << pad)).to_bytes((self.n + pad) // 8, "big")


class Short(Exception):
    """payload too short"""


class BitR:
    def __init__(self, data: bytes):
        self.total = len(data) * 8
        self.v = int.from_bytes(data, "big")
        self.pos = 0

    def u(self, width):
        if self.pos + width > self.total:
            raise Short()
        r = (self.v >> (self.total - self.pos - width)) & ((1 << width) - 1)
        self.pos += width
        return r

    def s(self, width):
        r = self.u(width)
        return r - (1 << width) if r >> (width - 1) else r

    def m(self, width):
        r = self.u(width)
        mag = r & ((1 << (width - 1)) - 1)
        return -mag if r >> (width - 1) else mag


# --------------------------------------------------------------------------
# Ephemeris.  (name, width, kind, scale); name None: reserved bits
# kind: u unsigned, s two's complement, m sign-magnitude
# scale None: value is printed as is in every mode
# --------------------------------------------------------------------------

P = lambda n: 2.0 ** (-n)

EPH = {
    1019: ("EphGPS", "EPH/GPS-EPH-1019.json", [
        ("msgNum", 12, "u", None), ("satNum", 6, "u", None), ("weekNum", 10, "u", None),
        ("URA", 4, "u", None), ("L2_Codes", 2, "u", None), ("i_dot", 14, "s", P(43)),
        ("IODE", 8, "u", None), ("tc", 16, "u", 16), ("af2", 8, "s", P(55)),
        ("af1", 16, "s", P(43)), ("af0", 22, "s", P(31)), ("IODC", 10, "u", None),
        ("crs", 16, "s", P(5)), ("delta_n", 16, "s", P(43)), ("m0", 32, "s", P(31)),
        ("cuc", 16, "s", P(29)), ("e", 32, "u", P(33)), ("cus", 16, "s", P(29)),
        ("sqrt_a", 32, "u", P(19)), ("te", 16, "u", 16), ("cic", 16, "s", P(29)),
        ("omega0", 32, "s", P(31)), ("cis", 16, "s", P(29)), ("i0", 32, "s", P(31)),
        ("crc", 16, "s", P(5)), ("w", 32, "s", P(31)), ("omega_dot", 24, "s", P(43)),
        ("TGD", 8, "s", P(31)), ("SVH", 6, "u", None), ("L2P_Data", 1, "u", None),
        ("Fit", 1, "u", None)]),
    1020: ("EphGLO", "EPH/GLN-EPH-1020.json", [
        ("msgNum", 12, "u", None), ("satNum", 6, "u", None), ("frqSloNum", 5, "u", "slot"),
        ("Cn", 1, "u", None), ("AlmHAI", 1, "u", None), ("P1", 2, "u", None),
        ("tk", 12, "u", "tk"), ("BnMSB", 1, "u", None), ("P2", 1, "u", None),
        ("tb", 7, "u", 900), ("dotXn", 24, "m", P(20)), ("xn", 27, "m", P(11)),
        ("dotDotXn", 5, "m", P(30)), ("dotYn", 24, "m", P(20)), ("yn", 27, "m", P(11)),
        ("dotDotYn", 5, "m", P(30)), ("dotZn", 24, "m", P(20)), ("zn", 27, "m", P(11)),
        ("dotDotZn", 5, "m", P(30)), ("P3", 1, "u", None), ("gamma_n", 11, "m", P(40)),
        ("P", 2, "u", None), ("ln3", 1, "u", None), ("tauN", 22, "m", P(30)),
        ("delta_tauN", 5, "m", P(30)), ("En", 5, "u", None), ("P4", 1, "u", None),
        ("Ft", 4, "u", None), ("Nt", 11, "u", None), ("M", 2, "u", None),
        ("auxDataOK", 1, "u", None), ("Na", 11, "u", None), ("tauC", 32, "m", P(31)),
        ("N4", 5, "u", None), ("tauGPS", 22, "m", P(30)), ("ln5", 1, "u", None),
        (None, 7, "u", None)]),
    1041: ("EphNAVIC", "EPH/NAVIC-EPH-1041.json", [
        ("msgNum", 12, "u", None), ("satNum", 6, "u", None), ("weekNum", 10, "u", None),
        ("af0", 22, "s", P(31)), ("af1", 16, "s", P(43)), ("af2", 8, "s", P(55)),
        ("URA", 4, "u", None), ("tc", 16, "u", 16), ("TGD", 8, "s", P(31)),
        ("delta_n", 22, "s", P(41)), ("IODEC", 8, "u", None), (None, 10, "u", None),
        ("L5_Flag", 1, "u", None), ("S_Flag", 1, "u", None), ("cuc", 15, "s", P(28)),
        ("cus", 15, "s", P(28)), ("cic", 15, "s", P(28)), ("cis", 15, "s", P(28)),
        ("crc", 15, "s", P(4)), ("crs", 15, "s", P(4)), ("i_dot", 14, "s", P(43)),
        ("m0", 32, "s", P(31)), ("te", 16, "u", 16), ("e", 32, "u", P(33)),
        ("sqrt_a", 32, "u", P(19)), ("omega0", 32, "s", P(31)), ("w", 32, "s", P(31)),
        ("omega_dot", 22, "s", P(41)), ("i0", 32, "s", P(31)), (None, 4, "u", None)]),
    1042: ("EphBDS", "EPH/BDS-EPH-1042.json", [
        ("msgNum", 12, "u", None), ("satNum", 6, "u", None), ("weekNum", 13, "u", None),
        ("URAI", 4, "u", None), ("i_dot", 14, "s", P(43)), ("AODE", 5, "u", None),
        ("tc", 17, "u", 8), ("af2", 11, "s", P(66)), ("af1", 22, "s", P(50)),
        ("af0", 24, "s", P(33)), ("AODC", 5, "u", None), ("crs", 18, "s", P(6)),
        ("delta_n", 16, "s", P(43)), ("m0", 32, "s", P(31)), ("cuc", 18, "s", P(31)),
        ("e", 32, "u", P(33)), ("cus", 18, "s", P(31)), ("sqrt_a", 32, "u", P(19)),
        ("te", 17, "u", 8), ("cic", 18, "s", P(31)), ("omega0", 32, "s", P(31)),
        ("cis", 18, "s", P(31)), ("i0", 32, "s", P(31)), ("crc", 18, "s", P(6)),
        ("w", 32, "s", P(31)), ("omega_dot", 24, "s", P(43)), ("TGD1", 10, "s", 1e-10),
        ("TGD2", 10, "s", 1e-10), ("SVH", 1, "u", None)]),
    1044: ("EphQZS", "EPH/QZS-EPH-1044.json", [
        ("msgNum", 12, "u", None), ("satNum", 4, "u", None), ("tc", 16, "u", 16),
        ("af2", 8, "s", P(55)), ("af1", 16, "s", P(43)), ("af0", 22, "s", P(31)),
        ("IODE", 8, "u", None), ("crs", 16, "s", P(5)), ("delta_n", 16, "s", P(43)),
        ("m0", 32, "s", P(31)), ("cuc", 16, "s", P(29)), ("e", 32, "u", P(33)),
        ("cus", 16, "s", P(29)), ("sqrt_a", 32, "u", P(19)), ("te", 16, "u", 16),
        ("cic", 16, "s", P(29)), ("omega0", 32, "s", P(31)), ("cis", 16, "s", P(29)),
        ("i0", 32, "s", P(31)), ("crc", 16, "s", P(5)), ("w", 32, "s", P(31)),
        ("omega_dot", 24, "s", P(43)), ("i_dot", 14, "s", P(43)), ("L2_Codes", 2, "u", None),
        ("weekNum", 10, "u", None), ("URA", 4, "u", None), ("SVH", 6, "u", None),
        ("TGD", 8, "s", P(31)), ("IODC", 10, "u", None), ("Fit", 1, "u", None)]),
    1045: ("EphGALF", "EPH/GAL-EPH-1045.json", [
        ("msgNum", 12, "u", None), ("satNum", 6, "u", None), ("weekNum", 12, "u", None),
        ("IODnav", 10, "u", None), ("SISA", 8, "u", None), ("i_dot", 14, "s", P(43)),
        ("tc", 14, "u", 60), ("af2", 6, "s", P(59)), ("af1", 21, "s", P(46)),
        ("af0", 31, "s", P(34)), ("crs", 16, "s", P(5)), ("delta_n", 16, "s", P(43)),
        ("m0", 32, "s", P(31)), ("cuc", 16, "s", P(29)), ("e", 32, "u", P(33)),
        ("cus", 16, "s", P(29)), ("sqrt_a", 32, "u", P(19)), ("te", 14, "u", 60),
        ("cic", 16, "s", P(29)), ("omega0", 32, "s", P(31)), ("cis", 16, "s", P(29)),
        ("i0", 32, "s", P(31)), ("crc", 16, "s", P(5)), ("w", 32, "s", P(31)),
        ("omega_dot", 24, "s", P(43)), ("E5a_BGD", 10, "s", P(32)), ("E5a_SHS", 2, "u", None),
        ("E5a_DVS", 1, "u", None), (None, 7, "u", None)]),
    1046: ("EphGALI", "EPH/GAL-EPH-1046.json", [
        ("msgNum", 12, "u", None), ("satNum", 6, "u", None), ("weekNum", 12, "u", None),
        ("IODnav", 10, "u", None), ("SISA", 8, "u", None), ("i_dot", 14, "s", P(43)),
        ("tc", 14, "u", 60), ("af2", 6, "s", P(59)), ("af1", 21, "s", P(46)),
        ("af0", 31, "s", P(34)), ("crs", 16, "s", P(5)), ("delta_n", 16, "s", P(43)),
        ("m0", 32, "s", P(31)), ("cuc", 16, "s", P(29)), ("e", 32, "u", P(33)),
        ("cus", 16, "s", P(29)), ("sqrt_a", 32, "u", P(19)), ("te", 14, "u", 60),
        ("cic", 16, "s", P(29)), ("omega0", 32, "s", P(31)), ("cis", 16, "s", P(29)),
        ("i0", 32, "s", P(31)), ("crc", 16, "s", P(5)), ("w", 32, "s", P(31)),
        ("omega_dot", 24, "s", P(43)), ("E5a_BGD", 10, "s", P(32)), ("E5b_BGD", 10, "s", P(32)),
        ("E5b_SHS", 2, "u", None), ("E5b_DVS", 1, "u", None), ("E1_SHS", 2, "u", None),
        ("E1_DVS", 1, "u", None), (None, 2, "u", None)]),
}

BASE = {
    1005: ("BaseRP", "BASE/RefPoint-1005.json"),
    1006: ("BaseRPH", "BASE/RefPointHeight-1006.json"),
    1007: ("BaseAD", "BASE/AntDesc-1007.json"),
    1008: ("BaseADSN", "BASE/AntDescSer-1008.json"),
    1013: ("BaseSP", "BASE/SysPar-1013.json"),
    1029: ("BaseTS", "BASE/TextStr-1029.json"),
    1033: ("BaseADSNRC", "BASE/AntAndRcvDesc-1033.json"),
    1230: ("BaseGLBS", "BASE/GloBias-1230.json"),
}

GNSS = "GRESQBI"
GNSS_DIR = {"G": "GPS", "R": "GLN", "E": "GAL", "S": "SBS", "Q": "QZS", "B": "BDS", "I": "NAVIC"}
MSM = {1070 + 10 * g + k: (GNSS[g], k) for g in range(7) for k in range(1, 8)}

L1, L2, L5, E5b, E5, E6 = 1575.42, 1227.60, 1176.45, 1207.14, 1191.795, 1278.75
SIG = {
    "G": {2: ("1C", L1), 3: ("1P", L1), 4: ("1W", L1), 8: ("2C", L2), 9: ("2P", L2),
          10: ("2W", L2), 15: ("2S", L2), 16: ("2L", L2), 17: ("2X", L2), 22: ("5I", L5),
          23: ("5Q", L5), 24: ("5X", L5), 30: ("1S", L1), 31: ("1L", L1), 32: ("1X", L1)},
    "R": {2: ("1C", 1602.0), 3: ("1P", 1602.0), 8: ("2C", 1246.0), 9: ("2P", 1246.0)},
    "E": {2: ("1C", L1), 3: ("1A", L1), 4: ("1B", L1), 5: ("1X", L1), 6: ("1Z", L1),
          8: ("6C", E6), 9: ("6A", E6), 10: ("6B", E6), 11: ("6X", E6), 12: ("6Z", E6),
          14: ("7I", E5b), 15: ("7Q", E5b), 16: ("7X", E5b), 18: ("8I", E5), 19: ("8Q", E5),
          20: ("8X", E5), 22: ("5I", L5), 23: ("5Q", L5), 24: ("5X", L5)},
    "S": {2: ("1C", L1), 22: ("5I", L5), 23: ("5Q", L5), 24: ("5X", L5)},
    "Q": {2: ("1C", L1), 9: ("6S", E6), 10: ("6L", E6), 11: ("6X", E6), 15: ("2S", L2),
          16: ("2L", L2), 17: ("2X", L2), 22: ("5I", L5), 23: ("5Q", L5), 24: ("5X", L5),
          30: ("1S", L1), 31: ("1L", L1), 32: ("1X", L1)},
    "B": {2: ("2I", 1561.098), 3: ("2Q", 1561.098), 4: ("2X", 1561.098), 8: ("6I", 1268.52),
          9: ("6Q", 1268.52), 10: ("6X", 1268.52), 14: ("7I", E5b), 15: ("7Q", E5b),
          16: ("7X", E5b)},
    "I": {8: ("9A", 2492.028), 22: ("5A", L5)},
}
MAX_SAT = {"G": 32, "R": 24, "E": 36, "S": 38, "Q": 5, "B": 37, "I": 14}
SIG_FRQ = {g: {v[0]: v[1] for v in t.values()} for g, t in SIG.items()}

# widths of the MSM satellite and signal blocks
# sat: name, width, signed ; sgn: name, width, signed
MSM_SAT = {
    1: [("rng_rough", 10, 0)], 2: [("rng_rough", 10, 0)], 3: [("rng_rough", 10, 0)],
    4: [("rng_ms", 8, 0), ("rng_rough", 10, 0)],
    5: [("rng_ms", 8, 0), ("ext_info", 4, 0), ("rng_rough", 10, 0), ("phase_rate_rough", 14, 1)],
    6: [("rng_ms", 8, 0), ("rng_rough", 10, 0)],
    7: [("rng_ms", 8, 0), ("ext_info", 4, 0), ("rng_rough", 10, 0), ("phase_rate_rough", 14, 1)],
}
MSM_SGN = {
    1: [("rng_fine", 15, 1)],
    2: [("phase_fine", 22, 1), ("lock_time", 4, 0), ("hc_indc", 1, 0)],
    3: [("rng_fine", 15, 1), ("phase_fine", 22, 1), ("lock_time", 4, 0), ("hc_indc", 1, 0)],
    4: [("rng_fine", 15, 1), ("phase_fine", 22, 1), ("lock_time", 4, 0), ("hc_indc", 1, 0), ("c2n", 6, 0)],
    5: [("rng_fine", 15, 1), ("phase_fine", 22, 1), ("lock_time", 4, 0), ("hc_indc", 1, 0), ("c2n", 6, 0), ("phase_rate_fine", 15, 1)],
    6: [("rng_fine", 20, 1), ("phase_fine", 24, 1), ("lock_time", 10, 0), ("hc_indc", 1, 0), ("c2n", 10, 0)],
    7: [("rng_fine", 20, 1), ("phase_fine", 24, 1), ("lock_time", 10, 0), ("hc_indc", 1, 0), ("c2n", 10, 0), ("phase_rate_fine", 15, 1)],
}
SAT_ALL = {3: ["rng_rough"], 7: ["rng_ms", "ext_info", "rng_rough", "phase_rate_rough"]}
SGN_ALL = {3: ["rng_fine", "phase_fine", "lock_time", "hc_indc"],
           7: ["rng_fine", "phase_fine", "lock_time", "hc_indc", "c2n", "phase_rate_fine"]}

MODES = ("MARGO", "JSON", "JSON-B", "JARGO")
DEF_LIT = {i + 1: v for i, v in enumerate(
    [1, -4, 5, 6, 1, -4, 5, 6, -2, -7, 0, -1, -2, -7, 0, -1, 4, -3, 3, 2, 4, -3, 3, 2])}
DEF_CTRL = {"hca": False, "ltm": False, "utc": 18, "lit": DEF_LIT,
            "pretty": True, "hdr": True, "aux": True}


class Bad(Exception):
    """message is malformed: no record, one decoding error"""


def msgnum(fr: bytes) -> int:
    # apparent number: the 12 bits behind the header
    return (fr[3] << 4) | (fr[4] >> 4)


def supported(num, mode):
    if num in MSM:
        return True
    if mode == "MARGO":
        return False
    return num in EPH or num in BASE


# --------------------------------------------------------------------------
# Model decoder
# --------------------------------------------------------------------------


def dec_eph(num, payload, bare):
    cls, path, fields = EPH[num]
    r = BitR(payload)
    out = {}
    for name, w, kind, sc in fields:
        v = getattr(r, kind)(w)
        if name is None:
            continue
        if not bare and sc is not None:
            if sc == "slot":
                v = v - 7
            elif sc == "tk":
                v = 3600 * (v >> 7) + 60 * ((v >> 1) & 63) + 30 * (v & 1)
            else:
                v = v * sc
        out[name] = v
    return out


def _chars(r, n):
    return [r.u(8) for _ in range(n)]


def _text(octets, bare):
    if bare:
        return {"__hex__": octets}
    try:
        return bytes(octets).decode("utf-8")
    except UnicodeDecodeError as e:
        raise Bad() from e


def dec_base(num, payload, bare):
    r = BitR(payload)
    o = {"msgNum": r.u(12), "bsID": r.u(12)}
    fl = (lambda x: x) if bare else (lambda x: x == 1)
    sc = (lambda x, k: x) if bare else (lambda x, k: x * k)
    if num in (1005, 1006):
        o["ITRF_Year"] = r.u(6)
        o["GPS_OK"] = fl(r.u(1))
        o["GLO_OK"] = fl(r.u(1))
        o["GAL_OK"] = fl(r.u(1))
        o["isVirtual"] = fl(r.u(1))
        o["refPoint_X"] = sc(r.s(38), 1e-4)
        o["singleOsc"] = fl(r.u(1))
        r.u(1)
        o["refPoint_Y"] = sc(r.s(38), 1e-4)
        q = r.u(2)
        o["QC_bias"] = q if bare else ["UNDEF", "CORRECTED", "NOT CORRECTED", "RESERVED"][q]
        o["refPoint_Z"] = sc(r.s(38), 1e-4)
        if num == 1006:
            o["height"] = sc(r.u(16), 1e-4)
    elif num in (1007, 1008, 1033):
        n = o["descrLength"] = r.u(8)
        o["descr"] = _text(_chars(r, n), bare)
        o["setupID"] = r.u(8)
        if num in (1008, 1033):
            n = o["serialNumberLength"] = r.u(8)
            o["serialNumber"] = _text(_chars(r, n), bare)
        if num == 1033:
            for a, b in (("rcvDescriptorLength", "rcvDescriptor"),
                         ("rcvFWVersionLength", "rcvFWVersion"),
                         ("rcvSerNumLength", "rcvSerNum")):
                n = o[a] = r.u(8)
                o[b] = _text(_chars(r, n), bare)
    elif num == 1013:
        o["modifiedJulianDay"] = r.u(16)
        o["daySec"] = r.u(17)
        n = o["Nm"] = r.u(5)
        o["leapSec"] = r.u(8)
        if n == 0:
            n = (len(payload) * 8 - 70) // 29
            if n < 0:
                raise Bad()
        sh = {}
        for _ in range(n):
            k = r.u(12)
            a = r.u(1)
            p = r.u(16)
            sh[str(k)] = [fl(a), sc(p, 0.1)]
        o["shedule"] = sh
    elif num == 1029:
        o["modifiedJulianDay"] = r.u(16)
        o["daySec"] = r.u(17)
        o["charNum"] = r.u(7)
        n = o["unitsNum"] = r.u(8)
        o["message"] = _text(_chars(r, n), bare)
    elif num == 1230:
        o["isCorrected"] = fl(r.u(1))
        r.u(3)
        m = r.u(4)
        val, cor = {}, {}
        for i, s in enumerate(("1C", "1P", "2C", "2P")):
            on = (m >> (3 - i)) & 1
            val[s] = fl(on)
            cor[s] = sc(r.s(16), 0.02) if on else sc(0, 0.02)
        o["validity"] = val
        o["correction"] = cor
    if (r.pos + 7) // 8 != len(payload):
        raise Bad()
    return o


def dec_msm_raw(num, payload):
    g, k = MSM[num]
    r = BitR(payload)
    r.u(12)
    h = {}
    h["rs_id"] = r.u(12)
    h["time"] = r.u(30)
    h["MMB"] = r.u(1)
    h["IODS"] = r.u(3)
    r.u(7)
    h["clk_steer"] = r.u(2)
    h["clk_ext"] = r.u(2)
    h["smth_indc"] = r.u(1)
    h["smth_intr"] = r.u(3)
    sm = r.u(64)
    gm = r.u(32)
    sats = [i + 1 for i in range(64) if (sm >> (63 - i)) & 1]
    sigs = [i + 1 for i in range(32) if (gm >> (31 - i)) & 1]
    h["sat_mask"] = sum(1 << (s - 1) for s in sats)
    h["sgn_mask"] = sum(1 << (s - 1) for s in sigs)
    cells = []
    sat, sgn = {}, {}
    h["cell_mask"] = 0
    if sats:
        nc = len(sats) * len(sigs)
        if nc == 0 or nc > 64:
            raise Bad()
        for i in range(nc):
            if r.u(1):
                cells.append(divmod(i, len(sigs)))
                h["cell_mask"] |= 1 << i
        if not cells:
            raise Bad()
        for name, w, sg in MSM_SAT[k]:
            sat[name] = [(r.s if sg else r.u)(w) for _ in sats]
        for name, w, sg in MSM_SGN[k]:
            sgn[name] = [(r.s if sg else r.u)(w) for _ in cells]
    if (r.pos + 7) // 8 != len(payload):
        raise Bad()
    return {"g": g, "k": k, "hdr": h, "sats": sats, "sigs": sigs, "cells": cells,
            "sat": sat, "sgn": sgn}


def lock10(i):
    if i < 64:
        return i
    if i >= 704:
        return 67108864 if i == 704 else 0
    blk = (i - 64) // 32  # 0 -> factor 2
    mul = 2 << blk
    base = 64 << blk
    return base + (i - (64 + 32 * blk)) * mul


def lock4(i):
    return 0 if i == 0 else 16 * (2 ** i)


C_MS = 299792.458


def msm_time(raw):
    t = raw["hdr"]["time"]
    if raw["g"] == "R":
        return t & 0x7FFFFFF, t >> 27
    return t, 0


def dec_msm_scaled(raw):
    """Observables by quantity, signal and satellite; raises Bad for an
    unknown signal (generators never produce one)."""
    g, k = raw["g"], raw["k"]
    names = []
    for s in raw["sigs"]:
        if s not in SIG[g]:
            raise Bad()
        names.append(SIG[g][s][0])
    obs = {q: {} for q in ("rng", "phs", "ltm", "hca", "dpl", "c2n")}
    fine = k >= 6
    kr, kp = (29, 31) if fine else (24, 29)
    inv_r = -(1 << 19) if fine else -(1 << 14)
    inv_p = -(1 << 23) if fine else -(1 << 21)
    sat, sgn = raw["sat"], raw["sgn"]

    def put(q, si, gi, v):
        obs[q].setdefault(names[gi], {})[str(raw["sats"][si])] = v

    for c, (si, gi) in enumerate(raw["cells"]):
        if k >= 4:
            rough_ok = sat["rng_ms"][si] != 255
            rough = sat["rng_ms"][si] + sat["rng_rough"][si] / 1024.0
        else:
            rough_ok = True
            rough = sat["rng_rough"][si] / 1024.0
        has_r = "rng_fine" in sgn and sgn["rng_fine"][c] != inv_r
        has_p = "phase_fine" in sgn and sgn["phase_fine"][c] != inv_p
        if k == 3 and not has_r:
            has_p = False
        if rough_ok and has_r:
            put("rng", si, gi, (rough + sgn["rng_fine"][c] * P(kr)) * C_MS)
        if rough_ok and has_p:
            put("phs", si, gi, (rough + sgn["phase_fine"][c] * P(kp)) * C_MS)
        if k >= 4 or has_p:
            if "lock_time" in sgn:
                put("ltm", si, gi, lock10(sgn["lock_time"][c]) if fine else lock4(sgn["lock_time"][c]))
                put("hca", si, gi, sgn["hc_indc"][c] != 0)
        if k >= 4:
            put("c2n", si, gi, sgn["c2n"][c] * (0.0625 if fine else 1.0))
        if k in (5, 7) and sat["phase_rate_rough"][si] != -8192 and sgn["phase_rate_fine"][c] != -16384:
            put("dpl", si, gi, sat["phase_rate_rough"][si] + sgn["phase_rate_fine"][c] * 1e-4)
    return names, obs


CLK_ST = ["OFF", "ON", "UNDEF", "UNDEF"]
CLK_EX = ["INTERNAL", "EXT-LOCK", "EXT-UNLOCK", "UNDEF"]
SM_IN = ["UNDEF", "DVRG-FREE"]
SM_IV = ["NOSMTH", "00-30", "30-60", "60-120", "120-240", "240-480", "480+", "UNLIM"]


def rec_msm_json(num, raw, ctrl):
    names, obs = dec_msm_scaled(raw)
    t, d = msm_time(raw)
    h = raw["hdr"]
    rec = {}
    if ctrl["hdr"]:
        rec["hdr"] = {"signals": {n: SIG_FRQ[raw["g"]][n] for n in names},
                      "sats": list(raw["sats"]), "time": t, "day": d}
        if not raw["sats"]:
            rec["hdr"]["signals"] = {}
    if ctrl["aux"]:
        rec["aux"] = {
            "rs_id": h["rs_id"], "MMB": h["MMB"], "IODS": h["IODS"],
            "clk_steer": {"code": h["clk_steer"], "val": CLK_ST[h["clk_steer"]]},
            "clk_ext": {"code": h["clk_ext"], "val": CLK_EX[h["clk_ext"]]},
            "smth_indc": {"code": h["smth_indc"], "val": SM_IN[h["smth_indc"]]},
            "smth_intr": {"code": h["smth_intr"], "val": SM_IV[h["smth_intr"]]},
        }
    rec["obs"] = obs
    return {str(t + d * 86400000): rec}


def rec_msm_bare(num, raw, ctrl):
    t, _ = msm_time(raw)
    grp = 3 if raw["k"] <= 3 else 7
    rec = {}
    if ctrl["hdr"]:
        rec["hdr"] = dict(raw["hdr"])
    if ctrl["aux"]:
        rec["aux"] = {"gnss": raw["g"], "subset": "MSM%d" % raw["k"], "msg_number": num}
    rec["sat"] = {n: list(raw["sat"].get(n, [0])) for n in SAT_ALL[grp]}
    rec["sgn"] = {n: list(raw["sgn"].get(n, [0])) for n in SGN_ALL[grp]}
    return {str(t): rec}


MARGO_ID = {"C": 0, "L": 1, "D": 2, "S": 3, "T": 4, "A": 5}
MARGO_FRAC = {"C": 3, "L": 4, "D": 3, "S": 2, "T": 3, "A": 0}
WEEK = 604800000


def carrier(g, sig, sat, ctrl):
    f = SIG_FRQ[g][sig]
    if g == "R":
        f += (0.5625 if sig[0] == "1" else 0.4375) * ctrl["lit"][sat]
    return f


def margo_time(raw, ctrl):
    t, d = msm_time(raw)
    if raw["g"] == "B":
        t += 14000
        return t - WEEK if t >= WEEK else t
    if raw["g"] == "R":
        t = t + d * 86400000 - (10800 - ctrl["utc"]) * 1000
        return t + WEEK if t < 0 else t
    return t


def rows_margo(num, raw, ctrl):
    """{relative path: (time, {sat: value})}"""
    g = raw["g"]
    names, obs = dec_msm_scaled(raw)
    t = margo_time(raw, ctrl)
    out = {}

    def add(letter, sig, vals):
        out["%s/%s%s%s_MSM%d.obs" % (GNSS_DIR[g], g, letter, sig, raw["k"])] = (
            t, {s: v for s, v in vals.items() if s <= MAX_SAT[g]})

    for sig, d in obs["rng"].items():
        add("C", sig, {int(s): v for s, v in d.items()})
    for sig, d in obs["phs"].items():
        vals = {}
        for s, v in d.items():
            s = int(s)
            if s > MAX_SAT[g]:
                continue
            if not ctrl["hca"] and obs["hca"].get(sig, {}).get(str(s), False):
                continue
            vals[s] = v * carrier(g, sig, s, ctrl) * 1e6 / (C_MS * 1e3)
        add("L", sig, vals)
    for sig, d in obs["dpl"].items():
        add("D", sig, {int(s): -v * carrier(g, sig, int(s), ctrl) * 1e6 / (C_MS * 1e3)
                       for s, v in d.items() if int(s) <= MAX_SAT[g]})
    for sig, d in obs["c2n"].items():
        add("S", sig, {int(s): v for s, v in d.items()})
    if ctrl["ltm"]:
        for sig, d in obs["ltm"].items():
            add("T", sig, {int(s): v / 1000.0 for s, v in d.items()})
    if ctrl["hca"]:
        for sig, d in obs["hca"].items():
            add("A", sig, {int(s): (1.0 if v else 0.0) for s, v in d.items()})
    return out


def margo_header(path, ctrl):
    name = path.split("/")[-1]
    g, letter, sig = name[0], name[1], name[2:4]
    n = MAX_SAT[g]
    return (MARGO_ID[letter], list(range(1, n + 1)), SIG_FRQ[g][sig],
            [carrier(g, sig, s, ctrl) for s in range(1, n + 1)])


SRC_MSM = "ObservablesMSM"


def decode(fr: bytes, mode: str, ctrl: dict):
    """-> ('none',) unsupported, ('bad',) decoding error,
    ('ok', [(path, kind, item)]) one message = one list of product items.
    kind 'json': item = record, with source type; kind 'margo': item = (t, vals)"""
    num = msgnum(fr)
    if not supported(num, mode):
        return ("none",)
    payload = fr[3:-3]
    bare = mode == "JSON-B"
    try:
        if num in EPH:
            cls, path, _ = EPH[num]
            return ("ok", [(path, "json", (cls, dec_eph(num, payload, bare)))])
        if num in BASE:
            cls, path = BASE[num]
            return ("ok", [(path, "json", (cls, dec_base(num, payload, bare)))])
        raw = dec_msm_raw(num, payload)
        g, k = raw["g"], raw["k"]
        if mode in ("MARGO", "JARGO"):
            return ("ok", [(p, "margo", v) for p, v in rows_margo(num, raw, ctrl).items()])
        path = "MSM%d/%s-MSM%d-%d.json" % (k, GNSS_DIR[g], k, num)
        if bare:
            cls = "BareObservablesMSM123" if k <= 3 else "BareObservablesMSM4567"
            return ("ok", [(path, "json", (cls, rec_msm_bare(num, raw, ctrl)))])
        return ("ok", [(path, "json", (SRC_MSM, rec_msm_json(num, raw, ctrl)))])
    except (Bad, Short):
        return ("bad",)


class Expect:
    """Expected outcome of converting a list of frames."""

    def __init__(self, frames, mode, ctrl):
        self.mode = mode
        self.ctrl = ctrl
        self.items = [decode(f, mode, ctrl) for f in frames]
        self.frames = frames

    def products(self, upto=None, skip=()):
        prod = {}
        for i, it in enumerate(self.items):
            if upto is not None and i >= upto:
                break
            if it[0] != "ok" or i in skip:
                continue
            for path, kind, item in it[1]:
                prod.setdefault(path, []).append(item)
        return prod

    @property
    def attempts(self):
        return sum(1 for it in self.items if it[0] != "none")

    @property
    def errors(self):
        return sum(1 for it in self.items if it[0] == "bad")

    @property
    def ok(self):
        return sum(1 for it in self.items if it[0] == "ok")
