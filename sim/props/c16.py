"""C16: settings take effect exactly as configured, and broken ones do no harm."""

import configparser
import io
import json
import os

from .. import gen, oracle, spec, sut
from .common import *  # noqa

RUNS = {"quick": 14000, "thorough": 600000}
SHRINK = [("runs", "*", "segs"), ("runs",), ("world", "faults")]
KEEP = {"runs": 1}
RULE = ("One to three program runs in one process, each with its own source, mode and user configuration (every"
        " subset and spelling of settings, invalid values, damage at any byte, missing or unreadable file, read"
        " errors) over a default file that is generated, the shipped one, or damaged. The settings in effect are read"
        " off the products (extra tables, time shift, frequencies, record contents, layout) and compared with a"
        " reference reading of the two files. Non-trivial: a user file, damage or more than one run.")
REAL = REAL_ALL
STUB = STUB_FS
ASSUME = ["the ini grammar is the one of the standard configparser package",
          "groups of settings: [MARGO]+[TIME]+[LITERALS], and [JSON]"]

BOOL = {True: ("true", "True", "yes", "on", "1", "TRUE"), False: ("false", "False", "no", "off", "0", "OFF")}
BADB = ("maybe", "2", "", "tru", "%(x)s", "true false", "null")
BADI = ("x", "", "1.5", "0x10", "--3", "%(y)s", "eighteen")


def render(r, vals, bad=()):
    """ini text for a dict {(section, key): text}"""
    secs = {}
    for (s, k), v in vals.items():
        secs.setdefault(s, []).append((k, v))
    out = []
    names = list(secs)
    r.shuffle(names)
    if r.random() < 0.3:
        out.append("# comment \u017e")
    for s in names:
        out.append("[%s]" % s)
        items = secs[s]
        r.shuffle(items)
        for k, v in items:
            k = r.choice((k, k, k.lower(), k.upper()))
            out.append("%s%s%s" % (k, r.choice((" = ", "=", ": ", " : ", ":  ")), v))
            if r.random() < 0.1:
                out.append(r.choice(("", "; note", "# note = 1")))
    return r.choice(("\n", "\n", "\r\n")).join(out) + "\n"


def user_values(r, kind):
    """settings of one user file"""
    v = {}
    p = r.choice((0.2, 0.5, 1.0))
    for sec, key in (("MARGO", "HCA"), ("MARGO", "LOCK_TIME"), ("JSON", "ENABLE_PRETTY_VIEW"),
                     ("JSON", "ENABLE_HDR_DATA"), ("JSON", "ENABLE_AUX_DATA")):
        if r.random() < p:
            v[sec, key] = r.choice(BOOL[r.random() < 0.5])
    if r.random() < p:
        v["TIME", "GPS2UTC"] = r.choice(("0", "17", "18", "37", "+19", "-1", "1000", str(r.randrange(60))))
    if r.random() < p:
        how = r.choice(("R%d", "R%d", "R%d", "R%02d", "%d", "R%03d", "mixed"))
        for s in r.sample(range(1, 25), r.choice((1, 3, 24))):
            k = r.choice(("R%d", "R%02d", "%d")) if how == "mixed" else how
            v["LITERALS", k % s] = r.choice(("%d", "%d", "%+d")) % (r.randrange(-7, 14) if r.random() < 0.9 else r.randrange(-99, 100))
    if r.random() < 0.15:
        v["OTHER", "FOO"] = "bar"
    if r.random() < 0.1:
        v["margo", "HCA"] = "true"
    if r.random() < 0.1:
        v["JSON", "UNKNOWN"] = "x"
    if r.random() < 0.1:
        v["LITERALS", "R%d" % r.choice((0, 25, 30))] = r.choice(("3", "x"))
    if kind == "bad":
        for _ in range(r.choice((1, 1, 2))):
            k = r.random()
            if k < 0.4:
                v[r.choice((("MARGO", "HCA"), ("MARGO", "LOCK_TIME")))] = r.choice(BADB)
            elif k < 0.6:
                v["JSON", r.choice(("ENABLE_PRETTY_VIEW", "ENABLE_HDR_DATA", "ENABLE_AUX_DATA"))] = r.choice(BADB)
            elif k < 0.8:
                v["TIME", "GPS2UTC"] = r.choice(BADI)
            elif k < 0.95:
                v["LITERALS", "R%d" % r.randrange(1, 25)] = r.choice(BADI)
            else:
                v["LITERALS", r.choice(("X1", "G5", "FOO"))] = "1"
    return v


def damage(r, b):
    b = bytearray(b)
    k = r.random()
    if not b:
        return bytes(b)
    if k < 0.35:
        return bytes(b[:r.randrange(len(b) + 1)])
    if k < 0.6:
        for _ in range(r.choice((1, 1, 3))):
            b[r.randrange(len(b))] = r.choice((r.getrandbits(8), 0x0A, 0x5B, 0x25, 0xFF, 0x00, 0x3D))
        return bytes(b)
    if k < 0.7:
        return bytes(r.getrandbits(8) for _ in range(r.choice((1, 30, 200))))
    lines = bytes(b).split(b"\n")
    if k < 0.85:
        del lines[r.randrange(len(lines))]
    else:
        lines.insert(r.randrange(len(lines) + 1), r.choice(lines))
    return b"\n".join(lines)


def make(seed, i, tier):
    r = gen.rng_for(seed, "C16", i)
    ctrl = sut.rand_ctrl(r)
    defaults = "gen"
    k = r.random()
    if k < 0.1:
        defaults = "repo"
    elif k < 0.16:
        defaults = "absent"
    elif k < 0.26:
        defaults = {"h": damage(r, sut.ini_text(sut.norm(ctrl)).encode()).hex()}
    elif k < 0.3:
        lines = [x for x in sut.ini_text(sut.norm(ctrl)).splitlines() if r.random() < 0.93]
        defaults = {"h": ("\n".join(lines) + "\n").encode().hex()}
    runs, faults = [], []
    for n in range(r.choice((1, 1, 2, 3))):
        mode = r.choice(spec.MODES)
        # messages that show the settings
        if mode in ("MARGO", "JARGO"):
            nums = r.sample((1084, 1085, 1086, 1087, 1083, 1074, 1077, 1097), 3)
        else:
            nums = r.sample((1074, 1077, 1085, 1083, 1127, 1005, 1019, 1230), 3)
        fr = messages(r, mode, r.choice((1, 2, 4)), nums=nums, small=True)
        run = {"mode": mode, "segs": [gen.seg("frame", f) for f in fr], "ini": None}
        kind = r.choice(("none", "none", "good", "good", "good", "bad", "bad", "damaged", "damaged", "missing",
                         "unreadable", "shipped", "empty", "dir"))
        run["kind"] = kind
        if kind in ("good", "bad", "damaged", "unreadable"):
            t = render(r, user_values(r, kind)).encode()
            if kind == "damaged":
                t = damage(r, t)
            run["ini"] = t.hex()
        elif kind == "empty":
            run["ini"] = r.choice((b"", b"\n\n", b"# only a comment\n", b"[MARGO]\n")).hex()
        elif kind == "shipped":
            run["ini"] = "repo"
        if kind == "unreadable":
            faults.append({"op": r.choice(("open_r", "read")), "under": "u%d.ini" % n, "nth": 1, "sticky": True,
                           "err": r.choice(E_OPENR)})
        runs.append(run)
    if r.random() < 0.06:
        faults.append({"op": r.choice(("open_r", "read")), "under": "defaults.ini", "nth": 1, "sticky": True,
                       "err": r.choice(("EACCES", "EIO"))})
    w = std_world(r)
    w["faults"] = faults
    return {"ctrl": ctrl, "defaults": defaults, "runs": runs, "world": w, "chunk": 4096}


# -- reference reading of the configuration ----------------------------------


class Skip(Exception):
    """not decidable from the statement"""


def _group(fn):
    try:
        return fn()
    except (configparser.Error, ValueError):
        return None


def _margo(cp, own=()):
    """own: keys of [LITERALS] in the user's own file; they override whatever spelling the default file uses"""
    if not all(cp.has_section(s) for s in ("MARGO", "TIME", "LITERALS")):
        return None
    lit = {}
    for k in cp["LITERALS"]:
        s = int(k.strip("rR"))
        if 0 < s <= 24:
            if s in lit and (k in own) == (lit[s][0] in own):
                raise Skip("two spellings of one satellite in one file")
            if s not in lit or k in own:
                lit[s] = k, cp["LITERALS"].getint(k)
            else:
                cp["LITERALS"].getint(k)
    lit = {s: x for s, (k, x) in lit.items()}
    if len(lit) != 24:
        return None
    d = {"lit": lit, "utc": cp["TIME"].getint("GPS2UTC"), "hca": cp["MARGO"].getboolean("HCA"),
         "ltm": cp["MARGO"].getboolean("LOCK_TIME")}
    return None if None in d.values() else d


def _json(cp):
    if not cp.has_section("JSON"):
        return None
    j = cp["JSON"]
    d = {"hdr": j.getboolean("ENABLE_HDR_DATA"), "aux": j.getboolean("ENABLE_AUX_DATA"),
         "pretty": j.getboolean("ENABLE_PRETTY_VIEW")}
    return None if None in d.values() else d


def _read(cp, data):
    """None: cannot be read at all"""
    if data is None:
        return False
    try:
        # universal newlines, as for a text file
        cp.read_file(io.TextIOWrapper(io.BytesIO(data), encoding="utf-8"))
        return True
    except (configparser.Error, UnicodeDecodeError):
        return False


def reference(defaults, user):
    """settings in effect, or None when conversion has to be refused"""
    cp = configparser.ConfigParser()
    if not _read(cp, defaults) or cp.defaults():
        if cp.defaults():
            raise Skip("DEFAULT section")
        return None
    m, j = _group(lambda: _margo(cp)), _group(lambda: _json(cp))
    if m is None or j is None:
        return None
    c = dict(m, **j)
    if user is not None:
        ok = _read(cp, user)
        if cp.defaults():
            raise Skip("DEFAULT section")
        if ok:
            own = configparser.ConfigParser()
            _read(own, user)
            own = set(own["LITERALS"]) if own.has_section("LITERALS") else ()
            for g in (lambda: _margo(cp, own), lambda: _json(cp)):
                x = _group(g)
                if x is not None:
                    c.update(x)
    if not -20000 < c["utc"] < 10800 or any(abs(x) > 400 for x in c["lit"].values()):
        raise Skip("absurd number")
    return c


def layout_error(path, data, pretty):
    txt = data.decode("utf-8")
    dec = json.JSONDecoder()
    i, n = 0, 0
    while i < len(txt):
        if txt[i] in " \r\n\t[],":
            i += 1
            continue
        obj, j = dec.raw_decode(txt, i)
        if n and obj and ("\n" in txt[i:j]) != pretty:
            return "%s: record is %sindented, setting ENABLE_PRETTY_VIEW is %s" % (path, "" if not pretty else "not ", pretty)
        n += 1
        i = j
    return None


def run(scn, root):
    repo = lambda n: open(os.path.join(sut.REPO, n), "rb").read()
    srcs, lines = [], []
    pre = {}
    for n, rn in enumerate(scn["runs"]):
        srcs.append({"name": "data/r%d.rtcm3" % n, "segs": rn["segs"], "mode": rn["mode"]})
        a = "-o %s" % rn["mode"]
        if rn["kind"] != "none":
            a += " -i u%d.ini" % n
        lines.append(a + " data/r%d.rtcm3" % n)
        if rn["ini"] is not None:
            pre["u%d.ini" % n] = "h:" + (repo("addons.ini").hex() if rn["ini"] == "repo" else rn["ini"])
        elif rn["kind"] == "dir":
            pre["u%d.ini" % n] = "dir"
    s = dict(scn, sources=srcs, pre=pre)
    sut.setup_files(root, s)
    o = sut.run_main(root, s, runs=lines)
    v = basic_faults(o)
    d = scn["defaults"]
    dtext = (sut.ini_text(sut.norm(scn["ctrl"])).encode() if d == "gen" else repo("defaults.ini") if d == "repo"
             else bytes.fromhex(d["h"]) if isinstance(d, dict) else None)
    probes = {"refused": 0, "converted": 0, "skipped": 0, "overridden": 0}
    size = 0
    dfault = [f for f in o.w.faults if f["under"] == "defaults.ini"]
    for n, rn in enumerate(scn["runs"]):
        if v:
            break
        dt = dtext
        if dfault:
            dt = None
        user = None
        if rn["ini"] is not None and rn["kind"] != "unreadable":
            user = repo("addons.ini") if rn["ini"] == "repo" else bytes.fromhex(rn["ini"])
        try:
            c = reference(dt, user)
            base = reference(dt, None)
        except Skip:
            probes["skipped"] += 1
            continue
        data, frames, gaps, exp = expect_for(srcs[n], rn["mode"], c or spec.DEF_CTRL)
        size += len(data)
        files = oracle.split_outdir(o.after, sut.outdir(srcs[n]["name"], rn["mode"]))
        err, convs = o.per_run[n] if n < len(o.per_run) else ("", [])
        tag = "run %d (%s, user file: %s): " % (n, rn["mode"], rn["kind"])
        if c is None:
            probes["refused"] += 1
            if files is not None and oracle.products_of(files):
                v = viol("refuse", tag + "default settings are not valid, but the source was converted")
            elif sut.verdicts(err):
                v = viol("refuse", tag + "default settings are not valid, but the verdict is %r" % sut.verdicts(err))
            elif not err.strip():
                v = viol("refuse", tag + "refused without a message")
        else:
            probes["converted"] += 1
            probes["overridden"] += c != base
            if files is None:
                v = viol("product", tag + "no output folder")
                break
            e = oracle.check_products(files, exp.products(), c)
            if e:
                v = viol("settings", tag + "settings should be %s: %s" % (
                    {k: x for k, x in c.items() if k != "lit"}, e[1]))
            for p, x in sorted(oracle.products_of(files).items()):
                if not v and p.endswith(".json"):
                    e = layout_error(p, x, c["pretty"])
                    if e:
                        v = viol("settings", tag + e)
    fired = dict(o.w.fired)
    for rn in scn["runs"]:
        if rn["kind"] not in ("none", "good", "shipped"):
            fired["user file " + rn["kind"]] = fired.get("user file " + rn["kind"], 0) + 1
    if isinstance(d, dict) or d == "absent":
        fired["default file damaged or absent"] = 1
    return finish(o, v, nt=probes["converted"] + probes["refused"] > 0, fired=fired,
                  m={"bytes": size, "seam_events": o.w.nev, "program_runs": len(scn["runs"])}, probes=probes,
                  sample={"runs": [[x["mode"], x["kind"], (x["ini"] or "")[:120]] for x in scn["runs"]],
                          "defaults": str(d)[:60]})
