"""C21: products are a function of source bytes, format and settings."""

import json
import os
import pickle
import subprocess
import sys
import time

from .. import gen, oracle, spec, sut
from ..world import REPO
from .common import *  # noqa

RUNS = {"quick": 3000, "thorough": 120000}
SHRINK = [("segs",), ("vars",), ("vars", "*", "prior"), ("vars", "*", "mates")]
KEEP = {"vars": 1}
RULE = ("The same bytes are converted once plainly (the reference, fresh process) and in one to three other ways: under"
        " another name and place, through a link, from another working directory, with another spelling of the command"
        " line, after other conversions in the same process, among other sources, twice, on a machine with another"
        " locale, clock, time zone, environment, directory order, buffer size or string-hash seed (fresh interpreter), with the settings taken"
        " from the user's file instead of the default one. Product files (byte for byte), counts and verdict must equal"
        " the reference. Non-trivial: the reference has at least one product or one error.")
REAL = REAL_ALL
STUB = STUB_FS + ["encoding of the locale", "string-hash seed", "command line"]

NAMES = ("data/ref.rtcm3", "plain", "data/12345", "a.b.c.rtcm3", "UP/Case.RTCM3", "d.1/noext", "d.1/e.2/f.bin",
         "data/1074.json", "data/MARGO.rtcm3", "x-JSON/src-JSON.rtcm3", "x-JSON/x-JSON-B", "dir/.hidden",
         "dir/.hidden.rtcm3", "dir/end.", "we[i]rd/st*r.rtcm3", "we[i]rd/q?.rtcm3", "p%s/100%d.rtcm3", "b{0}/{x}.rtcm3",
         "q'uo\"te/it's.rtcm3", "data/EPH", "BASE/OBS.rtcm3", "G/R.obs", "data/defaults.rtcm3", "m/defaults.ini.bin",
         "data/a=b,c;d.rtcm3", "data/#1~.rtcm3", "data/@file.rtcm3", "data/" + "n" * 180 + ".rtcm3",
         "/".join(["deep"] * 30) + "/s.rtcm3", "d\u00e9p\u00f4t/\u0444\u0430\u0439\u043b.rtcm3", "data/\u65e5.rtcm3",
         "data/log.txt", "data/x-log.txt", "data/x.gz", "data/x.rtcm2", "data/_", "0", "data/1e5.rtcm3", "tmp/nan")
SPACED = ("two words.rtcm3", "my data/ref.rtcm3", " lead/trail .rtcm3", "a  b/c\td.rtcm3")
FORMS = ("short", "short", "long", "eq", "after", "abs", "dot", "updown", "implicit")
ENV = {"TZ": ("UTC0", "EST5EDT,M3.2.0,M11.1.0", "MSK-3", "NZST-12NZDT,M9.5.0,M4.1.0/3", "<+0545>-5:45", "HST10"),
       "LANG": ("C", "de_DE.UTF-8", "ja_JP", ""), "LC_ALL": ("C", "POSIX", "ru_RU.KOI8-R"), "HOME": ("/nonexistent", "/"),
       "USER": ("nobody",), "COLUMNS": ("20", "500"), "TMPDIR": ("/nonexistent",), "DEBUG": ("1", "0"),
       "VERBOSE": ("1",), "NO_COLOR": ("1",), "TERM": ("dumb", "xterm"), "SOURCE_DATE_EPOCH": ("0", "1")}
ENCS = (None, None, "ascii", "latin-1", "cp1251", "cp1252", "cp437", "shift_jis")


def make(seed, i, tier):
    r = gen.rng_for(seed, "C21", i)
    mode = spec.MODES[i % 4]
    fr = messages(r, mode, r.choice((1, 2, 4, 8, 20)), small=True, p_unsup=0.1, p_bad=0.1)
    scn = {"mode": mode, "ctrl": sut.rand_ctrl(r), "segs": gen.link(r, fr, rate=r.choice((0.0, 0.0, 0.4)), small_max=True)}
    vs = []
    for _ in range(r.choice((1, 1, 2, 3))):
        v = {"name": r.choice(NAMES), "form": r.choice(FORMS), "world": std_world(r), "prior": [], "mates": []}
        if r.random() < 0.25:
            v["argv"] = True
            if r.random() < 0.7:
                v["name"] = r.choice(SPACED)
        v["world"]["enc"] = r.choice(ENCS)
        v["world"]["t0"] = r.choice((1.6e9, 0.0, 4e9, -1e5, 1.48e9, 1.6e9 + r.randrange(10 ** 8),
                                       1.6e9 + r.randrange(10 ** 8)))
        if r.random() < 0.25:
            v["cwd"] = r.choice(("data", "elsewhere", "a.b/c", "x-JSON"))
        if r.random() < 0.15:
            v["link"] = r.choice(("sym", "hard", "symdir"))
        if r.random() < 0.2:
            v["perm"] = r.choice((0o444, 0o400, 0o755, 0o666))
        if r.random() < 0.3:
            v["mtime"] = r.choice((0, 1, -10 ** 6, 10 ** 9, 1735689600, 2 ** 31, 4 * 10 ** 9, r.randrange(2 ** 32)))
        if r.random() < 0.3:
            v["env"] = {k: r.choice(x) for k, x in ENV.items() if r.random() < 0.5}
            v["umask"] = r.choice((0, 0o022, 0o027, 0o077))
        if r.random() < 0.2:
            v["twice"] = r.choice(("args", "run"))
        if r.random() < 0.2:
            v["via"] = sut.rand_ctrl(r, 0.1)
        if r.random() < 0.2:
            v["decoy"] = sut.rand_ctrl(r, 0.0)
        if r.random() < 0.35:
            for _ in range(r.choice((1, 1, 2))):
                m = r.choice((mode,) + tuple(spec.MODES))
                v["prior"].append({"mode": m, "same": r.random() < 0.4, "ini": r.random() < 0.4 and sut.rand_ctrl(r, 0.0),
                                   "segs": gen.link(r, messages(r, m, r.choice((0, 1, 3, 6)), small=True, p_unsup=0.1,
                                                                p_bad=0.2), rate=r.choice((0.0, 0.5)), small_max=True)})
        if r.random() < 0.3:
            v["mates"] = [gen.link(r, messages(r, mode, r.choice((0, 1, 4)), small=True, p_unsup=0.1, p_bad=0.2),
                                   rate=r.choice((0.0, 0.5)), small_max=True) for _ in range(r.choice((1, 2)))]
            v["at"] = r.randrange(len(v["mates"]) + 1)
        v["hash"] = r.randrange(1, 1 << 31) if r.random() < 0.12 else None
        vs.append(v)
    scn["vars"] = vs
    return scn


def _line(v, mode, names, ini=None, form=None):
    form = form or v["form"]
    if form == "long":
        o = ["--output", mode]
    elif form == "eq":
        o = ["--output=" + mode]
    elif form == "implicit" and mode == "MARGO":
        o = []
    else:
        o = ["-o", mode]
    if ini:
        o = (["--ini", ini] if form in ("long", "eq") else ["-i", ini]) + o
    a = names + o if form in ("after", "updown") else o + names
    return a if v.get("argv") else " ".join(a)


def _spell(root, v, name, cwd):
    """the source as named on the command line"""
    form = v["form"]
    if form == "abs":
        return os.path.join(root, name)
    rel = os.path.relpath(name, cwd or ".")
    if form == "dot":
        return "./" + rel
    if form == "updown":
        return os.path.join("..", os.path.basename(os.path.normpath(os.path.join(root, cwd or ""))), rel)
    return rel if not rel.startswith(("-", " ")) else "./" + rel


def _result(o, conv, od, err):
    files = oracle.split_outdir(o.after, od)
    st = conv.get_statistics() if conv is not None else None
    return {"exc": o.exc, "files": None if files is None else oracle.products_of(files),
            "stats": st and (st.decoding_attempts, st.parsing_errors, st.decoding_errors, st.printing_errors),
            "totals": sut.last_totals(err), "verdicts": sut.verdicts(err), "nev": o.w.nev, "sig": o.w.sig(),
            "open": [x[0] for x in o.open], "esc": list(o.w.escapes), "exit": o.exit}


def _ref(root, scn):
    sut.clean(root)
    put(os.path.join(root, "ref.rtcm3"), gen.join(scn["segs"]))
    s = {"mode": scn["mode"], "ctrl": scn["ctrl"], "sources": [{"name": "ref.rtcm3", "segs": scn["segs"]}]}
    sut.setup_files(root, s)
    o = sut.run_main(root, s, {"seed": 0})
    return _result(o, o.convs[0] if o.convs else None, sut.outdir("ref.rtcm3", scn["mode"]), o.err)


def _variant(root, scn, v):
    sut.clean(root)
    mode, cwd, name = scn["mode"], v.get("cwd"), v["name"]
    data = gen.join(scn["segs"])
    path = os.path.join(root, name)
    # Where the bytes lie and how they are reached.
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if v.get("link") == "sym":
        put(os.path.join(root, "store/real.dat"), data)
        os.symlink(os.path.join(root, "store/real.dat"), path)
    elif v.get("link") == "hard":
        put(os.path.join(root, "store/real.dat"), data)
        os.link(os.path.join(root, "store/real.dat"), path)
    else:
        put(path, data)
    if v.get("perm"):
        os.chmod(path, v["perm"])
    if v.get("mtime") is not None:
        os.utime(path, (v["mtime"] + 7, v["mtime"]))
    # The machine (this process is thrown away afterwards).
    os.environ.update(v.get("env") or {})
    time.tzset()
    if v.get("umask") is not None:
        os.umask(v["umask"])
    seen = name
    if v.get("link") == "symdir" and os.path.dirname(name):
        os.symlink(os.path.join(root, os.path.dirname(name)), os.path.join(root, "via-link"))
        seen = os.path.join("via-link", os.path.basename(name))
    home = os.path.normpath(os.path.join(root, cwd or ""))
    os.makedirs(home, exist_ok=True)
    ini = None
    if v.get("via"):
        put(os.path.join(home, "defaults.ini"), sut.ini_text(sut.norm(v["via"])).encode())
        put(os.path.join(home, "mine.ini"), sut.ini_text(sut.norm(scn["ctrl"])).encode())
        ini = "mine.ini"
    else:
        put(os.path.join(home, "defaults.ini"), sut.ini_text(sut.norm(scn["ctrl"])).encode())
    # Settings of somebody else, in places where the program has no reason to look for them.
    if v.get("decoy"):
        text = sut.ini_text(sut.norm(v["decoy"])).encode()
        for d in {os.path.dirname(path), root, os.path.dirname(home)} - {home}:
            if d.startswith(root):
                put(os.path.join(d, "defaults.ini"), text)
        beside = os.path.splitext(path)[0] + ".ini"
        if os.path.dirname(beside) != home and beside != path:
            put(beside, text)
    # What happens before, in the same process.
    runs, n = [], 0
    for k, p in enumerate(v["prior"]):
        other = os.path.join("prior", "p%d.rtcm3" % k)
        put(os.path.join(root, other), gen.join(p["segs"]))
        i = None
        if p["ini"]:
            i = "prior%d.ini" % k
            put(os.path.join(home, i), sut.ini_text(sut.norm(p["ini"])).encode())
        pname = seen if p["same"] else other
        runs.append(_line(v, p["mode"], [_spell(root, v, pname, cwd)], i, "short"))
    names = []
    for k, segs in enumerate(v["mates"]):
        put(os.path.join(root, "mates", "m%d.rtcm3" % k), gen.join(segs))
        names.append(_spell(root, v, "mates/m%d.rtcm3" % k, cwd))
    at = v.get("at", 0) if v["mates"] else 0
    me = _spell(root, v, seen, cwd)
    names.insert(min(at, len(names)), me)
    at = names.index(me)
    if v.get("twice") == "args":
        names.append(me)
        at = len(names) - 1
    line = _line(v, mode, names, ini)
    runs.append(line)
    if v.get("twice") == "run":
        runs.append(line)
    s = {"mode": mode, "sources": [{"name": name, "segs": scn["segs"]}], "cwd": cwd}
    o = sut.run_main(root, s, v["world"], runs=runs)
    err, convs = o.per_run[-1]
    # the part of the console text that is about this source
    parts, cur = [], []
    for ln in err.splitlines(True):
        cur.append(ln)
        if any(x in ln for x in sut.VERDICTS):
            parts.append("".join(cur))
            cur = []
    if v.get("twice") == "args":
        at = min(at, len(convs) - 1, len(parts) - 1)
    res = _result(o, convs[at] if 0 <= at < len(convs) else None, sut.outdir(name, mode), parts[at] if 0 <= at < len(parts) else "")
    res["count"] = (len(convs), len(parts), len(names))
    return res


def _fresh(root, scn, v):
    """The same in a new interpreter with another string-hash seed."""
    env = dict(os.environ, PYTHONHASHSEED=str(v["hash"]), VERIF_REPO=REPO)
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    code = ("import sys,os,pickle;sys.path.insert(0,%r);from sim import sut;sut.load();from sim.props import c21;"
            "root,scn,v=pickle.load(sys.stdin.buffer);out=os.fdopen(os.dup(1),'wb');"
            "pickle.dump(c21._variant(root,scn,v),out);out.close()" % here)
    p = subprocess.run([sys.executable, "-B", "-c", code], input=pickle.dumps((root, scn, v)), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise RuntimeError("fresh interpreter: " + p.stderr.decode("utf-8", "replace")[-1500:])
    return pickle.loads(p.stdout)


def run(scn, root):
    ref = sut.isolated(_ref, root, scn)
    size = len(gen.join(scn["segs"]))
    sigs, nev, fired, v = [ref["sig"]], ref["nev"], {}, None

    def did(k):
        fired[k] = fired.get(k, 0) + 1

    if ref["exc"]:
        v = viol("crash", "reference: " + ref["exc"])
    for k, x in enumerate(scn["vars"]):
        if v:
            break
        got = _fresh(root, scn, x) if x.get("hash") else sut.isolated(_variant, root, scn, x)
        sigs.append(got["sig"])
        nev += got["nev"]
        for key in ("cwd", "link", "twice", "via", "hash", "argv", "perm", "prior", "mates", "decoy", "env"):
            if x.get(key):
                did("changed:" + key)
        if x.get("mtime") is not None:
            did("changed:age of the source")
        if x["world"].get("enc"):
            did("changed:locale")
        did("changed:name and place")
        what = "%s (%s)" % (x["name"], x["form"])
        if got["exc"]:
            v = viol("crash", "%s: %s" % (what, got["exc"]))
        elif got["esc"]:
            v = viol("escape", "touched the world outside: " + got["esc"][0])
        elif got["files"] is None:
            v = viol("place", "%s: no output folder %s" % (what, sut.outdir(x["name"], scn["mode"])))
        elif got["files"] != ref["files"]:
            a, b = got["files"], ref["files"]
            p = sorted(y for y in set(a) | set(b) if a.get(y) != b.get(y))[0]
            v = viol("product", "%s: %s %s" % (what, p, "missing" if p not in a else "unexpected" if p not in b
                                                 else "differs"))
        elif got["stats"] and ref["stats"] and got["stats"] != ref["stats"]:
            v = viol("counts", "%s: counts %s, reference %s" % (what, got["stats"], ref["stats"]))
        elif got["totals"] != ref["totals"]:
            v = viol("counts", "%s: reported totals %s, reference %s" % (what, got["totals"], ref["totals"]))
        elif got["verdicts"] != ref["verdicts"]:
            v = viol("verdict", "%s: %s, reference %s" % (what, got["verdicts"], ref["verdicts"]))
        elif got["open"]:
            v = viol("open", "%s: left open %s" % (what, got["open"][0]))
    return {"v": v, "sig": sig_of(*sigs, json.dumps(scn["vars"], sort_keys=True)[:4000]),
            "nt": bool(ref["files"]) or any(ref["stats"] or ()), "fired": fired,
            "m": {"bytes": size, "seam_events": nev}, "probes": {"variants": len(scn["vars"])},
            "sample": sample(scn) if size < 300 else None}
