"""C18: directory mode converts exactly the files the user selected."""

import os
import re

from .. import gen, oracle, spec, sut
from .common import *  # noqa

RUNS = {"quick": 6000, "thorough": 250000}
SHRINK = [("files", "*", "segs"), ("files",), ("answer",), ("clutter",)]
RULE = ("A folder with sources, other files, folders, hidden files and old output, enumerated in a seeded order, is"
        " given as source; a simulated user reads the numbered list shown and answers with seeded choices (orders,"
        " repetitions, out-of-range numbers, garbage). Converted sources, their order and their products are compared"
        " with the choice and with direct conversion. Non-trivial: the list was shown.")
REAL = REAL_ALL
STUB = STUB_FS + ["the user reading the list and typing the answer"]

FOLDERS = ("data", "data", "da[t]a", "d*", "data?", "\u017ej", "a.b", "deep/er", "-x", "data-JSON", "[!a]")
STEMS = ("s1", "s2", "a", "A", "a.b", "x[1]", "s*", "q?", "rtcm3", "s1.rtcm3", "\u017e", "-", "_", "1", "2", "~x", "a-b", "{b}")
EXTS = ("rtcm3", "rtcm3", "rtcm3", "bin", "RTCM", "3", "dat")
GARBAGE = ("x", "1,2", "all", "1-2", "1.0", "one", "*", "-", "1;2", "0x1", "#")


def make(seed, i, tier):
    r = gen.rng_for(seed, "C18", i)
    mode = spec.MODES[i % 4]
    ext = r.choice(EXTS)
    folder = r.choice(FOLDERS)
    if folder.startswith("-"):
        folder = "./" + folder
    files = []
    for st in r.sample(STEMS, r.choice((0, 1, 2, 3, 5, 12))):
        fr = messages(r, mode, r.choice((0, 1, 2)), small=True, p_unsup=0.1)
        files.append({"stem": st, "segs": gen.link(r, fr, rate=r.choice((0.0, 0.3)), small_max=True)})
    clutter = []
    for c in r.sample(("old.%s.bak" % ext, "notes.txt", "s9.%sx" % ext, "s9.x%s" % ext, "sub/in.%s" % ext,
                       "%s" % ext, "s9%s" % ext, "s9.%s" % (ext.swapcase() if ext.swapcase() != ext else "y"),
                       "s8-%s/EPH/x.json" % mode), r.choice((0, 3, 6))):
        clutter.append(c)
    n = len(files)
    k = r.random()
    if k < 0.15:
        answer = [r.choice(GARBAGE)]
        if n and r.random() < 0.5:
            answer.insert(r.randrange(2), str(r.randrange(1, n + 1)))
    elif k < 0.3:
        answer = [str(r.choice((0, -1, n + 1, n + 2, 99, -n)))] + [str(r.randrange(1, n + 1)) for _ in range(n and 1)]
        r.shuffle(answer)
    else:
        pick = list(range(1, n + 1))
        r.shuffle(pick)
        answer = [str(x) for x in pick[:r.choice((1, 1, 2, 3, n))]]
        if answer and r.random() < 0.1:
            answer.append(answer[0])
        if answer and r.random() < 0.1:
            answer[0] = r.choice(("0", "+")) + answer[0]
    if not answer:
        answer = ["1"]
    return {"mode": mode, "ctrl": sut.rand_ctrl(r), "ext": ext, "folder": folder, "files": files,
            "clutter": clutter, "answer": answer, "slash": r.random() < 0.3, "chunk": 4096, "world": std_world(r)}


_LINE = re.compile(r"^\s*(\d+)\s*:\s*(['\"].*['\"])\s*$")


def shown(text):
    """{number: path} as the user reads it"""
    import ast

    out = []
    for ln in text.splitlines():
        m = _LINE.match(ln)
        if m:
            try:
                out.append((int(m.group(1)), ast.literal_eval(m.group(2))))
            except (SyntaxError, ValueError):
                pass
    return out


def _srcs(scn):
    f = os.path.normpath(scn["folder"])
    return [{"name": "%s/%s.%s" % (f, x["stem"], scn["ext"]), "segs": x["segs"]} for x in scn["files"]]


def _setup(root, scn):
    s = dict(scn, sources=_srcs(scn))
    sut.setup_files(root, s)
    os.makedirs(os.path.join(root, scn["folder"]), exist_ok=True)
    for c in scn["clutter"]:
        p = os.path.join(root, scn["folder"], c)
        if not os.path.lexists(p):
            put(p, b"\xd3\x00\x00clutter")
    return s


def _direct(root, scn, name):
    sut.clean(root)
    s = _setup(root, scn)
    s["args"] = ["./" + name]
    s["ext"] = None
    o = sut.run_main(root, s)
    return o.exc, o.after, sut.verdicts(o.err), o.w.nev


def run(scn, root):
    s = _setup(root, scn)
    s["args"] = [scn["folder"] + ("/" if scn["slash"] else "")]
    line = " ".join(scn["answer"])
    seen = []

    def answer(text):
        seen.append(text)
        return line

    if scn["ext"] == "rtcm3" and scn["world"]["seed"] % 2:
        s["ext"] = None
    o = sut.run_main(root, s, answer=answer)
    v = basic_faults(o)
    here = os.path.realpath(root)
    folder = os.path.normpath(scn["folder"])
    want = {os.path.join(here, x["name"]): x for x in s["sources"]}
    lst = shown(seen[0]) if seen else []
    # numbers -> the files they were shown for
    chosen = []
    garbage = False
    for t in scn["answer"]:
        try:
            k = int(t)
        except ValueError:
            garbage = True
            continue
        chosen += [p for n, p in lst if n == k]
    if garbage:
        chosen = []
    if not v:
        if want and not seen:
            v = viol("list", "%d matching files, but the user was not asked" % len(want))
        elif seen and not lst:
            v = viol("list", "the user was asked without a list")
        elif seen and (sorted(p for _, p in lst) != sorted(want)):
            miss = sorted(set(want) - {p for _, p in lst})
            more = sorted({p for _, p in lst} - set(want))
            v = viol("list", "list does not contain each matching file once: missing %s, unexpected %s, shown %d" % (
                [os.path.relpath(x, here) for x in miss], [os.path.relpath(x, here) for x in more], len(lst)))
        elif len({n for n, _ in lst}) != len(lst):
            v = viol("list", "a number is shown twice")
    nev = o.w.nev
    size = 0
    if not v:
        # which output folders appeared
        expd = {sut.outdir(os.path.relpath(p, here), scn["mode"]) for p in chosen}
        for p in sorted(set(o.before) | set(o.after)):
            if any(p == d or p.startswith(d + "/") for d in expd):
                continue
            if o.before.get(p) != o.after.get(p):
                v = viol("selection", "answer %r selects %s, but %s changed" % (
                    line, [os.path.relpath(x, here) for x in chosen], p))
                break
    alone = {}
    vs = []
    for p in chosen:
        if v:
            break
        name = os.path.relpath(p, here)
        if name not in alone:
            alone[name] = sut.isolated(_direct, root, scn, name)
        e1, a1, v1, n1 = alone[name]
        nev += n1
        vs += v1
        size += sum(len(x["h"]) // 2 for x in want[p]["segs"])
        d = sut.outdir(name, scn["mode"])
        got = {q: x for q, x in o.after.items() if q == d or q.startswith(d + "/")}
        ref = {q: x for q, x in a1.items() if q == d or q.startswith(d + "/")}
        if e1:
            v = viol("crash", "direct: " + e1)
        elif not got:
            v = viol("selection", "%s was selected but not converted" % name)
        elif got != ref:
            q = sorted(x for x in set(got) | set(ref) if got.get(x) != ref.get(x))[0]
            v = viol("product", "%s differs from direct conversion of %s" % (q, name))
    if not v and sut.verdicts(o.err) != vs:
        v = viol("verdicts", "verdicts %r, expected %r" % (sut.verdicts(o.err), vs))
    if not v:
        # typed order: order of first creation of the output folders
        order = [p for op, p in o.w.mutations if op == "mkdir" and p.endswith("-" + scn["mode"])]
        exp = [sut.outdir(os.path.relpath(p, here), scn["mode"]) for p in chosen]
        if order and order != exp:
            v = viol("order", "converted %s, typed order %s" % (order, exp))
    return finish(o, v, nt=bool(lst), m={"bytes": size, "seam_events": nev},
                  fired={"shuffled enumeration": 1, "answer:garbage": int(garbage),
                         "answer:out of range": int(not garbage and len(chosen) < len(scn["answer"]))},
                  probes={"listed": len(lst), "selected": len(chosen)},
                  sample={"folder": scn["folder"], "ext": scn["ext"], "files": [x["stem"] for x in scn["files"]],
                          "clutter": scn["clutter"], "answer": line} if lst else None)
