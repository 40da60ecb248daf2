"""Runs the real converter inside a World."""

import gc
import os
import re
import sys
import traceback

from . import clock, gen, oracle, spec, world
from .world import World, put, tree

REPO = world.REPO


def load():
    """Import the code under test (once per process, before forking runs)."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    clock.install()
    import run_conversion  # noqa
    import converter_top  # noqa
    import controls  # noqa


def ini_text(c):
    b = lambda x: "true" if x else "false"
    out = ["[MARGO]", "HCA = " + b(c["hca"]), "LOCK_TIME = " + b(c["ltm"]), "[JSON]",
           "ENABLE_PRETTY_VIEW = " + b(c["pretty"]), "ENABLE_HDR_DATA = " + b(c["hdr"]),
           "ENABLE_AUX_DATA = " + b(c["aux"]), "[TIME]", "GPS2UTC : %d" % c["utc"], "[LITERALS]"]
    out += ["R%d : %d" % (k, v) for k, v in sorted(lit(c).items())]
    return "\n".join(out) + "\n"


def lit(c):
    return {int(k): v for k, v in c["lit"].items()}


def norm(c):
    c = dict(c)
    c["lit"] = lit(c)
    return c


def rand_ctrl(r, default=0.3):
    c = dict(spec.DEF_CTRL)
    c["lit"] = dict(spec.DEF_LIT)
    if r.random() < default:
        return c
    for k in ("hca", "ltm", "pretty", "hdr", "aux"):
        c[k] = r.random() < 0.5
    if r.random() < 0.5:
        c["utc"] = r.choice((0, 17, 18, 19, 37, r.randrange(0, 60)))
    if r.random() < 0.5:
        c["lit"] = {k: r.randrange(-7, 14) for k in range(1, 25)}
    return c


def stem(name):
    return os.path.splitext(name)[0]


def outdir(name, mode):
    return stem(name) + "-" + mode


class Obs:
    """What one program run showed to the outside."""


VERDICTS = ("Finished without errors.", "Finished with errors.", "Decoding was terminated.")
_PROG = re.compile(r"(\d+) messages, prs-dec-prnt errors (\d+)-(\d+)-(\d+)\.")


def verdicts(text):
    out = []
    for ln in text.splitlines():
        for v in VERDICTS:
            if v in ln:
                out.append(v)
    return out


def last_totals(text):
    m = _PROG.findall(text)
    return tuple(int(x) for x in m[-1]) if m else None


class Interrupter:
    """Raises KeyboardInterrupt at one line of converter code."""

    def __init__(self, w, plan):
        self.w = w
        self.plan = dict(plan)
        self.calls = {"parse_bytes": 0, "decode": 0, "print": 0}
        self.done = {"parse_bytes": 0, "decode": 0, "print": 0}
        self.fired = False
        self.nth_conv = 0
        self.handed = []
        self.per_conv = []
        self.record = True

    def attach(self, conv):
        self.nth_conv += 1
        me = self.nth_conv
        self.calls = {"parse_bytes": 0, "decode": 0, "print": 0}
        self.done = {"parse_bytes": 0, "decode": 0, "print": 0}
        self.handed.append([])
        self.per_conv.append((self.calls, self.done))
        for name in ("parse_bytes", "decode", "print"):
            self._wrap(conv, name, me, self.calls, self.done)

    def _wrap(self, conv, name, me, calls, done):
        real = getattr(conv, name)
        plan = self.plan

        handed = self.handed[-1] if name == "decode" and self.record else None

        def fn(*a, **kw):
            calls[name] += 1
            if handed is not None and a:
                handed.append(bytes(a[0]))
            if (plan.get("where") == name and plan.get("conv", 1) == me and not self.fired
                    and calls[name] == plan["call"]):
                rv = self._traced(real, plan["line"], a, kw)
            else:
                rv = real(*a, **kw)
            done[name] += 1
            return rv

        self._put(conv, name, fn)

    @staticmethod
    def _put(conv, name, fn):
        try:
            setattr(conv, name, fn)
        except AttributeError:
            cls = type(conv)
            conv.__class__ = type(cls.__name__, (cls,), {"__slots__": (), name: lambda self, *a, **kw: fn(*a, **kw)})

    def observed(self, k, name):
        """were the calls of converter k visible, given that it read something?"""
        return k < len(self.per_conv) and (self.per_conv[k][0]["parse_bytes"] > 0 or not self.w.delivered.get(name))

    def _traced(self, real, line, a, kw):
        left = [line]

        def local(frame, event, arg):
            if event == "line":
                left[0] -= 1
                if left[0] == 0:
                    self.fired = True
                    sys.settrace(None)
                    self.w.fired["interrupt:" + self.plan["where"]] = 1
                    raise KeyboardInterrupt()
            return local

        def glob(frame, event, arg):
            f = frame.f_code.co_filename
            return local if f.startswith(REPO + os.sep) else None

        old = sys.gettrace()
        sys.settrace(glob)
        try:
            return real(*a, **kw)
        finally:
            sys.settrace(old)


def setup_files(root, scn):
    """Put sources, configuration and neighbours in place."""
    for s in scn["sources"]:
        if s.get("absent"):
            continue
        put(os.path.join(root, s["name"]), gen.join(s["segs"]))
    d = scn.get("defaults", "gen")
    if d == "gen":
        put(os.path.join(root, "defaults.ini"), ini_text(norm(scn["ctrl"])).encode())
    elif d == "repo":
        with open(os.path.join(REPO, "defaults.ini"), "rb") as f:
            put(os.path.join(root, "defaults.ini"), f.read())
    elif isinstance(d, dict):
        put(os.path.join(root, "defaults.ini"), bytes.fromhex(d["h"]))
    for p, what in (scn.get("pre") or {}).items():
        q = os.path.join(root, p)
        if what == "dir":
            os.makedirs(q, exist_ok=True)
        elif what.startswith("link:"):
            os.makedirs(os.path.dirname(q), exist_ok=True)
            os.symlink(what[5:], q)
        elif what.startswith("hard:"):
            os.makedirs(os.path.dirname(q), exist_ok=True)
            os.link(os.path.join(root, what[5:]), q)
        else:
            put(q, bytes.fromhex(what[2:]))


def classifier(scn):
    mode = scn.get("mode", "MARGO")
    srcs = {s["name"] for s in scn["sources"]}
    dirs = {outdir(s["name"], s.get("mode", mode)) for s in scn["sources"]}

    def cls(rel):
        if rel in srcs:
            return "source"
        if rel in ("stderr", "stdout", "stdin"):
            return "console"
        if rel.endswith(".ini"):
            return "ini"
        if rel in dirs:
            return "outdir"
        for d in dirs:
            if rel.startswith(d + "/"):
                return "log" if rel.endswith("-log.txt") else "product"
        return "other"

    return cls


def arg_line(scn, root):
    a = []
    if scn.get("mode") and not scn.get("implicit_mode"):
        a += ["-o", scn["mode"]]
    if scn.get("ini") is not None:
        a += ["-i", scn["ini"]]
    if scn.get("ext"):
        a += ["-ext", scn["ext"]]
    names = scn.get("args")
    if names is None:
        names = [s["name"] for s in scn["sources"]]
    a += names
    return " ".join(a)


def run_main(root, scn, cfg=None, answer=None, runs=None, prepare=None, light=False):
    """One execution of the program (or several in one process: runs)."""
    import run_conversion

    w = World(root, cfg if cfg is not None else scn.get("world"))
    w.classify = classifier(scn)
    w.user.answer = answer
    if prepare:
        prepare(w)
    o = Obs()
    o.w = w
    o.before = None if light else tree(root)
    o.exc = None
    o.exit = None
    o.convs = []
    intr = Interrupter(w, scn.get("int") or {})
    intr.record = not light
    factory = run_conversion.ConverterFactory
    real_call = factory.__call__
    order = world.HashOrder(w.cfg.get("seed", 0))

    def call(self, *a, **kw):
        order.reset()
        c = real_call(self, *a, **kw)
        if c is not None and not light:
            o.convs.append(c)
            try:
                intr.attach(c)
            except (AttributeError, TypeError):
                pass
        return c

    factory.__call__ = call
    if scn.get("chunk") and hasattr(run_conversion, "FILE_CHUNCK_LEN"):
        run_conversion.FILE_CHUNCK_LEN = scn["chunk"]
    os.chdir(os.path.join(root, scn.get("cwd") or "."))
    lines = runs if runs is not None else [arg_line(scn, root)]
    argv = sys.argv
    o.per_run = []
    with w:
        for ln in lines:
            mark = len(w.err.buf)
            markc = len(o.convs)
            try:
                if isinstance(ln, list):  # as typed in a shell
                    sys.argv = ["run_conversion.py"] + ln
                    run_conversion.main()
                else:
                    run_conversion.main(ln)
            except SystemExit as e:
                o.exit = e.code
            except KeyboardInterrupt:
                o.exc = "KeyboardInterrupt escaped main()"
            except BaseException as e:  # whatever the program dies of
                if isinstance(e, (MemoryError, Hang)):
                    raise
                o.exc = "%s: %s @ %s" % (type(e).__name__, e, where(e))
            o.per_run.append(("".join(w.err.buf[mark:]), o.convs[markc:]))
            if o.exc:
                break
        o.open = w.openset()
    sys.argv = argv
    factory.__call__ = real_call
    o.out = w.out.text()
    o.err = w.err.text()
    o.after = None if light else tree(root)
    o.intr = intr
    o.stats = []
    for c in o.convs:
        s = c.get_statistics()
        o.stats.append((s.decoding_attempts, s.parsing_errors, s.decoding_errors, s.printing_errors))
    return o


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    for fr in reversed(tb):
        if fr.filename.startswith(REPO):
            return "%s:%s" % (os.path.relpath(fr.filename, REPO), fr.name)
    return tb[-1].name if tb else "?"


def from_repo(e):
    tb = traceback.extract_tb(e.__traceback__)
    return bool(tb) and tb[-1].filename.startswith(REPO + os.sep)


# -- library use -------------------------------------------------------------


def make_converter(root, name, mode, ctrl):
    """A converter built through the library interface."""
    from controls import ConverterControls
    from converter_top import ConverterFactory

    ini = os.path.join(root, name + ".ini")
    put(ini, ini_text(norm(ctrl)).encode())
    wf = os.path.join(root, name)
    os.makedirs(wf, exist_ok=True)
    cs = ConverterControls()
    cs.init_from_file(ini)
    box = cs.boxed_controls
    return ConverterFactory(mode)(wf, box)


def stats(c):
    s = c.get_statistics()
    return (s.decoding_attempts, s.parsing_errors, s.decoding_errors, s.printing_errors)


def frames_of(data, final=True):
    fr, gaps = spec.scan(data, final)
    return [data[a:b] for a, b in fr], gaps


# -- isolated executions inside one run --------------------------------------


def isolated(fn, *a):
    """Run fn in a forked process; returns its (JSON-able or picklable) result,
    or None if the process crashed on purpose."""
    import pickle

    r, wfd = os.pipe()
    pid = world._O["fork"]()
    if pid == 0:
        rc = 0
        try:
            os.close(r)
            try:
                data = pickle.dumps(("ok", fn(*a)))
            except Hang:
                data = pickle.dumps(("hang", None))
            except BaseException as e:
                data = pickle.dumps(("err", (from_repo(e), "%s: %s @ %s" % (type(e).__name__, e, where(e)),
                                             traceback.format_exc())))
            view = memoryview(data)
            while view:
                view = view[os.write(wfd, view):]
        finally:
            os._exit(rc)
    os.close(wfd)
    parts = []
    while True:
        b = os.read(r, 1 << 20)
        if not b:
            break
        parts.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if not parts:
        return None
    tag, val = pickle.loads(b"".join(parts))
    if tag == "hang":
        raise Hang()
    if tag == "err":
        raise InChild(*val)
    return val


class Hang(BaseException):
    """the line budget of a run is used up"""


class InChild(Exception):
    def __init__(self, repo, msg, tb):
        super().__init__(msg)
        self.repo = repo
        self.tb = tb


def clean(root):
    import shutil

    for n in os.listdir(root):
        p = os.path.join(root, n)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        else:
            os.unlink(p)
