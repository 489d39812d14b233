"""C01, C02: the diff and merge commands with faults below their file operations."""

from __future__ import annotations

import copy
import ctypes
import errno
import fcntl
import gc
import hashlib
import io
import os
import pickle
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile

from sim import instrument, texts
from sim.core import VERIF, HarnessError, Property, Violation

TYPES = ("open", "read", "write", "close", "sync", "rename", "unlink", "truncate", "copy")
CLASSES = ("none", "input", "output", "stdout", "other")
ERR, SHORT, KILL_BEFORE, KILL_AFTER, KILL_TORN, INT = range(1, 7)
ERRNO = {"EIO": errno.EIO, "ENOSPC": errno.ENOSPC, "EPIPE": errno.EPIPE, "EACCES": errno.EACCES, "EMFILE": errno.EMFILE,
         "EINTR": errno.EINTR, "ENOENT": errno.ENOENT, "EFBIG": errno.EFBIG, "EDQUOT": errno.EDQUOT, "EISDIR": errno.EISDIR,
         "ENOMEM": errno.ENOMEM, "ESTALE": errno.ESTALE}
KINDS = {"err": ERR, "short": SHORT, "kill_before": KILL_BEFORE, "kill_after": KILL_AFTER, "kill_torn": KILL_TORN, "sigint": INT}

LIB = None


# ------------------------------------------------------- preloaded library
def library_path():
    """Compiled from sim/iofault.c when it is not there yet."""
    source = os.path.join(VERIF, "sim", "iofault.c")
    with open(source, "rb") as f:
        tag = hashlib.sha256(f.read()).hexdigest()[:16]
    where = os.path.join(VERIF, "build")
    path = os.path.join(where, f"iofault-{tag}.so")
    if not os.path.exists(path):
        os.makedirs(where, exist_ok=True)
        tmp = f"{path}.{os.getpid()}"
        subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, source, "-ldl"], check=True)
        os.replace(tmp, path)
    return path


def load():
    global LIB
    path = library_path()
    if path not in os.environ.get("LD_PRELOAD", ""):
        raise HarnessError("the fault library is not preloaded (run through check.py)")
    LIB = ctypes.CDLL(path)
    LIB.sim_fault.argtypes = (ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long, ctypes.c_int)
    LIB.sim_size.restype = ctypes.c_long


class Tty(io.FileIO):
    def isatty(self):
        return True


# ------------------------------------------------------------ one invocation
class Injected(KeyboardInterrupt):
    pass


class Spot:
    """Exceptions raised at a planned point inside gaspra's code."""

    def __init__(self, fault):
        self.fault = fault
        self.n = 0
        self.where = {}
        self.fired = 0

    def __call__(self, place):
        n = self.n
        self.n = n + 1
        if self.fault is None:
            at = self.where.setdefault(place, [])
            if len(at) < 6:
                at.append(n)
        elif n == self.fault["at"]:
            self.fired += 1
            raise MemoryError() if self.fault["exc"] == "nomem" else Injected()


def arguments(inv, scratch):
    real = lambda n: inv.get("names", {}).get(n, n)  # noqa: E731
    name = real if inv.get("rel", True) else (lambda n: os.path.join(scratch, real(n)))
    args = [name(n) for n in inv["in"]] if inv["tool"] != "torture" else [inv.get("case", CASE)] + [name(n) for n in inv["in"][3:]]
    opts = []
    for o in inv["opts"]:
        if o in ("-o", "--output"):
            opts += [o, name(inv["out"])]
        elif o == "--output=":
            opts.append("--output=" + name(inv["out"]))
        else:
            opts.append(o)
    k = inv.get("split", 0) % (len(args) + 1)
    return ["gaspra", *args[:k], *opts, *args[k:]] if inv.get("mixed") else ["gaspra", *opts, *args]


def invoke(inv, scratch, hold=None):
    """Run the command once in this process; its exit status and what it did.

    Standard output goes to the file `capture` next to the scratch directory.
    """
    from gaspra import merge_tool

    if TORTURE:
        sys.modules["gaspra.torture_test"].TEST_CASE_DIRECTORY = scratch  # where the code looks for its test cases
    capture = scratch + inv.get("capture", ".stdout")
    fd = os.open(capture, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    os.dup2(fd, 1)
    os.close(fd)
    LIB.sim_reset(scratch.encode())
    LIB.sim_relative(1)
    plan = [f for f in inv.get("faults", ()) if "op" in f]
    for f in plan:
        LIB.sim_fault(f["at"], TYPES.index(f["op"]), KINDS[f["kind"]], ERRNO[f["errno"]] if f["kind"] == "err" else f.get("part", 0), f.get("n", 1))
    spot = Spot(next((f for f in inv.get("faults", ()) if "exc" in f), None))
    raw = (Tty if inv.get("tty") else io.FileIO)(1, "w", closefd=False)
    saved = sys.stdout, sys.stderr, sys.argv
    around = {k: os.environ.pop(k, None) for k in inv.get("env", ())}
    os.environ.update({k: v for k, v in inv.get("env", {}).items() if v is not None})
    sys.stdout = io.TextIOWrapper(io.BufferedWriter(raw), encoding=inv.get("encoding", "utf-8"), line_buffering=bool(inv.get("tty")))
    if inv.get("closed"):
        # started with standard output closed, as CPython shows it
        sys.stdout.detach()
        sys.stdout = None
        os.close(1)
    sys.stderr = io.StringIO()
    sys.argv = arguments(inv, scratch)
    instrument.STATEMENT = instrument.EXPRESSION = spot
    end = {"code": 130, "what": "KeyboardInterrupt", "detail": ""}
    signal.signal(signal.SIGINT, signal.default_int_handler)
    try:
        try:
            LIB.sim_arm(1)
            if LIMIT:
                limit(LIMIT)
            end = call(getattr(merge_tool, inv["tool"] + "_cli"), hold)
            instrument.STATEMENT = instrument.EXPRESSION = None
            finish(end, raw)
            if hold is None:
                gc.collect()
        finally:
            LIB.sim_arm(0)
            if LIMIT:
                limit(4096)
            instrument.STATEMENT = instrument.EXPRESSION = None
            signal.signal(signal.SIGINT, signal.SIG_IGN)
    except KeyboardInterrupt:  # delivered late
        end = {"code": 130, "what": "KeyboardInterrupt", "detail": ""}
    LIB.sim_arm(0)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    instrument.STATEMENT = instrument.EXPRESSION = None
    out = sys.stdout
    err = sys.stderr.getvalue()
    sys.stdout, sys.stderr, sys.argv = saved
    for k, v in around.items():
        os.environ.pop(k, None)
        if v is not None:
            os.environ[k] = v
    try:
        if out is not None:
            out.detach()
    except (OSError, ValueError):
        pass
    code, what = end["code"], end["what"]
    n = LIB.sim_ops()
    ops = [(TYPES[LIB.sim_type(i)], CLASSES[LIB.sim_cls(i)], LIB.sim_size(i)) for i in range(min(n, 20000))]
    fired = {}
    for i, f in enumerate(plan):
        if LIB.sim_fired(i):
            key = f["op"] + "_" + (f["errno"] if f["kind"] == "err" else f["kind"])
            fired[key] = fired.get(key, 0) + LIB.sim_fired(i)
    if spot.fired:
        fired[spot.fault["exc"]] = 1
    result = {"code": code, "what": what, "ops": ops, "points": spot.n, "where": sorted(spot.where.items()), "fired": fired,
              "stderr": err[-300:] if what == "SystemExit" else end["detail"][:300]}
    result["stdout"] = contents(capture)
    if inv.get("out") and any(o.startswith(("-o", "--output")) for o in inv["opts"]):
        result["out"] = contents(os.path.join(scratch, inv.get("names", {}).get(inv["out"], inv["out"])))
    return result


def call(command, hold):
    """How the command ends."""
    try:
        code = command()
        # the installed script is sys.exit(command())
        return {"code": 0 if code is None else code & 255 if isinstance(code, int) else 1, "what": None, "detail": ""}
    except SystemExit as e:
        if hold is not None:
            hold.append(e)
        return {"code": 0 if e.code is None else e.code & 255 if isinstance(e.code, int) else 1, "what": "SystemExit", "detail": ""}
    except BaseException as e:
        if hold is not None:
            hold.append(e)
        return {"code": 130 if isinstance(e, KeyboardInterrupt) else 1, "what": type(e).__name__, "detail": str(e)}


def finish(end, raw):
    """What the interpreter does with standard output at its end."""
    try:
        if sys.stdout is not None:
            sys.stdout.flush()
    except Exception as e:
        end["code"] = end["code"] or 120
        end["what"] = end["what"] or type(e).__name__
        LIB.sim_arm(0)
        try:
            raw.close()  # so that nothing is tried again
        except OSError:
            pass


def contents(path):
    try:
        with open(path, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


LIMIT = None


def limit_descriptors(spare):
    """Let the commands of this process open only so many files."""
    global LIMIT
    used = max(int(n) for n in os.listdir("/proc/self/fd"))
    while os.dup(1) <= used:
        pass
    LIMIT = used + 2 + spare


def limit(n):
    hard = resource.getrlimit(resource.RLIMIT_NOFILE)[1]
    resource.setrlimit(resource.RLIMIT_NOFILE, (n if hard == resource.RLIM_INFINITY else min(n, hard), hard))


def process(inv, scratch, spare=None):
    """The command as a process of its own."""
    return outcome(*start(inv, scratch, spare))


PIPE = 200  # the first descriptor of an input that is a pipe


def pipe(fd, data):
    """A pipe that holds all it will ever hold, as after `<(command)` in a shell."""
    r, w = os.pipe()
    fcntl.fcntl(w, fcntl.F_SETPIPE_SZ, max(65536, 2 * len(data)))
    if os.write(w, data) != len(data):
        raise HarnessError("a pipe is too small")
    os.close(w)
    os.dup2(r, fd)
    os.close(r)


def start(inv, scratch, spare=None, meet=None):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            if meet:
                meet()
            signal.alarm(40)
            os.chdir(scratch)
            if spare is not None:
                limit_descriptors(spare)
            for i, data in enumerate(inv.get("piped", {}).values()):
                pipe(PIPE + i, data)
            data = pickle.dumps(invoke(inv, scratch))
            if meet:
                meet(True)
            view = memoryview(struct.pack("<Q", len(data)) + data)
            while view:
                view = view[os.write(w, view) :]
        except BrokenPipeError:
            pass
        except BaseException:
            import traceback

            os.write(2, traceback.format_exc().encode())
        finally:
            os._exit(0)
    os.close(w)
    return pid, r


def outcome(pid, r):
    data = b""
    while True:
        chunk = os.read(r, 1 << 20)
        if not chunk:
            break
        data += chunk
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        if os.WTERMSIG(status) == signal.SIGKILL:
            return {"code": "killed", "what": "SIGKILL", "fired": {}}
        if os.WTERMSIG(status) == signal.SIGALRM:
            return {"code": "hang", "what": "no end", "fired": {}}
        return {"code": -os.WTERMSIG(status), "what": "signal", "fired": {}}
    if len(data) < 8:
        raise HarnessError("the command's process ended without an answer")
    return pickle.loads(data[8:])


def scrub(data, scratch):
    return data.replace(scratch.encode(), b"<dir>") if data else data


# ----------------------------------------------------------------- generating
def option_set(rng, tool):
    opts = []
    r = rng.random()
    if r < 0.75:
        opts.append(rng.choice((["-c", "--characters"], ["-w", "--words"], ["-l", "--lines"])[rng.randrange(3)]))
    for short, long in (("-L", "--show-lines"), ("-g", "--git-compatible"), ("-s", "--strikeout")):
        if rng.random() < 0.35:
            opts.append(rng.choice((short, long)))
    if tool != "diff" and rng.random() < 0.45:
        opts.append(rng.choice(("-d", "--diff")))
    if rng.random() < 0.6:
        opts.append(rng.choice(("-o", "-o", "--output", "--output=")))
    rng.shuffle(opts)
    return opts


CASE = "in"
CASE_NAMES = {"in0": "in.parent", "in1": "in.1st", "in2": "in.2nd"}
# cases that have names of their own
CASES = {CASE: CASE_NAMES, "chunks": {f"in{i}": f"chunks_1_{i}.c" for i in range(3)},
         "Bug_ReporterApp": {f"in{i}": f"Bug_ReporterApp_{s}.h" for i, s in enumerate(("Parent", "BranchA", "BranchB"))}}


def invocation(rng, names, outs, case=False):
    tool = rng.choice(("diff", "diff", "merge") + (("torture",) * 3 if case else ()))
    inv = {"tool": tool, "in": [rng.choice(names) for _ in range(2 if tool == "diff" else 3)], "opts": option_set(rng, tool)}
    if tool == "torture":
        inv["in"] = list(CASE_NAMES)
        if case != CASE:
            inv["case"] = case
    if any(o in ("-o", "--output", "--output=") for o in inv["opts"]):
        inv["out"] = rng.choice(outs)
    if rng.random() < 0.3:
        inv["rel"] = False
    if rng.random() < 0.3:
        inv["tty"] = True
    if rng.random() < 0.08:
        inv["encoding"] = rng.choice(("ascii", "latin-1"))
    if rng.random() < 0.2:
        inv["env"] = {"COLUMNS": rng.choice(("20", "40", "80", "133"))}
        if rng.random() < 0.3:
            inv["env"].update(rng.choice(({"TERM": "dumb"}, {"NO_COLOR": "1"}, {"FORCE_COLOR": "1"})))
    if rng.random() < 0.3:
        inv["mixed"] = True
        inv["split"] = rng.randrange(4)
    return inv


def file_texts(rng, n, cap, plain=False):
    style = rng.choice([s for s in texts.STYLES if not (plain and s == "binary")])
    first = texts.fresh(rng, style, cap)
    out = [first]
    while len(out) < n:
        out.append(texts.evolve(rng, rng.choice((out[0], out[-1])), style, cap))
    if not plain and rng.random() < 0.2:
        out = [s.replace("a", "[").replace("b", "[/]", 2) for s in out]
    if rng.random() < 0.15:
        out = [s.replace("e", "\\").replace(" ", "[", 3) for s in out]
    return [s.replace("\r", "") if plain else s for s in out], "latin-1" if style == "binary" else "utf-8"


def file_names(rng, names):
    """Where the files are and what they are called, when not simply that."""
    places = ("", "", "./", "sub/", "sub/", "sub/", "sub/deep/", "../d/", "a b/", "x[/]/")
    ends = ("", "", "", "", ".txt", " 2", "[/]", "[b]", "\\", "\u00e9", "[bold]\\", "[0]", ":x:",
            "%", "%s", "{}", "{0}", "$HOME", "'", '"', "#", "&", "*", "?", "~", "\t", ".gz", "=")
    return {n: rng.choice(places) + n + rng.choice(ends) for n in names}


def faults_for(rng, r, kill=True):
    """Faults that can strike the operations the undisturbed run made."""
    ops = r["ops"]
    if not ops or (rng.random() < 0.2 and r["points"]):
        if not r["points"]:
            return []
        return [{"at": rng.choice(rng.choice(r["where"])[1]), "exc": rng.choice(("interrupt", "interrupt", "nomem"))}]
    faults = []
    for _ in range(rng.choice((1, 1, 1, 1, 2, 3))):
        # by what is done to what first, so that rare operations get their share
        groups = sorted({(t, c) for t, c, _ in ops})
        t, c = rng.choice(groups)
        i = rng.choice([k for k, o in enumerate(ops) if o[:2] == (t, c)])
        size = ops[i][2]
        f = {"op": t, "at": i, "kind": "err"}
        x = rng.random()
        if kill and x < 0.2:
            f["kind"] = rng.choice(("kill_before", "kill_after") + (("kill_torn",) if t == "write" else ()))
            if t == "write":
                f["part"] = rng.randrange(max(1, size))
        elif x < 0.32:
            f["kind"] = "sigint"
        elif t in ("read", "write") and x < 0.55:
            f["kind"] = "short"
            f["part"] = max(1, min(size - 1, rng.choice((1, size // 2, size - 1, rng.randrange(1, max(2, size))))))
            if rng.random() < 0.5:
                f["n"] = rng.choice((2, 5, 1000))
                f["part"] = min(f["part"], rng.choice((1, 7, 100, 4096)))
            if rng.random() < 0.4:
                faults.append({"op": t, "at": i + 1, "kind": "err", "errno": rng.choice(("EIO", "ENOSPC") if t == "write" else ("EIO",)), "n": rng.choice((1, 1000))})
        else:
            f["errno"] = rng.choice({"open": ("EACCES", "EMFILE", "EIO", "ENOENT", "EISDIR", "EINTR", "ENOSPC"), "read": ("EIO", "EIO", "EINTR", "ESTALE"),
                                     "write": ("EIO", "ENOSPC", "ENOSPC", "EPIPE", "EFBIG", "EDQUOT", "EINTR"),
                                     "close": ("EIO", "ENOSPC", "EDQUOT")}.get(t, ("EIO", "ENOSPC")))
            if rng.random() < 0.35:
                f["n"] = rng.choice((2, 1000))
            if f["errno"] == "EINTR":
                f["n"] = rng.choice((1, 3))
        faults.append(f)
    return faults


class Scratch:
    def __init__(self):
        self.path = os.path.realpath(tempfile.mkdtemp(prefix="run-", dir=PARENT))
        self.dir = os.path.join(self.path, "d")
        os.mkdir(self.dir)

    def fill(self, files):
        for where, _, present in os.walk(self.dir):
            for n in present:
                os.unlink(os.path.join(where, n))
        for n, data in files.items():
            with open(os.path.join(self.dir, n), "wb") as f:
                f.write(data)

    def directories(self, names):
        for n in names.values():
            os.makedirs(os.path.dirname(os.path.join(self.dir, n)), exist_ok=True)

    def to_pipes(self, names):
        for i, n in enumerate(names):
            path = os.path.join(self.dir, n)
            os.unlink(path)
            os.symlink(f"/proc/self/fd/{PIPE + i}", path)

    def check_inputs(self, files, when):
        for n, data in files.items():
            if not os.path.islink(os.path.join(self.dir, n)) and os.path.basename(n).startswith("in"):
                got = contents(os.path.join(self.dir, n))
                if got != data:
                    raise Violation("input-changed", f"{n} was changed {when}: {'gone' if got is None else len(got)} instead of {len(data)} bytes")

    def remove(self):
        shutil.rmtree(self.path, ignore_errors=True)


REAL = ["gaspra's command-line code and everything below it", "rich", "argparse", "CPython's file objects", "the kernel's files"]
STUBS = ["results of the process's file operations (sim/iofault.c, preloaded)", "the terminal (a file that says it is one)"]


PARENT = None


def cli_cleanup():
    shutil.rmtree(PARENT, ignore_errors=True)


def cli_prepare():
    global PARENT
    load()
    PARENT = tempfile.mkdtemp(prefix="gaspra-cli-", dir="/tmp")
    for k in ("NO_COLOR", "FORCE_COLOR", "TERM_PROGRAM", "COLORTERM", "LINES", "JUPYTER_COLUMNS"):
        os.environ.pop(k, None)
    os.environ.update(COLUMNS="80", TERM="xterm-256color")
    instrument.install()
    import gaspra.merge_tool  # noqa: F401
    import rich.console  # noqa: F401

    global TORTURE
    TORTURE = torture()
    gc.collect()
    gc.freeze()


TORTURE = False


def torture():
    """Does the torture command look for its cases where it is told to?"""
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            import gaspra.torture_test as t

            t.TEST_CASE_DIRECTORY = "/nowhere"
            code = any(t.get_filenames(case) != tuple(f"/nowhere/{n}" for n in names.values()) for case, names in CASES.items())
        except BaseException:
            pass
        finally:
            os._exit(int(code))
    if os.waitpid(pid, 0)[1]:
        return False
    import gaspra.torture_test  # noqa: F401

    return True


# ------------------------------------------------------------------------ C01
class C01(Property):
    id = "C01"
    two_phase = True
    placements = 5
    lists = ("faults",)
    quick = (2400, 60.0)
    rule = "runs with a fault that struck and distinct event traces"
    real = REAL
    stubs = STUBS
    assumptions = ["In runs with faults, the output file is not one of the input files.",
                   "Output still undelivered when the interpreter ends is flushed as CPython does, a failure of which makes the exit status 120.",
                   "A file whose operations report success has delivered them (no silent loss below the system-call interface)."]
    states_measure = "distinct (exit status, operations made) of disturbed runs"
    MARK = {"utf-8": "\ue000", "latin-1": "\xa4"}

    def prepare(self):
        cli_prepare()

    def cleanup(self):
        cli_cleanup()

    def generate(self, rng, tier):
        cap = rng.choice((30, 200, 900, 900))
        files, enc = file_texts(rng, 3, cap)
        if rng.random() < 0.06:
            # larger than any buffer on the way
            unit = texts.piece(rng, "words", 90)
            big = "".join(f"{i} {unit}\n" for i in range(rng.choice((9000, 9000, 20000, 70000)) // 95))
            files = [s + big for s in files]
        mark = self.MARK[enc]
        files = [s.replace(mark, "#") for s in files]
        if rng.random() < 0.5:
            files = [s + mark + rng.choice(("", "\n")) for s in files]
        inv = invocation(rng, ("in0", "in1", "in2"), ("out",), rng.random() < 0.15 and rng.choice(list(CASES)))
        if len(files[0]) > 5000:
            # tokens must be few for the search to stay quick
            inv["opts"] = [o for o in inv["opts"] if o not in ("-c", "--characters", "-w", "--words", "-l", "--lines")] + ["-l"]
        plan = {"inv": inv, "files": files, "enc": enc, "faults": []}
        if inv["tool"] == "torture":
            plan["names"] = dict(CASES[inv.get("case", CASE)])
        elif rng.random() < 0.3:
            plan["names"] = file_names(rng, ("in0", "in1", "in2", "out"))
        if rng.random() < 0.06:
            plan["closed"] = True
        if rng.random() < 0.35:
            once = [n for n in sorted(set(inv["in"])) if inv["in"].count(n) == 1]
            plan["pipes"] = rng.sample(once, rng.randrange(len(once) + 1))
        if inv.get("out") and inv["tool"] != "torture" and rng.random() < 0.2:
            plan["over"] = rng.choice(inv["in"])
        if inv.get("out") and rng.random() < 0.5:
            plan["before"] = texts.fresh(rng, "lines", 3000)
        return plan

    def place(self, plan, feedback, rng):
        if feedback is None:
            return None
        plan["faults"] = faults_for(rng, feedback)
        return plan if plan["faults"] else None

    def simpler(self, plan):
        for i, s in enumerate(plan["files"]):
            step = max(1, len(s) // 2)
            while step * 16 >= len(s) and step:
                for k in range(0, len(s), step):
                    cand = copy.deepcopy(plan)
                    cand["files"][i] = s[:k] + s[k + step :]
                    yield cand
                step //= 2
        for o in plan["inv"]["opts"]:
            if not o.startswith(("-o", "--output")):
                cand = copy.deepcopy(plan)
                cand["inv"]["opts"].remove(o)
                yield cand
        for k in ("mixed", "tty", "encoding", "rel"):
            if k in plan["inv"]:
                cand = copy.deepcopy(plan)
                del cand["inv"][k]
                yield cand
        for k in ("before", "pipes", "closed", "over", "names"):
            if k in plan and not (k == "names" and plan["inv"]["tool"] == "torture"):
                yield {x: v for x, v in plan.items() if x != k}
        for i, f in enumerate(plan["faults"]):
            if f.get("n", 1) > 1:
                cand = copy.deepcopy(plan)
                cand["faults"][i]["n"] = 1
                yield cand

    def execute(self, plan, out, log):
        s = Scratch()
        try:
            self.run(plan, out, log, s)
        finally:
            s.remove()

    def run(self, plan, out, log, s):
        if plan["inv"]["tool"] == "torture" and not TORTURE:
            return
        names = plan.get("names", {})
        inv = dict(plan["inv"], names=names)
        s.directories(names)
        files = {names.get(f"in{i}", f"in{i}"): t.encode(plan["enc"], "replace") for i, t in enumerate(plan["files"])}
        if "before" in plan:
            files[names.get("out", "out")] = plan["before"].encode()
        s.fill(files)
        clean = process(inv, s.dir)
        out.add("processes")
        s.check_inputs(files, "by an undisturbed run")
        log.add("clean", clean["code"], clean["what"], len(clean.get("ops", ())))
        out.add("probe:undisturbed_exit_%s" % clean["code"])
        out.add("probe:torture_runs", inv["tool"] == "torture")
        if clean["code"] == 0:
            self.complete(plan, clean)
        if plan.get("over") and clean["code"] == 0:
            # the same output to a file that is one of the inputs
            over = names.get(plan["over"], plan["over"])
            s.fill(files)
            run = process(dict(inv, out=plan["over"]), s.dir)
            out.add("processes")
            out.add("probe:output_over_an_input")
            log.add("over", run["code"], run["what"])
            s.check_inputs({n: data for n, data in files.items() if n != over}, f"by a run that writes to {over}")
            if run["code"] != 0:
                raise Violation("fails", f"exit status {run['code']} ({run['what']}) when the output file is one of the inputs, 0 when not")
            self.same(clean, run, "when the output file is one of the inputs")
        if plan.get("pipes"):
            # the same texts through pipes, which can be read only once
            piped = [names.get(n, n) for n in plan["pipes"]]
            s.fill(files)
            s.to_pipes(piped)
            inv["piped"] = {n: files[n] for n in piped}
            plain, clean = clean, process(inv, s.dir)
            out.add("processes")
            out.add("probe:inputs_from_pipes", len(piped))
            log.add("piped", clean["code"], clean["what"])
            if clean["code"] == "hang":
                raise Violation("no-progress", "the command did not end when it read from pipes")
            if clean["code"] == 0:
                self.same(plain, clean, "with inputs from pipes")
        if plan.get("closed"):
            s.fill(files)
            s.to_pipes(inv.get("piped", ()))
            run = process(dict(inv, closed=True), s.dir)
            out.add("processes")
            out.add("fault:stdout_closed")
            log.add("closed", run["code"], run["what"])
            s.check_inputs(files, "by a run without a standard output")
            if run["code"] == "hang":
                raise Violation("no-progress", "the command did not end when its standard output was closed")
            if run["code"] == 0:
                if clean["code"] != 0:
                    raise Violation("hidden-failure", f"exit status 0 when standard output is closed, {clean['code']} when not")
                self.same(clean, run, "with standard output closed")
        if not plan["faults"]:
            out.feedback = clean if clean["code"] not in ("killed", "hang") else None
            out.nontrivial = False
            return
        s.fill(files)
        s.to_pipes(inv.get("piped", ()))
        run = process(dict(inv, faults=plan["faults"]), s.dir)
        out.add("processes")
        s.check_inputs(files, f"by a run disturbed by {plan['faults']}")
        for k, v in run["fired"].items():
            out.add("fault:" + k, v)
        if run["code"] == "killed":
            out.add("fault:kill")
        log.add("disturbed", run["code"], run["what"], sorted(run["fired"].items()), hashlib.sha1(repr(
            [run.get("ops"), scrub(run.get("stdout"), s.dir), scrub(run.get("out"), s.dir)]).encode()).hexdigest()[:12])
        out.add("probe:disturbed_exit_%s" % run["code"])
        if run["code"] == "hang":
            raise Violation("no-progress", f"the command did not end when disturbed by {plan['faults']}")
        if run["code"] == 0:
            if clean["code"] != 0:
                raise Violation("hidden-failure", f"exit status 0 when disturbed by {plan['faults']}, {clean['code']} when not")
            self.same(clean, run, f"disturbed by {plan['faults']}")
        out.states.add(hashlib.sha1(repr((run["code"], run["what"], run.get("ops", plan["faults"]))).encode()).hexdigest()[:16])
        out.nontrivial = bool(run["fired"]) or run["code"] == "killed"

    def same(self, clean, run, when):
        for name in ("stdout", "out"):
            got, want = run.get(name), clean.get(name)
            if got != want:
                raise Violation("lost-output", f"exit status 0 with {'no' if got is None else len(got)} of {'no' if want is None else len(want)} bytes on {name} right, {when}")

    def complete(self, plan, clean):
        """What ends the inputs must be in the output of an undisturbed run."""
        mark = self.MARK[plan["enc"]]
        inv = plan["inv"]
        used = [plan["files"][int(n[2:])] for n in inv["in"]]
        if inv.get("encoding"):
            return
        if plan["enc"] != "utf-8" or not all(mark in t[-2:] for t in used):
            return
        data = clean["out"] if inv.get("out") else clean["stdout"]
        if data is None or mark not in data.decode("utf-8", "replace"):
            raise Violation("incomplete", f"the character {mark!r} that ends every input is not in the output of {arguments(inv, '')}")


# ------------------------------------------------------------------------ C02
class C02(Property):
    id = "C02"
    two_phase = True
    placements = 3
    lists = ("ops",)
    quick = (2400, 60.0)
    rule = "runs of at least two invocations with distinct event traces"
    real = REAL
    stubs = STUBS
    assumptions = ["Each invocation gets a standard output of its own (what a failed one left in the buffer of a shared stream would be the stream's).",
                   "An output file is not used as an input."]
    states_measure = "distinct sequences of (options, exit status)"

    def prepare(self):
        cli_prepare()

    def cleanup(self):
        cli_cleanup()

    def generate(self, rng, tier):
        cap = rng.choice((20, 60, 200, 400))
        n = rng.randrange(3, 6)
        files, enc = file_texts(rng, n, cap, plain=rng.random() < 0.7)
        plan = {"files": files, "enc": enc, "ops": []}
        names = [f"in{i}" for i in range(n)]
        if enc == "utf-8" and rng.random() < 0.25:
            # files in other encodings among those in UTF-8
            plan["latin"] = rng.sample(range(n), rng.randrange(1, n))
            plan["files"] = [s + "caf\xe9\n" for s in files]
        case = rng.random() < 0.15 and rng.choice(list(CASES))
        if case or rng.random() < 0.5:
            plan["names"] = file_names(rng, names + ["out", "out2"])
        if case:
            plan["names"].update(CASES[case])
        length = rng.choice((2, 3, 4, 6, 9))
        if rng.random() < 0.04:
            # files left open become noticeable in the long run
            plan["spare"], length = 6, 16
        for _ in range(length):
            r = rng.random()
            if r < 0.08:
                plan["ops"].append({"op": "write", "file": rng.choice(names), "data": texts.fresh(rng, "lines", cap)})
            elif r < 0.16:
                plan["ops"].append({"op": rng.choice(("release", "gc"))})
            else:
                inv = invocation(rng, names, ("out", "out", "out2"), case)
                r = rng.random()
                if r < 0.05 and inv["tool"] != "torture":
                    inv["in"][rng.randrange(len(inv["in"]))] = "in-missing"
                elif r < 0.1:
                    inv["opts"].append(rng.choice(("-c", "-w", "-l", "--nonsense", "-h", "-L", "-g")))
                elif r < 0.12:
                    inv["in"].append(inv["in"][0])
                plan["ops"].append({"op": "run", "inv": inv, "hold": rng.random() < 0.5})
        return plan

    def place(self, plan, feedback, rng):
        runs = [i for i, r in enumerate(feedback) if r]
        if not runs:
            return None
        for i in rng.sample(runs, min(len(runs), rng.choice((1, 1, 2, 3)))):
            plan["ops"][i]["inv"]["faults"] = faults_for(rng, feedback[i], kill=False)
        return plan

    def simpler(self, plan):
        if "spare" in plan:
            yield {k: v for k, v in plan.items() if k != "spare"}
        if "latin" in plan:
            yield {k: v for k, v in plan.items() if k != "latin"}
        if "names" in plan:
            if not any(o["op"] == "run" and o["inv"]["tool"] == "torture" for o in plan["ops"]):
                yield {k: v for k, v in plan.items() if k != "names"}
            for n in plan["names"]:
                if plan["names"][n] != n and n not in CASE_NAMES:
                    cand = copy.deepcopy(plan)
                    cand["names"][n] = n
                    yield cand
        for i, o in enumerate(plan["ops"]):
            if o["op"] != "run":
                continue
            for j in range(len(o["inv"].get("faults", ()))):
                cand = copy.deepcopy(plan)
                del cand["ops"][i]["inv"]["faults"][j]
                yield cand
            for k in ("mixed", "tty", "encoding", "rel"):
                if k in o["inv"]:
                    cand = copy.deepcopy(plan)
                    del cand["ops"][i]["inv"][k]
                    yield cand
            for p in o["inv"]["opts"]:
                if not p.startswith(("-o", "--output")):
                    cand = copy.deepcopy(plan)
                    cand["ops"][i]["inv"]["opts"].remove(p)
                    yield cand
        for i, s in enumerate(plan["files"]):
            step = max(1, len(s) // 2)
            while step * 8 >= len(s) and step:
                for k in range(0, len(s), step):
                    cand = copy.deepcopy(plan)
                    cand["files"][i] = s[:k] + s[k + step :]
                    yield cand
                step //= 2

    def execute(self, plan, out, log):
        s = Scratch()
        try:
            self.run(plan, out, log, s)
        finally:
            s.remove()

    def works(self, inv, files):
        """A documented combination of options on readable plain text."""
        if inv.get("faults") or inv.get("encoding"):
            return False
        n = 2 if inv["tool"] == "diff" else 3
        tokens = [o for o in inv["opts"] if o in ("-c", "-w", "-l", "--characters", "--words", "--lines")]
        return (len(inv["in"]) == n and all(inv["names"].get(f, f) in files for f in inv["in"]) and len(tokens) < 2 and not any(o in ("--nonsense", "-h") for o in inv["opts"]))

    def run(self, plan, out, log, s):
        names = plan.get("names", {})
        if not TORTURE:
            plan = dict(plan, ops=[{"op": "gc"} if o["op"] == "run" and o["inv"]["tool"] == "torture" else o for o in plan["ops"]])
        s.directories(names)
        files = {names.get(f"in{i}", f"in{i}"): t.encode("latin-1" if i in plan.get("latin", ()) else plan["enc"], "replace") for i, t in enumerate(plan["files"])}
        first = dict(files)
        want = []
        for o in plan["ops"]:
            if o["op"] == "write":
                files[names.get(o["file"], o["file"])] = o["data"].encode()
            if o["op"] != "run":
                want.append(None)
                continue
            s.fill(files)
            inv = dict(o["inv"], names=names)
            r = process(inv, s.dir, plan.get("spare"))
            out.add("processes")
            want.append(r)
            if r["code"] == "hang":
                raise Violation("no-progress", f"{arguments(inv, '')} did not end")
            if r["code"] != 0 and self.works(inv, files):
                raise Violation("option-fails", f"{arguments(inv, '')} alone ends with status {r['code']} ({r['what']} {r['stderr']})")
        # now one after the other in this process
        if "spare" in plan:
            limit_descriptors(plan["spare"])
            out.add("fault:few_descriptors")
        files = first
        s.fill(files)
        os.chdir(s.dir)
        held = []
        last = {}
        trail = []
        for o, w in zip(plan["ops"], want):
            if o["op"] == "write":
                name = names.get(o["file"], o["file"])
                files[name] = o["data"].encode()
                with open(os.path.join(s.dir, name), "wb") as f:
                    f.write(files[name])
            elif o["op"] == "release":
                held.clear()
            elif o["op"] == "gc":
                gc.collect()
            else:
                inv = dict(o["inv"], names=names)
                out_name = names.get(inv.get("out"), inv.get("out"))
                if "out" in w and w["out"] is None:  # writes no output file when alone: must leave what is there
                    w = dict(w, out=contents(os.path.join(s.dir, out_name)), writes=False)
                r = invoke(inv, s.dir, held if o.get("hold") else [])
                for k, v in r["fired"].items():
                    out.add("fault:" + k, v)
                out.add("invocations")
                out.add("probe:torture_runs", inv["tool"] == "torture")
                out.add("probe:exit_%s" % r["code"])
                trail.append((tuple(inv["opts"]), r["code"]))
                log.add(inv["tool"], inv["opts"], r["code"], r["what"], hashlib.sha1(scrub(r["stdout"], s.dir)).hexdigest()[:10])
                self.compare(inv, r, w, "stdout" if "out" not in w else "out", len(trail), s)
                if "out" in w and w.get("writes", True):
                    last[out_name] = (w["out"] if r["code"] == 0 else None, len(trail))
                s.check_inputs(files, f"by invocation {len(trail)}")
        held.clear()
        gc.collect()
        for name, (data, n) in last.items():
            if data is not None and contents(os.path.join(s.dir, name)) != data:
                raise Violation("influence", f"{name}, written by invocation {n}, was changed after its end")
        out.feedback = want
        out.states.add(hashlib.sha1(repr(trail).encode()).hexdigest()[:16])
        out.nontrivial = len(trail) > 1

    def compare(self, inv, r, w, where, n, s):
        args = " ".join(arguments(inv, ""))
        if r["code"] != w["code"] or r["what"] != w["what"]:
            raise Violation("influence", f"invocation {n} ({args}) ends with {r['code']} ({r['what']} {r['stderr']}), alone with {w['code']} ({w['what']} {w['stderr']})")
        for name in ("stdout", "out"):
            if name == "out" and r["code"] != 0:
                continue
            if scrub(r.get(name), s.dir) != scrub(w.get(name), s.dir):
                raise Violation("influence", f"invocation {n} ({args}) leaves {show(r.get(name))} on {name}, alone {show(w.get(name))}")


def show(data):
    if data is None:
        return "nothing"
    return f"{len(data)} bytes {data[:60]!r}"


PROPS = {c.id: c for c in (C01, C02)}
