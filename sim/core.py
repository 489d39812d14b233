"""Seeded search, isolation, minimisation, replay and evidence.

One run = one plan (plain JSON data, a pure function of one integer seed and,
for fault placement, of the measured shape of the same plan run undisturbed)
executed in a process forked for it alone from a pristine image, so that
nothing one run does can influence another.
"""

from __future__ import annotations

import copy
import hashlib
import json
import os
import pickle
import random
import select
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GASPRA_REPO", "/repo")
WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or (os.cpu_count() or 4)
RUN_TIMEOUT = float(os.environ.get("VERIF_RUN_TIMEOUT", "60"))


class Violation(Exception):
    """The property is broken; kind is the violation class for minimising."""

    def __init__(self, kind, msg):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg


class HarnessError(Exception):
    """The harness itself is at fault."""


def derive(*parts):
    """A 63-bit seed from any printable parts, the same in every process."""
    text = "\x1f".join(str(p) for p in parts)
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], "big") >> 1


class Log:
    """Running digest of everything observable; keeps the last lines too."""

    def __init__(self, keep=400):
        self.h = hashlib.sha1()
        self.lines = []
        self.keep = keep
        self.n = 0

    def add(self, *parts):
        line = " ".join(str(p) for p in parts)
        self.n += 1
        self.h.update(line.encode("utf-8", "backslashreplace") + b"\n")
        if len(self.lines) < self.keep:
            self.lines.append(line[:300])

    def digest(self):
        return self.h.hexdigest()[:20]


class Outcome:
    """What a run reports back (pickled through a pipe)."""

    def __init__(self):
        self.violation = None  # (kind, msg)
        self.error = None  # harness error text
        self.hang = False
        self.digest = ""
        self.log = []
        self.stats = {}
        self.states = set()
        self.feedback = None
        self.sim_time = 0.0
        self.nontrivial = True
        self.known = []

    def add(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n


_libc = None


def confine(seconds):
    """In a forked child: end with the parent, and within bounds."""
    global _libc
    import ctypes
    import resource

    if _libc is None:
        _libc = ctypes.CDLL(None)
    _libc.prctl(1, signal.SIGKILL)  # PR_SET_PDEATHSIG
    # A limit already in force may be lower, and cannot be raised.
    hard = resource.getrlimit(resource.RLIMIT_CPU)[1]
    if hard == resource.RLIM_INFINITY or hard > int(seconds) + 6:
        resource.setrlimit(resource.RLIMIT_CPU, (int(seconds) + 5, int(seconds) + 6))
    limit = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def raised_by_gaspra(error):
    """Whether an error nobody injected came up through gaspra's code.

    Where a check reads something back it has no fault placed, so whatever
    gaspra lets out there is its own doing; the machine's limits are not.
    """
    if not isinstance(error, Exception) or isinstance(error, (MemoryError, HarnessError)):
        return False
    under = os.path.join(REPO, "src", "gaspra") + os.sep
    trace = error.__traceback__
    while trace:
        if os.path.abspath(trace.tb_frame.f_code.co_filename).startswith(under):
            return True
        trace = trace.tb_next
    return False


def run_isolated(prop, plan, timeout=None):
    """Execute a plan in a forked child and return its Outcome."""
    timeout = timeout or RUN_TIMEOUT
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            os.setpgid(0, 0)
            confine(timeout)
            out = Outcome()
            log = Log()
            try:
                prop.execute(plan, out, log)
            except Violation as v:
                out.violation = (v.kind, v.msg)
            except BaseException as e:
                if raised_by_gaspra(e):
                    out.violation = ("operation-fails", f"{type(e).__name__}: {e} out of gaspra's own code")
                else:
                    out.error = traceback.format_exc()
            out.digest = log.digest()
            if out.violation or out.error:
                out.log = log.lines
            data = pickle.dumps(out)
            view = memoryview(struct.pack("<Q", len(data)) + data)
            while view:
                view = view[os.write(w, view) :]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    data = b""
    deadline = time.monotonic() + timeout
    hang = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            hang = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            hang = True
            break
        chunk = os.read(r, 1 << 20)
        if not chunk:
            break
        data += chunk
        if len(data) >= 8 and len(data) - 8 >= struct.unpack("<Q", data[:8])[0]:
            break
    os.close(r)
    if hang:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    _, status = os.waitpid(pid, 0)
    if hang:
        out = Outcome()
        out.hang = True
        return out
    if len(data) < 8:
        out = Outcome()
        out.error = f"run ended without an answer (status {status})"
        return out
    return pickle.loads(data[8:])


def judge(out):
    """(kind, msg) of a violation, or None."""
    if out.violation:
        return out.violation
    if out.hang:
        return ("no-progress", f"the run did not finish within {RUN_TIMEOUT:.0f} s")
    return None


# ------------------------------------------------------------------ search
class Search:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.evals = 0
        self.stats = {}
        self.states = set()
        self.digests = set()
        self.nontrivial = set()
        self.sim_time = 0.0
        self.samples = []
        self.known = {}
        self.errors = []
        self.found = None
        self.determinism = [0, 0]
        self.slowest = (0.0, -1)
        self.phases = {}

    def absorb(self, phase, plan, out):
        self.evals += 1
        self.phases[phase] = self.phases.get(phase, 0) + 1
        for k, v in out.stats.items():
            self.stats[k] = self.stats.get(k, 0) + v
        self.states |= out.states
        self.digests.add(out.digest)
        if out.nontrivial:
            self.nontrivial.add(out.digest)
        self.sim_time += out.sim_time
        for k in out.known:
            self.known[k] = self.known.get(k, 0) + 1

    def seeds_run(self, i):
        """All runs of seed number i, as (phase, plan, outcome)."""
        prop = self.prop
        seed = derive(self.seed, prop.id, i)
        plan = prop.generate(random.Random(derive(seed, "plan")), self.tier)
        plan["seed"] = seed
        out = self.timed(i, plan)
        yield "undisturbed" if prop.two_phase else "run", plan, out
        if prop.two_phase and not (out.violation or out.error or out.hang):
            for k in range(prop.placements):
                rng = random.Random(derive(seed, "faults", k))
                faulted = prop.place(copy.deepcopy(plan), out.feedback, rng)
                if faulted is None:
                    continue
                yield "faulted", faulted, self.timed(i, faulted)

    def timed(self, i, plan):
        start = time.monotonic()
        out = run_isolated(self.prop, plan)
        self.slowest = max(self.slowest, (time.monotonic() - start, i))
        return out

    def worker(self, w, n, count, deadline, fd):
        """Run the seeds i = w mod n; send what was found through fd."""
        sent = 0
        local = Search(self.prop, self.tier, self.seed)
        for i in range(w, count, n):
            if time.monotonic() > deadline:
                break
            for phase, plan, out in local.seeds_run(i):
                if out.error:
                    local.errors.append((plan, out.error))
                    break
                local.absorb(phase, plan, out)
                if judge(out) is None and i % 40 == w % 40 and len(local.samples) < 1:
                    local.samples.append({"run": i, "phase": phase, "plan": shorten(plan), "events": out.digest})
                if judge(out) is None and i % 50 == 7:
                    again = run_isolated(self.prop, plan)
                    local.determinism[0] += 1
                    if again.digest != out.digest or again.hang:
                        local.determinism[1] += 1
                if judge(out):
                    local.found = (i, phase, plan, judge(out), out.log)
                    break
                if time.monotonic() > deadline:
                    break
            if local.found or local.errors:
                break
            sent = i
        data = pickle.dumps(local.__dict__ | {"prop": None, "last": sent})
        view = memoryview(struct.pack("<Q", len(data)) + data)
        while view:
            view = view[os.write(fd, view) :]

    def run(self, count, seconds, workers=None):
        n = workers or WORKERS
        deadline = time.monotonic() + seconds
        kids = {}
        for w in range(n):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.setpgid(0, 0)
                    confine(seconds + 900)
                    os.close(r)
                    self.worker(w, n, count, deadline, wr)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            os.close(wr)
            kids[r] = [pid, b""]
        results = []
        stop_at = None
        while kids:
            wait = 5.0
            if stop_at is not None:
                wait = max(0.0, stop_at - time.monotonic())
                if wait == 0.0:
                    break
            ready, _, _ = select.select(list(kids), [], [], wait)
            for r in ready:
                chunk = os.read(r, 1 << 20)
                if chunk:
                    kids[r][1] += chunk
                    continue
                pid, data = kids.pop(r)
                os.close(r)
                os.waitpid(pid, 0)
                if len(data) < 8:
                    self.errors.append((None, "a worker ended without an answer"))
                    continue
                d = pickle.loads(data[8:])
                results.append(d)
                if (d["found"] or d["errors"]) and stop_at is None:
                    stop_at = time.monotonic() + 3.0
        for r, (pid, _) in kids.items():
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
        for d in results:
            self.evals += d["evals"]
            for k, v in d["stats"].items():
                self.stats[k] = self.stats.get(k, 0) + v
            for k, v in d["known"].items():
                self.known[k] = self.known.get(k, 0) + v
            for k, v in d["phases"].items():
                self.phases[k] = self.phases.get(k, 0) + v
            self.states |= d["states"]
            self.digests |= d["digests"]
            self.nontrivial |= d["nontrivial"]
            self.sim_time += d["sim_time"]
            self.samples += d["samples"]
            self.errors += d["errors"]
            self.slowest = max(self.slowest, d["slowest"])
            self.determinism[0] += d["determinism"][0]
            self.determinism[1] += d["determinism"][1]
            if d["found"] and (self.found is None or d["found"][0] < self.found[0]):
                self.found = d["found"]


def shorten(x, limit=60):
    """A plan for the evidence file: long texts cut."""
    if isinstance(x, str):
        return x if len(x) <= limit else x[:limit] + f"...(+{len(x) - limit})"
    if isinstance(x, dict):
        return {k: shorten(v, limit) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        y = [shorten(v, limit) for v in x[:14]]
        if len(x) > 14:
            y.append(f"...(+{len(x) - 14})")
        return y
    return x


# -------------------------------------------------------------- minimising
def minimise(prop, plan, kind, seconds=60.0):
    """Drop and simplify parts of the plan while the same violation stays."""
    deadline = time.monotonic() + seconds
    tried = set()
    runs = 0

    def fails(p):
        nonlocal runs
        key = hashlib.sha1(json.dumps(p, sort_keys=True).encode()).digest()
        if key in tried or not prop.valid(p):
            return False
        tried.add(key)
        runs += 1
        v = judge(run_isolated(prop, p, timeout=min(RUN_TIMEOUT, 20.0)))
        return v is not None and v[0] == kind

    def left():
        return time.monotonic() < deadline

    best = plan
    changed = True
    while changed and left():
        changed = False
        for key in prop.lists:  # ddmin over each list of steps
            items = best.get(key) or []
            size = max(1, len(items) // 2)
            while size >= 1 and left():
                i = 0
                while i < len(best[key]) and left():
                    cand = copy.deepcopy(best)
                    del cand[key][i : i + size]
                    if fails(cand):
                        best = cand
                        changed = True
                    else:
                        i += size
                size //= 2
        for cand in prop.simpler(copy.deepcopy(best)):
            if not left():
                break
            if cand is not None and fails(cand):
                best = copy.deepcopy(cand)
                changed = True
                break
    return best, runs


def simpler_texts(plan, ops_key="ops", fields=("data",)):
    """Candidates with shorter texts, fewer faults, simpler faults."""
    ops = plan.get(ops_key, [])
    for i, op in enumerate(ops):
        for j in range(len(op.get("faults", []))):
            cand = copy.deepcopy(plan)
            del cand[ops_key][i]["faults"][j]
            yield cand
    for i, op in enumerate(ops):
        for f in fields:
            s = op.get(f)
            if not isinstance(s, str) or not s:
                continue
            step = max(1, len(s) // 2)
            while step:
                for a in range(0, len(s), step):
                    if step * 24 < len(s):
                        break
                    cand = copy.deepcopy(plan)
                    cand[ops_key][i][f] = s[:a] + s[a + step :]
                    yield cand
                step //= 2
    for i, op in enumerate(ops):
        for j, fault in enumerate(op.get("faults", [])):
            for k, v in (("n", 1), ("part", 0), ("after", 0)):
                if fault.get(k, v) != v:
                    cand = copy.deepcopy(plan)
                    cand[ops_key][i]["faults"][j][k] = v
                    yield cand


class Property:
    id = ""
    two_phase = False
    placements = 1
    lists = ("ops",)
    quick = (1000, 60.0)  # number of seeds, seconds
    thorough = (40000, 1500.0)
    rule = ""
    level = "exploration"
    assumptions = []
    real = []
    stubs = []

    def generate(self, rng, tier):
        raise NotImplementedError

    def place(self, plan, feedback, rng):
        return None

    def execute(self, plan, out, log):
        raise NotImplementedError

    def valid(self, plan):
        return True

    def simpler(self, plan):
        yield from simpler_texts(plan)

    def prepare(self):
        """Once in the parent, before any fork: import the code under test."""

    def cleanup(self):
        """Once in the parent, at the end."""


# --------------------------------------------------------------- known list
def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path) as f:
            return json.load(f)
    except FileNotFoundError:
        return []


def write_evidence(prop, tier, seed, search, wall, violations, extra=None):
    path = os.path.join(VERIF, "evidence", f"{prop.id}.json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    faults = {k[6:]: v for k, v in sorted(search.stats.items()) if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in sorted(search.stats.items()) if k.startswith("probe:")}
    other = {k: v for k, v in sorted(search.stats.items()) if k[:6] not in ("fault:", "probe:")}
    hours = max(wall, 1e-9) / 3600.0
    coverage = {
        "evaluations": search.evals,
        "distinct_nontrivial": len(search.nontrivial),
        "rule": prop.rule,
        "samples": (search.samples or [{"note": "no sample kept"}])[:4],
        "runs_by_phase": search.phases,
        "runs_per_hour": round(search.evals / hours),
        "seeds_per_hour": round(search.phases.get("undisturbed", search.phases.get("run", 0)) / hours),
        "simulated_seconds": round(search.sim_time, 3),
        "faults_fired": faults,
        "probes_hit": probes,
        "workload_counts": other,
        "distinct_event_traces": len(search.digests),
        "distinct_states": len(search.states),
        "states_measure": prop.states_measure if hasattr(prop, "states_measure") else "digest of the observable state after an operation",
        "replay_determinism": {"runs_repeated": search.determinism[0], "differing": search.determinism[1]},
        "real_components": prop.real,
        "simulated_components": prop.stubs,
        "workers": WORKERS,
        "slowest_run": {"seconds": round(search.slowest[0], 2), "seed_number": search.slowest[1]},
    }
    if search.known:
        coverage["known_findings_hit"] = search.known
    coverage.update(extra or {})
    data = {
        "property": prop.id,
        "tier": tier,
        "seed": seed,
        "level": prop.level,
        "coverage": coverage,
        "assumptions": prop.assumptions,
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(data, f, indent=1, ensure_ascii=True, sort_keys=False)
        f.write("\n")
    os.replace(tmp, path)


def main(props, argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args(argv)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    prop = props[a.property]()
    print(f"property={prop.id} tier={a.tier} seed={a.seed} workers={a.workers or WORKERS}", flush=True)
    prop.prepare()
    try:
        return decide(prop, a)
    finally:
        prop.cleanup()


def decide(prop, a):
    if a.replay:
        with open(a.replay) as f:
            record = json.load(f)
        out = run_isolated(prop, record["plan"])
        if a.verbose:
            print("\n".join(out.log))
        if out.error:
            print("harness error:\n" + out.error)
            return 2
        v = judge(out)
        print(f"events digest {out.digest}")
        if v:
            print(f"{v[0]}: {v[1]}")
            print(f"VIOLATION property={prop.id} replay={a.replay}")
            return 1
        print("no violation")
        return 0
    start = time.monotonic()
    count, seconds = getattr(prop, a.tier)
    count, seconds = a.runs or count, a.seconds or seconds
    search = Search(prop, a.tier, a.seed)
    search.run(count, seconds, a.workers)
    code, violations = 0, 0
    for f in known_findings():
        if f.get("status") == "known" and f.get("property") == prop.id:
            print(f"KNOWN-FINDING: property={prop.id} {f['what']}")
    if search.found:
        i, phase, plan, (kind, msg), log = search.found
        if kind == "no-progress":
            out = run_isolated(prop, plan, timeout=2 * RUN_TIMEOUT)
            if not out.hang:
                v = judge(out)
                if v is None:
                    print(f"run {i} was slow once but finished when repeated", flush=True)
                    search.found = None
                else:
                    kind, msg = v
    if search.found:
        print(f"run {i} ({phase}) violates {prop.id}: {kind}: {msg}", flush=True)
        small, tries = (plan, 0) if kind == "no-progress" and "did not finish" in msg else minimise(prop, plan, kind)
        out = run_isolated(prop, small)
        v = judge(out)
        if v is None:  # cannot happen unless the code is nondeterministic
            small, v = plan, (kind, msg)
        path = os.path.join(VERIF, "evidence", f"{prop.id}.replay.json")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            json.dump({"property": prop.id, "seed": a.seed, "run": i, "phase": phase, "kind": v[0],
                       "message": v[1], "minimising_runs": tries, "events_digest": out.digest,
                       "log": out.log[-200:], "plan": small}, f, indent=1)
            f.write("\n")
        print(f"minimised after {tries} runs: {v[0]}: {v[1]}")
        print(f"VIOLATION property={prop.id} replay={os.path.relpath(path, VERIF)}", flush=True)
        code, violations = 1, 1
    elif search.errors:
        print("harness error:\n" + str(search.errors[0][1]))
        print(json.dumps(shorten(search.errors[0][0]))[:2000])
        code = 2
    write_evidence(prop, a.tier, a.seed, search, time.monotonic() - start, violations)
    print(f"{search.evals} runs, {len(search.digests)} distinct traces, {len(search.states)} states, "
          f"{time.monotonic() - start:.1f} s, exit {code}", flush=True)
    if a.verbose:
        print(json.dumps(dict(sorted(search.stats.items())), indent=1))
    return code
