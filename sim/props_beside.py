"""C03: diff and merge commands as processes that run at the same time.

Each process stops before every operation on a file of the scratch directory
(its home and temporary directories are in there) until it is its turn, so
that one of them runs at a time and the plan decides their order.
"""

from __future__ import annotations

import copy
import hashlib
import os
import select
import signal
import tempfile

from sim import props_cli, texts
from sim.core import Property, Violation
from sim.props_cli import CASES, Scratch, arguments, contents, faults_for, file_names, file_texts, invocation, outcome, scrub, show, start

OUTS = ("out", "out1", "out2", "out3")
NEAR = ("~", ".bak", ".orig", ".tmp", ".new", ".old", ".part", ".lock", ".swp", ".1", "/.", "/.~", "/#", "/tmp", "/~", "/.#")
MOMENT = 1_700_000_000 * 10**9
PATIENCE = 3.0  # a process that neither meets nor ends in this time waits for another one


class Beside:
    """A command's process that waits for its turns."""

    def __init__(self, inv, scratch):
        announce_r, announce_w = os.pipe()
        go_r, go_w = os.pipe()

        def meet(end=False):
            if end:
                props_cli.LIB.sim_meet(-1, -1)
                os.write(announce_w, b"E")
                return
            os.close(announce_r)
            os.close(go_w)
            at_home(scratch)
            props_cli.LIB.sim_meet(announce_w, go_r)

        self.pid, self.r = start(inv, scratch, None, meet)
        os.close(announce_w)
        os.close(go_r)
        self.announce, self.go = announce_r, go_w
        self.meetings = 0
        self.waiting = False
        self.result = None

    def turn(self):
        """Let it do its next operation."""
        if self.waiting:
            self.waiting = False
            try:
                os.write(self.go, b".")
            except BrokenPipeError:
                pass

    def listen(self):
        b = os.read(self.announce, 1)
        if b == b".":
            self.waiting = True
            self.meetings += 1
        else:
            self.result = outcome(self.pid, self.r)
            self.close()

    def close(self):
        os.close(self.announce)
        os.close(self.go)

    def end(self):
        if self.result is None:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.result = outcome(self.pid, self.r)
            self.close()


def at_home(scratch):
    for k, d in (("HOME", "home"), ("TMPDIR", "tmp"), ("XDG_CACHE_HOME", "home/.cache")):
        os.environ[k] = os.path.join(scratch, d)
        os.makedirs(os.environ[k], exist_ok=True)
    tempfile.tempdir = None


def together(invs, turns, scratch, out):
    """All of them, in the order of the turns; what became of each and how many stood half-way together."""
    signal.signal(signal.SIGPIPE, signal.SIG_IGN)
    procs = [None] * len(invs)
    switches = 0
    try:
        queue = [tuple(t) for t in turns] + [(i, 1 << 30) for i in range(len(invs))]
        last = None
        for who, n in queue:
            who %= len(invs)
            while n > 0:
                p = procs[who]
                if p is None:
                    p = procs[who] = Beside(invs[who], scratch)
                elif p.result is not None:
                    break
                else:
                    if last is not None and last != who and p.meetings and procs[last].result is None:
                        switches += 1
                    last = who
                    p.turn()
                    n -= 1
                if not settle(p, procs, n < 1 << 20):
                    out.add("probe:blocked")
                    break
        return [p.result for p in procs], switches
    finally:
        for p in procs:
            if p is not None:
                p.end()


def settle(p, procs, hurry):
    """Wait until p meets again or has ended; False when it seems to wait for another."""
    while not p.waiting and p.result is None:
        running = {q.announce: q for q in procs if q is not None and q.result is None and not q.waiting}
        ready, _, _ = select.select(list(running), [], [], PATIENCE if hurry else 60)
        if not ready:
            return False
        for fd in ready:
            running[fd].listen()
    return True


class C03(Property):
    id = "C03"
    two_phase = True
    placements = 3
    lists = ()
    quick = (1500, 60.0)
    rule = "runs in which processes stood half-way together, with distinct event traces"
    real = props_cli.REAL
    stubs = props_cli.STUBS + ["which process's file operation comes next (a rendezvous in sim/iofault.c)"]
    assumptions = ["Each process writes to an output file of its own or to a standard output of its own, and nobody changes the input files meanwhile.",
                   "Processes are switched before operations on files below the run's directory, which holds their home and temporary directories too."]
    states_measure = "distinct (options, exit status, operations at each switch)"

    def prepare(self):
        props_cli.cli_prepare()

    def cleanup(self):
        props_cli.cli_cleanup()

    def generate(self, rng, tier):
        cap = rng.choice((20, 60, 120, 200))
        n = rng.randrange(3, 6)
        files, enc = file_texts(rng, n, cap, plain=rng.random() < 0.5)
        names = [f"in{i}" for i in range(n)]
        plan = {"files": files, "enc": enc, "rounds": []}
        case = rng.random() < 0.1 and rng.choice(list(CASES))
        if case or rng.random() < 0.4:
            plan["names"] = file_names(rng, names + list(OUTS))
        # files that are named like others, as editors and other tools leave them
        plan["near"] = sorted({(rng.choice(names + list(OUTS) * 2), rng.choice(NEAR)) for _ in range(rng.randrange(6))})
        plan["there"] = [o for o in OUTS if rng.random() < 0.5]
        if case:
            plan["names"].update(CASES[case])
        for k in range(rng.choice((1, 1, 1, 2, 3) if enc == "utf-8" else (2, 2, 3))):
            outs = list(OUTS)
            rng.shuffle(outs)
            invs = []
            for _ in range(rng.choice((2, 2, 2, 3, 4))):
                inv = invocation(rng, names, (outs[-1],), case)
                if "out" in inv:
                    outs.pop()
                if invs and rng.random() < 0.3:
                    # the same command again, for an output of its own
                    inv = dict(copy.deepcopy(invs[-1]), **({"out": inv["out"]} if "out" in inv else {}))
                    if "out" not in inv or inv["out"] == invs[-1].get("out"):
                        inv.pop("out", None)
                        inv["opts"] = [o for o in inv["opts"] if not o.startswith(("-o", "--output"))]
                invs.append(inv)
            if k and rng.random() < 0.5:
                # the same again
                invs = copy.deepcopy(plan["rounds"][-1]["invs"])
            r = {"invs": invs, "turns": []}
            if k and rng.random() < 0.8:
                r["write"] = {"file": rng.choice(names), "data": texts.fresh(rng, rng.choice(("lines", "lines", "unicode")), cap)}
                old = plan["files"][names.index(r["write"]["file"])]
                if rng.random() < 0.6:
                    # of the same length as before
                    size = len(old.encode(enc, "replace"))
                    data = r["write"]["data"]
                    while len(data.encode()) > size:
                        data = data[:-1]
                    r["write"]["data"] = data + "x" * (size - len(data.encode()))
            plan["rounds"].append(r)
        return plan

    def place(self, plan, feedback, rng):
        if not feedback:
            return None
        for r, results in zip(plan["rounds"], feedback):
            for i, w in enumerate(results):
                if w.get("ops") and rng.random() < 0.15:
                    r["invs"][i]["faults"] = faults_for(rng, w)
            lengths = [len(w.get("ops", ())) for w in results]
            turns = []
            style = rng.random()
            for _ in range(rng.choice((1, 2, 4, 8, 40))):
                who = rng.randrange(len(results))
                if style < 0.3:
                    n = rng.choice((1, 1, 2))
                elif style < 0.6:
                    n = rng.randrange(1, max(2, lengths[who] + 2))
                else:
                    n = rng.choice((1, 2, 3, 5, 8, 13, 1000))
                turns.append([who, n])
            r["turns"] = turns
        return plan

    def simpler(self, plan):
        for k in range(len(plan["rounds"])):
            if len(plan["rounds"]) > 1:
                cand = copy.deepcopy(plan)
                del cand["rounds"][k]
                yield cand
            for i in range(len(plan["rounds"][k]["turns"])):
                cand = copy.deepcopy(plan)
                del cand["rounds"][k]["turns"][i]
                yield cand
            for i in range(len(plan["rounds"][k]["invs"])):
                if len(plan["rounds"][k]["invs"]) > 1:
                    cand = copy.deepcopy(plan)
                    r = cand["rounds"][k]
                    del r["invs"][i]
                    r["turns"] = [[w - (w > i), n] for w, n in r["turns"] if w != i]
                    yield cand
                for key in ("faults", "mixed", "tty", "encoding", "rel"):
                    if key in plan["rounds"][k]["invs"][i]:
                        cand = copy.deepcopy(plan)
                        del cand["rounds"][k]["invs"][i][key]
                        yield cand
                for o in plan["rounds"][k]["invs"][i]["opts"]:
                    if not o.startswith(("-o", "--output")):
                        cand = copy.deepcopy(plan)
                        cand["rounds"][k]["invs"][i]["opts"].remove(o)
                        yield cand
            if "write" in plan["rounds"][k]:
                cand = copy.deepcopy(plan)
                del cand["rounds"][k]["write"]
                yield cand
        for key in ("near", "there"):
            for i in range(len(plan.get(key, ()))):
                cand = copy.deepcopy(plan)
                del cand[key][i]
                yield cand
        if "names" in plan and not any(v["tool"] == "torture" for r in plan["rounds"] for v in r["invs"]):
            yield {k: v for k, v in plan.items() if k != "names"}
        for i, s in enumerate(plan["files"]):
            step = max(1, len(s) // 2)
            while step * 8 >= len(s) and step:
                for k in range(0, len(s), step):
                    cand = copy.deepcopy(plan)
                    cand["files"][i] = s[:k] + s[k + step :]
                    yield cand
                step //= 2

    def execute(self, plan, out, log):
        s = Scratch()
        try:
            self.run(plan, out, log, s)
        finally:
            s.remove()

    def run(self, plan, out, log, s):
        names = plan.get("names", {})
        s.directories(names)
        files = {names.get(f"in{i}", f"in{i}"): t.encode(plan["enc"], "replace") for i, t in enumerate(plan["files"])}
        rounds = []
        first = dict(files)
        for r in plan["rounds"]:
            if "write" in r:
                files[names.get(r["write"]["file"], r["write"]["file"])] = r["write"]["data"].encode()
            invs = [dict(v, names=names, capture=f".stdout{i}") for i, v in enumerate(r["invs"]) if props_cli.TORTURE or v["tool"] != "torture"]
            want = []
            for v in invs:
                s.fill(files)
                w = outcome(*start(dict(v, faults=[]), s.dir, None, lambda end=False: end or at_home(s.dir)))
                out.add("processes")
                if w["code"] in ("hang", "killed"):
                    raise Violation("no-progress", f"{arguments(v, '')} did not end")
                want.append(w)
            rounds.append((r, invs, want, dict(files)))
        out.feedback = [w for _, _, w, _ in rounds]
        # now together, round after round, in one directory
        s.fill(first)
        others = {"notes": b"not to be touched\n"}
        for n, how in plan.get("near", ()):
            where, name = os.path.split(names.get(n, n))
            others[os.path.join(where, how[1:] + name if how[0] == "/" else name + how)] = f"{how} of {n}\n".encode()
        outputs = {o: names.get(o, o) for o in OUTS}
        for o in plan.get("there", ()):
            others[outputs[o]] = f"old {o}\n".encode()
        others = {n: data for n, data in others.items() if n not in files}
        for n, data in others.items():
            with open(os.path.join(s.dir, n), "wb") as f:
                f.write(data)
        before = first
        half_way = 0
        stamps = {}
        for k, (r, invs, want, files) in enumerate(rounds):
            for n, data in files.items():
                if before.get(n) != data:
                    with open(os.path.join(s.dir, n), "wb") as f:
                        f.write(data)
                    stamps[n] = MOMENT + k
                # all in one second
                os.utime(os.path.join(s.dir, n), ns=(MOMENT, stamps.get(n, MOMENT)))
            before = files
            if not invs:
                continue
            got, switches = together(invs, r["turns"], s.dir, out)
            half_way += switches
            out.add("processes", len(invs))
            out.add("probe:switches", switches)
            for i, (v, g, w) in enumerate(zip(invs, got, want)):
                for f, n in g["fired"].items():
                    out.add("fault:" + f, n)
                if g["code"] == "killed":
                    out.add("fault:kill")
                log.add(k, i, v["tool"], v["opts"], g["code"], g["what"], len(g.get("ops", ())), hashlib.sha1(repr(
                    [scrub(g.get("stdout"), s.dir), scrub(g.get("out"), s.dir)]).encode()).hexdigest()[:12])
                out.add("probe:exit_%s" % g["code"])
            s.check_inputs(files, f"in round {k + 1}")
            told = {outputs[v["out"]] for v in invs if "out" in v}
            for n in told:
                others.pop(n, None)
            for n, data in others.items():
                if contents(os.path.join(s.dir, n)) != data:
                    raise Violation("bystander", f"{n!r}, which no command was told to write, was changed in round {k + 1}")
            for n in told:
                if (data := contents(os.path.join(s.dir, n))) is not None:
                    others[n] = data
            for i, (v, g, w) in enumerate(zip(invs, got, want)):
                disturbed = bool(g["fired"]) or g["code"] == "killed"
                self.compare(v, g, w, k, i, s, names, disturbed)
        out.states.add(hashlib.sha1(repr([(v["opts"], r["turns"]) for r, invs, _, _ in rounds for v in invs]).encode()).hexdigest()[:16])
        out.nontrivial = half_way > 0

    def compare(self, v, g, w, k, i, s, names, disturbed):
        args = " ".join(arguments(v, ""))
        if g["code"] == "hang":
            raise Violation("no-progress", f"round {k + 1}, process {i} ({args}) did not end beside the others")
        if disturbed and g["code"] != 0:
            return  # may fail, but the others may not notice
        if g["code"] != w["code"] or g["what"] != w["what"]:
            raise Violation("influence", f"round {k + 1}, process {i} ({args}) ends with {g['code']} ({g['what']} {g['stderr']}) beside the others, alone with {w['code']} ({w['what']} {w['stderr']})")
        if scrub(g.get("stdout"), s.dir) != scrub(w.get("stdout"), s.dir):
            raise Violation("influence", f"round {k + 1}, process {i} ({args}) leaves {show(g.get('stdout'))} on stdout beside the others, alone {show(w.get('stdout'))}")
        if w["code"] == 0 and w.get("out") is not None:
            for when, data in (("at its end", g.get("out")), ("when all have ended", contents(os.path.join(s.dir, names.get(v["out"], v["out"]))))):
                if scrub(data, s.dir) != scrub(w["out"], s.dir):
                    raise Violation("influence", f"round {k + 1}, process {i} ({args}) has left {show(data)} on its output file {when}, alone {show(w['out'])}")


PROPS = {C03.id: C03}
