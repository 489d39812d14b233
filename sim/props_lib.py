"""T01-T03: the library's functions under concurrency, lazy use and other processes."""

from __future__ import annotations

import copy
import gc
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading

from sim import calls, instrument, texts
from sim.baton import Baton
from sim.core import REPO, VERIF, HarnessError, Property, Violation



PYCACHE = None


class Clock:
    now = 0.0


def first_difference(got, want):
    for i, (g, w) in enumerate(zip(got, want)):
        if g != w:
            return f"item {i} is {str(g)[:160]} instead of {str(w)[:160]}"
    return f"{len(got)} items instead of {len(want)}: {str(got[len(want):] or want[len(got):])[:160]}"


def deep(*answers):
    """The stack was too small for a call, which depends on where it is made from."""
    return any(["raised", "RecursionError"] in a for a in answers)


def describe(call):
    return f"{call['f']}({', '.join(repr(s[:24]) for s in call['a'])}) on {call['t']}" + (f" with {call['tok']}" if call.get("tok") else "")


def digest(x):
    return hashlib.sha1(json.dumps(x).encode()).hexdigest()[:16]


class Interrupted(KeyboardInterrupt):
    """The interrupt the simulator raises inside a call."""


# ------------------------------------------------------------------------ T01
class Threads:
    """Caller threads, one running at a time, switched between traced events."""

    def __init__(self, plan, out, log):
        self.plan, self.out, self.log = plan, out, log

    def run(self):
        plan = self.plan
        want = {}
        flat = [(i, k, c) for i, cs in enumerate(plan["threads"]) for k, c in enumerate(cs)]
        for (i, k, _), w in zip(flat, calls.solo([c for _, _, c in flat])):
            want[i, k] = w
        self.got = {}
        self.windows = {}  # (thread, call) -> decision range
        interrupts = {(i, m) for i, m in plan.get("interrupts", ())}
        self.baton = baton = Baton(Clock(), (), own=[tuple(p) for p in plan["preempt"]])
        places = [{} for _ in plan["threads"]]
        collect = plan.get("gc", 0)
        counting = not baton.own

        def point(place):
            i = baton.me()
            if i is None:
                return
            m = baton.counts[i]
            if counting:
                where = places[i].setdefault(place, [])
                if len(where) < 12:
                    where.append(m)
                baton.counts[i] = m + 1
            if collect and m % collect == collect - 1:
                gc.collect()
            baton.point()
            if (i, m) in interrupts:
                interrupts.discard((i, m))
                self.out.add("fault:interrupt")
                raise Interrupted()

        for i, todo in enumerate(plan["threads"]):
            def body(i=i, todo=todo):
                for k, call in enumerate(todo):
                    try:
                        self.got[i, k] = calls.answer(call)
                    except Interrupted:
                        self.got[i, k] = None

            baton.spawn(body)
        gc.collect()
        gc.disable()
        instrument.STATEMENT = point
        instrument.EXPRESSION = point if plan.get("fine") else None
        try:
            baton.run()
        finally:
            instrument.STATEMENT = instrument.EXPRESSION = None
        for i, k, call in flat:
            got = self.got.get((i, k))
            self.log.add(i, k, call["f"], digest(got))
            if got is None:
                continue
            if got != want[i, k] and not deep(got, want[i, k]):
                raise Violation("differs", f"thread {i}: {describe(call)}: {first_difference(got, want[i, k])}")
        self.log.add("decisions", baton.decisions, "switches", baton.switches, baton.counts)
        self.out.add("calls", len(flat))
        self.out.add("decisions", baton.decisions)
        self.out.add("switches", baton.switches)
        self.out.add("fault:preemption", baton.switches)
        self.out.states.add(digest([baton.decisions, plan["preempt"], sorted(map(str, self.got))]))
        self.out.feedback = (list(baton.counts), [sorted(x.items()) for x in places])
        self.out.nontrivial = baton.switches > len(plan["threads"])


class T01(Property):
    id = "T01"
    two_phase = True
    placements = 3
    lists = ("preempt", "interrupts")
    quick = (6000, 80.0)
    rule = "runs with more switches than threads and distinct event traces"
    real = ["all gaspra functions the calls reach", "Python threads"]
    stubs = ["thread scheduling (sim.baton, through decision points sim.instrument adds to gaspra's code as it is imported)", "garbage collection (explicit collections at planned points)"]
    assumptions = ["Each thread works on data and tokenizers of its own; the same data may occur in several threads as separate objects.",
                   "Switches happen before statements and after calls, attribute and subscript reads, comparisons and arithmetic of gaspra's own Python code, not inside C code, which holds the interpreter lock."]
    states_measure = "distinct sets of executed preemptions with the resulting number of decisions"

    def prepare(self):
        import_all()

    def generate(self, rng, tier):
        fine = rng.random() < 0.6
        cap = rng.choice((12, 30, 60, 120) if fine else (12, 40, 90, 160))
        if rng.random() < 0.04:
            cap = rng.choice((350, 700))
        n = rng.choice((2, 2, 2, 3, 4))
        functions = None if rng.random() < 0.5 else rng.sample(calls.ALL, rng.choice((1, 1, 2, 3)))
        style = rng.choice((None, *texts.STYLES))
        base = texts.fresh(rng, style or "words", cap) if rng.random() < 0.5 else None
        if cap > 300:
            base = texts.piece(rng, style or "words", rng.randrange(cap // 2, cap))
        threads = [[calls.generate(rng, cap, functions, style, base) for _ in range(rng.choice((1, 1, 2, 3)))] for _ in range(n)]
        if rng.random() < 0.25:  # the same call somewhere else
            threads[0].append(calls.twin(rng, rng.choice(threads[1])))
        plan = {"threads": threads, "preempt": [], "interrupts": []}
        if fine:
            plan["fine"] = True
        if rng.random() < 0.2:
            plan["gc"] = rng.choice((50, 400)) * (8 if plan.get("fine") else 1)
        return plan

    def place(self, plan, feedback, rng):
        counts, lines = feedback
        n = len(counts)
        picks = set()
        style = rng.random()
        if style < 0.4:
            # at rarely executed lines as often as at the hot ones
            for _ in range(rng.choice((1, 2, 3, 6, 12, 30, 80))):
                i = rng.randrange(n)
                if lines[i]:
                    _, at = rng.choice(lines[i])
                    picks.add((i, max(0, rng.choice(at) + rng.choice((0, 0, 0, 1, -1, 2)))))
        elif style < 0.6:
            for _ in range(rng.choice((1, 2, 3, 6))):
                i = rng.randrange(n)
                if counts[i]:
                    picks.add((i, rng.randrange(counts[i])))
        else:
            rate = rng.choice((0.01, 0.05, 0.2, 0.5, 1.0))
            for i in range(n):
                for m in range(counts[i]):
                    if rng.random() < rate:
                        picks.add((i, m))
            picks = set(rng.sample(sorted(picks), min(len(picks), 4000)))
        plan["preempt"] = [[i, m, rng.randrange(n)] for i, m in sorted(picks)]
        # the threads start one after the other unless the first is made to wait
        if rng.random() < 0.5:
            plan["preempt"] = sorted([[0, 0, rng.randrange(n)]] + [p for p in plan["preempt"] if p[:2] != [0, 0]])
        if rng.random() < 0.2:
            i = rng.randrange(n)
            if lines[i]:
                plan["interrupts"] = [[i, rng.choice(rng.choice(lines[i])[1])]]
        return plan

    def simpler(self, plan):
        for i, cs in enumerate(plan["threads"]):
            for k in range(len(cs)):
                cand = copy.deepcopy(plan)
                del cand["threads"][i][k]
                yield cand
        for key in ("gc", "fine"):
            if key in plan:
                yield {k: v for k, v in plan.items() if k != key}
        for i, cs in enumerate(plan["threads"]):
            for k, c in enumerate(cs):
                for small in calls.shrink(c):
                    cand = copy.deepcopy(plan)
                    cand["threads"][i][k] = small
                    yield cand

    def execute(self, plan, out, log):
        log.add([len(c) for c in plan["threads"]], plan.get("fine"))
        Threads(plan, out, log).run()


def import_all():
    instrument.install()
    import gaspra  # noqa: F401
    import gaspra.diff_to_lines  # noqa: F401
    import gaspra.manifest  # noqa: F401
    import gaspra.markup  # noqa: F401
    import gaspra.serialize  # noqa: F401
    import gaspra.tokenizers  # noqa: F401
    import gaspra.versions  # noqa: F401
    import gaspra.wrappers  # noqa: F401

    import sim.store  # noqa: F401

    gc.collect()
    gc.freeze()


# ------------------------------------------------------------------------ T02
class Lazies:
    """Several lazy results consumed step by step, other calls in between."""

    def __init__(self, plan, out, log):
        self.plan, self.out, self.log = plan, out, log
        self.calls = plan["calls"]
        self.live = {}
        self.parts = {}
        self.toks = {}
        self.depth = 0

    def tok(self, call):
        """The shared tokenizer of a call, or none."""
        k = call.get("shared")
        if k is None or call["f"] not in calls.WITH_TOKENIZER:
            return None
        key = (k, call["t"], call.get("tok"))
        if call.get("tok") is None:
            return None
        if key not in self.toks:
            self.toks[key] = calls.tokenizer(call["tok"])
        return self.toks[key]

    def pipe(self, c):
        """Put around the lazy results inside call c: other calls in between."""
        inside = {k: o for k, o in self.calls[c].get("inside", ())}
        if not inside:
            return calls.same

        def wrap(stream):
            for k, x in enumerate(stream):
                if k in inside and self.depth < 4:
                    self.depth += 1
                    self.whole(inside[k] % len(self.calls), "inside another call")
                    self.depth -= 1
                yield x

        return wrap

    def whole(self, c, when):
        call = self.calls[c]
        got = calls.answer(call, self.tok(call), self.pipe(c))
        self.log.add("whole", c, digest(got))
        self.out.add("whole_calls")
        if got != self.want[c] and not deep(got, self.want[c]):
            raise Violation("history", f"{describe(call)} {when}: {first_difference(got, self.want[c])}")

    def start(self, c):
        if c in self.live:
            return
        call = self.calls[c]
        self.parts[c] = []
        try:
            self.live[c] = calls.start(call, self.tok(call), self.pipe(c))
        except Exception as e:
            self.parts[c].append(["raised", type(e).__name__])
            self.ended(c)

    def pull(self, c, n, thread=False):
        if c not in self.live:
            return

        def do():
            it = self.live[c]
            for _ in range(n):
                try:
                    x = next(it)
                except StopIteration:
                    self.ended(c)
                    return
                except Violation:
                    raise
                except Exception as e:
                    self.parts[c].append(["raised", type(e).__name__])
                    self.ended(c)
                    return
                self.parts[c].append(calls.norm(x))
                k = len(self.parts[c])
                if self.parts[c] != self.want[c][:k] and not deep(self.want[c]):
                    raise Violation("lazy", f"{describe(self.calls[c])}: {first_difference(self.parts[c], self.want[c][:k])}")

        if thread:
            problems = []

            def body():
                try:
                    do()
                except BaseException as e:
                    problems.append(e)

            t = threading.Thread(target=body)
            t.start()
            t.join()
            if problems:
                raise problems[0]
        else:
            do()

    def ended(self, c):
        self.live.pop(c, None)
        got = self.parts.pop(c)
        self.log.add("ended", c, digest(got))
        self.out.add("lazy_results")
        if got != self.want[c] and not deep(got, self.want[c]):
            raise Violation("lazy", f"{describe(self.calls[c])}: {first_difference(got, self.want[c])}")

    def interrupt(self, f, k):
        """f() with an interrupt at its k-th traced line; true if it struck."""
        count = [0]

        def point(place):
            count[0] += 1
            if count[0] == k:
                raise Interrupted()

        instrument.STATEMENT = instrument.EXPRESSION = point
        try:
            f()
        except Interrupted:
            self.out.add("fault:interrupt")
            return True
        finally:
            instrument.STATEMENT = instrument.EXPRESSION = None
        return False

    def run(self):
        self.want = calls.solo(self.calls)
        gc.collect()
        gc.disable()
        for step in self.plan["ops"]:
            op, c = step["op"], step.get("c", 0) % len(self.calls)
            call = self.calls[c]
            self.log.add(op, c)
            if op == "start":
                self.start(c)
            elif op == "pull":
                self.start(c)
                self.pull(c, step.get("n", 1), step.get("thread", False))
            elif op == "whole":
                self.whole(c, "after other calls")
            elif op == "close":
                it = self.live.pop(c, None)
                if it is not None:
                    self.parts.pop(c)
                    self.out.add("fault:abandoned")
                    if hasattr(it, "close"):
                        it.close()
            elif op == "forget":
                if self.live.pop(c, None) is not None:
                    self.parts.pop(c)
                    self.out.add("fault:forgotten")
            elif op == "gc":
                gc.collect()
            elif op == "interrupt":
                def f(call=call, c=c):
                    for _ in calls.start(call, self.tok(call), self.pipe(c)):
                        pass

                try:
                    self.interrupt(f, step["k"])
                except Exception:
                    pass
            elif op == "interrupt_pull":
                it = self.live.pop(c, None)
                if it is not None:
                    got = self.parts.pop(c)
                    try:
                        self.interrupt(lambda: [got.append(calls.norm(x)) for x in it], step["k"])
                    except Exception:
                        pass
            elif op == "misuse":
                tok = self.tok(call)
                if tok is not None:
                    other = "utf8" if call["t"] == "str" else "str"
                    try:
                        # only after the tokenizer has seen its own type
                        if tok.source_type is not None:
                            tok.encode(calls.fresh("wrong type", other))
                    except Exception:
                        self.out.add("fault:misuse")
            elif op == "encode":
                tok = self.tok(call)
                if tok is not None:
                    for s in call["a"][: step.get("n", 1)]:
                        try:
                            x = calls.fresh(s, call["t"])
                            if tok.decode(tok.encode(x)) != x:
                                raise Violation("tokenizer", f"{call['tok']} tokenizer used before: {s!r} does not come back")
                        except Violation:
                            raise
                        except Exception:
                            pass
            elif op == "bad":
                # a call that fails on its own account
                bad = dict(call, f=step["f"], t="bad", a=(call["a"] * 3)[:3])
                try:
                    for _ in calls.start(bad):
                        pass
                except Exception:
                    self.out.add("fault:failed_call")
        for c in sorted(self.live):
            self.pull(c, 10**9)
        for c in range(len(self.calls)):
            self.whole(c, "at the end")
        self.out.add("steps", len(self.plan["ops"]))
        self.out.states.add(digest([[s["op"], s.get("c")] for s in self.plan["ops"]]))
        self.out.nontrivial = len(self.plan["ops"]) > 2


class T02(Property):
    id = "T02"
    lists = ("ops",)
    quick = (24000, 60.0)
    rule = "runs with more than two steps and distinct event traces"
    real = ["all gaspra functions the calls reach"]
    stubs = ["the order in which a program pulls, abandons and makes results", "garbage collection (explicit collections at planned points)",
             "interrupts (raised at planned points that sim.instrument adds to gaspra's code as it is imported)"]
    assumptions = ["A shared tokenizer is only given texts of one type (it refuses others), and is used by one thread at a time.",
                   "A result whose own pull was interrupted counts as abandoned."]
    states_measure = "distinct sequences of steps"

    def prepare(self):
        import_all()

    def generate(self, rng, tier):
        cap = rng.choice((12, 40, 120, 400))
        if rng.random() < 0.04:
            cap = rng.choice((800, 2500))
        n = rng.randrange(2, 8)
        kinds = None if rng.random() < 0.5 else rng.sample(calls.LAZY, rng.choice((1, 2)))
        style = rng.choice((None, None, *texts.STYLES))
        base = texts.fresh(rng, style or "lines", cap) if rng.random() < 0.6 else None
        if cap > 400:
            base = texts.piece(rng, style or "lines", rng.randrange(cap // 2, cap))
        todo = []
        twins = rng.choice((0.1, 0.1, 0.4))
        for i in range(n):
            call = calls.generate(rng, cap, kinds or (calls.LAZY if rng.random() < 0.7 else calls.ALL), style, base)
            if todo and rng.random() < twins:
                call = calls.twin(rng, rng.choice(todo))
            if call["f"] in calls.WITH_TOKENIZER and rng.random() < 0.6:
                call["shared"] = rng.randrange(2)
            if call["f"] in calls.PIPED and rng.random() < 0.3:
                call["inside"] = [[rng.randrange(6), rng.randrange(n)] for _ in range(rng.choice((1, 1, 2)))]
            todo.append(call)
        if rng.random() < 0.12:
            calls.in_lists(rng, todo)
        ops = []
        weights = {"start": 4, "pull": 14, "whole": 3, "close": 1, "forget": 1, "gc": 1, "interrupt": 1, "interrupt_pull": 0.5,
                   "misuse": 0.3, "encode": 1.5, "bad": 0.5}
        names = list(weights)
        for _ in range(rng.choice((4, 10, 20, 45))):
            op = rng.choices(names, [weights[k] for k in names])[0]
            step = {"op": op, "c": rng.randrange(n)}
            if op == "pull":
                step["n"] = rng.choice((1, 1, 1, 2, 5))
                if rng.random() < 0.08:
                    step["thread"] = True
            elif op in ("interrupt", "interrupt_pull"):
                step["k"] = rng.choice((rng.randrange(1, 30), rng.randrange(1, 200), rng.randrange(1, 9000)))
            elif op == "encode":
                step["n"] = rng.choice((1, 2, 3))
            elif op == "bad":
                step["f"] = rng.choice(("dts", "mts", "find", "lcs"))
            ops.append(step)
        return {"calls": todo, "ops": ops}

    def simpler(self, plan):
        n = len(plan["calls"])
        for i in range(n):
            if n > 1:
                cand = copy.deepcopy(plan)
                del cand["calls"][i]
                ops = []
                for s in cand["ops"]:
                    c = s.get("c", 0) % n
                    if c == i:
                        continue
                    s["c"] = c - (c > i)
                    ops.append(s)
                cand["ops"] = ops
                yield cand
            for key in ("inside", "shared"):
                if key in plan["calls"][i]:
                    cand = copy.deepcopy(plan)
                    del cand["calls"][i][key]
                    yield cand
        for i, s in enumerate(plan["ops"]):
            if s.get("thread"):
                cand = copy.deepcopy(plan)
                del cand["ops"][i]["thread"]
                yield cand
        for i in range(n):
            for small in calls.shrink(plan["calls"][i]):
                cand = copy.deepcopy(plan)
                cand["calls"][i] = small
                yield cand

    def valid(self, plan):
        return bool(plan["calls"])

    def execute(self, plan, out, log):
        Lazies(plan, out, log).run()


# ------------------------------------------------------------------------ T03
class T03(Property):
    id = "T03"
    lists = ("calls", "noise", "history")
    quick = (1120, 60.0)
    rule = "runs that compared at least two calls across processes, with distinct answers"
    real = ["all gaspra functions the calls reach", "CPython and SQLite, in interpreter processes of their own"]
    stubs = ["hash seed, garbage-collection thresholds, clocks and history of each process (chosen by the plan)"]
    assumptions = ["Tokens hash and compare the same way in every process, up to the interpreter's seeded hashing of text and bytes."]
    states_measure = "distinct combinations of hash seed, collection threshold and history"

    def prepare(self):
        # compiled code of the current tree, for this check only
        global PYCACHE
        PYCACHE = tempfile.mkdtemp(prefix="gaspra-t03-", dir="/tmp")
        job = {"calls": [], "noise": [], "process": {"hash": 0}, "history": [], "tok": "null", "scratch": PYCACHE}
        collect(spawn(job, False))

    def cleanup(self):
        shutil.rmtree(PYCACHE, ignore_errors=True)

    def generate(self, rng, tier):
        cap = rng.choice((15, 60, 200))
        if rng.random() < 0.1:
            cap = rng.choice((600, 2500))
        style = rng.choice((None, None, *texts.STYLES))
        functions = None if rng.random() < 0.6 else rng.sample(calls.ALL, rng.choice((1, 2, 3)))
        base = texts.piece(rng, style or "words", rng.randrange(cap // 2, cap)) if cap > 200 else None
        todo = [calls.generate(rng, cap, functions, style, base) for _ in range(rng.choice((5, 20, 40)) if cap <= 600 else 6)]
        noise = [calls.generate(rng, cap, functions, style, rng.choice(rng.choice(todo)["a"] or [""])) for _ in range(rng.choice((0, 3, 20)))]
        noise += [calls.twin(rng, rng.choice(todo)) for _ in range(rng.choice((0, 0, 2)))]
        # the same call once more, after the caller has changed its first answer
        noise += [copy.deepcopy(rng.choice(todo)) for _ in range(rng.choice((0, 0, 3)))]
        if rng.random() < 0.12:
            calls.in_lists(rng, todo + noise)
        processes = [{"hash": 0}]
        for _ in range(3):
            p = {"hash": rng.choice((1, rng.randrange(2**32), rng.randrange(2**32)))}
            r = rng.random()
            if r < 0.4:
                p["gc"] = rng.choice((1, 7, 100))
            elif r < 0.55:
                p["gc"] = 0
            if rng.random() < 0.5 and noise:
                p["noise"] = rng.randrange(1 << 30)
            if rng.random() < 0.25:
                p["order"] = rng.randrange(1 << 30)
            if rng.random() < 0.2:
                p["malloc"] = rng.choice(("malloc", "debug"))
            if rng.random() < 0.2:
                p["optimize"] = True
            if rng.random() < 0.3:
                p["setting"] = rng.randrange(1 << 30)
            if rng.random() < 0.3:
                p["clock"] = rng.randrange(1 << 30)
            if rng.random() < 0.3:
                p["around"] = rng.randrange(1 << 30)
            processes.append(p)
        history = []
        if rng.random() < 0.4:  # a store handed from process to process
            tags, data, style = [], {}, style or rng.choice(texts.STYLES)
            tok = rng.choice(calls.TOKENIZERS)
            if tok in ("char", "symbol") and style == "binary":
                style = "unicode"
            for i in range(rng.randrange(2, 14)):
                base = rng.choice((None, tags[-1], tags[-1], tags[-1], tags[-1], rng.choice(tags))) if tags else None
                s = texts.evolve(rng, data[base], style, cap) if base else texts.fresh(rng, style, cap)
                tag = f"t{i}"
                history.append({"tag": tag, "base": base, "data": s})
                tags.append(tag)
                data[tag] = s
        return {"calls": todo, "noise": noise, "processes": processes, "history": history,
                "tok": tok if history else "null", "codec": "latin-1" if style == "binary" else "utf-8"}

    def execute(self, plan, out, log):
        scratch = tempfile.mkdtemp(prefix="run-", dir=PYCACHE)
        try:
            self.compare(plan, out, log, scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)

    def compare(self, plan, out, log, scratch):
        results = []
        todo = []
        share = max(1, -(-len(plan["history"]) // max(1, len(plan["processes"]))))
        for k, p in enumerate(plan["processes"]):
            todo.append({"calls": plan["calls"], "noise": plan["noise"] if "noise" in p else [], "process": p,
                         "history": plan["history"], "upto": [k * share, (k + 1) * share], "tok": plan["tok"],
                         "codec": plan["codec"], "db": os.path.join(scratch, "store.db"), "scratch": scratch})
        kids = []
        for job in todo:
            kid = spawn(job, wait=bool(plan["history"]))
            kids.append(kid)
        for kid, job in zip(kids, todo):
            results.append(collect(kid))
        reference = results[0]
        for k, (p, r) in enumerate(zip(plan["processes"], results)):
            out.add("processes")
            out.add("fault:other_hash_seed", p["hash"] != 0)
            out.add("fault:gc_threshold", "gc" in p)
            out.add("fault:earlier_calls", "noise" in p)
            out.add("fault:other_clock", "clock" in p)
            out.add("fault:other_order", "order" in p)
            out.add("fault:other_setting", "setting" in p or "around" in p or "malloc" in p or "optimize" in p)
            out.states.add(digest([p["hash"], p.get("gc"), p.get("noise")]))
            for c, (got, want) in enumerate(zip(r["answers"], reference["answers"])):
                if got != want and not deep(got, want):
                    raise Violation("differs", f"process {p} answers {describe(plan['calls'][c])} otherwise than process {plan['processes'][0]}: {first_difference(got, want)}")
            if r["store"] is not None:
                raise Violation("store", f"process {k} {p}: {r['store']}")
        out.add("calls_compared", len(plan["calls"]) * (len(results) - 1))
        log.add([digest(a) for a in reference["answers"]])
        out.nontrivial = len(plan["calls"]) > 1

    def simpler(self, plan):
        for k in range(1, len(plan["processes"])):
            if len(plan["processes"]) > 2:
                cand = copy.deepcopy(plan)
                del cand["processes"][k]
                yield cand
            for key in list(plan["processes"][k]):
                if key != "hash":
                    cand = copy.deepcopy(plan)
                    del cand["processes"][k][key]
                    yield cand
        for i, c in enumerate(plan["calls"]):
            for small in calls.shrink(c):
                cand = copy.deepcopy(plan)
                cand["calls"][i] = small
                yield cand


def spawn(job, wait):
    p = job["process"]
    env = {"PYTHONHASHSEED": str(p["hash"]), "PATH": "/usr/bin:/bin", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONNOUSERSITE": "1",
           "PYTHONPYCACHEPREFIX": PYCACHE or "/nonexistent/pycache", "GASPRA_REPO": REPO}
    if PYCACHE:
        del env["PYTHONDONTWRITEBYTECODE"]
    if "malloc" in p:
        env["PYTHONMALLOC"] = p["malloc"]
    cwd = "/"
    if "setting" in p:
        import random

        r = random.Random(p["setting"])
        env.update({"TZ": r.choice(("UTC", "Asia/Tokyo", "America/New_York")), "LANG": r.choice(("C", "C.UTF-8", "de_DE.UTF-8")), "PYTHONUTF8": r.choice(("0", "1")),
                    "HOME": job["scratch"], "COLUMNS": str(r.choice((20, 80, 200)))})
        cwd = r.choice(("/", job["scratch"]))
    kid = subprocess.Popen([sys.executable, *(["-O"] if p.get("optimize") else []), os.path.join(VERIF, "sim", "process.py")],
                           stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd)
    if wait:
        kid.answer = kid.communicate(json.dumps(job).encode())
    else:
        kid.stdin.write(json.dumps(job).encode())
        kid.stdin.close()
        kid.stdin = None
        kid.answer = None
    return kid


def collect(kid):
    data, err = kid.answer or kid.communicate()
    if kid.returncode != 0 or not data:
        raise HarnessError(f"process ended with {kid.returncode}: {err.decode(errors='replace')[-1500:]}")
    return json.loads(data)


PROPS = {c.id: c for c in (T01, T02, T03)}
