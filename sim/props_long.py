"""T04: a process that goes on for long accumulates nothing."""

from __future__ import annotations

import copy
import gc
import sys

from sim import calls, instrument, texts
from sim import disk as simdisk
from sim.core import Property, Violation
from sim.props_lib import Interrupted, describe, import_all
from sim.props_store import ASSUME, REAL, STUBS, StoreProperty
from sim.store import DB_STORAGE, DISK, Env, export_faults, perform

WARM = 1100  # rounds for caches of limited size to fill
WINDOW = 160
WINDOWS = 3
AGAIN = 12  # further periods when all of these have shown growth (sqlite3 lets go of 200 cursors at a time)

LETTERS = "bcdfghjklmnpqrst"


def mark(r):
    """A short text that no other round has."""
    return "".join(LETTERS[r >> s & 15] for s in (8, 4, 0))


class Long:
    """The same few operations again and again, with other texts each time."""

    def __init__(self, plan, out, log):
        self.plan, self.out, self.log = plan, out, log
        simdisk.install()
        DISK.reset(plan["seed"])
        simdisk.reseed(plan["seed"])
        self.dropped = set()  # operations that turned out to store something

    def run(self):
        self.begin()
        for op in self.plan["ops"]:
            self.log.add(self.name(op), *(str(op[k]) for k in ("at", "n", "k", "v", "c", "size", "faults") if k in op))
        self.r = 0
        sizes = [self.period(WARM)]
        sizes += [self.period(WINDOW) for _ in range(WINDOWS)]
        if any(self.growing(sizes)):
            sizes += [self.period(WINDOW) for _ in range(AGAIN)]
        self.out.add("rounds", self.r)
        for what, grows in zip(("memory", "memory of SQLite", "open files", "room on the disk"), self.growing(sizes)):
            if grows:
                raise Violation("grows", f"repeating {self.names()} takes up more and more {what}: this grew all the time"
                                         f" in {WINDOWS + AGAIN} periods of {WINDOW} rounds, after {WARM} rounds for caches to fill")
        self.out.add("probe:" + self.plan["kind"] + "_steady")
        self.out.states.add(self.names())
        self.out.nontrivial = len(self.dropped) < len(self.plan["ops"])
        export_faults(self.out)

    def period(self, rounds):
        """So many rounds, and what is in use after them."""
        for _ in range(rounds):
            for i, op in enumerate(self.plan["ops"]):
                if i not in self.dropped:
                    self.step(i, op, self.r)
            self.r += 1
        DISK.fired, fired = {}, DISK.fired
        for k, n in fired.items():
            self.out.add("fault:" + k, n)
        gc.collect()
        used = sys.getallocatedblocks(), simdisk.memory_used(), len(DISK.handles), DISK.used()
        if self.r <= WARM + WINDOW * WINDOWS:
            self.log.add("period", rounds, sorted(self.dropped), *used[2:])
        return used

    @staticmethod
    def growing(sizes):
        # Files grow by pages, so that one period may be too short to see it.
        steps = (1, 1, 1, WINDOWS)
        least = (WINDOW * 0.45, WINDOW * 16, 1, 1)
        return [min(b[k] - a[k] for a, b in zip(sizes[::step], sizes[step::step])) >= n for k, (step, n) in enumerate(zip(steps, least))]

    def names(self):
        return ", ".join(sorted({self.name(op) for i, op in enumerate(self.plan["ops"]) if i not in self.dropped}))

    def begin(self):
        pass


class LongCalls(Long):
    """Calls of the library."""

    def name(self, op):
        return op["op"] + " " + describe(op["call"])

    def step(self, i, op, r):
        call = dict(op["call"])
        m = mark(r)
        call["a"] = [s[: op["at"]] + m + s[op["at"] :] for s in call["a"]]
        kind = op["op"]
        try:
            if kind == "whole":
                for _ in calls.start(call):
                    pass
            elif kind == "some":
                it = calls.start(call)
                for _ in range(op["n"]):
                    next(it, None)
                if op["close"] and hasattr(it, "close"):
                    it.close()
                if not r:
                    self.out.add("fault:abandoned", WARM + WINDOW * WINDOWS)
            elif kind == "interrupt":
                self.interrupt(call, op["k"], r)
            else:
                bad = dict(call, f=op["f"], t="bad", a=(call["a"] * 3)[:3])
                for _ in calls.start(bad):
                    pass
        except (Violation, Interrupted):
            raise
        except Exception:
            if not r:
                self.out.add("fault:failed_call", WARM + WINDOW * WINDOWS)

    def interrupt(self, call, k, r):
        count = [0]

        def point(place):
            count[0] += 1
            if count[0] == k:
                raise Interrupted()

        instrument.STATEMENT = instrument.EXPRESSION = point
        try:
            for _ in calls.start(call):
                pass
        except Interrupted:
            if not r:
                self.out.add("fault:interrupt", WARM + WINDOW * WINDOWS)
        finally:
            instrument.STATEMENT = instrument.EXPRESSION = None


class LongStore(Long):
    """A version store that is read, refuses and fails."""

    def name(self, op):
        return op["op"] + " on a version store in " + self.plan["storage"] + (" (failing)" if op.get("faults") else "")

    def begin(self):
        self.env = Env(self.plan["storage"], self.plan["tokenizer"])
        self.known = []
        for n, (data, base) in enumerate(self.plan["versions"]):
            args = (f"v{base}", ) if base is not None else ()
            r = perform(lambda: self.env.versions.add(f"v{n}", data.encode("utf-8", "replace"), *args))
            if not r.ok:
                raise Violation("operation-fails", f"adding a version failed: {r.exc!r}"[:200])
            self.known.append(f"v{n}")
        if any(op["op"].startswith("manifest") for op in self.plan["ops"]):
            r = perform(lambda: self.env.versions.add("m", b'{"a":"v0",\n"b":"v0"}'))
            if not r.ok:
                raise Violation("operation-fails", f"adding a version failed: {r.exc!r}"[:200])

    def step(self, i, op, r):
        from gaspra import manifest

        v, kind = self.env.versions, op["op"]
        tag = self.known[op["v"] % len(self.known)]
        new = "n" + mark(r)
        if kind == "get":
            f = lambda: v.get(tag)  # noqa: E731
        elif kind == "info":
            f = lambda: v.version_info(tag)  # noqa: E731
        elif kind == "path":
            f = lambda: self.env.tree.path_to(tag)  # noqa: E731
        elif kind == "missing":
            f = lambda: v.get(new)  # noqa: E731
        elif kind == "again":
            f = lambda: v.add(tag, new.encode())  # noqa: E731
        elif kind == "bad_base":
            f = lambda: v.add(new, b"abc", new + "x")  # noqa: E731
        elif kind == "add":
            # what a failed addition may leave is found by the next one
            f = lambda: v.add("tried again and again", op["data"].encode("utf-8", "replace") + new.encode(), tag)  # noqa: E731
        elif kind == "manifest":
            f = lambda: manifest.get_manifest(v, "m")  # noqa: E731
        elif kind == "manifest_again":
            f = lambda: manifest.add_manifest("m", {new: tag}, v, {}, "m")  # noqa: E731
        elif kind == "manifest_without":
            f = lambda: manifest.add_manifest(new, {new: new + "x", "a": tag}, v, {"y": b""}, "m")  # noqa: E731
        elif kind == "reconnect":
            self.env.drop_connections()
            self.env.build(True)
            return
        else:  # further objects over the same storage
            self.env.build(True)
            return
        got = perform(f, op.get("faults", ()))
        if kind == "add" and (got.ok or not got.faulted):
            self.dropped.add(i)


class LongCollection(Long):
    """Collections whose entries come and go."""

    def name(self, op):
        return op["op"] + " on a collection" + (" (failing)" if op.get("faults") else "")

    def begin(self):
        self.env = Env(self.plan["storage"], store=False)
        self.names_ = ["one", "two"]
        self.c = [self.env.collection(n) for n in self.names_]
        for c in self.c:
            for k in range(self.plan["entries"]):
                c[f"k{k}"] = b"x" * (k * 37 % 200)

    def step(self, i, op, r):
        c, kind = self.c[op["c"]], op["op"]
        new = "n" + mark(r)
        size = op["size"]
        faults = op.get("faults", ())
        if kind == "come_and_go":
            perform(lambda: c.__setitem__(new, new.encode() * size))
            perform(lambda: c.__delitem__(new))
        elif kind == "set":
            perform(lambda: c.__setitem__("same", new.encode() * size))
        elif kind == "failing_set":
            perform(lambda: c.__setitem__("same", new.encode() * size), faults)
        elif kind == "failing_del":
            perform(lambda: c.__setitem__("gone", new.encode() * size))
            perform(lambda: c.__delitem__("gone"), faults)
        elif kind == "failing_new":
            got = perform(lambda: c.__setitem__(new, new.encode() * size), faults)
            if got.ok or not got.faulted:
                self.dropped.add(i)
        elif kind == "missing":
            perform(lambda: c[new])
            perform(lambda: c.__delitem__(new))
            perform(lambda: new in c)
        elif kind == "get":
            perform(lambda: [c[k] for k in ("k0", "k1") if k in c])
        elif kind == "iterate":
            perform(lambda: list(c))
        elif kind == "some":
            def f():
                it = iter(c)
                for _ in range(op["n"]):
                    next(it, None)
                if op["close"] and hasattr(it, "close"):
                    it.close()

            perform(f)
        elif kind == "len":
            perform(lambda: len(c))
        elif kind == "object":
            self.env.collection(self.names_[op["c"]])
        elif kind == "reconnect":
            del c
            self.c = []
            self.env.drop_connections()
            self.c = [self.env.collection(n) for n in self.names_]


STORE_OPS = ("get", "get", "get", "info", "path", "missing", "again", "bad_base", "add", "add", "objects", "reconnect",
             "manifest", "manifest_again", "manifest_without")
COLLECTION_OPS = ("come_and_go", "come_and_go", "set", "failing_set", "failing_del", "failing_new", "missing", "get",
                  "iterate", "some", "len", "object", "reconnect")


class T04(Property):
    id = "T04"
    quick = (2000, 60.0)
    lists = ("ops",)
    rule = "runs of at least one operation that is repeated some 1,600 times, with distinct operations"
    real = REAL
    stubs = STUBS + ["interrupts (raised at places that sim.instrument adds to gaspra's code as it is imported)"]
    assumptions = ASSUME + [f"Caches of at most {WARM} entries are not an accumulation.",
                            "Memory is counted in blocks of the interpreter's small-object allocator and in bytes that SQLite has allocated."]
    states_measure = "distinct combinations of repeated operations"

    def prepare(self):
        import_all()
        StoreProperty.prepare(self)

    def generate(self, rng, tier):
        kind = rng.choice(("calls",) * 3 + ("store", "store", "collection"))
        plan = {"kind": kind, "seed": rng.getrandbits(32), "ops": []}
        if kind == "calls":
            for _ in range(rng.choice((1, 2, 2))):
                call = calls.generate(rng, rng.choice((6, 14, 24)))
                op = {"op": rng.choice(("whole", "whole", "some", "interrupt", "bad")), "call": call, "at": rng.randrange(8)}
                if op["op"] == "some":
                    op.update(n=rng.choice((0, 1, 1, 2, 5)), close=rng.random() < 0.5)
                elif op["op"] == "interrupt":
                    op["k"] = rng.choice((rng.randrange(1, 30), rng.randrange(1, 300)))
                elif op["op"] == "bad":
                    op["f"] = rng.choice(calls.ALL)
                plan["ops"].append(op)
        elif kind == "store":
            plan["storage"] = rng.choice(("mem", "mem", "db1", "db1", "db3", "dbf", "map", "mixtree", "mixtext", "dbdefault"))
            plan["tokenizer"] = rng.choice(calls.TOKENIZERS)
            data = texts.fresh(rng, "lines", 60)
            plan["versions"] = []
            for n in range(rng.choice((1, 2, 4))):
                plan["versions"].append([data, n - 1 if n else None])
                data = texts.evolve(rng, data, "lines", 60)
            for _ in range(rng.choice((1, 2, 3))):
                op = {"op": rng.choice(STORE_OPS), "v": rng.randrange(4)}
                if op["op"] == "reconnect" and plan["storage"] == "dbdefault":
                    op["op"] = "objects"  # the connection is the library's
                if op["op"] in ("objects", "reconnect") and plan["storage"] not in DB_STORAGE:
                    op["op"] = "get"
                if op["op"] == "add":
                    op["data"], op["faults"] = data, self.fault(rng)
                    if plan["storage"] not in DB_STORAGE or rng.random() < 0.3:
                        op["faults"] = self.interrupt(rng)
                elif op["op"] in ("get", "info", "path", "missing", "bad_base", "again") and rng.random() < 0.3:
                    op["faults"] = self.interrupt(rng)
                plan["ops"].append(op)
        else:
            plan["storage"] = rng.choice(("db1", "db1", "db3", "dbf", "dbdefault"))
            plan["entries"] = rng.choice((0, 2, 8, 30))
            for _ in range(rng.choice((1, 2, 3))):
                op = {"op": rng.choice(COLLECTION_OPS), "c": rng.randrange(2), "size": rng.choice((0, 1, 10, 300))}
                if op["op"] == "reconnect" and plan["storage"] == "dbdefault":
                    op["op"] = "object"
                if op["op"].startswith("failing"):
                    op["faults"] = self.fault(rng)
                elif op["op"] == "some":
                    op.update(n=rng.choice((0, 1, 1, 3)), close=rng.random() < 0.5)
                plan["ops"].append(op)
        return plan

    def interrupt(self, rng):
        return [{"code": rng.choice((rng.randrange(12), rng.randrange(150))), "where": "code", "exc": rng.choice(("interrupt", "nomem"))}]

    def fault(self, rng):
        if rng.random() < 0.5:
            return [{"stmt": rng.choice((0, 0, 1, 2, rng.randrange(20))), "where": "before", "exc": rng.choice(("locked", "nomem", "interrupt"))}]
        return [{"at": rng.choice((rng.randrange(12), rng.randrange(60))), "kind": rng.choice(("write_err", "full", "sync_err", "lock_err", "read_err"))}]

    def simpler(self, plan):
        for i, op in enumerate(plan["ops"]):
            if op["op"] == "interrupt" or op["op"] == "some":
                cand = copy.deepcopy(plan)
                cand["ops"][i]["op"] = "whole"
                yield cand
        if plan["kind"] == "store" and len(plan["versions"]) > 1:
            cand = copy.deepcopy(plan)
            cand["versions"].pop()
            yield cand

    def execute(self, plan, out, log):
        log.add(plan["kind"])
        {"calls": LongCalls, "store": LongStore, "collection": LongCollection}[plan["kind"]](plan, out, log).run()


PROPS = {"T04": T04}
