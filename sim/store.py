"""Storage environment for the version store under simulation.

Everything above SQLite is gaspra's real code; SQLite is real; the disk below
it is sim.disk.  The seams used are the ones gaspra already has: the
connection_factory arguments, the caller-supplied mappings of Versions, and
SQLite's own VFS interface.
"""

from __future__ import annotations

import collections.abc
import sqlite3

from sim import disk as simdisk
from sim import instrument
from sim.core import HarnessError, Violation

DISK = simdisk.DISK

FAULT_EXCEPTIONS = {
    "locked": lambda: sqlite3.OperationalError("database is locked"),
    "ioerr": lambda: sqlite3.OperationalError("disk I/O error"),
    "nomem": lambda: MemoryError(),
    "interrupt": lambda: KeyboardInterrupt(),
    "timeout": lambda: TimeoutError("simulated storage timeout"),
    "oserror": lambda: OSError(5, "simulated storage error"),
}


class Hooks:
    """Statement- and mapping-level events of the current operation."""

    def __init__(self):
        self.inert = False
        self.reset()
        self.yield_hook = None  # scheduler entry for multi-client runs
        self.gc_hook = None  # finalise an abandoned iterator

    def reset(self):
        self.stmt = 0
        self.maps = 0
        self.code = 0
        self.trace = []  # "s" statement, "c" commit: what happened at each index
        self.places = {}  # place in gaspra's code -> when it was first and last reached
        self.faults = []
        self.fired = []

    def begin(self, faults=()):
        self.reset()
        self.faults = [dict(f) for f in faults if "stmt" in f or "map" in f or "code" in f]

    def fire(self, fault):
        self.fired.append(fault)
        if "freeze" in fault:  # from here on nothing can be written
            DISK.frozen = fault["freeze"]
            DISK.count(DISK.frozen + "_mid_operation")
            return
        DISK.count(f"{fault['where']}_{fault['exc']}")
        raise FAULT_EXCEPTIONS[fault["exc"]]()

    def code_event(self, place):
        """One of the places that sim.instrument added to gaspra's code."""
        n = self.code
        self.code += 1
        for fault in self.faults:
            if fault.get("code") == n:
                self.faults.remove(fault)
                self.fire(fault)

    def code_record(self, place):
        if place in self.places:
            self.places[place][1] = self.code
        else:
            self.places[place] = [self.code, self.code]
        self.code += 1

    def event(self, counter, where):
        n = self.stmt if counter == "stmt" else self.maps
        for fault in self.faults:
            if fault.get(counter) == n and fault["where"] == where:
                self.faults.remove(fault)
                if fault["exc"] == "gc":
                    self.fired.append(fault)
                    if self.gc_hook and self.gc_hook():
                        DISK.count("iterator_finalised_mid_operation")
                    return
                if fault.get("n", 1) > 1:
                    again = dict(fault)
                    again["n"] -= 1
                    again[counter] = n + 1
                    self.faults.append(again)
                self.fire(fault)


HOOKS = Hooks()

READ_ONLY = ("SELECT", "PRAGMA", "WITH", "EXPLAIN")


class SimCursor(sqlite3.Cursor):
    def _run(self, call, sql, *args):
        if HOOKS.inert and not sql.lstrip().upper().startswith(READ_ONLY):
            return super().execute("SELECT 1 WHERE 0")
        if HOOKS.yield_hook:
            HOOKS.yield_hook("statement")
        HOOKS.event("stmt", "before")
        result = call(sql, *args)
        HOOKS.event("stmt", "after")
        HOOKS.stmt += 1
        HOOKS.trace.append("s")
        return result

    def execute(self, sql, *args):
        return self._run(super().execute, sql, *args)

    def executemany(self, sql, *args):
        return self._run(super().executemany, sql, *args)

    def executescript(self, sql, *args):
        return self._run(super().executescript, sql, *args)


class SimConnection(sqlite3.Connection):
    """A real SQLite connection whose statement boundaries are visible."""

    def cursor(self, factory=SimCursor):
        return super().cursor(factory)

    def execute(self, sql, *args):
        return self.cursor().execute(sql, *args)

    def executemany(self, sql, *args):
        return self.cursor().executemany(sql, *args)

    def executescript(self, sql, *args):
        return self.cursor().executescript(sql, *args)

    def commit(self):
        if HOOKS.yield_hook:
            HOOKS.yield_hook("commit")
        if HOOKS.inert or not self.in_transaction:
            return super().commit()
        HOOKS.event("stmt", "pre-commit")
        super().commit()
        HOOKS.event("stmt", "post-commit")
        HOOKS.stmt += 1
        HOOKS.trace.append("c")

    def __exit__(self, kind, value, tb):
        if kind is None and HOOKS.yield_hook:
            HOOKS.yield_hook("commit")
        if kind is None and not HOOKS.inert:
            # an exception raised by the interpreter just before the commit
            try:
                HOOKS.event("stmt", "pre-commit")
            except BaseException as e:
                super().__exit__(type(e), e, None)
                raise
        result = super().__exit__(kind, value, tb)
        if kind is None and not HOOKS.inert:
            HOOKS.event("stmt", "post-commit")
            HOOKS.stmt += 1
            HOOKS.trace.append("c")
        return result


class FaultyMap(collections.abc.MutableMapping):
    """A caller-supplied mapping (say, a remote store) that can fail."""

    def __init__(self):
        self.data = {}
        self.read = set()  # keys whose values were read

    def _op(self, f):
        HOOKS.event("map", "before")
        r = f()
        HOOKS.event("map", "after")
        HOOKS.maps += 1
        return r

    def __getitem__(self, k):
        value = self._op(lambda: self.data[k])
        self.read.add(k)
        return value

    def _writable(self):
        if DISK.frozen:
            DISK.count("frozen_map")
            raise OSError(30, "simulated storage is read-only")

    def __setitem__(self, k, v):
        self._writable()
        self._op(lambda: self.data.__setitem__(k, v))

    def __delitem__(self, k):
        self._writable()
        self._op(lambda: self.data.__delitem__(k))

    def __contains__(self, k):
        return self._op(lambda: k in self.data)

    def __iter__(self):
        return iter(list(self.data))

    def __len__(self):
        return len(self.data)


def tokenizer_class(name):
    import gaspra.tokenizers as t

    return {
        "null": t.NullTokenizer,
        "char": t.CharTokenizer,
        "line": t.LineTokenizer,
        "symbol": t.SymbolTokenizer,
    }[name]


DB_STORAGE = ("db1", "db3", "dbf", "dbdefault")


class Env:
    """One simulated process with a version store in it."""

    def __init__(self, storage, tokenizer="null", tables=("heads", "diffs"), store=True, name="store"):
        self.storage = storage
        self.name = name
        self.tokenizer = tokenizer
        self.connections = {}
        self.tables = tables
        self.default_path = None
        self.iterators = []
        if store:
            self.build(False)

    # ------------------------------------------------------- connections
    def path(self, name):
        if self.default_path:
            return self.default_path
        return f"/sim/{self.name}-{name}.db" if self.storage == "dbf" else f"/sim/{self.name}.db"

    def factory(self, name):
        slot = name if self.storage in ("db3", "dbf") else "all"

        def connection_factory():
            c = self.connections.get(slot)
            if c is None:
                c = sqlite3.connect(self.path(name), factory=SimConnection)
                self.connections[slot] = c
            return c

        return connection_factory

    def drop_connections(self):
        for c in self.connections.values():
            try:
                c.close()
            except sqlite3.Error:
                pass
        self.connections = {}

    # ------------------------------------------------------------- store
    def collection(self, name):
        from gaspra.db_collections import DBCollection

        if self.storage == "dbdefault" and not self.default_path:
            return DBCollection(name)
        return DBCollection(name, self.factory(name))

    def db_tree(self):
        from gaspra.db_tree import DBTree

        if self.storage == "dbdefault" and not self.default_path:
            return DBTree()
        return DBTree(self.factory("graph"))

    def build(self, attach):
        """Make the store, or attach to what is already in the files.

        gaspra's constructors always create empty tables; to attach, the
        schema statements they issue are not passed on to SQLite.
        """
        from gaspra.memory_tree import MemoryTree
        from gaspra.versions import Versions

        HOOKS.inert = attach
        try:
            s = self.storage
            if s in DB_STORAGE:
                heads, diffs, tree = self.collection(self.tables[0]), self.collection(self.tables[1]), self.db_tree()
            elif s == "mem":
                heads, diffs, tree = {}, {}, MemoryTree()
            elif s == "map":
                heads, diffs, tree = FaultyMap(), FaultyMap(), MemoryTree()
            elif s == "mixtree":  # tree in the database, texts in memory
                heads, diffs, tree = FaultyMap(), FaultyMap(), self.db_tree()
            elif s == "mixtext":  # texts in the database, tree in memory
                heads, diffs, tree = self.collection(self.tables[0]), self.collection(self.tables[1]), MemoryTree()
            else:
                raise HarnessError(s)
            self.tree, self.heads, self.diffs = tree, heads, diffs
            self.versions = Versions(
                head_version=heads, diffs=diffs, tree=tree, tokenizer_factory=tokenizer_class(self.tokenizer)
            )
        finally:
            HOOKS.inert = False

    def restart(self, power=False, subset_seed=0):
        """Crash or clean stop of the process, then a new process."""
        self.drop_connections()
        self.iterators = []
        if self.storage == "dbdefault" and not self.default_path:
            names = [n for n in DISK.files if not n.endswith("-journal") and not n.startswith("\0")]
            if len(names) != 1:
                raise Violation("default-file", f"the default connection uses files {names}")
            self.default_path = names[0]
        DISK.restart(subset_seed, power)
        self.build(True)


class Result:
    """What an operation did: value, exception, faults that hit it, crash."""

    __slots__ = ("ok", "value", "exc", "faulted", "crashed", "kinds", "trace", "maps", "code")


def perform(f, faults=(), record=False):
    """Run one operation of the code under test with its faults armed."""
    r = Result()
    before = dict(DISK.fired)
    DISK.begin_op(faults, record)
    HOOKS.begin(faults)
    r.ok, r.value, r.exc = True, None, None
    watch = HOOKS.code_record if record else HOOKS.code_event if any("code" in x for x in faults) else None
    try:
        if watch:
            instrument.STATEMENT = instrument.EXPRESSION = watch
        try:
            r.value = f()
        finally:
            instrument.STATEMENT = instrument.EXPRESSION = None
    except (Violation, HarnessError):
        raise
    except (Exception, KeyboardInterrupt) as e:
        r.ok, r.exc = False, e
        e.__traceback__ = None
    r.faulted = DISK.fired != before and any(
        DISK.fired.get(k, 0) != before.get(k, 0) for k in DISK.fired if k not in HARMLESS
    ) or DISK.frozen is not None
    r.crashed = DISK.crashed
    r.kinds, r.trace, r.maps = DISK.op_kinds, HOOKS.trace, HOOKS.maps
    modules = {}
    effects = {}
    for place, when in HOOKS.places.items():
        module = instrument.PLACES[place][0]
        modules.setdefault(module, []).append(when)
        if place in instrument.EFFECTS:
            effects.setdefault(module, []).append(when)
    r.code = (HOOKS.code, list(modules.values()), list(effects.values()))
    DISK.end_op()
    HOOKS.begin(())
    if DISK.harness_errors:
        raise HarnessError(DISK.harness_errors[0])
    return r


HARMLESS = {"slow", "lock_wait", "iterator_finalised_mid_operation"}


def describe(r):
    if r.ok:
        v = r.value
        if isinstance(v, bytes):
            import hashlib

            return f"ok bytes[{len(v)}] {hashlib.sha1(v).hexdigest()[:8]}"
        return f"ok {v!r}"[:200]
    return f"{type(r.exc).__name__}({str(r.exc)[:80]})" + (" CRASH" if r.crashed else "")


def export_faults(out):
    for k, v in DISK.fired.items():
        out.add(f"fault:{k}", v)
    out.sim_time += DISK.now


# -------------------------------------------------------- fault placement
IO_KINDS = {
    "read_err": ("read",),
    "write_err": ("write",),
    "torn_write": ("write",),
    "full": ("write",),
    "sync_err": ("sync",),
    "delete_err": ("delete",),
    "open_err": ("open",),
    "lock_err": ("lock",),
    "ext_lock": ("lock",),
    "slow": ("read", "write", "sync", "lock"),
}


def place_io(rng, kinds, allowed):
    """A disk fault at a position where it applies, biased to the commit."""
    kind = rng.choice(allowed)
    at = [i for i, k in enumerate(kinds) if k in IO_KINDS[kind]]
    if not at:
        return None
    f = {"kind": kind, "at": rng.choice(at)}
    if rng.random() < 0.25:
        f["n"] = rng.choice((2, 3, 10, 1000000))
    if kind == "torn_write":
        f["part"] = rng.randrange(1, 8)
    if kind in ("ext_lock", "slow"):
        f["s"] = rng.choice((0.05, 1.0, 4.0, 8.0, 30.0))
    return f


def place_crash(rng, kinds):
    power = rng.random() < 0.6
    mutating = [i for i, k in enumerate(kinds) if k in ("write", "sync", "delete", "truncate")]
    if mutating and rng.random() < 0.8:
        at = rng.choice(mutating)
    else:
        at = rng.randrange(len(kinds))
    return {
        "kind": "power" if power else "crash",
        "at": at,
        "after": rng.randrange(2),
        "part": rng.randrange(0, 8),
        "survive": rng.randrange(1 << 30),
    }


def place_stmt(rng, trace, excs=("locked", "nomem", "interrupt")):
    """An exception at a statement boundary or around a commit."""
    index = rng.randrange(len(trace))
    commits = [i for i, t in enumerate(trace) if t == "c"]
    if commits and rng.random() < 0.5:
        index = rng.choice(commits)
    where = rng.choice(("before", "after") if trace[index] == "s" else ("pre-commit", "post-commit"))
    exc = rng.choice(excs)
    if exc == "locked" and where in ("after", "post-commit"):
        # What came before is done: only the word of it is lost.
        exc = rng.choice(("interrupt", "ioerr"))
    f = {"stmt": index, "where": where, "exc": exc}
    if rng.random() < 0.2:
        f["n"] = rng.randrange(2, 6)
    return f


def place_map(rng, maps):
    f = {
        "map": rng.randrange(max(1, maps)),
        "where": rng.choice(("before", "after")),
        "exc": rng.choice(("timeout", "oserror", "interrupt", "nomem")),
    }
    if rng.random() < 0.3:
        f["n"] = rng.randrange(2, 8)
    return f


def place_code(rng, code):
    """An exception anywhere in gaspra's code, often where it seldom comes by."""
    n, modules, effects = code
    if effects and rng.random() < 0.6:
        modules = effects
    at = rng.choice(rng.choice(rng.choice(modules))) if rng.random() < 0.8 else rng.randrange(n)
    return {"code": at, "where": "code", "exc": rng.choice(("interrupt", "interrupt", "nomem"))}
