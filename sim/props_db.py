"""D01, D02, D05 (collections), D03 (tree) and Z01 (stored deltas)."""

from __future__ import annotations

import copy
import gc
import hashlib
import sqlite3

from sim import disk as simdisk
from sim import texts
from sim.core import HarnessError, Property, Violation, simpler_texts
from sim.props_store import ASSUME, IO_ALL, StoreProperty, short
from sim.store import (
    DISK,
    HOOKS,
    Env,
    SimConnection,
    describe,
    export_faults,
    perform,
    place_code,
    place_crash,
    place_io,
    place_stmt,
)

NAMES = ["heads", "diffs", "a", "a2", "b", "graph2", "t_1", "t_10", "data", "tag", "main_x", "Select1"]
REAL = ["gaspra.db_collections", "gaspra.db_connections", "SQLite 3.45 library and Python's sqlite3 module (pager, journal, locks)"]
STUBS = ["disk, file locks and clock below SQLite (sim.disk, a VFS)"]


def keys(rng, n):
    pool = ["", "a", "A", " a", "a ", "0", "00", "1", "1.0", "1e0", "NULL", "null", "'", "''", '"', "%", "_", "é", "e\u0301", "漢",
            "\n", "a\n", "x" * 300, "\U0001f600", "tag", "data", "?", "; DROP TABLE a", "-1", "a\u0000b", "a\u0000"]
    rng.shuffle(pool)
    out = pool[: max(1, n // 2)]
    while len(out) < n:
        out.append(f"k{len(out)}")
    return out[:n]


def value(rng):
    r = rng.random()
    if r < 0.1:
        return ""
    if r < 0.75:
        return texts.piece(rng, rng.choice(("ab", "words", "binary")), rng.randrange(1, 40))
    if r < 0.95:
        return texts.piece(rng, "binary", rng.randrange(40, 3000))
    return texts.piece(rng, "words", 9) * rng.choice((500, 1000, 8000))


class CollectionRun:
    """Collections against dicts; one plan."""

    def __init__(self, plan, out, log):
        self.plan, self.out, self.log = plan, out, log
        simdisk.reseed(plan.get("seed", 0))
        self.env = Env(plan["storage"], store=False)
        self.env.build = self.attach
        self.real = {}
        self.model = {}
        self.feedback = []
        for name in plan["names"]:
            self.create(name)

    def create(self, name):
        r = perform(lambda: self.env.collection(name))
        if not r.ok:
            raise Violation("operation-fails", f"making collection {name} failed: {describe(r)}")
        self.real[name] = r.value
        self.model[name] = {}

    def attach(self, _attach):
        HOOKS.inert = True
        try:
            for name in self.real:
                self.real[name] = self.env.collection(name)
        finally:
            HOOKS.inert = False

    # ------------------------------------------------------------- reading
    def contents(self, name, when, through=None):
        c = self.real[name] if through is None else through

        def read():
            listed = list(c)
            return listed, {k: c[k] for k in listed}, len(c)

        r = perform(read)
        if not r.ok:
            raise Violation("operation-fails", f"reading all of {name} failed {when}: {describe(r)}")
        listed, found, n = r.value
        if len(listed) != len(found) or n != len(listed):
            raise Violation("mapping", f"{name} lists {len(listed)} keys, {len(found)} different ones, and says it holds {n} {when}")
        for k, v in found.items():
            if type(v) is not bytes:
                raise Violation("mapping", f"{name}[{k!r}] is {type(v).__name__} {when}")
        return found

    def audit(self, when):
        for name in sorted(self.real):
            found = self.contents(name, when)
            want = self.model[name]
            if found != want:
                raise Violation("wrong-content", difference(name, found, want, when))
            for k in self.plan["keys"]:
                r = perform(lambda: (k in self.real[name], self.real[name].get(k) if hasattr(self.real[name], "get") else want.get(k)))
                if not r.ok or r.value != (k in want, want.get(k)):
                    raise Violation("mapping", f"{k!r} in {name} answers {describe(r)} {when}")
        self.note()

    def note(self):
        self.out.states.add(hashlib.sha1(repr([(n, sorted((k, len(v)) for k, v in d.items())) for n, d in sorted(self.model.items())]).encode()).hexdigest()[:16])

    def restart(self, **how):
        self.env.restart(**how)
        self.out.add("restarts")

    # ---------------------------------------------------------- operations
    def step(self, op):
        kind = op["op"]
        faults = op.get("faults", ())
        if kind == "new":
            if op["name"] not in self.real:
                self.create(op["name"])
                self.audit("after another collection was made")
            return
        if kind == "reconnect":
            if self.plan["storage"] != "dbdefault":
                self.env.drop_connections()
            return
        if kind == "restart":
            self.restart()
            return
        if kind == "audit":
            self.audit("at an audit")
            return
        name = op["name"]
        if name not in self.real:
            return
        c, m = self.real[name], self.model[name]
        k = op.get("key")
        if kind == "fill":
            for i in range(op["n"]):
                r = perform(lambda: c.__setitem__(f"{i}#", b"%d" % i))
                if not r.ok:
                    raise Violation("operation-fails", f"filling {name} failed: {describe(r)}")
                m[f"{i}#"] = b"%d" % i
            self.audit("after it was filled")
            return
        if kind == "whole":
            self.whole(op, name, c, m)
            return
        before = dict(m)
        after = dict(m)
        missing = False
        if kind == "set":
            v = op["data"].encode("latin-1")
            call = lambda: c.__setitem__(k, v)  # noqa: E731
            want = None
            after[k] = v
        elif kind == "del":
            call = lambda: c.__delitem__(k)  # noqa: E731
            want = None
            missing = k not in m
            after.pop(k, None)
        elif kind == "pop":
            call = lambda: c.pop(k)  # noqa: E731
            missing = k not in m
            want = after.pop(k, None)
        elif kind == "setdefault":
            v = op["data"].encode("latin-1")
            call = lambda: c.setdefault(k, v)  # noqa: E731
            want = after.setdefault(k, v)
        elif kind == "get":
            call = lambda: c[k]  # noqa: E731
            missing = k not in m
            want = m.get(k)
        elif kind == "get_default":
            call = lambda: c.get(k, b"default")  # noqa: E731
            want = m.get(k, b"default")
        elif kind == "in":
            call = lambda: k in c  # noqa: E731
            want = k in m
        elif kind == "len":
            call = lambda: len(c)  # noqa: E731
            want = len(m)
        elif kind == "iter":
            call = lambda: sorted(c)  # noqa: E731
            want = sorted(m)
        else:
            raise HarnessError(kind)
        r = perform(call, faults, self.plan.get("record", False))
        self.log.add(kind, name, repr(k), describe(r))
        if self.plan.get("record"):
            self.feedback.append((r.kinds, r.trace, r.maps, r.code))
        if r.crashed:
            self.out.add("probe:crash_in_" + kind)
            fault = DISK.crash_info
            self.restart(power=fault["kind"] == "power", subset_seed=fault.get("survive", 0))
        disturbed = r.faulted or r.crashed
        if r.ok:
            if missing:
                raise Violation("mapping", f"{kind} of the missing key {k!r} of {name} answered {describe(r)}")
            if kind != "set" and kind != "del" and r.value != want:
                raise Violation("mapping", f"{kind} {k!r} of {name} answered {describe(r)} instead of {short(want)}")
            self.model[name] = after
        elif isinstance(r.exc, KeyError) and not missing:
            raise Violation("mapping", f"{kind} {k!r} of {name}: KeyError although the key is there")
        elif not disturbed:
            if not (missing and isinstance(r.exc, KeyError)):
                raise Violation("operation-fails", f"{kind} {k!r} of {name} failed although storage works: {describe(r)}")
        else:
            self.out.add("probe:failed_" + kind)
        if disturbed:
            found = self.contents(name, f"after {kind} {k!r} was disturbed")
            if r.ok and found != after:
                raise Violation("lost", difference(name, found, after, f"after {kind} {k!r} returned and storage failed"))
            if found == after:
                if before != after and not r.ok:
                    self.out.add("probe:failed_but_done")
                self.model[name] = after
            elif found == before:
                self.model[name] = before
            else:
                raise Violation("half-done", difference(name, found, before, f"after {kind} {k!r} failed ({describe(r)})"))
            self.audit(f"after {kind} {k!r} was disturbed")

    def whole(self, op, name, c, m):
        """Operations of the mapping interface made of several simple ones."""
        what, k = op["what"], op["key"]
        if not hasattr(c, what) and what not in ("equal", "true"):
            return
        v = op["data"].encode("latin-1")
        if what == "pop":
            call, want = (lambda: c.pop(k, b"none")), m.pop(k, b"none")
        elif what == "setdefault":
            call, want = (lambda: c.setdefault(k, v)), m.setdefault(k, v)
        elif what == "items":
            call, want = (lambda: sorted(c.items())), sorted(m.items())
        elif what == "values":
            call, want = (lambda: sorted(c.values())), sorted(m.values())
        elif what == "update":
            more = {k: v, "other": v[::-1]}
            call, want = (lambda: c.update(more)), m.update(more)
        elif what == "keys":
            call, want = (lambda: (sorted(c.keys()), k in c.keys(), len(c.values()))), (sorted(m), k in m, len(m))
        elif what == "equal":
            call, want = (lambda: (c == dict(m), c == dict(m, other=b"?"))), (True, m.get("other") == b"?")
        elif what == "true":
            call, want = (lambda: bool(c)), bool(m)
        elif what == "popitem":
            if not m:
                r = perform(c.popitem)
                if not isinstance(r.exc, KeyError):
                    raise Violation("mapping", f"popitem of the empty {name} answered {describe(r)}")
                return
            call, want = (lambda: m.pop(c.popitem()[0], None) is None), False
        elif what == "clear":
            call, want = c.clear, m.clear()
        else:
            raise HarnessError(what)
        r = perform(call)
        self.log.add(what, name, repr(k), describe(r))
        if not r.ok or r.value != want:
            raise Violation("mapping", f"{what} {k!r} of {name} answered {describe(r)} instead of {short(want)}")
        self.audit(f"after {what} {k!r}")

    def last(self):
        """Everything in the plan has been done."""

    def run(self):
        for op in self.plan["ops"]:
            self.step(op)
            self.out.add("op:" + op["op"])
        self.last()
        self.audit("at the end")
        # what a new process finds in the files
        self.restart()
        self.audit("after a restart at the end")
        # and the collections still work
        for name in sorted(self.real):
            for k in self.plan["keys"][:2]:
                r = perform(lambda: self.real[name].__setitem__(k, b"last"))
                if not r.ok:
                    raise Violation("operation-fails", f"setting {k!r} of {name} at the end failed: {describe(r)}")
                self.model[name][k] = b"last"
        self.audit("after the last writes")
        self.out.add("storage:" + self.plan["storage"])
        export_faults(self.out)
        self.out.feedback = self.feedback
        self.out.nontrivial = len(self.plan["ops"]) >= 2


def smaller_counts(plan):
    for i, op in enumerate(plan["ops"]):
        if "n" in op:
            for n in sorted({op["n"] // 2, op["n"] * 9 // 10, op["n"] - 1}):
                if 0 < n < op["n"]:
                    cand = copy.deepcopy(plan)
                    cand["ops"][i]["n"] = n
                    yield cand


def difference(name, found, want, when):
    for k in sorted(set(found) | set(want)):
        if found.get(k) != want.get(k):
            return f"{name}[{k!r}] is {short(found.get(k))} instead of {short(want.get(k))} {when}"
    return f"{name} differs {when}"


class D01(Property):
    id = "D01"
    two_phase = True
    placements = 3
    fault_modes = ("io", "stmt")
    storages = ("db1", "db1", "db3", "dbf", "dbdefault")
    quick = (12000, 60.0)
    rule = "histories of at least two operations with distinct event traces"
    real, stubs, assumptions = REAL, STUBS, ASSUME
    states_measure = "keys and value lengths of all collections at each audit"

    def prepare(self):
        StoreProperty.prepare(self)

    def generate(self, rng, tier):
        names = rng.sample(NAMES, rng.choice((1, 2, 2, 3)))
        ks = keys(rng, rng.choice((1, 3, 6, 12)))
        ops = []
        n = rng.choice((rng.randrange(2, 8), rng.randrange(6, 25), rng.randrange(20, 60)))
        kinds = ["set"] * 8 + ["del"] * 4 + ["get"] * 3 + ["get_default", "in", "len", "iter", "pop", "setdefault"] + ["reconnect"]
        if rng.random() < 0.3:
            kinds += ["set"] * 30
        if rng.random() < 0.05:
            big = rng.choice((20, 70, 110, 140, 270, 520, 1050))
            ops.append({"op": "fill", "name": names[0], "n": big})
            ks = ks[:4] + [f"{i}#" for i in sorted({0, 1, 2, big // 2, big - 2, big - 1, *(rng.randrange(big) for _ in range(8))})]
            n = min(n, 12)
        elif rng.random() < 0.3:
            kinds += ["whole"] * 3
        few = [value(rng) for _ in range(rng.choice((1, 2, 3)))] if rng.random() < 0.4 else None  # the same values again and again
        for _ in range(n):
            kind = rng.choice(kinds)
            op = {"op": kind}
            if kind == "reconnect":
                if rng.random() < 0.4:
                    op = {"op": rng.choice(("restart", "audit"))}
                elif rng.random() < 0.4:
                    op = {"op": "new", "name": rng.choice(NAMES)}
                ops.append(op)
                continue
            op["name"] = rng.choice(names)
            if kind not in ("len", "iter"):
                op["key"] = rng.choice(ks)
            if kind in ("set", "whole", "setdefault"):
                op["data"] = rng.choice(few) if few and rng.random() < 0.8 else value(rng)
            if kind == "whole":
                op["what"] = rng.choice(("pop", "setdefault", "items", "values", "update", "popitem", "clear", "keys", "equal", "true"))
            ops.append(op)
        return {"storage": rng.choice(self.storages), "names": names, "keys": ks, "ops": ops, "record": True}

    def place(self, plan, feedback, rng):
        plan.pop("record", None)
        targets = [i for i, op in enumerate(plan["ops"]) if op["op"] in ("set", "del", "get", "get_default", "in", "len", "iter", "pop", "setdefault")]
        placed = 0
        for _ in range(rng.choice((1, 1, 2, 3, 4))):
            if not targets:
                return None
            writes = [i for i in targets if plan["ops"][i]["op"] in ("set", "del", "pop", "setdefault")]
            i = rng.choice(writes) if writes and rng.random() < 0.85 else rng.choice(targets)
            kinds, trace, _, code = feedback[targets.index(i)]
            modes = [m for m in self.fault_modes if (trace if m == "stmt" else code[0] if m == "code" else kinds)]
            if not modes:
                continue
            mode = rng.choice(modes)
            if mode == "io":
                f = place_io(rng, kinds, IO_ALL)
            elif mode == "crash":
                f = place_crash(rng, kinds)
            elif mode == "code":
                f = place_code(rng, code)
            else:
                f = place_stmt(rng, trace)
            if f:
                plan["ops"][i].setdefault("faults", []).append(f)
                placed += 1
        return plan if placed else None

    def simpler(self, plan):
        if plan["storage"] != "db1" and "db1" in self.storages:
            yield dict(copy.deepcopy(plan), storage="db1")
        for x in list(plan["names"]):
            if len(plan["names"]) > 1:
                cand = copy.deepcopy(plan)
                cand["names"].remove(x)
                cand["ops"] = [o for o in cand["ops"] if o.get("name") != x]
                yield cand
        for k in plan["keys"]:
            if len(plan["keys"]) > 1 and not any(o.get("key") == k for o in plan["ops"]):
                yield dict(copy.deepcopy(plan), keys=[x for x in plan["keys"] if x != k])
        yield from smaller_counts(plan)
        yield from simpler_texts(plan)

    def execute(self, plan, out, log):
        log.add(plan["storage"], plan["names"])
        CollectionRun(plan, out, log).run()


class D02(D01):
    id = "D02"
    fault_modes = ("crash",)
    storages = ("db1", "db1", "db3", "dbf", "dbdefault", "dbdefault")
    quick = (12000, 60.0)


# -------------------------------------------------------------------- D05
class IterRun:
    """Iterators open across operations of two clients on one file."""

    def __init__(self, plan, out, log):
        self.plan, self.out, self.log = plan, out, log
        simdisk.reseed(plan.get("seed", 0))
        self.conns = {}
        self.c = {}
        from gaspra.db_collections import DBCollection

        for client in (0, 1):
            HOOKS.inert = client == 1
            for name in plan["names"]:
                self.c[client, name] = DBCollection(name, self.factory(client))
            HOOKS.inert = False
        HOOKS.inert = True
        self.observer = {name: DBCollection(name, self.factory(2)) for name in plan["names"]}
        HOOKS.inert = False
        self.model = {name: {} for name in plan["names"]}
        self.iters = {}
        self.garbage = []
        self.feedback = []
        self.notes = []
        if any(o["op"] == "work" for o in plan["ops"]):
            with self.factory(0)() as connection:
                connection.execute("CREATE TABLE notes (note TEXT)")
        self.guest = None
        if any(o["op"] == "tree" for o in plan["ops"]):
            self.guest = Guest(self)

    def factory(self, client):
        def connection_factory():
            if client not in self.conns:
                self.conns[client] = sqlite3.connect("/sim/store.db", factory=SimConnection)
            return self.conns[client]

        return connection_factory

    def changed(self, name):
        """Every open iterator learns which keys are there now."""
        now = set(self.model[name])
        for it in self.iters.values():
            if it["name"] == name:
                it["ever"] |= now
                it["always"] &= now
                it["pairs"] |= set(self.model[name].items())

    def finalise(self):
        """An abandoned iterator is finalised now (garbage collection)."""
        if not self.garbage:
            return False
        it = self.garbage.pop(0)
        it.close()
        return True

    def audit(self, when):
        for name in self.plan["names"]:
            c = self.observer[name]
            r = perform(lambda: {k: c[k] for k in list(c)})
            if not r.ok:
                raise Violation("blocked", f"another client cannot read {name} {when}: {describe(r)}")
            if r.value != self.model[name]:
                raise Violation("undone", difference(name, r.value, self.model[name], when + " as seen by another client"))
        if self.guest:
            self.guest.audit(when)

    def work(self, op):
        """The user's own transaction on the connection, in their own table."""
        connection = self.factory(op["client"])()
        mine = [f"{len(self.notes)}.{i}" for i in range(op["n"])]

        def transaction():
            with connection:
                for note in mine:
                    connection.execute("INSERT INTO notes VALUES (?)", (note,))
                if op["undo"]:
                    raise LookupError("the user changed their mind")

        HOOKS.gc_hook = self.finalise
        r = perform(transaction, op.get("faults", ()), self.plan.get("record", False))
        HOOKS.gc_hook = None
        self.log.add("work", op["client"], describe(r))
        if self.plan.get("record"):
            self.feedback.append((r.kinds, r.trace, r.maps))
        if r.ok == op["undo"] or not r.ok and not isinstance(r.exc, LookupError):
            raise Violation("blocked" if "locked" in str(r.exc) else "operation-fails", f"a transaction of client {op['client']} ended with {describe(r)} while iterators were open")
        if r.ok:
            self.notes += mine
        with self.factory(2)() as connection:
            found = [row[0] for row in connection.execute("SELECT note FROM notes ORDER BY rowid").fetchall()]
        if found != self.notes:
            raise Violation("undone", f"after a transaction of client {op['client']} that was {'undone' if op['undo'] else 'committed'} its table holds {len(found)} rows instead of {len(self.notes)}")

    def step(self, op):
        kind = op["op"]
        if kind == "work":
            self.work(op)
        elif kind == "tree":
            self.guest.step(op)
        elif kind in ("set", "del", "get"):
            name, k = op["name"], op["key"]
            c, m = self.c[op["client"], name], self.model[name]
            if kind == "set":
                v = op["data"].encode("latin-1")
                call = lambda: c.__setitem__(k, v)  # noqa: E731
            elif kind == "del":
                call = lambda: c.__delitem__(k)  # noqa: E731
            else:
                call = lambda: c[k]  # noqa: E731
            missing = kind != "set" and k not in m
            HOOKS.gc_hook = self.finalise
            r = perform(call, op.get("faults", ()), self.plan.get("record", False))
            HOOKS.gc_hook = None
            self.log.add(kind, op["client"], name, repr(k), describe(r))
            if self.plan.get("record"):
                self.feedback.append((r.kinds, r.trace, r.maps))
            if not r.ok:
                if not (missing and isinstance(r.exc, KeyError)):
                    kind2 = "blocked" if "locked" in str(r.exc) else "operation-fails"
                    raise Violation(kind2, f"client {op['client']}: {kind} {k!r} of {name} failed while iterators were open: {describe(r)}")
            elif missing or (kind == "get" and r.value != m[k]):
                raise Violation("mapping", f"{kind} {k!r} of {name} answered {describe(r)}")
            elif kind == "set":
                m[k] = v
            elif kind == "del":
                del m[k]
            self.changed(name)
            if self.plan.get("audits", True):
                self.audit(f"after {kind} {k!r} by client {op['client']}")
        elif kind == "fill":
            name = op["name"]
            c, m = self.c[op["client"], name], self.model[name]
            for i in range(op["n"]):
                r = perform(lambda: c.__setitem__(f"{i}#", b"%d" % i))
                if not r.ok:
                    raise Violation("blocked" if "locked" in str(r.exc) else "operation-fails", f"client {op['client']}: filling {name} failed: {describe(r)}")
                m[f"{i}#"] = b"%d" % i
                self.changed(name)
            self.audit(f"after {name} was filled")
        elif kind == "open":
            name = op["name"]
            now = set(self.model[name])
            how = op.get("how")
            it = {"name": name, "ever": set(now), "always": set(now), "got": [], "done": False, "how": how,
                  "pairs": set(self.model[name].items())}
            c = self.c[op["client"], name]
            r = perform(lambda: iter(c.items() if how == "items" else c.keys() if how == "keys" else c))
            self.out.add("iterations_over_" + (how or "collection"))
            if not r.ok:
                raise Violation("operation-fails", f"iterating over {name} failed: {describe(r)}")
            it["it"] = r.value
            self.iters[op["id"]] = it
        elif kind == "step":
            it = self.iters.get(op["id"])
            if it is None or it["done"]:
                return
            for _ in range(op["n"]):
                r = perform(lambda: next(it["it"], StopIteration))
                if not r.ok:
                    if it["how"] == "items" and isinstance(r.exc, KeyError) and r.exc.args and r.exc.args[0] in it["ever"] - set(self.model[it["name"]]):
                        # what items() of any mapping does with a key that is deleted before its turn
                        self.out.add("iterations_ended_by_a_deletion")
                        it["done"] = True
                        break
                    raise Violation("operation-fails", f"an iteration over {it['name']} failed: {describe(r)}")
                if it["how"] == "items" and r.value is not StopIteration:
                    if r.value not in it["pairs"]:
                        raise Violation("ghost", f"an iteration over the items of {it['name']} gave {r.value!r}, never there meanwhile")
                    r.value = r.value[0]
                if r.value is StopIteration:
                    it["done"] = True
                    lost = it["always"] - set(it["got"])
                    self.log.add("end", op["id"], len(it["got"]))
                    self.out.add("iterations_completed")
                    if lost:
                        raise Violation("missed", f"an iteration over {it['name']} missed {sorted(lost)[0]!r}, present throughout")
                    break
                self.log.add("yield", op["id"], repr(r.value))
                if r.value in it["got"]:
                    raise Violation("twice", f"an iteration over {it['name']} gave {r.value!r} twice")
                if r.value not in it["ever"]:
                    raise Violation("ghost", f"an iteration over {it['name']} gave {r.value!r}, never there meanwhile")
                it["got"].append(r.value)
            if self.iters and not it["done"]:
                self.out.add("iterations_suspended")
        elif kind in ("close", "drop", "abandon"):
            it = self.iters.pop(op["id"], None)
            if it is None:
                return
            self.out.add("iterations_" + kind)
            if kind == "close":
                if hasattr(it["it"], "close"):
                    r = perform(it["it"].close)
                    if not r.ok:
                        raise Violation("operation-fails", f"closing an iteration failed: {describe(r)}")
            elif kind == "drop":
                del it["it"]
                gc.collect()
            elif hasattr(it["it"], "close"):
                self.garbage.append(it.pop("it"))
            self.audit(f"after an iteration was {kind}ed")
        elif kind == "collect":
            while self.finalise():
                self.out.add("iterations_collected")
            self.audit("after abandoned iterations were finalised")
        else:
            raise HarnessError(kind)

    def run(self):
        for op in self.plan["ops"]:
            self.step(op)
            self.out.add("op:" + op["op"])
            self.out.states.add(hashlib.sha1(repr((sorted((n, len(m)) for n, m in self.model.items()), sorted((i, len(x["got"]), x["done"]) for i, x in self.iters.items()))).encode()).hexdigest()[:16])
        for i in list(self.iters):
            self.step({"op": "step", "id": i, "n": 10000})
        self.step({"op": "collect"})
        self.audit("at the end")
        export_faults(self.out)
        self.out.feedback = self.feedback
        self.out.nontrivial = any(o["op"] == "open" for o in self.plan["ops"])


DISTURBED = ("set", "del", "get", "work", "tree")


class D05(Property):
    id = "D05"
    two_phase = True
    placements = 2
    quick = (12000, 60.0)
    rule = "histories with at least one iteration and distinct event traces"
    real, stubs, assumptions = REAL, STUBS, ASSUME
    states_measure = "sizes of the collections and progress of every open iteration after each step"

    def prepare(self):
        StoreProperty.prepare(self)

    def generate(self, rng, tier):
        names = rng.sample(NAMES, rng.choice((1, 1, 2)))
        ks = keys(rng, rng.choice((3, 6, 12, 30)))
        ops = []
        for k in ks[: rng.randrange(len(ks) + 1)]:
            ops.append({"op": "set", "client": 0, "name": rng.choice(names), "key": k, "data": value(rng)[:50]})
        if rng.random() < 0.05:
            n = rng.choice((20, 70, 110, 140, 270, 520, 1050))
            ops.append({"op": "fill", "client": rng.choice((0, 1)), "name": rng.choice(names), "n": n})
            ks = ks[:6] + [f"{i}#" for i in sorted({0, 1, 2, n // 2, n - 2, n - 1, *(rng.randrange(n) for _ in range(8))})]
        n_iter = 0
        live = []
        others = rng.choice((0.0, 0.0, 0.1, 0.4))
        for _ in range(rng.choice((rng.randrange(3, 15), rng.randrange(10, 50)))):
            r = rng.random()
            if r < 0.15:
                ops.append({"op": "open", "client": rng.choice((0, 0, 1)), "name": rng.choice(names), "id": n_iter})
                how = rng.choice((None, None, "items", "keys"))
                if how:
                    ops[-1]["how"] = how
                live.append(n_iter)
                if rng.random() < 0.8:
                    ops.append({"op": "step", "id": n_iter, "n": rng.choice((1, 1, 2, 5))})
                n_iter += 1
            elif r < 0.4 and live:
                ops.append({"op": "step", "id": rng.choice(live), "n": rng.choice((1, 1, 2, 4, 100, 200, 600))})
            elif r < 0.52 and live:
                i = live.pop(rng.randrange(len(live)))
                ops.append({"op": rng.choice(("close", "drop", "abandon", "abandon")), "id": i})
            elif r < 0.54:
                ops.append({"op": "collect"})
            else:
                kind = rng.choice(("set", "set", "del", "del", "get"))
                op = {"op": kind, "client": rng.choice((0, 0, 1)), "name": rng.choice(names), "key": rng.choice(ks)}
                if kind == "set":
                    op["data"] = value(rng)[:200]
                if rng.random() < others:
                    op = {"op": "work", "client": op["client"], "n": rng.randrange(1, 5), "undo": rng.random() < 0.6}
                elif rng.random() < others:
                    op = {"op": "tree", "fork": rng.random() < 0.15}
                ops.append(op)
        return {"names": names, "ops": ops, "record": True}

    def place(self, plan, feedback, rng):
        plan.pop("record", None)
        ops = plan["ops"]
        targets = [i for i, op in enumerate(ops) if op["op"] in DISTURBED]
        # finalise an abandoned iterator inside a later operation
        pairs = [(i, j) for j in targets for i, op in enumerate(ops[:j]) if op["op"] == "abandon" and not any(o["op"] == "collect" for o in ops[i:j])]
        if not pairs:
            return None
        placed = 0
        for _ in range(rng.choice((1, 2, 3))):
            _, j = rng.choice(pairs)
            parts = feedback[targets.index(j)]
            part = rng.randrange(len(parts)) if ops[j]["op"] == "tree" and parts else 0
            trace = parts[part] if ops[j]["op"] == "tree" and parts else parts[1] if len(parts) > 1 else ()
            if not trace:
                continue
            index = rng.randrange(len(trace))
            where = rng.choice(("before", "after") if trace[index] == "s" else ("pre-commit", "post-commit"))
            fault = {"stmt": index, "where": where, "exc": "gc"}
            if ops[j]["op"] == "tree":
                steps = ops[j].setdefault("steps", [[], [], [], []])
                steps[part].append(fault)
                later = [i for i in range(index, len(trace)) if trace[i] == "s" and i > index]
                if later and rng.random() < 0.7:
                    # ... and then the operation itself comes to nothing.
                    steps[part].append({"stmt": rng.choice(later), "where": "before", "exc": rng.choice(("locked", "nomem"))})
            else:
                ops[j].setdefault("faults", []).append(fault)
            placed += 1
        return plan if placed else None

    def simpler(self, plan):
        yield from smaller_counts(plan)
        yield from simpler_texts(plan)

    def valid(self, plan):
        return True

    def execute(self, plan, out, log):
        IterRun(plan, out, log).run()


# -------------------------------------------------------------------- D03
class TreeRun:
    def __init__(self, plan, out, log):
        from gaspra.memory_tree import MemoryTree

        self.plan, self.out, self.log = plan, out, log
        simdisk.reseed(plan.get("seed", 0))
        self.env = Env(plan["storage"], store=False)
        self.env.build = self.attach
        self.model = MemoryTree()
        self.tags = []
        self.feedback = []
        r = perform(self.env.db_tree)
        if not r.ok:
            raise Violation("operation-fails", f"making the tree failed: {describe(r)}")
        self.tree = r.value
        self.line = []
        self.twin = None
        if plan.get("twin"):
            self.twin_env = Env("db1", store=False, name="twin")
            self.twin = self.twin_env.db_tree()

    def attach(self, _):
        HOOKS.inert = True
        try:
            if self.twin:
                self.twin_env.drop_connections()
                self.twin = self.twin_env.db_tree()
            self.tree = self.env.db_tree()
        finally:
            HOOKS.inert = False

    def answer(self, tree, q, tag):
        try:
            if q == "in":
                return tag in tree
            if q == "base":
                return tree.base_version(tag)
            if q == "path":
                return tuple(tree.path_to(tag) or ())
            split, path = tree.get_split(tag)
            return split, tuple(path)
        except (KeyError, TypeError, AttributeError, IndexError):
            return "refused"

    def compare(self, model, tags, questions=("in", "base", "path", "split")):
        """None if the tree answers like the model, else what differs."""
        for tag in tags:
            known = tag in model
            for q in questions:
                if not known and q in ("base", "split"):
                    continue  # not defined for a tag that is not there
                r = perform(lambda: self.answer(self.tree, q, tag))
                if not r.ok:
                    raise Violation("operation-fails", f"{q} of {tag!r} failed although storage works: {describe(r)}")
                want = self.answer(model, q, tag)
                if r.value != want:
                    return f"{q} of {tag!r} is {r.value!r} instead of {want!r}"
        return None

    def audit(self, when):
        bad = self.compare(self.model, self.tags + ["never added"])
        if bad:
            raise Violation("differs", f"{bad} {when}")
        self.out.states.add(hashlib.sha1(repr([(t, self.model.path_to(t)) for t in self.tags]).encode()).hexdigest()[:16])

    def change(self, what, f, faults):
        """One mutation: f(tree).  Returns whether it has been done."""
        r = perform(lambda: f(self.tree), faults, self.plan.get("record", False))
        self.log.add(what, describe(r))
        if self.plan.get("record"):
            self.feedback.append((r.kinds, r.trace, r.maps))
        if r.crashed:
            self.out.add("probe:crash_in_" + what.split()[0])
            fault = DISK.crash_info
            self.env.restart(power=fault["kind"] == "power", subset_seed=fault.get("survive", 0))
            self.out.add("restarts")
        disturbed = r.faulted or r.crashed
        if not r.ok and not disturbed:
            raise Violation("operation-fails", f"{what} failed although storage works: {describe(r)}")
        after = copy.deepcopy(self.model)
        f(after)
        if not disturbed:
            self.model = after
            return True
        bad_after = self.compare(after, self.tags)
        if bad_after is None:
            self.model = after
            if not r.ok:
                self.out.add("probe:failed_but_done")
            return True
        if r.ok:
            raise Violation("lost", f"{what} returned, then {bad_after}")
        bad_before = self.compare(self.model, self.tags)
        if bad_before is None:
            self.out.add("probe:failed_not_done")
            return False
        raise Violation("half-done", f"after {what} failed ({describe(r)}): {bad_after}; and compared with before: {bad_before}")

    def query(self, op):
        tag = op["tag"]
        q = op["q"]
        if q in ("base", "split") and tag not in self.model:
            return
        r = perform(lambda: self.answer(self.tree, q, tag), op.get("faults", ()), self.plan.get("record", False))
        self.log.add("ask", q, tag, describe(r))
        if self.plan.get("record"):
            self.feedback.append((r.kinds, r.trace, r.maps))
        if r.crashed:
            fault = DISK.crash_info
            self.env.restart(power=fault["kind"] == "power", subset_seed=fault.get("survive", 0))
        want = self.answer(self.model, q, tag)
        if r.ok and r.value != want:
            raise Violation("differs", f"{q} of {tag!r} is {r.value!r} instead of {want!r}")
        if not r.ok and not r.faulted and not r.crashed:
            raise Violation("operation-fails", f"{q} of {tag!r} failed although storage works: {describe(r)}")

    def is_head(self, tag):
        return len(tuple(self.model.path_to(tag))) == 1

    def other_tree(self, tag):
        """The same tags, all in one line, in a second tree of the process."""
        if tag in self.line:
            return

        def step(f, what):
            r = perform(f)
            if not r.ok:
                raise Violation("operation-fails", f"{what} of a second tree failed although storage works: {describe(r)}")
            return r.value

        last = self.line[-1] if self.line else None
        step(lambda: self.twin.add(tag, last), "add")
        if last is not None:
            step(lambda: self.twin.change_parent(last, tag), "change_parent")
        self.line.append(tag)
        for i, t in enumerate(self.line):
            base = self.line[i - 1] if i else None
            got = step(lambda: self.twin.base_version(t), "base_version")
            path = step(lambda: tuple(self.twin.path_to(t)), "path_to")
            if got != base or path != tuple(self.line[: i - 1 if i else None : -1] if i else self.line[::-1]):
                raise Violation("differs", f"in a second tree with the line {self.line} {t!r} has base {got!r} and path {path}")
        self.out.add("probe:twin_additions")

    def version(self, op):
        """What a store does to its tree to add one version."""
        tag = op["tag"]
        if tag in self.model:
            return
        base = op["base"]
        while base is not None and base not in self.model:
            base = self.plan["bases"].get(base)
        steps = op.get("steps") or [[], [], [], []]
        if tag not in self.tags:
            self.tags.append(tag)
        if not self.change(f"add {tag!r} {base!r}", lambda t: t.add(tag, base), steps[0]):
            if op.get("again") and not self.change(f"add {tag!r} {base!r}", lambda t: t.add(tag, base), ()):
                return
            if not op.get("again"):
                return
        if base is None or not self.is_head(base):
            return
        bad = self.compare(self.model, (base, tag), ("split", "path", "base"))
        if bad:
            raise Violation("differs", f"{bad} before version {tag!r} is linked")
        split, depth = self.model.get_split(base)
        self.out.add("probe:long_paths", len(depth) > 30)
        if split != base and not op.get("plain"):
            for k in range(2 if op.get("twice", True) else 1):
                if not self.change(f"change_parent {split!r} {tag!r}", lambda t: t.change_parent(split, tag), steps[1 + k]):
                    if not op.get("again"):
                        return
                    self.change(f"change_parent {split!r} {tag!r}", lambda t: t.change_parent(split, tag), ())
        if not self.change(f"change_parent {base!r} {tag!r}", lambda t: t.change_parent(base, tag), steps[3]):
            if op.get("again"):
                self.change(f"change_parent {base!r} {tag!r}", lambda t: t.change_parent(base, tag), ())

    def run(self):
        self.plan["bases"] = {o["tag"]: o["base"] for o in self.plan["ops"] if o["op"] == "version"}
        for op in self.plan["ops"]:
            k = op["op"]
            if k == "version":
                if self.plan.get("record"):
                    self.feedback.append(("version", op["tag"]))
                self.version(op)
                if self.twin and len(self.line) < 12:
                    self.other_tree(op["tag"])
            elif k == "ask":
                if self.plan.get("record"):
                    self.feedback.append(("ask", op["tag"]))
                self.query(op)
            elif k == "reconnect":
                if self.plan["storage"] != "dbdefault":
                    self.env.drop_connections()
            elif k == "restart":
                self.env.restart()
            elif k == "audit":
                self.audit("at an audit")
            else:
                raise HarnessError(k)
            self.out.add("op:" + k)
        self.plan["record"] = False
        self.audit("at the end")
        self.env.restart()
        self.audit("after a restart at the end")
        for i, tag in enumerate([t for t in self.tags if t in self.model and self.is_head(t)]):
            self.version({"tag": f"epilogue {i}", "base": tag})
        self.audit("after every line was extended")
        self.out.add("storage:" + self.plan["storage"])
        export_faults(self.out)
        self.out.feedback = self.feedback
        self.out.nontrivial = len(self.tags) >= 3


class Guest:
    """A tree on the first client's connection while iterations are open."""

    def __init__(self, host):
        from gaspra.db_tree import DBTree
        from gaspra.memory_tree import MemoryTree

        self.host = host
        run = self.run = TreeRun.__new__(TreeRun)
        run.plan = dict(host.plan, bases={}, record=False)
        run.out, run.log, run.env, run.twin = host.out, host.log, None, None
        run.model, run.tags, run.feedback = MemoryTree(), [], []
        run.tree = self.tree = DBTree(host.factory(0))
        HOOKS.inert = True
        self.seen = DBTree(host.factory(2))
        HOOKS.inert = False

    def audit(self, when):
        self.run.tree = self.seen
        try:
            self.run.audit(when + " as seen by another client")
        finally:
            self.run.tree = self.tree

    def step(self, op):
        run, host = self.run, self.host
        heads = [t for t in run.tags if t in run.model and run.is_head(t)]
        inner = [t for t in run.tags if t in run.model and not run.is_head(t)]
        base = inner[0] if inner and op["fork"] else heads[0] if heads else None
        traces = []

        def traced(what, f, faults):
            HOOKS.gc_hook = host.finalise
            run.plan["record"] = host.plan.get("record", False)
            n = len(run.feedback)
            try:
                return type(run).change(run, what, f, faults)
            finally:
                HOOKS.gc_hook = None
                run.plan["record"] = False
                traces.extend(x[1] for x in run.feedback[n:])

        run.change = traced
        run.version({"tag": f"v{len(run.tags)}", "base": base, "steps": op.get("steps"), "again": True, "twice": False})
        if host.plan.get("record"):
            # which of the steps of TreeRun.version these were
            first, rest = traces[:1], traces[1:]
            host.feedback.append((first + ([()] if len(rest) < 2 else rest[:1]) + [()] + rest[-1:]) if rest else first)
        host.out.add("probe:tree_steps_while_iterating", len(traces))


class D03(Property):
    id = "D03"
    two_phase = True
    placements = 2
    quick = (8000, 60.0)
    storages = ("db1", "db1", "db3", "dbf", "dbdefault")
    rule = "histories of at least three tags with distinct event traces"
    real = ["gaspra.db_tree", "gaspra.db_tree_sql", "gaspra.db_connections", "gaspra.memory_tree (as the oracle)",
            "SQLite 3.45 library and Python's sqlite3 module (pager, journal, locks)"]
    stubs, assumptions = STUBS, ASSUME
    states_measure = "paths of all tags at each audit"

    def prepare(self):
        StoreProperty.prepare(self)

    def generate(self, rng, tier):
        n = rng.choice((rng.randrange(2, 8), rng.randrange(6, 25), rng.randrange(20, 45)))
        if rng.random() < 0.03:
            n = rng.randrange(45, 110)
        plain = rng.random() < 0.03  # lines that are never split have long paths
        if plain:
            n = rng.randrange(45, 140)
        tags = texts.tags(rng, n)
        ops, tips = [], []
        p_new, p_fork = rng.choice((0.02, 0.1, 0.3)), rng.choice((0.0, 0.05, 0.2))
        if plain:
            p_new, p_fork = 0.01, rng.choice((0.0, 0.02))
        for i in range(n):
            r = rng.random()
            if not tips or r < p_new:
                base, line = None, len(tips)
                tips.append(tags[i])
            elif r < p_new + p_fork:
                base = tags[rng.randrange(i)]
                line = tips.index(base) if base in tips else len(tips)
                if line == len(tips):
                    tips.append(base)
            else:
                line = rng.randrange(len(tips)) if rng.random() < 0.4 else 0
                base = tips[line]
            tips[line] = tags[i]
            ops.append({"op": "version", "tag": tags[i], "base": base, "twice": rng.random() < 0.8})
            if plain and rng.random() < 0.97:
                ops[-1]["plain"] = True
            r = rng.random()
            if r < 0.12:
                ops.append({"op": "ask", "q": rng.choice(("in", "base", "path", "split")), "tag": rng.choice(tags[: i + 1] + ["none"])})
            elif r < 0.15:
                ops.append({"op": rng.choice(("reconnect", "restart", "audit"))})
        plan = {"storage": rng.choice(self.storages), "ops": ops, "record": True}
        if plan["storage"] != "dbdefault" and rng.random() < 0.1:
            plan["twin"] = True
        return plan

    def place(self, plan, feedback, rng):
        plan.pop("record", None)
        plan.pop("bases", None)
        shapes = {}
        cur = None
        for f in feedback:
            if len(f) == 2:
                cur = f
                shapes[cur] = []
            else:
                shapes[cur].append(f)
        placed = 0
        ops = [o for o in plan["ops"] if o["op"] == "version" and len(shapes.get(("version", o["tag"]), ())) > 0]
        for _ in range(rng.choice((1, 1, 1, 2, 3))):
            op = rng.choice(ops)
            steps = shapes[("version", op["tag"])]
            if rng.random() < 0.7:
                full = [o for o in ops if len(shapes[("version", o["tag"])]) > 2]
                if full:
                    op = rng.choice(full)
                    steps = shapes[("version", op["tag"])]
            k = rng.randrange(len(steps))
            kinds, trace, _ = steps[k]
            # positions in op["steps"]: add, split, split again, head
            slot = k if k == 0 else 3 if k == len(steps) - 1 else k
            mode = rng.choice(("io", "crash", "stmt", "stmt")) if trace else rng.choice(("io", "crash"))
            f = place_io(rng, kinds, IO_ALL) if mode == "io" else place_crash(rng, kinds) if mode == "crash" else place_stmt(rng, trace)
            if f is None:
                continue
            op.setdefault("steps", [[], [], [], []])[slot].append(f)
            op["again"] = rng.random() < 0.5
            placed += 1
        return plan if placed else None

    def valid(self, plan):
        seen = set()
        for o in plan["ops"]:
            if o["op"] == "version":
                if o["base"] is not None and o["base"] not in seen:
                    return False
                seen.add(o["tag"])
        return True

    def simpler(self, plan):
        for i, o in enumerate(plan["ops"]):
            if o["op"] == "version":
                cand = copy.deepcopy(plan)
                del cand["ops"][i]
                for p in cand["ops"]:
                    if p.get("base") == o["tag"]:
                        p["base"] = o["base"]
                yield cand
                for s in range(4):
                    if o.get("steps") and o["steps"][s]:
                        cand = copy.deepcopy(plan)
                        cand["ops"][i]["steps"][s] = []
                        yield cand
        if plan["storage"] != "db1":
            yield dict(copy.deepcopy(plan), storage="db1")

    def execute(self, plan, out, log):
        log.add(plan["storage"])
        TreeRun(copy.deepcopy(plan), out, log).run()


# -------------------------------------------------------------------- Z01
BOUNDS = [0, 1, 2, 239, 240, 241, 242, 495, 496, 497, 2286, 2287, 2288, 2289, 2544, 67822, 67823, 67824, 67825, 65535, 65536]
BIG = BOUNDS + [2**24 - 1, 2**24, 2**32 - 1, 2**32, 2**40 - 1, 2**40, 2**48 - 1, 2**48, 2**56 - 1, 2**56, 2**63]


class Z01(Property):
    id = "Z01"
    lists = ("pieces", "cuts")
    quick = (24000, 60.0)
    rule = "deltas of at least one non-empty piece with distinct contents"
    real = ["gaspra.serialize"]
    stubs = ["the reader of the stored delta: returns only the first n bytes (short read)"]
    states_measure = "piece kinds and sizes of the delta, and how each cut ended"

    def prepare(self):
        import gaspra.serialize  # noqa: F401

    def generate(self, rng, tier):
        pieces = []
        n = rng.choice((1, 1, 2, 3, 5, 10, 40))
        huge = rng.random() < 0.15
        for _ in range(n):
            if rng.random() < 0.5:
                r = rng.random()
                size = rng.choice(BOUNDS[:12]) if r < 0.3 else rng.randrange(1, 30) if r < 0.85 else rng.randrange(240, 2400)
                if huge and rng.random() < 0.2:
                    size = rng.choice(BOUNDS)
                if huge and rng.random() < 0.004:
                    size = rng.choice((2**24 - 1, 2**24))
                pieces.append({"text": rng.choice((0, 240, 249, 250, 251, 255, rng.randrange(256))), "n": size, "step": rng.randrange(5)})
            else:
                a, b = sorted((rng.choice(BIG) if rng.random() < 0.4 else rng.randrange(5000), rng.choice(BIG) if rng.random() < 0.4 else rng.randrange(5000)))
                if rng.random() < 0.5:
                    b = a + rng.choice((0, 1, 7, 300))
                pieces.append({"a": a, "b": min(b, 2**63)})
        return {"pieces": pieces, "cuts": [rng.random() for _ in range(60)], "all": True}

    def execute(self, plan, out, log):
        from gaspra.serialize import deserialize_changeset, serialize_changeset

        want = []
        stored = []
        for p in plan["pieces"]:
            if "a" in p:
                s = slice(p["a"], p["b"])
                stored.append(s)
                if p["a"] != p["b"]:
                    want.append(s)
            else:
                block = bytes((p["text"] + i * p["step"]) % 256 for i in range(min(p["n"], 256)))
                b = (block * (p["n"] // 256 + 1))[: p["n"]]
                stored.append(b)
                if b:
                    want.append(b)
        try:
            stream = serialize_changeset(tuple(stored))
        except Exception as e:
            raise Violation("operation-fails", f"storing {stored!r:.200} failed: {e!r}")
        try:
            got = list(deserialize_changeset(stream))
        except Exception as e:
            raise Violation("unreadable", f"a stored delta cannot be read back: {e!r}")
        if got != want or any(type(g) is not type(w) for g, w in zip(got, want)):
            bad = next((i for i, (g, w) in enumerate(zip(got, want)) if g != w), min(len(got), len(want)))
            raise Violation("wrong-pieces", f"piece {bad} of {len(want)} reads back as {got[bad:bad + 1]!r:.100} instead of {want[bad:bad + 1]!r:.100}")
        if len(stream) <= 700:
            cuts = range(len(stream))
        else:
            near = {0, 1, 2, 3, len(stream) - 1, len(stream) - 2}
            cuts = sorted(near) if len(stream) > 10**6 else sorted(near | {int(c * len(stream)) for c in plan["cuts"]} | set(range(min(300, len(stream)))))
        ends = [0, 0]
        for cut in cuts:
            delivered = []
            try:
                for piece in deserialize_changeset(stream[:cut]):
                    delivered.append(piece)
                ends[0] += 1
            except Exception:
                ends[1] += 1
            if delivered != want[: len(delivered)]:
                i = next(i for i, d in enumerate(delivered) if i >= len(want) or d != want[i])
                raise Violation("misread", f"cut to {cut} of {len(stream)} bytes, the delta delivers {delivered[i]!r:.100}, "
                                f"which is not its piece {i}: {want[i:i + 1]!r:.100}")
        out.add("fault:short_read", len(cuts))
        out.add("cuts_ending_quietly", ends[0])
        out.add("cuts_ending_in_an_error", ends[1])
        log.add(len(stream), hashlib.sha1(stream).hexdigest(), ends)
        out.states.add(hashlib.sha1(repr([(type(w).__name__, len(w) if type(w) is bytes else 0) for w in want] + ends).encode()).hexdigest()[:16])
        out.nontrivial = bool(want)

    def simpler(self, plan):
        for i, p in enumerate(plan["pieces"]):
            for k in ("n", "a", "b", "text", "step"):
                if p.get(k):
                    for v in (0, p[k] // 2, p[k] - 1):
                        cand = copy.deepcopy(plan)
                        cand["pieces"][i][k] = v
                        q = cand["pieces"][i]
                        if "a" not in q or q["a"] <= q["b"]:
                            yield cand


PROPS = {p.id: p for p in (D01, D02, D03, D05, Z01)}
