"""S08: what is stored can be read while nothing can be written."""

from __future__ import annotations

import copy

from sim.core import Violation
from sim.props_db import CollectionRun
from sim.props_hand import Histories
from sim.props_manifest import ManifestRun
from sim.props_store import StoreRun
from sim.store import DB_STORAGE, DISK, FaultyMap

WHY = ("readonly", "full", "broken", "locked")


class Frozen:
    """Periods in which nothing can be written; mixed into a run."""

    def look(self, when):
        """Read all there is."""
        raise NotImplementedError

    def opened(self):
        """Every file has been read since the last disturbance, so that no roll-back is due."""

    def stored(self):
        maps = [m for m in (getattr(self.env, "heads", None), getattr(self.env, "diffs", None)) if isinstance(m, FaultyMap)]
        return DISK.image_hash(), [dict(m.data) for m in maps]

    def unchanged(self, when):
        self.look(f"before storage was compared {when}")
        self.opened()
        before = self.stored()
        self.look(f"while storage was compared {when}")
        if self.stored() != before:
            raise Violation("read-writes", f"reading everything changed what is stored {when}")
        self.out.add("probe:reading_changed_nothing")

    def thaw(self):
        if DISK.frozen:
            again = DISK.frozen == "readonly"
            DISK.frozen = None
            if again:  # SQLite may have opened the file for reading only
                if self.plan["storage"] in DB_STORAGE:
                    self.restart()
                else:
                    self.env.drop_connections()
            self.look("when writing was possible again")

    def last(self):
        self.thaw()

    def step(self, op):
        kind = op["op"]
        if kind == "freeze":
            if not DISK.frozen:
                if op.get("calm"):
                    self.look("before nothing could be written")
                self.opened()
                DISK.frozen = op["why"]
                self.out.add("fault:" + op["why"] + "_period")
                self.log.add("freeze", op["why"])
        elif kind == "thaw":
            self.thaw()
            self.log.add("thaw")
        elif kind == "look":
            self.look(f"while nothing can be written ({DISK.frozen})" if DISK.frozen else "at a look")
            if DISK.frozen:
                self.out.add("probe:read_while_frozen")
        elif kind == "unchanged":
            if not DISK.frozen:
                self.unchanged("at a look")
        elif DISK.frozen and (kind in ("new", "fill", "whole", "retry", "dup", "badbase") or op.get("faults")):
            pass  # these are for ordinary times
        elif DISK.frozen:
            super().step({k: v for k, v in op.items() if k != "again"})
            self.look(f"after {kind} was tried while nothing can be written ({DISK.frozen})")
        else:
            freezing = any("freeze" in f for f in op.get("faults", ()))
            super().step({k: v for k, v in op.items() if k != "again"} if freezing else op)
            if DISK.frozen:  # nothing could be written any more in the middle of it
                self.look(f"after {kind} was cut short because nothing can be written ({DISK.frozen})")
                self.out.add("probe:read_after_freeze_mid_operation")
                if op.get("reopen") and self.plan["storage"] in DB_STORAGE:
                    self.restart()
                    self.look(f"in a new process after {kind} was cut short ({DISK.frozen})")
                self.thaw()


class FrozenStore(Frozen, StoreRun):
    def look(self, when):
        self.audit(when)

    def opened(self):
        for m in (self.env.heads, self.env.diffs):
            self.quiet(lambda: len(m), "counting what is stored")
        for t in self.model.order[:1]:
            self.quiet(lambda: self.env.tree.path_to(t), "path")


class FrozenManifests(FrozenStore, ManifestRun):
    def look(self, when):
        self.audit_manifests(when)
        for tag in self.readable:
            self.check_base(tag, when)

    def opened(self):
        super().opened()
        self.quiet(lambda: self.env.tree.path_to("m0"), "path")


class FrozenCollections(Frozen, CollectionRun):
    def look(self, when):
        self.audit(when)


class S08(Histories):
    id = "S08"
    quick = (8000, 60.0)
    store_storages = ("db1", "db1", "db3", "dbf", "dbdefault", "map", "mixtree", "mixtext")
    collection_storages = ("db1", "db1", "db3", "dbf", "dbdefault")
    fault_modes = ("io", "stmt", "map")
    kinds = ("store",) * 4 + ("manifest", "collection")
    rule = "histories of at least two versions, one readable manifest or two operations on collections, with a period in which nothing can be written, with distinct event traces"

    def __init__(self):
        super().__init__()
        self.parts["collection"].fault_modes = ("io", "stmt")

    def generate(self, rng, tier):
        plan = super().generate(rng, tier)
        plan.pop("twin", None)
        ops = plan["ops"]
        for _ in range(rng.choice((1, 1, 2))):
            at = rng.randrange(1, len(ops) + 1) if ops else 0
            period = [{"op": "freeze", "why": rng.choice(WHY), "calm": rng.random() < 0.3}, {"op": "look"}]
            if plan["kind"] == "collection":
                extra = [{"op": k, "name": rng.choice(plan["names"]), "key": rng.choice(plan["keys"])} for k in ("get", "in", "len", "iter", "get_default")]
            elif plan["kind"] == "store":
                known = [op["id"] for op in ops[:at] if op["op"] == "add"]
                extra = [{"op": k, "id": rng.choice(known + [-1])} for k in ("get", "info", "has", "get")]
            else:
                extra = []
            extra += [{"op": k} for k in ("restart", "reconnect", "look", "restart")]
            period += rng.sample(extra, rng.randrange(min(5, len(extra)) + 1))
            rest = ops[at:]
            n = rng.choice((0, 0, 1, 1, 2, 5))
            ops = ops[:at] + period + rest[:n] + [{"op": "look"}] + [{"op": "thaw"}] + rest[n:]
        if rng.random() < 0.5:
            ops.insert(rng.randrange(len(ops) + 1), {"op": "unchanged"})
        plan["ops"] = ops
        if plan["kind"] == "store":
            plan["checked"] = ["info"] if rng.random() < 0.5 else []
        return plan

    def place(self, plan, feedback, rng):
        plan = super().place(plan, feedback, rng)
        failing = [i for i, op in enumerate(plan["ops"]) if op.get("faults")] if plan else ()
        for i in failing:
            op = plan["ops"][i]
            for f in op["faults"]:
                if "map" in f or f["where" if "stmt" in f else "kind"].endswith("-commit"):
                    if rng.random() < 0.7:
                        f.update({"freeze": rng.choice(WHY)}, **({"where": "post-commit"} if "stmt" in f else {}))
                        f.pop("n", None)
                        op["reopen"] = rng.random() < 0.5
        if failing and rng.random() < 0.3:
            # what a failure left behind meets a period in which it cannot be removed
            i = rng.choice(failing) + 1
            plan["ops"][i:i] = [{"op": "freeze", "why": rng.choice(WHY)}, {"op": "look"}, {"op": "thaw"}]
        return plan

    def simpler(self, plan):
        for i, op in enumerate(plan["ops"]):
            if op["op"] == "freeze" and op["why"] != "readonly":
                cand = copy.deepcopy(plan)
                cand["ops"][i]["why"] = "readonly"
                yield cand
        yield from super().simpler(plan)

    def execute(self, plan, out, log):
        log.add(plan["kind"])
        if plan["kind"] == "store":
            run = FrozenStore(plan, out, log, tuple(plan.get("checked", ())))
        else:
            run = {"manifest": FrozenManifests, "collection": FrozenCollections}[plan["kind"]](plan, out, log)
        run.run()


PROPS = {"S08": S08}
