"""S06 (interrupts anywhere in gaspra's code) and D06 (several clients by turns)."""

from __future__ import annotations

import copy
import random
import sqlite3

from sim import disk as simdisk
from sim import instrument
from sim.core import HarnessError, Property, Violation
from sim.props_db import D01, CollectionRun
from sim.props_manifest import M01, ManifestRun
from sim.props_store import ASSUME, REAL, STUBS, S02, StoreProperty, StoreRun, exact, short
from sim.store import DISK, HOOKS, Env, perform



def facts(info):
    """What version_info() says (the clients may be of different releases)."""
    return None if info is None else (type(info).__name__, *sorted(vars(info).items()))


EVERYTHING = REAL + ["gaspra.manifest"]


class Histories(Property):
    """Plans of three kinds: version stores, manifests, collections."""

    two_phase = True
    placements = 3
    rule = "histories of at least two versions, one readable manifest or two operations on collections, with distinct event traces"
    real, stubs, assumptions = EVERYTHING, STUBS, ASSUME
    states_measure = "storage kind and shape of the delta tree, readable manifests, or keys and value lengths, at each audit"
    store_storages = collection_storages = None
    fault_modes = ()
    kinds = ("store", "store", "manifest", "collection")

    def __init__(self):
        self.parts = {}
        for kind, base, storages in (("store", S02, self.store_storages), ("manifest", M01, self.store_storages), ("collection", D01, self.collection_storages)):
            part = type(base.__name__, (base,), {"storages": storages, "fault_modes": self.fault_modes})()
            part.kind = kind
            self.parts[kind] = part

    def part(self, plan):
        return self.parts[plan["kind"]]

    def prepare(self):
        StoreProperty.prepare(self)

    def generate(self, rng, tier):
        kind = rng.choice(self.kinds)
        plan = self.parts[kind].generate(rng, tier)
        plan["kind"] = kind
        return plan

    def place(self, plan, feedback, rng):
        return self.part(plan).place(plan, feedback, rng)

    def valid(self, plan):
        return self.part(plan).valid(plan)

    def simpler(self, plan):
        return self.part(plan).simpler(plan)


class S06(Histories):
    id = "S06"
    quick = (8000, 60.0)
    store_storages = ("mem", "mem", "mem", "map", "db1", "db3", "dbf", "mixtree", "mixtext")
    collection_storages = ("db1", "db3")
    fault_modes = ("code",)
    kinds = ("store",) * 6 + ("manifest", "manifest", "collection")
    placements = 6
    stubs = STUBS + ["interrupts and failed allocations (raised at places that sim.instrument adds to gaspra's code as it is imported)"]

    def prepare(self):
        instrument.install()
        super().prepare()

    def generate(self, rng, tier):
        plan = super().generate(rng, tier)
        plan.pop("twin", None)
        if plan["kind"] == "store":
            plan["epilogue"] = rng.choice((0, 1, 3, 8))
            plan["after"] = rng.choice((0, 5, 14, 25))
            plan["forks"] = rng.choice((0, 0, 1, 2)) if len(plan["ops"]) < 16 else 0
        cap = rng.choice((12, 12, 30, 100))
        for op in plan["ops"]:  # the places are many
            if "data" in op and len(op["data"]) > cap:
                op["data"] = op["data"][-cap:]
        return plan

    def execute(self, plan, out, log):
        log.add(plan["kind"])
        {"store": StoreRun, "manifest": ManifestRun, "collection": CollectionRun}[plan["kind"]](plan, out, log).run()


# -------------------------------------------------------------------- D06
class Turns:
    """Two clients with connections of their own, who work by turns.

    Mixed into a run; self.env is the client whose turn it is.
    """

    def second_client(self):
        plan = self.plan
        first = self.env
        second = Env(plan["storage"], plan.get("tokenizer", "null"), tuple(plan.get("tables", ("heads", "diffs"))), store=False)
        if plan["storage"] == "dbdefault":
            names = [n for n in DISK.files if not n.endswith("-journal") and not n.startswith("\0")]
            if len(names) != 1:
                raise Violation("default-file", f"the default connection uses files {names}")
            second.default_path = names[0]
        self.clients = [first, second]
        self.others = 0

    @property
    def other(self):
        return self.clients[1 if self.env is self.clients[0] else 0]

    def take_turn(self, op):
        if "client" in op:
            env = self.clients[op["client"]]
            if env is not self.env:
                self.out.add("turns_taken")
            self.env = env

    def all_restart(self, **how):
        mine = self.env
        first, second = self.clients
        second.drop_connections()
        first.restart(**how)
        if second.default_path is None:
            second.default_path = first.default_path
        second.build(True)
        self.env = mine

    def after(self, op):
        """The operation has ended: nothing is locked, both see the same."""
        if op["op"] in ("kill", "restart", "reconnect"):
            return
        what = f"after {op['op']} ended" + (" under a storage fault" if op.get("faults") else "")
        self.check_free(what)
        self.compare(op, what)
        if op.get("kill"):
            # the process dies now; what it did is decided already
            self.all_restart()
            self.out.add("fault:killed_between_operations")
            self.check_free(what + " and all clients were killed")
            self.everything(what + " and all clients were killed")

    def check_free(self, what):
        for path in sorted({self.clients[1].path(n) for n in self.parts_used()}):
            c = sqlite3.connect(path, timeout=0, isolation_level=None)
            try:
                r = perform(lambda: (c.execute("BEGIN EXCLUSIVE"), c.execute("ROLLBACK")))
                if not r.ok:
                    raise Violation("locked", f"{path} cannot be written to {what}: {r.exc}")
            finally:
                c.close()
        self.out.add("probe:found_free")


class TurnStore(Turns, StoreRun):
    def __init__(self, plan, out, log):
        super().__init__(plan, out, log)
        self.second_client()
        self.clients[1].build(True)

    def parts_used(self):
        return self.env.tables + ("graph",)

    def restart(self, **how):
        self.all_restart(**how)
        self.restarts += 1

    def settle(self, op, base):
        if op.get("seen_by_other"):
            mine = self.env
            self.env = self.other
            try:
                super().settle(op, base)
            finally:
                self.env = mine
            return
        super().settle(op, base)

    def compare(self, op, what):
        known = list(self.adds.values()) if isinstance(self.adds, dict) else []
        tags = [op["tag"]] if "tag" in op else []
        if known:
            tags += [known[self.others % len(known)]["tag"], known[-1]["tag"]]
        self.others += 7
        mine, other = self.env, self.other
        for tag in dict.fromkeys(tags):
            answers = []
            for env in (mine, other):
                answers.append(self.quiet(lambda: (tag in env.versions, env.versions.get(tag), facts(env.versions.version_info(tag)), env.tree.path_to(tag)), f"asking for {tag!r} {what}"))
            if answers[0] != answers[1]:
                raise Violation("seen-differently", f"{tag!r} is {short(answers[0][1])}, {answers[0][2:]!r:.200} for the client that worked and {short(answers[1][1])}, {answers[1][2:]!r:.200} for another {what}")
        self.out.add("probe:compared_by_two_clients")

    def everything(self, what):
        self.audit(what)

    def step(self, op):
        self.take_turn(op)
        if op["op"] == "leave":
            if self.env is not self.clients[0] or self.plan["storage"] != "dbdefault":
                self.env.drop_connections()
                self.env.build(True)
            return
        super().step(op)
        self.after(op)

    def audit(self, *args):
        super().audit(*args)
        mine = self.env
        self.env = self.other
        try:
            super().audit(*args)
        finally:
            self.env = mine


class TurnManifests(TurnStore, ManifestRun):
    def compare(self, op, what):
        tags = [op["tag"]] if "tag" in op else []
        tags += [f[1] for f in op.get("files", ())]
        mine, other = self.env, self.other
        for tag in dict.fromkeys(tags):
            answers = [self.quiet(lambda: (tag in env.versions, env.versions.get(tag), facts(env.versions.version_info(tag)), env.tree.path_to(tag)), f"asking for {tag!r} {what}") for env in (mine, other)]
            if answers[0] != answers[1]:
                raise Violation("seen-differently", f"{tag!r} is {answers[0]!r:.200} for the client that worked and {answers[1]!r:.200} for another {what}")
        self.out.add("probe:compared_by_two_clients")

    def everything(self, what):
        self.audit_manifests(what)

    def audit_manifests(self, when):
        super().audit_manifests(when)
        mine = self.env
        self.env = self.other
        try:
            super().audit_manifests(when)
        finally:
            self.env = mine


class TurnCollections(Turns, CollectionRun):
    def __init__(self, plan, out, log):
        self.clients = None
        super().__init__(plan, out, log)
        self.second_client()
        first, second = self.clients
        self.sets = [self.real, {}]
        for env in self.clients:
            env.build = lambda _attach, env=env: self.attach_client(env)
        second.build(True)

    def attach_client(self, env):
        HOOKS.inert = True
        try:
            mine = self.sets[self.clients.index(env)]
            for name in self.sets[0]:
                mine[name] = env.collection(name)
        finally:
            HOOKS.inert = False

    def create(self, name):
        super().create(name)
        if self.clients:
            self.attach_client(self.clients[1])

    def restart(self, **how):
        self.all_restart(**how)
        self.out.add("restarts")

    def parts_used(self):
        return tuple(self.sets[0])

    def compare(self, op, what):
        for name in sorted(self.model) if self.others % 5 == 0 or op.get("faults") else [op.get("name")]:
            if name in self.model:
                there = self.sets[self.clients.index(self.other)]
                found = self.contents(name, what, there[name])
                if found != self.model[name]:
                    raise Violation("seen-differently", f"another client sees other contents of {name} {what}: {sorted(set(found.items()) ^ set(self.model[name].items()))!r:.200}")
        self.others += 1
        self.out.add("probe:compared_by_two_clients")

    def everything(self, what):
        self.audit(what)

    def step(self, op):
        self.take_turn(op)
        self.real = self.sets[self.clients.index(self.env)]
        if op["op"] == "leave":
            if self.env is not self.clients[0] or self.plan["storage"] != "dbdefault":
                self.env.drop_connections()
                self.env.build(True)
            return
        if op["op"] == "new":
            # whoever makes a collection, both use it
            if op["name"] in self.sets[0]:
                return
            self.env, self.real = self.clients[0], self.sets[0]
        super().step(op)
        self.after(op)


class D06(Histories):
    id = "D06"
    quick = (8000, 60.0)
    store_storages = ("db1", "db1", "db3", "dbf", "dbdefault")
    collection_storages = ("db1", "db1", "db3", "dbf", "dbdefault")
    fault_modes = ("io", "stmt")
    rule = "histories of at least two versions, one readable manifest or two operations on collections, worked on by two clients, with distinct event traces"

    def generate(self, rng, tier):
        plan = super().generate(rng, tier)
        plan.pop("twin", None)
        turn = rng.choice((0.0, 0.1, 0.5, 1.0))
        client = 0
        ops = []
        for op in plan["ops"]:
            if rng.random() < turn:
                client = 1 - client
            op["client"] = client
            if plan["kind"] == "store":
                op["seen_by_other"] = rng.random() < 0.5
            ops.append(op)
            if rng.random() < 0.03:
                ops.append({"op": "leave", "client": rng.choice((0, 1))})
        plan["ops"] = ops
        return plan

    def place(self, plan, feedback, rng):
        plan = super().place(plan, feedback, rng)
        if plan:
            for op in plan["ops"]:
                if op.get("faults") and rng.random() < 0.4:
                    op["kill"] = True
                elif "client" in op and rng.random() < 0.02:
                    op["kill"] = True
        return plan

    def execute(self, plan, out, log):
        log.add(plan["kind"])
        {"store": TurnStore, "manifest": TurnManifests, "collection": TurnCollections}[plan["kind"]](plan, out, log).run()


PROPS = {c.id: c for c in (S06, D06)}
