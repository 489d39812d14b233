"""S07: files move between releases of gaspra."""

from __future__ import annotations

import copy

from sim import releases
from sim.props_db import CollectionRun
from sim.props_hand import EVERYTHING, Histories, TurnCollections, TurnManifests, TurnStore
from sim.props_manifest import ManifestRun
from sim.props_store import ASSUME, StoreRun


class Switching:
    """Every restart may start another release."""

    def __init__(self, plan, out, log):
        self.starts = 0
        self.start_release(plan, out)
        super().__init__(plan, out, log)

    def start_release(self, plan, out):
        which = plan["releases"]
        release = which[self.starts % len(which)]
        if self.starts and release != which[(self.starts - 1) % len(which)]:
            out.add(f"probe:switched_to_{release}")
        self.starts += 1
        releases.use(release)

    def restart(self, **how):
        self.start_release(self.plan, self.out)
        super().restart(**how)


class SwitchStore(Switching, StoreRun):
    pass


class SwitchManifests(Switching, ManifestRun):
    pass


class SwitchCollections(Switching, CollectionRun):
    pass


class Mixed:
    """Two clients by turns, each with a release of its own."""

    def __init__(self, plan, out, log):
        releases.use(plan["releases"][0])
        self.ready = False
        super().__init__(plan, out, log)
        self.ready = True
        self.rebuild_second()

    def release(self, env):
        return self.plan["releases"][self.clients.index(env)]

    def rebuild_second(self):
        releases.use(self.plan["releases"][1])
        self.clients[1].build(True)
        releases.use(self.release(self.env))
        self.out.add("probe:clients_of_different_releases")

    def take_turn(self, op):
        super().take_turn(op)
        releases.use(self.release(self.env))

    def all_restart(self, **how):
        releases.use(self.plan["releases"][0])
        super().all_restart(**how)
        self.rebuild_second()


class MixedStore(Mixed, TurnStore):
    pass


class MixedManifests(Mixed, TurnManifests):
    pass


class MixedCollections(Mixed, TurnCollections):
    def attach_client(self, env):
        if self.ready:
            releases.use(self.release(env))
        super().attach_client(env)
        if self.ready:
            releases.use(self.release(self.env))

    def step(self, op):
        if op["op"] == "new":
            releases.use(self.plan["releases"][0])
        super().step(op)


RUNS = {
    "switch": {"store": SwitchStore, "manifest": SwitchManifests, "collection": SwitchCollections},
    "mixed": {"store": MixedStore, "manifest": MixedManifests, "collection": MixedCollections},
}


class S07(Histories):
    id = "S07"
    quick = (8000, 60.0)
    store_storages = collection_storages = ("db1", "db1", "db3", "dbf", "dbdefault")
    fault_modes = ("crash",)
    kinds = ("store",) * 5 + ("manifest", "manifest", "collection")
    rule = "histories of at least two versions, one readable manifest or two operations on collections, in which a process of another release goes on, with distinct event traces"
    assumptions = ASSUME + [
        "The other release is a copy of gaspra's storing modules as they were when the checks were written (sim/then, 7b1467e and the repairs made since); it stands for the release that wrote the files users have.",
    ]

    def prepare(self):
        super().prepare()
        releases.load()

    def generate(self, rng, tier):
        plan = super().generate(rng, tier)
        if plan["kind"] == "store" and rng.random() < 0.1:
            part = self.parts["store"]
            plan = dict(part.header(rng)[0], kind="store", record=True, epilogue=1)
            part.boundary(rng, plan)
        plan.pop("twin", None)
        if rng.random() < 0.3:
            plan["how"] = "mixed"
            plan["releases"] = rng.choice((["then", "now"], ["now", "then"]))
            client = 0
            for op in plan["ops"]:
                if rng.random() < 0.5:
                    client = 1 - client
                op["client"] = client
            return plan
        plan["how"] = "switch"
        n = rng.choice((2, 2, 3, 5))
        plan["releases"] = rng.choice((["then", "now"], ["now", "then"], [rng.choice(("now", "then")) for _ in range(n)], ["then"] * (n - 1) + ["now"]))
        if len(set(plan["releases"])) == 1:
            plan["releases"].append("now" if plan["releases"][0] == "then" else "then")
        often = rng.choice((0.1, 0.3, 0.6, 1.0))
        ops = []
        for op in plan["ops"]:
            if op["op"] not in ("restart", "reconnect", "audit") and rng.random() < often:
                ops.append({"op": "restart"})
            ops.append(op)
        at = rng.randrange(len(ops) + 1)
        ops[at:at] = [{"op": "restart"}]
        plan["ops"] = ops
        return plan

    def simpler(self, plan):
        if len(plan["releases"]) > 2:
            for i in range(len(plan["releases"])):
                cand = copy.deepcopy(plan)
                del cand["releases"][i]
                yield cand
        yield from super().simpler(plan)

    def execute(self, plan, out, log):
        log.add(plan["kind"], plan["how"], plan["releases"])
        RUNS[plan["how"]][plan["kind"]](plan, out, log).run()
        releases.use("now")


PROPS = {c.id: c for c in (S07,)}
