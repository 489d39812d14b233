"""D04: several threads on one store, each on its own lines."""

from __future__ import annotations

import copy
import hashlib
import sqlite3
import threading

from sim import disk as simdisk
from sim import instrument, texts
from sim.baton import Baton
from sim.core import HarnessError, Property, Violation, simpler_texts
from sim.props_store import ASSUME, CODEC, REAL, STUBS, Lines, StoreProperty, exact, short
from sim.store import DISK, HOOKS, SimConnection, export_faults, tokenizer_class

ATTEMPTS = 12  # of one operation after the last stall has ended


class ClientsRun:
    def __init__(self, plan, out, log):
        from gaspra.db_collections import DBCollection
        from gaspra.db_tree import DBTree
        from gaspra.versions import Versions

        self.plan, self.out, self.log = plan, out, log
        simdisk.reseed(plan.get("seed", 0))
        self.local = threading.local()
        self.all = []
        files = plan.get("files", 1)

        def factory(slot):
            path = "/sim/store.db" if files == 1 else f"/sim/{slot}.db"
            key = "c" if plan.get("one_connection", True) and files == 1 else slot

            def connection_factory():
                c = getattr(self.local, key, None)
                if c is None:
                    c = sqlite3.connect(path, factory=SimConnection)
                    setattr(self.local, key, c)
                return c

            return connection_factory

        if plan.get("memory"):
            self.versions = Versions(tokenizer_factory=tokenizer_class(plan["tokenizer"]))
        else:
            self.versions = Versions(
                head_version=DBCollection("heads", factory("heads")),
                diffs=DBCollection("diffs", factory("diffs")),
                tree=DBTree(factory("graph")),
                tokenizer_factory=tokenizer_class(plan["tokenizer"]),
            )
        # a collection that all clients use, each its own keys
        self.things = None
        if plan.get("things"):
            self.things = {} if plan.get("memory") else DBCollection("things", factory("heads"))
        self.close_mine()
        self.models = [Lines() for _ in plan["clients"]]
        self.kept = [{} for _ in plan["clients"]]
        self.manifests = [{} for _ in plan["clients"]]

    def close_mine(self):
        for key in ("c", "heads", "diffs", "graph"):
            c = getattr(self.local, key, None)
            if c is not None:
                setattr(self.local, key, None)
                c.close()

    def attempt(self, client, f, what):
        """One try; (ok, value).  Only a lock timeout may make it fail."""
        try:
            return True, f()
        except sqlite3.OperationalError as e:
            if str(e) != "database is locked" or self.plan.get("memory"):
                raise Violation("error", f"client {client}: {what} failed: OperationalError: {e}")
            self.out.add("probe:lock_timeouts")
            self.log.add(client, what, "locked")
            return False, None
        except (Violation, HarnessError):
            raise
        except Exception as e:
            raise Violation("error", f"client {client}: {what} failed: {type(e).__name__}: {e}")

    def until_done(self, client, f, what):
        """Retried until it works, which must not take forever."""
        tries = 0
        while True:
            ok, value = self.attempt(client, f, what)
            if ok:
                return value
            if DISK.now > self.baton.stall_until + 6.0:
                tries += 1
            if tries > ATTEMPTS:
                raise Violation("no-progress", f"client {client}: {what} failed {tries} times with nobody stalled")

    def client(self, n):
        m = self.models[n]
        v = self.versions
        plan = self.plan
        try:
            for op in plan["clients"][n]:
                if op["op"] == "add":
                    tag, data = op["tag"], op["data"].encode(plan["codec"])
                    base = op["base"]
                    while base is not None and base not in m.data:
                        base = next((o["base"] for o in plan["clients"][n] if o["op"] == "add" and o["tag"] == base), None)
                    what = f"adding {tag!r}"
                    tries = 0
                    while tag not in m.data:
                        ok, _ = self.attempt(n, (lambda: v.add(tag, data, base)) if base is not None else (lambda: v.add(tag, data)), what)
                        if not ok:
                            # left as by a failed storage operation
                            if not self.until_done(n, lambda: tag in v, f"asking for {tag!r}"):
                                got = self.until_done(n, lambda: v.get(tag), f"reading {tag!r}")
                                if got is not None:
                                    raise Violation("half-added", f"client {n}: {tag!r} is not in the store but reads as {short(got)}")
                                for t in m.order:
                                    self.check(n, t, "after a lock timeout")
                                if DISK.now > self.baton.stall_until + 6.0:
                                    tries += 1
                                if tries > ATTEMPTS:
                                    raise Violation("no-progress", f"client {n}: {what} failed {tries} times with nobody stalled")
                                continue
                        m.put(tag, data, base)
                        if not op.get("unread"):
                            self.check(n, tag, "right after its addition")
                elif op["op"] == "get":
                    if op["tag"] in m.data:
                        self.check(n, op["tag"], "when asked")
                elif op["op"] == "audit":
                    for t in m.order:
                        self.check(n, t, "at an audit")
                elif op["op"] == "idle":
                    # between two operations: holds up nobody
                    self.out.add("fault:idle_client")
                    self.baton.sleep(op["seconds"])
                elif op["op"] == "info":
                    t = op["tag"]
                    if t in m.data:
                        self.info(n, t)
                elif op["op"] == "twice":
                    # a tag in use, and a base that is not there
                    for tag, base in ((op["tag"], None), (op["tag"] + "?", op["tag"] + "??")):
                        if op["tag"] in m.data:
                            self.refused(n, tag, base)
                elif op["op"] == "manifest":
                    self.manifest(n, op)
                elif self.things is not None:
                    self.thing(n, op)
            for t in m.order:
                self.check(n, t, "at the end of the client")
        finally:
            self.close_mine()

    def info(self, n, t):
        m = self.models[n]
        info = self.until_done(n, lambda: self.versions.version_info(t), f"version_info({t!r})")
        if info is None or info.base_version != m.base[t]:
            raise Violation("info", f"client {n}: version_info({t!r}) is {info}, its base is {m.base[t]!r}")
        if t not in m.next and (info.token_count, info.change_count) != (len(m.data[t]), 0):
            raise Violation("info", f"client {n}: version_info({t!r}) is {info}, it is the newest of its line and {len(m.data[t])} long")

    def refused(self, n, tag, base):
        def f():
            try:
                self.versions.add(tag, b"refuse me", base)
            except KeyError:
                return True

        if not self.until_done(n, f, f"adding {tag!r} on {base!r}, which must be refused,"):
            raise Violation("accepted", f"client {n}: adding {tag!r} on {base!r} was not refused")

    def manifest(self, n, op):
        """A manifest of this client's files, on one of its manifests."""
        from gaspra.manifest import add_manifest, get_manifest

        m, v, codec = self.models[n], self.versions, self.plan["codec"]
        base = op["base"] if op["base"] in self.manifests[n] else None
        held = self.manifests[n].get(base, {})
        files = {name: tag for name, tag, data in op["files"] if data is not None or tag in m.data}
        new = {tag: data.encode(codec) for _, tag, data in op["files"] if data is not None and tag not in m.data}
        what = f"adding manifest {op['tag']!r}"
        tries = 0
        while True:
            ok, _ = self.attempt(n, lambda: add_manifest(op["tag"], dict(files), v, dict(new), base), what)
            if ok or self.until_done(n, lambda: op["tag"] in v, f"asking for {op['tag']!r}"):
                break
            for t in m.order:
                self.check(n, t, "after a lock timeout")
            if DISK.now > self.baton.stall_until + 6.0:
                tries += 1
            if tries > ATTEMPTS:
                raise Violation("no-progress", f"client {n}: {what} failed {tries} times with nobody stalled")
        got = self.until_done(n, lambda: get_manifest(v, op["tag"]), f"reading manifest {op['tag']!r}")
        if got != files:
            raise Violation("wrong-manifest", f"client {n}: manifest {op['tag']!r} reads as {got!r:.200} instead of {files!r:.200}")
        for name, tag in files.items():
            if tag in new and tag not in m.data:
                m.put(tag, new[tag], held.get(name))
                self.check(n, tag, f"as {name!r} of manifest {op['tag']!r}")
                self.info(n, tag)
        m.put(op["tag"], self.until_done(n, lambda: v.get(op["tag"]), f"reading {op['tag']!r}"), base)
        self.manifests[n][op["tag"]] = files
        self.info(n, op["tag"])
        self.out.add("probe:manifests")

    def thing(self, n, op):
        kept, things = self.kept[n], self.things
        key = f"{op['key']}#{n}"
        if op["op"] == "set":
            value = op["data"].encode(self.plan["codec"])
            self.until_done(n, lambda: things.__setitem__(key, value), f"setting {key!r}")
            kept[key] = value
        elif op["op"] == "del":
            was = key in kept
            tried = []

            def f():
                tried.append(1)
                try:
                    del things[key]
                except KeyError:
                    return False
                return True

            done = self.until_done(n, f, f"deleting {key!r}")
            if done != was and (done or len(tried) == 1):
                raise Violation("delete", f"client {n}: deleting {key!r} {'worked' if done else 'raised KeyError'} although it is {'' if was else 'not '}there")
            kept.pop(key, None)
        got = self.until_done(n, lambda: (things.get(key), key in things), f"getting {key!r}")
        if got != (kept.get(key), key in kept):
            raise Violation("wrong-value", f"client {n}: {key!r} is {got!r:.100} instead of {kept.get(key)!r:.100}")
        if op["op"] == "keys" and not self.plan.get("memory"):
            mine = sorted(k for k in self.until_done(n, lambda: list(things), "iterating") if k.endswith(f"#{n}"))
            if mine != sorted(kept):
                raise Violation("keys", f"client {n}: its keys are {mine!r:.200} instead of {sorted(kept)!r:.200}")
        self.out.add("probe:things")

    def check(self, n, tag, when):
        got = self.until_done(n, lambda: self.versions.get(tag), f"reading {tag!r}")
        want = self.models[n].data[tag]
        if not exact(got, want):
            raise Violation("lost" if got is None else "wrong-content", f"client {n}: {tag!r} reads as {short(got)} instead of {short(want)} {when}")

    def run(self):
        plan = self.plan
        DISK.begin_op((), False)
        self.baton = Baton(DISK, plan["preempt"], plan.get("stalls", ()))
        baton = self.baton
        trace_lines = plan.get("lines", False)

        for n in range(len(plan["clients"])):
            def body(n=n):
                self.client(n)

            baton.spawn(body)
        HOOKS.yield_hook = baton.point
        DISK.wait_hook = baton.sleep
        if trace_lines:
            instrument.STATEMENT = lambda place: baton.point()
            if trace_lines == "fine":
                instrument.EXPRESSION = instrument.STATEMENT
        try:
            baton.run()
        finally:
            HOOKS.yield_hook = None
            DISK.wait_hook = None
            instrument.STATEMENT = instrument.EXPRESSION = None
        if DISK.harness_errors:
            raise HarnessError(DISK.harness_errors[0])
        # everything once more, by a client that was not there before
        if self.things is not None:
            want = {k: x for kept in self.kept for k, x in kept.items()}
            got = {k: self.things[k] for k in self.things}
            if got != want or len(self.things) != len(want):
                raise Violation("wrong-value", f"the collection holds {got!r:.200} instead of {want!r:.200} after all clients have ended")
        for n, m in enumerate(self.models):
            for t in m.order:
                self.check(n, t, "after all clients have ended")
            for line in m.lines:
                for t in line:
                    path = self.versions.tree.path_to(t)
                    if plan.get("stalls") or self.out.stats.get("probe:lock_timeouts"):
                        continue
                    if len(path) ** 2 > 4 * len(line) or path[0] != line[-1]:
                        raise Violation("path", f"client {n}: path to {t!r} is {path!r} in a line of {len(line)} versions")
        self.log.add("decisions", baton.decisions, "switches", baton.switches, "time", round(DISK.now, 6))
        self.out.add("decisions", baton.decisions)
        self.out.add("switches", baton.switches)
        self.out.add("fault:stall", len([1 for k, _ in plan.get("stalls", ()) if k < baton.decisions]))
        self.out.add("fault:preemption", len([1 for k, _ in plan["preempt"] if k < baton.decisions]))
        export_faults(self.out)
        self.out.feedback = baton.decisions
        self.out.states.add(hashlib.sha1(repr((baton.decisions, baton.switches, [m.order for m in self.models])).encode()).hexdigest()[:16])
        self.out.nontrivial = baton.switches > 1


class D04(Property):
    id = "D04"
    two_phase = True
    placements = 4
    lists = ("preempt", "stalls")
    quick = (5000, 60.0)
    rule = "runs with at least two switches between clients and distinct event traces"
    real = REAL + ["Python threads"]
    stubs = ["disk, file locks and clock below SQLite (sim.disk, a VFS)", "thread scheduling (sim.baton)"]
    assumptions = ASSUME + ["Clients use distinct tags and work on distinct lines; several clients on the same line are outside the property (gaspra has no call to lock a line)."]
    states_measure = "number of decisions and switches and order of additions of a run (a measure of distinct interleavings)"

    def prepare(self):
        instrument.install()
        StoreProperty.prepare(self)

    def generate(self, rng, tier):
        tokenizer = rng.choice(("null", "null", "line", "char", "symbol"))
        codec = "latin-1" if rng.random() < 0.1 else CODEC[tokenizer]
        style = rng.choice([s for s in texts.STYLES if s != "binary" or codec == "latin-1"])
        codec = "utf-8" if style == "unicode" else codec
        r = rng.random()
        lines = rng.choice((True, "fine")) if r < 0.35 else None
        cap = 150 if lines is None else rng.choice((12, 40, 80))
        clients = []
        idle = rng.choice((0, 0, 0.05, 0.3))
        unread = rng.choice((0, 0.3, 1))
        tagset = texts.tags(rng, 60)
        manifests = rng.choice((0, 0, 0, 0.4))
        things = rng.choice((0, 0, 0.3))
        for c in range(rng.choice((2, 2, 2, 3, 4))):
            ops = []
            mine = []
            tips = []
            contents = {}
            named = None
            for i in range(rng.choice((rng.randrange(1, 5), rng.randrange(3, 9), rng.randrange(6, 14)))):
                tag = tagset.pop() + f"@{c}" if rng.random() < 0.5 and tagset else f"{i}/{c}"
                while tag in contents:
                    tag += "'"
                if rng.random() < things:
                    ops.append({"op": rng.choice(("set", "set", "del", "keys")), "key": rng.choice("abcd"), "data": texts.fresh(rng, style, 30)})
                if rng.random() < manifests:
                    files = dict(named[1]) if named else {}
                    for name in list(files):
                        if rng.random() < 0.15:
                            del files[name]
                    for name in rng.sample(("a", "b", "c/d", "\u00e9"), rng.randrange(1, 3)):
                        if mine and rng.random() < 0.2:
                            files[name] = rng.choice(mine)
                        else:
                            old = files.get(name)
                            files[name] = f"{tag}.{name}"
                            contents[files[name]] = texts.evolve(rng, contents[old], style, cap) if old else texts.fresh(rng, style, cap)
                            mine.append(files[name])
                    base = named[0] if named and rng.random() < 0.9 else None
                    fresh = {t for t in files.values() if t.startswith(tag + ".")}
                    ops.append({"op": "manifest", "tag": tag, "base": base, "files": [[name, t, contents[t] if t in fresh else None] for name, t in sorted(files.items())]})
                    named = tag, files
                    continue
                if not tips or rng.random() < 0.12:
                    base = None
                    data = texts.fresh(rng, style, cap)
                    tips.append(tag)
                elif rng.random() < 0.08:
                    base = rng.choice(mine)
                    data = texts.evolve(rng, contents[base], style, cap)
                    if base in tips:
                        tips.remove(base)
                    tips.append(tag)
                else:
                    base = rng.choice(tips)
                    data = texts.evolve(rng, contents[base], style, cap)
                    tips[tips.index(base)] = tag
                mine.append(tag)
                contents[tag] = data
                ops.append({"op": "add", "tag": tag, "base": base, "data": data})
                if rng.random() < unread:
                    ops[-1]["unread"] = True
                r = rng.random()
                if r < 0.2:
                    ops.append({"op": "get", "tag": rng.choice(mine)})
                elif r < 0.28:
                    ops.append({"op": "info", "tag": rng.choice(mine)})
                elif r < 0.32:
                    ops.append({"op": "audit"})
                elif r < 0.35:
                    ops.append({"op": "twice", "tag": rng.choice(mine)})
                if r > 1 - idle:
                    ops.append({"op": "idle", "seconds": rng.choice((1.0, 20.0, 400.0))})
            clients.append(ops)
        plan = {"tokenizer": tokenizer, "codec": codec, "clients": clients, "preempt": [], "stalls": []}
        if things:
            plan["things"] = True
        if lines:
            plan["lines"] = lines
            if r < 0.2:
                plan["memory"] = True
        if plan.get("memory"):
            pass
        elif rng.random() < 0.2:
            plan["files"] = 3
        elif rng.random() < 0.3:
            plan["one_connection"] = False
        return plan

    def place(self, plan, feedback, rng):
        n = feedback
        clients = len(plan["clients"])
        rate = rng.choice((0.01, 0.05, 0.2, 0.5, 1.0))
        if plan.get("lines"):
            rate = rng.choice((0.0005, 0.002, 0.02, 0.1))
        if rng.random() < 0.3:
            picks = sorted({rng.randrange(n) for _ in range(rng.choice((1, 2, 3, 5)))})
        else:
            picks = [k for k in range(int(n * 1.5)) if rng.random() < rate][:20000]
        plan["preempt"] = [[k, rng.randrange(clients)] for k in picks]
        if rng.random() < 0.4:
            plan["stalls"] = sorted([rng.randrange(int(n * 1.1) + 1), rng.choice((0.5, 4.0, 8.0, 30.0))] for _ in range(rng.choice((1, 1, 2, 4))))
            if rng.random() < 0.7:
                # a stalled client matters most while others want to go on
                plan["preempt"] = sorted(plan["preempt"] + [[max(0, k - rng.randrange(4)), rng.randrange(clients)] for k, _ in plan["stalls"]])
        return plan

    def simpler(self, plan):
        if plan.get("lines") and not plan.get("memory"):
            yield {k: v for k, v in plan.items() if k != "lines"}
        for c in range(len(plan["clients"])):
            if len(plan["clients"]) > 2 or (len(plan["clients"]) == 2 and not plan["preempt"]):
                cand = copy.deepcopy(plan)
                del cand["clients"][c]
                yield cand
            ops = plan["clients"][c]
            for size in (len(ops) // 2, 1):
                for i in range(0, len(ops), max(1, size)):
                    cand = copy.deepcopy(plan)
                    del cand["clients"][c][i : i + max(1, size)]
                    yield cand
            for i, o in enumerate(ops):
                if o.get("data"):
                    for half in (0, 1):
                        cand = copy.deepcopy(plan)
                        d = o["data"]
                        cand["clients"][c][i]["data"] = d[: len(d) // 2] if half == 0 else d[len(d) // 2 :] if len(d) > 1 else ""
                        yield cand

    def valid(self, plan):
        for ops in plan["clients"]:
            seen = set()
            for o in ops:
                if o["op"] == "add":
                    seen.add(o["tag"])
        return True

    def execute(self, plan, out, log):
        log.add(plan["tokenizer"], [len(c) for c in plan["clients"]])
        ClientsRun(plan, out, log).run()


PROPS = {"D04": D04}
