"""S01-S05 and M01: the version store and manifests."""

from __future__ import annotations

import contextlib
import copy
import hashlib
import json
import math

from sim import disk as simdisk
from sim import texts
from sim.core import HarnessError, Property, Violation, simpler_texts
from sim.store import (
    DB_STORAGE,
    DISK,
    HOOKS,
    Env,
    FaultyMap,
    describe,
    export_faults,
    perform,
    place_code,
    place_crash,
    place_io,
    place_map,
    place_stmt,
)

IO_ALL = ("read_err", "write_err", "torn_write", "full", "sync_err", "delete_err", "open_err", "lock_err", "ext_lock", "slow")
CODEC = {"null": "latin-1", "line": "latin-1", "char": "utf-8", "symbol": "utf-8"}

REAL = [
    "gaspra.versions", "gaspra.memory_tree", "gaspra.db_tree", "gaspra.db_collections", "gaspra.db_connections",
    "gaspra.serialize", "gaspra.changesets", "gaspra.suffix_automaton", "gaspra.tokenizers",
    "SQLite 3.45 library and Python's sqlite3 module (pager, journal, locks)",
]
STUBS = [
    "disk, file locks and clock below SQLite (sim.disk, a VFS)",
    "caller-supplied failing mapping (sim.store.FaultyMap) for the storages map, mixtree",
]
ASSUME = [
    "The disk keeps what was synced; creating and deleting a file is durable at once; writes since the last sync may be kept, lost or torn in any combination at a power loss.",
    "Attaching to existing tables is done by calling gaspra's constructors with their schema statements suppressed, because gaspra has no call to reopen a store.",
]


class Lines:
    """The reference model: contents, bases and lines of versions."""

    def __init__(self):
        self.data = {}
        self.base = {}
        self.next = {}  # version -> its successor in the same line
        self.line = {}  # version -> line number
        self.lines = []  # line number -> [versions in order]
        self.order = []

    def put(self, tag, data, base):
        self.data[tag] = data
        self.base[tag] = base
        self.order.append(tag)
        if base is not None and base not in self.next:
            self.next[base] = tag
            n = self.line[base]
            self.lines[n].append(tag)
        else:
            n = len(self.lines)
            self.lines.append([tag])
        self.line[tag] = n

    def tips(self):
        return [line[-1] for line in self.lines]


def exact(got, want):
    if got == want and (got is None or type(got) is bytes):
        return True
    return False


def short(b):
    if b is None:
        return "nothing"
    r = repr(b)
    return r if len(r) < 80 else f"{r[:60]}... ({len(b)} long)"


def deep(depth, f):
    """f as called by a caller that is itself this deep in calls."""
    if depth <= 0:
        return f
    return lambda: descend(depth, f)


def descend(depth, f):
    return descend(depth - 1, f) if depth > 1 else f()


def unpack(tag):
    """Tags of any hashable kind, as a plan has to spell them."""
    if type(tag) is list:
        kind, value = tag
        if kind == "tuple":
            return tuple(unpack(v) for v in value)
        if kind == "set":
            return frozenset(unpack(v) for v in value)
        if kind == "bytes":
            return value.encode("latin-1")
    return tag


class StoreRun:
    """Executes one plan against the real store and the model."""

    def __init__(self, plan, out, log, checks=()):
        plan = dict(plan, ops=[dict(op, tag=unpack(op["tag"])) if "tag" in op else op for op in plan["ops"]])
        for op in plan["ops"]:
            if "pad" in op:  # a very long last line
                op["data"] = op["data"] + "x" * op["pad"]
        self.plan, self.out, self.log = plan, out, log
        self.told = []
        self.codec = plan["codec"]
        self.checks = checks
        simdisk.reseed(plan.get("seed", 0))
        self.env = Env(plan["storage"], plan["tokenizer"], tuple(plan.get("tables", ("heads", "diffs"))))
        # a second store in the same process, with other contents under the same tags
        self.twin = Env(plan["twin"], plan["tokenizer"], name="twin") if "twin" in plan else None
        self.twin_model = Lines()
        log.add(plan["storage"], plan["tokenizer"])
        self.model = Lines()
        self.adds = {}  # id -> op
        self.absent = {}  # id -> op of an addition that did not take place
        self.hurt = []  # the bases of additions that failed
        self.feedback = []
        self.restarts = 0

    # -------------------------------------------------------------- basics
    def enc(self, s):
        return s.encode(self.codec)

    def tag(self, i):
        return self.adds[i]["tag"]

    def resolve(self, i):
        """The tag that version id i stands for now, or the one before it."""
        while i is not None:
            op = self.adds.get(i)
            if op is None:
                return None
            if op["tag"] in self.model.data:
                return op["tag"]
            i = op.get("base")
        return None

    def do(self, f, faults, what):
        r = perform(f, faults, record=self.plan.get("record", False))
        self.log.add(what, describe(r))
        if self.plan.get("record"):
            self.feedback.append((r.kinds, r.trace, r.maps, r.code))
        if r.crashed:
            self.out.add("probe:crash_in_" + what.split()[0])
            fault = DISK.crash_info
            self.restart(power=fault["kind"] == "power", subset_seed=fault.get("survive", 0))
        return r

    def restart(self, **how):
        if self.twin:
            self.twin.drop_connections()
        self.env.restart(**how)
        if self.twin and self.twin.storage in DB_STORAGE:
            self.twin.build(True)
        self.restarts += 1

    @contextlib.contextmanager
    def other_store(self):
        mine = self.env, self.model, self.absent
        self.env, self.model, self.absent = self.twin, self.twin_model, {}
        try:
            yield
        finally:
            self.env, self.model, self.absent = mine

    def twin_add(self, op):
        m = self.twin_model
        tag = op["tag"]
        if tag in m.data:
            return
        base = self.adds[op["base"]]["tag"] if op.get("base") in self.adds else None
        if base not in m.data or (op["id"] % 3 == 0 and m.order):
            base = m.order[-1] if m.order and op["id"] % 3 == 0 else None
        data = self.enc(op["data"][::-1])
        self.out.add("twin_additions")
        with self.other_store():
            self.quiet(lambda: self.env.versions.add(tag, data, base), f"adding {tag!r} to a second store")
            m.put(tag, data, base)
            self.check_read(tag, data, "in the second store")
        if tag in self.model.data:
            self.check_read(tag, self.model.data[tag], "after its namesake was added to a second store")

    def quiet(self, f, what):
        """An operation with storage working; it must not fail."""
        r = perform(f)
        if not r.ok:
            self.log.add(what, describe(r))
            raise Violation("operation-fails", f"{what} failed although storage works: {describe(r)}")
        return r.value

    # ------------------------------------------------------------ checking
    def check_read(self, tag, want, when):
        got = self.quiet(lambda: self.env.versions.get(tag), f"reading {tag!r} {when}")
        if not exact(got, want):
            if want is None:
                raise Violation("ghost", f"{tag!r} was never added but reads as {short(got)} {when}")
            kind = "lost" if got is None else "wrong-content"
            raise Violation(kind, f"{tag!r} reads as {short(got)} instead of {short(want)} {when}")

    def check_info(self, tag, when):
        m = self.model
        info = self.quiet(lambda: self.env.versions.version_info(tag), f"version_info({tag!r}) {when}")
        if tag not in m.data:
            if info is not None:
                raise Violation("info-ghost", f"version_info({tag!r}) is {info} for a version not in the store, {when}")
            return
        if info is None:
            raise Violation("info-lost", f"version_info({tag!r}) is None {when}")
        if info.base_version != m.base[tag]:
            raise Violation("info-base", f"{tag!r} was added on {m.base[tag]!r} but reports base {info.base_version!r} {when}")
        if tag not in m.next and (info.token_count, info.change_count) != (len(m.data[tag]), 0):
            raise Violation("info-newest", f"{tag!r} is the newest of its line, {len(m.data[tag])} long, but reports {info} {when}")
        # what the caller was told stays what it was told
        self.told.append((tag, info, repr(info)))

    def check_told(self):
        for tag, info, was in self.told:
            if repr(info) != was:
                raise Violation("info-changed", f"the answer of version_info({tag!r}) was {was} and became {info!r} in the caller's hands")
        del self.told[:-200]

    def audit(self, when, tags=None):
        m = self.model
        for t in m.order if tags is None else tags:
            self.check_read(t, m.data[t], when)
            if not self.quiet(lambda: t in self.env.versions, f"{t!r} in store {when}"):
                raise Violation("lost", f"{t!r} is not in the store {when}")
            if "info" in self.checks:
                self.check_info(t, when)
        self.check_told()
        for op in self.absent.values():
            if op["tag"] not in m.data:
                self.check_read(op["tag"], None, when)
                if "info" in self.checks:
                    self.check_info(op["tag"], when)
        if "shape" in self.checks:
            self.check_shape(when)
        self.note_state()
        if self.twin and self.env is not self.twin:
            with self.other_store():
                self.audit(f"in a second store, {when}")

    def note_state(self):
        m = self.model
        key = [self.plan["storage"]]
        for t in m.order:
            p = self.env.tree.path_to(t)
            key.append(len(p) if p else 0)
        key.append([len(x) for x in m.lines])
        self.out.states.add(hashlib.sha1(repr(key).encode()).hexdigest()[:16])

    def check_shape(self, when):
        from gaspra.serialize import deserialize_changeset

        m = self.model
        heads = set(self.env.heads)
        deltas = set(self.env.diffs)
        if heads != set(m.tips()):
            raise Violation("full-copies", f"full copies of {sorted(heads, key=repr)} are kept instead of {sorted(m.tips(), key=repr)} {when}")
        if deltas != set(m.data) - set(m.tips()):
            raise Violation("deltas", f"deltas of {sorted(deltas, key=repr)} are kept instead of all but the newest of each line {when}")
        for line in m.lines:
            n = len(line)
            for t in line:
                path = self.quiet(lambda: self.env.tree.path_to(t), f"path to {t!r} {when}")
                if not path or path[-1] != t or path[0] != line[-1] or len(set(path)) != len(path):
                    raise Violation("path-ends", f"path to {t!r} is {path!r} {when}")
                if len(path) ** 2 > 4 * n:
                    raise Violation("path-length", f"path to {t!r} has {len(path)} members in a line of {n} versions {when}")
                self.check_cheap_read(t, when)
                if t != line[-1]:
                    literal = sum(
                        len(c) for c in deserialize_changeset(self.env.diffs[t]) if type(c) is not slice
                    )
                    if literal > len(m.data[t]):
                        raise Violation("delta-size", f"the delta of {t!r} holds {literal} bytes of text, the version {len(m.data[t])} {when}")

    def check_cheap_read(self, tag, when):
        """Count the stored deltas that reading one version takes."""
        heads, diffs = self.env.heads, self.env.diffs
        if not isinstance(diffs, FaultyMap):
            return
        diffs.read.clear()
        heads.read.clear()
        self.check_read(tag, self.model.data[tag], when)
        n = len(self.model.lines[self.model.line[tag]])
        if (len(diffs.read) + 1) ** 2 > 4 * n:
            raise Violation("read-cost", f"reading {tag!r} took {len(diffs.read)} deltas in a line of {n} versions {when}")
        self.out.add("probe:deltas_counted")

    # ---------------------------------------------------------- operations
    def settle(self, op, base):
        """After a failed or crashed addition: absent, or present and exact."""
        tag, data = op["tag"], self.enc(op["data"])
        here = self.quiet(lambda: tag in self.env.versions, f"{tag!r} in store after its addition failed")
        got = self.quiet(lambda: self.env.versions.get(tag), f"reading {tag!r} after its addition failed")
        self.log.add("settle", tag, here, got is not None)
        if here != (got is not None):
            raise Violation("half-added", f"{tag!r}: in the store is {here} but reads as {short(got)} after its addition failed")
        if got is None:
            self.absent[op["id"]] = op
            self.out.add("probe:failed_add_absent")
            return
        if not exact(got, data):
            raise Violation("wrong-content", f"{tag!r} reads as {short(got)} instead of {short(data)} after its addition failed")
        self.model.put(tag, data, base)
        self.out.add("probe:failed_add_present")

    def add(self, op):
        self.adds.setdefault(op["id"], op)
        tag, data = op["tag"], self.enc(op["data"])
        self.log.add("content", tag, len(data), hashlib.sha1(data).hexdigest()[:8])
        base = self.resolve(op.get("base"))
        if tag in self.model.data:  # a retry of something that did happen
            return
        v = self.env.versions
        call = (lambda: v.add(tag, data)) if base is None else (lambda: v.add(tag, data, base))
        r = self.do(deep(self.plan.get("deep", 0), call), op.get("faults", ()), "add")
        if r.ok and not r.crashed:
            if base in self.model.next:
                self.out.add("forks")
            self.model.put(tag, data, base)
            self.absent.pop(op["id"], None)
            if self.plan.get("readback", True):
                self.check_read(tag, data, "right after its addition")
            return
        if not r.ok and not r.faulted and not r.crashed:
            raise Violation("operation-fails", f"adding {tag!r} failed although storage works: {describe(r)}")
        if r.ok and r.crashed:
            # the crash came after the last durable step: acknowledged
            self.model.put(tag, data, base)
            self.check_read(tag, data, "after a crash right after its addition returned")
            return
        self.out.add("probe:failed_add")
        self.hurt.append(base)
        self.settle(op, base)
        if self.plan.get("audit_after_failure", True):
            self.audit("after a failed addition")

    def get(self, op):
        if op["id"] not in self.adds:
            tag, want = op.get("tag", "never added"), None
            if tag in self.model.data:
                want = self.model.data[tag]
        else:
            tag = self.tag(op["id"])
            want = self.model.data.get(tag)
        v = self.env.versions
        r = self.do(deep(self.plan.get("deep", 0), lambda: v.get(tag)), op.get("faults", ()), "get")
        if r.ok:
            if not exact(r.value, want):
                raise Violation(
                    "ghost" if want is None else "lost" if r.value is None else "wrong-content",
                    f"{tag!r} reads as {short(r.value)} instead of {short(want)}",
                )
        elif not r.faulted and not r.crashed:
            raise Violation("operation-fails", f"reading {tag!r} failed although storage works: {describe(r)}")
        else:
            self.out.add("probe:failed_get")

    def info(self, op):
        tag = self.tag(op["id"]) if op["id"] in self.adds else op.get("tag", "never added")
        faults = op.get("faults", ())
        if faults:
            r = self.do(lambda: self.env.versions.version_info(tag), faults, "info")
            if r.ok:
                m = self.model
                want = m.base.get(tag)
                if (r.value is None) != (tag not in m.data) or (r.value is not None and r.value.base_version != want):
                    raise Violation("info-base", f"version_info({tag!r}) is {r.value} during a storage fault; base is {want!r}")
            elif not r.faulted and not r.crashed:
                raise Violation("operation-fails", f"version_info({tag!r}) failed although storage works: {describe(r)}")
        self.check_info(tag, "when asked")

    def snapshot(self):
        v = self.env.versions
        m = self.model
        tags = list(m.order) + [op["tag"] for op in self.absent.values()]
        return (
            [(t, v.get(t), v.version_info(t), tuple(self.env.tree.path_to(t) or ())) for t in tags],
            {k: bytes(self.env.heads[k]) for k in list(self.env.heads)},
            {k: bytes(self.env.diffs[k]) for k in list(self.env.diffs)},
        )

    def refused(self, op):
        """A duplicate tag or an unknown base."""
        before = self.quiet(self.snapshot, "snapshot")
        if op["op"] == "dup":
            if op["id"] not in self.adds:
                return
            tag = self.tag(op["id"])
            if tag not in self.model.data:
                return
            base = self.resolve(op.get("base"))
        else:
            tag = op["tag"]
            base = op["unknown"]
            if op.get("of_absent") and self.absent:
                base = sorted((o["tag"] for o in self.absent.values()), key=repr)[0]
            if base in self.model.data or tag in self.model.data:
                return
        data = self.enc(op["data"])
        r = self.do(lambda: self.env.versions.add(tag, data, base), op.get("faults", ()), op["op"])
        if r.ok:
            what = f"adding {tag!r} again" if op["op"] == "dup" else f"adding {tag!r} on the unknown base {base!r}"
            raise Violation("not-refused", f"{what} succeeded")
        self.out.add("refusals")
        after = self.quiet(self.snapshot, "snapshot")
        if after != before:
            raise Violation("refusal-changed", f"a refused {op['op']} addition of {tag!r} changed the store")
        if op["op"] == "badbase" and self.quiet(lambda: tag in self.env.versions, "membership"):
            raise Violation("refusal-changed", f"{tag!r} is in the store after it was refused")

    def step(self, op):
        k = op["op"]
        if k in ("add", "retry"):
            if k == "retry":
                old = self.adds.get(op["id"])
                if old is None or old["tag"] in self.model.data:
                    return
                op = dict(old, **{x: op[x] for x in ("data", "faults") if x in op})
                op.pop("faults") if "faults" in op and not op["faults"] else None
            self.add(op)
            if self.twin:
                self.twin_add(op)
        elif k == "get":
            self.get(op)
        elif k == "long":
            self.long(op)
        elif k == "info":
            self.info(op)
        elif k in ("dup", "badbase"):
            self.refused(op)
        elif k == "audit":
            self.audit("at an audit")
        elif k == "has":
            tag = self.tag(op["id"]) if op["id"] in self.adds else "never added"
            got = self.quiet(lambda: tag in self.env.versions, f"{tag!r} in store")
            if got != (tag in self.model.data):
                raise Violation("membership", f"{tag!r} in store is {got}")
        elif k == "reconnect":
            if self.plan["storage"] != "dbdefault":
                self.env.drop_connections()
        elif k == "restart":
            if self.plan["storage"] in DB_STORAGE:
                self.restart()
        else:
            raise HarnessError(k)
        if k != "audit" and "shape" in self.checks and op.get("shape"):
            self.check_shape("during the run")

    def long(self, op):
        """Hundreds or thousands of additions of tiny versions, on several lines by turns."""
        m, v = self.model, self.env.versions
        tips = {}
        for i in range(op["n"]):
            line = i % op["lines"] if i % 7 else 0
            base, tag = tips.get(line), f"{op['tag']}{i}"
            data = b"%d" % (i * op["step"] % 9973)
            self.quiet(lambda: v.add(tag, data, base) if base is not None else v.add(tag, data), f"adding {tag!r}, version {i} of a long history,")
            m.put(tag, data, base)
            tips[line] = tag
            versions = m.lines[m.line[tag]]
            for t in () if op.get("reads") else (versions[0], versions[i * 31 % len(versions)]) if i % 97 else versions:
                path = self.quiet(lambda: self.env.tree.path_to(t), f"path to {t!r}")
                if not path or path[-1] != t or path[0] != tag or len(path) ** 2 > 4 * len(versions):
                    raise Violation("path-length", f"path to {t!r} is {path!r:.100}, {len(path or ())} long, in a line of {len(versions)} versions")
            if i % 50 == 49 and op.get("restart") and self.plan["storage"] in DB_STORAGE:
                self.restart()
                v = self.env.versions
        for t in m.order[-op["n"]::max(1, op["n"] // 60)]:
            self.check_read(t, m.data[t], "after a long history")
            if not op.get("reads"):
                self.check_cheap_read(t, "after a long history")
        self.out.add("probe:long_additions", op["n"])

    def extend_lines(self, again=0):
        """Every line accepts another version once storage works."""
        m = self.model
        for n, tip in enumerate(list(m.tips())):
            tag = f"epilogue {n} {again}" if again else f"epilogue {n}"
            if tag in m.data:
                continue
            data = m.data[tip] + b"+" + m.data[tip][: len(m.data[tip]) // 2].decode(self.codec, "ignore").encode(self.codec)
            v = self.env.versions
            self.quiet(lambda: v.add(tag, data, tip), f"adding to the line of {tip!r} after the faults")
            m.put(tag, data, tip)
        for op in list(self.absent.values()):
            base = self.resolve(op.get("base"))
            tag, data = op["tag"], self.enc(op["data"])
            if tag in m.data:
                continue
            v = self.env.versions
            self.quiet(lambda: v.add(tag, data, base), f"adding {tag!r} again after the faults")
            m.put(tag, data, base)

    def go_on_from_hurt(self):
        """What a failed addition was based on is good for a long line."""
        m = self.model
        for n, base in enumerate(dict.fromkeys(self.hurt)):
            for k in range(self.plan["after"]):
                tag = f"after {n} {k}"
                data = (m.data[base] if base is not None else b"")[:40].decode(self.codec, "ignore").encode(self.codec) + b"\n%d" % (k * 7919 % 9973)
                v = self.env.versions
                call = (lambda: v.add(tag, data)) if base is None else (lambda: v.add(tag, data, base))
                self.quiet(call, f"adding {tag!r} on {base!r} after the faults")
                m.put(tag, data, base)
                base = tag

    def fork_all(self):
        """Every version can be forked from, more than once."""
        m = self.model
        for n, base in enumerate(list(m.order)):
            for k in range(self.plan["forks"]):
                tag = f"fork {n} {k}"
                data = m.data[base] + self.enc(f"{k}\n")
                v = self.env.versions
                self.quiet(lambda: v.add(tag, data, base), f"adding {tag!r} on {base!r} after the faults")
                m.put(tag, data, base)

    def last(self):
        """Everything in the plan has been done."""

    def run(self):
        for op in self.plan["ops"]:
            self.step(op)
            self.out.add("op:" + op["op"])
        self.last()
        self.audit("at the end")
        if self.plan.get("epilogue"):
            for again in range(int(self.plan["epilogue"])):
                self.extend_lines(again)
            self.audit("after every line was extended")
        if self.plan.get("after"):
            self.go_on_from_hurt()
            self.audit("after more was based on what the failed additions were based on")
        if self.plan.get("forks"):
            self.fork_all()
            self.audit("after every version was forked from")
        self.out.add("storage:" + self.plan["storage"])
        self.out.add("tokenizer:" + self.plan["tokenizer"])
        self.out.add("restarts", self.restarts)
        export_faults(self.out)
        self.out.feedback = self.feedback
        self.out.nontrivial = len(self.model.order) >= 2


class StoreProperty(Property):
    checks = ()
    storages = ("mem", "map", "db1", "db3", "dbf", "mixtree", "mixtext", "dbdefault")
    fault_modes = ()
    twins = True
    any_bytes = True  # whatever the tokenizer
    real, stubs, assumptions = REAL, STUBS, ASSUME
    states_measure = "storage kind, shape of the delta tree (path length of every version) and lengths of all lines, at each audit"

    def prepare(self):
        import gaspra.db_tree  # noqa: F401
        import gaspra.db_collections  # noqa: F401
        import gaspra.manifest  # noqa: F401
        import gaspra.versions  # noqa: F401
        from sim import disk

        disk.install()

    # ---------------------------------------------------------- generating
    def header(self, rng):
        tokenizer = rng.choice(("null", "null", "char", "line", "line", "symbol"))
        codec = CODEC[tokenizer]
        if codec != "latin-1" and self.any_bytes and rng.random() < 0.2:
            codec = "latin-1"  # contents that are not UTF-8
        style = rng.choice([s for s in texts.STYLES if s != "binary" or codec == "latin-1"])
        if style == "unicode":
            codec = "utf-8"
        plan = {
            "storage": rng.choice(self.storages),
            "tokenizer": tokenizer,
            "codec": codec,
            "ops": [],
        }
        if rng.random() < 0.2:
            plan["tables"] = rng.choice((["diffs", "heads"], ["a", "b"], ["graph2", "t_1"]))
        if self.twins and rng.random() < 0.08:
            plan["twin"] = rng.choice(("mem", "map") + (("db1", "db3", "dbf") if plan["storage"] not in ("mem", "map", "dbdefault") else ()))
        return plan, style

    def n_ops(self, rng):
        return rng.choice((rng.randrange(2, 10), rng.randrange(8, 30), rng.randrange(20, 50)))

    def build_history(self, rng, plan, style, n, extra, cap):
        """n additions forming lines and forks, with other steps between."""
        tags = texts.tags(rng, n)
        if plan["storage"] in ("mem", "map") and rng.random() < 0.2:
            tags = texts.hashables(rng, n)  # any hashable will do in memory
        contents = []
        tips = []  # ids
        p_new = rng.choice((0.02, 0.08, 0.3))
        p_fork = rng.choice((0.0, 0.05, 0.2))
        hot = None  # a version that all forks start from
        if rng.random() < 0.1:
            p_new = rng.choice((0.0, p_new, 0.5, 0.95))
            p_fork = rng.choice((p_fork, 0.5, 1.0))
            hot = rng.choice((None, 0, 1, 2))
        current = None
        for i in range(n):
            r = rng.random()
            if not tips or r < p_new:
                base = None
                data = texts.fresh(rng, style, cap) if not contents or rng.random() < 0.7 else texts.evolve(rng, rng.choice(contents), style, cap)
                line = len(tips)
                tips.append(i)
            elif r < p_new + p_fork and i > 2:
                base = rng.randrange(i) if hot is None else hot
                data = texts.evolve(rng, contents[base], style, cap)
                line = tips.index(base) if base in tips else len(tips)
                if line == len(tips):
                    tips.append(i)
            else:
                line = current if current is not None and rng.random() < 0.7 else rng.randrange(len(tips))
                base = tips[line]
                data = contents[base]
                if rng.random() < 0.06:
                    data = rng.choice(contents)  # a revert
                else:
                    data = texts.evolve(rng, data, style, cap)
            tips[line] = i
            current = line
            contents.append(data)
            plan["ops"].append({"op": "add", "id": i, "tag": tags[i], "base": base, "data": data})
            extra(plan["ops"], i)

    def big(self, rng, plan):
        """Occasionally lengths past the one-, two- and three-byte integers."""
        if plan["ops"] and rng.random() < 0.02:
            op = rng.choice([o for o in plan["ops"] if "data" in o])
            n = rng.choice((2288, 2300, 67823, 67824, 70000))
            block = texts.piece(rng, "words", rng.choice((1, 7, 300)))
            op["data"] += (block * (n // len(block) + 1))[:n]

    def boundary(self, rng, plan):
        """A line whose deltas hold positions and lengths at the bounds of the stored integers."""
        contents = texts.boundary_line(rng)
        tags = texts.tags(rng, len(contents))
        for i, data in enumerate(contents):
            plan["ops"].append({"op": "add", "id": i, "tag": tags[i], "base": i - 1 if i else None, "data": data})
        plan["ops"].append({"op": "audit"})

    def many_changes(self, rng, plan):
        """Hundreds of changes between two versions, with little stack left."""
        plan["deep"] = rng.choice((500, 600, 700))
        n = 1000 - plan["deep"] + rng.randrange(20, 160)
        kept = [f"{i} kept\n" for i in range(n)]
        other = rng.choice((["x\n"], [f"{i} put in\n" for i in range(n)]))
        first = "".join(kept)
        second = "".join(k + other[i % len(other)] for i, k in enumerate(kept))
        contents = [first, second] if rng.random() < 0.5 else [second, first]
        if rng.random() < 0.3:
            contents.append("".join(k for i, k in enumerate(kept) if i % 3))
        plan["tokenizer"] = "line"
        tags = texts.tags(rng, len(contents))
        for i, data in enumerate(contents):
            plan["ops"].append({"op": "add", "id": i, "tag": tags[i], "base": i - 1 if i else None, "data": data})
            plan["ops"].append({"op": "get", "id": 0})

    def gigantic(self, rng, plan):
        """Pieces longer than the stored integers of three and four bytes hold."""
        plan["tokenizer"] = "line"
        plan.pop("twin", None)
        contents = ["a\nb\n"]
        while len(contents) < 4:
            contents.append(texts.evolve(rng, contents[-1], "lines", 60))
        tags = texts.tags(rng, len(contents))
        for i, data in enumerate(contents):
            op = {"op": "add", "id": i, "tag": tags[i], "base": i - 1 if i else None, "data": data}
            if i in (1, 2):
                op["pad"] = rng.choice((2**24 - 2, 2**24 - 1, 2**24, 2**24 + 1)) - rng.choice((0, len(data) - data.rfind("\n") - 1))
            plan["ops"].append(op)

    def valid(self, plan):
        ids = set()
        for op in plan["ops"]:
            if type(op.get("tag", "")) is not str and plan["storage"] not in ("mem", "map"):
                return False
            if op["op"] == "add":
                if op["base"] is not None and op["base"] not in ids:
                    return False
                ids.add(op["id"])
            elif "id" in op and op["op"] != "get" and op["id"] not in ids and op["op"] in ("dup", "retry"):
                return False
        try:
            for op in plan["ops"]:
                if "data" in op:
                    op["data"].encode(plan["codec"])
        except UnicodeError:
            return False
        return True

    def simpler(self, plan):
        # take an addition out of a line without losing what is based on it
        for i, op in enumerate(plan["ops"]):
            if op["op"] == "add":
                cand = copy.deepcopy(plan)
                del cand["ops"][i]
                for o in cand["ops"]:
                    if o.get("base") == op["id"]:
                        o["base"] = op["base"]
                cand["ops"] = [o for o in cand["ops"] if not ("id" in o and o["op"] != "add" and o["id"] == op["id"])]
                yield cand
        for i, op in enumerate(plan["ops"]):
            if op["op"] == "long":
                for n in (op["n"] // 2, op["n"] * 3 // 4, op["n"] * 9 // 10, op["n"] - 1):
                    cand = copy.deepcopy(plan)
                    cand["ops"][i]["n"] = n
                    yield cand
            if "pad" in op:
                cand = copy.deepcopy(plan)
                del cand["ops"][i]["pad"]
                yield cand
        if "twin" in plan:
            yield {k: v for k, v in copy.deepcopy(plan).items() if k != "twin"}
        for key, value in (("storage", "mem"), ("storage", "map"), ("storage", "db1"), ("tokenizer", "null")):
            if plan[key] != value and value in self.storages + ("null",):
                yield dict(copy.deepcopy(plan), **{key: value})
        yield from simpler_texts(plan)

    def execute(self, plan, out, log):
        StoreRun(plan, out, log, self.checks).run()

    # --------------------------------------------------------------- faults
    def place(self, plan, feedback, rng):
        """Faults into the plan, at places where they can take effect."""
        plan.pop("record", None)
        storage = plan["storage"]
        targets = [
            (i, op) for i, op in enumerate(plan["ops"])
            if op["op"] in ("add", "get", "info", "retry", "dup", "badbase")
        ]
        shapes = {}
        j = 0
        for i, op in targets:
            if op["op"] in ("retry", "info"):
                continue  # not executed in the undisturbed run with feedback
            if j < len(feedback):
                shapes[i] = feedback[j]
            j += 1
        if not shapes:
            return None
        count = rng.choice((1, 1, 1, 2, 3))
        adds = [i for i in shapes if plan["ops"][i]["op"] == "add"]
        placed = 0
        for _ in range(count):
            # crashes and failures in the middle of additions matter most
            i = rng.choice(adds) if adds and rng.random() < 0.85 else rng.choice(list(shapes))
            if adds and rng.random() < 0.3:
                i = max(adds, key=lambda k: (len(shapes[k][0]) + len(shapes[k][1]) + shapes[k][2], k))
            kinds, trace, maps, code = shapes[i]
            modes = []
            if "code" in self.fault_modes and code[0]:
                modes += ["code"] * 4
            if "io" in self.fault_modes and kinds:
                modes.append("io")
            if "crash" in self.fault_modes and kinds and storage in DB_STORAGE:
                modes += ["crash"] * 2
            if "stmt" in self.fault_modes and trace:
                modes += ["stmt"] * 2
            if "map" in self.fault_modes and maps:
                modes += ["map"] * 2
            if not modes:
                continue
            mode = rng.choice(modes)
            if mode == "io":
                f = place_io(rng, kinds, IO_ALL)
            elif mode == "crash":
                f = place_crash(rng, kinds)
            elif mode == "stmt":
                f = place_stmt(rng, trace)
            elif mode == "code":
                f = place_code(rng, code)
            else:
                f = place_map(rng, maps)
            if f is None:
                continue
            plan["ops"][i].setdefault("faults", []).append(f)
            placed += 1
            op = plan["ops"][i]
            if op["op"] == "add" and rng.random() < 0.35:
                again = {"op": "retry", "id": op["id"]}
                if rng.random() < 0.4:
                    again["data"] = op["data"][::-1] if rng.random() < 0.5 else op["data"][: len(op["data"]) // 2]
                plan["ops"].insert(i + 1, again)
                shapes = {(k if k <= i else k + 1): v for k, v in shapes.items()}
                adds = [i for i in shapes if plan["ops"][i]["op"] == "add"]
        return plan if placed else None


class S01(StoreProperty):
    id = "S01"
    quick = (18000, 60.0)
    rule = "histories of at least two versions with distinct event traces"

    def generate(self, rng, tier):
        plan, style = self.header(rng)
        n = self.n_ops(rng)
        if rng.random() < 0.03:
            n = rng.randrange(50, 160)
        cap = 400 if n > 20 else 1500
        r = rng.random()
        if r < 0.04:
            self.boundary(rng, plan)
            return plan
        if r < 0.042:
            self.many_changes(rng, plan)
            return plan
        if r < 0.043:
            self.gigantic(rng, plan)
            return plan
        if r < 0.046:
            plan["ops"].append({"op": "long", "tag": rng.choice(("long ", "")), "n": rng.choice((200, 300, 500, 700)), "lines": 1, "step": rng.choice((1, 7919, 13)), "restart": rng.random() < 0.3, "reads": True})
            plan["readback"] = False
            return plan

        def extra(ops, i):
            r = rng.random()
            if r < 0.12:
                ops.append({"op": "get", "id": rng.randrange(i + 1)})
            elif r < 0.16:
                ops.append({"op": "get", "id": -1, "tag": rng.choice(("", "nothing", "heads", "0"))})
            elif r < 0.22:
                ops.append({"op": "reconnect"})
            elif r < 0.25:
                ops.append({"op": "restart"})
            elif r < 0.29:
                ops.append({"op": "audit"})
            elif r < 0.32:
                ops.append({"op": "has", "id": rng.choice((-1, rng.randrange(i + 1)))})

        self.build_history(rng, plan, style, n, extra, cap)
        self.big(rng, plan)
        return plan


class S02(StoreProperty):
    id = "S02"
    two_phase = True
    placements = 3
    fault_modes = ("io", "stmt", "map")
    storages = ("map", "map", "db1", "db3", "dbf", "mixtree", "mixtext", "dbdefault")
    quick = (10000, 60.0)
    rule = "histories of at least two versions with distinct event traces"

    def generate(self, rng, tier):
        plan, style = self.header(rng)
        n = rng.choice((rng.randrange(2, 7), rng.randrange(5, 14), rng.randrange(10, 24)))

        def extra(ops, i):
            r = rng.random()
            if r < 0.15:
                ops.append({"op": "get", "id": rng.randrange(i + 1)})
            elif r < 0.17:
                ops.append({"op": "reconnect"})
            elif r < 0.2:
                ops.append({"op": "get", "id": -1, "tag": "nothing"})

        self.build_history(rng, plan, style, n, extra, 250)
        plan["record"] = True
        plan["epilogue"] = rng.choice((1, 1, 1, 2, 5))
        plan["forks"] = rng.choice((0, 0, 0, 0, 1, 2))
        plan["after"] = rng.choice((0, 0, 0, 3, 12))
        return plan


class S03(S02):
    id = "S03"
    fault_modes = ("crash",)
    storages = ("db1", "db1", "db3", "dbf", "dbdefault")
    quick = (7000, 60.0)


class S04(StoreProperty):
    id = "S04"
    checks = ("shape",)
    storages = ("mem", "mem", "map", "db1", "db3", "mixtree", "mixtext")
    quick = (5000, 60.0)
    rule = "histories of at least two versions with distinct event traces"

    def generate(self, rng, tier):
        plan, style = self.header(rng)
        n = rng.choice((rng.randrange(2, 12), rng.randrange(10, 40), rng.randrange(30, 80), rng.randrange(30, 80)))
        if rng.random() < 0.06:
            n = rng.randrange(80, 400 if plan["storage"] in ("mem", "map") else 160)

        def extra(ops, i):
            r = rng.random()
            if r < 0.06:
                ops[-1]["shape"] = True
            elif r < 0.07:
                ops.append({"op": "reconnect"})
            elif r < 0.09:
                ops.append({"op": "restart"})
            elif r < 0.11 and n < 60:
                ops.append({"op": "audit"})

        if rng.random() < 0.004 * (1 if tier == "quick" else 4):
            memory = plan["storage"] in ("mem", "map")
            n = rng.choice((700, 1500, 3000) if memory else (300, 600))
            if tier != "quick":
                n *= rng.choice((1, 2, 4))
            plan["ops"].append({"op": "long", "tag": "long ", "n": n, "lines": rng.choice((1, 1, 2, 3)), "step": rng.choice((1, 7919, 13)), "restart": rng.random() < 0.3})
            plan["readback"] = False
            return plan
        self.build_history(rng, plan, style, n, extra, 120 if n > 30 else 400)
        plan["readback"] = n < 60
        return plan


class S05(StoreProperty):
    id = "S05"
    two_phase = True
    placements = 2
    checks = ("info",)
    fault_modes = ("io", "stmt", "map", "crash")
    quick = (8000, 60.0)
    rule = "histories of at least two versions with distinct event traces"

    def generate(self, rng, tier):
        plan, style = self.header(rng)
        n = rng.choice((rng.randrange(2, 7), rng.randrange(5, 14), rng.randrange(10, 20)))

        def extra(ops, i):
            r = rng.random()
            if r < 0.15:
                ops.append({"op": "info", "id": rng.choice((-1, i, rng.randrange(i + 1)))})
            elif r < 0.3:
                ops.append({
                    "op": "dup", "id": rng.randrange(i + 1), "base": rng.choice((None, rng.randrange(i + 1), i)),
                    "data": rng.choice((ops[0]["data"], texts.fresh(rng, style, 60))),
                })
            elif r < 0.45:
                ops.append({
                    "op": "badbase", "tag": f"refused {i}", "unknown": rng.choice(("unknown", "", "refused 0", "0")),
                    "of_absent": rng.random() < 0.5, "data": texts.fresh(rng, style, 60),
                })
            elif r < 0.49:
                ops.append({"op": "restart"})

        self.build_history(rng, plan, style, n, extra, 200)
        plan["record"] = True
        plan["epilogue"] = rng.choice((1, 1, 1, 2, 5))
        plan["forks"] = rng.choice((0, 0, 0, 0, 1, 2))
        plan["after"] = rng.choice((0, 0, 0, 3, 12))
        return plan


PROPS = {p.id: p for p in (S01, S02, S03, S04, S05)}
