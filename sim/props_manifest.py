"""M01: manifests."""

from __future__ import annotations

import collections.abc
import copy
import hashlib

from sim import texts
from sim.core import HarnessError, Violation, simpler_texts
from sim.props_store import ASSUME, CODEC, REAL, STUBS, StoreProperty, StoreRun, exact, short
from sim.store import DB_STORAGE, DISK, HOOKS, describe, export_faults


class Files(collections.abc.Mapping):
    """The caller's files, read when they are asked for, which may fail."""

    def __init__(self, files, first):
        self.files = files
        self.first = first  # what the caller does before each reading

    def __getitem__(self, tag):
        HOOKS.event("map", "before")
        data = self.files[tag]
        self.first()
        HOOKS.event("map", "after")
        HOOKS.maps += 1
        return data

    def __iter__(self):
        return iter(list(self.files))

    def __len__(self):
        return len(self.files)


class ManifestRun(StoreRun):
    def __init__(self, plan, out, log):
        super().__init__(plan, out, log)
        self.files = {}  # version tag -> content of every file version that may exist
        self.manifests = {}  # id -> op
        self.readable = {}  # tag -> dict, manifests known to be readable
        self.waiting = {}  # id -> op, manifests whose addition failed
        self.bases = {}  # tag -> the versions it may be based on

    def check_file(self, vtag, want, when):
        got = self.quiet(lambda: self.env.versions.get(vtag), f"reading {vtag!r} {when}")
        if not exact(got, want):
            raise Violation("incomplete" if got is None else "wrong-content", f"file version {vtag!r} reads as {short(got)} instead of {short(want)} {when}")

    def check_manifest(self, tag, when):
        """Readable manifests are exact and complete; says if it is readable."""
        from gaspra.manifest import get_manifest

        v = self.env.versions
        if self.quiet(lambda: v.get(tag), f"reading manifest {tag!r} {when}") is None:
            if tag in self.readable:
                raise Violation("lost", f"manifest {tag!r} is gone {when}")
            return False
        got = self.quiet(lambda: get_manifest(v, tag), f"get_manifest({tag!r}) {when}")
        op = next(o for o in self.manifests.values() if o["tag"] == tag)
        want = {name: vtag for name, vtag, _ in op["files"]}
        if got != want:
            raise Violation("wrong-manifest", f"manifest {tag!r} reads as {got!r:.200} instead of {want!r:.200} {when}")
        got.clear()  # the caller's own
        for name, vtag, data in op["files"]:
            self.check_file(vtag, self.enc(data), f"named by manifest {tag!r} as {name!r}, {when}")
        self.readable[tag] = want
        return True

    def check_base(self, tag, when):
        if tag not in self.bases:
            return
        info = self.quiet(lambda: self.env.versions.version_info(tag), f"version_info({tag!r}) {when}")
        if info is None or info.base_version not in self.bases[tag]:
            raise Violation("wrong-base", f"{tag!r} was added on {self.bases[tag]!r} but reports {info} {when}")

    def base_tag(self, i):
        while i is not None:
            op = self.manifests.get(i)
            if op is None:
                return None
            if op["tag"] in self.readable:
                return op["tag"]
            i = op["base"]
        return None

    def call(self, op):
        from gaspra.manifest import add_manifest

        manifest = {name: vtag for name, vtag, _ in op["files"]}
        contents = {vtag: self.enc(data) for _, vtag, data in op["files"]}
        base = self.base_tag(op["base"])
        v = self.env.versions
        self.expected = {op["tag"]: [base]}
        held = self.readable.get(base, {})
        for name, vtag in manifest.items():
            if vtag not in self.bases and not self.quiet(lambda: vtag in v, f"{vtag!r} in store"):
                self.expected.setdefault(vtag, []).append(held.get(name))
            elif self.plan.get("thin"):
                contents.pop(vtag, None)  # only what the store does not hold yet
        given = contents
        if self.plan.get("lazy"):
            # one file of the base may be read from the store meanwhile
            known = sorted(held.values())[:1] if self.plan["lazy"] == "reads" else []
            wanted = {t: self.enc(d) for o in self.manifests.values() for _, t, d in o["files"] if t in known}

            def first():
                for t in known:
                    got = v.get(t)
                    if not exact(got, wanted[t]):
                        raise Violation("wrong-content", f"file version {t!r} reads as {short(got)} instead of {short(wanted[t])} while manifest {op['tag']!r} is added")

            given = Files(contents, first)

        def call():
            try:
                add_manifest(op["tag"], manifest, v, given, base)
            finally:
                manifest.clear()
                contents.clear()

        return call

    def added(self, op):
        """The addition of a manifest succeeded: what is based on what."""
        self.bases.update(self.expected)
        for tag in self.expected:
            self.check_base(tag, f"after manifest {op['tag']!r} was added")
        self.out.add("probe:bases_checked", len(self.expected))

    def step(self, op):
        k = op["op"]
        if k == "manifest":
            self.manifests[op["id"]] = op
            if op["tag"] in self.readable:
                return
            r = self.do(self.call(op), op.get("faults", ()), "manifest")
            if r.ok:
                if not self.check_manifest(op["tag"], "right after its addition"):
                    raise Violation("lost", f"manifest {op['tag']!r} is not there right after its addition")
                self.added(op)
                return
            if not r.faulted and not r.crashed:
                raise Violation("operation-fails", f"adding manifest {op['tag']!r} failed although storage works: {describe(r)}")
            self.audit_manifests("after a failed addition")
            if self.check_manifest(op["tag"], "after its addition failed"):
                self.out.add("probe:failed_manifest_present")
            else:
                self.out.add("probe:failed_manifest_absent")
                if op.get("again"):
                    self.retry(op)
                else:
                    self.waiting[op["id"]] = op
        elif k == "direct":
            if op["tag"] in self.direct_done:
                return
            base = op["on"]
            v = self.env.versions
            if self.quiet(lambda: v.get(base), "reading a base") is None:
                return
            data = self.enc(op["data"])
            r = self.do(lambda: v.add(op["tag"], data, base), op.get("faults", ()), "direct")
            if r.ok:
                self.direct_done[op["tag"]] = data
            elif not r.faulted and not r.crashed:
                raise Violation("operation-fails", f"adding {op['tag']!r} failed although storage works: {describe(r)}")
        elif k == "restart":
            if self.plan["storage"] in DB_STORAGE:
                self.restart()
        elif k == "reconnect":
            if self.plan["storage"] != "dbdefault":
                self.env.drop_connections()
        elif k == "audit":
            self.audit_manifests("at an audit")
        else:
            raise HarnessError(k)

    def retry(self, op):
        self.quiet(self.call(op), f"adding manifest {op['tag']!r} again")
        if not self.check_manifest(op["tag"], "after it was added again"):
            raise Violation("lost", f"manifest {op['tag']!r} is not there after it was added again")
        self.added(op)
        self.out.add("manifests_added_again")

    def audit_manifests(self, when):
        for op in self.manifests.values():
            self.check_manifest(op["tag"], when)
        for tag, data in self.direct_done.items():
            self.check_file(tag, data, when)
        for tag in self.bases:
            self.check_base(tag, when)
        key = [self.plan["storage"]] + [(t, len(m)) for t, m in sorted(self.readable.items())]
        self.out.states.add(hashlib.sha1(repr(key).encode()).hexdigest()[:16])

    def twin_manifest(self, op):
        """Another manifest under the same tag in a second store."""
        from gaspra.manifest import add_manifest, get_manifest

        if op["tag"] in self.twin_manifests:
            return
        files = {name + "'": vtag for name, vtag, _ in op["files"][1:]}
        contents = {vtag: self.enc(data[::-1]) for _, vtag, data in op["files"]}
        base = self.manifests[op["base"]]["tag"] if op["base"] in self.manifests else None
        if base not in self.twin_manifests:
            base = None
        v = self.twin.versions
        self.quiet(lambda: add_manifest(op["tag"], dict(files), v, dict(contents), base), f"adding manifest {op['tag']!r} to a second store")
        self.twin_manifests[op["tag"]] = files
        self.twin_files.update({t: contents[t] for t in files.values()})
        for tag, want in self.twin_manifests.items():
            got = self.quiet(lambda: get_manifest(v, tag), f"get_manifest({tag!r}) in a second store")
            if got != want:
                raise Violation("wrong-manifest", f"manifest {tag!r} of a second store reads as {got!r:.200} instead of {want!r:.200}")
        for tag, want in self.twin_files.items():
            got = self.quiet(lambda: v.get(tag), f"reading {tag!r} in a second store")
            if not exact(got, want):
                raise Violation("wrong-content", f"file version {tag!r} of a second store reads as {short(got)} instead of {short(want)}")
        self.out.add("twin_manifests")

    def run(self):
        self.direct_done = {}
        self.twin_manifests, self.twin_files = {}, {}
        for op in self.plan["ops"]:
            self.step(op)
            if self.twin and op["op"] == "manifest":
                self.twin_manifest(op)
            self.out.add("op:" + op["op"])
        self.last()
        self.audit_manifests("at the end")
        for op in self.waiting.values():
            if op["tag"] not in self.readable:
                self.retry(op)
        self.audit_manifests("after everything was added again")
        self.out.add("storage:" + self.plan["storage"])
        self.out.add("restarts", self.restarts)
        export_faults(self.out)
        self.out.feedback = self.feedback
        self.out.nontrivial = bool(self.readable)


class M01(StoreProperty):
    id = "M01"
    two_phase = True
    placements = 2
    fault_modes = ("io", "stmt", "map", "crash")
    quick = (6000, 60.0)
    rule = "histories with at least one readable manifest and distinct event traces"
    real = REAL + ["gaspra.manifest"]
    stubs, assumptions = STUBS, ASSUME
    states_measure = "storage kind, readable manifests and their sizes at each audit"

    def generate(self, rng, tier):
        plan, style = self.header(rng)
        if plan["tokenizer"] in ("char", "symbol"):
            plan["codec"] = "utf-8"
        if rng.random() < 0.4:
            plan["lazy"] = rng.choice(("files", "files", "reads"))
        if rng.random() < 0.4:
            plan["thin"] = True
        n = rng.choice((rng.randrange(1, 4), rng.randrange(2, 8), rng.randrange(5, 12)))
        states = []  # per manifest: name -> (vtag, data)
        versions = []  # all file versions (name, vtag, data)
        names = ["README", "src/a.py", "src/b.py", "", "é.txt", 'we"ird', "z/漢", "new\nline", "-"]
        if rng.random() < 0.4:
            names = rng.sample(("a  b", "a b", "A", "a", " a", "a ", "tab\tx", "back\\slash", "x\\/y", "x//y", "x/y", "x/../y", "\x00", "\x7f", "e\u0301", "é", "\u2028",
                                "\U0001f600", "null", "1", "[1]", "{}", ",\n", '":"', "\\u0041", "%s", "a\r\n", "\ufeff", "x" * 300, "caf\udce9", "\udc80", "\udcff\udcfe.txt"), 9)
        vtag = rng.choice((lambda i: f"f{i}", lambda i: f"f{i}", lambda i: f"file  {i} \\/ \u2028é", lambda i: f"{i}", lambda i: '"' * i + "'"))
        mtags = rng.choice((lambda i: f"m{i}", lambda i: f"manifest {i}", lambda i: f"{9 - i % 10}-{i}"))
        count = 0
        for i in range(n):
            base = None
            r = rng.random()
            if i and r < 0.9:
                base = i - 1 if rng.random() < 0.65 else rng.randrange(i)
            files = dict(states[base]) if base is not None else {}
            if base is None:
                for name in rng.sample(names, rng.choice((0, 1, 2, 4))):
                    data = texts.fresh(rng, style, 200)
                    files[name] = (vtag(count), data)
                    count += 1
            for _ in range(rng.choice((0, 1, 1, 2, 3))):
                r = rng.random()
                have = sorted(files)
                if r < 0.4 and have:
                    name = rng.choice(have)
                    files[name] = (vtag(count), texts.evolve(rng, files[name][1], style, 200))
                    count += 1
                elif r < 0.6:
                    name = rng.choice(names)
                    files[name] = (vtag(count), texts.fresh(rng, style, 200))
                    count += 1
                elif r < 0.72 and have:
                    del files[rng.choice(have)]
                elif r < 0.82 and have:
                    files[rng.choice(names)] = files[rng.choice(have)]
                elif r < 0.92 and versions:
                    name, known, data = rng.choice(versions)
                    files[name] = (known, data)
                elif have and base is not None:
                    # a rename
                    name = rng.choice(have)
                    files[rng.choice(names)] = files.pop(name)
            listed = [[name, v, d] for name, (v, d) in files.items()]
            rng.shuffle(listed)
            states.append(files)
            versions += [(name, v, d) for name, (v, d) in files.items()]
            plan["ops"].append({"op": "manifest", "id": i, "tag": mtags(i), "base": base, "files": listed})
            r = rng.random()
            if r < 0.1 and versions:
                _, known, data = rng.choice(versions)
                plan["ops"].append({"op": "direct", "tag": f"direct {i}", "on": known, "data": texts.evolve(rng, data, style, 200)})
            elif r < 0.2:
                plan["ops"].append({"op": rng.choice(("restart", "reconnect", "audit"))})
        plan["record"] = True
        return plan

    def valid(self, plan):
        ids = set()
        contents = {}
        for op in plan["ops"]:
            if op["op"] == "manifest":
                if op["base"] is not None and op["base"] not in ids:
                    return False
                ids.add(op["id"])
                for _, v, d in op["files"]:
                    if contents.setdefault(v, d) != d:
                        return False
        return True

    def simpler(self, plan):
        for i, op in enumerate(plan["ops"]):
            if op["op"] != "manifest":
                continue
            cand = copy.deepcopy(plan)
            del cand["ops"][i]
            for o in cand["ops"]:
                if o.get("base") == op["id"]:
                    o["base"] = op["base"]
            yield cand
            if op["base"] is not None:
                cand = copy.deepcopy(plan)
                cand["ops"][i]["base"] = None
                yield cand
            for j in range(len(op["files"])):
                cand = copy.deepcopy(plan)
                del cand["ops"][i]["files"][j]
                yield cand
        tags = sorted({f[1] for o in plan["ops"] for f in o.get("files", ()) if f[2]})
        for t in tags:
            for cut in (0, 1, 2):
                cand = copy.deepcopy(plan)
                for o in cand["ops"]:
                    for f in o.get("files", ()):
                        if f[1] == t:
                            f[2] = "" if cut == 0 else f[2][: len(f[2]) // 2] if cut == 1 else f[2][len(f[2]) // 2 :]
                yield cand
        for key in ("twin", "lazy", "thin"):
            if key in plan:
                yield {k: v for k, v in copy.deepcopy(plan).items() if k != key}
        for key, value in (("storage", "mem"), ("storage", "map"), ("storage", "db1"), ("tokenizer", "null")):
            if plan[key] != value:
                yield dict(copy.deepcopy(plan), **{key: value})
        yield from simpler_texts(plan)

    def place(self, plan, feedback, rng):
        plan.pop("record", None)
        targets = [i for i, op in enumerate(plan["ops"]) if op["op"] in ("manifest", "direct")]
        if len(targets) != len(feedback):
            targets = targets[: len(feedback)]
        from sim.props_store import IO_ALL
        from sim.store import place_code, place_crash, place_io, place_map, place_stmt

        placed = 0
        for _ in range(rng.choice((1, 1, 2, 3))):
            if not targets:
                return None
            i = rng.choice(targets)
            kinds, trace, maps, code = feedback[targets.index(i)]
            modes = ["code"] * 9 * ("code" in self.fault_modes and code[0] > 0) + (["io"] if kinds else []) + (["stmt"] * 2 if trace else []) + (["map"] * 2 if maps else [])
            if kinds and plan["storage"] in DB_STORAGE:
                modes += ["crash"] * 2
            if not modes:
                continue
            mode = rng.choice(modes)
            f = (place_io(rng, kinds, IO_ALL) if mode == "io" else place_crash(rng, kinds) if mode == "crash"
                 else place_stmt(rng, trace) if mode == "stmt" else place_code(rng, code) if mode == "code" else place_map(rng, maps))
            if f is None:
                continue
            plan["ops"][i].setdefault("faults", []).append(f)
            plan["ops"][i]["again"] = rng.random() < 0.5
            placed += 1
        return plan if placed else None

    def execute(self, plan, out, log):
        ManifestRun(plan, out, log).run()


PROPS = {"M01": M01}
