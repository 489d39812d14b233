"""A simulated disk below the real SQLite library.

A sqlite3 VFS, written with ctypes, registered as the DEFAULT file system of
the SQLite library that Python's sqlite3 module uses.  Every database file the
code under test opens, by whatever path, lives in this module's memory: no
real file is touched.  All I/O, locks, sleeping, the clock and the random
numbers of SQLite go through here, so all of them are decided by the plan.

Durability model.  A file has a durable image and a list of writes and
truncations made since its last sync.  A process crash keeps them all (they
are in the page cache); a power loss keeps an arbitrary, plan-chosen subset of
them, whole or torn at sector boundaries.  Creating and deleting a file is
durable at once (SQLite's default does not sync the directory either, so a
stricter model would blame gaspra for an SQLite setting).
"""

from __future__ import annotations

import ctypes as C
import ctypes.util
import random

OK, BUSY, FULL, CANTOPEN, NOTFOUND, IOERR = 0, 5, 13, 14, 12, 10
IOERR_READ, IOERR_SHORT_READ, IOERR_WRITE, IOERR_FSYNC = 266, 522, 778, 1034
IOERR_TRUNCATE, IOERR_FSTAT, IOERR_DELETE, IOERR_ACCESS = 1546, 1802, 2570, 3338
IOERR_LOCK, IOERR_UNLOCK, IOERR_CHECKRESERVED = 3850, 2058, 3594

SECTOR = 512
NONE, SHARED, RESERVED, PENDING, EXCLUSIVE = range(5)


class SimFile:
    """One file of the simulated disk."""

    __slots__ = ("name", "durable", "current", "pending", "locks", "deleted")

    def __init__(self, name):
        self.name = name
        self.durable = bytearray()
        self.current = bytearray()
        self.pending = []  # ("w", offset, bytes) or ("t", size)
        self.locks = {}  # handle id -> level
        self.deleted = False

    @staticmethod
    def apply(image, change):
        if change[0] == "w":
            _, off, data = change
            if len(image) < off:
                image.extend(bytes(off - len(image)))
            image[off : off + len(data)] = data
        else:
            size = change[1]
            if len(image) > size:
                del image[size:]
            else:
                image.extend(bytes(size - len(image)))

    def write(self, off, data):
        change = ("w", off, bytes(data))
        self.apply(self.current, change)
        self.pending.append(change)

    def truncate(self, size):
        change = ("t", size)
        self.apply(self.current, change)
        self.pending.append(change)

    def sync(self):
        self.durable = bytearray(self.current)
        self.pending.clear()


class Handle:
    __slots__ = ("id", "file", "level", "client", "epoch")


class Disk:
    """Files, locks, I/O event counter, faults and simulated time."""

    def __init__(self):
        self.reset()

    def reset(self, seed=0):
        self.files = {}
        self.handles = {}
        self.next_handle = 1
        self.events = 0  # I/O events so far in this run
        self.op_events = 0  # I/O events in the current operation
        self.op_kinds = None  # record of event kinds of the current operation
        self.faults = []  # faults armed for the current operation
        self.active = []  # lasting faults now in force: [kind, remaining]
        self.fired = {}  # kind -> count
        self.crashed = False  # the (single) process is dead
        self.crash_info = None
        self.epoch = 0  # incremented on restart; stale handles are dead
        self.now = 0.0  # simulated seconds
        self.rng = random.Random(seed)  # only for SQLite's own randomness
        self.log = None  # optional event log (list)
        self.wait_hook = None  # called when a client has to wait: f(seconds)
        self.lock_hook = None  # called before each lock attempt
        self.harness_errors = []
        self.client_of = lambda: 0
        self.externals = []  # external lock holders: [file, level, until]
        self.reads = self.writes = self.syncs = 0
        self.frozen = None  # why nothing can be written for now

    # ------------------------------------------------------------- faults
    def count(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def begin_op(self, faults=(), record=False):
        self.op_events = 0
        self.faults = [dict(f) for f in faults if "at" in f]
        self.op_kinds = [] if record else None

    def end_op(self):
        """Faults end with the operation they belong to, unless lasting."""
        self.faults = []
        self.active = []
        self.externals = []

    APPLIES = {
        "read_err": ("read",),
        "write_err": ("write",),
        "torn_write": ("write",),
        "full": ("write", "truncate"),
        "sync_err": ("sync",),
        "trunc_err": ("truncate",),
        "delete_err": ("delete",),
        "open_err": ("open",),
        "lock_err": ("lock",),
        "ext_lock": ("lock",),
        "slow": ("read", "write", "sync", "lock", "open", "delete", "truncate"),
        "crash": ("write", "sync", "truncate", "delete", "lock", "open", "read", "unlock"),
        "power": ("write", "sync", "truncate", "delete", "lock", "open", "read", "unlock"),
    }

    FROZEN = {"readonly": ("write", "truncate", "delete", "sync"), "full": ("write",), "broken": ("write",)}

    def event(self, kind, fname, detail=0):
        """Account one I/O event; return the fault that hits it, or None."""
        index = self.op_events
        self.op_events += 1
        self.events += 1
        self.now += 0.00002
        if self.op_kinds is not None:
            self.op_kinds.append(kind)
        if self.log is not None:
            self.log.append((kind, fname, detail))
        if kind in self.FROZEN.get(self.frozen, ()) and fname[:1] not in ("\0", "t"):
            self.count("frozen_" + self.frozen)
            return {"kind": "full" if self.frozen == "full" else "frozen"}
        for lasting in self.active:
            if kind in self.APPLIES[lasting["kind"]]:
                self.count(lasting["kind"])
                lasting["n"] -= 1
                if lasting["n"] <= 0:
                    self.active.remove(lasting)
                if lasting["kind"] == "slow":
                    self.wait(lasting)
                    return None
                return lasting
        for fault in self.faults:
            if index >= fault["at"] and kind in self.APPLIES[fault["kind"]]:
                self.faults.remove(fault)
                self.count(fault["kind"])
                if fault.get("n", 1) > 1:
                    lasting = dict(fault)
                    lasting["n"] = fault["n"] - 1
                    self.active.append(lasting)
                if fault["kind"] == "slow":
                    self.wait(fault)
                    return None
                return fault
        return None

    def wait(self, fault):
        self.now += fault.get("s", 1.0)
        if self.wait_hook:
            self.wait_hook(fault.get("s", 1.0))

    def crash(self, fault):
        self.crashed = True
        self.crash_info = fault

    def restart(self, subset_seed=None, power=False):
        """The machine comes back: build the surviving image of every file."""
        rng = random.Random(subset_seed)
        for name in sorted(self.files):
            f = self.files[name]
            if power:
                image = bytearray(f.durable)
                mode = rng.randrange(4)  # none, all, random subset, prefix
                keep_to = rng.randrange(len(f.pending) + 1)
                for i, change in enumerate(f.pending):
                    if mode == 0:
                        break
                    if mode == 3 and i >= keep_to:
                        break
                    if mode == 2:
                        if change[0] == "t":
                            if rng.random() < 0.5:
                                f.apply(image, change)
                            continue
                        _, off, data = change
                        if len(data) <= SECTOR:
                            if rng.random() < 0.5:
                                f.apply(image, change)
                            continue
                        for s in range(0, len(data), SECTOR):
                            if rng.random() < 0.5:
                                f.apply(image, ("w", off + s, data[s : s + SECTOR]))
                                self.count("lost_or_torn_sector_survivor")
                        continue
                    f.apply(image, change)
                if f.pending:
                    self.count("unsynced_file_at_power_loss")
                f.current = image
                f.durable = bytearray(image)
            else:
                f.durable = bytearray(f.current)
            f.pending = []
            f.locks = {}
        self.epoch += 1
        self.crashed = False
        self.crash_info = None
        self.faults = []
        self.active = []
        self.externals = []

    # -------------------------------------------------------------- locks
    def external_level(self, fname):
        level = RESERVED if self.frozen == "locked" else NONE
        for holder in list(self.externals):
            if holder[2] <= self.now:
                self.externals.remove(holder)
            elif holder[0] == fname:
                level = max(level, holder[1])
        return level

    def lock(self, handle, want):
        f = handle.file
        others = [lv for h, lv in f.locks.items() if h != handle.id]
        ext = self.external_level(f.name)
        if ext:
            others.append(ext)
        have = handle.level
        if have >= want:
            return OK
        if want == SHARED:
            if any(lv >= PENDING for lv in others):
                return BUSY
            handle.level = SHARED
        elif want == RESERVED:
            if any(lv >= RESERVED for lv in others):
                if self.frozen == "locked":
                    self.count("frozen_locked")
                return BUSY
            handle.level = RESERVED
        elif want == EXCLUSIVE:
            if any(lv >= RESERVED for lv in others):
                return BUSY
            if any(lv >= SHARED for lv in others):
                handle.level = PENDING
                f.locks[handle.id] = PENDING
                return BUSY
            handle.level = EXCLUSIVE
        else:
            handle.level = want
        f.locks[handle.id] = handle.level
        return OK

    def unlock(self, handle, to):
        f = handle.file
        if handle.level > to:
            handle.level = to
            if to == NONE:
                f.locks.pop(handle.id, None)
            else:
                f.locks[handle.id] = to

    def used(self):
        return sum(len(f.current) for f in self.files.values())

    def image_hash(self):
        import hashlib

        h = hashlib.sha1()
        for name in sorted(self.files):
            h.update(name.encode())
            h.update(bytes(self.files[name].current))
        return h.hexdigest()[:16]


DISK = Disk()

# ------------------------------------------------------------------ ctypes
P = C.c_void_p
I = C.c_int
I64 = C.c_int64

F_close = C.CFUNCTYPE(I, P)
F_rw = C.CFUNCTYPE(I, P, P, I, I64)
F_trunc = C.CFUNCTYPE(I, P, I64)
F_sync = C.CFUNCTYPE(I, P, I)
F_size = C.CFUNCTYPE(I, P, C.POINTER(I64))
F_lock = C.CFUNCTYPE(I, P, I)
F_chk = C.CFUNCTYPE(I, P, C.POINTER(I))
F_ctl = C.CFUNCTYPE(I, P, I, P)
F_int = C.CFUNCTYPE(I, P)


class IoMethods(C.Structure):
    _fields_ = [
        ("iVersion", I),
        ("xClose", F_close),
        ("xRead", F_rw),
        ("xWrite", F_rw),
        ("xTruncate", F_trunc),
        ("xSync", F_sync),
        ("xFileSize", F_size),
        ("xLock", F_lock),
        ("xUnlock", F_lock),
        ("xCheckReservedLock", F_chk),
        ("xFileControl", F_ctl),
        ("xSectorSize", F_int),
        ("xDeviceCharacteristics", F_int),
    ]


class FileStruct(C.Structure):
    _fields_ = [("pMethods", C.POINTER(IoMethods)), ("id", I64)]


V_open = C.CFUNCTYPE(I, P, C.c_char_p, P, I, C.POINTER(I))
V_delete = C.CFUNCTYPE(I, P, C.c_char_p, I)
V_access = C.CFUNCTYPE(I, P, C.c_char_p, I, C.POINTER(I))
V_full = C.CFUNCTYPE(I, P, C.c_char_p, I, P)
V_rand = C.CFUNCTYPE(I, P, I, P)
V_sleep = C.CFUNCTYPE(I, P, I)
V_time = C.CFUNCTYPE(I, P, C.POINTER(C.c_double))
V_err = C.CFUNCTYPE(I, P, I, P)
V_time64 = C.CFUNCTYPE(I, P, C.POINTER(I64))


class Vfs(C.Structure):
    _fields_ = [
        ("iVersion", I),
        ("szOsFile", I),
        ("mxPathname", I),
        ("pNext", P),
        ("zName", C.c_char_p),
        ("pAppData", P),
        ("xOpen", V_open),
        ("xDelete", V_delete),
        ("xAccess", V_access),
        ("xFullPathname", V_full),
        ("xDlOpen", P),
        ("xDlError", P),
        ("xDlSym", P),
        ("xDlClose", P),
        ("xRandomness", V_rand),
        ("xSleep", V_sleep),
        ("xCurrentTime", V_time),
        ("xGetLastError", V_err),
        ("xCurrentTimeInt64", V_time64),
    ]


def _guard(default):
    """Callbacks must not raise: an exception here is a harness error."""

    def wrap(f):
        def g(*args):
            try:
                return f(*args)
            except BaseException as e:  # recorded and reported by the runner
                import traceback

                DISK.harness_errors.append(f"{type(e).__name__}: {e}\n" + traceback.format_exc())
                return default

        return g

    return wrap


def _handle(pfile):
    return DISK.handles[C.cast(pfile, C.POINTER(FileStruct))[0].id]


def _dead(h):
    return DISK.crashed or h.epoch != DISK.epoch


@F_close
@_guard(OK)
def x_close(pf):
    h = _handle(pf)
    del DISK.handles[h.id]
    if h.epoch == DISK.epoch:
        DISK.unlock(h, NONE)
    if h.file.deleted and h.file.name.startswith("\0"):
        DISK.files.pop(h.file.name, None)
    return OK


@F_rw
@_guard(IOERR_READ)
def x_read(pf, buf, n, off):
    h = _handle(pf)
    if _dead(h):
        return IOERR_READ
    fault = DISK.event("read", h.file.name, n)
    DISK.reads += 1
    if fault:
        if fault["kind"] in ("crash", "power"):
            DISK.crash(fault)
        return IOERR_READ
    data = h.file.current[off : off + n]
    C.memmove(buf, bytes(data), len(data))
    if len(data) < n:
        C.memset(buf + len(data), 0, n - len(data))
        return IOERR_SHORT_READ
    return OK


@F_rw
@_guard(IOERR_WRITE)
def x_write(pf, buf, n, off):
    h = _handle(pf)
    if _dead(h):
        return IOERR_WRITE
    data = C.string_at(buf, n)
    fault = DISK.event("write", h.file.name, n)
    DISK.writes += 1
    if fault:
        kind = fault["kind"]
        if kind in ("crash", "power"):
            part = fault.get("part", 0)  # sectors of this write that got out
            done = n if fault.get("after") else min(n, part * SECTOR)
            if done:
                h.file.write(off, data[:done])
            DISK.crash(fault)
            return IOERR_WRITE
        if kind == "torn_write":
            h.file.write(off, data[: min(n, fault.get("part", 1) * SECTOR)])
            return IOERR_WRITE
        if kind == "full":
            return FULL
        return IOERR_WRITE
    h.file.write(off, data)
    return OK


@F_trunc
@_guard(IOERR_TRUNCATE)
def x_truncate(pf, size):
    h = _handle(pf)
    if _dead(h):
        return IOERR_TRUNCATE
    fault = DISK.event("truncate", h.file.name, size)
    if fault:
        if fault["kind"] in ("crash", "power"):
            if fault.get("after"):
                h.file.truncate(size)
            DISK.crash(fault)
        return IOERR_TRUNCATE
    h.file.truncate(size)
    return OK


@F_sync
@_guard(IOERR_FSYNC)
def x_sync(pf, flags):
    h = _handle(pf)
    if _dead(h):
        return IOERR_FSYNC
    fault = DISK.event("sync", h.file.name)
    DISK.syncs += 1
    if fault:
        if fault["kind"] in ("crash", "power"):
            if fault.get("after"):
                h.file.sync()
            DISK.crash(fault)
        return IOERR_FSYNC
    h.file.sync()
    return OK


@F_size
@_guard(IOERR_FSTAT)
def x_size(pf, out):
    h = _handle(pf)
    if _dead(h):
        return IOERR_FSTAT
    out[0] = len(h.file.current)
    return OK


@F_lock
@_guard(IOERR_LOCK)
def x_lock(pf, level):
    h = _handle(pf)
    if _dead(h):
        return IOERR_LOCK
    if DISK.lock_hook:
        DISK.lock_hook(level)
    fault = DISK.event("lock", h.file.name, level)
    if fault:
        kind = fault["kind"]
        if kind in ("crash", "power"):
            DISK.crash(fault)
            return IOERR_LOCK
        if kind == "ext_lock":
            # some other program locks the file for a while
            DISK.externals.append([h.file.name, EXCLUSIVE if level == SHARED else RESERVED, DISK.now + fault.get("s", 1.0)])
        else:
            return IOERR_LOCK
    return DISK.lock(h, level)


@F_lock
@_guard(OK)
def x_unlock(pf, level):
    h = _handle(pf)
    if _dead(h):
        return OK
    fault = DISK.event("unlock", h.file.name, level)
    if fault and fault["kind"] in ("crash", "power"):
        DISK.crash(fault)
        return OK
    DISK.unlock(h, level)
    return OK


@F_chk
@_guard(IOERR_CHECKRESERVED)
def x_check(pf, out):
    h = _handle(pf)
    if _dead(h):
        return IOERR_CHECKRESERVED
    others = [lv for i, lv in h.file.locks.items()]
    ext = DISK.external_level(h.file.name)
    out[0] = 1 if max(others + [ext], default=0) >= RESERVED else 0
    return OK


@F_ctl
@_guard(NOTFOUND)
def x_ctl(pf, op, arg):
    return NOTFOUND


@F_int
def x_sector(pf):
    return SECTOR


@F_int
def x_dev(pf):
    return 0


IO = IoMethods(
    1, x_close, x_read, x_write, x_truncate, x_sync, x_size, x_lock, x_unlock,
    x_check, x_ctl, x_sector, x_dev,
)

OPEN_READONLY, OPEN_DELETEONCLOSE, OPEN_CREATE, OPEN_MEMORY = 1, 8, 4, 0x80


@V_open
@_guard(CANTOPEN)
def v_open(vfs, name, pf, flags, out_flags):
    fs = C.cast(pf, C.POINTER(FileStruct))
    fs[0].pMethods = C.POINTER(IoMethods)()  # NULL until the open succeeded
    if DISK.crashed:
        return CANTOPEN
    temp = name is None
    fname = f"\0tmp{DISK.next_handle}" if temp else name.decode("utf-8")
    fault = DISK.event("open", fname if not temp else "tmp")
    if fault:
        if fault["kind"] in ("crash", "power"):
            if fault.get("after") and flags & OPEN_CREATE and fname not in DISK.files:
                DISK.files[fname] = SimFile(fname)
            DISK.crash(fault)
        return CANTOPEN
    f = DISK.files.get(fname)
    if f is None:
        if not temp and not flags & OPEN_CREATE:
            return CANTOPEN
        if not temp and DISK.frozen == "readonly":
            DISK.count("frozen_readonly")
            return CANTOPEN
        f = DISK.files[fname] = SimFile(fname)
    if temp:
        f.deleted = True
    h = Handle()
    h.id = DISK.next_handle
    DISK.next_handle += 1
    h.file = f
    h.level = NONE
    h.client = DISK.client_of()
    h.epoch = DISK.epoch
    DISK.handles[h.id] = h
    fs[0].id = h.id
    fs[0].pMethods = C.pointer(IO)
    if out_flags:
        out_flags[0] = flags & ~6 | OPEN_READONLY if DISK.frozen == "readonly" and not temp else flags
    return OK


@V_delete
@_guard(IOERR_DELETE)
def v_delete(vfs, name, sync_dir):
    if DISK.crashed:
        return IOERR_DELETE
    fname = name.decode("utf-8")
    fault = DISK.event("delete", fname)
    if fault:
        if fault["kind"] in ("crash", "power"):
            if fault.get("after"):
                f = DISK.files.pop(fname, None)
                if f:
                    f.deleted = True
            DISK.crash(fault)
        return IOERR_DELETE
    f = DISK.files.pop(fname, None)
    if f is None:
        return 5898  # IOERR_DELETE_NOENT
    f.deleted = True
    return OK


@V_access
@_guard(IOERR_ACCESS)
def v_access(vfs, name, flags, out):
    if DISK.crashed:
        return IOERR_ACCESS
    f = DISK.files.get(name.decode("utf-8"))
    # like the unix VFS: an empty file does not "exist" for SQLITE_ACCESS_EXISTS
    out[0] = 1 if f is not None and (flags != 0 or len(f.current) > 0) else 0
    return OK


@V_full
@_guard(CANTOPEN)
def v_full(vfs, name, n, out):
    if len(name) + 1 > n:
        return CANTOPEN
    C.memmove(out, name + b"\0", len(name) + 1)
    return OK


@V_rand
@_guard(0)
def v_rand(vfs, n, out):
    C.memmove(out, DISK.rng.randbytes(n), n)
    return n


@V_sleep
@_guard(0)
def v_sleep(vfs, us):
    DISK.now += us / 1e6
    DISK.count("lock_wait")
    if DISK.wait_hook:
        DISK.wait_hook(us / 1e6)
    return us


@V_time
@_guard(0)
def v_time(vfs, out):
    out[0] = 2460000.5 + DISK.now / 86400.0
    return OK


@V_err
def v_err(vfs, n, out):
    return 0


@V_time64
@_guard(0)
def v_time64(vfs, out):
    out[0] = int((2460000.5 * 86400.0 + DISK.now) * 1000)
    return OK


_sqlite = None
_vfs = None


def install():
    """Register the simulated disk as SQLite's default VFS, for good."""
    global _sqlite, _vfs
    if _vfs is not None:
        return
    import sqlite3
    import _sqlite3

    # the very library _sqlite3 is linked with: already in the process
    path = None
    with open("/proc/self/maps") as maps:
        for line in maps:
            if "libsqlite3.so" in line:
                path = line.split()[-1]
                break
    _sqlite = C.CDLL(path) if path else C.PyDLL(_sqlite3.__file__)
    _sqlite.sqlite3_libversion.restype = C.c_char_p
    assert _sqlite.sqlite3_libversion().decode() == sqlite3.sqlite_version
    v = Vfs()
    v.iVersion = 2
    v.szOsFile = C.sizeof(FileStruct)
    v.mxPathname = 512
    v.zName = b"simdisk"
    v.xOpen, v.xDelete, v.xAccess, v.xFullPathname = v_open, v_delete, v_access, v_full
    v.xRandomness, v.xSleep, v.xCurrentTime = v_rand, v_sleep, v_time
    v.xGetLastError, v.xCurrentTimeInt64 = v_err, v_time64
    _vfs = v
    rc = _sqlite.sqlite3_vfs_register(C.byref(v), 1)
    assert rc == OK, rc


def memory_used():
    """Bytes that SQLite has allocated."""
    _sqlite.sqlite3_memory_used.restype = C.c_int64
    return _sqlite.sqlite3_memory_used()


def reseed(seed):
    """Start a run: empty disk, SQLite's own generator reset to the seed."""
    DISK.reset(seed)
    _sqlite.sqlite3_randomness(0, None)
