"""One interpreter process of a T03 run: reads a job, answers as JSON."""

import gc
import json
import os
import random
import resource
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.join(os.environ["GASPRA_REPO"], "src"))


def the_store(job):
    """This process's part of the history of a store kept in a file."""
    if not job["history"]:
        return None
    import sqlite3

    from gaspra.db_collections import DBCollection
    from gaspra.db_tree import DBTree
    from gaspra.versions import Versions

    from sim.store import HOOKS, SimConnection, tokenizer_class

    connection = sqlite3.connect(job["db"], factory=SimConnection)
    HOOKS.inert = job["upto"][0] > 0  # attach: the tables are there
    try:
        v = Versions(head_version=DBCollection("heads", lambda: connection), diffs=DBCollection("diffs", lambda: connection),
                     tree=DBTree(lambda: connection), tokenizer_factory=tokenizer_class(job["tok"]))
    finally:
        HOOKS.inert = False
    a, b = job["upto"]
    known = {}
    problem = None
    for i, h in enumerate(job["history"]):
        if i >= b:
            break
        data = h["data"].encode(job["codec"], "replace")
        base = h["base"] if h["base"] in known else None
        if i >= a:
            v.add(h["tag"], data, base) if base is not None else v.add(h["tag"], data)
        known[h["tag"]] = (data, base)
    for tag, (data, base) in known.items():
        got = v.get(tag)
        if got != data:
            problem = f"{tag} reads as {got!r:.80} instead of {data!r:.80}"
        elif v.version_info(tag).base_version != base:
            problem = f"{tag} has the base version {v.version_info(tag).base_version!r} instead of {base!r}"
    connection.close()
    return problem


def clocks(seed):
    """Let every clock of this process start anywhere, run at any speed and jump; random numbers of its own."""
    import time

    r = random.Random(seed)
    random.seed(r.random())
    pace = r.choice((1e-6, 1e-3, 0.05, 1.0, 60.0))
    for name, steady in (("time", False), ("monotonic", True), ("perf_counter", True), ("process_time", True), ("thread_time", True)):
        state = [r.choice((0.0, 1.0, 1e6, 1.7e9, 4e9))]

        def now(state=state, steady=steady):
            step = r.random() * 2 * pace
            if r.random() < 0.1:
                step = r.choice((0.0, 3600.0, 86400.0 * 365))
                if not steady and r.random() < 0.5:
                    step = -step
            state[0] = max(0.0, state[0] + step)
            return state[0]

        setattr(time, name, now)
        setattr(time, name + "_ns", lambda now=now: int(now() * 1e9))
    time.sleep = lambda seconds: None


def surroundings(seed):
    """What else differs between processes: numbers, names, locale, machine."""
    import locale
    import platform
    import socket

    r = random.Random(seed)
    pid, parent, cpus = r.randrange(1, 1 << 22), r.choice((1, r.randrange(1, 1 << 22))), r.choice((1, 2, 3, 64, None))
    os.getpid = lambda: pid
    os.getppid = lambda: parent
    os.cpu_count = lambda: cpus
    if hasattr(os, "sched_getaffinity"):
        os.sched_getaffinity = lambda _pid: set(range(cpus or 1))
    host = r.choice(("localhost", "build-7", "x"))
    socket.gethostname = platform.node = lambda: host
    sys.argv = [r.choice(("", "-c", "/usr/bin/gaspra-diff")), *r.sample(("-v", "-O", "file"), r.randrange(3))]
    sys.setswitchinterval(r.choice((1e-6, 0.005, 1.0)))
    sys.setrecursionlimit(sys.getrecursionlimit() + r.choice((0, 1, 5000)))
    for key in r.sample(("USER", "TERM", "EDITOR", "DEBUG", "CI", "TMPDIR", "NO_COLOR"), r.randrange(5)):
        os.environ[key] = r.choice(("", "0", "1", "/nonexistent", "dumb"))
    for name in (r.choice(("", "C", "C.UTF-8", "en_US.UTF-8")),):
        try:
            locale.setlocale(locale.LC_ALL, name)
        except locale.Error:
            pass


def main():
    # A limit already in force may be lower, and cannot be raised.
    hard = resource.getrlimit(resource.RLIMIT_CPU)[1]
    if hard == resource.RLIM_INFINITY or hard > 51:
        resource.setrlimit(resource.RLIMIT_CPU, (50, 51))
    job = json.loads(sys.stdin.buffer.read())
    p = job["process"]
    if "gc" in p:
        if p["gc"]:
            gc.set_threshold(p["gc"])
        else:
            gc.disable()
    if "clock" in p:
        clocks(p["clock"])
    if "around" in p:
        surroundings(p["around"])
    from sim import calls

    order = list(range(len(job["calls"])))
    noise = list(job["noise"])
    if "order" in p:
        random.Random(p["order"]).shuffle(order)
    if "noise" in p:
        r = random.Random(p["noise"])
        r.shuffle(noise)
        for c in noise[: r.randrange(1, len(noise) + 1)]:
            calls.answer(c)
    answers = [None] * len(order)
    for i in order:
        answers[i] = calls.answer(job["calls"][i])
        if "noise" in p and noise and i % 3 == 0:
            calls.answer(noise[i % len(noise)])
    try:
        problem = the_store(job)
    except Exception as e:
        problem = f"{type(e).__name__}: {e}"
    answer = {"answers": answers, "store": problem}
    sys.stdout.write(json.dumps(answer))
    sys.stdout.flush()
    os._exit(0)


main()
