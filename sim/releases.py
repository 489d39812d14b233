"""Two releases of gaspra in one process, of which one is imported at a time.

"now" is the tree under test.  "then" is a copy of the modules that store and
read versions, as they were when these checks were written (sim/then): the
release that wrote the files which users have.  Objects keep the code of the
release that they were made with; use() decides what later imports find.
"""

from __future__ import annotations

import importlib
import os
import sys

THEN = os.path.join(os.path.dirname(os.path.abspath(__file__)), "then")
NEEDED = ("gaspra", "gaspra.db_collections", "gaspra.db_tree", "gaspra.manifest", "gaspra.memory_tree", "gaspra.serialize",
          "gaspra.tokenizers", "gaspra.versions", "gaspra.diff_to_lines")
RELEASES = {}


def ours(name):
    return name == "gaspra" or name.startswith("gaspra.")


def load():
    if RELEASES:
        return
    for n in NEEDED:
        importlib.import_module(n)
    RELEASES["now"] = {n: m for n, m in sys.modules.items() if ours(n)}
    remove()
    sys.path.insert(0, THEN)
    importlib.invalidate_caches()
    try:
        for n in NEEDED:
            importlib.import_module(n)
        if not os.path.abspath(sys.modules["gaspra"].__file__).startswith(THEN + os.sep):
            raise RuntimeError("the other release was not found")
        RELEASES["then"] = {n: m for n, m in sys.modules.items() if ours(n)}
    finally:
        sys.path.remove(THEN)
        importlib.invalidate_caches()
    use("now")


def remove():
    for n in [n for n in sys.modules if ours(n)]:
        del sys.modules[n]


def use(release):
    remove()
    sys.modules.update(RELEASES[release])
