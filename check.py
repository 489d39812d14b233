#!/opt/venv/bin/python
"""Entry point of every check: check.py PROPERTY [--tier T] [--replay FILE]."""

import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0" or os.environ.get("GASPRA_SIM") != "1":
    env = dict(os.environ, PYTHONHASHSEED="0", GASPRA_SIM="1", PYTHONDONTWRITEBYTECODE="1",
               PYTHONPYCACHEPREFIX="/nonexistent/pycache", PYTHONNOUSERSITE="1")
    env.pop("PYTHONPATH", None)
    python = "/opt/venv/bin/python"
    if not os.path.exists(python):
        python = sys.executable
    here = os.path.dirname(os.path.abspath(__file__))
    if {"C01", "C02", "C03"} & set(sys.argv[1:2]):
        sys.dont_write_bytecode = True
        sys.path.insert(0, here)
        from sim.props_cli import library_path

        env["LD_PRELOAD"] = library_path()
    os.execve(python, [python, os.path.abspath(__file__), *sys.argv[1:]], env)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.environ.get("GASPRA_REPO", "/repo"), "src"))

from sim import core, registry  # noqa: E402

if __name__ == "__main__":
    code = core.main(registry.PROPS, sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
