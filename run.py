#!/opt/venv/bin/python
import importlib
import logging
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.chdir(HERE)
os.environ.setdefault("PYTHONHASHSEED", "0")
from mc import env  # noqa: E402  (patches clocks, uuids, network before pypsrp is imported)
from mc import core  # noqa: E402


def main():
    prop = sys.argv[1]
    for name in sorted(os.listdir(os.path.join(HERE, "mc", "checks"))):
        if name.lower().startswith(prop.lower() + "_") and name.endswith(".py"):
            mod = importlib.import_module("mc.checks." + name[:-3])
            sys.modules["mc.active"] = mod
            return core.main(mod, sys.argv[2:])
    print("no such check", prop)
    return 3


if __name__ == "__main__":
    sys.exit(main())
