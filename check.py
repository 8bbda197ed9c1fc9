#!/usr/bin/env python3-vt
"""check.py PROPERTY [--thorough] [harness filter...]"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx import runner  # noqa

runner.setup_path()


def main():
    prop = sys.argv[1]
    mod = importlib.import_module("checks." + prop.lower())
    rc = runner.run_property(prop, mod.harnesses(), getattr(mod, "LEVEL", "model_checking"), mod.ASSUMPTIONS, mod.BOUNDS,
                             sys.argv[2:])
    sys.exit(rc)


if __name__ == "__main__":
    main()
