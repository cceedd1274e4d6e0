#!/usr/bin/env python3
"""MANIFEST.json setup_cmd: builds the MIR-dump driver and the library models, and warms the dependency build."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
import dump  # noqa: E402

try:
    print("dumped", dump.dump("/repo", os.path.join(HERE, ".build"), {}))
except dump.BuildError as e:
    print(e)
    sys.exit(1)
