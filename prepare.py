#!/usr/bin/env python3
"""setup_cmd: nothing persists between runs, so this only proves that the
toolchain the checks rely on is present and that the tree builds."""
import sys

sys.dont_write_bytecode = True
from vlib import build  # noqa: E402

print("normal build:", build.build("normal"))
