#!/usr/bin/env python3
"""Check that every build variant of the monitors builds (and warm the build cache)."""
import shutil, sys, tempfile
import run

tmp = tempfile.mkdtemp(prefix="verif_setup_")
try:
    b = run.Build(tmp)
    for v in ("ctl", "std", "race", "asan"):
        print(v, b.get(v))
finally:
    shutil.rmtree(tmp, ignore_errors=True)
