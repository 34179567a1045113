#!/usr/bin/env python3
"""setup_cmd: nothing to install; verifies that the toolchain the checks use is present."""
import shutil, sys, os
bad = [t for t in ("g++", "gcc", "ar") if not shutil.which(t)]
bad += [p for p in ("/opt/gfft/venv/bin/python", "/repo/src") if not os.path.exists(p)]
print("setup:", "missing " + ", ".join(bad) if bad else "ok")
sys.exit(1 if bad else 0)
