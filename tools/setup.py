#!/usr/bin/env python3
"""Checks that the tools are there; every check compiles /repo's current tree itself."""
import shutil, subprocess, sys
missing = [t for t in ("clang++", "ar", "pkg-config", "localedef") if not shutil.which(t)]
for m in ("Fcitx5Core", "fmt", "json-c", "icu-uc"):
    if subprocess.run(["pkg-config", "--exists", m]).returncode:
        missing.append(m)
if missing:
    print("missing:", missing)
    sys.exit(1)
print("ready")
