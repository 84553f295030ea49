"""Checks that the tools the monitors need are there; the checks build what they need themselves."""
import shutil, subprocess, sys
missing = [t for t in ("clang++", "g++", "Rscript", "/opt/vp/venv/bin/python") if not shutil.which(t)]
if missing:
    print("missing tools:", missing)
    sys.exit(1)
print("tools present")
