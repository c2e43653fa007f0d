"""setup_cmd: nothing to build; verify that the tools the checks need are there."""
import shutil, sys
import numpy, z3
missing = [t for t in ("clang++", "g++") if not shutil.which(t)]
if missing:
    sys.exit("missing: " + ", ".join(missing))
print("numpy", numpy.__version__, "z3", z3.get_version_string(), "ok")
