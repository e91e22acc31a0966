"""Nothing is compiled: make sure that the tools are there and that the specifications parse."""
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(ROOT, "harness"))
from framework import JARS, PY, REPO  # noqa: E402

subprocess.run([PY, "-c", "import pandas, numpy, yaml, typing_extensions"], check=True)
for name in sorted(os.listdir(os.path.join(ROOT, "specs"))):
    if name.endswith(".tla"):
        proc = subprocess.run(["java", "-cp", JARS, "tla2sany.SANY", name], cwd=os.path.join(ROOT, "specs"),
                              capture_output=True, text=True, check=False)
        if proc.returncode != 0:
            sys.exit(proc.stdout + proc.stderr)
assert os.path.isdir(os.path.join(REPO, "lazy_type_hint"))
print("ready")
