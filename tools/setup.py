#!/usr/bin/env python3
"""setup_cmd: nothing to build; make sure the tools the checks need are there
and that every specification parses."""
import glob, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from vk import JAR, repo_env
assert shutil.which("java"), "java missing"
assert os.path.exists(repo_env()["PY"])
d = tempfile.mkdtemp(prefix="vk_setup_")
for f in glob.glob(os.path.join(V, "specs", "*.tla")):
    shutil.copy(f, d)
bad = 0
for f in sorted(glob.glob(os.path.join(d, "*.tla"))):
    p = subprocess.run(["java", "-Djava.io.tmpdir=" + d, "-cp", JAR, "tla2sany.SANY", os.path.basename(f)], cwd=d,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        bad = 1
        print(os.path.basename(f), p.stdout.decode()[-800:])
shutil.rmtree(d, ignore_errors=True)
print("setup ok" if not bad else "specifications do not parse")
sys.exit(bad)
