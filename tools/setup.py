#!/usr/bin/env python3
"""Sanity of the tools, and a first build (every check builds again for itself)."""
import os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = tempfile.mkdtemp(prefix="uipverif-setup-")
try:
    env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
    shutil.copytree(os.path.join(HERE, "harness"), os.path.join(d, "h"))
    subprocess.check_call(["go", "build", "-o", os.path.join(d, "drv"), "."], cwd=os.path.join(d, "h"), env=env)
    subprocess.check_call(["java", "-version"])
finally:
    shutil.rmtree(d, ignore_errors=True)
