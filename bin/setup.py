#!/usr/bin/env python3
"""Nothing to build: checks that the tools and the framework are in place."""
import os, py_compile, sys, tempfile, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in ("/opt/jy/bin/jython", "/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"):
    if not os.path.exists(f):
        sys.exit("missing " + f)
for f in glob.glob(os.path.join(ROOT, "lib", "**", "*.py"), recursive=True):
    compile(open(f).read(), f, "exec")
print("ok")
