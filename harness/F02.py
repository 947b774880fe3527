#!/usr/bin/env python3-vt
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
if not sys.executable.startswith("/opt/veriftools"):
    os.execvp("python3-vt", ["python3-vt"] + sys.argv)
sys.path.insert(0, HERE + "/../vt")
import fctx
fctx.main("F02")
