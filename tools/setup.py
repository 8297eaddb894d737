#!/usr/bin/env python3
"""Nothing is prebuilt: every check builds its harness from /repo's working tree. This only
confirms that the compiler the checks use is there."""
import os
import subprocess
import sys
import tempfile

with tempfile.TemporaryDirectory() as d:
    open(d + "/a.cpp", "w").write("int main(){return 0;}\n")
    sys.exit(subprocess.call(["g++", "-std=c++17", "-fsanitize=address,undefined", d + "/a.cpp", "-o", d + "/a"]) or
             (0 if os.path.isdir("/repo/src/edyn") else 1))
