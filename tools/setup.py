#!/usr/bin/env python3
"""Build the harness, and have TLC parse every module."""

import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import JARS, SPEC, Broken, Check, say

check = Check("setup", "quick", 1)
try:
    check.build(0)
    check.build(0, profile="release")
    for name in ("Gen", "Eval", "Font", "FontTrace", "Registry", "Stream"):
        result = subprocess.run(["java", "-Djava.io.tmpdir=" + check.work, "-cp", JARS, "tla2sany.SANY",
                                 name + ".tla"], cwd=SPEC, capture_output=True, text=True)
        if result.returncode != 0 or "Could not parse" in result.stdout:
            raise Broken("%s.tla does not parse:\n%s" % (name, result.stdout[-2000:]))
        say("  %s.tla parses" % name)
except Broken as error:
    say("BROKEN: %s" % error)
    sys.exit(2)
