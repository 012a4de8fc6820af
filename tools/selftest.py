#!/usr/bin/env python3
"""setup_cmd: checks that the tools the framework needs are there and work."""
import subprocess, sys
for c in (["g++", "--version"], ["z3-new", "--version"], ["z3", "--version"], ["cvc5", "--version"]):
    r = subprocess.run(c, capture_output=True, text=True)
    if r.returncode:
        sys.exit("missing tool: %s" % c[0])
r = subprocess.run(["z3-new", "-in"], input="(declare-const x Real)(assert (< (* x x) 0.0))(check-sat)", capture_output=True, text=True)
if r.stdout.strip() != "unsat":
    sys.exit("z3-new does not answer: %r" % r.stdout)
print("tools ok")
