#!/usr/bin/env python3
"""python3 tools/mark.py ID "note": flag a property of props.py as built, then regenerate."""
import os
import subprocess
import sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(R, "tools/props.py")
t = open(f).read()
a = t.index('prop("%s"' % sys.argv[1])
b = t.find('\nprop("', a)
b = len(t) if b < 0 else b
blk = t[a:b]
k = blk.rindex("False)")
t = t[:a] + blk[:k] + "True, %r)" % sys.argv[2] + blk[k + 6:] + t[b:]
open(f, "w").write(t)
subprocess.check_call([sys.executable, os.path.join(R, "tools/gen.py")])
