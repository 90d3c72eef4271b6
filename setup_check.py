#!/usr/bin/python3
"""setup: nothing is compiled ahead of time (Jython compiles /repo and the
monitors on each run); this confirms the tools the checks need are there."""
import os, subprocess, sys
for p in ('/opt/vp/runner/jython.sh', '/opt/vp/runner/compat.py', '/repo/pyslet/pyslet/__init__.py'):
    if not os.path.exists(p):
        sys.exit('missing ' + p)
r = subprocess.run(['/opt/vp/runner/jython.sh', '-c', 'import java.time; print "jython ok"'],
                   stdout=subprocess.PIPE, timeout=120)
sys.stdout.write(r.stdout.decode())
sys.exit(0 if b'jython ok' in r.stdout else 1)
