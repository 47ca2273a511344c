#!/usr/bin/env python3
"""reg.py ID TECHNIQUE NOTE: registers a check in gen_manifest.py and regenerates the manifest."""
import sys, os, subprocess
H = os.path.dirname(os.path.abspath(__file__))
p = H + '/gen_manifest.py'
s = open(p).read()
i, t, n = sys.argv[1:4]
assert '"%s":' % i not in s
s = s.replace('}\nEXTRA =', ' "%s": (%r,\n   %r),\n}\nEXTRA =' % (i, t, n))
open(p, 'w').write(s)
subprocess.check_call([sys.executable, p])
