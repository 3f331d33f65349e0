"""Setup: parse every specification with SANY and check the toolchain."""
import glob
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JARS = ('/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar')
bad = 0
for f in sorted(glob.glob(os.path.join(V, 'spec', '*.tla'))):
    p = subprocess.run(['java', '-cp', JARS, 'tla2sany.SANY', os.path.basename(f)],
                       cwd=os.path.dirname(f), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        bad = 1
        print(f, p.stdout)
sys.exit(bad)
