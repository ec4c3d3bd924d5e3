"""One-off sanity check of the tools a check uses (nothing is built in advance:
every check expands and compiles /repo's current tree itself)."""
import subprocess, sys
for c in (['verus', '--version'], ['cargo', '--version'], ['rustc', '--version']):
    p = subprocess.run(c, capture_output=True, text=True)
    if p.returncode: sys.exit('%s does not run' % c[0])
