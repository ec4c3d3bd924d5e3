"""Development aid: every selection pattern must name a function, and the functions a
selected one calls by contract alone (decided by the checks of other properties) are listed."""
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, overlay, props, tempfile
text = build.expand('/repo', os.path.join(tempfile.gettempdir(), 'selfcheck-target'))
allk = None
for p in sorted(props.PROPS):
    if len(sys.argv) > 1 and p not in sys.argv[1:]: continue
    P = props.PROPS[p]
    code, crates = build.assemble(text, props.selector(P), P['groups'])
    keys = set(k for c in crates for k in c.verified + c.assumed)
    dead = [x for x in set(P['select']) if x[0] != '<' and not any(re.search(x if x[0] in '^<:' else '(?:^|::)(?:%s)' % x, k) for k in keys)]
    ver = sorted(set(k for c in crates for k in c.verified))
    print(p, len(ver), 'dead:', dead)
    if len(sys.argv) > 1: print('  ' + '\n  '.join(ver))
