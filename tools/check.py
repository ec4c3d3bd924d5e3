"""check.py PROPERTY [quick|thorough]: decide one property on /repo's working tree.

 1. macro-expand /repo and weave the contracts (overlay.py) into the expansion;
 2. let Verus discharge every obligation of the functions the property rests on,
    each against the contracts of its callees;
 3. replay: run the property on concrete inputs against the real crate, briefly
    when everything was proved, at length when an obligation failed.
Exit 0, or exit 1 with a VIOLATION line."""
import sys, os, re, json, time, subprocess, shutil, signal, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build, overlay, props, statemap, rustsrc, extract
REPO = '/repo'
# constructors of iterators: their contracts are about private fields
REP_NEW = re.compile(r"Iter<'a>::new$")
VMSG = re.compile(r'(postcondition|precondition|invariant|assertion|recommendation) (not|failed|might)|not satisfied|possible arithmetic|possible division|index in bounds|precondition not met|assertion failed|decreases|may not terminate|loop must have|unreachable|type invariant|fails to satisfy|bitvector|does not satisfy|unable to prove|bit shift|could not prove|might not|failed')
NOISE = re.compile(r'^(aborting due to|could not compile)')

def budget(tier): return dict(quick=dict(ok=5000, bad=45000), thorough=dict(ok=90000, bad=180000))[tier]

def own_lines(blk):
    """lines of the woven source a message of the verifier points at (not those of vstd)"""
    r, own = [], True
    for l in blk.split('\n'):
        m = re.match(r'\s*(?:-->|:::) ([^\n]*?):(\d+):\d+', l)
        if m:
            own = m.group(1).endswith('langtag_contracts.rs')
            if own: r.append(int(m.group(2)))
            continue
        m = re.match(r'\s*(\d+) +[|+]', l)
        if m and own: r.append(int(m.group(1)))
    return r

class Verus:
    """one run of the verifier"""
    def __init__(self, code, mods, work, root=False, rlimit=100):
        self.path = os.path.join(work, 'langtag_contracts.rs')
        open(self.path, 'w').write(code)
        self.code = code
        self.cmd = ['verus', self.path, '--triggers-mode', 'silent', '--rlimit', str(rlimit), '--multiple-errors', '3', '--num-threads', '8', '--output-json', '--time-expanded', '--edition', '2024']
        for m in mods: self.cmd += ['--verify-module', m]
        if root: self.cmd.append('--verify-root')
        env = dict(os.environ, RUST_BACKTRACE='0')
        t = time.time()
        p = subprocess.run(self.cmd, capture_output=True, text=True, env=env, cwd=work, timeout=780)
        self.wall = time.time() - t
        self.err = p.stderr
        try: self.json = json.loads(p.stdout)
        except ValueError: self.json = {}
        r = self.json.get('verification-results', {})
        self.verified, self.errors = r.get('verified', 0), r.get('errors', 0)
        self.ok = p.returncode == 0 and self.verified > 0 and not self.errors and not r.get('encountered-error') and not r.get('encountered-vir-error')
        self.marks = [(m.start(), m.group(1)) for m in re.finditer(r'/\*@F (.*?)@\*/', code)]
        self.lines = [0]
        for m in re.finditer('\n', code): self.lines.append(m.end())
        self.smt = self.json.get('times-ms', {}).get('smt', {}).get('total', 0) / 1000.0
        self.diags = []
        for blk in re.split(r'\n(?=error|warning|note)', '\n' + p.stderr):
            blk = blk.strip('\n')
            if not blk.startswith('error'): continue
            msg = re.sub(r'^error(\[\w+\])?: ', '', blk.split('\n')[0])
            if NOISE.match(msg) or 'verification results' in msg: continue
            keys = []
            for ln in own_lines(blk):
                k = self.fn_at(ln)
                if k and k not in keys: keys.append(k)
            kind = 'rlimit' if 'rlimit' in msg or 'Resource limit' in msg else 'verify' if VMSG.search(msg) and not blk.startswith('error[') else 'compile'
            self.diags.append(dict(kind=kind, msg=msg, fn=keys[0] if keys else None, fns=keys, text=blk))
        if self.json.get('verification-results', {}).get('encountered-vir-error'):
            for d in self.diags: d['kind'] = 'compile'
        elif not self.ok and r.get('verified') is None:
            for d in self.diags: d['kind'] = 'compile'
    def fn_at(self, line):
        """the function a line of the woven source belongs to"""
        pos = self.lines[min(line, len(self.lines)) - 1]
        end = self.lines[line] if line < len(self.lines) else len(self.code)
        import bisect
        i = bisect.bisect_left(self.marks, (end, '')) - 1
        first = self.marks[0][0] if self.marks else len(self.code)
        if i < 0 or pos < first - 200:
            m = list(re.finditer(r'\bproof fn (\w+)|\bspec fn (\w+)|axiom fn (\w+)', self.code[:end]))
            return 'lemma ' + [x for x in m[-1].groups() if x][0] if m else None
        return self.marks[i][1]

def panics(d, v):
    """is the failed obligation one that rules out a panic, an overflow or non-termination?"""
    if re.search(r'arithmetic|division|shift|index in bounds|decreases|terminate|unreachable', d['msg']): return True
    if 'precondition' not in d['msg']: return False
    # the precondition of a function of the standard library, as opposed to one of the crate's own
    own = [v.fn_at(n) for n in own_lines(d['text'])]
    return not any(k and not k.startswith('lemma ') for k in own if k != d['fn'])

def fn_times(v):
    out = []
    for m in v.json.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
        for f in m.get('function-breakdown', []): out.append((f['function'], f['time-micros'] / 1e6, f['success']))
    return out

def sh(p): return subprocess.list2cmdline(p)

def run(prop, tier):
    t0 = time.time()
    P = props.PROPS[prop]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    work = tempfile.mkdtemp(prefix=prop + '-', dir=os.path.join(VERIF, '.work'))
    ev = os.path.join(VERIF, 'evidence'); os.makedirs(ev, exist_ok=True)
    try: return decide(prop, tier, P, seed, work, ev, t0)
    finally: os.environ.get('KEEP') or shutil.rmtree(work, ignore_errors=True)

def decide(prop, tier, P, seed, work, ev, t0):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(work, 'ht'), RUSTUP_TOOLCHAIN='stable')
    hb = subprocess.Popen(['cargo', 'build', '--release', '--offline', '--locked', '-q'], cwd=os.path.join(VERIF, 'harness'), env=env, stdout=subprocess.DEVNULL, stderr=open(os.path.join(work, 'hb.err'), 'w'))
    hints, undecided, notes = [], {}, []
    v, crates, text = None, [], None
    failed, lost = [], {}
    try:
        text = build.expand(REPO, os.path.join(work, 'et'))
        sel = props.selector(P)
        force = set()
        for attempt in range(6):
            try:
                code, crates = build.assemble(text, sel, P['groups'], force, os.path.join(VERIF, 'spec/statemap.json'), keep=bool(P.get('panics')))
            except statemap.Mismatch as x:
                # the automaton provably decides another language: x.word tells them apart
                hints.append(x.word); notes.append('automaton %s leaves its production after %r' % (x.x, x.word))
                failed.append(dict(fn='grammar::%s' % x.x, msg='the automaton does not simulate the reference automaton of its production', text='distinguishing word: %r' % x.word, intact=True))
                break
            mods = sorted(set(m for c in crates for m in c.mods_verified()) | set(P['specs']))
            root = '' in mods; mods = [m for m in mods if m]
            v = Verus(code, mods, work, root)
            bad = [d for d in v.diags if d['kind'] == 'compile']
            if not bad and (v.ok or v.diags): break
            ks = set(d['fn'] for d in bad if d['fn'] and not d['fn'].startswith('lemma ')) - force
            for d in bad: notes.append('%s: %s' % (d['fn'], d['msg']))
            if not ks: undecided['*'] = 'the woven source is outside the reach of the verifier: ' + (bad[0]['msg'] if bad else v.err[-300:]); break
            force |= ks
        else: undecided['*'] = 'too many functions outside the reach of the verifier'
    except (RuntimeError, rustsrc.ParseError, extract.LostAnchor, subprocess.SubprocessError, KeyError, IndexError, ValueError) as x:
        undecided['*'] = '%s: %s' % (type(x).__name__, str(x)[-800:])
    for c in crates:
        for k, why in c.lost: lost[k] = why
    soft = dict(x for c in crates for x in c.soft.items())
    unfolded = set(k for c in crates for k in c.unfolded)
    uncon = set(k for c in crates for k in c.uncontracted if not overlay.KNOWN_RE.search(k))
    if v and '*' not in undecided:
        for d in v.diags:
            if d['kind'] == 'compile': continue
            k = d['fn'] or '?'
            if d['kind'] == 'rlimit': undecided[k] = 'resource limit of the solver'
            else:
                names = uncon and crates and [u for u in uncon if re.search(r'\b%s\b' % re.escape(u.split('::')[-1]), body_of(crates, k))]
                if names: undecided[k] = 'calls %s, which has no contract (%s)' % (', '.join(sorted(names)), d['msg'])
                elif k in uncon: undecided[k] = 'has no contract of its own (%s)' % d['msg']
                elif 'type invariant after assignment' in d['msg'] and len(re.findall(r'self\s*\.\s*\w+\s*[-+]?=[^=]', body_of(crates, k))) > 1: undecided[k] = 'the iterator passes through a state outside its invariant between two assignments'
                elif REP_NEW.search(k): undecided[k] = 'a private constructor, judged by the representation the annotations were written for (%s)' % d['msg']
                elif k in soft: undecided[k] = 'its annotations were written for another shape of the function: %s (%s)' % (soft[k], d['msg'])
                elif P.get('panics') and not panics(d, v): undecided[k] = 'a functional contract fails (%s), which does not itself make anything panic' % d['msg']
                else: failed.append(dict(fn=k, msg=d['msg'], text=d['text'], intact=True))
    undecided.update(lost)
    # a function that did not exist when the contracts were written (an override of a provided
    # method, say) and that the contracts do not speak about: proved free of panics, no more
    if crates and '*' not in undecided:
        done = set(k for c in crates for k in c.verified) if P.get('panics') else set()
        for k in sorted(uncon - done):
            if sel(k) and k not in undecided and k not in unfolded: undecided[k] = 'new function without a contract'
    # a failing input, on the real code
    hb.wait()
    hx = os.path.join(work, 'ht/release/harness')
    search = None
    b = budget(tier)
    ms = b['bad'] if failed or undecided else P.get('ms', b['ok'])
    if os.path.exists(hx):
        try:
            p = subprocess.run([hx, 'run', prop, str(seed), str(ms), '8'] + [h.replace('*', 'é').encode().hex() for h in hints], capture_output=True, text=True, timeout=ms / 1000 + 120, env=dict(os.environ, HARNESS_CUR=work))
            if p.returncode < 0: search = crashed(hx, prop, work, p)
            else: search = json.loads(p.stdout)
        except (subprocess.SubprocessError, ValueError) as x: notes.append('replay harness: %r' % x)
    else: notes.append('replay harness did not build: ' + open(os.path.join(work, 'hb.err')).read()[-600:])
    fns = sorted(set(k for c in crates for k in c.verified))
    assumed = sorted(set(k for c in crates for k in c.assumed))
    trusted = sorted(k for k in assumed if overlay.T.get(k, {}).get('trusted'))
    callee = [k for k in assumed if k not in trusted and k not in lost]
    n = (v.verified + v.errors) if v else 0
    lem = len([1 for f, t, s in (fn_times(v) if v else [])])
    slow = sorted(fn_times(v), key=lambda x: -x[1])[:5] if v else []
    status = 'proved' if v and v.ok and not undecided and not failed else 'undecided' if not failed else 'refuted'
    e = dict(property=prop, tier=tier, seed=seed, level='proof',
        coverage=dict(obligations=n, discharged=v.verified if v else 0,
            checker_cmd=sh(['verus'] + v.cmd[1:]) if v else 'verus (not reached)',
            trusted_base=props.trusted_base(P, trusted),
            status=status,
            backend='Verus %s, z3' % (v.json.get('times-ms', {}).get('verus-build', {}).get('version', '?') if v else '?'),
            functions_under_contract=len(fns), functions=fns,
            callee_contracts_used_here_proved_by_other_checks=len(callee),
            smt_queries=lem, solver_seconds=round(v.smt, 2) if v else 0, verifier_wall_s=round(v.wall, 2) if v else 0,
            slowest=[dict(function=f, seconds=round(t, 3)) for f, t, s in slow],
            failed_obligations=[dict(function=f['fn'], message=f['msg']) for f in failed],
            bounded=dict((k, why) for k, why in sorted(undecided.items())),
            replay=dict(evaluations=search['evaluations'], distinct_nontrivial=search['distinct_nontrivial'], samples=search['samples'], rule='concrete inputs run against the real crate (exhaustive short words, grammar-directed values, mutations); never counted as proof') if search else None,
            notes=notes),
        assumptions=props.assumptions(P), violations=0)
    rc, out = 0, None
    if search and search['fail']:
        rp = os.path.join(ev, prop + '.replay.json')
        f = search['fail']
        json.dump(dict(f, how='build /verif/harness and run: harness replay %s %s' % (prop, ' '.join(f['case'])), failed_obligations=[dict(function=x['fn'], message=x['msg'], output=x['text']) for x in failed][:5], undecided=undecided), open(rp, 'w'), indent=1)
        out = 'VIOLATION property=%s replay=%s' % (prop, rp); rc = 1
        print('%s: %s' % (prop, f['message']))
    elif failed:
        rp = os.path.join(ev, prop + '.replay.json')
        json.dump(dict(property=prop, failed_obligations=[dict(function=x['fn'], message=x['msg'], output=x['text']) for x in failed], verifier_output=v.err[-20000:] if v else None, note='the verifier gives no counterexample and the search of %d inputs found none' % (search['evaluations'] if search else 0)), open(rp, 'w'), indent=1)
        for x in failed[:5]: print('%s: obligation failed in %s: %s' % (prop, x['fn'], x['msg']))
        out = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp); rc = 1
    elif undecided:
        for k, why in sorted(undecided.items())[:8]: print('%s: BOUNDED only, %s: %s' % (prop, k, why))
        if not search: print('%s: no answer: neither the verifier nor the replay harness ran' % prop); rc = 2
        e['coverage']['explanation'] = 'the listed functions could not be brought before the verifier on this tree; for them only the bounded replay stands'
    e['violations'] = 1 if rc == 1 else 0
    e['wall_s'] = round(time.time() - t0, 2)
    json.dump(e, open(os.path.join(ev, prop + '.json'), 'w'), indent=1)
    print('%s: %s, %d/%d obligations discharged over %d functions, solver %.1f s, replay of %d inputs, %.1f s' % (prop, status, e['coverage']['discharged'], n, len(fns), e['coverage']['solver_seconds'], search['evaluations'] if search else 0, e['wall_s']))
    if out: print(out)
    return rc

def crashed(hx, prop, work, p):
    """the process died (stack exhausted, abort): the case it died on"""
    for f in sorted(os.listdir(work)):
        if not f.startswith('cur.'): continue
        case = open(os.path.join(work, f)).read().split('\n')[0].split(' ')[:-1]
        q = subprocess.run([hx, 'replay', prop, '@' + os.path.join(work, f)], capture_output=True, text=True, timeout=60)
        if q.returncode < 0:
            m = 'the process ends with signal %d: %s' % (-q.returncode, ' '.join(q.stderr.split())[-200:])
            return dict(evaluations=1, distinct_nontrivial=1, samples=[], fail=dict(property=prop, case=case, text=[bytes.fromhex(x).decode('latin-1')[:400] for x in case], message=m))
    raise ValueError('harness ended by signal %d: %s' % (-p.returncode, p.stderr[-300:]))

def body_of(crates, key):
    for c in crates:
        for it in c.src.walk():
            if it.key == key: return c.src.text[it.a:it.b]
    return ''

if __name__ == '__main__':
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    os.makedirs(os.path.join(VERIF, '.work'), exist_ok=True)
    sys.exit(run(prop, tier))
