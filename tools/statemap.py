"""The map from the u32 states of an automaton in /repo/src/grammar.rs to the
states of the reference automaton.  It is a proof hint: the verifier checks it.
Found by running the extracted push/is_accepting text and walking both automata."""
import re, subprocess, os, tempfile, hashlib, json
from rustsrc import Src

class Mismatch(Exception):
    def __init__(self, x, word): self.x, self.word = x, word

CL = 'abcdefghijklmnopqrstuvwxyz0-*'

def compute(src, R, automata, cache=None):
    """src: Src of the expansion; returns {X: {state: ref state}}"""
    txt, keys = [], {}
    fns = {it.key: it for it in src.walk() if it.kind == 'fn' and it.path[:1] == ('grammar',)}
    structs = {it.key: it for it in src.walk() if it.kind == 'struct' and it.path[:1] == ('grammar',)}
    # whatever else of the module the automata use (helper functions, constants), found by name
    free = [it for it in src.walk() if it.key and it.path == ('grammar',) and it.kind in ('fn', 'const', 'static')
            and it.key.count('::') == 1]
    own = {X: [it for it in src.walk() if it.key and it.kind in ('fn', 'const') and it.key.startswith('grammar::%s::' % X)
               and it.key.count('::') == 2 and it.key.rsplit('::')[-1] not in ('new', 'push', 'is_accepting')] for X, p in automata}
    for X, p in automata:
        parts = [src.text[structs['grammar::' + X].a:structs['grammar::' + X].b]]
        for f in ('new', 'push', 'is_accepting'):
            it = fns['grammar::%s::%s' % (X, f)]
            parts.append(src.text[it.a:it.b])
        out = ''; used = ' '.join(parts); more = True; todo = [(0, it) for it in free] + [(1, it) for it in own[X]]
        while more:
            more = False
            for w, it in list(todo):
                if re.search(r'\b%s\b' % re.escape(it.key.rsplit('::')[-1]), used):
                    todo.remove((w, it)); more = True
                    b = src.text[it.a:it.b]; used += b
                    if w: parts.append(b)
                    else: out += b + '\n'
        parts[0] = out + parts[0]
        txt.append((X, parts))
    h = hashlib.sha256(json.dumps([txt, R['init']]).encode()).hexdigest()
    if cache and os.path.exists(cache):
        c = json.load(open(cache))
        if c['hash'] == h: return {x: {int(a): b for a, b in m.items()} for x, m in c['map'].items()}
    prog = '#![allow(unused)]\n'
    main = ''
    for X, parts in txt:
        prog += 'mod m_%s { %s impl %s { %s \n pub fn go() { let mut q = vec![Self::new().state]; let mut i = 0; while i < q.len() { let s = q[i]; i += 1; print!("%s {} {}", s, (Self{state: s}).is_accepting()); for c in "%s".chars() { let mut a = Self{state: s}; if a.push(c) { print!(" {}", a.state); if !q.contains(&a.state) { q.push(a.state) } } else { print!(" -") } } println!(); } } } }\n' % (
            X, parts[0], X, '\n'.join(parts[1:]), X, CL)
        main += 'm_%s::%s::go();' % (X, X)
    prog += 'fn main() { %s }\n' % main
    with tempfile.TemporaryDirectory() as d:
        open(d + '/p.rs', 'w').write(prog)
        subprocess.run(['rustc', '--edition', '2024', '-O', d + '/p.rs', '-o', d + '/p'], check=True, capture_output=True)
        out = subprocess.run([d + '/p'], check=True, capture_output=True, text=True, timeout=60).stdout
    tab = {}; first = {}
    for l in out.split('\n'):
        w = l.split()
        if w:
            first.setdefault(w[0], int(w[1]))
            tab.setdefault(w[0], {})[int(w[1])] = (w[2] == 'true', [-1 if x == '-' else int(x) for x in w[3:]])
    res = {}
    for X, p in automata:
        m = {first[X]: R['init'][X]}; word = {first[X]: ''}; q = [first[X]]; 
        while q:
            s = q.pop(0)
            ac, row = tab[X][s]
            if ac != R['ma'][m[s]]: raise Mismatch(X, word[s])
            for c, n in enumerate(row):
                t = R['mt'][m[s]][c]
                if n < 0 and t < 0: continue
                if n < 0 or t < 0: raise Mismatch(X, word[s] + CL[c])
                if n in m:
                    if m[n] != t: raise Mismatch(X, word[s] + CL[c])
                else: m[n] = t; word[n] = word[s] + CL[c]; q.append(n)
        res[X] = m
    if cache is not None:
        try: json.dump({'hash': h, 'map': res}, open(cache, 'w'), sort_keys=True)
        except OSError: pass
    return res

def text(maps):
    out = []
    for X in sorted(maps):
        m = maps[X]; ks = sorted(m)
        def tr(lo, hi):
            if hi - lo == 1: return 'if q == %d { %d } else { -1 }' % (ks[lo], m[ks[lo]])
            mid = (lo + hi) // 2
            return 'if q < %d { %s } else { %s }' % (ks[mid], tr(lo, mid), tr(mid, hi))
        out.append('/// proof hint: state of %s -> state of the reference automaton\n#[verifier::opaque] pub open spec fn st_%s(q: u32) -> int { %s }\nimpl %s { pub closed spec fn q(&self) -> int { st_%s(self.state) } }\n' % (X, X, tr(0, len(ks)), X, X))
    return '\n'.join(out)
