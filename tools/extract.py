"""Turns the macro-expanded source of /repo into a Verus crate.

Every function body that is emitted is the text of the expansion, token for
token, except for the substitutions listed in SUBST (paths of external crates)
and the edits an overlay entry asks for.  Overlay edits only insert
specification text (contracts, invariants, proof blocks) and closure parameter
types; they never replace executable text."""
import json, os, re
from rustsrc import Src, norm

class LostAnchor(Exception): pass

SUBST = [
    (re.compile(r'(?<![\w:])(?:::)?static_automata::(?=decode_utf8_char)'), 'crate::x_static_automata::'),
    (re.compile(r'(?<![\w:])(?:::)?str_newtype::'), 'crate::x_str_newtype::'),
    (re.compile(r'(?<![\w:])(?:::)?serde::'), 'crate::x_serde::'),
    # the verifier knows Fn but not FnMut; a closure that is only Fn would not be accepted as FnMut-with-state
    (re.compile(r'\bFnMut\('), 'Fn('),
    # what the built-in derives compare and hash (x_std::HasDiscr); rustc gives it the value of `as isize`
    (re.compile(r'::core::intrinsics::discriminant_value\b'), 'crate::x_std::discriminant_value'),
    # the arguments are one literal without holes: write_fmt writes it
    (re.compile(r'\.write_fmt\(format_args!\(("[^"{}\\]*")\)\)'), r'.write_str(\1)'),
    # methods generic over std's unstable Pattern trait: the instances for char, by name (x_std::StrX)
    (re.compile(r"\.(split_once|rsplit_once|find|rfind|contains|starts_with|ends_with|strip_prefix|strip_suffix)\((?=')"), r'.\1_x('),
    (re.compile(r'\.(find|contains|starts_with|ends_with|strip_prefix)\((?=")'), r'.\1_s('),
]
def bytelit(tok):
    """b"ab" as &[0x61u8, 0x62u8]: the verifier does not look inside byte strings"""
    body = tok[2:-1]
    if '\\' in body: return None
    return '&[' + ', '.join('0x%02xu8' % c for c in body.encode()) + ']'

def subst(s):
    for r, t in SUBST: s = r.sub(t, s)
    return s

class Edits:
    def __init__(self, text): self.text, self.e = text, []
    def ins(self, pos, s, prio=0): self.e.append((pos, prio, len(self.e), pos, s))
    def rep(self, a, b, s): self.e.append((a, 0, len(self.e), b, s))
    def apply(self, a, b):
        out, p = [], a
        for (x, _, _, y, s) in sorted(self.e):
            if x > b or y > b: continue
            if x < p and x != y: raise LostAnchor('overlapping edits')
            out.append(self.text[p:x]); out.append(s); p = max(p, y)
        out.append(self.text[p:b])
        return ''.join(out)

def strip_attrs(src, it, ed):
    """remove every attribute inside an item (they carry no run-time meaning
    once macros are expanded; cfg has already been applied)"""
    t = src.t
    i = it.start
    while i < it.last:
        if t[i].s == '#' and i + 1 < it.last and (t[i+1].s == '[' or (t[i+1].s == '!' and t[i+2].s == '[')):
            j = t[i+1].m if t[i+1].s == '[' else t[i+2].m
            ed.rep(t[i].a, t[j].b, '')
            i = j + 1
        else: i += 1

def tail_breaks(src, it, loops):
    """`break` tokens carrying a value out of a `loop` that is the tail expression
    of the function: there `break v` means `return v`, which the verifier accepts"""
    t = src.t; out = []
    for kw, br in loops:
        if t[kw].s != 'loop': continue
        pos = t[br].m + 1
        while True:
            if t[pos].s != '}': pos = None; break
            if pos == it.body[1]: break
            o = t[pos].m
            if t[o].s != '{': pos = None; break
            k = o - 1
            while t[k].s not in (';', '{', '}'): k = t[k].m - 1 if t[k].s in (')', ']') else k - 1
            if t[k+1].s not in ('if', 'else'): pos = None; break
            pos = pos + 1
            while t[pos].s == 'else':
                while t[pos].s != '{': pos = t[pos].m + 1 if t[pos].s in ('(', '[') else pos + 1
                pos = t[pos].m + 1
        if pos is None: continue
        inner = [(b, t[b].m) for _, b in loops if br < b < t[br].m]
        for i in range(br + 1, t[br].m):
            if t[i].k == 'id' and t[i].s == 'break' and t[i+1].s not in (';', '}', ',', ')') and t[i+1].k != 'life' and not any(a < i < b for a, b in inner): out.append(i)
    return out

SHAPES = {}
try: SHAPES = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec/shapes.json')))
except FileNotFoundError: pass

class Fn:
    """one function of the source together with its overlay entry"""
    def __init__(self, src, it, ov):
        self.src, self.it, self.ov = src, it, ov
        self.params = src.param_names(it)
        self.lets = src.lets(it) if it.body else []
        self.loops = src.loops(it) if it.body else []
        self.clos = src.closures(it) if it.body else []
        t = src.t
        self.fors = [t[kw+1].s for kw, _ in self.loops if t[kw].s == 'for' and t[kw+1].k == 'id' and t[kw+2].s == 'in']
        self.muts = [t[i+2].s for i in range(it.body[0], it.body[1]) if t[i].s == 'let' and t[i+1].s == 'mut' and t[i+2].k == 'id'] if it.body else []
        self.soft = None          # why the annotations may not fit the present text, when they are carried over by a guess

    def shape(self):
        """keyword of each loop"""
        return [self.src.t[kw].s for kw, _ in self.loops]

    def callee(self, j):
        """name of the function a closure (starting at or before token j) is handed to"""
        t = self.src.t; k = j - 1; d = 0
        while k > self.it.body[0]:
            if t[k].s in (')', ']', '}'): k = t[k].m
            elif t[k].s == '(': return t[k-1].s
            elif t[k].s in ('{', ';'): return None
            k -= 1

    def names(self, s, clo=None, r='r'):
        """$0 $1: parameters; $r: result; ~name: a local, by name when it
        still exists, else by position recorded in the overlay"""
        if s is None: return ''
        def par(m):
            i = int(m.group(1))
            if i >= len(self.params): raise LostAnchor('%s: parameter %d' % (self.it.key, i))
            return self.params[i]
        s = re.sub(r'\$(\d+)', par, s)
        s = s.replace('$r', r)
        if clo is not None:
            s = re.sub(r'\$c(\d+)', lambda m: clo[int(m.group(1))], s)
        def loc(m):
            n = m.group(1)
            if n in self.lets or n in self.fors: return n
            want = self.ov.get('locals', [])
            if n in want and len(self.lets) == len(want):
                self.soft = 'local %s is now taken to be %s' % (n, self.lets[want.index(n)]); return self.lets[want.index(n)]
            wm = self.ov.get('muts', [])
            if n in wm and len(wm) == len(self.muts):
                self.soft = 'local %s is now taken to be %s' % (n, self.muts[wm.index(n)]); return self.muts[wm.index(n)]
            if n in wm and len(self.fors) == 1 and len(wm) == len(self.muts) + 1:
                self.soft = 'local %s is now taken to be %s' % (n, self.fors[0]); return self.fors[0]
            raise LostAnchor('%s: local %s' % (self.it.key, n))
        s = re.sub(r'(?<!\w)~([a-z_]\w*)', loc, s)
        return s

    def emit(self, trusted):
        src, it, ov, t = self.src, self.it, self.ov, self.src.t
        ed = Edits(src.text)
        strip_attrs(src, it, ed)
        for k in range(it.start, it.last):
            if t[k].k == 'str' and t[k].s.startswith('b"') and bytelit(t[k].s): ed.rep(t[k].a, t[k].b, bytelit(t[k].s))
        r = ov.get('r', 'r')
        if r in self.params: r = 'ret__'
        N = lambda s, clo=None: self.names(s, clo, r)
        nargs = ov.get('nargs')
        if nargs is not None and nargs != len(self.params):
            raise LostAnchor('%s: %d parameters, contract has %d' % (it.key, len(self.params), nargs))
        # result name
        if it.arrow is not None and (ov.get('ens') or ov.get('name_ret')):
            a, b = it.ret
            ed.ins(t[a].a, '(%s: ' % r, 1); ed.ins(t[b-1].b, ')', -1)
        elif ov.get('ens') and '$r' in ' '.join(ov['ens']):
            raise LostAnchor('%s: no result' % it.key)
        # contract
        c = ''
        if ov.get('req'): c += '\n    requires ' + ''.join('\n        (%s),' % N(x) for x in ov['req'])
        if ov.get('ens'): c += '\n    ensures ' + ''.join('\n        (%s),' % N(x) for x in ov['ens'])
        if ov.get('dec') and not trusted: c += '\n    decreases ' + N(ov['dec'])
        if ov.get('unwind') is not None: c += '\n    ' + ov['unwind']
        body = it.body
        attr = ov.get('attr', '')
        if self.loops and 'loop_isolation' not in attr: attr += '#[verifier::loop_isolation(false)] '
        if trusted and not ov.get('trusted'): attr = '#[verifier::external_body] '
        if c: ed.ins(t[body[0]].a, c + '\n')
        if ov.get('enter') and not trusted:
            ed.ins(t[body[0]].b, '\n' + N(ov['enter']) + '\n')
        if not trusted:
            for k in tail_breaks(src, it, self.loops): ed.rep(t[k].a, t[k].b, 'return')
            lo = ov.get('loops', [])
            if lo and not self.loops:
                self.soft = 'no loop any more'; lo = []
            if lo and self.loops and SHAPES.get(it.key, len(self.muts)) != len(self.muts):
                self.soft = 'the loop works on other local variables'
            if len(lo) != len(self.loops):
                raise LostAnchor('%s: %d loops, overlay has %d' % (it.key, len(self.loops), len(lo)))
            for (kw, br), l in zip(self.loops, lo):
                s = ''
                if l.get('kw') and l['kw'] != t[kw].s:
                    self.soft = 'a %s loop is now a %s loop' % (l['kw'], t[kw].s)
                    l = dict(l, **l.get('alt', {}).get(t[kw].s, {}))
                elif t[kw].s == 'for' and 'range' in l.get('alt', {}) and any(x.s in ('..', '..=') for x in t[kw:br]):
                    self.soft = 'a loop over a slice is now a loop over a range'
                    l = dict(l, **l['alt']['range'])
                if t[kw].s == 'for':
                    q = kw + 1
                    while t[q].s != 'in': q = t[q].m + 1 if t[q].s == '(' else q + 1
                    pat = next((x.s for x in t[kw+1:q] if x.k == 'id' and x.s not in ('mut', 'ref')), '_')
                    if l.get('iter'): ed.ins(t[q].b, ' %s:' % l['iter'])
                    fix = lambda x, pat=pat: N(x.replace('$v', pat))
                else:
                    c = next((x.s for x in t[kw+1:br] if x.k == 'id'), '') if t[kw].s == 'while' else self.muts[0] if self.muts else ''
                    fix = lambda x, c=c: N(x.replace('$v', c))
                k = l.get('kind', 'invariant')
                s += '\n        %s ' % k + ''.join('\n            (%s),' % fix(x) for x in l['inv'])
                if l.get('ens'): s += '\n        ensures ' + ''.join('\n            (%s),' % fix(x) for x in l['ens'])
                if l.get('dec') and t[kw].s != 'for': s += '\n        decreases ' + fix(l['dec'])
                ed.ins(t[br].a, s + '\n')
                if l.get('enter'): ed.ins(t[br].b, '\n' + fix(l['enter']) + '\n')
                if l.get('exit'): ed.ins(t[t[br].m].a, '\n' + fix(l['exit']) + '\n')
                if l.get('after'): ed.ins(t[t[br].m].b, '\n' + fix(l['after']) + '\n')
            cl = ov.get('closures', [])
            if len(cl) != len(self.clos):
                # carry the contracts over to the closures handed to the same function, in order
                self.soft = '%d closures, contract has %d' % (len(self.clos), len(cl))
                out, rest = [], list(cl)
                for names, j, k, blk in self.clos:
                    l = rest[0] if rest else None
                    if l is not None and l.get('to') in (None, self.callee(j)) and (len(l['types']) == len(names) or l.get('pat_ok')): out.append(rest.pop(0))
                    else: out.append(None)
                if rest and len(self.clos) >= len(cl): raise LostAnchor('%s: %s' % (it.key, self.soft))
                cl = out
            for (names, j, k, blk), l in zip(self.clos, cl):
                if l is None:
                    # only a pattern parameter is spelled out: |(a, b)| e  =>  |p0| { let (a, b) = p0; e }
                    o = j - 1
                    if t[o].s == '|':
                        s = o - 1
                        while t[s].s != '|': s = t[s].m - 1 if t[s].s in (')', ']') else s - 1
                        if t[s+1].s == '(' and t[s+1].m == o - 1:
                            ed.rep(t[s].b, t[o].a, 'p0')
                            letp = ' let %s = p0; ' % src.text[t[s].b:t[o].a].strip()
                            if blk: ed.ins(t[j].b, letp)
                            else: ed.ins(t[j].a, '{' + letp); ed.ins(t[k-1].b, ' }')
                    continue
                letp = ''
                if len(names) != len(l['types']) and not l.get('pat_ok'): raise LostAnchor('%s: closure arity' % it.key)
                # rewrite the parameter list: only adds types
                o = j - 1
                if t[o].s == '||': pass
                else:
                    s = o - 1; st = None
                    while t[s].s != '|': s -= 1
                    nm = []
                    pats = src.text[t[s].b:t[o].a].split(',') if not any(x.s in '(:' for x in t[s+1:o]) else None
                    if pats is None:
                        # a pattern or already typed: keep the text
                        if l.get('pat_ok'):
                            # |(a, b)| e  =>  |p0: T| { let (a, b) = p0; e }
                            pat = src.text[t[s].b:t[o].a].strip()
                            ed.rep(t[s].b, t[o].a, 'p0: ' + l['types'][0])
                            letp = 'let %s = p0; ' % pat
                            nm = ['p0']
                        else: raise LostAnchor('%s: closure pattern' % it.key)
                    else:
                        for n, (p, ty) in enumerate(zip(pats, l['types'])):
                            p = p.strip()
                            if p == '_': p = '_p%d' % n
                            nm.append(p)
                        ed.rep(t[s].b, t[o].a, ', '.join('%s: %s' % z for z in zip(nm, l['types'])))
                    names = nm
                s = ' -> (%s: %s)' % (l.get('r', 'cr'), l['ret'])
                if l.get('req'): s += ' requires ' + ' '.join('(%s),' % N(x, names) for x in l['req'])
                if l.get('ens'): s += ' ensures ' + ' '.join('(%s),' % N(x, names) for x in l['ens'])
                e = letp + (N(l['enter'], names) if l.get('enter') else '')
                if blk:
                    ed.ins(t[j].a, s + ' ')
                    if e: ed.ins(t[j].b, e)
                else:
                    ed.ins(t[j].a, s + ' { ' + e)
                    ed.ins(t[k-1].b, ' }')
        if trusted and not ov.get('trusted'):
            # not verified in this run: only the contract is used
            # (new_unchecked keeps its body, unread by the verifier, for the constants rustc evaluates)
            head = ed.apply(t[it.start].a, t[body[0]].a)
            isc = it.name == 'new_unchecked' and any(x.s == 'const' for x in t[it.start:it.kw])
            txt = head + (src.text[t[body[0]].a:it.b] if isc else '{ unimplemented!() }')
        else: txt = ed.apply(t[it.start].a, it.b)
        return '/*@F %s@*/ ' % it.key + attr + ov.get('attr_always', '') + subst(txt)

class Crate:
    def __init__(self, text, overlay, select=None):
        """overlay: object with .fn(key, it) -> entry|None, .item(key, it), .prelude(mod)
        select: predicate key -> bool, the functions to verify in this run"""
        self.src = Src(text); self.ov = overlay; self.select = select or (lambda k: True)
        self.verified, self.assumed, self.dropped, self.uncontracted, self.lost = [], [], [], [], []
        self.seen = set(); self.force = set(); self.soft = {}

    def fn(self, it):
        e = self.ov.fn(it.key, it)
        if e is None:
            self.uncontracted.append(it.key); e = {}
            if self.ov.drop_unknown(it) or it.key in self.force: self.dropped.append((it.key, 'no contract')); return ''
        if e.get('drop'):
            self.dropped.append((it.key, e['drop'])); return ''
        self.seen.add(it.key)
        sel = self.select(it.key)
        if sel is None: return ''
        trusted = bool(e.get('trusted')) or not sel or it.key in self.force or bool(e.get('rep'))
        if sel and it.key in self.force: self.lost.append((it.key, 'outside the reach of the verifier'))
        elif sel and e.get('rep'): self.lost.append((it.key, 'works on a representation other than the annotated one'))
        f = Fn(self.src, it, e)
        try:
            s = f.emit(trusted)
        except LostAnchor as x:
            if not trusted: self.lost.append((it.key, str(x)))
            if trusted: raise
            s = f.emit(True); trusted = True
        if f.soft and not trusted: self.soft[it.key] = f.soft
        (self.assumed if trusted else self.verified).append(it.key)
        return s

    def head(self, it, endtok):
        """text of an item's header, attributes removed"""
        return self.src.text[self.src.t[it.start].a:self.src.t[endtok].a]

    def value(self, it):
        """a const or static with a contract: `pub exec const N: T ensures .. { expr }`"""
        e = self.ov.value(it); src, t = self.src, self.src.t
        if not self.ov.used(it.key): return ''
        self.seen.add(it.key)
        sel = self.select(it.key)
        if sel is None: return ''
        trusted = not sel or it.key in self.force
        if sel and trusted: self.lost.append((it.key, 'outside the reach of the verifier'))
        q = it.kw
        while t[q].s != '=': q = t[q].m + 1 if t[q].s in ('(', '[') else q + 1
        ty = re.sub(r"&(?!')", "&'static ", src.text[t[it.kw+2].b:t[q].a].strip())
        me = ('Self::' if it.impl else '') + it.name
        h = 'pub exec %s %s: %s ensures %s' % (it.kind, it.name, ty, ' '.join('(%s),' % x.replace('$r', me) for x in e['ens']))
        (self.assumed if trusted else self.verified).append(it.key)
        return '/*@F %s@*/ ' % it.key + h + '{ %s %s }\n' % ('proof { assume(false); }' if trusted else e.get('enter', ''), subst(src.text[t[q].b:t[it.last-1].a]))

    def item(self, it):
        src, t = self.src, self.src.t
        x = self.ov.item(it.key, it)          # None: default, str: replacement text, False: drop
        if x is False: return ''
        if isinstance(x, str): return x
        if it.kind == 'fn': return self.fn(it)
        if it.kind in ('const', 'static') and self.ov.value(it): return self.value(it)
        if it.kind == 'impl':
            pre = self.ov.impl_prelude(it)
            body = []
            for c in it.children:
                if c.kind == 'fn':
                    s = self.fn(c)
                elif c.kind == 'const' and self.ov.value(c): s = self.value(c)
                else:
                    y = self.ov.item(c.key, c)
                    if y is False: s = ''
                    elif isinstance(y, str): s = y
                    else:
                        ed = Edits(src.text); strip_attrs(src, c, ed); s = ed.apply(t[c.start].a, c.b)
                        s = subst(s)
                if s: body.append(s)
            extra = self.ov.impl_extra(it)
            fns = [c for c in it.children if c.kind == 'fn' and c.name != 'assert_fields_are_eq']
            if fns and not body: return ''
            if it.trait and fns and len([c for c in fns if c.key in self.seen]) == 0: return ''
            ed = Edits(src.text)
            for i in range(it.start, it.body[0]):
                if t[i].s == '#' : ed.rep(t[i].a, t[t[i+1].m].b, '')
            h = subst(ed.apply(t[it.start].a, t[it.body[0]].a))
            return pre + h + '{\n' + extra + '\n'.join(body) + '\n}\n'
        if it.kind in ('struct', 'enum'):
            ed = Edits(src.text); strip_attrs(src, it, ed)
            return self.ov.type_attrs(it) + subst(ed.apply(t[it.start].a, it.b)) + '\n' + (self.ov.type_extra(it) or '')
        if it.kind in ('const', 'static', 'type', 'trait'):
            ed = Edits(src.text); strip_attrs(src, it, ed)
            return subst(ed.apply(t[it.start].a, it.b)) + '\n'
        return ''

    def module(self, items, path):
        src, t = self.src, self.src.t
        uses, code, mods = [], [], []
        for it in items:
            if it.kind == 'use':
                s = src.text[it.a:it.b]
                if self.ov.keep_use(s): uses.append(subst(s))
            elif it.kind in ('extern', 'macro'): self.dropped.append(('%s %s' % (it.kind, it.key), 'no run-time code of its own'))
            elif it.kind == 'mod':
                if it.body is None: continue
                if self.ov.keep_mod(it):
                    h = src.text[t[it.start].a:t[it.body[0]].a]
                    mods.append('%s{\n%s}\n' % (h, self.module(it.children, path + (it.name,))))
            else:
                s = self.item(it)
                if s: code.append(s)
        return ''.join(u + '\n' for u in uses) + self.ov.mod_prelude(path) + 'verus!{\n' + '\n'.join(code) + '\n' + self.ov.mod_extra(path) + '}\n' + ''.join(mods)

    def mods_verified(self):
        """modules holding a function verified in this run"""
        ks = set(self.verified)
        return set('::'.join(it.impl.path if it.impl else it.path) for it in self.src.walk() if it.kind in ('fn', 'const', 'static') and it.key in ks)

    def build(self):
        return self.module(self.src.items, ())
