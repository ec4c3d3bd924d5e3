"""Unfolds helper functions that carry no contract into their callers.

A maintainer who extracts a few lines into a private function leaves the verifier
without a contract for it.  Such a call is replaced by the helper's own body, with
its parameters bound by `let` to the arguments, in the order Rust evaluates them:

    helper(a, b)   =>   ({ let (p, q): (P, Q) = (a, b); BODY })

Nothing is unfolded unless this is certainly what the call does: the helper is
found without doubt (a free function of the crate, or an inherent one called on
`self`, `Self::` or the type's name), it is not recursive, `return` only leaves it
where the unfolded text can say the same (as the value of a block), and the paths
of a body moved to another module are written out in full.  Whatever does not
qualify keeps its call, and the caller is then reported as undecided."""
import re
from rustsrc import Src, lex, ParseError

PRELUDE = set('Some None Ok Err Self Option Result Vec String Box str u8 u16 u32 u64 usize i8 i16 i32 i64 isize char bool core std alloc Default Into From TryFrom TryInto AsRef Clone Iterator Ordering true false if else match return loop while for in let mut ref move as unsafe break continue self Fn FnMut FnOnce impl dyn'.split())

class No(Exception): pass

def base(ty): return re.sub(r"<.*", '', re.sub(r"^&(?:'\w+ )?(?:mut )?", '', ty)).split('::')[-1].strip()

class Helper:
    def __init__(self, src, it):
        self.src, self.it, t = src, it, src.t
        self.name = it.name
        self.mod = tuple(it.impl.path) if it.impl else tuple(it.path)
        self.type = base(it.impl.selfty) if it.impl else None
        self.generics = set()
        i = it.kw + 2
        if t[i].s == '<':
            e = src.skip_angle(i, len(t)); self.generics |= set(x.s for x in t[i:e] if x.k == 'id')
        if it.impl: self.generics |= set(x.s for x in t[it.impl.generics[0]:it.impl.generics[1]] if x.k == 'id')
        # parameters: (pattern text, type text) ; self first, as a form
        self.self_form, self.params = None, []
        i, e = it.params; i += 1
        while i < e:
            j, d = i, 0
            while j < e and not (t[j].s == ',' and d == 0):
                if t[j].s in ('(', '[', '{'): j = t[j].m
                elif t[j].s == '<': d += 1
                elif t[j].s == '>' : d -= 1
                j += 1
            toks = t[i:j]
            colon = next((k for k in range(i, j) if t[k].s == ':'), None)
            if colon is None and any(x.s == 'self' for x in toks):
                self.self_form = ('&mut' if '&' in [x.s for x in toks] and 'mut' in [x.s for x in toks] else '&' if toks[0].s == '&' else 'val')
            elif colon is None: raise No
            elif any(x.s == 'self' for x in toks[:1]): raise No
            else: self.params.append((src.text[t[i].a:t[colon].a].strip(), src.text[t[colon+1].a:t[j-1].b]))
            i = j + 1
        a, b = it.body
        self.toks = t[a+1:b]
        self.body = src.text[t[a].b:t[b].a]
        self.off = t[a].b
        ids = [x.s for x in self.toks]
        for k, x in enumerate(self.toks):
            if x.s == self.name and k + 1 < len(ids) and ids[k+1] == '(': raise No      # recursive
        if any(x.s in ('async', 'await', 'yield', 'macro_rules') for x in self.toks): raise No
        self.leaves = any(x.s in ('return', '?') for x in self.toks)

def plain_body(text):
    """the body with every `return e` turned into the value of its block, or No"""
    ts = lex(text)
    def txt(a, b): return text[ts[a].a:ts[b-1].b] if a < b else ''
    def leaves(a, b): return any(x.s in ('return', '?') for x in ts[a:b])
    def conv(a, b):
        """tokens a..b of the inside of a block whose value is the function's value"""
        j = a
        while j < b:
            s = j
            if ts[j].s == 'return':
                e = b
                if ts[e-1].s == ';': e -= 1
                if leaves(j + 1, e): raise No
                return txt(a, s) + ' ' + txt(j + 1, e)
            if ts[j].s == 'if':
                parts, k = [], j
                while True:
                    c = k + 1 if ts[k].s == 'if' else k
                    o = c
                    while ts[o].s != '{': o = ts[o].m + 1 if ts[o].s in ('(', '[') else o + 1
                    if leaves(k, o): raise No
                    parts.append((k, o, ts[o].m)); n = ts[o].m + 1
                    if n < b and ts[n].s == 'else':
                        k = n + 1
                        if ts[k].s == '{': parts.append((k, k, ts[k].m)); n = ts[k].m + 1; break
                        continue
                    break
                tail = n == b
                if any(leaves(o, m) for _, o, m in parts):
                    has_else = parts[-1][0] == parts[-1][1]
                    if tail and has_else:
                        r = txt(a, s)
                        for q, (k, o, m) in enumerate(parts): r += (' else ' if q else ' ') + (txt(k, o) if k != o else '') + ' { ' + conv(o + 1, m) + ' }'
                        return r
                    if len(parts) == 1 and diverges(parts[0][1] + 1, parts[0][2]):
                        k, o, m = parts[0]
                        return txt(a, s) + ' ' + txt(k, o) + ' { ' + conv(o + 1, m) + ' } else { ' + conv(n, b) + ' }'
                    raise No
                j = n
                continue
            # skip one statement
            start = j
            while j < b:
                if ts[j].m is not None and ts[j].s in '([{':
                    blk = ts[j].s == '{'; j = ts[j].m + 1
                    if blk and ts[start].s in ('match', 'while', 'for', 'loop', 'unsafe', '{') : break
                    continue
                j += 1
                if ts[j-1].s == ';': break
            if leaves(start, j): raise No
        return txt(a, b)
    def diverges(a, b):
        j = a; last = a
        while j < b:
            if ts[j].m is not None and ts[j].s in '([{': j = ts[j].m + 1; continue
            if ts[j].s == ';' and j + 1 < b: last = j + 1
            j += 1
        return a < b and ts[last].s == 'return'
    return conv(0, len(ts))

def uses(src, mod):
    """name -> full path, for the imports of a module"""
    out = {}
    def tree(ts, i, e, pre):
        cur = list(pre)
        while i < e:
            if ts[i].s == '{':
                j = i + 1
                while j < ts[i].m:
                    k = j
                    while k < ts[i].m and ts[k].s != ',': k = ts[k].m + 1 if ts[k].s == '{' else k + 1
                    tree(ts, j, k, cur); j = k + 1
                return
            if ts[i].k == 'id':
                if ts[i].s == 'as': out[ts[i+1].s] = '::'.join(cur); return
                cur.append(ts[i].s)
            i += 1
        if cur and cur[-1] != 'self': out[cur[-1]] = '::'.join(cur)
        elif cur: out[cur[-2]] = '::'.join(cur[:-1])
    for it in src.walk():
        if it.kind == 'use' and tuple(it.path) == mod:
            t = src.t; k = it.kw + 1
            tree(t, k, it.last - 1, [])
    return out

def qualify(src, h, to):
    """the helper's body with its paths valid in module `to`"""
    if h.mod == to: return h.body
    here = set(it.name for it in src.walk() if tuple(it.path) == h.mod and it.kind in ('fn', 'struct', 'enum', 'const', 'static', 'mod', 'type', 'trait'))
    us = uses(src, h.mod)
    cp = lambda m: '::'.join(('crate',) + tuple(m))
    ed = []
    n = len(h.toks)
    for k, x in enumerate(h.toks):
        if x.k != 'id': continue
        prev = h.toks[k-1].s if k else ''; nxt = h.toks[k+1].s if k + 1 < n else ''
        if prev in ('.', '::'): continue
        r = None
        if x.s == 'super' and nxt == '::': r = cp(h.mod[:-1])
        elif x.s == 'self' and nxt == '::': r = cp(h.mod)
        elif x.s == 'crate' or x.s in PRELUDE: continue
        elif x.s in here and (nxt in ('(', '::', '{') or x.s[0].isupper()): r = cp(h.mod + (x.s,))
        elif x.s in us and (nxt in ('::', '(') or x.s[0].isupper()):
            p = us[x.s]
            if p.split('::')[0] not in ('crate', 'core', 'std', 'alloc'): raise No
            r = p
        elif nxt == '::' or (nxt == '(' ) or x.s[0].isupper(): raise No
        if r: ed.append((x.a - h.off, x.b - h.off, r))
    s, p = '', 0
    for a, b, r in ed: s += h.body[p:a] + r; p = b
    return s + h.body[p:]

def split_args(src, o):
    t = src.t; e = t[o].m; i = o + 1; out = []
    while i < e:
        j = i
        if t[i].s in ('|', '||'):
            if t[i].s == '|':
                j = i + 1
                while t[j].s != '|': j = t[j].m + 1 if t[j].s in ('(', '[') else j + 1
                j += 1
            else: j = i + 1
        while j < e and t[j].s != ',':
            if t[j].m is not None and t[j].s in '([{': j = t[j].m + 1
            elif t[j].s == '::' and t[j+1].s == '<': j = src.skip_angle(j + 1, e)
            else: j += 1
        out.append((i, j)); i = j + 1
    return out

def words(text): return set(x.s for x in lex(text) if x.k == 'id')

def find_call(src, helpers, it):
    """the first innermost call of a helper in the body of it"""
    t = src.t; a, e = it.body
    mod = tuple(it.impl.path) if it.impl else tuple(it.path)
    ty = base(it.impl.selfty) if it.impl else None
    for i in range(a + 1, e):
        if t[i].k != 'id' or t[i].s not in helpers or t[i+1].s != '(' or t[i-1].s == 'fn': continue
        recv = None; s = i; cands = helpers[t[i].s]; pick = None
        if t[i-1].s == '.':
            if t[i-2].s != 'self' or t[i-3].s in ('.', '::'): continue
            s = i - 2; recv = 'self'
            pick = [h for h in cands if h.type == ty and ty and h.self_form]
        elif t[i-1].s == '::':
            seg = []; j = i
            while t[j-1].s == '::' and t[j-2].k == 'id': seg.insert(0, t[j-2].s); j -= 2
            if t[j-1].s == '::' or not seg: continue
            s = j
            if seg[-1] == 'Self': pick = [h for h in cands if h.type == ty and ty]
            elif seg[0] == 'crate': pick = [h for h in cands if h.mod + ((h.type,) if h.type else ()) == tuple(seg[1:])]
            elif seg[0] == 'super':
                m = mod; k = 0
                while k < len(seg) and seg[k] == 'super': m = m[:-1]; k += 1
                pick = [h for h in cands if h.mod + ((h.type,) if h.type else ()) == m + tuple(seg[k:])]
            elif len(seg) == 1:
                if seg[0][0].isupper(): pick = [h for h in cands if h.type == seg[0]]
                else:
                    full = uses(src, mod).get(seg[0])
                    m = tuple(full.split('::')[1:]) if full and full.startswith('crate') else mod + (seg[0],)
                    pick = [h for h in cands if h.type is None and h.mod == m]
        else:
            pick = [h for h in cands if h.type is None and h.mod == mod]
            if not pick:
                full = uses(src, mod).get(t[i].s)
                if full and full.startswith('crate::'): pick = [h for h in cands if h.type is None and h.mod == tuple(full.split('::')[1:-1])]
        if not pick or len(pick) != 1: continue
        if pick[0].it is it: continue
        yield s, i, t[i+1].m + 1, recv, pick[0]

def closure_of(src, a, b):
    """(parameters [(pat, type|None)], body text) when tokens a..b are a closure"""
    t = src.t; i = a
    if t[i].s == 'move': i += 1
    ps = []
    if t[i].s == '||': i += 1
    elif t[i].s == '|':
        j = i + 1
        while t[j].s != '|':
            k = j
            while t[k].s not in (',', '|'): k = t[k].m + 1 if t[k].s in ('(', '[') else k + 1
            c = next((q for q in range(j, k) if t[q].s == ':'), None)
            ps.append((src.text[t[j].a:t[(c or k) - 1].b], src.text[t[c+1].a:t[k-1].b] if c else None))
            j = k + 1 if t[k].s == ',' else k
        i = j + 1
    else: return None
    if t[i].s == '->': return None
    return ps, src.text[t[i].a:t[b-1].b]

def in_tail(src, it, s, e):
    """is the value of tokens s..e the value of the function?"""
    t = src.t
    if t[s-1].s not in ('{', ';', '}', '=>'): return False
    while True:
        if t[e].s == ',':                       # an arm of a match
            e += 1
            while t[e].s != '}': e = t[e].m + 1 if t[e].m is not None and t[e].s in '([{' else e + 1
        if t[e].s != '}': return False
        if e == it.body[1]: return True
        o = k = t[e].m; k -= 1
        while t[k].s not in (';', '{', '}', '=>') or (t[k].s == '}' and t[k+1].s == 'else'):
            if t[k].s in ('while', 'for', 'loop', '|', '||'): return False
            k = t[k].m - 1 if t[k].m is not None and t[k].s in ')]}' else k - 1
        if not any(x.s in ('if', 'match', 'else', 'unsafe', '=>') for x in t[k:o]) and k + 1 != o: return False
        e += 1
        while t[e].s == 'else':
            while t[e].s != '{': e = t[e].m + 1 if t[e].s in ('(', '[') else e + 1
            e = t[e].m + 1

def unfold(src, it, call, n):
    """(start, end, text) of the unfolded call"""
    s, i, e, recv, h = call
    t = src.t
    mod = tuple(it.impl.path) if it.impl else tuple(it.path)
    args = split_args(src, i + 1)
    body = qualify(src, h, mod)
    ty = base(it.impl.selfty) if it.impl else None
    tail = (t[e].s == '}' and e == it.body[1] and t[s-1].s in (';', '{', '}'))
    ret = t[s-1].s == 'return'
    if h.leaves:
        try: body = plain_body(body)
        except No:
            if not (tail or ret or in_tail(src, it, s, e)): raise
    if h.type and 'Self' in words(body) and h.type != ty:
        body = re.sub(r'\bSelf\b', 'crate::' + '::'.join(h.mod + (h.type,)), body)
    pats = []
    if h.self_form:
        if recv: # called on self
            callerform = next((x.self_form for x in [Helper2(src, it)]), None)
            if h.self_form == 'val' and callerform != 'val': raise No
        else:
            if not args: raise No
            body = re.sub(r'\bself\b', 'self__%d' % n, body)
            pats.append(('self__%d' % n, None))
    for p, y in h.params: pats.append((p, y))
    if len(pats) != len(args): raise No
    binds, vals = [], []
    for (p, y), (a, b) in zip(pats, args):
        txt = src.text[t[a].a:t[b-1].b]
        c = closure_of(src, a, b)
        if c is not None:
            # a closure handed to the helper and only called there: unfolded at its calls
            cp, cb = c
            if not re.fullmatch(r'(mut )?\w+', p): raise No
            nm = p.split()[-1]
            inner = lex(body)
            if any(x.s == nm and not (k + 1 < len(inner) and inner[k+1].s == '(') for k, x in enumerate(inner)): raise No
            if any(x.s in ('return', '?') for x in lex(cb)): raise No
            free = words(cb) - set(w for q, _ in cp for w in words(q))
            bound = set(w for q, _ in pats for w in words(q))
            for k, x in enumerate(inner):
                if x.k == 'id' and (inner[k-1].s in ('let', 'mut', '|', ',', '(', 'for', '&') if k else False): bound.add(x.s)
            if (free & bound) - {'self', 'Self', 'Ok', 'Err', 'Some', 'None'}: raise No
            while True:
                inner = lex(body)
                k = next((k for k, x in enumerate(inner) if x.s == nm and inner[k+1].s == '(' and inner[k-1].s != '.'), None)
                if k is None: break
                o = k + 1; ar = []; q = o + 1
                while q < inner[o].m:
                    z = q
                    while z < inner[o].m and inner[z].s != ',': z = inner[z].m + 1 if inner[z].m is not None and inner[z].s in '([{' else z + 1
                    ar.append(body[inner[q].a:inner[z-1].b]); q = z + 1
                if len(ar) != len(cp): raise No
                l = ''.join('let %s%s = %s; ' % (pp, ': ' + yy if yy else '', vv) for (pp, yy), vv in zip(cp, ar)) if len(ar) < 2 else 'let (%s) = (%s); ' % (', '.join(pp for pp, _ in cp), ', '.join(ar))
                body = body[:inner[k].a] + '({ ' + l + cb + ' })' + body[inner[inner[o].m].b:]
            continue
        if y is not None:
            w = words(y)
            if 'impl' in w or 'dyn' in w or w & h.generics: y = None
            else:
                y = re.sub(r"<'\w+>", "<'_>", y); y = re.sub(r"'(?!static|_)\w+\s*", '', y)
                if h.mod != mod and any(x[0].isupper() and x not in PRELUDE for x in w): y = None
                elif 'Self' in w and h.type != ty: y = None
        binds.append((p, y)); vals.append(txt)
    if len(binds) == 1: l = 'let %s%s = %s; ' % (binds[0][0], ': ' + binds[0][1] if binds[0][1] else '', vals[0])
    elif binds: l = 'let (%s): (%s) = (%s); ' % (', '.join(p for p, _ in binds), ', '.join(y or '_' for _, y in binds), ', '.join(vals))
    else: l = ''
    if tail: return t[s].a, t[e-1].b, l + body
    return t[s].a, t[e-1].b, '({ ' + l + body + ' })'

class Helper2:
    def __init__(self, src, it):
        t = src.t; i, e = it.params; self.self_form = None
        k = i + 1
        while k < e and t[k].s != ',':
            if t[k].s == 'self':
                pre = [x.s for x in t[i+1:k]]
                self.self_form = '&mut' if '&' in pre and 'mut' in pre else '&' if '&' in pre else 'val'
            k += 1

def run(text, contracted, ignore):
    """contracted(key, it): has a contract; returns (text, {helper key: callers})"""
    done = {}; refused = set(); n = 0
    for rnd in range(60):
        src = Src(text)
        helpers = {}
        fns = [it for it in src.walk() if it.kind == 'fn' and it.body]
        for it in fns:
            if contracted(it.key, it) or ignore(it.key) or (it.impl and it.impl.trait) or 'tests' in it.path: continue
            try: helpers.setdefault(it.name, []).append(Helper(src, it))
            except (No, ParseError): pass
        if not helpers: break
        change = None
        for it in fns:
            if not contracted(it.key, it): continue
            for call in find_call(src, helpers, it):
                # innermost first: no other helper call among the arguments
                if any(src.t[k].s in helpers and src.t[k+1].s == '(' for k in range(call[1] + 1, call[2])): 
                    if any(c[0] > call[1] and c[2] <= call[2] and (it.key, c[4].it.key) not in refused for c in find_call(src, helpers, it)): continue
                if (it.key, call[4].it.key) in refused: continue
                try: change = (it, call, unfold(src, it, call, n)); break
                except (No, ParseError): refused.add((it.key, call[4].it.key))
            if change: break
        if not change: break
        it, call, (a, b, s) = change; n += 1
        text = text[:a] + s + text[b:]
        done.setdefault(call[4].it.key, set()).add(it.key)
    return text, done
