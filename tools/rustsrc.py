"""A small Rust lexer and item parser.  It is applied to the output of
rustc -Zunpretty=expanded, finds modules, impls, functions, loops, closures and
lets by position, and never rewrites what it does not recognise."""
import re

TOK = re.compile(r'''
 (?P<ws>\s+)
|(?P<lc>//[^\n]*)
|(?P<bc>/\*)
|(?P<rstr>(?:br|cr|r)(?P<h>\#*)")
|(?P<str>(?:b|c)?"(?:[^"\\]|\\.)*")
|(?P<chr>b?'(?:[^'\\]|\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.))')
|(?P<life>'[A-Za-z_]\w*)
|(?P<num>\d[\w]*(?:\.\d[\w]*)?)
|(?P<id>(?:r\#)?[A-Za-z_]\w*)
|(?P<op>::|->|=>|==|!=|<=|>=|&&|\|\||\.\.=|\.\.\.|\.\.|\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<=|<<|[-+*/%^!&|=<>@.,;:\#$?~(){}\[\]])
''', re.X | re.S)

class Tok:
    __slots__ = ('k', 's', 'a', 'b', 'm')
    def __init__(self, k, s, a, b): self.k, self.s, self.a, self.b, self.m = k, s, a, b, None
    def __repr__(self): return '%s@%d' % (self.s, self.a)

class ParseError(Exception): pass

def lex(src):
    toks, i = [], 0
    while i < len(src):
        m = TOK.match(src, i)
        if not m: raise ParseError('cannot lex at %d: %r' % (i, src[i:i+20]))
        k = m.lastgroup if m.lastgroup != 'h' else 'rstr'
        if m.group('rstr') is not None:
            e = src.index('"' + m.group('h'), m.end()) + 1 + len(m.group('h'))
            toks.append(Tok('str', src[i:e], i, e)); i = e; continue
        if m.group('bc') is not None:
            d, j = 1, m.end()
            while d:
                n = re.compile(r'/\*|\*/').search(src, j)
                if not n: raise ParseError('unterminated comment')
                d += 1 if n.group() == '/*' else -1
                j = n.end()
            i = j; continue
        if k not in ('ws', 'lc'):
            # 1..2: the number pattern must not swallow the dots
            toks.append(Tok(k, m.group(), m.start(), m.end()))
        i = m.end()
    st = []
    for n, t in enumerate(toks):
        if t.k != 'op': continue
        if t.s in '([{': st.append(n)
        elif t.s in ')]}':
            o = st.pop()
            if {'(': ')', '[': ']', '{': '}'}[toks[o].s] != t.s: raise ParseError('unbalanced at %d' % t.a)
            toks[o].m = n; t.m = o
    if st: raise ParseError('unbalanced')
    return toks

def norm(toks):
    out = ''
    for t in toks:
        if out and (out[-1].isalnum() or out[-1] == '_') and (t.s[0].isalnum() or t.s[0] in "_"): out += ' '
        elif out and t.k == 'op' and t.s == '{': out += ' '
        out += t.s
        if t.k == 'life' : out += ' '
    return out.replace("' ", "'").replace(' >', '>').replace(' ,', ',').strip()

class Item: pass

# keys of the contracts, by canonical form (no module path, no lifetimes, no paths inside types)
KNOWN, CANON = set(), {}
def canon(k):
    if re.match(r'grammar\b|x_', k): return None
    k = re.sub(r"'\w+\s*,?\s*", '', k).replace('<>', '')
    i = k.find('<')
    m = re.match(r'(?:\w+::)*', k).group(0)
    if i >= 0 and len(m) == i: k = k[i:]
    elif i < 0:
        p = k.split('::'); k = '::'.join(p[-2:] if len(p) > 1 and p[-2][:1].isupper() else p[-1:])
    else: k = k[len(re.match(r'(?:[a-z_]\w*::)*', k).group(0)):]
    if k[0] == '<':
        j = k.rfind('>')
        k = re.sub(r'\b(?:\w+::)+', '', k[:j]) + k[j:]
        k = re.sub(r'^<(\w+)<(\w+)> for (\w+)>', lambda m: '<%s for %s>' % (m.group(1), m.group(3)) if m.group(2) in ('Self', m.group(3)) else m.group(0), k)
    return re.sub(r'&\s+', '&', k)
def known(keys):
    KNOWN.clear(); CANON.clear()
    for k in keys:
        KNOWN.add(k); c = canon(k)
        if c: CANON.setdefault(c, []).append(k)

class Src:
    def __init__(self, text):
        self.text = text
        self.t = lex(text)
        self.items = self.parse(0, len(self.t), ())
        if KNOWN: self.rekey()

    def rekey(self):
        """give an item that has been moved to another module, or whose lifetimes are spelt differently, the key its contract is filed under"""
        its = [it for it in self.walk() if it.key and (it.kind in ('fn', 'const', 'static', 'struct', 'enum') or it.kind == 'impl' and it.trait)]
        have, new = set(it.key for it in its), {}
        for it in its:
            c = canon(it.key)
            if it.key not in KNOWN and c and (c in CANON): new.setdefault(c, []).append(it)
        for c, l in new.items():
            k = [k for k in CANON[c] if k not in have]
            if len(k) == 1 and len(l) == 1: l[0].key = k[0]

    def skip_angle(self, i, end):
        d = 0
        while i < end:
            s = self.t[i].s
            if s == '<': d += 1
            elif s == '<<': d += 2
            elif s == '>': d -= 1
            elif self.t[i].m is not None and s in '([{': i = self.t[i].m
            i += 1
            if d == 0: return i
        raise ParseError('angle')

    def parse(self, i, end, path, inimpl=False):
        t, items = self.t, []
        while i < end:
            it = Item(); it.first = i; it.path = path; it.attrs = []; it.name = None; it.children = []; it.impl = None
            while i < end and t[i].s == '#':
                j = i + 1
                if t[j].s == '!': j += 1
                it.attrs.append((i, t[j].m + 1)); i = t[j].m + 1
            if i >= end: break
            it.start = i
            if t[i].s == 'pub':
                i += 1
                if t[i].s == '(': i = t[i].m + 1
            # qualifiers
            q = i
            while t[i].s in ('const', 'unsafe', 'async', 'extern', 'default') or t[i].k == 'str':
                if t[i].s == 'const' and t[i+1].k == 'id' and t[i+1].s not in ('unsafe', 'async', 'extern', 'fn'): break
                if t[i].s == 'extern' and t[i+1].s == 'crate': break
                i += 1
            kw = t[i].s; it.kw = i
            if kw == 'fn':
                it.kind = 'fn'; it.name = t[i+1].s; i += 2
                if t[i].s == '<': i = self.skip_angle(i, end)
                it.params = (i, t[i].m); i = t[i].m + 1
                it.arrow = None
                if t[i].s == '->':
                    it.arrow = i; i += 1
                    # return type up to `where`, `{` or `;`
                    while t[i].s not in ('where', '{', ';'):
                        i = t[i].m + 1 if t[i].s in ('(', '[') else (self.skip_angle(i, end) if t[i].s == '<' else i + 1)
                    it.ret = (it.arrow + 1, i)
                while t[i].s not in ('{', ';'): i = t[i].m + 1 if t[i].s in ('(', '[') else i + 1
                it.body = (i, t[i].m) if t[i].s == '{' else None
                i = (t[i].m if t[i].s == '{' else i) + 1
            elif kw == 'mod':
                it.kind = 'mod'; it.name = t[i+1].s
                if t[i+2].s == '{':
                    it.body = (i+2, t[i+2].m)
                    it.children = self.parse(i+3, t[i+2].m, path + (it.name,)); i = t[i+2].m + 1
                else: it.body = None; i += 3
            elif kw == 'impl':
                it.kind = 'impl'; i += 1
                g = i
                if t[i].s == '<': i = self.skip_angle(i, end)
                it.generics = (g, i)
                a = i; f = None
                while t[i].s not in ('{', 'where'):
                    if t[i].s == 'for' and t[i+1].s != '<': f = i
                    i = t[i].m + 1 if t[i].s in ('(', '[') else (self.skip_angle(i, end) if t[i].s == '<' else i + 1)
                it.trait = norm(t[a:f]) if f else None
                if it.trait:
                    m = re.match(r"^(?:::)?(?:[a-zA-Z_]\w*::)*([A-Za-z_]\w*)", it.trait)
                    if m: it.trait = m.group(1) + it.trait[m.end():]
                it.selfty = norm(t[(f + 1 if f else a):i])
                while t[i].s != '{': i += 1
                it.body = (i, t[i].m)
                it.name = ('<%s for %s>' % (it.trait, it.selfty)) if it.trait else it.selfty
                it.children = self.parse(i+1, t[i].m, path + (it.name,), True)
                for c in it.children: c.impl = it
                i = t[i].m + 1
            elif kw in ('struct', 'enum', 'union', 'trait'):
                it.kind = kw; it.name = t[i+1].s; i += 2
                while t[i].s not in ('{', ';'):
                    i = t[i].m + 1 if t[i].s in ('(', '[') else i + 1
                it.body = (i, t[i].m) if t[i].s == '{' else None
                i = (t[i].m if t[i].s == '{' else i) + 1
            elif kw in ('use', 'const', 'static', 'type') or (kw == 'extern' and t[i+1].s == 'crate'):
                it.kind = 'extern' if kw == 'extern' else kw
                it.name = t[i+1].s if kw != 'static' or t[i+1].s != 'mut' else t[i+2].s
                while t[i].s != ';': i = t[i].m + 1 if t[i].m is not None and t[i].s in '([{' else i + 1
                i += 1
            elif t[i].k == 'id':
                # macro_rules! name { .. } or an item macro
                it.kind = 'macro'; it.name = kw
                while t[i].s not in ('{', '(', '['): i += 1
                b = t[i].s; i = t[i].m + 1
                if b != '{' and i < end and t[i].s == ';': i += 1
            elif t[i].s == ';':
                i += 1; continue
            else: raise ParseError('item? %r' % t[i])
            it.last = i
            it.a = t[it.start].a; it.b = t[i-1].b
            it.key = '::'.join(path + (it.name,)) if it.name else None
            items.append(it)
        return items

    def walk(self, items=None):
        for it in (self.items if items is None else items):
            yield it
            yield from self.walk(it.children)

    # ---- inside a function body
    def param_names(self, it):
        t = self.t; i, e = it.params; i += 1; out = []
        while i < e:
            j, d = i, 0
            while j < e and not (t[j].s == ',' and d == 0):
                if t[j].s in ('(', '[', '{'): j = t[j].m
                elif t[j].s == '<': d += 1
                elif t[j].s == '>': d -= 1
                j += 1
            k = i
            while t[k].s == '#': k = t[k+1].m + 1
            ids = []
            while k < j and t[k].s != ':':
                if t[k].k == 'id' and t[k].s not in ('mut', 'ref'): ids.append(t[k].s)
                k += 1
            out.append(ids[0] if ids else None)
            i = j + 1
        return out

    def loops(self, it):
        """(keyword token, body open brace) of each loop, in source order"""
        t = self.t; a, e = it.body; i = a + 1; out = []
        while i < e:
            if t[i].k == 'id' and t[i].s in ('while', 'for', 'loop') and not (t[i].s == 'for' and t[i+1].s == '<'):
                j = i + 1
                while t[j].s != '{': j = t[j].m + 1 if t[j].s in ('(', '[') else j + 1
                out.append((i, j))
            i += 1
        return out

    def lets(self, it):
        t = self.t; a, e = it.body; out = []
        for i in range(a + 1, e):
            if t[i].k == 'id' and t[i].s == 'let' and t[i-1].s not in ('if', 'while', '&&'):
                j = i + 1
                if t[j].s == 'mut': j += 1
                if t[j].k == 'id': out.append(t[j].s)
        return out

    def closures(self, it):
        """[(params names, token after closing bar, body start, body end, is block)] in source order"""
        t = self.t; a, e = it.body; out = []; i = a + 1
        while i < e:
            s = t[i].s
            prev = t[i-1]
            start = t[i].k == 'op' and s in ('|', '||') and (prev.s in ('(', ',', '=', '{', ';', '=>', '[', '}') or (prev.k == 'id' and prev.s in ('move', 'return', 'else')))
            if start:
                if s == '||': names = []; j = i + 1
                else:
                    names = []; j = i + 1; st = True
                    while t[j].s != '|':
                        if st and (t[j].k == 'id') and t[j].s not in ('mut', 'ref'): names.append(t[j].s); st = False
                        if t[j].s == ',': st = True
                        j = t[j].m + 1 if t[j].s in ('(', '[') else j + 1
                    j += 1
                if t[j].s == '->': i = j; continue
                blk = t[j].s == '{'
                if blk: k = t[j].m + 1
                else:
                    k = j
                    while t[k].s not in (',', ')', ';', '}', ']'): k = t[k].m + 1 if t[k].s in ('(', '[', '{') else k + 1
                out.append((names, j, k, blk))
                i = j; continue
            i += 1
        return out
