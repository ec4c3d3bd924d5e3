"""Contracts, invariants and proof hints for the functions of /repo, by item path.

Only specification text lives here: nothing in this file is executed or replaces
code of /repo.  $0, $1.. are the parameters of a function, $r its result, ~x a
local variable."""
import re, rustsrc

# module, type, owned type, snake name, production
TYPES = [
    ('', 'LangTag', 'LangTagBuf', 'lang_tag', 'language_tag'),
    ('normal', 'NormalLangTag', 'NormalLangTagBuf', 'normal_lang_tag', 'langtag'),
    ('normal::extension', 'Extension', 'ExtensionBuf', 'extension', 'extension'),
    ('normal::extension', 'Extensions', 'ExtensionsBuf', 'extensions', 'extensions'),
    ('normal::extension', 'ExtensionSubtag', 'ExtensionSubtagBuf', 'extension_subtag', 'extension_subtag'),
    ('normal::language', 'Language', 'LanguageBuf', 'language', 'language'),
    ('normal::language::extlang', 'LanguageExtension', 'LanguageExtensionBuf', 'language_extension', 'extlang'),
    ('normal::language::extlang', 'ExtendedLangTag', 'ExtendedLangTagBuf', 'extended_lang_tag', 'extlang_tag'),
    ('normal::language::primary', 'PrimaryLanguage', 'PrimaryLanguageBuf', 'primary_language', 'primary'),
    ('normal::private_use', 'PrivateUse', 'PrivateUseBuf', 'private_use', 'privateuse'),
    ('normal::private_use', 'PrivateUseSubtag', 'PrivateUseSubtagBuf', 'private_use_subtag', 'privateuse_subtag'),
    ('normal::region', 'Region', 'RegionBuf', 'region', 'region'),
    ('normal::script', 'Script', 'ScriptBuf', 'script', 'script'),
    ('normal::variant', 'Variant', 'VariantBuf', 'variant', 'variant'),
    ('normal::variant', 'Variants', 'VariantsBuf', 'variants', 'variants'),
]
# automaton of /repo/src/grammar.rs -> production it must decide
AUTOMATA = [
    ('LanguageTag', 'language_tag'), ('Privateuse', 'privateuse'), ('PrivateuseSubtag', 'privateuse_subtag'),
    ('Langtag', 'langtag'), ('Language', 'language'), ('Primary', 'primary'), ('Extlang', 'extlang'),
    ('ExtlangTag', 'extlang_tag'), ('Script', 'script'), ('Region', 'region'), ('Variant', 'variant'),
    ('Variants', 'variants'), ('Extension', 'extension'), ('ExtensionSubtag', 'extension_subtag'), ('Extensions', 'extensions'),
]
PRODS = [p for _, p in AUTOMATA]

T = {}
def O(key, **kw):
    assert key not in T, key
    T[key] = kw

def path(m, *xs): return '::'.join(([m] if m else []) + list(xs))

# ------------------------------------------------------------ grammar
for X, p in AUTOMATA:
    g = 'grammar::%s::' % X
    st = 'st_%s' % X
    O(g + 'new', ens=['$r.q() == init_%s()' % p], enter='proof { reveal(%s); }' % st)
    O(g + 'push', req=['old($0).q() >= 0'],
      ens=['final($0).q() >= 0',
           '$r ==> step(old($0).q(), cic($1)) == final($0).q()',
           '!$r ==> step(old($0).q(), cic($1)) == -1'],
      enter='proof { reveal(step); reveal(%s); }' % st, attr='#[verifier::spinoff_prover] ')
    O(g + 'is_accepting', req=['$0.q() >= 0'], ens=['$r == acc($0.q())'],
      attr='#[verifier::spinoff_prover] ', enter='proof { reveal(acc); reveal(%s); }' % st)
    O(g + 'validate_str', ens=['$r == v_%s($0.spec_bytes())' % p])
    O(g + 'validate_bytes', ens=['$r == v_%s($0@)' % p], locals=['i', 'automaton'],
      enter='proof { ax_slice_len($0); reveal(v_%s); l_%s($0@); assert($0@.subrange(0, $0@.len() as int) =~= $0@); }' % (p, p),
      loops=[dict(inv=['~i <= $0@.len()', '~automaton.q() >= 0',
                       'run(init_%s(), $0@.subrange(0, ~i as int)) == ~automaton.q()' % p,
                       'v_%s($0@) == accepts(init_%s(), $0@)' % (p, p), '$0@.subrange(0, $0@.len() as int) =~= $0@'],
                  dec='$0@.len() - ~i',
                  enter='proof { l_feed(init_%s(), $0@, ~i as int); }' % p)])

O('x_static_automata::decode_utf8_char',
  req=['$1 < $0@.len()'],
  ens=['$0@[$1 as int] < 0x80 ==> ($r matches Ok(p) && p.0 as u32 == $0@[$1 as int] && p.1 == 1)',
       '$0@[$1 as int] >= 0x80 ==> ($r matches Ok(p) ==> p.1 > 1)',
       '$r matches Ok(p) ==> p.1 >= 1 && $1 + p.1 <= $0@.len()'],
  enter='proof { l_utf8_bits(); ax_slice_len($0); }')
O('x_static_automata::read_extended', req=['$1 < $0@.len()'], ens=['$r matches Ok(v) ==> v < 0x40'], enter='proof { l_utf8_bits(); }')


BUFFER = '''pub unsafe trait Buffer: Sized {
    spec fn buf_bytes(&self) -> Seq<u8>;
    fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.buf_bytes();
    fn into_bytes(self) -> (r: Vec<u8>) ensures r@ == self.buf_bytes();
}
'''
for _t, _e in (('Vec<u8>', 'self@'), ('String', 'encode_utf8(self@)')):
    O('x_str_newtype::<Buffer for %s>::as_bytes' % _t)
    O('x_str_newtype::<Buffer for %s>::into_bytes' % _t)
BUFX = {'x_str_newtype::<Buffer for Vec<u8>>': 'open spec fn buf_bytes(&self) -> Seq<u8> { self@ }', 'x_str_newtype::<Buffer for String>': 'open spec fn buf_bytes(&self) -> Seq<u8> { encode_utf8(self@) }'}

# ------------------------------------------------------------ utils
O('utils::into_smallcase', ens=['$r == lower($0)'], enter='proof { l_case_bits($0); }')
O('utils::case_insensitive_eq', ens=['$r == (lowers($0@) == lowers($1@))'],
  enter='proof { l_lowers_eq($0@, $1@); ax_slice_len($0); ax_slice_len($1); }',
  loops=[dict(kw='for', alt=dict(**{'while': dict(dec='$0@.len() - $v', inv=['$v <= $0@.len()', '$0@.len() == $1@.len()', 'forall|j: int| 0 <= j < $v ==> lower(#[trigger] $0@[j]) == lower($1@[j])',
                   '(lowers($0@) == lowers($1@)) <==> (forall|j: int| 0 <= j < $0@.len() ==> lower(#[trigger] $0@[j]) == lower($1@[j]))'])}),
      inv=['$0@.len() == $1@.len()', 'forall|j: int| 0 <= j < $v ==> lower(#[trigger] $0@[j]) == lower($1@[j])',
                   '(lowers($0@) == lowers($1@)) <==> (forall|j: int| 0 <= j < $0@.len() ==> lower(#[trigger] $0@[j]) == lower($1@[j]))'])])
O('utils::case_insensitive_hash', ens=['*final($1) == feed(*old($1), lowers($0@))'], enter='proof { ax_slice_len($0); }',
  loops=[dict(kw='for', iter='it', inv=['*$1 == feed(*old($1), lowers($0@.take(it.index@ as int)))'],
              alt=dict(range=dict(iter=None, inv=['*$1 == feed(*old($1), lowers($0@.take($v as int)))'], enter='proof { l_feed_step(*old($1), $0@, $v as int); }'),
                  **{'while': dict(iter=None, inv=['$v <= $0@.len()', '*$1 == feed(*old($1), lowers($0@.take($v as int)))'], enter='proof { l_feed_step(*old($1), $0@, $v as int); }', dec='$0@.len() - $v')}),
              enter='proof { l_feed_step(*old($1), $0@, it.index@ as int); }',
              after='proof { assert($0@.take($0@.len() as int) =~= $0@); }')])
O('utils::case_insensitive_cmp', ens=['$r == cmpb($0@, $1@)'], locals=['i'],
  enter='proof { reveal(cmpb); ax_slice_len($0); ax_slice_len($1); }',
  muts=['i'], loops=[dict(kw='loop', alt={'while': dict(kind='invariant')}, inv=['cmp_from($0@, $1@, ~i as int) == cmpb($0@, $1@)', '~i <= $0@.len() <= isize::MAX', '~i <= $1@.len() <= isize::MAX'], dec='$0@.len() - ~i')])

# ------------------------------------------------------------ the 15 newtypes
RAW = {'[u8]': '{}@', '&[u8]': '{}@', 'str': '{}.spec_bytes()', '&str': '{}.spec_bytes()', 'Vec<u8>': '{}@', 'String': 'encode_utf8({}@)'}
for m, X, B, sn, p in TYPES:
    P = lambda *a: path(m, *a)
    inv = 'proof { use_type_invariant(&*$0); }'
    v = 'v_' + p
    O(P(X, 'validate_str'), ens=['$r == %s($0.spec_bytes())' % v])
    O(P(X, 'validate_bytes'), ens=['$r == %s($0@)' % v])
    O(P(X, 'new'), ens=['exists|b: &[u8]| #[trigger] $0.as_ref_rel(b) && ($r is Ok <==> %s(b@)) && ($r matches Ok(t) ==> t.b() == b@)' % v,
                        '$r matches Err(e) ==> e.0 == $0'])
    O(P(X, 'from_bytes'), ens=['$r is Ok <==> %s($0@)' % v, '$r matches Ok(t) ==> t.b() == $0@', '$r matches Err(e) ==> e.0 == $0'])
    O(P(X, 'from_str'), ens=['$r is Ok <==> %s($0.spec_bytes())' % v, '$r matches Ok(t) ==> t.b() == $0.spec_bytes()', '$r matches Err(e) ==> e.0 == $0'])
    O(P(X, 'new_unchecked_from_bytes'), req=['%s($0@)' % v], ens=['$r.b() == $0@'], trusted='transmute between &[u8] and the newtype over str', attr='#[verifier::external_body] ')
    O(P(X, 'new_unchecked'), req=['%s($0.spec_bytes())' % v], ens=['$r.b() == $0.spec_bytes()'])
    for t in ("&'a [u8]", "&'a str"):
        O(P("<TryFrom<%s> for &'a %s>" % (t, X), 'try_from'), ens=['$r is Ok <==> %s(%s)' % (v, RAW[t.replace("'a ", '')].format('$0')),
            '$r matches Ok(t) ==> t.b() == %s' % RAW[t.replace("'a ", '')].format('$0'), '$r matches Err(e) ==> e.0 == $0'])
    O(P(X, 'as_str'), ens=['$r.spec_bytes() == $0.b()'])
    O(P(X, 'as_bytes'), ens=['$r@ == $0.b()'])
    O(P('<AsRef<%s> for %s>' % (X, X), 'as_ref'))
    O(P('<AsRef<str> for %s>' % X, 'as_ref'))
    O(P('<AsRef<[u8]> for %s>' % X, 'as_ref'))
    for tr in ('Display', 'Debug'):
        O(P('<%s for %s>' % (tr, X), 'fmt'), ens=['$r is Ok ==> fmt_out(*final($1)) == fmt_out(*old($1)) + $0.b()'])
    O(P('<Borrow<str> for %s>' % X, 'borrow'), ens=['sb($r) == $0.b()'])
    O(P("<From<&'a %s> for &'a str>" % X, 'from'), ens=['$r.spec_bytes() == $0.b()'])
    O(P("<From<&'a %s> for &'a [u8]>" % X, 'from'), ens=['$r@ == $0.b()'])
    ci = 'proof { reveal(%s); use_type_invariant(&*$%%d); l_fold_%s($0%%s, $1%%s); }' % (v, p)
    for t, b in RAW.items():
        O(P('<PartialEq<%s> for %s>' % (t, X), 'eq'), enter='proof { use_type_invariant(&*$0); l_fold_%s($0.b(), %s); }' % (p, b.format('$1')), r='res')
        O(P('<PartialEq<%s> for %s>' % (X, t), 'eq'), enter='proof { use_type_invariant(&*$1); l_fold_%s($1.b(), %s); }' % (p, b.format('$0')), r='res')
        O(P('<PartialOrd<%s> for %s>' % (t, X), 'partial_cmp'))
        O(P('<PartialOrd<%s> for %s>' % (X, t), 'partial_cmp'))
    O(P('<PartialEq for %s>' % X, 'eq'), enter='proof { crate::laws::ordering_equal_iff_equal($0.b(), $1.b()); l_lowers_eq($0.b(), $1.b()); }')
    O(P('<PartialOrd for %s>' % X, 'partial_cmp'))
    O(P('<Ord for %s>' % X, 'cmp'))
    O(P('<Hash for %s>' % X, 'hash'), ens=['*final($1) == feed(*old($1), lowers($0.b()))'])

    # owned type
    BV = {'Vec<u8>': '$0@', 'String': 'encode_utf8($0@)'}
    O(P('<Clone for %s>' % B, 'clone'), ens=['$r.b() == $0.b()'], enter='proof { use_type_invariant(&*$0); }')
    O(P(B, 'new'), ens=['$r is Ok <==> %s($0.buf_bytes())' % v, '$r matches Ok(t) ==> t.b() == $0.buf_bytes()', '$r matches Err(e) ==> e.0 == $0'],
      enter='proof { l_into_vec(); }')
    O(P(B, 'from_bytes'), ens=['$r is Ok <==> %s($0@)' % v, '$r matches Ok(t) ==> t.b() == $0@', '$r matches Err(e) ==> e.0 == $0'])
    O(P(B, 'from_string'), ens=['$r is Ok <==> %s(encode_utf8($0@))' % v, '$r matches Ok(t) ==> t.b() == encode_utf8($0@)', '$r matches Err(e) ==> e.0 == $0'])
    O(P(B, 'new_unchecked'), req=['into_ok($0)', '%s(into_bytes_of($0))' % v], ens=['$r.b() == into_bytes_of($0)'],
      enter='proof { l_ascii_%s(); }' % p)
    O(P(B, 'as_' + sn), ens=['$r.b() == $0.b()'], enter='proof { use_type_invariant(&*$0); }')
    for t in BV:
        O(P('<TryFrom<%s> for %s>' % (t, B), 'try_from'), ens=['$r is Ok <==> %s(%s)' % (v, BV[t]), '$r matches Ok(t) ==> t.b() == ' + BV[t], '$r matches Err(e) ==> e.0 == $0'])
        O(P('<From<%s> for %s>' % (B, t), 'from'), ens=['%s == $0.b()' % BV[t].replace('$0', '$r')])
    O(P('<FromStr for %s>' % B, 'from_str'), ens=['$r is Ok <==> %s(sb($0))' % v, '$r matches Ok(t) ==> t.b() == sb($0)', '$r matches Err(e) ==> encode_utf8(e.0@) == sb($0)'])
    O(P(B, 'as_str'), ens=['$r.spec_bytes() == $0.b()'])
    O(P(B, 'as_bytes'), ens=['$r@ == $0.b()'])
    O(P(B, 'into_string'), ens=['encode_utf8($r@) == $0.b()'])
    O(P(B, 'into_bytes'), ens=['$r@ == $0.b()'])
    O(P('<Borrow<%s> for %s>' % (X, B), 'borrow'), ens=['b_%s($r) == $0.b()' % sn])
    O(P('<ToOwned for %s>' % X, 'to_owned'), ens=['b_%s(&$r) == $0.b()' % B], enter='proof { use_type_invariant(&*$0); }')
    O(P('<Deref for %s>' % B, 'deref'), ens=['b_%s($r) == $0.b()' % sn])
    for a in (X, 'str', '[u8]'):
        O(P('<AsRef<%s> for %s>' % (a, B), 'as_ref'))
    for tr in ('Display', 'Debug'):
        O(P('<%s for %s>' % (tr, B), 'fmt'), ens=['$r is Ok ==> fmt_out(*final($1)) == fmt_out(*old($1)) + $0.b()'])
    for t in list(RAW) + [X, '&' + X]:
        O(P('<PartialEq<%s> for %s>' % (t, B), 'eq'))
        O(P('<PartialEq<%s> for %s>' % (B, t), 'eq'))
        O(P('<PartialOrd<%s> for %s>' % (t, B), 'partial_cmp'), enter='proof { use_type_invariant(&*$0); use_type_invariant(&*$1); }' if t == X else '')
        O(P('<PartialOrd<%s> for %s>' % (B, t), 'partial_cmp'))
    O(P('<PartialEq for %s>' % B, 'eq'))
    O(P('<PartialOrd for %s>' % B, 'partial_cmp'))
    O(P('<Ord for %s>' % B, 'cmp'))
    O(P('<Hash for %s>' % B, 'hash'), ens=['*final($1) == feed(*old($1), lowers($0.b()))'])
    # serde
    for a in (X, B):
        O(P('<Serialize for %s>' % a, 'serialize'), ens=['ser_str($1, $0.b(), $r)'])
    O(P("<Deserialize<'de> for &'a %s>" % X, 'deserialize'),
      ens=['exists|q: Result<&\'a str, D::Error>| #[trigger] de_rel($0, q) && (match q { Ok(s) => if %s(sb(s)) { $r matches Ok(t) && t.b() == sb(s) } else { $r is Err }, Err(_) => $r is Err })' % v])
    O(P("<Deserialize<'de> for %s>" % B, 'deserialize'),
      ens=['exists|q: Result<String, D::Error>| #[trigger] de_rel($0, q) && (match q { Ok(s) => if %s(encode_utf8(s@)) { $r matches Ok(t) && t.b() == encode_utf8(s@) } else { $r is Err }, Err(_) => $r is Err })' % v])

BUFS = set(t[2] for t in TYPES)
RAWRE = re.compile(r'<Partial(Eq|Ord)<(\[u8\]|&\[u8\]|str|&str|Vec<u8>|String)> for|<Partial(Eq|Ord)<\w+> for (\[u8\]|&\[u8\]|str|&str|Vec<u8>|String)>')
def group(key):
    """parts of the crate a run can leave out when no selected function uses them"""
    g = {'base'}
    if 'ToOwned for' in key or any(w in BUFS or w == 'Buffer' or w == 'x_str_newtype' or w == 'PrivateUseLangTagBuf' for w in re.findall(r'\w+', key)): g.add('buf')
    if 'erialize' in key: g.add('serde')
    if RAWRE.search(key): g.add('raw')
    if key.startswith('grammar::') or key.startswith('x_static_automata'): g.add('grammar')
    return g

PRESENT = None
def present(tr, b, a):
    """whether the source has this impl at all (None: not known yet)"""
    if PRESENT is None: return True
    return any(rustsrc.canon(k) in PRESENT for k in ('<%s<%s> for %s>' % (tr, b, a), '<%s for %s>' % (tr, a if a == b else '?')))
def eq_impl(a, b, e, ga=''):
    if not present('PartialEq', b, a): return ''
    return ('impl%s PartialEqSpecImpl<%s> for %s { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &%s) -> bool { %s } }\n' % (ga, b, a, b, e))
def ord_impl(a, b, e, ga=''):
    if not present('PartialOrd', b, a): return ''
    return ('impl%s PartialOrdSpecImpl<%s> for %s { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, other: &%s) -> Option<core::cmp::Ordering> { %s } }\n' % (ga, b, a, b, e))

def type_extra(m, X, B, sn, p, groups):
    s = 'impl %s { pub closed spec fn b(&self) -> Seq<u8> { self.0.spec_bytes() } #[verifier::type_invariant] pub closed spec fn inv(&self) -> bool { v_%s(self.b()) } }\n' % (X, p)
    s += 'impl AsRefSpecImpl<[u8]> for %s { open spec fn as_ref_rel(&self, r: &[u8]) -> bool { r@ == self.b() } }\n' % X
    s += 'impl AsRefSpecImpl<str> for %s { open spec fn as_ref_rel(&self, r: &str) -> bool { r.spec_bytes() == self.b() } }\n' % X
    s += 'impl AsRefSpecImpl<%s> for %s { open spec fn as_ref_rel(&self, r: &%s) -> bool { r.b() == self.b() } }\n' % (X, X, X)
    s += eq_impl(X, X, 'lowers(self.b()) == lowers(other.b())')
    s += ord_impl(X, X, 'Some(cmpb(self.b(), other.b()))')
    s += 'impl OrdSpecImpl for %s { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, other: &%s) -> core::cmp::Ordering { cmpb(self.b(), other.b()) } }\n' % (X, X)
    for t in ('[u8]', 'str'):
        s += "impl<'a> FromSpecImpl<&'a %s> for &'a %s { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: &'a %s) -> Self { arbitrary() } }\n" % (X, t, X)
        s += "impl<'a> TryFromSpecImpl<&'a %s> for &'a %s { open spec fn obeys_try_from_spec() -> bool { false } open spec fn try_from_spec(v: &'a %s) -> Result<Self, Self::Error> { arbitrary() } }\n" % (t, X, t)
    for t, b in RAW.items() if 'raw' in groups else ():
        s += eq_impl(X, t, 'lowers(self.b()) == lowers(%s)' % b.format('other'))
        s += eq_impl(t, X, 'lowers(%s) == lowers(other.b())' % b.format('self'))
        s += ord_impl(X, t, 'if v_%s(%s) { Some(cmpb(self.b(), %s)) } else { None }' % (p, b.format('other'), b.format('other')))
        s += ord_impl(t, X, 'if v_%s(%s) { Some(cmpb(%s, other.b())) } else { None }' % (p, b.format('self'), b.format('self')))
    s += 'pub open spec fn b_%s(x: &%s) -> Seq<u8> { x.b() }\n' % (sn, X)
    for t in ('Display', 'Debug'): s += 'impl %sSpecImpl for %s { open spec fn fmt_req(&self, f: &core::fmt::Formatter<\'_>) -> bool { true } }\n' % (t, X)
    return s
def buf_extra(m, X, B, sn, p, groups):
    s = 'impl %s { pub closed spec fn b(&self) -> Seq<u8> { encode_utf8(self.0@) } #[verifier::type_invariant] pub closed spec fn inv(&self) -> bool { v_%s(self.b()) } }\n' % (B, p)
    s += 'pub open spec fn b_%s(x: &%s) -> Seq<u8> { x.b() }\n' % (B, B)
    s += 'impl AsRefSpecImpl<[u8]> for %s { open spec fn as_ref_rel(&self, r: &[u8]) -> bool { r@ == self.b() } }\n' % B
    s += 'impl AsRefSpecImpl<str> for %s { open spec fn as_ref_rel(&self, r: &str) -> bool { r.spec_bytes() == self.b() } }\n' % B
    s += 'impl AsRefSpecImpl<%s> for %s { open spec fn as_ref_rel(&self, r: &%s) -> bool { r.b() == self.b() } }\n' % (X, B, X)
    for t in ('Vec<u8>', 'String'):
        s += "impl FromSpecImpl<%s> for %s { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: %s) -> Self { arbitrary() } }\n" % (B, t, B)
        s += "impl TryFromSpecImpl<%s> for %s { open spec fn obeys_try_from_spec() -> bool { false } open spec fn try_from_spec(v: %s) -> Result<Self, Self::Error> { arbitrary() } }\n" % (t, B, t)
    s += eq_impl(B, B, 'lowers(self.b()) == lowers(other.b())')
    s += ord_impl(B, B, 'Some(cmpb(self.b(), other.b()))')
    s += 'impl OrdSpecImpl for %s { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, other: &%s) -> core::cmp::Ordering { cmpb(self.b(), other.b()) } }\n' % (B, B)
    for t in (X, '&' + X):
        s += eq_impl(B, t, 'lowers(self.b()) == lowers(other.b())') + eq_impl(t, B, 'lowers(self.b()) == lowers(other.b())')
        s += ord_impl(B, t, 'Some(cmpb(self.b(), other.b()))') + ord_impl(t, B, 'Some(cmpb(self.b(), other.b()))')
    for t, b in RAW.items() if 'raw' in groups else ():
        s += eq_impl(B, t, 'lowers(self.b()) == lowers(%s)' % b.format('other'))
        s += eq_impl(t, B, 'lowers(%s) == lowers(other.b())' % b.format('self'))
        s += ord_impl(B, t, 'if v_%s(%s) { Some(cmpb(self.b(), %s)) } else { None }' % (p, b.format('other'), b.format('other')))
        s += ord_impl(t, B, 'if v_%s(%s) { Some(cmpb(%s, other.b())) } else { None }' % (p, b.format('self'), b.format('self')))
    for t in ('Display', 'Debug'): s += 'impl %sSpecImpl for %s { open spec fn fmt_req(&self, f: &core::fmt::Formatter<\'_>) -> bool { true } }\n' % (t, B)
    return s
import overlay_views
def type_extras(groups):
    d = {path(t[0], t[1]): type_extra(*t, groups) for t in TYPES}
    for k, x in overlay_views.EXTRA.items(): d[k] = d.get(k, '') + x
    if 'buf' in groups: d.update({path(t[0], t[2]): buf_extra(*t, groups) for t in TYPES})
    return d
GROUPS = {'base', 'buf', 'serde', 'raw', 'grammar'}
def keys():
    """every key a contract or an extra is filed under, with those of the impls around them"""
    ks = set(T) | set(KEEP_EMPTY_IMPL) | set(BUFX) | set(type_extras(GROUPS))
    return ks | set(k[:k.rfind('::')] for k in ks if ' for ' in k and '>::' in k)
KEEP_EMPTY_IMPL = overlay_views.COPY | set(path(t[0], '<Eq for %s>' % x) for t in TYPES for x in t[1:3])

class Overlay:
    def __init__(self, statemap_text='', groups=GROUPS, structs={}):
        self.statemap_text, self.groups = statemap_text, groups
        self.extras = type_extras(groups); self.keep_unknown = False
        self.rep = {}
        for k, text in structs.items():
            m = overlay_views.renaming(k, text); n = k.split('::')[-1]
            if m and all(a == b for a, b in m.items()): continue
            self.rep[n] = m
            if m: self.extras[k] = overlay_views.rename(self.extras[k], m)
            if n == 'Singleton':
                if m: self.extras[k] = self.extras[k].replace('{ Singleton(c) }', '{ Singleton { %s: c } }' % m['0'])
            elif not m:
                self.extras[k] = re.sub(r'pub closed spec fn rem\(&self\) -> Seq<Seq<u8>> \{[^}]*\}', 'pub uninterp spec fn rem(&self) -> Seq<Seq<u8>>;', re.sub(r'#\[verifier::type_invariant\] [^}]*\}', '', self.extras[k]))
    def fn(self, key, it):
        if not group(key) - {'grammar'} <= self.groups: return {'drop': 'not used by this check'}
        e = T.get(key)
        for n, m in self.rep.items():
            if e and n != 'Singleton' and re.search(r"\b%s<'a>" % n, key): e = dict(e, rep=True) if m is None else overlay_views.rename(e, m)
        return e
    def drop_unknown(self, it): return not self.keep_unknown or KNOWN_RE.search(it.key) is not None
    def value(self, it): return T.get(it.key) if it.kind in ('const', 'static') else None
    def used(self, key): return group(key) - {'grammar'} <= self.groups
    def item(self, key, it):
        if it.kind not in ('fn', 'mod') and not (group(key) - {'grammar'}) <= self.groups: return False
        if key == 'x_str_newtype::Buffer': return BUFFER
        if it.kind == 'impl' and not any(c.kind == 'fn' for c in it.children) and it.key not in KEEP_EMPTY_IMPL: return False
        return None
    def impl_prelude(self, it): return ''
    def impl_extra(self, it): return BUFX.get(it.key, '')
    def type_attrs(self, it): return ''
    def type_extra(self, it): return self.extras.get(it.key, '')
    def keep_use(self, s):
        return not re.search(r'static_automata|prelude', s)
    def keep_mod(self, it): return it.name != 'tests'
    def mod_prelude(self, path):
        return 'use vstd::prelude::*; use vstd::string::*; use vstd::utf8::*; use crate::sp::*; use crate::seg::*; use crate::x_std::*; use crate::x_std2::*; use crate::gf::*; use crate::views::*; use vstd::std_specs::iter::*;  use vstd::std_specs::cmp::*; use vstd::std_specs::convert::*; use vstd::std_specs::fmt::*;\n' + ('' if path == ('x_str_newtype',) else ('use crate::x_serde::{ser_str, de_rel};' if 'serde' in self.groups else '') + (' use crate::x_str_newtype::Buffer;\n' if 'buf' in self.groups else '')) + ('use crate::tables::*; use crate::dfa::*;\n' if path == ('grammar',) else 'use crate::ob_language;\n' if path == ('grandfathered',) else '')
    def mod_extra(self, path):
        return 'broadcast use {crate::x_std::ax_str_index, crate::x_std::ax_str_fmt, crate::x_std::ax_wr_u8};\n' + (self.statemap_text if path == ('grammar',) and 'grammar' in self.groups else '')

# functions that deliberately carry no contract (none of the properties is about them)
# formatting of error types and derived traits of the three small enums and structs: generated by rustc, and outside
# of the verifier's reach (intrinsics, core::fmt internals); exercised by the replay harness only
KNOWN_RE = re.compile(r'<Debug for (InvalidGrandfatheredTag<T>|InvalidSingleton<T>)>::fmt$|<Display for Utf8Error>::fmt$|<Eq for (Kind|GrandfatheredLangTag|Singleton)>::assert_fields_are_eq$')

