import re
"""Contracts of the functions that take tags apart: offsets, accessors, iterators,
lookup, singletons, grandfathered tags, the general tag and its typed view.

Same conventions as overlay.py; nothing here is executable text."""
from overlay import O, T, TYPES, path, eq_impl, ord_impl

EXT, LNG, XL, PU, VAR = 'normal::extension', 'normal::language', 'normal::language::extlang', 'normal::private_use', 'normal::variant'
N = 'normal::NormalLangTag::'
SN = {X: sn for m, X, B, sn, p in TYPES}
EXTRA = {}        # item path -> specification text next to a type
HEAD = {}         # impl path -> specification text inside an impl
COPY = set()

# ------------------------------------------------------------ scanning
SCAN = 'proof { ax_str_len($0); l_ascii_bds(sb($0)); }'
O('normal::find_list_end', nargs=3, attr='#[verifier::loop_isolation(false)] ', locals=['bytes', 'i', 'end', 'subtag', 'subtag'], muts=['i', 'end'],
  req=['ascii(sb($0))', 'forall|o: usize, t: &str| #[trigger] call_requires($2, (o, t))'],
  ens=['forall|p: P| obeys($2, p) ==> $r as int == #[trigger] list_end(sb($0), $1 as int, p)'],
  enter='let ghost o0 = $1; ' + SCAN,
  loops=[dict(kw='while', inv=['~bytes@ == sb($0)', 'ascii(sb($0))', 'forall|o: usize, t: &str| #[trigger] call_requires($2, (o, t))',
                   'o0 <= sb($0).len() <= isize::MAX', '$1 <= ~i <= sb($0).len()', '~end <= sb($0).len()', '0 <= $1',
                   'forall|k: int| $1 <= k < ~i ==> #[trigger] sb($0)[k] != 0x2d',
                   'forall|k: int| 0 <= k <= sb($0).len() ==> #[trigger] is_char_boundary(sb($0), k)',
                   'forall|p: P| #[trigger] obeys($2, p) ==> fle(sb($0), $1 as int, ~end as int, p) == list_end(sb($0), o0 as int, p)'],
              dec='sb($0).len() - ~i', enter='proof { if sb($0)[~i as int] == 0x2d { l_seg_end_is(sb($0), $1 as int, ~i as int); } }',
              after='proof { l_seg_end_is(sb($0), $1 as int, sb($0).len() as int); assert(sb($0).subrange($1 as int, sb($0).len() as int) =~= sb($0).skip($1 as int)); }')])
O('normal::find_segment_end', nargs=2, locals=['bytes', 'i'], muts=['i'], req=['$1 <= sb($0).len()'], ens=['$r as int == seg_end(sb($0), $1 as int)'],
  enter='proof { l_seg_end(sb($0), $1 as int); }',
  loops=[dict(kw='while', inv=['~bytes@ == sb($0)', '$1 <= ~i <= sb($0).len()', 'seg_end(sb($0), ~i as int) == seg_end(sb($0), $1 as int)'], dec='sb($0).len() - ~i')])
O('normal::find_segment_start', nargs=2, locals=['bytes', 'i'], muts=['i'], req=['$1 <= sb($0).len()'], ens=['$r as int == seg_start(sb($0), $1 as int)'], enter='proof { reveal_with_fuel(seg_start, 3); }',
  loops=[dict(kw='loop', alt={'while': dict(kind='invariant', inv=['~bytes@ == sb($0)', '~i <= $1 <= sb($0).len()', 'seg_start(sb($0), ~i as int) == seg_start(sb($0), $1 as int)'], after='proof { reveal_with_fuel(seg_start, 3); }')}, inv=['~bytes@ == sb($0)', '~i < $1 <= sb($0).len()', 'seg_start(sb($0), ~i + 1) == seg_start(sb($0), $1 as int)'],
              ens=None, dec='~i', enter='proof { reveal_with_fuel(seg_start, 3); }')])

# ------------------------------------------------------------ pieces of a normal tag
D = 'dec($0.b())'
TAG = 'proof { use_type_invariant(&*$0); l_tag($0.b()); l_ascii_bds($0.b()); ax_str_len(&$0.0); }'
def test(p, enter=''): return dict(to='find_list_end', enter=enter, types=['usize', '&str'], ret='bool', ens=['cr == holds(%s, $c0 as int, sb($c1))' % p])
O(N + 'language_end', ens=['$r as int == e1(%s)' % D], enter=TAG, closures=[test('P::First(Q::Extlang)')])
O(N + 'script_range', enter=TAG, closures=[test('P::At(e1(%s) + 1, Q::Script)' % D)],
  ens=['match $r { Ok(g) => %s.sc.len() > 0 && g.start == e1(%s) + 1 && g.end == e2(%s), Err(e) => %s.sc.len() == 0 && e as int == e1(%s) }' % (D, D, D, D, D)])
O(N + 'region_range', enter=TAG, closures=[test('P::At(e2(%s) + 1, Q::Region)' % D)],
  ens=['match $r { Ok(g) => %s.rg.len() > 0 && g.start == e2(%s) + 1 && g.end == e3(%s), Err(e) => %s.rg.len() == 0 && e as int == e2(%s) }' % (D, D, D, D, D)])
O(N + 'variants_range', enter=TAG, closures=[test('P::All(Q::Variant)')],
  ens=['$r.end == e4(%s)' % D, '%s.va.len() > 0 ==> $r.start == e3(%s) + 1' % (D, D), '%s.va.len() == 0 ==> $r.start == $r.end' % D])
O(N + 'extensions_range', enter=TAG, closures=[test('P::All(Q::SingSub)')],
  ens=['$r.end == e5(%s)' % D, '%s.ex.len() > 0 ==> $r.start == e4(%s) + 1' % (D, D), '%s.ex.len() == 0 ==> $r.start == $r.end' % D])
O(N + 'private_use_offset', enter=TAG, ens=['match $r { Some(i) => %s.pu.len() > 0 && i as int == e5(%s) + 1, None => %s.pu.len() == 0 }' % (D, D, D)])
EMP = 'proof { use_type_invariant(&*$0); l_tag($0.b()); l_ascii_bds($0.b()); ax_str_len(&$0.0); l_empty_lists(); }'
O(N + 'language', enter=TAG, ens=['$r.b() == %s.l' % D])
O(N + 'variants', enter=EMP, ens=['$r.b() =~= %s.va' % D])
O(N + 'extensions', enter=EMP, ens=['$r.b() =~= %s.ex' % D])
def piece(f, X, sn, q, c, a, b):
    O(N + f, enter=TAG, ens=['ob_%s($r) == ne(%s.%s)' % (sn, D, c)], r='res',
      closures=[dict(to='map', types=['Range<usize>'], ret='&%s' % X, req=['$c0.start == %s(%s) + 1' % (a, D), '$c0.end == %s(%s)' % (b, D), '%s.%s.len() > 0' % (D, c)], ens=['cr.b() == %s.%s' % (D, c)])])
piece('script', 'Script', 'script', 'Script', 'sc', 'e1', 'e2')
piece('region', 'Region', 'region', 'Region', 'rg', 'e2', 'e3')
O(N + 'private_use', enter=TAG, ens=['ob_private_use($r) == ne(%s.pu)' % D], r='res',
  closures=[dict(to='map', types=['usize'], ret='&PrivateUse', req=['$c0 == e5(%s) + 1' % D, '%s.pu.len() > 0' % D], ens=['cr.b() == %s.pu' % D])])
O(N + 'private_use_subtags', ens=['$r.rem() == pusubs(%s.pu)' % D])

# ------------------------------------------------------------ iterators over subtags
def iterator(m, It, X, q, item, off, owner, lo, hi=None):
    """It iterates the subtags of owner from offset off"""
    k = path(m, "%s<'a>::" % It)
    end = hi or 'self.data.spec_bytes().len()'
    t = path(m, "<Iterator for %s<'a>>::" % It)
    EXTRA[path(m, It)] = ("impl<'a> %s<'a> { pub closed spec fn rem(&self) -> Seq<Seq<u8>> { rest(self.data.spec_bytes(), self.offset as int, %s as int) } "
        "#[verifier::type_invariant] pub closed spec fn inv(&self) -> bool { it_inv(self.data.spec_bytes(), self.offset as int, %s as int, Q::%s) } }\n"
        "impl<'a> IteratorSpecImpl for %s<'a> { open spec fn obeys_prophetic_iter_laws(&self) -> bool { false } #[verifier::prophetic] uninterp spec fn remaining(&self) -> Seq<Self::Item>; #[verifier::prophetic] uninterp spec fn will_return_none(&self) -> bool; uninterp spec fn decrease(&self) -> Option<nat>; uninterp spec fn peek(&self, i: int) -> Option<Self::Item>; }\n") % (It, end, end, q, It)
    e = end.replace('self.', '$0.')
    O(t + 'next', ens=['match $r { Some(t) => old($0).rem().len() > 0 && b_%s(t) == old($0).rem()[0] && final($0).rem() == old($0).rem().drop_first(), None => old($0).rem().len() == 0 && final($0).rem() == old($0).rem() }' % SN[item]],
      locals=['end', 'item'],
      enter='proof { use_type_invariant(&*$0); ax_str_len($0.data); l_ascii_bds($0.data.spec_bytes()); if $0.offset < %s { l_it_next($0.data.spec_bytes(), $0.offset as int, %s as int, Q::%s); l_rest_some($0.data.spec_bytes(), $0.offset as int, %s as int, Q::%s); } }' % (e, e, q, e, q))
    P = path(m, "<Default for %s<'a>>::default" % It)
    if It != 'ExtensionsIter':
        O(P, ens=['$r.rem().len() == 0'], enter='proof { l_lit_empty(); }')
        O(k + 'empty', ens=['$r.rem().len() == 0'])
    return k
k = iterator(EXT, 'ExtensionIter', 'Extension', 'ExtSub', 'ExtensionSubtag', 2, 'Extension', 2)
O(k + 'new', req=['v_extension(sb($0))'], ens=['$r.rem() == split(sb($0).skip(2))'], enter='proof { l_new_extension_iter(sb($0)); }')
O(EXT + '::Extension::iter', ens=['$r.rem() == split($0.b().skip(2))'], enter='proof { use_type_invariant(&*$0); }')
k = iterator(PU, 'PrivateUseIter', 'PrivateUse', 'PuSub', 'PrivateUseSubtag', 2, 'PrivateUse', 2)
O(k + 'new', req=['v_privateuse(sb($0))'], ens=['$r.rem() == split(sb($0).skip(2))'], enter='proof { l_new_privateuse_iter(sb($0)); }')
O(PU + '::PrivateUse::iter', ens=['$r.rem() == split($0.b().skip(2))'], enter='proof { use_type_invariant(&*$0); }')
k = iterator(XL, 'LanguageExtensionIter', 'LanguageExtension', 'Extlang', 'ExtendedLangTag', 0, 'LanguageExtension', 0)
O(k + 'new', req=['v_extlang(sb($0))'], ens=['$r.rem() == split(sb($0))'], enter='proof { l_new_extlang_iter(sb($0)); }')
O(XL + '::LanguageExtension::iter', ens=['$r.rem() == split($0.b())'], enter='proof { use_type_invariant(&*$0); }')
k = iterator(VAR, 'VariantsIter', 'Variants', 'Variant', 'Variant', 0, 'Variants', 0, 'self.end')
O(k + 'new', req=['v_variants(sb($0))'], ens=['$r.rem() == vsubs(sb($0))'], enter='proof { l_new_variants_iter(sb($0)); ax_str_len($0); }')
O(VAR + '::Variants::iter', ens=['$r.rem() == vsubs($0.b())'], enter='proof { use_type_invariant(&*$0); }')
VD = 'proof { use_type_invariant(&*$0); ax_str_len($0.data); l_ascii_bds($0.data.spec_bytes()); if $0.offset < $0.end { l_it_back($0.data.spec_bytes(), $0.offset as int, $0.end as int, Q::Variant); l_rest_some($0.data.spec_bytes(), $0.offset as int, $0.end as int, Q::Variant); } }'
O(path(VAR, "<DoubleEndedIterator for VariantsIter<'a>>::next_back"), locals=['start', 'item'], enter=VD,
  ens=['match $r { Some(t) => old($0).rem().len() > 0 && b_variant(t) == old($0).rem().last() && final($0).rem() == old($0).rem().drop_last(), None => old($0).rem().len() == 0 && final($0).rem() == old($0).rem() }'])
O(VAR + '::Variants::first', ens=['ob_variant($r) == (if vsubs($0.b()).len() > 0 { Some(vsubs($0.b())[0]) } else { None })'])
O(VAR + '::Variants::last', ens=['ob_variant($r) == (if vsubs($0.b()).len() > 0 { Some(vsubs($0.b()).last()) } else { None })'])
O(VAR + '::Variants::EMPTY', ens=['$r.b() == Seq::<u8>::empty()'], enter='proof { l_lit_empty(); l_empty_lists(); }')
O(EXT + '::Extensions::EMPTY', ens=['$r.b() == Seq::<u8>::empty()'], enter='proof { l_lit_empty(); l_empty_lists(); }')

# extensions, one at a time
EXTRA[EXT + '::ExtensionsIter'] = ("impl<'a> ExtensionsIter<'a> { pub closed spec fn rem(&self) -> Seq<Seq<u8>> { xrest(self.data.spec_bytes(), self.offset as int) } "
    "#[verifier::type_invariant] pub closed spec fn inv(&self) -> bool { xit_inv(self.data.spec_bytes(), self.offset as int) } }\n"
    "impl<'a> IteratorSpecImpl for ExtensionsIter<'a> { open spec fn obeys_prophetic_iter_laws(&self) -> bool { false } #[verifier::prophetic] uninterp spec fn remaining(&self) -> Seq<Self::Item>; #[verifier::prophetic] uninterp spec fn will_return_none(&self) -> bool; uninterp spec fn decrease(&self) -> Option<nat>; uninterp spec fn peek(&self, i: int) -> Option<Self::Item>; }\n")
O(EXT + "::ExtensionsIter<'a>::new", req=['v_extensions(sb($0))'], ens=['$r.rem() == exts(sb($0))'], enter='proof { l_new_extensions_iter(sb($0)); }')
O(EXT + '::Extensions::iter', ens=['$r.rem() == exts($0.b())'], enter='proof { use_type_invariant(&*$0); }')
O(EXT + "::<Iterator for ExtensionsIter<'a>>::next", locals=['offset', 'end', 'item'],
  ens=['match $r { Some(t) => old($0).rem().len() > 0 && b_extension(t) == old($0).rem()[0] && final($0).rem() == old($0).rem().drop_first(), None => old($0).rem().len() == 0 && final($0).rem() == old($0).rem() }'],
  closures=[test('P::All(Q::ExtSub)')],
  enter='proof { use_type_invariant(&*$0); ax_str_len($0.data); l_ascii_bds($0.data.spec_bytes()); if $0.offset < $0.data.spec_bytes().len() { l_xit_next($0.data.spec_bytes(), $0.offset as int); } }')
O(EXT + '::Extensions::get', locals=['bytes', 'i', 'starting', 'end'], muts=['i', 'starting'], ens=['ob_extension($r) == first_ext(exts($0.b()), $1.c())'], r='res',
  enter='proof { use_type_invariant(&*$0); use_type_invariant(&$1); ax_str_len(&$0.0); l_get($0.b(), $1.c()); l_ascii_bds($0.b()); }',
  closures=[test('P::All(Q::Long)', 'proof { ax_str_len($c1); }')],
  loops=[dict(kw='while', inv=['~bytes@ == $0.b()', '$0.b() == sb(&$0.0)', 'sb(&$0.0).len() <= isize::MAX', 'v_extensions($0.b())', 'is_sing($1.c())', 'ascii($0.b())', 'nodouble($0.b())',
                   '~i <= $0.b().len()', '~i < $0.b().len() ==> ~starting == (~i == 0 || $0.b()[~i - 1] == 0x2d)', 'forall|j: int| 0 <= j < ~i ==> !#[trigger] hit($0.b(), j, $1.c())',
                   'forall|k: int| 0 <= k <= $0.b().len() ==> #[trigger] is_char_boundary($0.b(), k)'],
              dec='$0.b().len() - ~i', enter='let ghost hh = hit($0.b(), ~i as int, $1.c()); proof { l_get($0.b(), $1.c()); }', after='proof { l_get($0.b(), $1.c()); }')])
O(EXT + '::Extensions::iter_extension', ens=['$r.rem() == xsubs(first_ext(exts($0.b()), $1.c()))'])
O(EXT + '::Extension::singleton', ens=['$r.c() == $0.b()[0]', '$0.b().len() >= 4', 'is_sing($0.b()[0])', '$0.b()[1] == 0x2d'], enter='proof { use_type_invariant(&*$0); l_new_extension_iter($0.b()); ax_str_len(&$0.0); }')

# ------------------------------------------------------------ language
LG = 'proof { use_type_invariant(&*$0); l_lang($0.b()); l_find_dash($0.b(), 0); l_ascii_bds($0.b()); ax_str_len(&$0.0); }'
O(LNG + '::Language::primary', enter=LG, ens=['$r.b() == lprimary($0.b())'], locals=['primary'])
O(LNG + '::Language::extension', enter=LG, ens=['ob_language_extension($r) == lext($0.b())'], r='res',
  closures=[dict(to='map', pat_ok=True, types=['(&str, &str)'], ret='&LanguageExtension', req=['v_extlang(sb(p0.1))'], ens=['cr.b() == sb(p0.1)'])])
O(LNG + '::Language::extension_subtags', ens=['$r.rem() == lsubs(lext($0.b()))'])

# ------------------------------------------------------------ singletons
S = EXT + '::Singleton'
EXTRA[S] = ('impl Singleton { pub closed spec fn c(&self) -> u8 { self.0 } #[verifier::type_invariant] pub closed spec fn inv(&self) -> bool { is_sing(self.0) } }\n'
    'pub closed spec fn sg(c: u8) -> Singleton { Singleton(c) }\n'
    'pub open spec fn sgc(c: char) -> bool { c < \'\\u{80}\' && is_sing(c as u8) }\n'
    + eq_impl('Singleton', 'Singleton', 'self.c() == other.c()') + eq_impl('Singleton', 'u8', 'self.c() == *other') + eq_impl('Singleton', 'char', 'self.c() as u32 == *other as u32')
    + 'impl TryFromSpecImpl<u8> for Singleton { open spec fn obeys_try_from_spec() -> bool { true } open spec fn try_from_spec(v: u8) -> Result<Self, Self::Error> { if is_sing(v) { Ok(sg(v)) } else { Err(InvalidSingleton(v)) } } }\n'
    + 'impl TryFromSpecImpl<char> for Singleton { open spec fn obeys_try_from_spec() -> bool { true } open spec fn try_from_spec(v: char) -> Result<Self, Self::Error> { if sgc(v) { Ok(sg(v as u8)) } else { Err(InvalidSingleton(v)) } } }\n'
    + 'impl DisplaySpecImpl for Singleton { open spec fn fmt_req(&self, f: &core::fmt::Formatter<\'_>) -> bool { true } }\n')
COPY.add(EXT + '::<Copy for Singleton>')
O(EXT + '::<Clone for Singleton>::clone', ens=['$r == *$0'])
O(EXT + '::<PartialEq for Singleton>::eq')
O(S + '::new', ens=['$r is Ok <==> is_sing($0)', '$r matches Ok(t) ==> t.c() == $0 && t == sg($0)', '$r matches Err(e) ==> e.0 == $0'])
O(S + '::from_string', ens=['$r is Ok <==> is_single(sb($0))', '$r matches Ok(t) ==> t.c() == sb($0)[0]', '$r matches Err(e) ==> e.0 == $0'], r='res',
  enter='proof { l_one_byte($0); ax_str_len($0); }', closures=[dict(to='map_err', types=['_'], ret='InvalidSingleton<&str>', ens=['cr.0 == $0'])])
O(S + '::unwrap', ens=['$r == $0.c()', 'is_sing($r)'], enter='proof { use_type_invariant(&$0); }')
O(EXT + '::<FromStr for Singleton>::from_str', ens=['$r is Ok <==> is_single(sb($0))', '$r matches Ok(t) ==> t.c() == sb($0)[0]', '$r matches Err(e) ==> encode_utf8(e.0@) == sb($0)'], r='res',
  closures=[dict(to='map_err', types=['_'], ret='InvalidSingleton<String>', ens=['encode_utf8(cr.0@) == sb($0)'])])
O(EXT + '::<TryFrom<u8> for Singleton>::try_from', ens=['$r matches Ok(t) ==> t.c() == $0'])
O(EXT + '::<TryFrom<char> for Singleton>::try_from', ens=['$r is Ok <==> sgc($0)', '$r matches Ok(t) ==> t.c() == $0 as u8'], r='res', locals=['codepoint'],
  closures=[dict(to='map_err', types=['_'], ret='InvalidSingleton<char>', ens=['cr.0 == $0'])])
O(EXT + '::<PartialEq<u8> for Singleton>::eq')
O(EXT + '::<PartialEq<char> for Singleton>::eq')
O(EXT + '::<Display for Singleton>::fmt', ens=['$r is Ok && plain(*old($1)) ==> fmt_out(*final($1)) == fmt_out(*old($1)) + seq![$0.c()]'], enter='proof { use_type_invariant(&*$0); l_char_byte($0.c()); }')

# ------------------------------------------------------------ grandfathered tags
G = 'grandfathered::'
GT = G + 'GrandfatheredLangTag'
WORDS = 'EnGbOed IAmi IBnn IDefault IEnochian IHak IKlingon ILux IMingo INavajo IPwn ITao ITay ITsu SgnBeFr SgnBeNl SgnChDe ArtLojban CelGaulish NoBok NoNyn ZhGuoyu ZhHakka ZhMin ZhMinNan ZhXiang'.split()
EXTRA[GT] = ('pub open spec fn gidx(g: GrandfatheredLangTag) -> int { match g { %s } }\n' % ' '.join('GrandfatheredLangTag::%s => %d,' % (w, i) for i, w in enumerate(WORDS))
    + "impl<'a> TryFromSpecImpl<&'a [u8]> for GrandfatheredLangTag { open spec fn obeys_try_from_spec() -> bool { false } open spec fn try_from_spec(v: &'a [u8]) -> Result<Self, Self::Error> { arbitrary() } }\n"
    + 'impl DisplaySpecImpl for GrandfatheredLangTag { open spec fn fmt_req(&self, f: &core::fmt::Formatter<\'_>) -> bool { true } }\n')
COPY.add(G + '<Copy for GrandfatheredLangTag>')
O(G + '<Clone for GrandfatheredLangTag>::clone', ens=['$r == *$0'])
O(G + 'GRANDFATHERED', ens=['$r@.len() == 26', 'forall|k: int| 0 <= k < 26 ==> gidx(#[trigger] $r@[k]) == k'])
O(GT + '::as_bytes', ens=['$r@ =~= gw(gidx(*$0))'], enter='proof { reveal(gw); }')
O(GT + '::as_str', ens=['sb($r) == gw(gidx(*$0))'], enter='proof { l_gw_ascii(gidx(*$0)); }')
O(GT + '::language', ens=['ob_language($r) == glang(gidx(*$0))'], enter='proof { l_lits(); l_glang(gidx(*$0)); }', attr='#[verifier::spinoff_prover] ')
O(GT + '::new', ens=['exists|b: &[u8]| #[trigger] $0.as_ref_rel(b) && ($r is Ok <==> gf(b@)) && ($r matches Ok(g) ==> is_gf(b@, gidx(g)))', '$r matches Err(e) ==> e == $0'])
O(G + "<TryFrom<&'a [u8]> for GrandfatheredLangTag>::try_from", ens=['$r is Ok <==> gf($0@)', '$r matches Ok(g) ==> is_gf($0@, gidx(g))', '$r matches Err(e) ==> e.0 == $0'], r='res',
  loops=[dict(kw='for', iter='it', alt={'while': dict(iter=None, inv=['$v <= 26', 'forall|k: int| 0 <= k < $v ==> !#[trigger] is_gf($0@, k)'], enter='proof { assert(is_gf($0@, $v as int) <==> lowers(gw($v as int)) == lowers($0@)); }', dec='26 - $v'), 'range': dict(iter=None, inv=['forall|k: int| 0 <= k < $v ==> !#[trigger] is_gf($0@, k)'], enter='proof { assert(is_gf($0@, $v as int) <==> lowers(gw($v as int)) == lowers($0@)); }')}, inv=['forall|k: int| 0 <= k < it.index@ ==> !#[trigger] is_gf($0@, k)', 'it.seq().len() == 26', 'forall|k: int| 0 <= k < 26 ==> gidx(*#[trigger] it.seq()[k]) == k'], enter='proof { assert(is_gf($0@, gidx(*$v)) <==> lowers(gw(gidx(*$v))) == lowers($0@)); assert(lowers(gw(gidx(*$v))).len() == gw(gidx(*$v)).len() && lowers($0@).len() == $0@.len()); }')])
O(G + '<Display for GrandfatheredLangTag>::fmt', ens=['$r is Ok && plain(*old($1)) ==> fmt_out(*final($1)) == fmt_out(*old($1)) + gw(gidx(*$0))'])

# ------------------------------------------------------------ the general tag
L = 'LangTag::'
LT = 'proof { use_type_invariant(&*$0); l_kinds($0.b()); l_kinds_apart($0.b()); l_gf_uniq($0.b()); }'
O(L + 'as_normal', ens=['ob_normal_lang_tag($r) == whole(v_langtag($0.b()), $0.b())'])
O(L + 'as_private_use', ens=['ob_private_use($r) == whole(v_privateuse($0.b()), $0.b())'])
O(L + 'as_grandfathered', ens=['$r is Some <==> gf($0.b())', '$r matches Some(g) ==> is_gf($0.b(), gidx(g))'])
O(L + 'is_normal', ens=['$r == v_langtag($0.b())'])
O(L + 'is_private_use', ens=['$r == v_privateuse($0.b())'])
O(L + 'is_grandfathered', ens=['$r == gf($0.b())'])
O(L + 'kind', enter=LT, ens=['$r == kind_of($0.b())'])
O(L + 'as_typed', enter=LT, ens=['typed_ok(&$r, $0.b())'])
O(L + 'language', enter=LT, ens=['v_langtag($0.b()) ==> ob_language($r) == Some(%s.l)' % D, 'forall|k: int| !v_langtag($0.b()) && #[trigger] is_gf($0.b(), k) ==> ob_language($r) == glang(k)', '!v_langtag($0.b()) && !gf($0.b()) ==> $r is None'],
  )
for f, sn, c in (('script', 'script', 'sc'), ('region', 'region', 'rg'), ('private_use', 'private_use', 'pu')):
    O(L + f, ens=['ob_%s($r) == (if v_langtag($0.b()) { ne(%s.%s) } else { None })' % (sn, D, c)])
O(L + 'variants', ens=['$r.b() == (if v_langtag($0.b()) { %s.va } else { Seq::empty() })' % D])
O(L + 'extensions', ens=['$r.b() == (if v_langtag($0.b()) { %s.ex } else { Seq::empty() })' % D])
O(L + 'private_use_subtags', ens=['$r.rem() == (if v_langtag($0.b()) { pusubs(%s.pu) } else { Seq::empty() })' % D])

EXTRA['LangTag'] = '''pub open spec fn kind_of(s: Seq<u8>) -> Kind { if v_langtag(s) { Kind::Normal } else if v_privateuse(s) { Kind::PrivateUse } else { Kind::Grandfathered } }
pub open spec fn typed_ok(t: &TypedLangTag<'_>, s: Seq<u8>) -> bool { match t {
    TypedLangTag::Normal(n) => v_langtag(s) && n.b() == s,
    TypedLangTag::PrivateUse(p) => !v_langtag(s) && v_privateuse(s) && p.b() == s,
    TypedLangTag::Grandfathered(g) => !v_langtag(s) && !v_privateuse(s) && is_gf(s, gidx(*g)) } }
'''
TT = "TypedLangTag<'a>::"
O(TT + 'kind', ens=['$r == (match *$0 { TypedLangTag::Normal(_) => Kind::Normal, TypedLangTag::PrivateUse(_) => Kind::PrivateUse, TypedLangTag::Grandfathered(_) => Kind::Grandfathered })'])
O(TT + 'language', ens=['ob_language($r) == (match *$0 { TypedLangTag::Normal(n) => Some(dec(n.b()).l), TypedLangTag::PrivateUse(_) => None, TypedLangTag::Grandfathered(g) => glang(gidx(g)) })'])
for f, V in (('normal', 'Normal'), ('private_use', 'PrivateUse'), ('grandfathered', 'Grandfathered')):
    O(TT + 'is_' + f, ens=['$r == ($0 is %s)' % V])
    O(TT + 'as_' + f, ens=['$r == (match *$0 { TypedLangTag::%s(x) => Some(x), _ => None })' % V])
    O('Kind::is_' + f, ens=['$r == ($0 is %s)' % V])
COPY.add('<Copy for Kind>')
O('<Clone for Kind>::clone', ens=['$r == *$0'])

# option views: Option<&X> as bytes
for m, X, B, sn, p in TYPES:
    EXTRA.setdefault(path(m, X), '')
    EXTRA[path(m, X)] += 'pub open spec fn ob_%s(r: Option<&%s>) -> Option<Seq<u8>> { match r { Some(t) => Some(t.b()), None => None } }\n' % (sn, X)

# ------------------------------------------------------------ comparisons of the types without text, error messages
def discr(m, X):
    k = path(m, X)
    EXTRA[k] = EXTRA.get(k, '') + ('impl crate::x_std::HasDiscr for %s { open spec fn discr(&self) -> isize { *self as isize } }\n' % X
        + eq_impl(X, X, '*self == *other') + ord_impl(X, X, 'Some(crate::x_std::icmp(self.discr() as int, other.discr() as int))')
        + 'impl OrdSpecImpl for %s { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, other: &%s) -> core::cmp::Ordering { crate::x_std::icmp(self.discr() as int, other.discr() as int) } }\n' % (X, X))
    O(path(m, '<PartialEq for %s>::eq' % X))
    O(path(m, '<PartialOrd for %s>::partial_cmp' % X))
    O(path(m, '<Ord for %s>::cmp' % X))
    O(path(m, '<Hash for %s>::hash' % X), ens=['*final($1) == crate::x_std::hash_isize(*old($1), crate::x_std::HasDiscr::discr($0))'])
discr('', 'Kind')
discr('grandfathered', 'GrandfatheredLangTag')
O('<Debug for Kind>::fmt')
EXTRA['Kind'] += "impl DebugSpecImpl for Kind { open spec fn fmt_req(&self, f: &core::fmt::Formatter<'_>) -> bool { true } }\n"
EXTRA[S] += (ord_impl('Singleton', 'Singleton', 'Some(crate::x_std::icmp(self.c() as int, other.c() as int))')
    + 'impl OrdSpecImpl for Singleton { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, other: &Singleton) -> core::cmp::Ordering { crate::x_std::icmp(self.c() as int, other.c() as int) } }\n'
    + "impl DebugSpecImpl for Singleton { open spec fn fmt_req(&self, f: &core::fmt::Formatter<'_>) -> bool { true } }\n")
O(EXT + '::<PartialOrd for Singleton>::partial_cmp')
O(EXT + '::<Ord for Singleton>::cmp')
O(EXT + '::<Hash for Singleton>::hash', ens=['*final($1) == hash_u8(*old($1), $0.c())'])
O(EXT + '::<Debug for Singleton>::fmt')
for m, X in [(t[0], t[1]) for t in TYPES]:
    for tr in ('Debug', 'Display'):
        EXTRA[path(m, 'Invalid' + X)] = EXTRA.get(path(m, 'Invalid' + X), '') + "impl<T: core::fmt::%s> %sSpecImpl for Invalid%s<T> { open spec fn fmt_req(&self, f: &core::fmt::Formatter<'_>) -> bool { forall|g: &core::fmt::Formatter<'_>| #[trigger] self.0.fmt_req(g) } }\n" % (tr, tr, X)
        O(path(m, '<%s for Invalid%s<T>>' % (tr, X), 'fmt'))
for m, X in (('grandfathered', 'InvalidGrandfatheredTag'), (EXT, 'InvalidSingleton')):
    EXTRA[path(m, X)] = EXTRA.get(path(m, X), '') + "impl<T> DisplaySpecImpl for %s<T> { open spec fn fmt_req(&self, f: &core::fmt::Formatter<'_>) -> bool { true } }\n" % X
    O(path(m, '<Display for %s<T>>' % X, 'fmt'))

# ------------------------------------------------------------ representations the annotations refer to
# iterator -> fields; when they are named otherwise the annotations are renamed, when they are of another
# kind the functions that touch them are left to the bounded check
_DO = [('data', 'str'), ('offset', 'usize')]
FIELDS = {path(EXT, 'ExtensionIter'): _DO, path(EXT, 'ExtensionsIter'): _DO, path(PU, 'PrivateUseIter'): _DO,
          path(XL, 'LanguageExtensionIter'): _DO, path(VAR, 'VariantsIter'): _DO + [('end', 'usize')], S: [('0', 'u8')]}
def fields_of(text):
    """[(name, type)] of a struct item"""
    m = re.search(r'\bstruct\s+\w+\s*(?:<[^>]*>)?\s*([{(])(.*)[})]', text, re.S)
    if not m: return []
    out = []
    for i, p in enumerate(x.strip() for x in re.sub(r'//[^\n]*|#\[[^\]]*\]', '', m.group(2)).split(',') if x.strip()):
        p = re.sub(r'^pub(\([^)]*\))?\s+', '', p)
        n, t = p.split(':', 1) if m.group(1) == '{' else (str(i), p)
        out.append((n.strip(), re.sub(r"&\s*('\w+)?\s*", '', t.strip())))
    return out
def renaming(key, text):
    """{annotated field: present field}, or None when the representation is another one"""
    want, have = FIELDS[key], fields_of(text)
    if set(want) <= set(have): return {n: n for n, t in want}
    if [t for n, t in want] == [t for n, t in have]: return {a: b for (a, t), (b, u) in zip(want, have)}
    return None
def rename(x, m):
    if isinstance(x, str): return re.sub(r'(\bself|\$0)\.(%s)\b' % '|'.join(map(re.escape, m)), lambda g: g.group(1) + '.' + m[g.group(2)], x)
    if isinstance(x, list): return [rename(y, m) for y in x]
    if isinstance(x, dict): return {k: rename(y, m) for k, y in x.items()}
    return x
