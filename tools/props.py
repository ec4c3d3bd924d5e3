"""Which functions of /repo (and which lemmas) decide which property."""
import re
import overlay
BASE = ['re', 'abnf', 'tables', 'dfa', 'sp']
CTOR = r'::(validate_str|validate_bytes|from_bytes|from_str|from_string|new|new_unchecked|new_unchecked_from_bytes|try_from)$'
NEWT = [(overlay.path(m, X), overlay.path(m, B), X, B, p) for m, X, B, sn, p in overlay.TYPES]
AUTO = {p: X for X, p in overlay.AUTOMATA}
def types(pred=lambda X: True): return [t for t in NEWT if pred(t[2])]
def inh(t, names): return [r'%s::(%s)$' % (re.escape(x), names) for x in t[:2]]
def ctors(ts):
    """constructors of the types, and the automata they rest on"""
    r = [r'x_static_automata::', r'x_str_newtype::']
    for t in ts:
        r += inh(t, 'validate_str|validate_bytes|from_bytes|from_str|from_string|new|new_unchecked|as_str|as_bytes')
        r += [r"<TryFrom<.*> for (&'a )?(%s|%s)>::" % (t[2], t[3]), r'<FromStr for %s>::' % t[3], r'grammar::%s::' % AUTO[t[4]]]
    return r
def plain_ctors(ts):
    r = []
    for t in ts: r += inh(t, 'validate_str|validate_bytes|from_bytes|from_str|new|new_unchecked|as_str|as_bytes') + [r'grammar::%s::' % AUTO[t[4]], r'x_static_automata::']
    return r
def of(ts, *traits):
    r = []
    for t in ts:
        for tr in traits: r += [r'<%s(<.*>)? for (&\'a )?(%s|%s)>::' % (tr, t[2], t[3]), r"<%s<(&'a |&)?(%s|%s)> for .*>::" % (tr, t[2], t[3])]
    return r
ALL = types()
OWNEQ = [r'<PartialEq(<&?(%s|%s)>)? for &?(%s|%s)>::' % (t[2], t[3], t[2], t[3]) for t in ALL]
VIEWS = r'as_str|as_bytes|into_string|into_bytes|as_[a-z_]+'
FULL = {'base', 'buf', 'raw', 'serde', 'grammar'}
PROPS = {
    'P01': dict(groups={'base', 'buf', 'grammar'}, specs=BASE, select=ctors(types(lambda X: X == 'LangTag'))),
    'P02': dict(groups={'base', 'buf', 'grammar'}, specs=BASE, select=ctors(types(lambda X: X != 'LangTag'))),
    'P03': dict(groups={'base', 'buf', 'grammar'}, specs=BASE, select=[r'x_str_newtype::'] + [x for t in ALL for x in inh(t, VIEWS + '|from_bytes|from_str|from_string|new|new_unchecked')] + of(ALL, 'AsRef', 'Display', 'Debug', 'From', 'TryFrom', 'FromStr', 'ToOwned', 'Clone', 'Borrow', 'Deref') + ctors(ALL)),
    'P12': dict(groups={'base', 'buf', 'raw', 'grammar'}, specs=BASE, select=[r'utils::(into_smallcase|case_insensitive_eq)$'] + of(ALL, 'PartialEq') + plain_ctors(ALL)),
    'P13': dict(groups={'base', 'buf', 'raw', 'grammar'}, specs=BASE + ['laws'], select=[r'utils::'] + OWNEQ + of(ALL, 'PartialOrd', 'Ord') + plain_ctors(ALL)),
    'P14': dict(groups={'base', 'buf'}, specs=['sp', 'laws'], select=[r'utils::'] + OWNEQ + of(ALL, 'Hash', 'Borrow') + [x for t in ALL for x in inh(t, VIEWS + '|new_unchecked')]),
    'P15': dict(groups={'base', 'buf'}, specs=['re', 'abnf', 'sp'], select=[r'x_str_newtype::'] + [x for t in ALL for x in inh(t, VIEWS + '|new_unchecked')] + of(ALL, 'AsRef', 'Display', 'Debug', 'From', 'ToOwned', 'Clone', 'Borrow', 'Deref', 'Hash') + [r'<(PartialEq|PartialOrd|Ord)(<&?(%s|%s)>)? for &?(%s|%s)>::' % (t[2], t[3], t[2], t[3]) for t in ALL] + [r'utils::']),
    'P16': dict(groups={'base', 'buf', 'serde', 'grammar'}, specs=BASE, select=of(ALL, 'Serialize', 'Deserialize') + ctors(ALL) + [x for t in ALL for x in inh(t, 'as_str')]),
}

def X(*names): return types(lambda x: x in names)
N = r'normal::NormalLangTag::'
def it(I): return [r"(<(Iterator|DoubleEndedIterator|Default) for )?%s(<'a>)?>?::" % I]
VSPECS = BASE + ['seg', 'views']
PROPS.update({
    'P04': dict(groups={'base', 'buf', 'grammar'}, specs=VSPECS, select=[r'normal::find_(list_end|segment_end|segment_start)$',
        N + r'(language|script|region|variants|extensions|private_use)(_end|_range|_offset|_subtags)?$', r'normal::extension::Singleton::(new|from_string)$', r'normal::extension::<TryFrom<(u8|char)> for Singleton>::', r'::EMPTY$', r'::PrivateUse::iter$'] + it('PrivateUseIter')
        + ctors(X('NormalLangTag', 'ExtendedLangTag', 'Script', 'Region', 'Variant', 'ExtensionSubtag'))),
    'P05': dict(groups={'base', 'buf'}, specs=['re', 'abnf', 'sp', 'seg', 'gf', 'views'], select=[r'^LangTag::(language|script|region|variants|extensions|private_use|private_use_subtags|as_[a-z_]+)$', r"^TypedLangTag(<'a>)?::language$", r'::EMPTY$', r'grandfathered::', r'utils::', r'::empty$', r'::default$',
        N + r'(language|script|region|variants|extensions|private_use|private_use_subtags|new|validate_str|from_str)$', r'::PrivateUse::(iter|new|validate_str|from_str)$'] + it('PrivateUseIter')),
    'P06': dict(groups={'base', 'buf', 'grammar'}, specs=BASE + ['seg', 'gf', 'views'], select=[r'^LangTag::(kind|is_[a-z_]+|as_[a-z_]+)$', r"^TypedLangTag(<'a>)?::", r'^Kind::', r'^<(Clone|Copy|PartialEq|PartialOrd|Ord|Hash|Debug) for Kind>::', r'grandfathered::GrandfatheredLangTag::new$', r'grandfathered::<TryFrom.*', r'grandfathered::GRANDFATHERED$', r'utils::(into_smallcase|case_insensitive_eq)$', r'grandfathered::GrandfatheredLangTag::as_bytes$']
        + ctors(X('LangTag', 'NormalLangTag', 'PrivateUse'))),
    'P07': dict(groups={'base', 'buf'}, specs=['re', 'abnf', 'sp', 'gf', 'views'], select=[r'grandfathered::', r'utils::(into_smallcase|case_insensitive_eq)$', r'^LangTag::(as|is)_grandfathered$']),
    'P08': dict(groups={'base', 'buf', 'grammar'}, specs=VSPECS, select=[r'normal::find_segment_end$', r'normal::language::Language::(primary|extension|extension_subtags)$', r'::LanguageExtension::iter$'] + it('LanguageExtensionIter')
        + ctors(X('Language', 'PrimaryLanguage', 'LanguageExtension', 'ExtendedLangTag'))),
    'P09': dict(groups={'base', 'buf', 'grammar'}, specs=VSPECS, select=[r'utils::into_smallcase$', r'normal::find_(list_end|segment_end)$', r'::Extensions::(iter|get|iter_extension|EMPTY)$', r'::Extension::(iter|singleton)$', r'normal::extension::Singleton::', r'normal::extension::<.* for Singleton>::'] + it('ExtensionsIter') + it('ExtensionIter')
        + ctors(X('Extensions', 'Extension', 'ExtensionSubtag'))),
    'P10': dict(groups={'base', 'buf', 'grammar'}, specs=VSPECS, select=[r'normal::find_segment_(end|start)$', r'::Variants::(iter|first|last|EMPTY)$'] + it('VariantsIter') + ctors(X('Variants', 'Variant'))),
    'P11': dict(groups={'base', 'buf', 'grammar'}, specs=VSPECS, select=[r'normal::find_segment_end$', r'::PrivateUse::iter$', r'normal::find_list_end$', N + '(private_use(_subtags|_offset)?|[a-z]+_(end|range))$', '^LangTag::private_use(_subtags)?$'] + it('PrivateUseIter') + ctors(X('PrivateUse', 'PrivateUseSubtag'))),
    'P17': dict(groups={'base', 'buf'}, specs=['sp', 'views'], select=[r'normal::extension::Singleton::', r'normal::extension::<.* for Singleton>::']),
    'P18': dict(groups=FULL, specs=BASE + ['seg', 'gf', 'laws', 'views'], select=[r'.*'], panics=True),
})
def selector(p):
    rx = re.compile('|'.join(x if x[0] in '^<:' else '(?:^|::)(?:%s)' % x for x in p['select']))
    def sel(k):
        if rx.search(k): return True
        if 'grammar' in overlay.group(k) and not re.search(r'validate_', k): return None
        return False
    return sel

STD = ['contracts of std functions in spec/x_std.rs (AsRef, Hasher and u8 hashing, Formatter::write_str, String/Vec/str conversions, slicing) and in vstd',
    'no Rust object is larger than isize::MAX bytes (ax_slice_len, ax_str_len)', 'the extraction: rustc macro expansion of /repo and tools/extract.py, which only inserts specification text',
    'Verus, its rustc and z3']
def trusted_base(P, trusted):
    b = list(STD)
    if trusted: b.append('trusted functions (transmutes between byte slices and the newtypes over str): ' + ', '.join(trusted))
    if 'serde' in P['groups']: b.append('interface of serde as declared in spec/x_dep.rs: what a format does with a string is an uninterpreted relation')
    return b
def assumptions(P):
    a = ['usize is 64 bits wide or narrower; machine arithmetic is checked for overflow, not idealised', 'unsafe constructors (new_unchecked*) are called by users only with well-formed text']
    if 'grammar' not in P['groups']: a.append('values of a type are well-formed (its type invariant): the validators that establish it are decided by P01 and P02')
    return a

NOT_APPLICABLE = {}
