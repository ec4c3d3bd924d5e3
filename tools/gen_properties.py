"""Writes /verif/properties.jsonl (kept as a script only so that the text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None, **({'state': [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}))))
NORMAL = ['src/normal/mod.rs', 'src/normal/extension.rs', 'src/normal/private_use.rs', 'src/normal/region.rs', 'src/normal/script.rs', 'src/normal/variant.rs', 'src/normal/language/mod.rs', 'src/normal/language/extlang.rs', 'src/normal/language/primary.rs']
ALL = ['src/lib.rs'] + NORMAL
prop('P01', 'A language tag is accepted exactly when it is well-formed RFC 5646',
     'A language tag can be constructed (from text or bytes, borrowed or owned, by every constructor, conversion and parser, and by plain validation) exactly when the input matches the Language-Tag production of RFC 5646: a normal tag, a private use tag or one of the 26 grandfathered tags, in any letter case. Every other input, including empty, non-ASCII and malformed UTF-8 input, is rejected by all of them.',
     ['inputs'], 'every byte sequence and every string, of any length', 'The tests parse a few dozen tags; acceptance is an infinite language decided by a generated automaton with hundreds of states and a few thousand transitions, and byte input reaches a UTF-8 decoder that no test covers.',
     ['src/lib.rs', 'src/grammar.abnf'], [('Language-Tag automaton generated from the ABNF', 'src/lib.rs grammar module, src/grammar.abnf'), ('UTF-8 decoding loop in front of it', 'static-automata decode_utf8_char'), ('constructors generated on the newtype', 'src/lib.rs LangTag')],
     ['LangTag::new', 'LangTag::from_bytes', 'LangTag::from_str', 'LangTagBuf::new', 'TryFrom', 'FromStr', 'validate_str', 'validate_bytes'])
prop('P02', 'Every component type accepts exactly its own grammar production',
     'For each of the fourteen component types (normal tag, language, primary language, extended language list and subtag, script, region, variant and variant list, extension, extension list and subtag, private use and private use subtag), every constructor and conversion, borrowed or owned, from text or bytes, accepts exactly the inputs matching that component\'s RFC 5646 production (lists of variants and of extensions may be empty; a primary language is 2 to 8 letters). Letter case never matters.',
     ['inputs'], 'every byte sequence and string, for each of the fourteen types', 'The tests try a handful of strings on a handful of the types; each type has its own generated automaton and its own generated constructors.',
     NORMAL + ['src/grammar.abnf', 'src/lib.rs'], [('one automaton per production', 'src/grammar.abnf, grammar module of src/lib.rs'), ('binding of each type to its automaton', '#[automaton(..)] on each type')],
     ['X::new', 'X::from_bytes', 'X::from_str', 'XBuf::new', 'XBuf::from_bytes', 'XBuf::from_string', 'TryFrom', 'FromStr', 'validate_str', 'validate_bytes'])
prop('P03', 'Accepted values keep their text exactly; rejected inputs are handed back',
     'A value of any tag or component type, borrowed or owned, exposes through every accessor, conversion and formatter exactly the text it was built from, byte for byte and with its letter case unchanged, and that text is ASCII. A failed construction returns the original input, unchanged, in the error.',
     ['inputs'], 'every input, for all fifteen types and their owned forms, and every route in and out', 'The tests compare a few values with literals case-insensitively, which cannot see a changed letter case, and never look at the error payload; views are produced by unsafe casts.',
     ALL, [('text-transparent newtypes and their owned forms', 'str_newtype derive on each type'), ('unchecked conversions between bytes and text', 'new_unchecked / as_str / into_string')],
     ['as_str', 'as_bytes', 'AsRef', 'Display', 'Debug', 'into_string', 'into_bytes', 'From', 'ToOwned', 'Clone', 'error payload'])
prop('P04', 'A normal tag decomposes into exactly its RFC 5646 components',
     'For every normal tag the language, script, region, variants, extensions and private use accessors return exactly the pieces the RFC 5646 grammar assigns to them (absent or empty when the tag has none), each being a well-formed value of its own type. Joined in order with hyphens the non-empty pieces give back the whole tag.',
     ['inputs'], 'every well-formed normal tag, with every combination of components, lengths and letter cases', 'The tests examine a few tags; the pieces are found by heuristics on single subtags whose mistakes show only for particular combinations of present and absent neighbours, and are then cast without validation.',
     ['src/normal/mod.rs'], [('successive list-end searches', 'src/normal/mod.rs find_list_end and the *_range helpers'), ('unchecked slices', 'src/normal/mod.rs accessors')],
     ['NormalLangTag::language', 'script', 'region', 'variants', 'extensions', 'private_use', 'private_use_subtags'])
prop('P05', 'The general tag type agrees with the specific view of the same text',
     'On a general language tag, the language, script, region, variants, extensions and private use accessors return what the normal-tag view of the same text returns when the tag is normal. When it is not normal, script, region and private use are absent and variants and extensions are empty, and the language is absent, except that a grandfathered tag reports the language of that grandfathered tag.',
     ['inputs'], 'every well-formed language tag of each of the three kinds', 'The tests call only one or two of these accessors and on normal tags only.',
     ['src/lib.rs', 'src/normal/mod.rs', 'src/grandfathered.rs'], [('delegation through the typed views', 'src/lib.rs LangTag accessors and TypedLangTag')],
     ['LangTag::language', 'LangTag::script', 'LangTag::region', 'LangTag::variants', 'LangTag::extensions', 'LangTag::private_use', 'LangTag::private_use_subtags', 'TypedLangTag::language'])
prop('P06', 'Every language tag has exactly one kind, reported consistently',
     'Every language tag is classified as normal when its text is a normal tag, as private use when its text is a private use tag, and as grandfathered otherwise, in which case it is one of the 26 grandfathered tags. The kind, the is-a tests, the conversions to specific views and the typed view agree with each other, and each view carries the same text. Kinds are equal only to themselves, and their ordering and hashing agree with that.',
     ['inputs'], 'every well-formed language tag', 'The tests classify two or three tags; agreement of a dozen entry points must hold on all of them, and one of them unwraps a result that only the grammar makes present.',
     ['src/lib.rs', 'src/grandfathered.rs', 'src/private_use.rs'], [('classification by successive validation', 'src/lib.rs as_typed, kind, as_*')],
     ['LangTag::kind', 'LangTag::is_*', 'LangTag::as_*', 'LangTag::as_typed', 'TypedLangTag::*', 'Kind::is_*'])
prop('P07', 'Grandfathered tags: exactly 26, recognised in any case, with fixed text',
     'A text is recognised as a grandfathered tag exactly when it equals, ignoring letter case, one of the 26 tags listed in RFC 5646, and it is recognised as that tag; every other text is rejected and handed back. Each grandfathered tag yields its registered text, that text parses back to the same tag, and its language is the primary language subtag of a regular tag and absent for an irregular one. Two values are equal exactly when they are the same tag; their ordering is total and, like their hashing, agrees with equality.',
     ['inputs'], 'every byte sequence offered and each of the 26 tags', 'No test enumerates the table or its letter-case variants; recognition scans a hand-written table, and text and language come from two further hand-written tables.',
     ['src/grandfathered.rs', 'src/utils.rs'], [('table scan', 'src/grandfathered.rs TryFrom<&[u8]>'), ('text and language tables', 'src/grandfathered.rs as_bytes, language')],
     ['GrandfatheredLangTag::new', 'TryFrom', 'as_bytes', 'as_str', 'Display', 'language', 'GRANDFATHERED'])
prop('P08', 'A language splits into its primary subtag and extended subtags in order',
     'For every language value the primary subtag is the text before the first hyphen and the extension is everything after it, absent when there is no hyphen; both are well-formed values of their types. Iterating the extended subtags yields exactly the hyphen-separated extended subtags, each once, in order, and then nothing more.',
     ['inputs'], 'every well-formed language and extended language list, and every step of an iteration over it', 'The tests look at one language with one extension; positions come from unchecked slicing.',
     ['src/normal/language/mod.rs', 'src/normal/language/extlang.rs', 'src/normal/language/primary.rs', 'src/normal/mod.rs'], [('split at the first hyphen', 'src/normal/language/mod.rs'), ('segment iterator', 'src/normal/language/extlang.rs LanguageExtensionIter')],
     ['Language::primary', 'Language::extension', 'Language::extension_subtags', 'LanguageExtension::iter'])
prop('P09', 'Extension lists iterate and look up exactly their extensions',
     'Iterating an extension list yields exactly its extensions, in order, each being a singleton with all of its subtags and nothing else; iterating one extension yields its singleton\'s subtags in order. Looking an extension up by singleton returns the first extension of the list whose singleton is equal ignoring letter case, and nothing when there is none; iterating the subtags by singleton agrees with that lookup.',
     ['inputs'], 'every well-formed extension list, including the empty one and ones that repeat a singleton, and every singleton', 'The tests use two or three short lists; the scanners must tell a singleton from a subtag at every position of lists of any length.',
     ['src/normal/extension.rs', 'src/normal/mod.rs'], [('list scanner', 'src/normal/extension.rs Extensions::get'), ('iterators', 'src/normal/extension.rs ExtensionsIter, ExtensionIter')],
     ['Extensions::iter', 'Extensions::get', 'Extensions::iter_extension', 'Extension::singleton', 'Extension::iter'])
prop('P10', 'The variants iterator yields the variants from both ends, each once',
     'Iterating the variants of a list yields exactly its hyphen-separated variants, each a well-formed variant, in order from the front and in reverse order from the back. However front and back steps are interleaved, every variant is yielded exactly once and then both ends yield nothing; first and last are the two ends.',
     ['inputs', 'histories'], 'every variant list and every sequence of front and back steps on its iterator', 'The tests step one list forwards; correctness concerns every interleaving of next and next_back on lists of any length.',
     ['src/normal/variant.rs', 'src/normal/mod.rs'], [('two-ended cursor', 'src/normal/variant.rs VariantsIter'), ('segment search in both directions', 'src/normal/mod.rs find_segment_end, find_segment_start')],
     ['Variants::iter', 'Variants::first', 'Variants::last', 'VariantsIter::next', 'VariantsIter::next_back'],
     [('VariantsIter.offset/end', 'the part of the list not yet yielded', 'src/normal/variant.rs')])
prop('P11', 'Private use subtags iterate exactly, in order',
     'Iterating a private use value yields exactly the hyphen-separated subtags that follow the leading x, each a well-formed private use subtag, in order, each once, and then nothing. The same subtags are reported through a normal or general tag carrying that private use part, and none when it has no such part.',
     ['inputs'], 'every private use value and every tag carrying one', 'The tests iterate one or two values; the cursor arithmetic must hold for every number and length of subtags.',
     ['src/normal/private_use.rs', 'src/private_use.rs', 'src/normal/mod.rs', 'src/lib.rs'], [('segment iterator', 'src/normal/private_use.rs PrivateUseIter')],
     ['PrivateUse::iter', 'PrivateUseIter::next', 'NormalLangTag::private_use_subtags', 'LangTag::private_use_subtags'])
prop('P12', 'Equality ignores ASCII letter case and nothing else',
     'Two values of the same text type (the general tag and the fourteen component types), borrowed or owned in any combination, are equal exactly when their texts are equal after ASCII lower-casing. Comparing a value with a raw string or byte sequence, on either side, gives the same answer.',
     ['inputs'], 'every pair of values of each of the fifteen types and every raw text', 'The tests compare a few pairs; the relation has some twenty generated implementations per type.',
     ['src/utils.rs'] + ALL, [('case-insensitive comparison', 'src/utils.rs case_insensitive_eq'), ('PartialEq implementations', 'each type')],
     ['PartialEq on every type, its owned form, str, String, [u8], Vec<u8>'])
prop('P13', 'Ordering is a total order on case-folded text, consistent with equality',
     'For each text type (the general tag and the fourteen component types), borrowed or owned, comparison is a total order consistent with equality: the lower-cased texts are compared byte by byte, and a text that is a proper prefix of another sorts after it. Partial comparison always agrees with it; comparing with raw text or bytes gives the same answer when the raw input is well-formed for the type, and no answer otherwise.',
     ['inputs'], 'every pair and triple of values of each type, and every raw text', 'Transitivity, antisymmetry and agreement of more than twenty implementations per type cannot be established by sampling.',
     ['src/utils.rs'] + ALL, [('case-insensitive ordering', 'src/utils.rs case_insensitive_cmp'), ('Ord and PartialOrd implementations', 'each type')],
     ['Ord::cmp', 'PartialOrd::partial_cmp on every type, its owned form and raw texts'])
prop('P14', 'Equal values hash equally',
     'Two values of the same text type (the general tag and the fourteen component types) that are equal feed exactly the same data to any hasher, whatever their letter case and whether borrowed or owned. Hence a hash map keyed by the owned form can be searched with the borrowed form in any letter case.',
     ['inputs'], 'every pair of equal values of each type, and every hasher', 'A hash agreement bug shows only for particular pairs and hashers; the tests hash nothing.',
     ['src/utils.rs'] + ALL, [('case-insensitive hashing', 'src/utils.rs case_insensitive_hash'), ('Hash implementations', 'each type')],
     ['Hash::hash on every type and its owned form'])
prop('P15', 'Owned and borrowed forms are interchangeable',
     'For each text type (the general tag and the fourteen component types), borrowing an owned value, taking ownership of a borrowed one, cloning, dereferencing and converting between the two never changes the text or its validity. Equality, ordering, hashing and all accessors give the same answer through either form.',
     ['inputs'], 'every value of each of the fifteen types', 'The tests never use most owned types; each is generated and rests on unchecked conversions.',
     ALL, [('owned forms generated by the newtype derive', 'owned(..) on each type')],
     ['ToOwned', 'Borrow', 'Deref', 'AsRef', 'Clone', 'as_<type>', 'Into<String>', 'Into<Vec<u8>>'])
prop('P16', 'Serialization keeps the text and deserialization validates',
     'With serialization enabled, every value of a text type (the general tag and the fourteen component types) serializes as the plain string of its text. Deserialization, borrowed or owned, of a string succeeds exactly when that string is well-formed for the type, yielding a value with exactly that text, and otherwise fails.',
     ['inputs'], 'every value of each type, every string, and every data format', 'No test enables or uses serialization.',
     ALL, [('serde implementations generated by the newtype derive', 'newtype(serde) on each type')],
     ['Serialize', 'Deserialize'])
prop('P17', 'Singletons are exactly the ASCII letters and digits other than x',
     'An extension singleton can be made from a byte, a character or a string exactly when it is a single ASCII letter or digit other than x and X; anything else is rejected and handed back in the error. The singleton keeps that character as it was given and reports, displays and compares with bytes and characters as exactly that character; singletons are equal, ordered and hashed as their characters, letter case included.',
     ['inputs'], 'every byte, every char and every string', 'The tests build one or two singletons; the conversions truncate code points, which is wrong for some inputs unless guarded.',
     ['src/normal/extension.rs'], [('singleton validation and conversions', 'src/normal/extension.rs Singleton')],
     ['Singleton::new', 'Singleton::from_string', 'FromStr', 'TryFrom<u8>', 'TryFrom<char>', 'unwrap', 'PartialEq<u8>', 'PartialEq<char>', 'Display', 'Debug'])
prop('P18', 'No safe operation panics, overflows or fails to terminate',
     'On every input and every value, all safe operations of the crate (parsing, validation, accessors, iteration, lookup, comparison, hashing, formatting, conversion) terminate without panicking, without arithmetic overflow and without slicing out of bounds or off a character boundary. Every iteration ends.',
     ['inputs', 'histories'], 'every input of every public safe function, and every sequence of iterator steps', 'Absence of panics over all inputs is universal; the tests execute a few dozen inputs.',
     ['src/lib.rs', 'src/grandfathered.rs', 'src/utils.rs'] + NORMAL, [('index arithmetic and slicing', 'src/normal/mod.rs, src/normal/*.rs iterators'), ('unwrap in classification', 'src/lib.rs as_typed')],
     ['every public safe function'])
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w').write(''.join(json.dumps(p) + '\n' for p in P))
