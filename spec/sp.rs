// Vocabulary of the contracts.
pub mod sp {
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use crate::re::*;
use crate::abnf::*;
use crate::tables::*;
use crate::dfa::*;
pub use crate::re::{lower, is_alpha, is_digit, is_alnum, is_sing};
verus! {
#[verifier::opaque] pub open spec fn v_language_tag(s: Seq<u8>) -> bool { matches(language_tag(), s) }
#[verifier::opaque] pub open spec fn v_privateuse(s: Seq<u8>) -> bool { matches(privateuse(), s) }
#[verifier::opaque] pub open spec fn v_privateuse_subtag(s: Seq<u8>) -> bool { matches(privateuse_subtag(), s) }
#[verifier::opaque] pub open spec fn v_langtag(s: Seq<u8>) -> bool { matches(langtag(), s) }
#[verifier::opaque] pub open spec fn v_language(s: Seq<u8>) -> bool { matches(language(), s) }
#[verifier::opaque] pub open spec fn v_primary(s: Seq<u8>) -> bool { matches(primary(), s) }
#[verifier::opaque] pub open spec fn v_extlang(s: Seq<u8>) -> bool { matches(extlang(), s) }
#[verifier::opaque] pub open spec fn v_extlang_tag(s: Seq<u8>) -> bool { matches(extlang_tag(), s) }
#[verifier::opaque] pub open spec fn v_script(s: Seq<u8>) -> bool { matches(script(), s) }
#[verifier::opaque] pub open spec fn v_region(s: Seq<u8>) -> bool { matches(region(), s) }
#[verifier::opaque] pub open spec fn v_variant(s: Seq<u8>) -> bool { matches(variant(), s) }
#[verifier::opaque] pub open spec fn v_variants(s: Seq<u8>) -> bool { matches(variants(), s) }
#[verifier::opaque] pub open spec fn v_extension(s: Seq<u8>) -> bool { matches(extension(), s) }
#[verifier::opaque] pub open spec fn v_extension_subtag(s: Seq<u8>) -> bool { matches(extension_subtag(), s) }
#[verifier::opaque] pub open spec fn v_extensions(s: Seq<u8>) -> bool { matches(extensions(), s) }

/// bytes of a string slice
pub open spec fn sb(s: &str) -> Seq<u8> { s.spec_bytes() }
/// ASCII lower case of every byte
pub open spec fn lowers(s: Seq<u8>) -> Seq<u8> { Seq::new(s.len(), |i: int| lower(s[i])) }
pub proof fn l_lowers_eq(a: Seq<u8>, b: Seq<u8>)
    ensures
        lowers(a) == lowers(b) ==> a.len() == b.len(),
        a.len() == b.len() ==> ((lowers(a) == lowers(b)) <==> (forall|j: int| 0 <= j < a.len() ==> lower(#[trigger] a[j]) == lower(b[j]))),
{
    if lowers(a) == lowers(b) {
        assert(lowers(a).len() == a.len() && lowers(b).len() == b.len());
        assert forall|j: int| 0 <= j < a.len() implies lower(#[trigger] a[j]) == lower(b[j]) by { assert(lowers(a)[j] == lowers(b)[j]); }
    }
    if a.len() == b.len() && (forall|j: int| 0 <= j < a.len() ==> lower(#[trigger] a[j]) == lower(b[j])) { assert(lowers(a) =~= lowers(b)); }
}
/// the documented order: byte-wise on lower-cased text, a proper prefix sorts after its extensions
pub open spec fn cmp_from(a: Seq<u8>, b: Seq<u8>, i: int) -> core::cmp::Ordering
    decreases a.len() - i
{
    if i >= a.len() { if i >= b.len() { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } }
    else if i >= b.len() { core::cmp::Ordering::Less }
    else if lower(a[i]) < lower(b[i]) { core::cmp::Ordering::Less }
    else if lower(a[i]) > lower(b[i]) { core::cmp::Ordering::Greater }
    else { cmp_from(a, b, i + 1) }
}
#[verifier::opaque] pub open spec fn cmpb(a: Seq<u8>, b: Seq<u8>) -> core::cmp::Ordering { cmp_from(a, b, 0) }

/// state of a hasher after one u8
pub uninterp spec fn hash_u8<H>(h: H, b: u8) -> H;
/// state of a hasher after the bytes of s, one u8 at a time
pub open spec fn feed<H>(h: H, s: Seq<u8>) -> H decreases s.len() {
    if s.len() == 0 { h } else { hash_u8(feed(h, s.drop_last()), s.last()) }
}
pub proof fn l_feed_step<H>(h: H, s: Seq<u8>, i: int)
    requires 0 <= i < s.len(),
    ensures feed(h, lowers(s.take(i + 1))) == hash_u8(feed(h, lowers(s.take(i))), lower(s[i])),
{
    let t = lowers(s.take(i + 1));
    assert(t.drop_last() =~= lowers(s.take(i)));
}
/// text written so far to a formatter
pub uninterp spec fn fmt_out(f: core::fmt::Formatter<'_>) -> Seq<u8>;

/// class of a char in the reference automaton
pub open spec fn cic(c: char) -> int { if c < '\u{80}' { ci(c as u8) } else { 28 } }

/// facts a validation loop needs about its next byte
pub proof fn l_feed(m: int, s: Seq<u8>, i: int)
    requires 0 <= i < s.len(), run(m, s.subrange(0, i)) >= 0,
    ensures
        run(m, s.subrange(0, i + 1)) == step(run(m, s.subrange(0, i)), ci(s[i])),
        step(run(m, s.subrange(0, i)), ci(s[i])) == -1 ==> !accepts(m, s),
        forall|q: int| #[trigger] step(q, 28) == -1,
        s[i] >= 0x80 ==> ci(s[i]) == 28,
{
    l_run_push(m, s, i);
    if step(run(m, s.subrange(0, i)), ci(s[i])) == -1 { l_run_dead(m, s, i + 1); }
    reveal(step);
}
pub proof fn l_utf8_bits()
    ensures
        forall|b: u8| #![trigger b & 0x80] b & 0x80 == 0 <==> b < 0x80,
        forall|b: u8| #![trigger (b as u32) & 0x7f] b < 0x80 ==> (b as u32) & 0x7f == b as u32,
        forall|b: u8| #![trigger b & 0x3f] b & 0x3f < 0x40,
{
    assert(forall|b: u8| #![trigger b & 0x80] b & 0x80 == 0 <==> b < 0x80) by (bit_vector);
    assert(forall|b: u8| #![trigger (b as u32) & 0x7f] b < 0x80 ==> (b as u32) & 0x7f == b as u32) by (bit_vector);
    assert(forall|b: u8| #![trigger b & 0x3f] b & 0x3f < 0x40) by (bit_vector);
}
proof fn l_fold_run(m: int, s: Seq<u8>, t: Seq<u8>)
    requires lowers(s) == lowers(t),
    ensures run(m, s) == run(m, t),
    decreases s.len()
{
    l_lowers_eq(s, t);
    if s.len() > 0 {
        assert(lowers(s.drop_last()) =~= lowers(t.drop_last())) by { l_lowers_eq(s, t);
            assert forall|j: int| 0 <= j < s.len() - 1 implies lower(#[trigger] s.drop_last()[j]) == lower(t.drop_last()[j]) by { assert(lower(s[j]) == lower(t[j])); } l_lowers_eq(s.drop_last(), t.drop_last()); }
        l_fold_run(m, s.drop_last(), t.drop_last());
        assert(lower(s[s.len() - 1]) == lower(t[s.len() - 1]));
        assert(ci(s.last()) == ci(t.last()));
    }
}
/// well-formedness ignores case
pub proof fn l_fold_language_tag(s: Seq<u8>, t: Seq<u8>)
    ensures lowers(s) == lowers(t) ==> v_language_tag(s) == v_language_tag(t)
{ if lowers(s) == lowers(t) { reveal(v_language_tag); l_language_tag(s); l_language_tag(t); l_fold_run(init_language_tag(), s, t); } }
/// well-formedness ignores case
pub proof fn l_fold_privateuse(s: Seq<u8>, t: Seq<u8>)
    ensures lowers(s) == lowers(t) ==> v_privateuse(s) == v_privateuse(t)
{ if lowers(s) == lowers(t) { reveal(v_privateuse); l_privateuse(s); l_privateuse(t); l_fold_run(init_privateuse(), s, t); } }
/// well-formedness ignores case
pub proof fn l_fold_privateuse_subtag(s: Seq<u8>, t: Seq<u8>)
    ensures lowers(s) == lowers(t) ==> v_privateuse_subtag(s) == v_privateuse_subtag(t)
{ if lowers(s) == lowers(t) { reveal(v_privateuse_subtag); l_privateuse_subtag(s); l_privateuse_subtag(t); l_fold_run(init_privateuse_subtag(), s, t); } }
/// well-formedness ignores case
pub proof fn l_fold_langtag(s: Seq<u8>, t: Seq<u8>)
    ensures lowers(s) == lowers(t) ==> v_langtag(s) == v_langtag(t)
{ if lowers(s) == lowers(t) { reveal(v_langtag); l_langtag(s); l_langtag(t); l_fold_run(init_langtag(), s, t); } }
/// well-formedness ignores case
pub proof fn l_fold_language(s: Seq<u8>, t: Seq<u8>)
    ensures lowers(s) == lowers(t) ==> v_language(s) == v_language(t)
{ if lowers(s) == lowers(t) { reveal(v_language); l_language(s); l_language(t); l_fold_run(init_language(), s, t); } }
/// well-formedness ignores case
pub proof fn l_fold_primary(s: Seq<u8>, t: Seq<u8>)
    ensures lowers(s) == lowers(t) ==> v_primary(s) == v_primary(t)
{ if lowers(s) == lowers(t) { reveal(v_primary); l_primary(s); l_primary(t); l_fold_run(init_primary(), s, t); } }
/// well-formedness ignores case
pub proof fn l_fold_extlang(s: Seq<u8>, t: Seq<u8>)
    ensures lowers(s) == lowers(t) ==> v_extlang(s) == v_extlang(t)
{ if lowers(s) == lowers(t) { reveal(v_extlang); l_extlang(s); l_extlang(t); l_fold_run(init_extlang(), s, t); } }
/// well-formedness ignores case
pub proof fn l_fold_extlang_tag(s: Seq<u8>, t: Seq<u8>)
    ensures lowers(s) == lowers(t) ==> v_extlang_tag(s) == v_extlang_tag(t)
{ if lowers(s) == lowers(t) { reveal(v_extlang_tag); l_extlang_tag(s); l_extlang_tag(t); l_fold_run(init_extlang_tag(), s, t); } }
/// well-formedness ignores case
pub proof fn l_fold_script(s: Seq<u8>, t: Seq<u8>)
    ensures lowers(s) == lowers(t) ==> v_script(s) == v_script(t)
{ if lowers(s) == lowers(t) { reveal(v_script); l_script(s); l_script(t); l_fold_run(init_script(), s, t); } }
/// well-formedness ignores case
pub proof fn l_fold_region(s: Seq<u8>, t: Seq<u8>)
    ensures lowers(s) == lowers(t) ==> v_region(s) == v_region(t)
{ if lowers(s) == lowers(t) { reveal(v_region); l_region(s); l_region(t); l_fold_run(init_region(), s, t); } }
/// well-formedness ignores case
pub proof fn l_fold_variant(s: Seq<u8>, t: Seq<u8>)
    ensures lowers(s) == lowers(t) ==> v_variant(s) == v_variant(t)
{ if lowers(s) == lowers(t) { reveal(v_variant); l_variant(s); l_variant(t); l_fold_run(init_variant(), s, t); } }
/// well-formedness ignores case
pub proof fn l_fold_variants(s: Seq<u8>, t: Seq<u8>)
    ensures lowers(s) == lowers(t) ==> v_variants(s) == v_variants(t)
{ if lowers(s) == lowers(t) { reveal(v_variants); l_variants(s); l_variants(t); l_fold_run(init_variants(), s, t); } }
/// well-formedness ignores case
pub proof fn l_fold_extension(s: Seq<u8>, t: Seq<u8>)
    ensures lowers(s) == lowers(t) ==> v_extension(s) == v_extension(t)
{ if lowers(s) == lowers(t) { reveal(v_extension); l_extension(s); l_extension(t); l_fold_run(init_extension(), s, t); } }
/// well-formedness ignores case
pub proof fn l_fold_extension_subtag(s: Seq<u8>, t: Seq<u8>)
    ensures lowers(s) == lowers(t) ==> v_extension_subtag(s) == v_extension_subtag(t)
{ if lowers(s) == lowers(t) { reveal(v_extension_subtag); l_extension_subtag(s); l_extension_subtag(t); l_fold_run(init_extension_subtag(), s, t); } }
/// well-formedness ignores case
pub proof fn l_fold_extensions(s: Seq<u8>, t: Seq<u8>)
    ensures lowers(s) == lowers(t) ==> v_extensions(s) == v_extensions(t)
{ if lowers(s) == lowers(t) { reveal(v_extensions); l_extensions(s); l_extensions(t); l_fold_run(init_extensions(), s, t); } }
pub open spec fn ascii(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 0x80 }
/// ASCII text is valid UTF-8 and can be cut anywhere
pub proof fn l_ascii_bd(s: Seq<u8>, i: int)
    requires ascii(s), 0 <= i <= s.len(),
    ensures valid_utf8(s), is_char_boundary(s, i),
    decreases s.len()
{
    if s.len() > 0 {
        let b = s[0];
        assert(b < 0x80 ==> b & 0x80 == 0) by(bit_vector);
        assert(b < 0x80 ==> (b as u32) & 0x7f == b as u32) by(bit_vector);
        let t = pop_first_scalar(s);
        assert(t =~= s.drop_first());
        l_ascii_bd(s.drop_first(), if i > 0 { i - 1 } else { 0 });
    }
}
proof fn l_ascii_run(m: int, s: Seq<u8>, i: int)
    requires run(m, s) >= 0, 0 <= i < s.len(),
    ensures s[i] < 0x80,
    decreases s.len()
{
    reveal(step);
    if i < s.len() - 1 { l_ascii_run(m, s.drop_last(), i); assert(s.drop_last()[i] == s[i]); }
}
proof fn l_ascii_m(m: int, s: Seq<u8>)
    requires accepts(m, s),
    ensures ascii(s), valid_utf8(s),
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] < 0x80 by { l_ascii_run(m, s, i); }
    l_ascii_bd(s, 0);
}
/// well-formed text is ASCII
pub proof fn l_ascii_language_tag()
    ensures forall|s: Seq<u8>| #[trigger] v_language_tag(s) ==> ascii(s) && valid_utf8(s)
{ assert forall|s: Seq<u8>| #[trigger] v_language_tag(s) implies ascii(s) && valid_utf8(s) by { reveal(v_language_tag); l_language_tag(s); l_ascii_m(init_language_tag(), s); } }
/// well-formed text is ASCII
pub proof fn l_ascii_privateuse()
    ensures forall|s: Seq<u8>| #[trigger] v_privateuse(s) ==> ascii(s) && valid_utf8(s)
{ assert forall|s: Seq<u8>| #[trigger] v_privateuse(s) implies ascii(s) && valid_utf8(s) by { reveal(v_privateuse); l_privateuse(s); l_ascii_m(init_privateuse(), s); } }
/// well-formed text is ASCII
pub proof fn l_ascii_privateuse_subtag()
    ensures forall|s: Seq<u8>| #[trigger] v_privateuse_subtag(s) ==> ascii(s) && valid_utf8(s)
{ assert forall|s: Seq<u8>| #[trigger] v_privateuse_subtag(s) implies ascii(s) && valid_utf8(s) by { reveal(v_privateuse_subtag); l_privateuse_subtag(s); l_ascii_m(init_privateuse_subtag(), s); } }
/// well-formed text is ASCII
pub proof fn l_ascii_langtag()
    ensures forall|s: Seq<u8>| #[trigger] v_langtag(s) ==> ascii(s) && valid_utf8(s)
{ assert forall|s: Seq<u8>| #[trigger] v_langtag(s) implies ascii(s) && valid_utf8(s) by { reveal(v_langtag); l_langtag(s); l_ascii_m(init_langtag(), s); } }
/// well-formed text is ASCII
pub proof fn l_ascii_language()
    ensures forall|s: Seq<u8>| #[trigger] v_language(s) ==> ascii(s) && valid_utf8(s)
{ assert forall|s: Seq<u8>| #[trigger] v_language(s) implies ascii(s) && valid_utf8(s) by { reveal(v_language); l_language(s); l_ascii_m(init_language(), s); } }
/// well-formed text is ASCII
pub proof fn l_ascii_primary()
    ensures forall|s: Seq<u8>| #[trigger] v_primary(s) ==> ascii(s) && valid_utf8(s)
{ assert forall|s: Seq<u8>| #[trigger] v_primary(s) implies ascii(s) && valid_utf8(s) by { reveal(v_primary); l_primary(s); l_ascii_m(init_primary(), s); } }
/// well-formed text is ASCII
pub proof fn l_ascii_extlang()
    ensures forall|s: Seq<u8>| #[trigger] v_extlang(s) ==> ascii(s) && valid_utf8(s)
{ assert forall|s: Seq<u8>| #[trigger] v_extlang(s) implies ascii(s) && valid_utf8(s) by { reveal(v_extlang); l_extlang(s); l_ascii_m(init_extlang(), s); } }
/// well-formed text is ASCII
pub proof fn l_ascii_extlang_tag()
    ensures forall|s: Seq<u8>| #[trigger] v_extlang_tag(s) ==> ascii(s) && valid_utf8(s)
{ assert forall|s: Seq<u8>| #[trigger] v_extlang_tag(s) implies ascii(s) && valid_utf8(s) by { reveal(v_extlang_tag); l_extlang_tag(s); l_ascii_m(init_extlang_tag(), s); } }
/// well-formed text is ASCII
pub proof fn l_ascii_script()
    ensures forall|s: Seq<u8>| #[trigger] v_script(s) ==> ascii(s) && valid_utf8(s)
{ assert forall|s: Seq<u8>| #[trigger] v_script(s) implies ascii(s) && valid_utf8(s) by { reveal(v_script); l_script(s); l_ascii_m(init_script(), s); } }
/// well-formed text is ASCII
pub proof fn l_ascii_region()
    ensures forall|s: Seq<u8>| #[trigger] v_region(s) ==> ascii(s) && valid_utf8(s)
{ assert forall|s: Seq<u8>| #[trigger] v_region(s) implies ascii(s) && valid_utf8(s) by { reveal(v_region); l_region(s); l_ascii_m(init_region(), s); } }
/// well-formed text is ASCII
pub proof fn l_ascii_variant()
    ensures forall|s: Seq<u8>| #[trigger] v_variant(s) ==> ascii(s) && valid_utf8(s)
{ assert forall|s: Seq<u8>| #[trigger] v_variant(s) implies ascii(s) && valid_utf8(s) by { reveal(v_variant); l_variant(s); l_ascii_m(init_variant(), s); } }
/// well-formed text is ASCII
pub proof fn l_ascii_variants()
    ensures forall|s: Seq<u8>| #[trigger] v_variants(s) ==> ascii(s) && valid_utf8(s)
{ assert forall|s: Seq<u8>| #[trigger] v_variants(s) implies ascii(s) && valid_utf8(s) by { reveal(v_variants); l_variants(s); l_ascii_m(init_variants(), s); } }
/// well-formed text is ASCII
pub proof fn l_ascii_extension()
    ensures forall|s: Seq<u8>| #[trigger] v_extension(s) ==> ascii(s) && valid_utf8(s)
{ assert forall|s: Seq<u8>| #[trigger] v_extension(s) implies ascii(s) && valid_utf8(s) by { reveal(v_extension); l_extension(s); l_ascii_m(init_extension(), s); } }
/// well-formed text is ASCII
pub proof fn l_ascii_extension_subtag()
    ensures forall|s: Seq<u8>| #[trigger] v_extension_subtag(s) ==> ascii(s) && valid_utf8(s)
{ assert forall|s: Seq<u8>| #[trigger] v_extension_subtag(s) implies ascii(s) && valid_utf8(s) by { reveal(v_extension_subtag); l_extension_subtag(s); l_ascii_m(init_extension_subtag(), s); } }
/// well-formed text is ASCII
pub proof fn l_ascii_extensions()
    ensures forall|s: Seq<u8>| #[trigger] v_extensions(s) ==> ascii(s) && valid_utf8(s)
{ assert forall|s: Seq<u8>| #[trigger] v_extensions(s) implies ascii(s) && valid_utf8(s) by { reveal(v_extensions); l_extensions(s); l_ascii_m(init_extensions(), s); } }
}
}
