// What the accessors and iterators return, in terms of the text.
pub mod views {
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use crate::re::*;
use crate::abnf::*;
use crate::sp::*;
use crate::seg::*;
use crate::x_std::*;
use crate::gf::*;
verus! {
/// absent when empty
pub open spec fn ne(x: Seq<u8>) -> Option<Seq<u8>> { if x.len() > 0 { Some(x) } else { None } }
pub open spec fn whole(c: bool, x: Seq<u8>) -> Option<Seq<u8>> { if c { Some(x) } else { None } }
/// subtags of an optional private use part
pub open spec fn pusubs(x: Seq<u8>) -> Seq<Seq<u8>> { if x.len() > 0 { split(x.skip(2)) } else { Seq::empty() } }
/// subtags of a variant list
pub open spec fn vsubs(x: Seq<u8>) -> Seq<Seq<u8>> { if x.len() > 0 { split(x) } else { Seq::empty() } }
/// subtags of an extension that may be absent
pub open spec fn xsubs(x: Option<Seq<u8>>) -> Seq<Seq<u8>> { match x { Some(e) => split(e.skip(2)), None => Seq::empty() } }
/// extended subtags of a language
pub open spec fn lsubs(x: Option<Seq<u8>>) -> Seq<Seq<u8>> { match x { Some(e) => split(e), None => Seq::empty() } }
/// the text before the first hyphen
pub open spec fn lprimary(l: Seq<u8>) -> Seq<u8> { l.take(seg_end(l, 0)) }
/// the text after the first hyphen
pub open spec fn lext(l: Seq<u8>) -> Option<Seq<u8>> { if seg_end(l, 0) < l.len() { Some(l.skip(seg_end(l, 0) + 1)) } else { None } }

pub proof fn l_lit_empty() ensures sb("") == Seq::<u8>::empty()
{ reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); assert(encode_utf8(""@).len() == 0); assert(sb("") =~= Seq::<u8>::empty()); }
pub proof fn l_empty_list(x: Seq<u8>) ensures x.len() == 0 ==> v_variants(x) && v_extensions(x)
{ l_l_variants(x); reveal(v_extensions); l_opt(cat(extension(), star(dashed(extension()))), x); }
pub proof fn l_empty_lists() ensures forall|x: Seq<u8>| x.len() == 0 ==> #[trigger] v_variants(x), forall|x: Seq<u8>| x.len() == 0 ==> #[trigger] v_extensions(x)
{
    assert forall|x: Seq<u8>| x.len() == 0 implies #[trigger] v_variants(x) by { l_empty_list(x); }
    assert forall|x: Seq<u8>| x.len() == 0 implies #[trigger] v_extensions(x) by { l_empty_list(x); }
}
pub proof fn l_rest_some(x: Seq<u8>, o: int, e: int, q: Q) requires it_inv(x, o, e, q), o < e ensures rest(x, o, e).len() > 0
{ l_split(x.subrange(o, e)); }
pub proof fn l_new_extension_iter(s: Seq<u8>) requires v_extension(s)
    ensures it_inv(s, 2, s.len() as int, Q::ExtSub), rest(s, 2, s.len() as int) == split(s.skip(2)), s.len() >= 4, is_sing(s[0]), s[1] == 0x2d
{ l_ascii_extension(); l_l_extension(s); assert(s.skip(2) =~= s.subrange(2, s.len() as int)); l_seg_end(s.skip(2), 0); l_hq(Q::ExtSub, s.skip(2).take(seg_end(s.skip(2), 0))); }
pub proof fn l_new_privateuse_iter(s: Seq<u8>) requires v_privateuse(s)
    ensures it_inv(s, 2, s.len() as int, Q::PuSub), rest(s, 2, s.len() as int) == split(s.skip(2)), s.len() >= 3
{ l_ascii_privateuse(); l_l_privateuse(s); assert(s.skip(2) =~= s.subrange(2, s.len() as int)); l_seg_end(s.skip(2), 0); l_hq(Q::PuSub, s.skip(2).take(seg_end(s.skip(2), 0))); }
pub proof fn l_new_extlang_iter(s: Seq<u8>) requires v_extlang(s)
    ensures it_inv(s, 0, s.len() as int, Q::Extlang), rest(s, 0, s.len() as int) == split(s)
{ l_ascii_extlang(); l_l_extlang(s); assert(s =~= s.subrange(0, s.len() as int)); l_seg_end(s, 0); l_hq(Q::Extlang, s.take(seg_end(s, 0))); }
pub proof fn l_new_variants_iter(s: Seq<u8>) requires v_variants(s)
    ensures it_inv(s, 0, s.len() as int, Q::Variant), rest(s, 0, s.len() as int) == vsubs(s)
{ l_ascii_variants(); l_l_variants(s); assert(s =~= s.subrange(0, s.len() as int)); }
pub proof fn l_new_extensions_iter(s: Seq<u8>) requires v_extensions(s)
    ensures xit_inv(s, 0), xrest(s, 0) == exts(s)
{ l_ascii_extensions(); l_exts(s); assert(s.skip(0) =~= s); }
/// the two parts of a language are well-formed
pub proof fn l_lang(l: Seq<u8>) requires v_language(l)
    ensures ascii(l), valid_utf8(l), l.len() >= 2, 0 < seg_end(l, 0) <= l.len(), v_primary(lprimary(l)), lext(l) matches Some(e) ==> v_extlang(e), seg_end(l, 0) == l.len() ==> lprimary(l) == l
{ l_ascii_language(); l_l_language(l); l_seg_end(l, 0); l_k_primary(lprimary(l)); assert(seg_end(l, 0) == l.len() ==> lprimary(l) =~= l); }
/// a string of one byte is one ASCII character
pub proof fn l_one_byte(s: &str)
    ensures sb(s).len() == 1 ==> s@.len() == 1 && s@[0] < '\u{80}' && sb(s)[0] == s@[0] as u8
{
    if sb(s).len() == 1 {
        let c = s@;
        assert(c.len() > 0) by { if c.len() == 0 { assert(encode_utf8(c).len() == 0); } }
        reveal_with_fuel(encode_utf8, 2);
        if c.len() > 1 { l_enc_len(c.drop_first()); }
        l_enc1(c[0]);
    }
}
proof fn l_enc1(c: char) ensures encode_scalar(c as u32).len() >= 1, encode_scalar(c as u32).len() == 1 ==> c < '\u{80}' && encode_scalar(c as u32) == seq![c as u8]
{
    let n = c as u32;
    assert(n < 0x80 ==> n & 0x7f == n) by(bit_vector);
}
proof fn l_enc_len(c: Seq<char>) requires c.len() > 0 ensures encode_utf8(c).len() >= 1
{ reveal_with_fuel(encode_utf8, 2); l_enc1(c[0]); }
pub proof fn l_char_byte(c: u8) requires c < 0x80 ensures encode_utf8(seq![c as char]) =~= seq![c]
{ is_ascii_chars_encode_utf8(seq![c as char]); }
/// the languages of the regular grandfathered tags
pub proof fn l_lits() ensures sb("art") == seq![0x61u8, 0x72, 0x74], sb("cel") == seq![0x63u8, 0x65, 0x6c], sb("no") == seq![0x6eu8, 0x6f], sb("zh") == seq![0x7au8, 0x68]
{
    reveal_strlit("art"); reveal_strlit("cel"); reveal_strlit("no"); reveal_strlit("zh");
    is_ascii_chars_encode_utf8("art"@); is_ascii_chars_encode_utf8("cel"@); is_ascii_chars_encode_utf8("no"@); is_ascii_chars_encode_utf8("zh"@);
    assert(sb("art") =~= seq![0x61u8, 0x72, 0x74]); assert(sb("cel") =~= seq![0x63u8, 0x65, 0x6c]); assert(sb("no") =~= seq![0x6eu8, 0x6f]); assert(sb("zh") =~= seq![0x7au8, 0x68]);
}
}
}
