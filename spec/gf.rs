// Grandfathered tags (RFC 5646 section 2.2.8).
pub mod gf {
use vstd::prelude::*;
use vstd::utf8::*;
use crate::re::*;
use crate::abnf::*;
use crate::sp::*;
use crate::seg::*;
verus! {
/// the k-th grandfathered tag
#[verifier::opaque] pub open spec fn gw(k: int) -> Seq<u8> {
    if k == 0 { /* en-GB-oed */ seq![0x65u8, 0x6eu8, 0x2du8, 0x47u8, 0x42u8, 0x2du8, 0x6fu8, 0x65u8, 0x64u8] }
    else if k == 1 { /* i-ami */ seq![0x69u8, 0x2du8, 0x61u8, 0x6du8, 0x69u8] }
    else if k == 2 { /* i-bnn */ seq![0x69u8, 0x2du8, 0x62u8, 0x6eu8, 0x6eu8] }
    else if k == 3 { /* i-default */ seq![0x69u8, 0x2du8, 0x64u8, 0x65u8, 0x66u8, 0x61u8, 0x75u8, 0x6cu8, 0x74u8] }
    else if k == 4 { /* i-enochian */ seq![0x69u8, 0x2du8, 0x65u8, 0x6eu8, 0x6fu8, 0x63u8, 0x68u8, 0x69u8, 0x61u8, 0x6eu8] }
    else if k == 5 { /* i-hak */ seq![0x69u8, 0x2du8, 0x68u8, 0x61u8, 0x6bu8] }
    else if k == 6 { /* i-klingon */ seq![0x69u8, 0x2du8, 0x6bu8, 0x6cu8, 0x69u8, 0x6eu8, 0x67u8, 0x6fu8, 0x6eu8] }
    else if k == 7 { /* i-lux */ seq![0x69u8, 0x2du8, 0x6cu8, 0x75u8, 0x78u8] }
    else if k == 8 { /* i-mingo */ seq![0x69u8, 0x2du8, 0x6du8, 0x69u8, 0x6eu8, 0x67u8, 0x6fu8] }
    else if k == 9 { /* i-navajo */ seq![0x69u8, 0x2du8, 0x6eu8, 0x61u8, 0x76u8, 0x61u8, 0x6au8, 0x6fu8] }
    else if k == 10 { /* i-pwn */ seq![0x69u8, 0x2du8, 0x70u8, 0x77u8, 0x6eu8] }
    else if k == 11 { /* i-tao */ seq![0x69u8, 0x2du8, 0x74u8, 0x61u8, 0x6fu8] }
    else if k == 12 { /* i-tay */ seq![0x69u8, 0x2du8, 0x74u8, 0x61u8, 0x79u8] }
    else if k == 13 { /* i-tsu */ seq![0x69u8, 0x2du8, 0x74u8, 0x73u8, 0x75u8] }
    else if k == 14 { /* sgn-BE-FR */ seq![0x73u8, 0x67u8, 0x6eu8, 0x2du8, 0x42u8, 0x45u8, 0x2du8, 0x46u8, 0x52u8] }
    else if k == 15 { /* sgn-BE-NL */ seq![0x73u8, 0x67u8, 0x6eu8, 0x2du8, 0x42u8, 0x45u8, 0x2du8, 0x4eu8, 0x4cu8] }
    else if k == 16 { /* sgn-CH-DE */ seq![0x73u8, 0x67u8, 0x6eu8, 0x2du8, 0x43u8, 0x48u8, 0x2du8, 0x44u8, 0x45u8] }
    else if k == 17 { /* art-lojban */ seq![0x61u8, 0x72u8, 0x74u8, 0x2du8, 0x6cu8, 0x6fu8, 0x6au8, 0x62u8, 0x61u8, 0x6eu8] }
    else if k == 18 { /* cel-gaulish */ seq![0x63u8, 0x65u8, 0x6cu8, 0x2du8, 0x67u8, 0x61u8, 0x75u8, 0x6cu8, 0x69u8, 0x73u8, 0x68u8] }
    else if k == 19 { /* no-bok */ seq![0x6eu8, 0x6fu8, 0x2du8, 0x62u8, 0x6fu8, 0x6bu8] }
    else if k == 20 { /* no-nyn */ seq![0x6eu8, 0x6fu8, 0x2du8, 0x6eu8, 0x79u8, 0x6eu8] }
    else if k == 21 { /* zh-guoyu */ seq![0x7au8, 0x68u8, 0x2du8, 0x67u8, 0x75u8, 0x6fu8, 0x79u8, 0x75u8] }
    else if k == 22 { /* zh-hakka */ seq![0x7au8, 0x68u8, 0x2du8, 0x68u8, 0x61u8, 0x6bu8, 0x6bu8, 0x61u8] }
    else if k == 23 { /* zh-min */ seq![0x7au8, 0x68u8, 0x2du8, 0x6du8, 0x69u8, 0x6eu8] }
    else if k == 24 { /* zh-min-nan */ seq![0x7au8, 0x68u8, 0x2du8, 0x6du8, 0x69u8, 0x6eu8, 0x2du8, 0x6eu8, 0x61u8, 0x6eu8] }
    else if k == 25 { /* zh-xiang */ seq![0x7au8, 0x68u8, 0x2du8, 0x78u8, 0x69u8, 0x61u8, 0x6eu8, 0x67u8] }
    else { Seq::empty() }
}
/// s is the k-th grandfathered tag, in any case
pub open spec fn is_gf(s: Seq<u8>, k: int) -> bool { 0 <= k < 26 && lowers(gw(k)) == lowers(s) }
pub open spec fn gf(s: Seq<u8>) -> bool { exists|k: int| #[trigger] is_gf(s, k) }
/// the language of a regular grandfathered tag
pub open spec fn glang(k: int) -> Option<Seq<u8>> {
    if k == 17 { Some(seq![0x61u8, 0x72u8, 0x74u8]) } else if k == 18 { Some(seq![0x63u8, 0x65u8, 0x6cu8]) }
    else if 19 <= k <= 20 { Some(seq![0x6eu8, 0x6fu8]) } else if 21 <= k <= 25 { Some(seq![0x7au8, 0x68u8]) } else { None }
}
pub proof fn l_gw() ensures grandfathered_words().len() == 26, forall|k: int| 0 <= k < 26 ==> #[trigger] grandfathered_words()[k] == gw(k)
{
    reveal(gw);
    let w = grandfathered_words();
    assert(w[0] =~= gw(0));
    assert(w[1] =~= gw(1));
    assert(w[2] =~= gw(2));
    assert(w[3] =~= gw(3));
    assert(w[4] =~= gw(4));
    assert(w[5] =~= gw(5));
    assert(w[6] =~= gw(6));
    assert(w[7] =~= gw(7));
    assert(w[8] =~= gw(8));
    assert(w[9] =~= gw(9));
    assert(w[10] =~= gw(10));
    assert(w[11] =~= gw(11));
    assert(w[12] =~= gw(12));
    assert(w[13] =~= gw(13));
    assert(w[14] =~= gw(14));
    assert(w[15] =~= gw(15));
    assert(w[16] =~= gw(16));
    assert(w[17] =~= gw(17));
    assert(w[18] =~= gw(18));
    assert(w[19] =~= gw(19));
    assert(w[20] =~= gw(20));
    assert(w[21] =~= gw(21));
    assert(w[22] =~= gw(22));
    assert(w[23] =~= gw(23));
    assert(w[24] =~= gw(24));
    assert(w[25] =~= gw(25));
    assert(w.len() == 26);
}
/// a number that tells the words apart
spec fn code(w: Seq<u8>) -> int decreases w.len() { if w.len() == 0 { 1 } else { lower(w.last()) + 256 * code(w.drop_last()) } }
proof fn l_code(a: Seq<u8>, b: Seq<u8>) requires lowers(a) == lowers(b) ensures code(a) == code(b) decreases a.len()
{
    l_lowers_eq(a, b);
    if a.len() > 0 { l_lowers_eq(a.drop_last(), b.drop_last()); assert(lower(a.last()) == lower(b.last())) by { assert(lower(a[a.len() - 1]) == lower(b[a.len() - 1])); }
        assert forall|j: int| 0 <= j < a.len() - 1 implies lower(#[trigger] a.drop_last()[j]) == lower(b.drop_last()[j]) by { assert(lower(a[j]) == lower(b[j])); }
        l_code(a.drop_last(), b.drop_last()); }
}
proof fn l_codes() ensures code(gw(0)) == 6593426749703800710500, code(gw(1)) == 1551244553577, code(gw(2)) == 1551244619374, code(gw(3)) == 6662545461328922111092, code(gw(4)) == 1705611712700976865042798, code(gw(5)) == 1551245009259, code(gw(6)) == 6662547439363442569070, code(gw(7)) == 1551245276536, code(gw(8)) == 101662414536075119, code(gw(9)) == 26025579186520943215, code(gw(10)) == 1551245539182, code(gw(11)) == 1551245795695, code(gw(12)) == 1551245795705, code(gw(13)) == 1551245800309, code(gw(14)) == 6851194995680215918194, code(gw(15)) == 6851194995680215920236, code(gw(16)) == 6851194995684561216613, code(gw(17)) == 1669106668743895782941038, code(gw(18)) == 429647620498013963084723048, code(gw(19)) == 402898758561643, code(gw(20)) == 402898759350638, code(gw(21)) == 27267093866289789301, code(gw(22)) == 27267093870248946529, code(gw(23)) == 416062834043246, code(gw(24)) == 1786976265296817781891438, code(gw(25)) == 27267093939101986407
{
    assert(code(gw(0)) == 6593426749703800710500) by (compute);
    assert(code(gw(1)) == 1551244553577) by (compute);
    assert(code(gw(2)) == 1551244619374) by (compute);
    assert(code(gw(3)) == 6662545461328922111092) by (compute);
    assert(code(gw(4)) == 1705611712700976865042798) by (compute);
    assert(code(gw(5)) == 1551245009259) by (compute);
    assert(code(gw(6)) == 6662547439363442569070) by (compute);
    assert(code(gw(7)) == 1551245276536) by (compute);
    assert(code(gw(8)) == 101662414536075119) by (compute);
    assert(code(gw(9)) == 26025579186520943215) by (compute);
    assert(code(gw(10)) == 1551245539182) by (compute);
    assert(code(gw(11)) == 1551245795695) by (compute);
    assert(code(gw(12)) == 1551245795705) by (compute);
    assert(code(gw(13)) == 1551245800309) by (compute);
    assert(code(gw(14)) == 6851194995680215918194) by (compute);
    assert(code(gw(15)) == 6851194995680215920236) by (compute);
    assert(code(gw(16)) == 6851194995684561216613) by (compute);
    assert(code(gw(17)) == 1669106668743895782941038) by (compute);
    assert(code(gw(18)) == 429647620498013963084723048) by (compute);
    assert(code(gw(19)) == 402898758561643) by (compute);
    assert(code(gw(20)) == 402898759350638) by (compute);
    assert(code(gw(21)) == 27267093866289789301) by (compute);
    assert(code(gw(22)) == 27267093870248946529) by (compute);
    assert(code(gw(23)) == 416062834043246) by (compute);
    assert(code(gw(24)) == 1786976265296817781891438) by (compute);
    assert(code(gw(25)) == 27267093939101986407) by (compute);
}
pub proof fn l_gf_inj(a: int, b: int) requires 0 <= a < 26, 0 <= b < 26, lowers(gw(a)) == lowers(gw(b)) ensures a == b
{ l_code(gw(a), gw(b)); l_codes(); }
pub proof fn l_gf_uniq(s: Seq<u8>) ensures forall|a: int, b: int| #[trigger] is_gf(s, a) && #[trigger] is_gf(s, b) ==> a == b
{ assert forall|a: int, b: int| #[trigger] is_gf(s, a) && #[trigger] is_gf(s, b) implies a == b by { l_gf_inj(a, b); } }
proof fn l_word(w: Seq<u8>, s: Seq<u8>) ensures matches(word(w), s) <==> lowers(w) == lowers(s) decreases w.len()
{
    l_lowers_eq(w, s);
    if w.len() == 1 { }
    else if w.len() > 1 {
        let v = w.subrange(1, w.len() as int);
        let r = cls(K::Lit(w[0]));
        assert(word(w) == cat(r, word(v)));
        if matches(word(w), s) {
            let i = l_cat_split(r, word(v), s);
            let t = s.subrange(1, s.len() as int);
            assert(s.subrange(0, 1)[0] == s[0]);
            l_word(v, t); l_lowers_eq(v, t);
            assert forall|j: int| 0 <= j < w.len() implies lower(#[trigger] w[j]) == lower(s[j]) by { if j > 0 { assert(lower(v[j - 1]) == lower(t[j - 1])); } }
        }
        if lowers(w) == lowers(s) {
            let t = s.subrange(1, s.len() as int);
            l_lowers_eq(v, t);
            assert forall|j: int| 0 <= j < v.len() implies lower(#[trigger] v[j]) == lower(t[j]) by { assert(lower(w[j + 1]) == lower(s[j + 1])); }
            l_word(v, t);
            assert(lower(w[0]) == lower(s[0]));
            assert(s.subrange(0, 1)[0] == s[0]);
            l_cat(r, word(v), s, 1);
        }
    } else { assert(s.len() == 0 ==> lowers(w) =~= lowers(s)); }
}
proof fn l_alts(ws: Seq<Seq<u8>>, i: nat, s: Seq<u8>)
    ensures matches(word_alts(ws, i), s) <==> exists|k: int| i <= k < ws.len() && lowers(#[trigger] ws[k]) == lowers(s)
    decreases ws.len() - i
{
    if i < ws.len() {
        l_word(ws[i as int], s); l_alts(ws, i + 1, s);
        assert(word_alts(ws, i) == alt(word(ws[i as int]), word_alts(ws, i + 1)));
        assert(matches(word_alts(ws, i), s) == (matches(word(ws[i as int]), s) || matches(word_alts(ws, i + 1), s)));
        if exists|k: int| i <= k < ws.len() && lowers(#[trigger] ws[k]) == lowers(s) { let k = choose|k: int| i <= k < ws.len() && lowers(#[trigger] ws[k]) == lowers(s); if k > i { assert(i + 1 <= k); } }
    }
}
/// exactly the grandfathered tags of the RFC
pub proof fn l_gf(s: Seq<u8>) ensures matches(grandfathered(), s) <==> gf(s)
{
    let ws = grandfathered_words();
    l_alts(ws, 0, s); l_gw();
    if gf(s) { let k = choose|k: int| #[trigger] is_gf(s, k); assert(lowers(ws[k]) == lowers(s)); }
    if exists|k: int| 0 <= k < ws.len() && lowers(#[trigger] ws[k]) == lowers(s) { let k = choose|k: int| 0 <= k < ws.len() && lowers(#[trigger] ws[k]) == lowers(s); assert(is_gf(s, k)); }
}
/// the three kinds of language tag
pub proof fn l_kinds(s: Seq<u8>) ensures v_language_tag(s) <==> v_langtag(s) || v_privateuse(s) || gf(s)
{
    reveal(v_language_tag); reveal(v_langtag); reveal(v_privateuse);
    l_gf(s);
    assert(matches(alt(privateuse(), grandfathered()), s) == (matches(privateuse(), s) || matches(grandfathered(), s)));
}
/// no private use tag is a normal one
pub proof fn l_kinds_apart(s: Seq<u8>) ensures !(v_langtag(s) && v_privateuse(s))
{
    if v_langtag(s) && v_privateuse(s) {
        l_langtag_decomp(s); l_offsets(dec(s), s); l_l_privateuse(s); l_l_language(dec(s).l);
        let l = dec(s).l;
        assert(l == s.take(l.len() as int));
        assert(l[1] == 0x2d);
        l_seg_end(l, 0);
        let e = seg_end(l, 0);
        if e == l.len() { assert(is_alpha(l[1])); } else { assert(l.take(e)[0] == l[0]); assert(is_alpha(l.take(e)[1])); }
    }
}
pub proof fn l_gw_ascii(k: int) ensures ascii(gw(k)), valid_utf8(gw(k))
{ reveal(gw); assert(ascii(gw(k))); l_ascii_bd(gw(k), 0); }
pub proof fn l_glang(k: int) ensures glang(k) matches Some(l) ==> v_language(l)
{
    if let Some(l) = glang(k) { l_l_language(l); l_seg_end_is(l, 0, l.len() as int); }
}
}
}
