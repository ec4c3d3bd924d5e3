// Lists of '-'-separated subtags and the decomposition of a language tag.
pub mod seg {
use vstd::prelude::*;
use vstd::utf8::*;
use crate::re::*;
use crate::abnf::*;
use crate::sp::*;
verus! {
// ------------------------------------------------ kinds of subtag
pub open spec fn al(t: Seq<u8>, lo: int, hi: int) -> bool { lo <= t.len() <= hi && forall|i: int| 0 <= i < t.len() ==> is_alpha(#[trigger] t[i]) }
pub open spec fn an(t: Seq<u8>, lo: int, hi: int) -> bool { lo <= t.len() <= hi && forall|i: int| 0 <= i < t.len() ==> is_alnum(#[trigger] t[i]) }
pub open spec fn dg(t: Seq<u8>, lo: int, hi: int) -> bool { lo <= t.len() <= hi && forall|i: int| 0 <= i < t.len() ==> is_digit(#[trigger] t[i]) }
/// no byte of t is '-'
pub open spec fn nodash(t: Seq<u8>) -> bool { forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != 0x2d }

pub open spec fn run_of(k: K, lo: nat, hi: nat, s: Seq<u8>) -> bool { lo <= s.len() <= hi && forall|i: int| 0 <= i < s.len() ==> ink(k, #[trigger] s[i]) }
pub proof fn l_opt(r: Re, s: Seq<u8>) ensures matches(opt(r), s) == (s.len() == 0 || matches(r, s)) { assert(matches(Re::Eps, s) == (s.len() == 0)); }
proof fn l_rep(k: K, lo: nat, hi: nat, s: Seq<u8>)
    requires lo <= hi,
    ensures matches(rep(k, lo, hi), s) == run_of(k, lo, hi, s),
    decreases hi
{
    if hi == 0 { }
    else if hi == 1 {
        assert(rep(k, lo, hi) == if lo > 0 { cls(k) } else { opt(cls(k)) });
        l_opt(cls(k), s); assert(matches(cls(k), s) == (s.len() == 1 && ink(k, s[0])));
        if s.len() == 1 { if run_of(k, lo, hi, s) { assert(ink(k, s[0])); } }
    } else {
        let l1 = if lo > 0 { (lo - 1) as nat } else { 0 };
        let r1 = rep(k, l1, (hi - 1) as nat);
        let r0 = cat(cls(k), r1);
        assert(rep(k, lo, hi) == if lo > 0 { r0 } else { opt(r0) });
        l_opt(r0, s);
        if matches(r0, s) {
            let i = l_cat_split(cls(k), r1, s);
            assert(i == 1);
            let t = s.subrange(1, s.len() as int);
            l_rep(k, l1, (hi - 1) as nat, t);
            assert(s.subrange(0, 1)[0] == s[0]);
            assert forall|j: int| 0 <= j < s.len() implies ink(k, #[trigger] s[j]) by { if j > 0 { assert(t[j - 1] == s[j]); } }
        }
        if run_of(k, lo, hi, s) && s.len() > 0 {
            let t = s.subrange(1, s.len() as int);
            assert forall|j: int| 0 <= j < t.len() implies ink(k, #[trigger] t[j]) by { assert(t[j] == s[j + 1]); }
            l_rep(k, l1, (hi - 1) as nat, t);
            assert(s.subrange(0, 1)[0] == s[0]);
            assert(ink(k, s[0]));
            l_cat(cls(k), r1, s, 1);
        }
    }
}
pub proof fn l_k_script(t: Seq<u8>) ensures v_script(t) == al(t, 4, 4) { reveal(v_script); l_rep(K::Alpha, 4, 4, t); }
pub proof fn l_k_primary(t: Seq<u8>) ensures v_primary(t) == al(t, 2, 8) { reveal(v_primary); l_rep(K::Alpha, 2, 8, t); }
pub proof fn l_k_extlang_tag(t: Seq<u8>) ensures v_extlang_tag(t) == al(t, 3, 3) { reveal(v_extlang_tag); l_rep(K::Alpha, 3, 3, t); }
pub proof fn l_k_region(t: Seq<u8>) ensures v_region(t) == (al(t, 2, 2) || dg(t, 3, 3)) { reveal(v_region); l_rep(K::Alpha, 2, 2, t); l_rep(K::Digit, 3, 3, t); }
pub proof fn l_k_extension_subtag(t: Seq<u8>) ensures v_extension_subtag(t) == an(t, 2, 8) { reveal(v_extension_subtag); l_rep(K::Alnum, 2, 8, t); }
pub proof fn l_k_privateuse_subtag(t: Seq<u8>) ensures v_privateuse_subtag(t) == an(t, 1, 8) { reveal(v_privateuse_subtag); l_rep(K::Alnum, 1, 8, t); }
pub proof fn l_k_variant(t: Seq<u8>) ensures v_variant(t) == (an(t, 5, 8) || (an(t, 4, 4) && is_digit(t[0]))) {
    reveal(v_variant);
    l_rep(K::Alnum, 5, 8, t);
    let r = rep(K::Alnum, 3, 3);
    if matches(cat(cls(K::Digit), r), t) {
        let i = l_cat_split(cls(K::Digit), r, t);
        let u = t.subrange(1, t.len() as int);
        l_rep(K::Alnum, 3, 3, u);
        assert(t.subrange(0, 1)[0] == t[0]);
        assert forall|j: int| 0 <= j < t.len() implies is_alnum(#[trigger] t[j]) by { if j > 0 { assert(u[j - 1] == t[j]); assert(ink(K::Alnum, u[j - 1])); } }
    }
    if an(t, 4, 4) && is_digit(t[0]) {
        let u = t.subrange(1, t.len() as int);
        assert forall|j: int| 0 <= j < u.len() implies ink(K::Alnum, #[trigger] u[j]) by { assert(u[j] == t[j + 1]); }
        l_rep(K::Alnum, 3, 3, u);
        assert(t.subrange(0, 1)[0] == t[0]);
        l_cat(cls(K::Digit), r, t, 1);
    }
}

/// what a subtag of a list may be
pub enum Q { Extlang, Script, Region, Variant, ExtSub, PuSub, SingSub, Long }
pub open spec fn is_single(t: Seq<u8>) -> bool { t.len() == 1 && is_sing(t[0]) }
pub open spec fn hq(q: Q, t: Seq<u8>) -> bool {
    match q {
        Q::Extlang => v_extlang_tag(t), Q::Script => v_script(t), Q::Region => v_region(t), Q::Variant => v_variant(t),
        Q::ExtSub => v_extension_subtag(t), Q::PuSub => v_privateuse_subtag(t),
        Q::SingSub => is_single(t) || v_extension_subtag(t),
        Q::Long => t.len() > 1,
    }
}
/// the test a list scan applies to the subtag t found at offset o
pub enum P { First(Q), At(int, Q), All(Q) }
pub open spec fn holds(p: P, o: int, t: Seq<u8>) -> bool {
    match p { P::First(q) => o == 0 || hq(q, t), P::At(a, q) => o == a && hq(q, t), P::All(q) => hq(q, t) }
}
pub proof fn l_hq(q: Q, t: Seq<u8>)
    ensures
        hq(q, t) && !(q is Long) ==> nodash(t) && t.len() >= 1,
        hq(Q::Extlang, t) == al(t, 3, 3), hq(Q::Script, t) == al(t, 4, 4), hq(Q::Region, t) == (al(t, 2, 2) || dg(t, 3, 3)),
        hq(Q::Variant, t) == (an(t, 5, 8) || (an(t, 4, 4) && is_digit(t[0]))), hq(Q::ExtSub, t) == an(t, 2, 8), hq(Q::PuSub, t) == an(t, 1, 8),
        hq(Q::SingSub, t) == (is_single(t) || an(t, 2, 8)),
{ l_k_script(t); l_k_extlang_tag(t); l_k_region(t); l_k_variant(t); l_k_extension_subtag(t); l_k_privateuse_subtag(t); }

// ------------------------------------------------ segments
/// index of the first '-' at or after i, or the length
pub open spec fn seg_end(s: Seq<u8>, i: int) -> int decreases s.len() - i {
    if i < 0 || i >= s.len() { s.len() as int } else if s[i] == 0x2d { i } else { seg_end(s, i + 1) }
}
pub proof fn l_seg_end(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len(),
    ensures i <= seg_end(s, i) <= s.len(), forall|k: int| i <= k < seg_end(s, i) ==> #[trigger] s[k] != 0x2d, seg_end(s, i) < s.len() ==> s[seg_end(s, i)] == 0x2d,
    decreases s.len() - i
{ if i < s.len() && s[i] != 0x2d { l_seg_end(s, i + 1); } }
pub proof fn l_seg_end_is(s: Seq<u8>, i: int, e: int)
    requires 0 <= i <= e <= s.len(), forall|k: int| i <= k < e ==> #[trigger] s[k] != 0x2d, e < s.len() ==> s[e] == 0x2d,
    ensures seg_end(s, i) == e,
    decreases s.len() - i
{ if i < e { assert(s[i] != 0x2d); l_seg_end_is(s, i + 1, e); } }
/// start of the segment that ends at e
pub open spec fn seg_start(s: Seq<u8>, e: int) -> int decreases e {
    if e <= 0 { 0 } else if s[e - 1] == 0x2d { e } else { seg_start(s, e - 1) }
}
pub proof fn l_seg_start(s: Seq<u8>, e: int)
    requires 0 <= e <= s.len(),
    ensures 0 <= seg_start(s, e) <= e, forall|k: int| seg_start(s, e) <= k < e ==> #[trigger] s[k] != 0x2d, seg_start(s, e) > 0 ==> s[seg_start(s, e) - 1] == 0x2d,
    decreases e
{ if e > 0 && s[e - 1] != 0x2d { l_seg_start(s, e - 1); } }
pub proof fn l_seg_start_is(s: Seq<u8>, b: int, e: int)
    requires 0 <= b <= e <= s.len(), forall|k: int| b <= k < e ==> #[trigger] s[k] != 0x2d, b > 0 ==> s[b - 1] == 0x2d,
    ensures seg_start(s, e) == b,
    decreases e
{ if b < e { assert(s[e - 1] != 0x2d); l_seg_start_is(s, b, e - 1); } }

/// every subtag of x satisfies q
pub open spec fn allseg(x: Seq<u8>, q: Q) -> bool decreases x.len() {
    let e = seg_end(x, 0);
    hq(q, x.take(e)) && (e >= x.len() || e < 0 || allseg(x.skip(e + 1), q))
}
/// the subtags of x
pub open spec fn split(x: Seq<u8>) -> Seq<Seq<u8>> decreases x.len() {
    let e = seg_end(x, 0);
    if e >= x.len() || e < 0 { seq![x] } else { seq![x.take(e)] + split(x.skip(e + 1)) }
}
/// text of a list of subtags
pub open spec fn join(l: Seq<Seq<u8>>) -> Seq<u8> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else if l.len() == 1 { l[0] } else { l[0] + seq![0x2du8] + join(l.drop_first()) }
}
pub proof fn l_split(x: Seq<u8>)
    ensures join(split(x)) == x, split(x).len() >= 1, forall|i: int| 0 <= i < split(x).len() ==> nodash(#[trigger] split(x)[i]),
    decreases x.len()
{
    l_seg_end(x, 0);
    let e = seg_end(x, 0);
    if e < x.len() {
        let y = x.skip(e + 1);
        l_split(y);
        let l = split(x);
        assert(l.drop_first() =~= split(y));
        assert(x =~= x.take(e) + seq![0x2du8] + y);
        assert forall|i: int| 0 <= i < l.len() implies nodash(#[trigger] l[i]) by { if i > 0 { assert(l[i] == split(y)[i - 1]); } }
    }
}
pub proof fn l_allseg_split(x: Seq<u8>, q: Q)
    ensures allseg(x, q) <==> forall|i: int| 0 <= i < split(x).len() ==> hq(q, #[trigger] split(x)[i]),
    decreases x.len()
{
    l_seg_end(x, 0);
    let e = seg_end(x, 0);
    let l = split(x);
    if e < x.len() {
        let y = x.skip(e + 1);
        l_allseg_split(y, q);
        assert(l.drop_first() =~= split(y));
        assert(l[0] == x.take(e));
        if allseg(x, q) { assert forall|i: int| 0 <= i < l.len() implies hq(q, #[trigger] l[i]) by { if i > 0 { assert(l[i] == split(y)[i - 1]); } } }
        if forall|i: int| 0 <= i < l.len() ==> hq(q, #[trigger] l[i]) {
            assert(hq(q, l[0]));
            assert forall|i: int| 0 <= i < split(y).len() implies hq(q, #[trigger] split(y)[i]) by { assert(split(y)[i] == l[i + 1]); }
        }
    } else { assert(l[0] == x); assert(x.take(e) =~= x); }
}
/// the scan of a subtag list: the end of the longest prefix, from off, of subtags passing p
pub open spec fn fle(s: Seq<u8>, off: int, end: int, p: P) -> int decreases s.len() - off + 1 {
    if off < 0 || off > s.len() { end } else {
        let e = seg_end(s, off);
        if e < off { end } else if holds(p, off, s.subrange(off, e)) { if e >= s.len() { s.len() as int } else { fle(s, e + 1, e, p) } } else { end }
    }
}
pub open spec fn list_end(s: Seq<u8>, off: int, p: P) -> int { fle(s, off, off, p) }
/// the closure f computes the test p
pub open spec fn obeys<F: Fn(usize, &str) -> bool>(f: F, p: P) -> bool {
    forall|o: usize, t: &str, b: bool| #[trigger] call_ensures(f, (o, t), b) ==> b == holds(p, o as int, sb(t))
}
/// scanning over a component whose subtags all pass
pub proof fn l_walk(s: Seq<u8>, a: int, b: int, end: int, p: P, q: Q)
    requires 0 <= a <= b <= s.len(), allseg(s.subrange(a, b), q), forall|o: int, t: Seq<u8>| o >= a && #[trigger] hq(q, t) ==> #[trigger] holds(p, o, t), b < s.len() ==> s[b] == 0x2d,
    ensures fle(s, a, end, p) == if b == s.len() { s.len() as int } else { fle(s, b + 1, b, p) },
    decreases b - a
{
    let x = s.subrange(a, b);
    let e = seg_end(x, 0);
    l_seg_end(x, 0);
    assert forall|k: int| a <= k < a + e implies #[trigger] s[k] != 0x2d by { assert(x[k - a] == s[k]); }
    if e < x.len() { assert(x[e] == s[a + e]); }
    l_seg_end_is(s, a, a + e);
    assert(s.subrange(a, a + e) =~= x.take(e));
    assert(hq(q, x.take(e)));
    assert(holds(p, a, s.subrange(a, a + e)));
    if e < x.len() {
        assert(x.skip(e + 1) =~= s.subrange(a + e + 1, b));
        l_walk(s, a + e + 1, b, a + e, p, q);
    }
}
/// the scan stops at once at a subtag that does not pass
pub proof fn l_stop(s: Seq<u8>, off: int, end: int, p: P)
    requires 0 <= off <= s.len(), !holds(p, off, s.subrange(off, seg_end(s, off))),
    ensures fle(s, off, end, p) == end,
{ l_seg_end(s, off); }

// ------------------------------------------------ lists in the grammar
/// a non-empty word of *( "-" r )
pub proof fn l_star_dashed(r: Re, y: Seq<u8>)
    requires matches(star(dashed(r)), y), y.len() > 0,
    ensures y[0] == 0x2d, matches(cat(r, star(dashed(r))), y.skip(1)),
{
    let i = choose|i: int| 0 < i <= y.len() && matches(dashed(r), #[trigger] y.subrange(0, i)) && matches(star(dashed(r)), y.subrange(i, y.len() as int));
    let z = y.subrange(0, i);
    let j = l_cat_split(dash(), r, z);
    assert(z.subrange(0, 1)[0] == y[0]);
    let w = y.skip(1);
    assert(z.subrange(1, z.len() as int) =~= w.subrange(0, i - 1));
    assert(y.subrange(i, y.len() as int) =~= w.subrange(i - 1, w.len() as int));
    l_cat(r, star(dashed(r)), w, i - 1);
}
pub proof fn l_star_dashed_intro(r: Re, y: Seq<u8>)
    requires y.len() > 0, y[0] == 0x2d, matches(cat(r, star(dashed(r))), y.skip(1)),
    ensures matches(star(dashed(r)), y),
{
    let w = y.skip(1);
    let i = l_cat_split(r, star(dashed(r)), w);
    let z = y.subrange(0, i + 1);
    assert(z.subrange(0, 1)[0] == y[0]);
    assert(z.subrange(1, z.len() as int) =~= w.subrange(0, i));
    l_cat(dash(), r, z, 1);
    assert(y.subrange(i + 1, y.len() as int) =~= w.subrange(i, w.len() as int));
}
/// r *( "-" r ) is the list of its subtags
pub proof fn l_list(r: Re, q: Q, x: Seq<u8>)
    requires forall|t: Seq<u8>| #[trigger] matches(r, t) <==> hq(q, t), !(q is Long),
    ensures matches(cat(r, star(dashed(r))), x) == allseg(x, q),
    decreases x.len()
{
    let n = x.len() as int;
    let e = seg_end(x, 0);
    l_seg_end(x, 0);
    let rs = star(dashed(r));
    if matches(cat(r, rs), x) {
        let i = l_cat_split(r, rs, x);
        let u = x.subrange(0, i);
        let y = x.subrange(i, n);
        l_hq(q, u);
        assert forall|k: int| 0 <= k < i implies #[trigger] x[k] != 0x2d by { assert(u[k] == x[k]); }
        if y.len() > 0 {
            l_star_dashed(r, y);
            assert(y[0] == x[i]);
            l_seg_end_is(x, 0, i);
            assert(y.skip(1) =~= x.skip(i + 1));
            l_list(r, q, x.skip(i + 1));
        } else { l_seg_end_is(x, 0, n); }
        assert(x.take(e) =~= u);
    }
    if allseg(x, q) {
        assert(x.take(e) =~= x.subrange(0, e));
        let y = x.subrange(e, n);
        if e < n {
            l_list(r, q, x.skip(e + 1));
            assert(y.skip(1) =~= x.skip(e + 1));
            assert(y[0] == x[e]);
            l_star_dashed_intro(r, y);
        }
        l_cat(r, rs, x, e);
    }
}
pub proof fn l_l_variants(x: Seq<u8>) ensures v_variants(x) <==> (x.len() == 0 || allseg(x, Q::Variant)) {
    reveal(v_variants); reveal(v_variant);
    l_list(variant(), Q::Variant, x);
    l_opt(cat(variant(), star(dashed(variant()))), x);
}
/// "r-subtags" lists as they follow a fixed head
pub proof fn l_l_plus(r: Re, q: Q, y: Seq<u8>)
    requires forall|t: Seq<u8>| #[trigger] matches(r, t) <==> hq(q, t), !(q is Long),
    ensures matches(plus(dashed(r)), y) <==> (y.len() > 0 && y[0] == 0x2d && allseg(y.skip(1), q)),
{
    let n = y.len() as int;
    let w = y.skip(1);
    l_list(r, q, w);
    if matches(plus(dashed(r)), y) {
        let i = l_cat_split(dashed(r), star(dashed(r)), y);
        let z = y.subrange(0, i);
        let j = l_cat_split(dash(), r, z);
        assert(j == 1);
        assert(z.subrange(0, 1)[0] == y[0]);
        assert(z.subrange(1, z.len() as int) =~= w.subrange(0, i - 1));
        assert(y.subrange(i, n) =~= w.subrange(i - 1, w.len() as int));
        l_cat(r, star(dashed(r)), w, i - 1);
    }
    if y.len() > 0 && y[0] == 0x2d && allseg(w, q) {
        let i = l_cat_split(r, star(dashed(r)), w);
        let z = y.subrange(0, i + 1);
        assert(z.subrange(0, 1)[0] == y[0]);
        assert(z.subrange(1, z.len() as int) =~= w.subrange(0, i));
        l_cat(dash(), r, z, 1);
        assert(y.subrange(i + 1, n) =~= w.subrange(i, w.len() as int));
        l_cat(dashed(r), star(dashed(r)), y, i + 1);
    }
}
pub open spec fn is_extension(x: Seq<u8>) -> bool { x.len() >= 2 && is_sing(x[0]) && x[1] == 0x2d && allseg(x.skip(2), Q::ExtSub) }
pub proof fn l_l_extension(x: Seq<u8>) ensures v_extension(x) == is_extension(x) {
    reveal(v_extension); reveal(v_extension_subtag);
    let n = x.len() as int;
    let r = plus(dashed(extension_subtag()));
    if matches(cat(cls(K::Sing), r), x) {
        let i = l_cat_split(cls(K::Sing), r, x);
        let y = x.subrange(1, n);
        l_l_plus(extension_subtag(), Q::ExtSub, y);
        assert(x.subrange(0, 1)[0] == x[0]); assert(y[0] == x[1]); assert(y.skip(1) =~= x.skip(2));
    }
    if is_extension(x) {
        let y = x.subrange(1, n);
        assert(y.skip(1) =~= x.skip(2)); assert(y[0] == x[1]);
        l_l_plus(extension_subtag(), Q::ExtSub, y);
        assert(x.subrange(0, 1)[0] == x[0]);
        l_cat(cls(K::Sing), r, x, 1);
    }
}
pub open spec fn is_privateuse(x: Seq<u8>) -> bool { x.len() >= 2 && lower(x[0]) == 0x78 && x[1] == 0x2d && allseg(x.skip(2), Q::PuSub) }
pub proof fn l_l_privateuse(x: Seq<u8>) ensures v_privateuse(x) == is_privateuse(x) {
    reveal(v_privateuse); reveal(v_privateuse_subtag);
    let n = x.len() as int;
    let r = plus(dashed(privateuse_subtag()));
    if matches(cat(lit_x(), r), x) {
        let i = l_cat_split(lit_x(), r, x);
        let y = x.subrange(1, n);
        l_l_plus(privateuse_subtag(), Q::PuSub, y);
        assert(x.subrange(0, 1)[0] == x[0]); assert(y[0] == x[1]); assert(y.skip(1) =~= x.skip(2));
    }
    if is_privateuse(x) {
        let y = x.subrange(1, n);
        assert(y.skip(1) =~= x.skip(2)); assert(y[0] == x[1]);
        l_l_plus(privateuse_subtag(), Q::PuSub, y);
        assert(x.subrange(0, 1)[0] == x[0]);
        l_cat(lit_x(), r, x, 1);
    }
}

// ------------------------------------------------ languages
proof fn l_cons_seg(x: Seq<u8>, q: Q, i: int)
    requires 0 <= i <= x.len(), !(q is Long), hq(q, x.take(i)), i == x.len() || (x[i] == 0x2d && allseg(x.skip(i + 1), q)),
    ensures allseg(x, q), seg_end(x, 0) == i,
{
    l_hq(q, x.take(i));
    assert forall|k: int| 0 <= k < i implies #[trigger] x[k] != 0x2d by { assert(x.take(i)[k] == x[k]); }
    l_seg_end_is(x, 0, i);
}
proof fn l_dashed(r: Re, y: Seq<u8>)
    ensures matches(dashed(r), y) == (y.len() > 0 && y[0] == 0x2d && matches(r, y.skip(1))),
{
    let n = y.len() as int;
    if matches(dashed(r), y) {
        let j = l_cat_split(dash(), r, y);
        assert(y.subrange(0, 1)[0] == y[0]);
        assert(y.subrange(1, n) =~= y.skip(1));
    }
    if y.len() > 0 && y[0] == 0x2d && matches(r, y.skip(1)) {
        assert(y.subrange(0, 1)[0] == y[0]);
        assert(y.subrange(1, n) =~= y.skip(1));
        l_cat(dash(), r, y, 1);
    }
}
pub proof fn l_l_extlang(x: Seq<u8>)
    requires v_extlang(x),
    ensures allseg(x, Q::Extlang), x.len() >= 3, split(x).len() <= 3,
{
    reveal(v_extlang); reveal(v_extlang_tag);
    let t = extlang_tag();
    let r2 = opt(dashed(t));
    let r1 = cat(dashed(t), r2);
    let n = x.len() as int;
    let i = l_cat_split(t, opt(r1), x);
    assert(x.subrange(0, i) =~= x.take(i));
    assert(hq(Q::Extlang, x.take(i)));
    l_hq(Q::Extlang, x.take(i));
    let y = x.subrange(i, n);
    l_opt(r1, y);
    if y.len() > 0 {
        let j = l_cat_split(dashed(t), r2, y);
        let z = y.subrange(0, j);
        l_dashed(t, z);
        assert(z[0] == x[i]);
        let u = x.skip(i + 1);
        assert(z.skip(1) =~= u.take(j - 1));
        assert(hq(Q::Extlang, u.take(j - 1)));
        l_hq(Q::Extlang, u.take(j - 1));
        let w = y.subrange(j, y.len() as int);
        l_opt(dashed(t), w);
        l_dashed(t, w);
        if w.len() > 0 {
            assert(w[0] == u[j - 1]);
            let v = u.skip(j);
            assert(w.skip(1) =~= v);
            assert(v.take(v.len() as int) =~= v);
            assert(hq(Q::Extlang, v));
            l_cons_seg(v, Q::Extlang, v.len() as int);
            assert(split(v).len() == 1);
        }
        l_cons_seg(u, Q::Extlang, j - 1);
        assert(split(u).len() <= 2);
    }
    l_cons_seg(x, Q::Extlang, i);
}
/// the structure of a language
pub open spec fn is_language(l: Seq<u8>) -> bool {
    let e = seg_end(l, 0);
    if e == l.len() { al(l, 2, 8) } else { al(l.take(e), 2, 3) && v_extlang(l.skip(e + 1)) }
}
pub proof fn l_l_language(l: Seq<u8>)
    ensures v_language(l) == is_language(l), v_language(l) ==> l.len() >= 2 && (seg_end(l, 0) < l.len() ==> allseg(l.skip(seg_end(l, 0) + 1), Q::Extlang)) && v_primary(l.take(seg_end(l, 0))),
{
    reveal(v_language); reveal(v_extlang);
    let n = l.len() as int;
    let e = seg_end(l, 0);
    l_seg_end(l, 0);
    let a = rep(K::Alpha, 2, 3);
    let b = opt(dashed(extlang()));
    l_rep(K::Alpha, 4, 4, l); l_rep(K::Alpha, 5, 8, l);
    assert(matches(language(), l) == (matches(cat(a, b), l) || (matches(rep(K::Alpha, 4, 4), l) || matches(rep(K::Alpha, 5, 8), l)))) by {
        assert(matches(alt(rep(K::Alpha, 4, 4), rep(K::Alpha, 5, 8)), l) == (matches(rep(K::Alpha, 4, 4), l) || matches(rep(K::Alpha, 5, 8), l)));
    }
    if matches(cat(a, b), l) {
        let i = l_cat_split(a, b, l);
        let u = l.subrange(0, i);
        l_rep(K::Alpha, 2, 3, u);
        let y = l.subrange(i, n);
        l_opt(dashed(extlang()), y);
        l_dashed(extlang(), y);
        assert forall|k: int| 0 <= k < i implies #[trigger] l[k] != 0x2d && is_alpha(l[k]) by { assert(u[k] == l[k]); assert(ink(K::Alpha, u[k])); }
        if y.len() > 0 {
            assert(y[0] == l[i]);
            l_seg_end_is(l, 0, i);
            assert(y.skip(1) =~= l.skip(e + 1));
        } else { l_seg_end_is(l, 0, n); }
        assert(l.take(e) =~= u);
        assert forall|k: int| 0 <= k < u.len() implies is_alpha(#[trigger] u[k]) by { assert(ink(K::Alpha, u[k])); }
        assert(is_language(l));
    }
    if matches(rep(K::Alpha, 4, 4), l) || matches(rep(K::Alpha, 5, 8), l) {
        assert forall|k: int| 0 <= k < n implies #[trigger] l[k] != 0x2d && is_alpha(l[k]) by { assert(ink(K::Alpha, l[k])); }
        l_seg_end_is(l, 0, n);
    }
    if is_language(l) {
        if e == n && n > 3 {
            assert forall|k: int| 0 <= k < n implies ink(K::Alpha, #[trigger] l[k]) by { assert(is_alpha(l[k])); }
        } else {
            let u = l.subrange(0, e);
            assert(l.take(e) =~= u);
            assert(e == n ==> l =~= u);
            assert forall|k: int| 0 <= k < u.len() implies ink(K::Alpha, #[trigger] u[k]) by { assert(is_alpha(u[k])); }
            l_rep(K::Alpha, 2, 3, u);
            let y = l.subrange(e, n);
            l_opt(dashed(extlang()), y);
            l_dashed(extlang(), y);
            if e < n { assert(y[0] == l[e]); assert(y.skip(1) =~= l.skip(e + 1)); }
            l_cat(a, b, l, e);
        }
    }
    if v_language(l) {
        if e < n { l_l_extlang(l.skip(e + 1)); }
        l_k_primary(l.take(e));
        if e == n { assert(l.take(e) =~= l); }
    }
}
// ------------------------------------------------ extensions
pub proof fn l_allseg_mono(x: Seq<u8>, q: Q, q2: Q)
    requires allseg(x, q), forall|t: Seq<u8>| #[trigger] hq(q, t) ==> hq(q2, t),
    ensures allseg(x, q2),
    decreases x.len()
{
    l_seg_end(x, 0);
    let e = seg_end(x, 0);
    if e < x.len() { l_allseg_mono(x.skip(e + 1), q, q2); }
}
pub proof fn l_allseg_join(u: Seq<u8>, v: Seq<u8>, q: Q)
    requires allseg(u, q), allseg(v, q),
    ensures allseg(u + seq![0x2du8] + v, q),
    decreases u.len()
{
    let x = u + seq![0x2du8] + v;
    l_seg_end(u, 0);
    let e = seg_end(u, 0);
    assert forall|k: int| 0 <= k < e implies #[trigger] x[k] != 0x2d by { assert(u[k] == x[k]); }
    assert(x[e] == 0x2d);
    l_seg_end_is(x, 0, e);
    assert(x.take(e) =~= u.take(e));
    if e < u.len() {
        l_allseg_join(u.skip(e + 1), v, q);
        assert(x.skip(e + 1) =~= u.skip(e + 1) + seq![0x2du8] + v);
    } else { assert(x.skip(e + 1) =~= v); }
}
/// first segment of s at a, when a component of s starts there
pub proof fn l_head(s: Seq<u8>, a: int, b: int)
    requires 0 <= a <= b <= s.len(), b < s.len() ==> s[b] == 0x2d,
    ensures seg_end(s, a) == a + seg_end(s.subrange(a, b), 0), s.subrange(a, seg_end(s, a)) == s.subrange(a, b).take(seg_end(s.subrange(a, b), 0)),
        0 <= seg_end(s.subrange(a, b), 0) <= b - a,
{
    let x = s.subrange(a, b);
    let e = seg_end(x, 0);
    l_seg_end(x, 0);
    assert forall|k: int| a <= k < a + e implies #[trigger] s[k] != 0x2d by { assert(x[k - a] == s[k]); }
    if e < x.len() { assert(x[e] == s[a + e]); }
    l_seg_end_is(s, a, a + e);
    assert(s.subrange(a, a + e) =~= x.take(e));
}
/// end of the first extension of a non-empty list
pub open spec fn ext_end(x: Seq<u8>) -> int { list_end(x, 2, P::All(Q::ExtSub)) }
pub proof fn l_ext_head(x: Seq<u8>)
    requires v_extensions(x), x.len() > 0,
    ensures ({ let e = ext_end(x); 3 < e <= x.len() && v_extension(x.take(e)) && is_extension(x.take(e)) && (e < x.len() ==> x[e] == 0x2d && v_extensions(x.skip(e + 1)) && x.skip(e + 1).len() > 0) }),
{
    reveal(v_extensions);
    let r = extension();
    let n = x.len() as int;
    l_opt(cat(r, star(dashed(r))), x);
    let i = l_cat_split(r, star(dashed(r)), x);
    let u = x.subrange(0, i);
    assert(v_extension(u)) by { reveal(v_extension); }
    l_l_extension(u);
    let y = x.subrange(i, n);
    assert(u =~= x.take(i));
    assert(u.skip(2) =~= x.subrange(2, i));
    l_seg_end(u.skip(2), 0);
    l_hq(Q::ExtSub, u.skip(2).take(seg_end(u.skip(2), 0)));
    if y.len() > 0 {
        l_star_dashed(r, y);
        assert(y[0] == x[i]);
        assert(y.skip(1) =~= x.skip(i + 1));
        let z = x.skip(i + 1);
        l_opt(cat(r, star(dashed(r))), z);
        let j = l_cat_split(r, star(dashed(r)), z);
        let w = z.subrange(0, j);
        assert(v_extension(w)) by { reveal(v_extension); }
        l_l_extension(w);
        assert(z[0] == w[0] && z[1] == w[1]);
        assert(x[i + 1] == z[0] && x[i + 2] == z[1]);
        l_seg_end_is(x, i + 1, i + 2);
        let t = x.subrange(i + 1, i + 2);
        l_hq(Q::ExtSub, t);
        l_stop(x, i + 1, i, P::All(Q::ExtSub));
    }
    l_walk(x, 2, i, 2, P::All(Q::ExtSub), Q::ExtSub);
}
/// the extensions of a list, in order
pub open spec fn exts(x: Seq<u8>) -> Seq<Seq<u8>> decreases x.len() {
    if x.len() == 0 { Seq::empty() } else {
        let e = ext_end(x);
        if e < 0 || e >= x.len() { seq![x] } else { seq![x.take(e)] + exts(x.skip(e + 1)) }
    }
}
pub proof fn l_exts(x: Seq<u8>)
    requires v_extensions(x),
    ensures x.len() > 0 ==> join(exts(x)) == x, x.len() == 0 <==> exts(x).len() == 0, forall|i: int| 0 <= i < exts(x).len() ==> v_extension(#[trigger] exts(x)[i]),
    decreases x.len()
{
    if x.len() > 0 {
        l_ext_head(x);
        let e = ext_end(x);
        if e < x.len() {
            let y = x.skip(e + 1);
            l_exts(y);
            let l = exts(x);
            assert(l.drop_first() =~= exts(y));
            assert(x =~= x.take(e) + seq![0x2du8] + y);
            assert forall|i: int| 0 <= i < l.len() implies v_extension(#[trigger] l[i]) by { if i > 0 { assert(l[i] == exts(y)[i - 1]); } }
        } else { assert(x.take(e) =~= x); }
    }
}
proof fn l_single_seg(t: Seq<u8>)
    requires is_single(t),
    ensures allseg(t, Q::SingSub),
{ l_seg_end_is(t, 0, 1); assert(t.take(1) =~= t); }
proof fn l_ext_allseg(x: Seq<u8>)
    requires is_extension(x),
    ensures allseg(x, Q::SingSub),
{
    l_allseg_mono(x.skip(2), Q::ExtSub, Q::SingSub);
    let t = x.take(1);
    assert(t[0] == x[0]);
    l_single_seg(t);
    l_allseg_join(t, x.skip(2), Q::SingSub);
    assert(x =~= t + seq![0x2du8] + x.skip(2));
}
pub proof fn l_exts_allseg(x: Seq<u8>)
    requires v_extensions(x), x.len() > 0,
    ensures allseg(x, Q::SingSub), x.len() >= 4, is_sing(x[0]), x[1] == 0x2d,
    decreases x.len()
{
    l_ext_head(x);
    let e = ext_end(x);
    let u = x.take(e);
    l_ext_allseg(u);
    assert(u[0] == x[0] && u[1] == x[1]);
    if e < x.len() {
        let y = x.skip(e + 1);
        l_exts_allseg(y);
        l_allseg_join(u, y, Q::SingSub);
        assert(x =~= u + seq![0x2du8] + y);
    } else { assert(u =~= x); }
}
// ------------------------------------------------ langtag
/// the components of a normal language tag; an absent one is empty
pub ghost struct Parts { pub l: Seq<u8>, pub sc: Seq<u8>, pub rg: Seq<u8>, pub va: Seq<u8>, pub ex: Seq<u8>, pub pu: Seq<u8> }
/// a component with the '-' before it
pub open spec fn pre(x: Seq<u8>) -> Seq<u8> { if x.len() == 0 { Seq::empty() } else { seq![0x2du8] + x } }
#[verifier::opaque] pub open spec fn text(d: Parts) -> Seq<u8> { d.l + (pre(d.sc) + (pre(d.rg) + (pre(d.va) + (pre(d.ex) + pre(d.pu))))) }
/// d is a decomposition of s along the grammar: every component is well-formed and they spell s
pub open spec fn is_decomp(d: Parts, s: Seq<u8>) -> bool {
    &&& v_language(d.l)
    &&& d.sc.len() == 0 || v_script(d.sc)
    &&& d.rg.len() == 0 || v_region(d.rg)
    &&& v_variants(d.va)
    &&& v_extensions(d.ex)
    &&& d.pu.len() == 0 || v_privateuse(d.pu)
    &&& s == text(d)
}
/// the decomposition of a normal language tag (unique, see l_dec_unique)
pub open spec fn dec(s: Seq<u8>) -> Parts { choose|d: Parts| is_decomp(d, s) }

proof fn l_opt_part(r: Re, y: Seq<u8>) -> (x: Seq<u8>)
    requires matches(opt(dashed(r)), y), forall|t: Seq<u8>| #[trigger] matches(r, t) ==> t.len() > 0,
    ensures y == pre(x), x.len() == 0 || matches(r, x),
{
    l_opt(dashed(r), y);
    l_dashed(r, y);
    if y.len() == 0 { assert(y =~= pre(Seq::empty())); Seq::empty() } else { assert(y =~= pre(y.skip(1))); y.skip(1) }
}
proof fn l_star_part(r: Re, y: Seq<u8>) -> (x: Seq<u8>)
    requires matches(star(dashed(r)), y), forall|t: Seq<u8>| #[trigger] matches(r, t) ==> t.len() > 0,
    ensures y == pre(x), matches(opt(cat(r, star(dashed(r)))), x),
{
    if y.len() == 0 { l_opt(cat(r, star(dashed(r))), y); assert(y =~= pre(y)); y } else {
        l_star_dashed(r, y);
        let x = y.skip(1);
        l_opt(cat(r, star(dashed(r))), x);
        let i = l_cat_split(r, star(dashed(r)), x);
        assert(y =~= pre(x));
        x
    }
}
pub proof fn l_langtag_decomp(s: Seq<u8>)
    requires v_langtag(s),
    ensures is_decomp(dec(s), s),
{
    reveal(v_langtag);
    let n = s.len() as int;
    let r5 = opt(dashed(privateuse()));
    let r4 = cat(star(dashed(extension())), r5);
    let r3 = cat(star(dashed(variant())), r4);
    let r2 = cat(opt(dashed(region())), r3);
    let r1 = cat(opt(dashed(script())), r2);
    let i1 = l_cat_split(language(), r1, s);
    let l = s.subrange(0, i1); let y1 = s.subrange(i1, n);
    let i2 = l_cat_split(opt(dashed(script())), r2, y1);
    let a = y1.subrange(0, i2); let y2 = y1.subrange(i2, y1.len() as int);
    let i3 = l_cat_split(opt(dashed(region())), r3, y2);
    let b = y2.subrange(0, i3); let y3 = y2.subrange(i3, y2.len() as int);
    let i4 = l_cat_split(star(dashed(variant())), r4, y3);
    let c = y3.subrange(0, i4); let y4 = y3.subrange(i4, y3.len() as int);
    let i5 = l_cat_split(star(dashed(extension())), r5, y4);
    let f = y4.subrange(0, i5); let g = y4.subrange(i5, y4.len() as int);
    assert forall|t: Seq<u8>| #[trigger] matches(script(), t) implies t.len() > 0 by { reveal(v_script); l_k_script(t); assert(v_script(t)); }
    assert forall|t: Seq<u8>| #[trigger] matches(region(), t) implies t.len() > 0 by { reveal(v_region); l_k_region(t); assert(v_region(t)); }
    assert forall|t: Seq<u8>| #[trigger] matches(variant(), t) implies t.len() > 0 by { reveal(v_variant); l_k_variant(t); assert(v_variant(t)); }
    assert forall|t: Seq<u8>| #[trigger] matches(extension(), t) implies t.len() > 0 by { reveal(v_extension); l_l_extension(t); assert(v_extension(t)); }
    assert forall|t: Seq<u8>| #[trigger] matches(privateuse(), t) implies t.len() > 0 by { reveal(v_privateuse); l_l_privateuse(t); assert(v_privateuse(t)); }
    let sc = l_opt_part(script(), a);
    let rg = l_opt_part(region(), b);
    let va = l_star_part(variant(), c);
    let ex = l_star_part(extension(), f);
    let pu = l_opt_part(privateuse(), g);
    let d = Parts { l, sc, rg, va, ex, pu };
    assert(v_language(l)) by { reveal(v_language); }
    assert(sc.len() == 0 || v_script(sc)) by { reveal(v_script); }
    assert(rg.len() == 0 || v_region(rg)) by { reveal(v_region); }
    assert(v_variants(va)) by { reveal(v_variants); }
    assert(v_extensions(ex)) by { reveal(v_extensions); }
    assert(pu.len() == 0 || v_privateuse(pu)) by { reveal(v_privateuse); }
    reveal(text);
    assert(s =~= text(d));
    assert(is_decomp(d, s));
}
/// ends of the components
pub open spec fn e1(d: Parts) -> int { d.l.len() as int }
pub open spec fn e2(d: Parts) -> int { e1(d) + pre(d.sc).len() }
pub open spec fn e3(d: Parts) -> int { e2(d) + pre(d.rg).len() }
pub open spec fn e4(d: Parts) -> int { e3(d) + pre(d.va).len() }
pub open spec fn e5(d: Parts) -> int { e4(d) + pre(d.ex).len() }

pub open spec fn at(s: Seq<u8>, a: int, x: Seq<u8>) -> bool {
    x.len() > 0 ==> s[a] == 0x2d && a + 1 + x.len() <= s.len() && s.subrange(a + 1, a + 1 + x.len()) == x
}
proof fn l_peel(s: Seq<u8>, a: int, x: Seq<u8>, r: Seq<u8>)
    requires 0 <= a <= s.len(), s.skip(a) == pre(x) + r,
    ensures at(s, a, x), a + pre(x).len() <= s.len(), s.skip(a + pre(x).len()) == r, s.len() == a + pre(x).len() + r.len(),
        (r.len() > 0 ==> r[0] == 0x2d) && a < s.len() ==> s[a] == 0x2d,
{
    let y = s.skip(a);
    assert(y.len() == pre(x).len() + r.len());
    assert(s.skip(a + pre(x).len()) =~= r) by { assert forall|i: int| 0 <= i < r.len() implies s.skip(a + pre(x).len())[i] == #[trigger] r[i] by { assert(y[i + pre(x).len()] == r[i]); } }
    if x.len() > 0 {
        assert(y[0] == 0x2d);
        assert forall|i: int| 0 <= i < x.len() implies s.subrange(a + 1, a + 1 + x.len())[i] == #[trigger] x[i] by { assert(y[i + 1] == x[i]); }
        assert(s.subrange(a + 1, a + 1 + x.len()) =~= x);
    } else if r.len() > 0 { assert(y[0] == r[0]); }
}
/// where each component lies in s
pub proof fn l_offsets(d: Parts, s: Seq<u8>)
    requires is_decomp(d, s),
    ensures s.take(e1(d)) == d.l, at(s, e1(d), d.sc), at(s, e2(d), d.rg), at(s, e3(d), d.va), at(s, e4(d), d.ex), at(s, e5(d), d.pu),
        s.len() == e5(d) + pre(d.pu).len(), 2 <= e1(d) <= e2(d) <= e3(d) <= e4(d) <= e5(d) <= s.len(),
        d.pu.len() > 0 ==> s.skip(e5(d) + 1) == d.pu,
        e1(d) < s.len() ==> s[e1(d)] == 0x2d, e2(d) < s.len() ==> s[e2(d)] == 0x2d, e3(d) < s.len() ==> s[e3(d)] == 0x2d, e4(d) < s.len() ==> s[e4(d)] == 0x2d, e5(d) < s.len() ==> s[e5(d)] == 0x2d,
{
    reveal(text);
    l_l_language(d.l);
    let t5 = pre(d.pu); let t4 = pre(d.ex) + t5; let t3 = pre(d.va) + t4; let t2 = pre(d.rg) + t3; let t1 = pre(d.sc) + t2;
    assert(s.take(e1(d)) =~= d.l);
    assert(s.skip(e1(d)) =~= t1);
    l_peel(s, e1(d), d.sc, t2);
    l_peel(s, e2(d), d.rg, t3);
    l_peel(s, e3(d), d.va, t4);
    l_peel(s, e4(d), d.ex, t5);
    assert(t5 =~= pre(d.pu) + Seq::empty());
    l_peel(s, e5(d), d.pu, Seq::empty());
    if d.pu.len() > 0 { assert(s.skip(e5(d) + 1) =~= s.subrange(e5(d) + 1, e5(d) + 1 + d.pu.len())); }
}
/// what the first subtag of a component can be
#[verifier::opaque] pub open spec fn rank(t: Seq<u8>) -> int {
    if al(t, 4, 4) { 1 } else if al(t, 2, 2) || dg(t, 3, 3) { 2 } else if an(t, 5, 8) || (an(t, 4, 4) && is_digit(t[0])) { 3 } else if is_single(t) { 4 } else if t.len() == 1 { 5 } else { 0 }
}
spec fn seg_at(s: Seq<u8>, off: int) -> Seq<u8> { s.subrange(off, seg_end(s, off)) }
/// a component x at a+1 starts with a subtag of rank k
proof fn l_rank(s: Seq<u8>, a: int, x: Seq<u8>)
    requires 0 <= a < s.len(), x.len() > 0, at(s, a, x), a + 1 + x.len() < s.len() ==> s[a + 1 + x.len()] == 0x2d,
    ensures
        v_script(x) ==> rank(seg_at(s, a + 1)) == 1, v_region(x) ==> rank(seg_at(s, a + 1)) == 2, v_variants(x) ==> rank(seg_at(s, a + 1)) == 3,
        v_extensions(x) ==> rank(seg_at(s, a + 1)) == 4, v_privateuse(x) ==> rank(seg_at(s, a + 1)) == 5,
        v_script(x) || v_region(x) ==> seg_end(s, a + 1) == a + 1 + x.len(),
{
    reveal(rank);
    l_head(s, a + 1, a + 1 + x.len());
    let e = seg_end(x, 0);
    let t = x.take(e);
    if v_script(x) { l_k_script(x); l_hq(Q::Script, x); l_seg_end_is(x, 0, x.len() as int); assert(t =~= x); }
    if v_region(x) { l_k_region(x); l_hq(Q::Region, x); l_seg_end_is(x, 0, x.len() as int); assert(t =~= x); if dg(x, 3, 3) { assert(is_digit(x[0])); } }
    if v_variants(x) { l_l_variants(x); l_hq(Q::Variant, t); if al(t, 4, 4) { assert(is_alpha(t[0])); } }
    if v_extensions(x) { l_exts_allseg(x); l_seg_end_is(x, 0, 1); assert(t[0] == x[0]); assert(is_single(t)); }
    if v_privateuse(x) { l_l_privateuse(x); assert(x[0] != 0x2d); l_seg_end_is(x, 0, 1); assert(t[0] == x[0]); assert(!is_single(t)); }
}
proof fn l_rank_hq(t: Seq<u8>)
    ensures
        rank(t) >= 1 ==> !hq(Q::Extlang, t), rank(t) >= 2 ==> !hq(Q::Script, t), rank(t) >= 3 ==> !hq(Q::Region, t), rank(t) >= 4 ==> !hq(Q::Variant, t), rank(t) >= 5 ==> !hq(Q::SingSub, t),
{
    reveal(rank);
    l_hq(Q::Extlang, t);
    if al(t, 3, 3) { assert(is_alpha(t[0])); if dg(t, 3, 3) { assert(is_digit(t[0])); } }
}
/// after the end of component number k, the next subtag belongs to a later one
proof fn l_next(d: Parts, s: Seq<u8>)
    requires is_decomp(d, s),
    ensures
        e1(d) < s.len() ==> rank(seg_at(s, e1(d) + 1)) >= 1, e2(d) < s.len() ==> rank(seg_at(s, e2(d) + 1)) >= 2, e3(d) < s.len() ==> rank(seg_at(s, e3(d) + 1)) >= 3,
        e4(d) < s.len() ==> rank(seg_at(s, e4(d) + 1)) >= 4, e5(d) < s.len() ==> rank(seg_at(s, e5(d) + 1)) >= 5,
        d.sc.len() > 0 ==> seg_end(s, e1(d) + 1) == e2(d), d.rg.len() > 0 ==> seg_end(s, e2(d) + 1) == e3(d),
{
    l_offsets(d, s);
    let n = s.len() as int;
    if d.pu.len() > 0 { l_rank(s, e5(d), d.pu); }
    assert(e5(d) < n ==> rank(seg_at(s, e5(d) + 1)) >= 5);
    if d.ex.len() > 0 { assert(e4(d) + 1 + d.ex.len() == e5(d)); l_rank(s, e4(d), d.ex); } else { assert(e4(d) == e5(d)); }
    assert(e4(d) < n ==> rank(seg_at(s, e4(d) + 1)) >= 4);
    if d.va.len() > 0 { assert(e3(d) + 1 + d.va.len() == e4(d)); l_rank(s, e3(d), d.va); } else { assert(e3(d) == e4(d)); }
    assert(e3(d) < n ==> rank(seg_at(s, e3(d) + 1)) >= 3);
    if d.rg.len() > 0 { assert(e2(d) + 1 + d.rg.len() == e3(d)); l_rank(s, e2(d), d.rg); } else { assert(e2(d) == e3(d)); }
    assert(e2(d) < n ==> rank(seg_at(s, e2(d) + 1)) >= 2);
    if d.sc.len() > 0 { assert(e1(d) + 1 + d.sc.len() == e2(d)); l_rank(s, e1(d), d.sc); } else { assert(e1(d) == e2(d)); }
}
pub proof fn l_end_language(d: Parts, s: Seq<u8>)
    requires is_decomp(d, s),
    ensures list_end(s, 0, P::First(Q::Extlang)) == e1(d),
{
    let p = P::First(Q::Extlang);
    l_offsets(d, s); l_next(d, s);
    l_l_language(d.l);
    assert(s.subrange(0, e1(d)) =~= d.l);
    l_head(s, 0, e1(d));
    let e = seg_end(s, 0);
    if e1(d) < s.len() { l_rank_hq(seg_at(s, e1(d) + 1)); l_stop(s, e1(d) + 1, e1(d), p); }
    if e < e1(d) {
        assert(s.subrange(e + 1, e1(d)) =~= d.l.skip(e + 1));
        l_walk(s, e + 1, e1(d), e, p, Q::Extlang);
    }
}
proof fn l_end_one(s: Seq<u8>, a: int, b: int, q: Q)
    requires 0 <= a <= b <= s.len(), a == s.len() || s[a] == 0x2d, b == s.len() || s[b] == 0x2d, !(q is Long),
        a < b ==> hq(q, s.subrange(a + 1, b)),
        a == b && a < s.len() ==> !hq(q, seg_at(s, a + 1)),
    ensures list_end(s, a + 1, P::At(a + 1, q)) == if a < b { b } else { a + 1 },
{
    let p = P::At(a + 1, q);
    if a < b {
        let x = s.subrange(a + 1, b);
        l_hq(q, x);
        l_head(s, a + 1, b);
        l_seg_end_is(x, 0, x.len() as int);
        assert(x.take(x.len() as int) =~= x);
        if b < s.len() { l_seg_end(s, b + 1); l_stop(s, b + 1, b, p); }
    } else if a < s.len() { l_stop(s, a + 1, a + 1, p); }
}
proof fn l_end_all(s: Seq<u8>, a: int, b: int, q: Q)
    requires 0 <= a <= b <= s.len(), a == s.len() || s[a] == 0x2d, b == s.len() || s[b] == 0x2d,
        a < b ==> allseg(s.subrange(a + 1, b), q),
        b < s.len() ==> !hq(q, seg_at(s, b + 1)),
    ensures list_end(s, a + 1, P::All(q)) == if a < b { b } else { a + 1 },
{
    let p = P::All(q);
    if a < b {
        l_walk(s, a + 1, b, a + 1, p, q);
        if b < s.len() { l_stop(s, b + 1, b, p); }
    } else if a < s.len() { l_stop(s, a + 1, a + 1, p); }
}
pub proof fn l_end_script(d: Parts, s: Seq<u8>)
    requires is_decomp(d, s),
    ensures list_end(s, e1(d) + 1, P::At(e1(d) + 1, Q::Script)) == if d.sc.len() > 0 { e2(d) } else { e1(d) + 1 },
{
    l_offsets(d, s); l_next(d, s);
    if e1(d) < s.len() { l_rank_hq(seg_at(s, e1(d) + 1)); }
    l_end_one(s, e1(d), e2(d), Q::Script);
}
pub proof fn l_end_region(d: Parts, s: Seq<u8>)
    requires is_decomp(d, s),
    ensures list_end(s, e2(d) + 1, P::At(e2(d) + 1, Q::Region)) == if d.rg.len() > 0 { e3(d) } else { e2(d) + 1 },
{
    l_offsets(d, s); l_next(d, s);
    if e2(d) < s.len() { l_rank_hq(seg_at(s, e2(d) + 1)); }
    l_end_one(s, e2(d), e3(d), Q::Region);
}
pub proof fn l_end_variants(d: Parts, s: Seq<u8>)
    requires is_decomp(d, s),
    ensures list_end(s, e3(d) + 1, P::All(Q::Variant)) == if d.va.len() > 0 { e4(d) } else { e3(d) + 1 },
{
    l_offsets(d, s); l_next(d, s);
    if e4(d) < s.len() { l_rank_hq(seg_at(s, e4(d) + 1)); }
    l_l_variants(d.va);
    l_end_all(s, e3(d), e4(d), Q::Variant);
}
pub proof fn l_end_extensions(d: Parts, s: Seq<u8>)
    requires is_decomp(d, s),
    ensures list_end(s, e4(d) + 1, P::All(Q::SingSub)) == if d.ex.len() > 0 { e5(d) } else { e4(d) + 1 },
{
    l_offsets(d, s); l_next(d, s);
    if e5(d) < s.len() { l_rank_hq(seg_at(s, e5(d) + 1)); }
    if d.ex.len() > 0 { l_exts_allseg(d.ex); }
    l_end_all(s, e4(d), e5(d), Q::SingSub);
}
/// a normal language tag has one decomposition
pub proof fn l_dec_unique(d: Parts, s: Seq<u8>)
    requires is_decomp(d, s),
    ensures d == dec(s), is_decomp(dec(s), s),
{
    let c = dec(s);
    l_offsets(d, s); l_offsets(c, s);
    l_end_language(d, s); l_end_language(c, s);
    assert(d.l =~= c.l);
    l_end_script(d, s); l_end_script(c, s);
    assert(d.sc =~= c.sc);
    l_end_region(d, s); l_end_region(c, s);
    assert(d.rg =~= c.rg);
    l_end_variants(d, s); l_end_variants(c, s);
    assert(d.va =~= c.va);
    l_end_extensions(d, s); l_end_extensions(c, s);
    assert(d.ex =~= c.ex);
    assert(d.pu =~= c.pu);
}

/// everything the accessors of a normal language tag rest on
pub proof fn l_tag(s: Seq<u8>)
    requires v_langtag(s),
    ensures is_decomp(dec(s), s), ascii(s), valid_utf8(s), ({ let d = dec(s);
        &&& 2 <= e1(d) <= e2(d) <= e3(d) <= e4(d) <= e5(d) <= s.len()
        &&& d.sc.len() == 0 ==> e2(d) == e1(d)
        &&& d.rg.len() == 0 ==> e3(d) == e2(d)
        &&& d.va.len() == 0 ==> e4(d) == e3(d)
        &&& d.ex.len() == 0 ==> e5(d) == e4(d)
        &&& (d.pu.len() == 0 <==> e5(d) == s.len())
        &&& s.take(e1(d)) == d.l && s.subrange(0, e1(d)) == d.l
        &&& d.sc.len() > 0 ==> e1(d) + 1 < e2(d) && s.subrange(e1(d) + 1, e2(d)) == d.sc
        &&& d.rg.len() > 0 ==> e2(d) + 1 < e3(d) && s.subrange(e2(d) + 1, e3(d)) == d.rg
        &&& d.va.len() > 0 ==> e3(d) + 1 < e4(d) && s.subrange(e3(d) + 1, e4(d)) == d.va
        &&& d.ex.len() > 0 ==> e4(d) + 1 < e5(d) && s.subrange(e4(d) + 1, e5(d)) == d.ex
        &&& d.pu.len() > 0 ==> e5(d) + 1 < s.len() && s.subrange(e5(d) + 1, s.len() as int) == d.pu && s.skip(e5(d) + 1) == d.pu
        &&& list_end(s, 0, P::First(Q::Extlang)) == e1(d)
        &&& list_end(s, e1(d) + 1, P::At(e1(d) + 1, Q::Script)) == if d.sc.len() > 0 { e2(d) } else { e1(d) + 1 }
        &&& list_end(s, e2(d) + 1, P::At(e2(d) + 1, Q::Region)) == if d.rg.len() > 0 { e3(d) } else { e2(d) + 1 }
        &&& list_end(s, e3(d) + 1, P::All(Q::Variant)) == if d.va.len() > 0 { e4(d) } else { e3(d) + 1 }
        &&& list_end(s, e4(d) + 1, P::All(Q::SingSub)) == if d.ex.len() > 0 { e5(d) } else { e4(d) + 1 }
    }),
{
    l_langtag_decomp(s);
    let d = dec(s);
    l_offsets(d, s); l_end_language(d, s); l_end_script(d, s); l_end_region(d, s); l_end_variants(d, s); l_end_extensions(d, s);
    l_ascii_langtag();
    assert(s.take(e1(d)) =~= s.subrange(0, e1(d)));
    if d.pu.len() > 0 { l_l_privateuse(d.pu); }
}

// ------------------------------------------------ iterators
/// the subtags an iterator over x[o..e] has left
pub open spec fn rest(x: Seq<u8>, o: int, e: int) -> Seq<Seq<u8>> { if 0 <= o < e <= x.len() { split(x.subrange(o, e)) } else { Seq::empty() } }
pub open spec fn it_inv(x: Seq<u8>, o: int, e: int, q: Q) -> bool {
    ascii(x) && 0 <= o && (o < e ==> e <= x.len() && allseg(x.subrange(o, e), q) && (e == x.len() || x[e] == 0x2d) && (o == 0 || x[o - 1] == 0x2d))
}
/// the text of each remaining item is one subtag: next() takes the first
pub proof fn l_it_next(x: Seq<u8>, o: int, e: int, q: Q)
    requires it_inv(x, o, e, q), o < e, !(q is Long),
    ensures ({ let f = seg_end(x, o); o < f <= e && rest(x, o, e) == seq![x.subrange(o, f)] + rest(x, f + 1, e) && rest(x, o, e).drop_first() == rest(x, f + 1, e)
        && hq(q, x.subrange(o, f)) && it_inv(x, f + 1, e, q) && ascii(x.subrange(o, f)) && rest(x, o, e)[0] == x.subrange(o, f) }),
{
    let y = x.subrange(o, e);
    l_head(x, o, e);
    l_seg_end(x, o); l_seg_end(y, 0);
    let f = seg_end(x, o); let g = seg_end(y, 0);
    l_hq(q, y.take(g));
    assert(y.take(g) =~= x.subrange(o, f));
    if g < y.len() {
        let z = y.skip(g + 1);
        assert(z =~= x.subrange(f + 1, e));
        l_split(y); l_split(z); l_allseg_split(y, q); l_allseg_split(z, q);
        l_seg_end(z, 0); l_hq(q, z.take(seg_end(z, 0)));
        assert(z.len() > 0);
    }
    assert(rest(x, o, e).drop_first() =~= rest(x, f + 1, e));
}
/// the last subtag of x
pub proof fn l_split_last(x: Seq<u8>)
    ensures ({ let b = seg_start(x, x.len() as int); 0 <= b <= x.len() && split(x) == (if b > 0 { split(x.take(b - 1)) } else { Seq::empty() }).push(x.skip(b)) }),
    decreases x.len()
{
    let n = x.len() as int;
    l_seg_end(x, 0);
    let e = seg_end(x, 0);
    if e < n {
        let y = x.skip(e + 1);
        l_split_last(y);
        l_seg_start(y, y.len() as int);
        let c = seg_start(y, y.len() as int);
        if c > 0 { assert(y[c - 1] == x[e + c]); }
        assert forall|k: int| e + 1 + c <= k < n implies #[trigger] x[k] != 0x2d by { assert(y[k - e - 1] == x[k]); }
        l_seg_start_is(x, e + 1 + c, n);
        assert(y.skip(c) =~= x.skip(e + 1 + c));
        let z = x.take(e + c);
        if c > 0 {
            assert(z.take(e) =~= x.take(e));
            assert(z[e] == x[e]);
            l_seg_end_is(z, 0, e);
            assert(z.skip(e + 1) =~= y.take(c - 1));
            assert(split(z) =~= seq![x.take(e)] + split(y.take(c - 1)));
        } else {
            l_seg_end_is(z, 0, z.len() as int);
            assert(z =~= x.take(e));
            assert(split(z) =~= seq![x.take(e)]);
        }
        assert(split(x) =~= split(z).push(x.skip(e + 1 + c)));
    } else {
        l_seg_start_is(x, 0, n);
        assert(x.skip(0) =~= x);
        assert(split(x) =~= Seq::empty().push(x));
    }
}
/// next_back() takes the last
pub proof fn l_it_back(x: Seq<u8>, o: int, e: int, q: Q)
    requires it_inv(x, o, e, q), o < e, !(q is Long),
    ensures ({ let b = seg_start(x, e); let f = if b > 0 { b - 1 } else { 0 }; o <= b < e && rest(x, o, e) == rest(x, o, f).push(x.subrange(b, e))
        && rest(x, o, e).drop_last() == rest(x, o, f) && rest(x, o, e).last() == x.subrange(b, e)
        && hq(q, x.subrange(b, e)) && it_inv(x, o, f, q) && ascii(x.subrange(b, e)) }),
{
    let y = x.subrange(o, e);
    l_split_last(y); l_split(y); l_allseg_split(y, q);
    l_seg_start(y, y.len() as int);
    let c = seg_start(y, y.len() as int);
    let b = o + c;
    if c > 0 { assert(y[c - 1] == x[b - 1]); }
    assert forall|k: int| b <= k < e implies #[trigger] x[k] != 0x2d by { assert(y[k - o] == x[k]); }
    l_seg_start_is(x, b, e);
    assert(y.skip(c) =~= x.subrange(b, e));
    assert(split(y).last() == y.skip(c));
    assert(hq(q, split(y)[split(y).len() - 1]));
    l_hq(q, y.skip(c));
    if c > 0 {
        let z = y.take(c - 1);
        assert(z =~= x.subrange(o, b - 1));
        l_allseg_split(z, q);
        assert forall|i: int| 0 <= i < split(z).len() implies hq(q, #[trigger] split(z)[i]) by { assert(split(y)[i] == split(z)[i]); }
        l_split(z); l_seg_end(z, 0); l_hq(q, z.take(seg_end(z, 0)));
        assert(z.len() > 0);
    }
    let f = if b > 0 { b - 1 } else { 0 };
    assert(rest(x, o, e).drop_last() =~= rest(x, o, f));
}
proof fn l_seg_end_shift(x: Seq<u8>, k: int, i: int)
    requires 0 <= k <= x.len(), 0 <= i <= x.len() - k,
    ensures seg_end(x, k + i) == k + seg_end(x.skip(k), i),
    decreases x.len() - k - i
{ if k + i < x.len() { l_seg_end_shift(x, k, i + 1); } }
proof fn l_fle_shift(x: Seq<u8>, k: int, off: int, end: int, q: Q)
    requires 0 <= k <= x.len(), 0 <= off, off <= x.len() - k + 1,
    ensures fle(x, k + off, k + end, P::All(q)) == k + fle(x.skip(k), off, end, P::All(q)),
    decreases x.len() - k - off + 1
{
    let y = x.skip(k);
    if off <= y.len() {
        l_seg_end_shift(x, k, off);
        l_seg_end(y, off);
        let e = seg_end(y, off);
        assert(x.subrange(k + off, k + e) =~= y.subrange(off, e));
        if e < y.len() { l_fle_shift(x, k, e + 1, e, q); }
    }
}
pub open spec fn xrest(x: Seq<u8>, o: int) -> Seq<Seq<u8>> { if 0 <= o < x.len() { exts(x.skip(o)) } else { Seq::empty() } }
pub open spec fn xit_inv(x: Seq<u8>, o: int) -> bool { ascii(x) && 0 <= o && (o < x.len() ==> v_extensions(x.skip(o))) }
pub proof fn l_xit_next(x: Seq<u8>, o: int)
    requires xit_inv(x, o), o < x.len(),
    ensures ({ let e = list_end(x, o + 2, P::All(Q::ExtSub)); o + 3 < e <= x.len() && v_extension(x.subrange(o, e)) && xrest(x, o) == seq![x.subrange(o, e)] + xrest(x, e + 1)
        && xrest(x, o)[0] == x.subrange(o, e) && xrest(x, o).drop_first() == xrest(x, e + 1) && xit_inv(x, e + 1) }),
{
    let y = x.skip(o);
    l_ext_head(y);
    l_fle_shift(x, o, 2, 2, Q::ExtSub);
    let g = ext_end(y); let e = o + g;
    assert(y.take(g) =~= x.subrange(o, e));
    if g < y.len() { assert(y.skip(g + 1) =~= x.skip(e + 1)); } else { assert(y.take(g) =~= y); }
    assert(xrest(x, o).drop_first() =~= xrest(x, e + 1));
}
// ------------------------------------------------ lookup of an extension
/// the first extension of l whose singleton is c, in either case
pub open spec fn first_ext(l: Seq<Seq<u8>>, c: u8) -> Option<Seq<u8>> decreases l.len() {
    if l.len() == 0 { None } else if l[0].len() > 0 && lower(l[0][0]) == lower(c) { Some(l[0]) } else { first_ext(l.drop_first(), c) }
}
/// a subtag of one byte, c in either case, starts at i and another subtag follows
pub open spec fn hit(x: Seq<u8>, i: int, c: u8) -> bool { 0 <= i && i + 1 < x.len() && (i == 0 || x[i - 1] == 0x2d) && lower(x[i]) == lower(c) && x[i + 1] == 0x2d }
/// subtags are never empty
pub open spec fn nodouble(x: Seq<u8>) -> bool { (x.len() > 0 ==> x[0] != 0x2d) && forall|i: int| 0 < i < x.len() && x[i - 1] == 0x2d ==> #[trigger] x[i] != 0x2d }
proof fn l_nodouble(x: Seq<u8>, q: Q)
    requires allseg(x, q), !(q is Long),
    ensures nodouble(x), x.len() > 0, x.last() != 0x2d,
    decreases x.len()
{
    l_seg_end(x, 0);
    let e = seg_end(x, 0);
    l_hq(q, x.take(e));
    assert(x.take(e)[0] == x[0]);
    if e < x.len() {
        let y = x.skip(e + 1);
        l_nodouble(y, q);
        assert forall|i: int| 0 < i < x.len() && x[i - 1] == 0x2d implies #[trigger] x[i] != 0x2d by { if i > e { if i > e + 1 { assert(y[i - e - 2] == x[i - 1]); } assert(y[i - e - 1] == x[i]); } }
        assert(y.last() == x.last());
    } else { assert(x.take(e) =~= x); }
}
/// where the extension that starts at o and the next one lie; no single-byte subtag in between
proof fn l_ext_at(x: Seq<u8>, o: int)
    requires xit_inv(x, o), o < x.len(),
    ensures ({ let e = list_end(x, o + 2, P::All(Q::ExtSub)); o + 3 < e <= x.len() && list_end(x, o + 2, P::All(Q::Long)) == e && is_sing(x[o]) && x[o + 1] == 0x2d
        && (e < x.len() ==> x[e] == 0x2d && e + 3 < x.len() && is_sing(x[e + 1]) && x[e + 2] == 0x2d)
        && forall|i: int, c: u8| o < i <= e && is_sing(c) ==> !#[trigger] hit(x, i, c) }),
{
    l_xit_next(x, o);
    let e = list_end(x, o + 2, P::All(Q::ExtSub));
    let u = x.subrange(o, e);
    l_l_extension(u);
    assert(u[0] == x[o] && u[1] == x[o + 1]);
    let b = u.skip(2);
    assert(b =~= x.subrange(o + 2, e));
    let y = x.skip(o);
    l_ext_head(y); l_fle_shift(x, o, 2, 2, Q::ExtSub);
    if e < x.len() {
        assert(y[e - o] == x[e]);
        let z = x.skip(e + 1);
        assert(z =~= y.skip(e - o + 1));
        l_ext_head(z); l_exts_allseg(z);
        assert(z[0] == x[e + 1] && z[1] == x[e + 2]);
        l_seg_end_is(x, e + 1, e + 2);
        assert(x.subrange(e + 1, e + 2).len() == 1);
        l_stop(x, e + 1, e, P::All(Q::Long));
    }
    assert forall|t: Seq<u8>| hq(Q::ExtSub, t) implies hq(Q::Long, t) by { l_hq(Q::ExtSub, t); }
    l_walk(x, o + 2, e, o + 2, P::All(Q::Long), Q::ExtSub);
    l_nodouble(b, Q::ExtSub);
    l_nosingle(b);
    assert forall|i: int, c: u8| o < i <= e && is_sing(c) implies !#[trigger] hit(x, i, c) by {
        if hit(x, i, c) {
            if i == o + 1 { assert(x[o] != 0x2d); }
            else if i == e { assert(lower(0x2d) == 0x2d && lower(c) != 0x2d); }
            else {
                let j = i - o - 2;
                assert(b[j] == x[i]);
                if j > 0 { assert(b[j - 1] == x[i - 1]); }
                if j + 1 < b.len() { assert(b[j + 1] == x[i + 1]); } else { assert(i + 1 == e); }
                assert(x[i] != 0x2d) by { if x[i] == 0x2d { assert(lower(c) != 0x2d); } }
                assert(single_at(b, j));
            }
        }
    }
}
pub open spec fn single_at(b: Seq<u8>, j: int) -> bool { 0 <= j < b.len() && (j == 0 || b[j - 1] == 0x2d) && b[j] != 0x2d && (j + 1 == b.len() || b[j + 1] == 0x2d) }
/// no subtag of an extension has one byte
proof fn l_nosingle(b: Seq<u8>)
    requires allseg(b, Q::ExtSub),
    ensures forall|j: int| !#[trigger] single_at(b, j),
    decreases b.len()
{
    l_seg_end(b, 0);
    let e = seg_end(b, 0);
    l_hq(Q::ExtSub, b.take(e));
    let z = b.skip(e + 1);
    if e < b.len() { l_nosingle(z); }
    assert forall|j: int| !#[trigger] single_at(b, j) by {
        if single_at(b, j) {
            if j < e { if j > 0 { assert(b[j - 1] != 0x2d); } assert(e >= 2); assert(b[1] != 0x2d); }
            else if j == e { }
            else {
                let k = j - e - 1;
                assert(b[j] == z[k]);
                if k > 0 { assert(b[j - 1] == z[k - 1]); }
                if k + 1 < z.len() { assert(b[j + 1] == z[k + 1]); }
                assert(single_at(z, k));
            }
        }
    }
}
/// the first hit at or after o is the singleton of the first matching extension
proof fn l_get_from(x: Seq<u8>, o: int, c: u8)
    requires xit_inv(x, o), is_sing(c), o == 0 || x[o - 1] == 0x2d,
    ensures
        forall|i: int| o <= i && #[trigger] hit(x, i, c) && (forall|j: int| o <= j < i ==> !#[trigger] hit(x, j, c)) ==> ({ let e = list_end(x, i + 2, P::All(Q::Long)); i + 2 < e <= x.len() && v_extension(x.subrange(i, e)) && first_ext(xrest(x, o), c) == Some(x.subrange(i, e)) }),
        (forall|j: int| o <= j ==> !#[trigger] hit(x, j, c)) ==> first_ext(xrest(x, o), c) is None,
    decreases x.len() - o
{
    if o < x.len() {
        l_xit_next(x, o); l_ext_at(x, o);
        let e = list_end(x, o + 2, P::All(Q::ExtSub));
        let u = x.subrange(o, e);
        assert(u[0] == x[o]);
        if e < x.len() { l_get_from(x, e + 1, c); }
        assert(hit(x, o, c) <==> lower(x[o]) == lower(c));
        assert forall|i: int| o <= i && #[trigger] hit(x, i, c) && (forall|j: int| o <= j < i ==> !#[trigger] hit(x, j, c)) implies ({ let e = list_end(x, i + 2, P::All(Q::Long)); i + 2 < e <= x.len() && v_extension(x.subrange(i, e)) && first_ext(xrest(x, o), c) == Some(x.subrange(i, e)) }) by {
            if i > o { assert(!hit(x, o, c)); assert(i > e); }
        }
        if forall|j: int| o <= j ==> !#[trigger] hit(x, j, c) { assert(!hit(x, o, c)); }
    }
}
/// what Extensions::get rests on
pub proof fn l_get(x: Seq<u8>, c: u8)
    requires v_extensions(x), is_sing(c),
    ensures ascii(x), nodouble(x), valid_utf8(x),
        forall|i: int| #[trigger] hit(x, i, c) && (forall|j: int| 0 <= j < i ==> !#[trigger] hit(x, j, c)) ==> ({ let e = list_end(x, i + 2, P::All(Q::Long)); i + 2 < e <= x.len() && v_extension(x.subrange(i, e)) && first_ext(exts(x), c) == Some(x.subrange(i, e)) }),
        (forall|j: int| 0 <= j ==> !#[trigger] hit(x, j, c)) ==> first_ext(exts(x), c) is None,
{
    l_ascii_extensions();
    if x.len() > 0 { assert(x.skip(0) =~= x); l_exts_allseg(x); l_nodouble(x, Q::SingSub); l_get_from(x, 0, c); assert(xrest(x, 0) == exts(x)); }
}
/// a list of single-byte-headed extensions: get finds one exactly when one has that singleton
pub proof fn l_first_ext(l: Seq<Seq<u8>>, c: u8)
    ensures
        first_ext(l, c) is None <==> forall|i: int| 0 <= i < l.len() ==> !(#[trigger] l[i].len() > 0 && lower(l[i][0]) == lower(c)),
        first_ext(l, c) matches Some(t) ==> exists|i: int| 0 <= i < l.len() && #[trigger] l[i] == t && t.len() > 0 && lower(t[0]) == lower(c) && forall|j: int| 0 <= j < i ==> !(#[trigger] l[j].len() > 0 && lower(l[j][0]) == lower(c)),
    decreases l.len()
{
    if l.len() > 0 {
        let m = l.drop_first();
        l_first_ext(m, c);
        if !(l[0].len() > 0 && lower(l[0][0]) == lower(c)) {
            assert forall|i: int| 0 < i < l.len() implies l[i] == m[i - 1] by { }
            if first_ext(m, c) is None {
                assert forall|i: int| 0 <= i < l.len() implies !(#[trigger] l[i].len() > 0 && lower(l[i][0]) == lower(c)) by { if i > 0 { assert(m[i - 1] == l[i]); } }
            } else {
                let t = first_ext(m, c)->0;
                let i = choose|i: int| 0 <= i < m.len() && #[trigger] m[i] == t && t.len() > 0 && lower(t[0]) == lower(c) && forall|j: int| 0 <= j < i ==> !(#[trigger] m[j].len() > 0 && lower(m[j][0]) == lower(c));
                assert(l[i + 1] == t);
                assert forall|j: int| 0 <= j < i + 1 implies !(#[trigger] l[j].len() > 0 && lower(l[j][0]) == lower(c)) by { if j > 0 { assert(m[j - 1] == l[j]); } }
            }
        }
    }
}
}
}
