// The automaton of tables.rs decides the productions of abnf.rs.
pub mod dfa {
use vstd::prelude::*;
use crate::re::*;
use crate::abnf::*;
use crate::tables::*;
verus! {

proof fn l_nodes_ok(lo: int, hi: int, i: int) requires nodes_ok(lo, hi), lo <= i < hi ensures node_ok(i) decreases hi - lo {
    if hi - lo > 1 { let m = lo + (hi - lo) / 2; if i < m { l_nodes_ok(lo, m, i); } else { l_nodes_ok(m, hi, i); } }
}
pub proof fn l_node(i: int) requires in_node(i) ensures node_ok(i) { c_nodes(); l_nodes_ok(0, n_node(), i); }
proof fn l_sets_ok(lo: int, hi: int, i: int) requires sets_ok(lo, hi), lo <= i < hi ensures set_ok(i) decreases hi - lo {
    if hi - lo > 1 { let m = lo + (hi - lo) / 2; if i < m { l_sets_ok(lo, m, i); } else { l_sets_ok(m, hi, i); } }
}
pub proof fn l_set(d: int) requires in_set(d) ensures set_ok(d) { c_sets(); l_sets_ok(0, n_set(), d); }
proof fn l_class(k: K, c: u8)
    requires kind_ok(k),
    ensures ink(k, c) == ink(k, crep(ci(c))), 0 <= ci(c) <= 28,
{}

// ------------------------------------------------ nodes


proof fn l_scat_ok(x: int, b: int, y: int)
    requires scat_ok(x, b, y),
    ensures den(y) == scat(den(x), den(b)), in_node(y),
    decreases x
{
    l_node(x);
    match node(x) { Nd::Cat(p, q) => { let z = node(y)->Cat_1; l_scat_ok(q, b, z); } _ => {} }
}
proof fn l_lmap_ok(s: Seq<(K, int)>, b: int, t: Seq<(K, int)>, n: int, j: int)
    requires lmap_ok(s, b, t, n), 0 <= j < n,
    ensures s[j].0 == t[j].0, scat_ok(s[j].1, b, t[j].1),
    decreases n
{ if j < n - 1 { l_lmap_ok(s, b, t, n - 1, j); } }
proof fn l_same_ok(s: Seq<(K, int)>, t: Seq<(K, int)>, off: int, n: int, j: int)
    requires same_ok(s, t, off, n), 0 <= j < n,
    ensures s[j] == t[off + j],
    decreases n
{ if j < n - 1 { l_same_ok(s, t, off, n - 1, j); } }
proof fn l_range_ok(t: Seq<(K, int)>, n: int)
    requires range_ok(t, n),
    ensures forall|j: int| 0 <= j < n ==> in_node((#[trigger] t[j]).1) && kind_ok(t[j].0),
    decreases n
{ if n > 0 { l_range_ok(t, n - 1); } }
proof fn l_lmap_get(l: Seq<(K, Re)>, b: Re, n: nat)
    requires n <= l.len(),
    ensures lmap_n(l, b, n).len() == n, forall|j: int| 0 <= j < n ==> (#[trigger] lmap_n(l, b, n)[j]) == (l[j].0, scat(l[j].1, b)),
    decreases n
{ if n > 0 { l_lmap_get(l, b, (n - 1) as nat); } }

pub open spec fn rows_rel(l: Seq<(K, Re)>, t: Seq<(K, int)>) -> bool {
    l.len() == t.len() && forall|j: int| 0 <= j < l.len() ==> (#[trigger] l[j]) == (t[j].0, den(t[j].1))
}
/// the rows are the linear form
proof fn l_rows(i: int)
    requires in_node(i),
    ensures rows_rel(lf(den(i)), rows(i)), nullable(den(i)) == eps(i),
    decreases i
{
    l_node(i);
    let t = rows(i);
    let l = lf(den(i));
    match node(i) {
        Nd::Alt(a, b) => {
            l_rows(a); l_rows(b);
            let (la, lb) = (lf(den(a)), lf(den(b)));
            assert(l =~= la + lb);
            assert forall|j: int| 0 <= j < l.len() implies (#[trigger] l[j]) == (t[j].0, den(t[j].1)) by {
                if j < la.len() { l_same_ok(rows(a), t, 0, rows(a).len() as int, j); assert(l[j] == la[j]); }
                else { l_same_ok(rows(b), t, rows(a).len() as int, rows(b).len() as int, j - la.len()); assert(l[j] == lb[j - la.len()]); }
            }
        }
        Nd::Cat(a, b) => {
            l_rows(a); l_rows(b);
            let (la, lb) = (lf(den(a)), lf(den(b)));
            l_lmap_get(la, den(b), la.len());
            assert forall|j: int| 0 <= j < l.len() implies (#[trigger] l[j]) == (t[j].0, den(t[j].1)) by {
                if j < la.len() { l_lmap_ok(rows(a), b, t, rows(a).len() as int, j); l_scat_ok(rows(a)[j].1, b, t[j].1); assert(l[j] == lmap(la, den(b))[j]); assert(la[j] == (rows(a)[j].0, den(rows(a)[j].1))); }
                else { l_same_ok(rows(b), t, rows(a).len() as int, rows(b).len() as int, j - la.len()); assert(l[j] == lb[j - la.len()]); }
            }
        }
        Nd::Star(a) => {
            l_rows(a);
            let la = lf(den(a));
            l_lmap_get(la, den(i), la.len());
            assert forall|j: int| 0 <= j < l.len() implies (#[trigger] l[j]) == (t[j].0, den(t[j].1)) by {
                l_lmap_ok(rows(a), i, t, rows(a).len() as int, j); l_scat_ok(rows(a)[j].1, i, t[j].1); assert(la[j] == (rows(a)[j].0, den(rows(a)[j].1)));
            }
        }
        Nd::Cls(k) => { assert(den(t[0].1) == Re::Eps); }
        _ => {}
    }
}

pub open spec fn tbl_has(i: int, c: u8, s: Seq<u8>) -> bool {
    exists|j: int| 0 <= j < rows(i).len() && ink((#[trigger] rows(i)[j]).0, c) && matches(den(rows(i)[j].1), s)
}
/// one byte from node i
proof fn l_pd_step(i: int, c: u8, s: Seq<u8>)
    requires in_node(i),
    ensures matches(den(i), cons(c, s)) == tbl_has(i, c, s), forall|j: int| 0 <= j < rows(i).len() ==> in_node((#[trigger] rows(i)[j]).1) && kind_ok(rows(i)[j].0),
{
    l_rows(i);
    l_node(i);
    l_range_ok(rows(i), rows(i).len() as int);
    let l = lf(den(i));
    let t = rows(i);
    l_lf(den(i), c, s);
    if lf_has(l, c, s) {
        let j = choose|j: int| 0 <= j < l.len() && ink((#[trigger] l[j]).0, c) && matches(l[j].1, s);
        assert(ink(t[j].0, c) && matches(den(t[j].1), s));
    }
    if tbl_has(i, c, s) {
        let j = choose|j: int| 0 <= j < t.len() && ink((#[trigger] t[j]).0, c) && matches(den(t[j].1), s);
        assert(ink(l[j].0, c) && matches(l[j].1, s));
    }
}
proof fn l_pd_eps(i: int)
    requires in_node(i),
    ensures matches(den(i), Seq::empty()) == eps(i),
{
    l_rows(i);
    l_nullable(den(i));
}

// ------------------------------------------------ subset states


/// state reached from m after reading s (-1: dead)
pub open spec fn run(m: int, s: Seq<u8>) -> int decreases s.len() {
    if s.len() == 0 { m } else {
        let p = run(m, s.drop_last());
        if p < 0 { -1 } else { step(p, ci(s.last())) }
    }
}
/// s is accepted from state m
pub open spec fn accepts(m: int, s: Seq<u8>) -> bool { run(m, s) >= 0 && acc(run(m, s)) }

pub open spec fn set_matches(s: Seq<int>, w: Seq<u8>) -> bool {
    exists|i: int| 0 <= i < s.len() && matches(den(#[trigger] s[i]), w)
}

proof fn l_has(s: Seq<int>, x: int, n: nat)
    requires n <= s.len(),
    ensures has(s, x, n) <==> exists|i: int| 0 <= i < n && s[i] == x,
    decreases n
{ if n > 0 { l_has(s, x, (n - 1) as nat); } }
proof fn l_sub(s: Seq<int>, t: Seq<int>, n: nat)
    requires n <= s.len(), subs(s, t, n),
    ensures forall|i: int| 0 <= i < n ==> t.contains(#[trigger] s[i]),
    decreases n
{ if n > 0 { l_sub(s, t, (n - 1) as nat); l_has(t, s[n - 1], t.len()); } }
proof fn l_in_range(s: Seq<int>, n: nat)
    requires n <= s.len(), in_range(s, n),
    ensures forall|i: int| 0 <= i < n ==> in_node(#[trigger] s[i]),
    decreases n
{ if n > 0 { l_in_range(s, (n - 1) as nat); } }
proof fn l_any_eps(s: Seq<int>, n: nat)
    requires n <= s.len(),
    ensures any_eps(s, n) <==> exists|i: int| 0 <= i < n && eps(#[trigger] s[i]),
    decreases n
{
    if n > 0 { l_any_eps(s, (n - 1) as nat);
        if any_eps(s, n) && !any_eps(s, (n - 1) as nat) { assert(eps(s[n - 1])); } }
}
proof fn l_tgt(t: Seq<(K, int)>, c: u8, n: nat, x: int)
    requires n <= t.len(),
    ensures tgt(t, c, n).contains(x) <==> exists|j: int| 0 <= j < n && ink((#[trigger] t[j]).0, c) && t[j].1 == x,
    decreases n
{
    if n > 0 {
        l_tgt(t, c, (n - 1) as nat, x);
        let p = tgt(t, c, (n - 1) as nat);
        let e = t[n - 1];
        if ink(e.0, c) {
            assert(tgt(t, c, n) == p.push(e.1));
            if p.contains(x) { let i = choose|i: int| 0 <= i < p.len() && p[i] == x; assert(p.push(e.1)[i] == x); }
            if e.1 == x { assert(p.push(e.1)[p.len() as int] == x); }
            if p.push(e.1).contains(x) { let i = choose|i: int| 0 <= i < p.push(e.1).len() && p.push(e.1)[i] == x; if i < p.len() { assert(p[i] == x); } }
        }
    }
}
proof fn l_succ(s: Seq<int>, c: u8, n: nat, x: int)
    requires n <= s.len(),
    ensures succ(s, c, n).contains(x) <==> exists|i: int| 0 <= i < n && ntgt(#[trigger] s[i], c).contains(x),
    decreases n
{
    if n > 0 {
        l_succ(s, c, (n - 1) as nat, x);
        let p = succ(s, c, (n - 1) as nat);
        let q = ntgt(s[n - 1], c);
        assert(succ(s, c, n) == p + q);
        if p.contains(x) { let i = choose|i: int| 0 <= i < p.len() && p[i] == x; assert((p + q)[i] == x); }
        if q.contains(x) { let i = choose|i: int| 0 <= i < q.len() && q[i] == x; assert((p + q)[p.len() + i] == x); }
        if (p + q).contains(x) { let i = choose|i: int| 0 <= i < (p + q).len() && (p + q)[i] == x; if i < p.len() { assert(p[i] == x); } else { assert(q[i - p.len()] == x); } }
    }
}
proof fn l_tgt_class(t: Seq<(K, int)>, c: u8, n: nat)
    requires n <= t.len(), forall|j: int| 0 <= j < t.len() ==> kind_ok((#[trigger] t[j]).0),
    ensures tgt(t, c, n) == tgt(t, crep(ci(c)), n),
    decreases n
{ if n > 0 { l_class(t[n - 1].0, c); l_tgt_class(t, c, (n - 1) as nat); } }
proof fn l_succ_class(s: Seq<int>, c: u8, n: nat)
    requires n <= s.len(), forall|i: int| 0 <= i < s.len() ==> in_node(#[trigger] s[i]),
    ensures succ(s, c, n) == succ(s, crep(ci(c)), n),
    decreases n
{
    if n > 0 {
        l_succ_class(s, c, (n - 1) as nat);
        l_pd_step(s[n - 1], c, Seq::empty());
        l_tgt_class(rows(s[n - 1]), c, rows(s[n - 1]).len());
    }
}
/// words of a subset state, one byte at a time
proof fn l_set_step(s: Seq<int>, c: u8, w: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> in_node(#[trigger] s[i]),
    ensures set_matches(s, cons(c, w)) == set_matches(succ(s, c, s.len()), w),
{
    let u = succ(s, c, s.len());
    if set_matches(s, cons(c, w)) {
        let i = choose|i: int| 0 <= i < s.len() && matches(den(#[trigger] s[i]), cons(c, w));
        l_pd_step(s[i], c, w);
        let t = rows(s[i]);
        let j = choose|j: int| 0 <= j < t.len() && ink((#[trigger] t[j]).0, c) && matches(den(t[j].1), w);
        l_tgt(t, c, t.len(), t[j].1);
        l_succ(s, c, s.len(), t[j].1);
        let k = choose|k: int| 0 <= k < u.len() && u[k] == t[j].1;
        assert(matches(den(u[k]), w));
    }
    if set_matches(u, w) {
        let k = choose|k: int| 0 <= k < u.len() && matches(den(#[trigger] u[k]), w);
        assert(u.contains(u[k]));
        l_succ(s, c, s.len(), u[k]);
        let i = choose|i: int| 0 <= i < s.len() && ntgt(#[trigger] s[i], c).contains(u[k]);
        let t = rows(s[i]);
        l_tgt(t, c, t.len(), u[k]);
        l_pd_step(s[i], c, w);
        let j = choose|j: int| 0 <= j < t.len() && ink((#[trigger] t[j]).0, c) && t[j].1 == u[k];
        assert(ink(rows(s[i])[j].0, c) && matches(den(rows(s[i])[j].1), w));
        assert(matches(den(s[i]), cons(c, w)));
    }
}
proof fn l_set_equiv(s: Seq<int>, t: Seq<int>, w: Seq<u8>)
    requires subs(s, t, s.len()), subs(t, s, t.len()),
    ensures set_matches(s, w) == set_matches(t, w),
{
    l_sub(s, t, s.len()); l_sub(t, s, t.len());
    if set_matches(s, w) { let i = choose|i: int| 0 <= i < s.len() && matches(den(#[trigger] s[i]), w); let k = choose|k: int| 0 <= k < t.len() && t[k] == s[i]; assert(matches(den(t[k]), w)); }
    if set_matches(t, w) { let i = choose|i: int| 0 <= i < t.len() && matches(den(#[trigger] t[i]), w); let k = choose|k: int| 0 <= k < s.len() && s[k] == t[i]; assert(matches(den(s[k]), w)); }
}
proof fn l_clss_ok(d: int, n: nat, k: int)
    requires clss_ok(d, n), 0 <= k < n,
    ensures cls_ok(d, k),
    decreases n
{ if n - 1 > k { l_clss_ok(d, (n - 1) as nat, k); } }

/// subset state after reading s from d
pub open spec fn drun(d: int, s: Seq<u8>) -> int decreases s.len() {
    if s.len() == 0 { d } else { let p = drun(d, s.drop_last()); if p < 0 { -1 } else { strans(p, ci(s.last())) } }
}
/// reading s then w
proof fn l_drun(d: int, s: Seq<u8>, w: Seq<u8>)
    requires in_set(d),
    ensures
        drun(d, s) < n_set(),
        drun(d, s) < 0 ==> drun(d, s) == -1,
        run(smin(d), s) == (if drun(d, s) < 0 { -1 } else { smin(drun(d, s)) }),
        set_matches(sset(d), s + w) == (drun(d, s) >= 0 && set_matches(sset(drun(d, s)), w)),
    decreases s.len()
{
    if s.len() == 0 {
        assert(s + w =~= w);
        l_set(d);
    } else {
        let p = s.drop_last();
        let c = s.last();
        let w2 = cons(c, w);
        l_drun(d, p, w2);
        assert(s + w =~= p + w2);
        let e = drun(d, p);
        if e >= 0 {
            l_set(e);
            l_in_range(sset(e), sset(e).len());
            l_set_step(sset(e), c, w);
            l_succ_class(sset(e), c, sset(e).len());
            l_class(K::Alpha, c);
            l_clss_ok(e, 29, ci(c));
            l_step(smin(e), ci(c));
            let u = succ(sset(e), c, sset(e).len());
            if u.len() > 0 { l_set_equiv(u, sset(strans(e, ci(c))), w); l_set(strans(e, ci(c))); }
        }
    }
}
/// the automaton decides the node
proof fn l_auto(r: int, d: int, m: int, s: Seq<u8>)
    requires in_node(r), in_set(d), sset(d).len() == 1, sset(d)[0] == r, smin(d) == m,
    ensures matches(den(r), s) == accepts(m, s), run(m, s) < n_state(), run(m, s) < 0 ==> run(m, s) == -1,
{
    let e = Seq::<u8>::empty();
    l_drun(d, s, e);
    assert(s + e =~= s);
    if matches(den(r), s) { assert(matches(den(sset(d)[0]), s)); }
    let q = drun(d, s);
    if q >= 0 {
        let u = sset(q);
        l_set(q);
        l_acc(smin(q));
        l_in_range(u, u.len());
        l_any_eps(u, u.len());
        if set_matches(u, e) { let i = choose|i: int| 0 <= i < u.len() && matches(den(#[trigger] u[i]), e); l_pd_eps(u[i]); assert(eps(u[i])); }
        if any_eps(u, u.len()) { let i = choose|i: int| 0 <= i < u.len() && eps(#[trigger] u[i]); l_pd_eps(u[i]); assert(matches(den(u[i]), e)); }
    }
}
/// no way back from the dead state
pub proof fn l_run_dead(m: int, s: Seq<u8>, i: int)
    requires 0 <= i <= s.len(), run(m, s.subrange(0, i)) < 0,
    ensures run(m, s) < 0,
    decreases s.len()
{
    if i == s.len() { assert(s.subrange(0, i) =~= s); }
    else {
        assert(s.drop_last().subrange(0, i) =~= s.subrange(0, i));
        l_run_dead(m, s.drop_last(), i);
    }
}
/// one more byte
pub proof fn l_run_push(m: int, s: Seq<u8>, i: int)
    requires 0 <= i < s.len(),
    ensures run(m, s.subrange(0, i + 1)) == (if run(m, s.subrange(0, i)) < 0 { -1 } else { step(run(m, s.subrange(0, i)), ci(s[i])) }),
{
    let t = s.subrange(0, i + 1);
    assert(t.drop_last() =~= s.subrange(0, i));
}
pub proof fn l_language_tag(s: Seq<u8>)
    ensures matches(language_tag(), s) == accepts(init_language_tag(), s), run(init_language_tag(), s) < n_state(), run(init_language_tag(), s) < 0 ==> run(init_language_tag(), s) == -1,
{
    c_language_tag();
    l_auto(root_language_tag(), set_language_tag(), init_language_tag(), s);
}
pub proof fn l_privateuse(s: Seq<u8>)
    ensures matches(privateuse(), s) == accepts(init_privateuse(), s), run(init_privateuse(), s) < n_state(), run(init_privateuse(), s) < 0 ==> run(init_privateuse(), s) == -1,
{
    c_privateuse();
    l_auto(root_privateuse(), set_privateuse(), init_privateuse(), s);
}
pub proof fn l_privateuse_subtag(s: Seq<u8>)
    ensures matches(privateuse_subtag(), s) == accepts(init_privateuse_subtag(), s), run(init_privateuse_subtag(), s) < n_state(), run(init_privateuse_subtag(), s) < 0 ==> run(init_privateuse_subtag(), s) == -1,
{
    c_privateuse_subtag();
    l_auto(root_privateuse_subtag(), set_privateuse_subtag(), init_privateuse_subtag(), s);
}
pub proof fn l_langtag(s: Seq<u8>)
    ensures matches(langtag(), s) == accepts(init_langtag(), s), run(init_langtag(), s) < n_state(), run(init_langtag(), s) < 0 ==> run(init_langtag(), s) == -1,
{
    c_langtag();
    l_auto(root_langtag(), set_langtag(), init_langtag(), s);
}
pub proof fn l_language(s: Seq<u8>)
    ensures matches(language(), s) == accepts(init_language(), s), run(init_language(), s) < n_state(), run(init_language(), s) < 0 ==> run(init_language(), s) == -1,
{
    c_language();
    l_auto(root_language(), set_language(), init_language(), s);
}
pub proof fn l_primary(s: Seq<u8>)
    ensures matches(primary(), s) == accepts(init_primary(), s), run(init_primary(), s) < n_state(), run(init_primary(), s) < 0 ==> run(init_primary(), s) == -1,
{
    c_primary();
    l_auto(root_primary(), set_primary(), init_primary(), s);
}
pub proof fn l_extlang(s: Seq<u8>)
    ensures matches(extlang(), s) == accepts(init_extlang(), s), run(init_extlang(), s) < n_state(), run(init_extlang(), s) < 0 ==> run(init_extlang(), s) == -1,
{
    c_extlang();
    l_auto(root_extlang(), set_extlang(), init_extlang(), s);
}
pub proof fn l_extlang_tag(s: Seq<u8>)
    ensures matches(extlang_tag(), s) == accepts(init_extlang_tag(), s), run(init_extlang_tag(), s) < n_state(), run(init_extlang_tag(), s) < 0 ==> run(init_extlang_tag(), s) == -1,
{
    c_extlang_tag();
    l_auto(root_extlang_tag(), set_extlang_tag(), init_extlang_tag(), s);
}
pub proof fn l_script(s: Seq<u8>)
    ensures matches(script(), s) == accepts(init_script(), s), run(init_script(), s) < n_state(), run(init_script(), s) < 0 ==> run(init_script(), s) == -1,
{
    c_script();
    l_auto(root_script(), set_script(), init_script(), s);
}
pub proof fn l_region(s: Seq<u8>)
    ensures matches(region(), s) == accepts(init_region(), s), run(init_region(), s) < n_state(), run(init_region(), s) < 0 ==> run(init_region(), s) == -1,
{
    c_region();
    l_auto(root_region(), set_region(), init_region(), s);
}
pub proof fn l_variant(s: Seq<u8>)
    ensures matches(variant(), s) == accepts(init_variant(), s), run(init_variant(), s) < n_state(), run(init_variant(), s) < 0 ==> run(init_variant(), s) == -1,
{
    c_variant();
    l_auto(root_variant(), set_variant(), init_variant(), s);
}
pub proof fn l_variants(s: Seq<u8>)
    ensures matches(variants(), s) == accepts(init_variants(), s), run(init_variants(), s) < n_state(), run(init_variants(), s) < 0 ==> run(init_variants(), s) == -1,
{
    c_variants();
    l_auto(root_variants(), set_variants(), init_variants(), s);
}
pub proof fn l_extension(s: Seq<u8>)
    ensures matches(extension(), s) == accepts(init_extension(), s), run(init_extension(), s) < n_state(), run(init_extension(), s) < 0 ==> run(init_extension(), s) == -1,
{
    c_extension();
    l_auto(root_extension(), set_extension(), init_extension(), s);
}
pub proof fn l_extension_subtag(s: Seq<u8>)
    ensures matches(extension_subtag(), s) == accepts(init_extension_subtag(), s), run(init_extension_subtag(), s) < n_state(), run(init_extension_subtag(), s) < 0 ==> run(init_extension_subtag(), s) == -1,
{
    c_extension_subtag();
    l_auto(root_extension_subtag(), set_extension_subtag(), init_extension_subtag(), s);
}
pub proof fn l_extensions(s: Seq<u8>)
    ensures matches(extensions(), s) == accepts(init_extensions(), s), run(init_extensions(), s) < n_state(), run(init_extensions(), s) < 0 ==> run(init_extensions(), s) == -1,
{
    c_extensions();
    l_auto(root_extensions(), set_extensions(), init_extensions(), s);
}

} // verus!
}
