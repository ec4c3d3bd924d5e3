// Regular expressions over bytes: declarative semantics, linear forms, and the
// lemma connecting them.  Nothing here depends on the code under verification.
pub mod re {
use vstd::prelude::*;
verus! {

/// Character classes used by the ABNF of RFC 5646.
pub enum K { Alpha, Digit, Alnum, Sing, Lit(u8) }

pub enum Re { Zero, Eps, Cls(K), Cat(Box<Re>, Box<Re>), Alt(Box<Re>, Box<Re>), Star(Box<Re>) }

pub open spec fn lower(b: u8) -> u8 { if 0x41 <= b && b <= 0x5a { (b + 0x20) as u8 } else { b } }
pub open spec fn is_alpha(b: u8) -> bool { (0x41 <= b && b <= 0x5a) || (0x61 <= b && b <= 0x7a) }
pub open spec fn is_digit(b: u8) -> bool { 0x30 <= b && b <= 0x39 }
pub open spec fn is_alnum(b: u8) -> bool { is_alpha(b) || is_digit(b) }
/// `singleton` of RFC 5646: any alphanumeric but x and X
pub open spec fn is_sing(b: u8) -> bool { is_alnum(b) && b != 0x78 && b != 0x58 }

/// byte `b` is in class `k` (ABNF literals are case-insensitive, RFC 5234 2.3)
pub open spec fn ink(k: K, b: u8) -> bool {
    match k {
        K::Alpha => is_alpha(b),
        K::Digit => is_digit(b),
        K::Alnum => is_alnum(b),
        K::Sing => is_sing(b),
        K::Lit(l) => lower(b) == lower(l),
    }
}

/// `s` is in the language of `r`
pub open spec fn matches(r: Re, s: Seq<u8>) -> bool
    decreases r, s.len()
{
    match r {
        Re::Zero => false,
        Re::Eps => s.len() == 0,
        Re::Cls(k) => s.len() == 1 && ink(k, s[0]),
        Re::Cat(a, b) => exists|i: int| 0 <= i <= s.len() && matches(*a, #[trigger] s.subrange(0, i)) && matches(*b, s.subrange(i, s.len() as int)),
        Re::Alt(a, b) => matches(*a, s) || matches(*b, s),
        Re::Star(a) => s.len() == 0 || exists|i: int| 0 < i <= s.len() && matches(*a, #[trigger] s.subrange(0, i)) && matches(r, s.subrange(i, s.len() as int)),
    }
}

pub open spec fn cat(a: Re, b: Re) -> Re { Re::Cat(Box::new(a), Box::new(b)) }
pub open spec fn alt(a: Re, b: Re) -> Re { Re::Alt(Box::new(a), Box::new(b)) }
pub open spec fn star(a: Re) -> Re { Re::Star(Box::new(a)) }
pub open spec fn opt(a: Re) -> Re { alt(Re::Eps, a) }
pub open spec fn cls(k: K) -> Re { Re::Cls(k) }
/// between `lo` and `hi` characters of class `k` (ABNF `lo*hi k`)
pub open spec fn rep(k: K, lo: nat, hi: nat) -> Re
    decreases hi
{
    if hi == 0 { Re::Eps }
    else if lo > 0 { if hi == 1 { cls(k) } else { cat(cls(k), rep(k, (lo - 1) as nat, (hi - 1) as nat)) } }
    else { opt(if hi == 1 { cls(k) } else { cat(cls(k), rep(k, 0, (hi - 1) as nat)) }) }
}

pub open spec fn nullable(r: Re) -> bool decreases r {
    match r {
        Re::Zero => false, Re::Eps => true, Re::Cls(_) => false,
        Re::Cat(a, b) => nullable(*a) && nullable(*b),
        Re::Alt(a, b) => nullable(*a) || nullable(*b),
        Re::Star(_) => true,
    }
}

/// concatenation, right-nested, dropping a left epsilon
pub open spec fn scat(a: Re, b: Re) -> Re decreases a {
    match a { Re::Eps => b, Re::Cat(x, y) => Re::Cat(x, Box::new(scat(*y, b))), _ => cat(a, b) }
}

pub open spec fn lmap_n(l: Seq<(K, Re)>, b: Re, n: nat) -> Seq<(K, Re)> decreases n {
    if n == 0 { Seq::empty() } else { lmap_n(l, b, (n - 1) as nat).push((l[n - 1].0, scat(l[n - 1].1, b))) }
}
pub open spec fn lmap(l: Seq<(K, Re)>, b: Re) -> Seq<(K, Re)> { lmap_n(l, b, l.len()) }

/// linear form (Antimirov): the non-empty words of `r` are the words `c·w` with
/// `c` in the class and `w` in the continuation of some entry
pub open spec fn lf(r: Re) -> Seq<(K, Re)> decreases r {
    match r {
        Re::Zero => Seq::empty(), Re::Eps => Seq::empty(),
        Re::Cls(k) => seq![(k, Re::Eps)],
        Re::Alt(a, b) => lf(*a) + lf(*b),
        Re::Cat(a, b) => if nullable(*a) { lmap(lf(*a), *b) + lf(*b) } else { lmap(lf(*a), *b) },
        Re::Star(a) => lmap(lf(*a), r),
    }
}

pub open spec fn lf_has(l: Seq<(K, Re)>, c: u8, s: Seq<u8>) -> bool {
    exists|j: int| 0 <= j < l.len() && ink((#[trigger] l[j]).0, c) && matches(l[j].1, s)
}

pub open spec fn cons(c: u8, s: Seq<u8>) -> Seq<u8> { seq![c] + s }

// ---------------------------------------------------------------- lemmas

pub proof fn l_nullable(r: Re) ensures nullable(r) == matches(r, Seq::empty()) decreases r {
    let e = Seq::<u8>::empty();
    assert(e.subrange(0, 0) =~= e);
    match r {
        Re::Cat(a, b) => { l_nullable(*a); l_nullable(*b);
            if matches(r, e) { let i = choose|i: int| 0 <= i <= e.len() && matches(*a, #[trigger] e.subrange(0, i)) && matches(*b, e.subrange(i, e.len() as int)); assert(i == 0); } }
        Re::Alt(a, b) => { l_nullable(*a); l_nullable(*b); }
        _ => {}
    }
}

pub proof fn l_cat(a: Re, b: Re, s: Seq<u8>, i: int)
    requires 0 <= i <= s.len(), matches(a, s.subrange(0, i)), matches(b, s.subrange(i, s.len() as int)),
    ensures matches(cat(a, b), s),
{}

/// introduction rule over concatenated words
pub proof fn l_cat2(a: Re, b: Re, x: Seq<u8>, y: Seq<u8>)
    requires matches(a, x), matches(b, y),
    ensures matches(cat(a, b), x + y),
{
    let s = x + y;
    assert(s.subrange(0, x.len() as int) =~= x);
    assert(s.subrange(x.len() as int, s.len() as int) =~= y);
    l_cat(a, b, s, x.len() as int);
}

/// elimination rule: the position of the split
pub open spec fn cat_split(a: Re, b: Re, s: Seq<u8>) -> int {
    choose|i: int| 0 <= i <= s.len() && matches(a, #[trigger] s.subrange(0, i)) && matches(b, s.subrange(i, s.len() as int))
}
pub proof fn l_cat_split(a: Re, b: Re, s: Seq<u8>) -> (i: int)
    requires matches(cat(a, b), s),
    ensures i == cat_split(a, b, s), 0 <= i <= s.len(), matches(a, s.subrange(0, i)), matches(b, s.subrange(i, s.len() as int)),
        s == s.subrange(0, i) + s.subrange(i, s.len() as int),
{
    let i = cat_split(a, b, s);
    assert(s =~= s.subrange(0, i) + s.subrange(i, s.len() as int));
    i
}

pub proof fn l_cat_assoc(a: Re, b: Re, c: Re, s: Seq<u8>)
    ensures matches(cat(cat(a, b), c), s) == matches(cat(a, cat(b, c)), s)
{
    let n = s.len() as int;
    if matches(cat(cat(a, b), c), s) {
        let j = l_cat_split(cat(a, b), c, s);
        let p = s.subrange(0, j);
        let i = l_cat_split(a, b, p);
        let q = s.subrange(i, n);
        assert(p.subrange(0, i) =~= s.subrange(0, i));
        assert(p.subrange(i, j) =~= q.subrange(0, j - i));
        assert(s.subrange(j, n) =~= q.subrange(j - i, q.len() as int));
        l_cat(b, c, q, j - i);
        l_cat(a, cat(b, c), s, i);
    }
    if matches(cat(a, cat(b, c)), s) {
        let i = l_cat_split(a, cat(b, c), s);
        let q = s.subrange(i, n);
        let k = l_cat_split(b, c, q);
        let j = i + k;
        let p = s.subrange(0, j);
        assert(p.subrange(0, i) =~= s.subrange(0, i));
        assert(p.subrange(i, j) =~= q.subrange(0, j - i));
        assert(s.subrange(j, n) =~= q.subrange(j - i, q.len() as int));
        l_cat(a, b, p, i);
        l_cat(cat(a, b), c, s, j);
    }
}

pub proof fn l_scat(a: Re, b: Re, s: Seq<u8>) ensures matches(scat(a, b), s) == matches(cat(a, b), s) decreases a
{
    let n = s.len() as int;
    match a {
        Re::Eps => {
            assert(s.subrange(0, n) =~= s);
            if matches(b, s) { assert(s.subrange(0, 0).len() == 0); l_cat(a, b, s, 0); }
            if matches(cat(a, b), s) { let i = l_cat_split(a, b, s); assert(i == 0); }
        }
        Re::Cat(x, y) => {
            let (x, y) = (*x, *y);
            assert(a == cat(x, y));
            l_cat_assoc(x, y, b, s);
            assert(scat(a, b) == cat(x, scat(y, b)));
            if matches(cat(x, scat(y, b)), s) { let i = l_cat_split(x, scat(y, b), s); l_scat(y, b, s.subrange(i, n)); l_cat(x, cat(y, b), s, i); }
            if matches(cat(x, cat(y, b)), s) { let i = l_cat_split(x, cat(y, b), s); l_scat(y, b, s.subrange(i, n)); l_cat(x, scat(y, b), s, i); }
        }
        _ => {}
    }
}

proof fn l_lmap_idx(l: Seq<(K, Re)>, b: Re, n: nat)
    requires n <= l.len(),
    ensures lmap_n(l, b, n).len() == n, forall|j: int| 0 <= j < n ==> (#[trigger] lmap_n(l, b, n)[j]) == (l[j].0, scat(l[j].1, b)),
    decreases n
{
    if n > 0 { l_lmap_idx(l, b, (n - 1) as nat); }
}

/// the linear form of `cat(a, b)` entries, seen through the words they accept
proof fn l_lmap(l: Seq<(K, Re)>, b: Re, c: u8, s: Seq<u8>)
    ensures lf_has(lmap(l, b), c, s) <==> exists|i: int| 0 <= i <= s.len() && lf_has(l, c, #[trigger] s.subrange(0, i)) && matches(b, s.subrange(i, s.len() as int)),
{
    let n = s.len() as int;
    l_lmap_idx(l, b, l.len());
    let m = lmap(l, b);
    if lf_has(m, c, s) {
        let j = choose|j: int| 0 <= j < m.len() && ink((#[trigger] m[j]).0, c) && matches(m[j].1, s);
        l_scat(l[j].1, b, s);
        let i = l_cat_split(l[j].1, b, s);
        assert(ink(l[j].0, c));
        assert(lf_has(l, c, s.subrange(0, i)));
    }
    if exists|i: int| 0 <= i <= n && lf_has(l, c, #[trigger] s.subrange(0, i)) && matches(b, s.subrange(i, n)) {
        let i = choose|i: int| 0 <= i <= n && lf_has(l, c, #[trigger] s.subrange(0, i)) && matches(b, s.subrange(i, n));
        let t = s.subrange(0, i);
        let j = choose|j: int| 0 <= j < l.len() && ink((#[trigger] l[j]).0, c) && matches(l[j].1, t);
        l_cat(l[j].1, b, s, i);
        l_scat(l[j].1, b, s);
        assert(ink(m[j].0, c) && matches(m[j].1, s));
    }
}

proof fn l_lf_concat(x: Seq<(K, Re)>, y: Seq<(K, Re)>, c: u8, s: Seq<u8>)
    ensures lf_has(x + y, c, s) == (lf_has(x, c, s) || lf_has(y, c, s))
{
    let z = x + y;
    if lf_has(x, c, s) {
        let j = choose|j: int| 0 <= j < x.len() && ink((#[trigger] x[j]).0, c) && matches(x[j].1, s);
        assert(z[j] == x[j]);
    }
    if lf_has(y, c, s) {
        let j = choose|j: int| 0 <= j < y.len() && ink((#[trigger] y[j]).0, c) && matches(y[j].1, s);
        assert(z[j + x.len()] == y[j]);
    }
    if lf_has(z, c, s) {
        let j = choose|j: int| 0 <= j < z.len() && ink((#[trigger] z[j]).0, c) && matches(z[j].1, s);
        if j < x.len() { assert(x[j] == z[j]); } else { assert(y[j - x.len()] == z[j]); }
    }
}

/// the fundamental property of linear forms
pub proof fn l_lf(r: Re, c: u8, s: Seq<u8>)
    ensures matches(r, cons(c, s)) == lf_has(lf(r), c, s)
    decreases r, s.len()
{
    let cs = cons(c, s);
    let n = s.len() as int;
    assert(cs.len() == n + 1);
    assert(cs[0] == c);
    match r {
        Re::Zero => {}, Re::Eps => {},
        Re::Cls(k) => {
            let l = lf(r);
            assert(l[0] == (k, Re::Eps));
            if matches(r, cs) { assert(ink(l[0].0, c) && matches(l[0].1, s)); }
        }
        Re::Alt(a, b) => { l_lf(*a, c, s); l_lf(*b, c, s); l_lf_concat(lf(*a), lf(*b), c, s); }
        Re::Cat(a, b) => {
            let (a, b) = (*a, *b);
            assert(r == cat(a, b));
            l_lmap(lf(a), b, c, s);
            if nullable(a) { l_lf_concat(lmap(lf(a), b), lf(b), c, s); l_lf(b, c, s); }
            l_nullable(a);
            if lf_has(lmap(lf(a), b), c, s) {
                let i = choose|i: int| 0 <= i <= n && lf_has(lf(a), c, #[trigger] s.subrange(0, i)) && matches(b, s.subrange(i, n));
                l_lf(a, c, s.subrange(0, i));
                assert(cons(c, s.subrange(0, i)) =~= cs.subrange(0, i + 1));
                assert(s.subrange(i, n) =~= cs.subrange(i + 1, n + 1));
                l_cat(a, b, cs, i + 1);
            }
            if nullable(a) && matches(b, cs) {
                assert(cs.subrange(0, 0) =~= Seq::<u8>::empty());
                assert(cs.subrange(0, n + 1) =~= cs);
                l_cat(a, b, cs, 0);
            }
            if matches(r, cs) {
                let j = l_cat_split(a, b, cs);
                if j == 0 {
                    assert(cs.subrange(0, 0) =~= Seq::<u8>::empty());
                    assert(cs.subrange(0, n + 1) =~= cs);
                } else {
                    let i = j - 1;
                    l_lf(a, c, s.subrange(0, i));
                    assert(cons(c, s.subrange(0, i)) =~= cs.subrange(0, i + 1));
                    assert(s.subrange(i, n) =~= cs.subrange(i + 1, n + 1));
                    assert(lf_has(lf(a), c, s.subrange(0, i)));
                }
            }
        }
        Re::Star(a) => {
            let a = *a;
            l_lmap(lf(a), r, c, s);
            if lf_has(lmap(lf(a), r), c, s) {
                let i = choose|i: int| 0 <= i <= n && lf_has(lf(a), c, #[trigger] s.subrange(0, i)) && matches(r, s.subrange(i, n));
                l_lf(a, c, s.subrange(0, i));
                assert(cons(c, s.subrange(0, i)) =~= cs.subrange(0, i + 1));
                assert(s.subrange(i, n) =~= cs.subrange(i + 1, n + 1));
            }
            if matches(r, cs) {
                let j = choose|i: int| 0 < i <= n + 1 && matches(a, #[trigger] cs.subrange(0, i)) && matches(r, cs.subrange(i, n + 1));
                let i = j - 1;
                l_lf(a, c, s.subrange(0, i));
                assert(cons(c, s.subrange(0, i)) =~= cs.subrange(0, i + 1));
                assert(s.subrange(i, n) =~= cs.subrange(i + 1, n + 1));
                assert(lf_has(lf(a), c, s.subrange(0, i)));
            }
        }
    }
}

} // verus!
}
