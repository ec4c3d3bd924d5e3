// What the contracts of comparison and hashing amount to.
pub mod laws {
use vstd::prelude::*;
use crate::sp::*;
use core::cmp::Ordering;
verus! {
spec fn rev(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
spec fn agree(a: Seq<u8>, b: Seq<u8>, i: int) -> bool { forall|j: int| 0 <= j < i ==> lower(#[trigger] a[j]) == lower(b[j]) }
proof fn l_eq_from(a: Seq<u8>, b: Seq<u8>, i: int)
    requires 0 <= i <= a.len(), i <= b.len(), agree(a, b, i),
    ensures (cmp_from(a, b, i) == Ordering::Equal) <==> lowers(a) == lowers(b),
    decreases a.len() - i
{
    l_lowers_eq(a, b);
    if i < a.len() && i < b.len() && lower(a[i]) == lower(b[i]) { l_eq_from(a, b, i + 1); }
}
/// two texts compare equal exactly when they are equal ignoring letter case
pub proof fn ordering_equal_iff_equal(a: Seq<u8>, b: Seq<u8>)
    ensures (cmpb(a, b) == Ordering::Equal) <==> lowers(a) == lowers(b)
{ reveal(cmpb); l_eq_from(a, b, 0); }
proof fn l_anti(a: Seq<u8>, b: Seq<u8>, i: int)
    requires 0 <= i,
    ensures cmp_from(b, a, i) == rev(cmp_from(a, b, i)),
    decreases a.len() - i
{ if i < a.len() && i < b.len() { l_anti(a, b, i + 1); } }
/// antisymmetry and totality
pub proof fn ordering_antisymmetric(a: Seq<u8>, b: Seq<u8>)
    ensures
        cmpb(a, b) == Ordering::Less <==> cmpb(b, a) == Ordering::Greater,
        cmpb(a, b) == Ordering::Equal <==> cmpb(b, a) == Ordering::Equal,
{ reveal(cmpb); l_anti(a, b, 0); }
proof fn l_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, i: int)
    requires 0 <= i, cmp_from(a, b, i) != Ordering::Greater, cmp_from(b, c, i) != Ordering::Greater,
    ensures
        cmp_from(a, c, i) != Ordering::Greater,
        cmp_from(a, c, i) == Ordering::Equal ==> cmp_from(a, b, i) == Ordering::Equal && cmp_from(b, c, i) == Ordering::Equal,
    decreases a.len() - i
{ if i < a.len() && i < b.len() && i < c.len() && lower(a[i]) == lower(b[i]) && lower(b[i]) == lower(c[i]) { l_trans(a, b, c, i + 1); } }
/// transitivity
pub proof fn ordering_transitive(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires cmpb(a, b) != Ordering::Greater, cmpb(b, c) != Ordering::Greater,
    ensures cmpb(a, c) != Ordering::Greater, (cmpb(a, b) == Ordering::Less || cmpb(b, c) == Ordering::Less) ==> cmpb(a, c) == Ordering::Less,
{ reveal(cmpb); l_trans(a, b, c, 0); }
proof fn l_first(a: Seq<u8>, b: Seq<u8>, i: int, k: int)
    requires 0 <= i <= k, k <= a.len(), k <= b.len(), agree(a, b, k),
    ensures cmp_from(a, b, i) == cmp_from(a, b, k),
    decreases k - i
{ if i < k { assert(lower(a[i]) == lower(b[i])); l_first(a, b, i + 1, k); } }
/// the first differing letter decides; a proper prefix sorts last
pub proof fn ordering_first_difference(a: Seq<u8>, b: Seq<u8>, k: int)
    requires 0 <= k <= a.len(), k <= b.len(), forall|j: int| 0 <= j < k ==> lower(#[trigger] a[j]) == lower(b[j]),
    ensures
        k < a.len() && k < b.len() && lower(a[k]) < lower(b[k]) ==> cmpb(a, b) == Ordering::Less,
        k == b.len() && k < a.len() ==> cmpb(a, b) == Ordering::Less,
{ reveal(cmpb); l_first(a, b, 0, k); }
/// equal values put the same data into a hasher
pub proof fn equal_values_hash_equally<H>(h: H, a: Seq<u8>, b: Seq<u8>)
    requires lowers(a) == lowers(b),
    ensures feed(h, lowers(a)) == feed(h, lowers(b)),
{ }
}
}
