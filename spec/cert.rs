// Checks of the certificate tables; closes the module opened by tables.rs.
/// class number of a byte: 0-25 letters (case folded), 26 digits, 27 '-', 28 anything else
pub open spec fn ci(c: u8) -> int {
    if 0x41 <= c && c <= 0x5a { c - 0x41 } else if 0x61 <= c && c <= 0x7a { c - 0x61 }
    else if 0x30 <= c && c <= 0x39 { 26 } else if c == 0x2d { 27 } else { 28 }
}
pub open spec fn crep(k: int) -> u8 {
    if k < 26 { (0x61 + k) as u8 } else if k == 26 { 0x30 } else if k == 27 { 0x2d } else { 0 }
}
pub open spec fn kind_ok(k: K) -> bool { match k { K::Lit(l) => is_alpha(l) || l == 0x2d, _ => true } }

pub open spec fn in_node(i: int) -> bool { 0 <= i && i < n_node() }
/// the regex a node stands for
pub open spec fn den(i: int) -> Re decreases i {
    if i < 0 { Re::Zero } else {
        match node(i) {
            Nd::Zero => Re::Zero, Nd::Eps => Re::Eps, Nd::Cls(k) => cls(k),
            Nd::Cat(a, b) => if a < i && b < i { cat(den(a), den(b)) } else { Re::Zero },
            Nd::Alt(a, b) => if a < i && b < i { alt(den(a), den(b)) } else { Re::Zero },
            Nd::Star(a) => if a < i { star(den(a)) } else { Re::Zero },
        }
    }
}
/// den(y) == scat(den(x), den(b))
pub open spec fn scat_ok(x: int, b: int, y: int) -> bool decreases x {
    in_node(x) && in_node(b) && in_node(y) && match node(x) {
        Nd::Eps => y == b,
        Nd::Cat(p, q) => match node(y) { Nd::Cat(p2, z) => p == p2 && q < x && p < x && p < y && z < y && scat_ok(q, b, z), _ => false },
        _ => match node(y) { Nd::Cat(x2, b2) => x == x2 && b == b2 && x < y && b < y, _ => false },
    }
}
/// the first n entries of t are those of s with b appended
pub open spec fn lmap_ok(s: Seq<(K, int)>, b: int, t: Seq<(K, int)>, n: int) -> bool decreases n {
    if n <= 0 { true } else { s[n - 1].0 == t[n - 1].0 && scat_ok(s[n - 1].1, b, t[n - 1].1) && lmap_ok(s, b, t, n - 1) }
}
/// t[off..off+n] == s[0..n]
pub open spec fn same_ok(s: Seq<(K, int)>, t: Seq<(K, int)>, off: int, n: int) -> bool decreases n {
    if n <= 0 { true } else { s[n - 1].0 == t[off + n - 1].0 && s[n - 1].1 == t[off + n - 1].1 && same_ok(s, t, off, n - 1) }
}
pub open spec fn range_ok(t: Seq<(K, int)>, n: int) -> bool decreases n {
    if n <= 0 { true } else { in_node(t[n - 1].1) && kind_ok(t[n - 1].0) && range_ok(t, n - 1) }
}
pub open spec fn node_ok(i: int) -> bool {
    let t = rows(i);
    range_ok(t, t.len() as int) && match node(i) {
        Nd::Zero => t.len() == 0 && !eps(i),
        Nd::Eps => t.len() == 0 && eps(i),
        Nd::Cls(k) => t.len() == 1 && t[0].0 == k && node(t[0].1) == Nd::Eps && !eps(i),
        Nd::Alt(a, b) => 0 <= a && a < i && 0 <= b && b < i && eps(i) == (eps(a) || eps(b))
            && t.len() == rows(a).len() + rows(b).len() && same_ok(rows(a), t, 0, rows(a).len() as int) && same_ok(rows(b), t, rows(a).len() as int, rows(b).len() as int),
        Nd::Cat(a, b) => 0 <= a && a < i && 0 <= b && b < i && eps(i) == (eps(a) && eps(b)) && lmap_ok(rows(a), b, t, rows(a).len() as int)
            && (if eps(a) { t.len() == rows(a).len() + rows(b).len() && same_ok(rows(b), t, rows(a).len() as int, rows(b).len() as int) } else { t.len() == rows(a).len() }),
        Nd::Star(a) => 0 <= a && a < i && eps(i) && t.len() == rows(a).len() && lmap_ok(rows(a), i, t, rows(a).len() as int),
    }
}
pub open spec fn nodes_ok(lo: int, hi: int) -> bool decreases hi - lo {
    if hi - lo <= 0 { true } else if hi - lo == 1 { node_ok(lo) } else { nodes_ok(lo, lo + (hi - lo) / 2) && nodes_ok(lo + (hi - lo) / 2, hi) }
}
pub proof fn c_nodes() ensures nodes_ok(0, n_node()) { assert(nodes_ok(0, n_node())) by (compute_only); }
pub open spec fn has(s: Seq<int>, x: int, n: nat) -> bool decreases n {
    if n == 0 { false } else { s[n - 1] == x || has(s, x, (n - 1) as nat) }
}
pub open spec fn subs(s: Seq<int>, t: Seq<int>, n: nat) -> bool decreases n {
    if n == 0 { true } else { has(t, s[n - 1], t.len()) && subs(s, t, (n - 1) as nat) }
}
/// targets of row entries on byte c
pub open spec fn tgt(t: Seq<(K, int)>, c: u8, n: nat) -> Seq<int> decreases n {
    if n == 0 { Seq::empty() } else {
        let e = t[n - 1];
        if ink(e.0, c) { tgt(t, c, (n - 1) as nat).push(e.1) } else { tgt(t, c, (n - 1) as nat) }
    }
}
#[verifier::memoize]
pub open spec fn ntgt(i: int, c: u8) -> Seq<int> { tgt(rows(i), c, rows(i).len()) }
pub open spec fn succ(s: Seq<int>, c: u8, n: nat) -> Seq<int> decreases n {
    if n == 0 { Seq::empty() } else { succ(s, c, (n - 1) as nat) + ntgt(s[n - 1], c) }
}
pub open spec fn any_eps(s: Seq<int>, n: nat) -> bool decreases n {
    if n == 0 { false } else { eps(s[n - 1]) || any_eps(s, (n - 1) as nat) }
}
pub open spec fn in_range(s: Seq<int>, n: nat) -> bool decreases n {
    if n == 0 { true } else { in_node(s[n - 1]) && in_range(s, (n - 1) as nat) }
}
pub open spec fn in_set(d: int) -> bool { 0 <= d && d < n_set() }
pub open spec fn cls_ok(d: int, k: int) -> bool {
    let u = succ(sset(d), crep(k), sset(d).len());
    let t = strans(d, k);
    let m = step_def(smin(d), k);
    if u.len() == 0 { m == -1 && t == -1 }
    else { in_set(t) && subs(u, sset(t), u.len()) && subs(sset(t), u, sset(t).len()) && m == smin(t) }
}
pub open spec fn clss_ok(d: int, n: nat) -> bool decreases n {
    if n == 0 { true } else { cls_ok(d, n - 1) && clss_ok(d, (n - 1) as nat) }
}
pub open spec fn set_ok(d: int) -> bool {
    0 <= smin(d) && smin(d) < n_state() && in_range(sset(d), sset(d).len())
    && acc_def(smin(d)) == any_eps(sset(d), sset(d).len()) && clss_ok(d, 29)
}
pub open spec fn sets_ok(lo: int, hi: int) -> bool decreases hi - lo {
    if hi - lo <= 0 { true } else if hi - lo == 1 { set_ok(lo) } else { sets_ok(lo, lo + (hi - lo) / 2) && sets_ok(lo + (hi - lo) / 2, hi) }
}
pub proof fn c_sets() ensures sets_ok(0, n_set()) { assert(sets_ok(0, n_set())) by (compute_only); }
pub proof fn l_step(m: int, k: int) ensures step(m, k) == step_def(m, k) { reveal(step); }
pub proof fn l_acc(m: int) ensures acc(m) == acc_def(m) { reveal(acc); }
pub proof fn c_language_tag() ensures den(root_language_tag()) == language_tag(), in_node(root_language_tag()), in_set(set_language_tag()), sset(set_language_tag()).len() == 1, sset(set_language_tag())[0] == root_language_tag(), smin(set_language_tag()) == init_language_tag() {
    assert(den(root_language_tag()) == language_tag()) by (compute_only);
    assert(sset(set_language_tag()).len() == 1 && sset(set_language_tag())[0] == root_language_tag() && smin(set_language_tag()) == init_language_tag()) by (compute_only);
}
pub proof fn c_privateuse() ensures den(root_privateuse()) == privateuse(), in_node(root_privateuse()), in_set(set_privateuse()), sset(set_privateuse()).len() == 1, sset(set_privateuse())[0] == root_privateuse(), smin(set_privateuse()) == init_privateuse() {
    assert(den(root_privateuse()) == privateuse()) by (compute_only);
    assert(sset(set_privateuse()).len() == 1 && sset(set_privateuse())[0] == root_privateuse() && smin(set_privateuse()) == init_privateuse()) by (compute_only);
}
pub proof fn c_privateuse_subtag() ensures den(root_privateuse_subtag()) == privateuse_subtag(), in_node(root_privateuse_subtag()), in_set(set_privateuse_subtag()), sset(set_privateuse_subtag()).len() == 1, sset(set_privateuse_subtag())[0] == root_privateuse_subtag(), smin(set_privateuse_subtag()) == init_privateuse_subtag() {
    assert(den(root_privateuse_subtag()) == privateuse_subtag()) by (compute_only);
    assert(sset(set_privateuse_subtag()).len() == 1 && sset(set_privateuse_subtag())[0] == root_privateuse_subtag() && smin(set_privateuse_subtag()) == init_privateuse_subtag()) by (compute_only);
}
pub proof fn c_langtag() ensures den(root_langtag()) == langtag(), in_node(root_langtag()), in_set(set_langtag()), sset(set_langtag()).len() == 1, sset(set_langtag())[0] == root_langtag(), smin(set_langtag()) == init_langtag() {
    assert(den(root_langtag()) == langtag()) by (compute_only);
    assert(sset(set_langtag()).len() == 1 && sset(set_langtag())[0] == root_langtag() && smin(set_langtag()) == init_langtag()) by (compute_only);
}
pub proof fn c_language() ensures den(root_language()) == language(), in_node(root_language()), in_set(set_language()), sset(set_language()).len() == 1, sset(set_language())[0] == root_language(), smin(set_language()) == init_language() {
    assert(den(root_language()) == language()) by (compute_only);
    assert(sset(set_language()).len() == 1 && sset(set_language())[0] == root_language() && smin(set_language()) == init_language()) by (compute_only);
}
pub proof fn c_primary() ensures den(root_primary()) == primary(), in_node(root_primary()), in_set(set_primary()), sset(set_primary()).len() == 1, sset(set_primary())[0] == root_primary(), smin(set_primary()) == init_primary() {
    assert(den(root_primary()) == primary()) by (compute_only);
    assert(sset(set_primary()).len() == 1 && sset(set_primary())[0] == root_primary() && smin(set_primary()) == init_primary()) by (compute_only);
}
pub proof fn c_extlang() ensures den(root_extlang()) == extlang(), in_node(root_extlang()), in_set(set_extlang()), sset(set_extlang()).len() == 1, sset(set_extlang())[0] == root_extlang(), smin(set_extlang()) == init_extlang() {
    assert(den(root_extlang()) == extlang()) by (compute_only);
    assert(sset(set_extlang()).len() == 1 && sset(set_extlang())[0] == root_extlang() && smin(set_extlang()) == init_extlang()) by (compute_only);
}
pub proof fn c_extlang_tag() ensures den(root_extlang_tag()) == extlang_tag(), in_node(root_extlang_tag()), in_set(set_extlang_tag()), sset(set_extlang_tag()).len() == 1, sset(set_extlang_tag())[0] == root_extlang_tag(), smin(set_extlang_tag()) == init_extlang_tag() {
    assert(den(root_extlang_tag()) == extlang_tag()) by (compute_only);
    assert(sset(set_extlang_tag()).len() == 1 && sset(set_extlang_tag())[0] == root_extlang_tag() && smin(set_extlang_tag()) == init_extlang_tag()) by (compute_only);
}
pub proof fn c_script() ensures den(root_script()) == script(), in_node(root_script()), in_set(set_script()), sset(set_script()).len() == 1, sset(set_script())[0] == root_script(), smin(set_script()) == init_script() {
    assert(den(root_script()) == script()) by (compute_only);
    assert(sset(set_script()).len() == 1 && sset(set_script())[0] == root_script() && smin(set_script()) == init_script()) by (compute_only);
}
pub proof fn c_region() ensures den(root_region()) == region(), in_node(root_region()), in_set(set_region()), sset(set_region()).len() == 1, sset(set_region())[0] == root_region(), smin(set_region()) == init_region() {
    assert(den(root_region()) == region()) by (compute_only);
    assert(sset(set_region()).len() == 1 && sset(set_region())[0] == root_region() && smin(set_region()) == init_region()) by (compute_only);
}
pub proof fn c_variant() ensures den(root_variant()) == variant(), in_node(root_variant()), in_set(set_variant()), sset(set_variant()).len() == 1, sset(set_variant())[0] == root_variant(), smin(set_variant()) == init_variant() {
    assert(den(root_variant()) == variant()) by (compute_only);
    assert(sset(set_variant()).len() == 1 && sset(set_variant())[0] == root_variant() && smin(set_variant()) == init_variant()) by (compute_only);
}
pub proof fn c_variants() ensures den(root_variants()) == variants(), in_node(root_variants()), in_set(set_variants()), sset(set_variants()).len() == 1, sset(set_variants())[0] == root_variants(), smin(set_variants()) == init_variants() {
    assert(den(root_variants()) == variants()) by (compute_only);
    assert(sset(set_variants()).len() == 1 && sset(set_variants())[0] == root_variants() && smin(set_variants()) == init_variants()) by (compute_only);
}
pub proof fn c_extension() ensures den(root_extension()) == extension(), in_node(root_extension()), in_set(set_extension()), sset(set_extension()).len() == 1, sset(set_extension())[0] == root_extension(), smin(set_extension()) == init_extension() {
    assert(den(root_extension()) == extension()) by (compute_only);
    assert(sset(set_extension()).len() == 1 && sset(set_extension())[0] == root_extension() && smin(set_extension()) == init_extension()) by (compute_only);
}
pub proof fn c_extension_subtag() ensures den(root_extension_subtag()) == extension_subtag(), in_node(root_extension_subtag()), in_set(set_extension_subtag()), sset(set_extension_subtag()).len() == 1, sset(set_extension_subtag())[0] == root_extension_subtag(), smin(set_extension_subtag()) == init_extension_subtag() {
    assert(den(root_extension_subtag()) == extension_subtag()) by (compute_only);
    assert(sset(set_extension_subtag()).len() == 1 && sset(set_extension_subtag())[0] == root_extension_subtag() && smin(set_extension_subtag()) == init_extension_subtag()) by (compute_only);
}
pub proof fn c_extensions() ensures den(root_extensions()) == extensions(), in_node(root_extensions()), in_set(set_extensions()), sset(set_extensions()).len() == 1, sset(set_extensions())[0] == root_extensions(), smin(set_extensions()) == init_extensions() {
    assert(den(root_extensions()) == extensions()) by (compute_only);
    assert(sset(set_extensions()).len() == 1 && sset(set_extensions())[0] == root_extensions() && smin(set_extensions()) == init_extensions()) by (compute_only);
}

} // verus!
}
