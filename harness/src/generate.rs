//! Inputs: grammar-directed, mutated, and exhaustive short words.
use crate::oracle::*;
pub struct Rng(pub u64);
impl Rng {
	pub fn u(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
		z ^ (z >> 31)
	}
	pub fn n(&mut self, n: usize) -> usize { (self.u() % n as u64) as usize }
	pub fn p(&mut self, n: usize) -> bool { self.n(n) == 0 }
	pub fn r(&mut self, lo: usize, hi: usize) -> usize { lo + self.n(hi - lo + 1) }
	pub fn pick<'a>(&mut self, s: &'a [u8]) -> u8 { s[self.n(s.len())] }
}
const AL: &[u8] = b"aabbxxizzAXZIefrnk";
const DG: &[u8] = b"001299457";
fn alpha(r: &mut Rng) -> u8 { if r.p(3) { b'a' + r.n(26) as u8 - if r.p(3) { 32 } else { 0 } } else { r.pick(AL) } }
fn al_(r: &mut Rng, lo: usize, hi: usize) -> Vec<u8> { let n = r.r(lo, hi); (0..n).map(|_| alpha(r)).collect() }
fn an_(r: &mut Rng, lo: usize, hi: usize) -> Vec<u8> {
	let n = r.r(lo, hi);
	match r.n(4) { 0 => (0..n).map(|_| alpha(r)).collect(), 1 => (0..n).map(|_| r.pick(DG)).collect(), _ => (0..n).map(|_| if r.p(2) { alpha(r) } else { r.pick(DG) }).collect() }
}
fn many(r: &mut Rng) -> usize { if r.p(40) { r.r(8, 60) } else if r.p(6) { r.r(3, 8) } else { r.r(1, 3) } }
fn join(l: Vec<Vec<u8>>) -> Vec<u8> { l.join(&b'-') }
pub fn g_variant(r: &mut Rng) -> Vec<u8> { if r.p(2) { an_(r, 5, 8) } else { let mut v = vec![r.pick(DG)]; v.extend(an_(r, 3, 3)); v } }
pub fn g_variants(r: &mut Rng) -> Vec<u8> { if r.p(12) { return vec![]; } let n = many(r); join((0..n).map(|_| g_variant(r)).collect()) }
fn sing(r: &mut Rng) -> Vec<u8> { loop { let c = an_(r, 1, 1); if !c[0].eq_ignore_ascii_case(&b'x') { return c; } } }
pub fn g_extension(r: &mut Rng) -> Vec<u8> { let n = many(r); let mut l = vec![sing(r)]; for _ in 0..n { l.push(an_(r, 2, 8)) } join(l) }
pub fn g_extensions(r: &mut Rng) -> Vec<u8> { if r.p(12) { return vec![]; } let n = many(r); join((0..n).map(|_| g_extension(r)).collect()) }
pub fn g_private(r: &mut Rng) -> Vec<u8> { let n = many(r); let mut l = vec![if r.p(3) { b"X".to_vec() } else { b"x".to_vec() }]; for _ in 0..n { l.push(if r.p(3) { an_(r, 1, 1) } else { an_(r, 1, 8) }) } join(l) }
pub fn g_extlang(r: &mut Rng) -> Vec<u8> { let n = r.r(1, 3); join((0..n).map(|_| al_(r, 3, 3)).collect()) }
pub fn g_language(r: &mut Rng) -> Vec<u8> {
	if r.p(2) { al_(r, 2, 8) } else { let mut l = vec![al_(r, 2, 3)]; if r.p(2) { l.push(g_extlang(r)) } join(l) }
}
pub fn g_region(r: &mut Rng) -> Vec<u8> { if r.p(2) { al_(r, 2, 2) } else { (0..3).map(|_| r.pick(DG)).collect() } }
pub fn g_langtag(r: &mut Rng) -> Vec<u8> {
	let mut l = vec![g_language(r)];
	if r.p(2) { l.push(al_(r, 4, 4)) }
	if r.p(2) { l.push(g_region(r)) }
	if r.p(2) { let v = g_variants(r); if !v.is_empty() { l.push(v) } }
	if r.p(2) { let v = g_extensions(r); if !v.is_empty() { l.push(v) } }
	if r.p(2) { l.push(g_private(r)) }
	join(l)
}
pub fn recase(r: &mut Rng, b: &[u8]) -> Vec<u8> {
	match r.n(4) { 0 => b.to_ascii_uppercase(), 1 => b.to_ascii_lowercase(),
		_ => b.iter().map(|c| if c.is_ascii_alphabetic() && r.p(2) { c ^ 0x20 } else { *c }).collect() }
}
pub fn g_grand(r: &mut Rng) -> Vec<u8> { let i = r.n(26); let t = GRANDFATHERED[i].0.as_bytes(); if r.p(3) { t.to_vec() } else { recase(r, t) } }
pub fn g_tag(r: &mut Rng) -> Vec<u8> { match r.n(8) { 0 => g_private(r), 1 | 2 => g_grand(r), _ => g_langtag(r) } }
/// a well-formed value of the t-th type (index in TYPES of props.rs)
pub fn valid(r: &mut Rng, t: usize) -> Vec<u8> {
	match t {
		0 => g_tag(r), 1 => g_langtag(r), 2 => g_extension(r), 3 => g_extensions(r), 4 => an_(r, 2, 8), 5 => g_language(r),
		6 => g_extlang(r), 7 => al_(r, 3, 3), 8 => al_(r, 2, 8), 9 => g_private(r), 10 => an_(r, 1, 8), 11 => g_region(r),
		12 => al_(r, 4, 4), 13 => g_variant(r), _ => g_variants(r),
	}
}
const BAD: &[&[u8]] = &[b"-", b"--", b"_", b" ", b"@", b"[", b"`", b"{", b"/", b":", b"\0", b"\n", b"\x7f", "é".as_bytes(), "ſ".as_bytes(), "K".as_bytes(), "\u{10ffff}".as_bytes(),
	b"\xc1\xa1", b"\xe0\x81\xa1", b"\xf0\x80\x81\xa1", b"\xc0\xad", b"\x80", b"\xff", b"\xc3", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"a", b"A", b"0", b"x", b"9", b"i", b"z", b"Z"];
pub fn mutate(r: &mut Rng, b: &[u8]) -> Vec<u8> {
	let mut b = b.to_vec();
	let k = r.r(1, 2);
	for _ in 0..k {
		let i = r.n(b.len() + 1);
		match r.n(9) {
			0 if i < b.len() => { b.remove(i); }
			1 => { let w = BAD[r.n(BAD.len())]; b.splice(i..i, w.iter().copied()); }
			2 if i < b.len() => { let w = BAD[r.n(BAD.len())]; b.splice(i..i + 1, w.iter().copied()); }
			3 if i < b.len() => { let c = b[i]; b.insert(i, c) }
			4 if i < b.len() => b[i] ^= 1 << r.n(8),
			5 => b.truncate(i),
			6 => { // move, drop or duplicate a subtag
				let mut l: Vec<Vec<u8>> = segs(&b).into_iter().map(|s| s.to_vec()).collect();
				let (i, j) = (r.n(l.len()), r.n(l.len()));
				match r.n(3) { 0 => l.swap(i, j), 1 => { let s = l[i].clone(); l.insert(j, s) } _ => { l.remove(i); } }
				b = join(l);
			}
			7 => { let s = an_(r, 1, 9); let w = [b"-".to_vec(), s].concat(); let at = b.iter().enumerate().filter(|(_, c)| **c == b'-').map(|x| x.0).chain([b.len()]).collect::<Vec<_>>(); let i = at[r.n(at.len())]; b.splice(i..i, w); }
			_ => { let l = r.n(4); let w: Vec<u8> = if l == 0 { g_grand(r) } else { an_(r, 1, 9) }; if r.p(2) { b.push(b'-') } b.extend(w) }
		}
	}
	b
}
pub fn input(r: &mut Rng, t: usize) -> Vec<u8> {
	let v = if r.p(8) { let u = r.n(15); valid(r, u) } else { valid(r, t) };
	if r.p(3) { v } else if r.p(4) { recase(r, &v) } else { mutate(r, &v) }
}
/// arbitrary lists of subtags, hardly ever well-formed
pub fn soup(r: &mut Rng) -> Vec<u8> { let n = r.r(1, 6); join((0..n).map(|_| match r.n(4) { 0 => al_(r, 1, 9), 1 => an_(r, 0, 1), _ => an_(r, 1, 9) }).collect()) }
/// second input of a pair
pub fn other(r: &mut Rng, t: usize, a: &[u8]) -> Vec<u8> {
	match r.n(10) {
		0..=2 => recase(r, a), 3 | 4 => mutate(r, a), 5 => valid(r, t),
		6 => { let mut b = recase(r, a); if !b.is_empty() { let i = r.n(b.len()); b[i] ^= 0x20 } b }
		7 => { let mut b = a.to_vec(); b.truncate(r.n(a.len() + 1)); b }
		8 => { let v = valid(r, t); [a, b"-", &v[..]].concat() }
		_ => { let mut b = recase(r, a); if !b.is_empty() { let i = r.n(b.len()); b[i] = if b[i].is_ascii_digit() { r.pick(DG) } else if b[i] != b'-' { alpha(r) } else { b[i] } } b }
	}
}
