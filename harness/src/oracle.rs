//! RFC 5646 section 2.1, written from the RFC on subtag lists; shares nothing
//! with the automata of the crate.
pub fn lower(b: &[u8]) -> Vec<u8> { b.iter().map(|c| c.to_ascii_lowercase()).collect() }
pub fn segs(b: &[u8]) -> Vec<&[u8]> { b.split(|c| *c == b'-').collect() }
fn al(s: &[u8], lo: usize, hi: usize) -> bool { (lo..=hi).contains(&s.len()) && s.iter().all(|c| c.is_ascii_alphabetic()) }
fn an(s: &[u8], lo: usize, hi: usize) -> bool { (lo..=hi).contains(&s.len()) && s.iter().all(|c| c.is_ascii_alphanumeric()) }
fn dg(s: &[u8], n: usize) -> bool { s.len() == n && s.iter().all(|c| c.is_ascii_digit()) }
pub fn script(s: &[u8]) -> bool { al(s, 4, 4) }
pub fn region(s: &[u8]) -> bool { al(s, 2, 2) || dg(s, 3) }
pub fn variant(s: &[u8]) -> bool { an(s, 5, 8) || (an(s, 4, 4) && s[0].is_ascii_digit()) }
pub fn primary(s: &[u8]) -> bool { al(s, 2, 8) }
pub fn extlang_tag(s: &[u8]) -> bool { al(s, 3, 3) }
pub fn ext_subtag(s: &[u8]) -> bool { an(s, 2, 8) }
pub fn pu_subtag(s: &[u8]) -> bool { an(s, 1, 8) }
pub fn singleton(s: &[u8]) -> bool { s.len() == 1 && s[0].is_ascii_alphanumeric() && !s[0].eq_ignore_ascii_case(&b'x') }
pub fn variants(s: &[u8]) -> bool { s.is_empty() || segs(s).iter().all(|t| variant(t)) }
pub fn extlang(s: &[u8]) -> bool { let l = segs(s); l.len() <= 3 && l.iter().all(|t| extlang_tag(t)) }
pub fn language(s: &[u8]) -> bool {
	match s.iter().position(|c| *c == b'-') {
		None => primary(s),
		Some(i) => al(&s[..i], 2, 3) && extlang(&s[i + 1..]),
	}
}
pub fn extension(s: &[u8]) -> bool { let l = segs(s); l.len() >= 2 && singleton(l[0]) && l[1..].iter().all(|t| ext_subtag(t)) }
pub fn privateuse(s: &[u8]) -> bool { let l = segs(s); l.len() >= 2 && l[0].eq_ignore_ascii_case(b"x") && l[1..].iter().all(|t| pu_subtag(t)) }
/// the extensions of a list, None when it is not one
pub fn ext_list(s: &[u8]) -> Option<Vec<Vec<u8>>> {
	if s.is_empty() { return Some(vec![]); }
	let mut out: Vec<Vec<u8>> = vec![];
	for t in segs(s) {
		if t.len() == 1 { out.push(t.to_vec()) }
		else { let l = out.last_mut()?; l.push(b'-'); l.extend_from_slice(t); }
	}
	out.iter().all(|e| extension(e)).then_some(out)
}
pub fn extensions(s: &[u8]) -> bool { ext_list(s).is_some() }
#[derive(Debug, Clone, PartialEq)]
pub struct Parts { pub language: Vec<u8>, pub script: Option<Vec<u8>>, pub region: Option<Vec<u8>>, pub variants: Vec<u8>, pub extensions: Vec<u8>, pub private_use: Option<Vec<u8>> }
pub fn decomp(s: &[u8]) -> Option<Parts> {
	let l = segs(s);
	let j = |a: usize, b: usize| l[a..b].join(&b'-');
	if !primary(l[0]) { return None; }
	let mut i = 1;
	if l[0].len() <= 3 { while i < l.len() && i <= 3 && extlang_tag(l[i]) { i += 1 } }
	let language = j(0, i);
	let script = (i < l.len() && script(l[i])).then(|| { i += 1; l[i - 1].to_vec() });
	let region = (i < l.len() && region(l[i])).then(|| { i += 1; l[i - 1].to_vec() });
	let a = i;
	while i < l.len() && variant(l[i]) { i += 1 }
	let variants = j(a, i);
	let a = i;
	while i < l.len() && singleton(l[i]) {
		let b = i + 1; i += 1;
		while i < l.len() && ext_subtag(l[i]) { i += 1 }
		if i == b { return None; }
	}
	let extensions = j(a, i);
	let private_use = if i < l.len() { let p = j(i, l.len()); if !privateuse(&p) { return None; } Some(p) } else { None };
	Some(Parts { language, script, region, variants, extensions, private_use })
}
pub fn langtag(s: &[u8]) -> bool { decomp(s).is_some() }
/// (text, regular)
pub const GRANDFATHERED: [(&str, bool); 26] = [
	("en-GB-oed", false), ("i-ami", false), ("i-bnn", false), ("i-default", false), ("i-enochian", false), ("i-hak", false),
	("i-klingon", false), ("i-lux", false), ("i-mingo", false), ("i-navajo", false), ("i-pwn", false), ("i-tao", false),
	("i-tay", false), ("i-tsu", false), ("sgn-BE-FR", false), ("sgn-BE-NL", false), ("sgn-CH-DE", false),
	("art-lojban", true), ("cel-gaulish", true), ("no-bok", true), ("no-nyn", true), ("zh-guoyu", true), ("zh-hakka", true),
	("zh-min", true), ("zh-min-nan", true), ("zh-xiang", true),
];
pub fn grandfathered(s: &[u8]) -> Option<usize> { GRANDFATHERED.iter().position(|(t, _)| t.as_bytes().eq_ignore_ascii_case(s)) }
pub fn language_tag(s: &[u8]) -> bool { langtag(s) || privateuse(s) || grandfathered(s).is_some() }
/// lower-cased bytes in turn; a proper prefix sorts last
pub fn cmp(a: &[u8], b: &[u8]) -> std::cmp::Ordering {
	let (a, b) = (lower(a), lower(b));
	for i in 0.. {
		match (a.get(i), b.get(i)) {
			(None, None) => return std::cmp::Ordering::Equal,
			(None, _) => return std::cmp::Ordering::Greater,
			(_, None) => return std::cmp::Ordering::Less,
			(Some(x), Some(y)) if x != y => return x.cmp(y),
			_ => (),
		}
	}
	unreachable!()
}
