//! harness run PROP SEED MILLIS THREADS [hex-hint..]    search for an input that breaks PROP
//! harness replay PROP HEX..                            run PROP on one case
mod generate;
mod oracle;
mod props;
use generate::*;
use props::*;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn hex(b: &[u8]) -> String { b.iter().map(|c| format!("{c:02x}")).collect() }
const HX: &[u8; 16] = b"0123456789abcdef";
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o }
fn report(prop: &str, c: &Case, msg: &str) -> String { format!("{{\"property\":\"{prop}\",\"case\":[{}],\"text\":[{}],\"message\":{}}}", c.iter().map(|x| js(&hex(x))).collect::<Vec<_>>().join(","), c.iter().map(|x| js(&show(x))).collect::<Vec<_>>().join(","), js(msg)) }

/// smaller case with a failure
fn shrink(prop: &str, c: &Case, until: Instant) -> (Case, String) {
	let mut c = c.clone(); let mut m = check(prop, &c).err().unwrap_or_default();
	loop {
		let mut better = None;
		'o: for k in 0..c.len() { for w in [16, 8, 4, 2, 1] { for i in 0..c[k].len() {
			if i + w > c[k].len() { break } if Instant::now() > until { return (c, m) }
			let mut d = c.clone(); d[k].drain(i..i + w);
			if let Err(e) = check(prop, &d) { better = Some((d, e)); break 'o }
		} } }
		match better { Some((d, e)) => { c = d; m = e } None => return (c, m) }
	}
}
struct Stats { evals: u64, distinct: HashSet<u64>, samples: Vec<Case> }
fn h(c: &Case) -> u64 { let mut x = 0xcbf29ce484222325u64; for b in c { for y in b { x = (x ^ *y as u64).wrapping_mul(0x100000001b3); } x = (x ^ 0x1ff).wrapping_mul(0x100000001b3) } x }

fn main() {
	std::panic::set_hook(Box::new(|i| { let s = i.to_string().replace('\n', " "); PANIC.with(|p| *p.borrow_mut() = s) }));
	let a: Vec<String> = std::env::args().collect();
	if a[1] == "replay" {
		let c: Case = match a[3].strip_prefix('@') {
			Some(f) => { let s = std::fs::read_to_string(f).unwrap(); s.split('\n').next().unwrap().split(' ').map(unhex).collect::<Vec<_>>() }
			None => a[3..].iter().map(|s| unhex(s)).collect(),
		};
		let c: Case = if a[3].starts_with('@') { c[..c.len() - 1].to_vec() } else { c };
		let (p, d) = (a[2].clone(), c.clone());
		let res = std::thread::Builder::new().stack_size(8 << 20).spawn(move || check(&p, &d)).unwrap().join().unwrap();
		match res { Ok(()) => println!("{{\"held\":true}}"), Err(m) => { println!("{}", report(&a[2], &c, &m)); std::process::exit(1) } }
		return;
	}
	let prop = a[2].clone(); let seed: u64 = a[3].parse().unwrap(); let ms: u64 = a[4].parse().unwrap(); let nt: usize = a[5].parse().unwrap();
	let hints: Vec<Vec<u8>> = a[6..].iter().map(|s| unhex(s)).collect();
	let start = Instant::now(); let end = start + Duration::from_millis(ms);
	let stop = Arc::new(AtomicBool::new(false));
	let fail: Arc<Mutex<Option<(Case, String)>>> = Arc::new(Mutex::new(None));
	let stats = Arc::new(Mutex::new(Stats { evals: 0, distinct: HashSet::new(), samples: vec![] }));
	let cur: Vec<Arc<(Mutex<Case>, AtomicU64)>> = (0..nt).map(|_| Arc::new((Mutex::new(vec![]), AtomicU64::new(0)))).collect();
	let mut hs = vec![];
	for k in 0..nt {
		let (stop, fail, stats, me, prop, hints) = (stop.clone(), fail.clone(), stats.clone(), cur[k].clone(), prop.clone(), hints.clone());
		hs.push(std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
			let mut r = Rng(seed.wrapping_mul(1000003).wrapping_add(k as u64).wrapping_mul(0x9e3779b97f4a7c15));
			let mut st = Stats { evals: 0, distinct: HashSet::new(), samples: vec![] };
			let prop = &prop[..];
			// the case under way, for when the process dies on it
			let log = std::env::var("HARNESS_CUR").ok().and_then(|d| std::fs::File::create(format!("{d}/cur.{k}")).ok());
			// returns true when the search must end
			let mut one = |c: Case, st: &mut Stats| -> bool {
				if c.iter().map(|b| b.len()).sum::<usize>() > 400000 { return false }
				*me.0.lock().unwrap() = c.clone(); me.1.store(start.elapsed().as_millis() as u64 + 1, Relaxed);
				if let Some(f) = &log { use std::os::unix::fs::FileExt; let mut s = String::new(); for x in &c { for y in x { s.push(HX[(y >> 4) as usize] as char); s.push(HX[(y & 15) as usize] as char) } s.push(' ') } s.push('\n'); let _ = f.write_all_at(s.as_bytes(), 0); }
				let res = check(prop, &c);
				me.1.store(0, Relaxed);
				st.evals += 1;
				if st.distinct.len() < 400000 && nontrivial(prop, &c) { if st.distinct.insert(h(&c)) && st.samples.len() < 3 && st.evals > 40 { st.samples.push(c.clone()) } }
				if let Err(m) = res {
					if !stop.swap(true, Relaxed) { let (c, m2) = shrink(prop, &c, Instant::now() + Duration::from_secs(3)); *fail.lock().unwrap() = Some((c, if m2.is_empty() { m } else { m2 })); }
					return true;
				}
				stop.load(Relaxed)
			};
			'go: {
				if k == 0 { for w in &hints { if one(vec![w.clone()], &mut st) { break 'go } for suf in [&b"a"[..], b"0", b"-a", b"", b"aa", b"aaa", b"-aa", b"aaaa", b"-x-a", b"aaaaa", b"aaaaaa"] { if one(vec![[w, suf].concat()], &mut st) { break 'go } } } }
				// exhaustive short words, split between the threads, for a third of the budget
				let abc: &[u8] = match prop { "P07" | "P17" => b"ai0-xXn\xc3\xa9", _ => b"aX0-xi" };
				let lim = start + Duration::from_millis(ms / 3);
				let mut n = 0usize;
				'ex: for len in 0..=8u32 {
					let tot = abc.len().pow(len);
					let mut i = k; 
					while i < tot {
						let mut w = vec![]; let mut q = i; for _ in 0..len { w.push(abc[q % abc.len()]); q /= abc.len() }
						let c = if pairs(prop) { let o = other(&mut r, 0, &w); vec![w, o] } else { vec![w] };
						if one(c, &mut st) { break 'go }
						i += nt; n += 1;
						if n % 16 == 0 && Instant::now() > lim { break 'ex }
					}
				}
				let ks = kinds(prop);
				if k == 0 { // one huge value: recursion that follows the length of a tag exhausts the stack
					let t = ks[0]; let mut w = b"en-a".to_vec();
					if !matches!(t, 0 | 1) { w = valid(&mut r, t) }
					while w.len() < if prop == "P18" { 100000 } else { 180000 } { let v = if matches!(t, 0 | 1) { b"abcdefgh".to_vec() } else { valid(&mut r, t) }; if !v.is_empty() { w.push(b'-'); w.extend(v) } }
					let c = if pairs(prop) { let o = recase(&mut r, &w); vec![w, o] } else { vec![w] };
					if one(c, &mut st) { break 'go }
				}
				while Instant::now() < end {
					for _ in 0..8 {
						let t = ks[r.n(ks.len())];
						let w = if r.p(25) { soup(&mut r) } else { input(&mut r, t) };
						let c = if pairs(prop) { let o = other(&mut r, t, &w); vec![w, o] } else { vec![w] };
						if one(c, &mut st) { break 'go }
					}
					if r.p(4000) { // very long values
						let t = ks[r.n(ks.len())]; let mut w = vec![]; let n = r.r(100, 1500);
						for _ in 0..n { let v = valid(&mut r, t); if !w.is_empty() { w.push(b'-') } w.extend(v); if w.len() > 20000 { break } }
						let c = if pairs(prop) { let o = recase(&mut r, &w); vec![w, o] } else { vec![w] };
						if one(c, &mut st) { break 'go }
					}
				}
			}
			let mut g = stats.lock().unwrap(); g.evals += st.evals; g.distinct.extend(st.distinct); g.samples.extend(st.samples);
		}).unwrap());
	}
	// watchdog: one evaluation that does not end
	while hs.iter().any(|x| !x.is_finished()) {
		std::thread::sleep(Duration::from_millis(20));
		for c in &cur { let t = c.1.load(Relaxed); if t != 0 && start.elapsed().as_millis() as u64 > t + 20000 + c.0.lock().unwrap().iter().map(|x| x.len() as u64).sum::<u64>() / 6 && fail.lock().unwrap().is_none() {
			let c = c.0.lock().unwrap().clone();
			println!("{{\"evaluations\":1,\"distinct_nontrivial\":1,\"samples\":[],\"fail\":{}}}", report(&prop, &c, "an operation did not terminate within 20 s and more"));
			std::process::exit(1);
		} }
	}
	let g = stats.lock().unwrap();
	let f = fail.lock().unwrap();
	println!("{{\"evaluations\":{},\"distinct_nontrivial\":{},\"samples\":[{}],\"fail\":{}}}", g.evals, g.distinct.len(), g.samples.iter().take(8).map(|c| format!("[{}]", c.iter().map(|x| js(&show(x))).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","), match &*f { Some((c, m)) => report(&prop, c, m), None => "null".into() });
	if f.is_some() { std::process::exit(1) }
}
