// Driver of the verification overlay: evaluates the crate's own functions on
// cases read from stdin and writes one record per case. It is added to a copy
// of /repo/src on every run (see lib/overlay.py) and is never part of /repo.
use std::io::{BufRead, Write};

pub type Args<'a> = &'a [Vec<u8>];

pub fn unhex(s: &str) -> Vec<u8> {
	let b = s.as_bytes();
	let n = |c: u8| (c as char).to_digit(16).expect("driver input is hex") as u8;
	b.chunks(2).map(|p| n(p[0]) << 4 | n(p[1])).collect()
}
pub fn hex(b: &[u8]) -> String {
	b.iter().map(|x| format!("{x:02X}")).collect()
}
pub fn text(b: &[u8]) -> &str {
	std::str::from_utf8(b).expect("driver input is UTF-8")
}
pub fn chars(b: &[u8]) -> Vec<char> {
	text(b).chars().collect()
}
pub fn num(b: &[u8]) -> u64 {
	text(b).parse().expect("driver input is a number")
}

pub fn run() {
	std::panic::set_hook(Box::new(|_| {}));
	let stdin = std::io::stdin();
	for line in stdin.lock().lines() {
		let line = line.expect("driver input");
		let mut parts = line.split('\t');
		let op = parts.next().unwrap_or("").to_owned();
		let args: Vec<Vec<u8>> = parts.map(unhex).collect();
		let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dispatch(&op, &args)));
		if ok.is_err() {
			print!("\u{1}PANIC");
		}
		print!("\u{1e}\n");
		std::io::stdout().flush().ok();
	}
}
