//! Reference base58 (Bitcoin alphabet): big-endian number in base 58, leading zero bytes as '1'.
pub const ALPHABET: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
pub fn encode(b: &[u8]) -> String {
	let zeros = b.iter().take_while(|x| **x == 0).count();
	let mut n: u128 = 0;
	for x in b {
		n = n * 256 + *x as u128;
	}
	let mut out = vec![];
	while n > 0 {
		out.push(ALPHABET[(n % 58) as usize]);
		n /= 58;
	}
	out.extend(std::iter::repeat(b'1').take(zeros));
	out.reverse();
	String::from_utf8(out).expect("ascii")
}
