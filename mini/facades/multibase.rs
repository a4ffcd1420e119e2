//ver: 0.9.1
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Error {
	UnknownBase(char),
	InvalidBaseString,
}
pub type Result<T> = std::result::Result<T, Error>;
macro_rules! bases {
	($($n:ident $c:literal $k:expr),* $(,)?) => {
		#[derive(Debug, PartialEq, Eq, Clone, Copy, Hash)]
		pub enum Base { $($n),* }
		impl Base {
			pub fn from_code(c: char) -> Result<Self> { match c { $($c => Ok(Base::$n),)* _ => Err(Error::UnknownBase(c)) } }
			pub fn code(&self) -> char { match self { $(Base::$n => $c),* } }
			fn kind(&self) -> Kind { match self { $(Base::$n => $k),* } }
		}
	};
}
enum Kind {
	Raw,
	/// alphabet, bits, padding
	Bits(&'static str, u32, bool),
	Radix(&'static str),
}
use Kind::*;
bases!(
	Identity '\0' Raw,
	Base2 '0' Bits("01", 1, false),
	Base8 '7' Bits("01234567", 3, false),
	Base10 '9' Radix("0123456789"),
	Base16Lower 'f' Bits("0123456789abcdef", 4, false),
	Base16Upper 'F' Bits("0123456789ABCDEF", 4, false),
	Base32Lower 'b' Bits("abcdefghijklmnopqrstuvwxyz234567", 5, false),
	Base32Upper 'B' Bits("ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", 5, false),
	Base32PadLower 'c' Bits("abcdefghijklmnopqrstuvwxyz234567", 5, true),
	Base32PadUpper 'C' Bits("ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", 5, true),
	Base32HexLower 'v' Bits("0123456789abcdefghijklmnopqrstuv", 5, false),
	Base32HexUpper 'V' Bits("0123456789ABCDEFGHIJKLMNOPQRSTUV", 5, false),
	Base32HexPadLower 't' Bits("0123456789abcdefghijklmnopqrstuv", 5, true),
	Base32HexPadUpper 'T' Bits("0123456789ABCDEFGHIJKLMNOPQRSTUV", 5, true),
	Base32Z 'h' Bits("ybndrfg8ejkmcpqxot1uwisza345h769", 5, false),
	Base36Lower 'k' Radix("0123456789abcdefghijklmnopqrstuvwxyz"),
	Base36Upper 'K' Radix("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"),
	Base58Flickr 'Z' Radix("123456789abcdefghijkmnopqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ"),
	Base58Btc 'z' Radix("123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"),
	Base64 'm' Bits("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", 6, false),
	Base64Pad 'M' Bits("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", 6, true),
	Base64Url 'u' Bits("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_", 6, false),
	Base64UrlPad 'U' Bits("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_", 6, true),
);
impl Base {
	pub fn encode<I: AsRef<[u8]>>(&self, i: I) -> String {
		let i = i.as_ref();
		match self.kind() {
			Raw => String::from_utf8_lossy(i).into_owned(),
			Bits(a, n, pad) => {
				let a: Vec<char> = a.chars().collect();
				let (mut acc, mut have, mut s) = (0u32, 0, String::new());
				for b in i {
					acc = (acc << 8 | *b as u32) & 0xffff;
					have += 8;
					while have >= n {
						have -= n;
						s.push(a[(acc >> have) as usize & ((1 << n) - 1)]);
					}
				}
				if have > 0 {
					s.push(a[(acc << (n - have)) as usize & ((1 << n) - 1)]);
				}
				let block = if n == 5 { 8 } else { 4 };
				while pad && s.len() % block != 0 {
					s.push('=');
				}
				s
			},
			Radix(a) => {
				let a: Vec<char> = a.chars().collect();
				let mut d: Vec<u32> = vec![];
				for b in i {
					let mut c = *b as u32;
					for x in d.iter_mut() {
						c += *x << 8;
						*x = c % a.len() as u32;
						c /= a.len() as u32;
					}
					while c > 0 {
						d.push(c % a.len() as u32);
						c /= a.len() as u32;
					}
				}
				d.extend(i.iter().take_while(|x| **x == 0).map(|_| 0));
				d.iter().rev().map(|x| a[*x as usize]).collect()
			},
		}
	}
	pub fn decode<I: AsRef<str>>(&self, i: I) -> Result<Vec<u8>> {
		let i = i.as_ref();
		match self.kind() {
			Raw => Ok(i.as_bytes().to_vec()),
			Bits(a, n, pad) => {
				let body = if pad {
					let block = if n == 5 { 8 } else { 4 };
					if i.len() % block != 0 {
						return Err(Error::InvalidBaseString)
					}
					i.trim_end_matches('=')
				} else {
					i
				};
				let (mut acc, mut have, mut r) = (0u32, 0, vec![]);
				for c in body.chars() {
					let v = a.chars().position(|x| x == c).ok_or(Error::InvalidBaseString)? as u32;
					acc = (acc << n | v) & 0xffff;
					have += n;
					if have >= 8 {
						have -= 8;
						r.push((acc >> have) as u8);
					}
				}
				// neither a whole symbol too many nor stray bits
				if have >= n || acc & ((1 << have) - 1) != 0 {
					return Err(Error::InvalidBaseString)
				}
				if pad && self.encode(&r) != i {
					return Err(Error::InvalidBaseString)
				}
				Ok(r)
			},
			Radix(a) => {
				let mut b: Vec<u32> = vec![];
				let zero = a.chars().next().unwrap();
				for c in i.chars() {
					let mut v = a.chars().position(|x| x == c).ok_or(Error::InvalidBaseString)? as u32;
					for x in b.iter_mut() {
						v += *x * a.len() as u32;
						*x = v & 255;
						v >>= 8;
					}
					while v > 0 {
						b.push(v & 255);
						v >>= 8;
					}
				}
				b.extend(i.chars().take_while(|c| *c == zero).map(|_| 0));
				Ok(b.iter().rev().map(|x| *x as u8).collect())
			},
		}
	}
}
pub fn encode<T: AsRef<[u8]>>(base: Base, input: T) -> String {
	let mut s = base.encode(input.as_ref());
	s.insert(0, base.code());
	s
}
pub fn decode<T: AsRef<str>>(input: T) -> Result<(Base, Vec<u8>)> {
	let s = input.as_ref();
	let c = s.chars().next().ok_or(Error::InvalidBaseString)?;
	let b = Base::from_code(c)?;
	Ok((b, b.decode(&s[c.len_utf8()..])?))
}
