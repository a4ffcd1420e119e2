//deps: serde
//ver: 0.4.0
pub mod serialize {
	use std::fmt;
	#[derive(Debug, PartialEq, Eq)]
	pub enum FromHexError {
		InvalidHex { character: char, index: usize },
	}
	impl fmt::Display for FromHexError {
		fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
			write!(f, "{self:?}")
		}
	}
	pub fn from_hex(v: &str) -> Result<Vec<u8>, FromHexError> {
		let s = v.strip_prefix("0x").unwrap_or(v);
		let mut nib = vec![];
		for (index, c) in s.char_indices() {
			nib.push(c.to_digit(16).ok_or(FromHexError::InvalidHex { character: c, index })? as u8);
		}
		if nib.len() % 2 == 1 {
			nib.insert(0, 0);
		}
		Ok(nib.chunks(2).map(|c| c[0] << 4 | c[1]).collect())
	}
	pub fn to_hex(b: &[u8], skip: bool) -> String {
		let s: String = b.iter().map(|x| format!("{x:02x}")).collect();
		format!("0x{}", if skip { s.trim_start_matches('0') } else { &s })
	}
	pub fn serialize<S: serde::Serializer>(b: &[u8], s: S) -> Result<S::Ok, S::Error> {
		s.serialize_str(&to_hex(b, false))
	}
	pub fn deserialize<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
		let s = <String as serde::Deserialize>::deserialize(d)?;
		from_hex(&s).map_err(serde::de::Error::custom)
	}
}
