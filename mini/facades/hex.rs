//ver: 0.4.3
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum FromHexError {
	InvalidHexCharacter { c: char, index: usize },
	OddLength,
	InvalidStringLength,
}
impl std::fmt::Display for FromHexError {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "{self:?}")
	}
}
pub fn decode<T: AsRef<[u8]>>(s: T) -> Result<Vec<u8>, FromHexError> {
	let s = s.as_ref();
	if s.len() % 2 != 0 {
		return Err(FromHexError::OddLength)
	}
	let d = |i: usize| (s[i] as char).to_digit(16).map(|d| d as u8).ok_or(FromHexError::InvalidHexCharacter { c: s[i] as char, index: i });
	(0..s.len() / 2).map(|i| Ok(d(2 * i)? << 4 | d(2 * i + 1)?)).collect()
}
pub fn encode<T: AsRef<[u8]>>(s: T) -> String {
	s.as_ref().iter().map(|x| format!("{x:02x}")).collect()
}
