//deps: sp-core serde
pub mod number {
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub enum NumberOrHex {
		Number(u64),
		Hex(u128),
	}
	impl serde::Serialize for NumberOrHex {
		fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
			match self {
				NumberOrHex::Number(n) => s.serialize_u64(*n),
				NumberOrHex::Hex(n) => s.serialize_str(&format!("{n:#x}")),
			}
		}
	}
	impl Default for NumberOrHex {
		fn default() -> Self {
			NumberOrHex::Number(0)
		}
	}
	impl NumberOrHex {
		pub fn value(self) -> u128 {
			match self {
				NumberOrHex::Number(n) => n as u128,
				NumberOrHex::Hex(n) => n,
			}
		}
	}
	macro_rules! small { ($($t:ty),*) => {$(impl From<$t> for NumberOrHex { fn from(n: $t) -> Self { NumberOrHex::Number(n as u64) } })*}; }
	small!(u8, u16, u32, u64);
	impl From<u128> for NumberOrHex {
		fn from(n: u128) -> Self {
			NumberOrHex::Hex(n)
		}
	}
}
