//ver: 0.11.1
//! `Cid::read_bytes` of the cid crate (64 bytes of digest at most)
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Cid {
	pub version: u64,
	pub codec: u64,
	pub hash_code: u64,
	pub digest: Vec<u8>,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Error {
	InvalidCidVersion,
	InvalidExplicitCidV0,
	ParsingError,
	VarIntDecodeError,
	Io,
}
fn varint(r: &mut &[u8]) -> Result<u64, Error> {
	let mut n = 0u64;
	for i in 0..10 {
		let (b, rest) = r.split_first().ok_or(Error::Io)?;
		*r = rest;
		if i == 9 && *b > 1 {
			return Err(Error::VarIntDecodeError)
		}
		n |= ((*b & 0x7f) as u64) << (i * 7);
		if b & 0x80 == 0 {
			if *b == 0 && i > 0 {
				return Err(Error::VarIntDecodeError)
			}
			return Ok(n)
		}
	}
	Err(Error::VarIntDecodeError)
}
fn take(r: &mut &[u8], n: usize) -> Result<Vec<u8>, Error> {
	if r.len() < n {
		return Err(Error::Io)
	}
	let v = r[..n].to_vec();
	*r = &r[n..];
	Ok(v)
}
impl Cid {
	pub fn read_bytes(mut r: &[u8]) -> Result<Cid, Error> {
		let version = varint(&mut r)?;
		let codec = varint(&mut r)?;
		if [version, codec] == [0x12, 0x20] {
			return Ok(Cid { version: 0, codec: 0x70, hash_code: 0x12, digest: take(&mut r, 32)? })
		}
		match version {
			0 => Err(Error::InvalidExplicitCidV0),
			1 => {
				let hash_code = varint(&mut r)?;
				let size = varint(&mut r)?;
				if size > 64 {
					return Err(Error::ParsingError)
				}
				Ok(Cid { version, codec, hash_code, digest: take(&mut r, size as usize)? })
			},
			_ => Err(Error::InvalidCidVersion),
		}
	}
}
