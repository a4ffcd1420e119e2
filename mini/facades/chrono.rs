//ver: 0.4.24
//! calendar arithmetic for the repository's own unit tests
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Utc;
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct DateTime<Z>(i64, Z);
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Duration(i64);
#[derive(Clone, Copy, Debug)]
pub struct Days(u64);
impl Days {
	pub const fn new(n: u64) -> Self {
		Days(n)
	}
}
impl Duration {
	pub fn days(n: i64) -> Self {
		Duration(n * 86_400)
	}
	pub fn seconds(n: i64) -> Self {
		Duration(n)
	}
	pub fn num_seconds(&self) -> i64 {
		self.0
	}
	pub fn num_days(&self) -> i64 {
		self.0 / 86_400
	}
}
pub trait TimeZone: Sized + Copy {
	fn with_ymd_and_hms(&self, y: i32, m: u32, d: u32, h: u32, mi: u32, s: u32) -> Option<DateTime<Self>> {
		// days from civil
		let y = if m <= 2 { y as i64 - 1 } else { y as i64 };
		let era = y.div_euclid(400);
		let yoe = y - era * 400;
		let mp = (m as i64 + 9) % 12;
		let doy = (153 * mp + 2) / 5 + d as i64 - 1;
		let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
		let days = era * 146_097 + doe - 719_468;
		Some(DateTime(days * 86_400 + h as i64 * 3600 + mi as i64 * 60 + s as i64, *self))
	}
}
impl TimeZone for Utc {}
impl<Z> DateTime<Z> {
	pub fn timestamp(&self) -> i64 {
		self.0
	}
}
impl<Z> std::ops::Sub<Days> for DateTime<Z> {
	type Output = Self;
	fn sub(self, d: Days) -> Self {
		DateTime(self.0 - d.0 as i64 * 86_400, self.1)
	}
}
impl<Z> std::ops::Add<Duration> for DateTime<Z> {
	type Output = Self;
	fn add(self, d: Duration) -> Self {
		DateTime(self.0 + d.0, self.1)
	}
}
impl<Z> std::ops::Sub for DateTime<Z> {
	type Output = Duration;
	fn sub(self, d: Self) -> Duration {
		Duration(self.0 - d.0)
	}
}
impl<Z> DateTime<Z> {
	pub fn signed_duration_since(self, d: Self) -> Duration {
		Duration(self.0 - d.0)
	}
}
