//ver: 0.10.1
pub fn try_init() -> Result<(), ()> { Ok(()) }
pub fn init() {}
