pub fn try_init() -> Result<(), ()> { Ok(()) } pub fn init() {}
