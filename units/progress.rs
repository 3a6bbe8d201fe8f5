/// pbr, std::time, parking_lot::Mutex: showing progress
pub struct ProgressBar { pub show_speed: bool, pub show_time_left: bool }
impl ProgressBar {
    #[verifier::external_body] pub fn new(n: u64) -> Self { unimplemented!() }
    #[verifier::external_body] pub fn set(&mut self, n: u64) { unimplemented!() }
    #[verifier::external_body] pub fn add(&mut self, n: u64) { unimplemented!() }
    #[verifier::external_body] pub fn inc(&mut self) { unimplemented!() }
    #[verifier::external_body] pub fn finish_println(&mut self, s: &str) { unimplemented!() }
}
#[verifier::external_body] pub struct Bar { _p: u8 }
impl Bar {
    #[verifier::external_body] pub fn inc(&self) { unimplemented!() }
    #[verifier::external_body] pub fn finish_println(&self, s: &str) { unimplemented!() }
    #[verifier::external_body] pub fn add(&self, n: u64) { unimplemented!() }
    #[verifier::external_body] pub fn set(&self, n: u64) { unimplemented!() }
}
#[verifier::external_body] pub struct Mutex { _p: u8 }
impl Mutex {
    #[verifier::external_body] pub fn new(b: ProgressBar) -> Self { unimplemented!() }
    #[verifier::external_body] pub fn lock(&self) -> Bar { unimplemented!() }
}
#[verifier::external_body] pub struct Instant { _p: u8 }
#[verifier::external_body] pub struct Elapsed { _p: u8 }
impl Instant { #[verifier::external_body] pub fn now() -> Self { unimplemented!() } }
