//! A library that registers nothing.
#[no_mangle]
pub extern "C" fn registered() -> i32 {
    1
}
