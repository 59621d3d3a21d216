// Exposes the tree's safe Rust functions to the C++ harness. No unsafe use of the functions themselves: every slice is
// exactly as long as the caller says.
#[path = "@LIB@"]
mod chiavdf;
use std::panic::catch_unwind;
unsafe fn s<'a>(p: *const u8, n: usize) -> &'a [u8] { if n == 0 { &[] } else { std::slice::from_raw_parts(p, n) } }
#[no_mangle]
pub extern "C" fn rs_create_discriminant(seed: *const u8, n: usize, out: *mut u8, m: usize) -> i32 {
    catch_unwind(|| { let mut e: [u8; 0] = []; let o: &mut [u8] = if m == 0 { &mut e } else { unsafe { std::slice::from_raw_parts_mut(out, m) } }; chiavdf::create_discriminant(unsafe { s(seed, n) }, o) as i32 }).unwrap_or(-2)
}
#[no_mangle]
pub extern "C" fn rs_verify(d: *const u8, dn: usize, x: *const u8, xn: usize, p: *const u8, pn: usize, t: u64, r: u64) -> i32 {
    catch_unwind(|| unsafe { chiavdf::verify_n_wesolowski(s(d, dn), s(x, xn), s(p, pn), t, r) as i32 }).unwrap_or(-2)
}
// 1: Some (copied to out, length in len), 0: None, -2: panic
#[no_mangle]
pub extern "C" fn rs_prove(c: *const u8, cn: usize, x: *const u8, xn: usize, bits: usize, t: u64, out: *mut u8, cap: usize, len: *mut usize) -> i32 {
    catch_unwind(|| unsafe { match chiavdf::prove(s(c, cn), s(x, xn), bits, t) { None => 0, Some(v) => { *len = v.len(); std::ptr::copy_nonoverlapping(v.as_ptr(), out, v.len().min(cap)); 1 } } }).unwrap_or(-2)
}
