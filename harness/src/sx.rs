//! Engine intrinsics.
extern "C" {
    fn sx_sym(w: u32) -> u64;
    fn sx_bytes(p: *mut u8, n: u64);
    fn sx_assume(c: bool);
    fn sx_assert(c: bool, m: *const u8, n: u64);
    fn sx_reach(m: *const u8, n: u64);
    fn sx_conc(v: u64) -> u64;
}
#[inline(always)] pub fn u8() -> u8 { unsafe { sx_sym(8) as u8 } }
#[inline(always)] pub fn u16() -> u16 { unsafe { sx_sym(16) as u16 } }
#[inline(always)] pub fn u32() -> u32 { unsafe { sx_sym(32) as u32 } }
#[inline(always)] pub fn u64() -> u64 { unsafe { sx_sym(64) } }
#[inline(always)] pub fn i16() -> i16 { u16() as i16 }
#[inline(always)] pub fn i32() -> i32 { u32() as i32 }
#[inline(always)] pub fn i64() -> i64 { u64() as i64 }
#[inline(always)] pub fn bool_() -> bool { unsafe { sx_sym(1) != 0 } }
/// any double except NaN
#[inline(always)] pub fn f64_() -> f64 { let b = u64(); assume((b & 0x7fff_ffff_ffff_ffff) <= 0x7ff0_0000_0000_0000); f64::from_bits(b) }
#[inline(always)] pub fn f64_any() -> f64 { f64::from_bits(u64()) }
pub fn bytes(n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; unsafe { sx_bytes(v.as_mut_ptr(), n as u64) }; v }
#[inline(always)] pub fn assume(c: bool) { unsafe { sx_assume(c) } }
#[inline(always)] pub fn check(c: bool, m: &str) { unsafe { sx_assert(c, m.as_ptr(), m.len() as u64) } }
#[inline(always)] pub fn reach(m: &str) { unsafe { sx_reach(m.as_ptr(), m.len() as u64) } }
#[inline(always)] pub fn conc(v: u64) -> u64 { unsafe { sx_conc(v) } }
