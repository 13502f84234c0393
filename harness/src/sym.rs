//! Symbolic inputs and assertions. Under the engine these are intercepted; natively `replay` provides them.
extern "C-unwind" {
    fn sym_val(t: *const u8, l: usize, bits: u32, max: u64) -> u64;
    fn sym_assume(b: bool);
    fn sym_fail(t: *const u8, l: usize) -> !;
    fn sym_check(b: bool, t: *const u8, l: usize);
    fn sym_cover(t: *const u8, l: usize);
    fn sym_observe(v: u64);
    fn sym_native() -> bool;
    fn sym_pin(v: u64) -> u64;
}
/// any value in 0..=max
pub fn val(tag: &str, max: u64) -> u64 { let bits = if max <= 0xff { 8 } else if max <= 0xffff { 16 } else if max <= 0xffff_ffff { 32 } else { 64 }; unsafe { sym_val(tag.as_ptr(), tag.len(), bits, max) } }
pub fn us(tag: &str, max: usize) -> usize { val(tag, max as u64) as usize }
/// any usize at all
pub fn any(tag: &str) -> usize { val(tag, u64::MAX) as usize }
/// a choice among n alternatives: the engine forks, one path per alternative
pub fn pick(tag: &str, n: usize) -> usize { unsafe { sym_pin(val(tag, n as u64 - 1)) as usize } }
pub fn pin(v: usize) -> usize { unsafe { sym_pin(v as u64) as usize } }
pub fn flag(tag: &str) -> bool { val(tag, 1) == 1 }
pub fn assume(b: bool) { unsafe { sym_assume(b) } }
pub fn fail(m: &str) -> ! { unsafe { sym_fail(m.as_ptr(), m.len()) } }
pub fn check(b: bool, m: &str) { unsafe { sym_check(b, m.as_ptr(), m.len()) } }
pub fn cover(m: &str) { unsafe { sym_cover(m.as_ptr(), m.len()) } }
pub fn observe(v: u64) { unsafe { sym_observe(v) } }
pub fn native() -> bool { unsafe { sym_native() } }
#[macro_export] macro_rules! note { ($($a:tt)*) => { if $crate::sym::native() { println!("# {}", format!($($a)*)); } } }
