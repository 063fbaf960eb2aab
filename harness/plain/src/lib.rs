//! Answers of an optimised yamd, for a checker that loads this library.

mod answers;

/// # Safety
/// `text` points to `len` bytes of UTF-8, `out` to room for the answers.
#[no_mangle]
pub unsafe extern "C" fn yamd_plain(text: *const u8, len: usize, out: *mut u64) {
    static QUIET: std::sync::Once = std::sync::Once::new();
    QUIET.call_once(|| std::panic::set_hook(Box::new(|_| ())));
    let text = std::str::from_utf8_unchecked(std::slice::from_raw_parts(text, len));
    let got = answers::answers(text, &|f| {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
    });
    std::ptr::copy_nonoverlapping(got.as_ptr(), out, got.len());
}
