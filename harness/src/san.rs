//! Entry point of the sanitizer builds (without the external decoders).
fn main() { vmon::cli::main() }

/// Memory reclamation in crossbeam-epoch synchronizes with stand-alone fences,
/// which ThreadSanitizer does not model; no code of rav1e runs inside it.
#[no_mangle]
pub extern "C" fn __tsan_default_suppressions() -> *const std::ffi::c_char { c"race:crossbeam_epoch\n".as_ptr() }
