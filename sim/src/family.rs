//! The library with one message family (or none of the others), seen through `alone`.
mod alone;
use std::panic::catch_unwind;

/// # Safety
/// `data` points to `n` units (words, or bytes for `what` 2) and `text` to `room` bytes.
#[no_mangle]
pub unsafe extern "C" fn family_run(what: usize, data: *const u8, n: usize, text: *mut u8, room: usize) -> usize {
    let t = match what {
        2 => {
            let b = std::slice::from_raw_parts(data, n);
            catch_unwind(|| alone::bytes(b))
        }
        _ => {
            let w = std::slice::from_raw_parts(data as *const u32, n);
            catch_unwind(|| if what == 0 { alone::words(w) } else { alone::packet(w) })
        }
    }
    .unwrap_or_else(|_| "panic".into());
    let k = t.len().min(room);
    std::ptr::copy_nonoverlapping(t.as_ptr(), text, k);
    k
}

#[no_mangle]
pub extern "C" fn family_init() {
    std::panic::set_hook(Box::new(|_| {}));
}
