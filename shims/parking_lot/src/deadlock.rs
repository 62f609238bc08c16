//! Verification only: the places where locks are taken and released are scheduling points.
use std::cell::{Cell, RefCell};

thread_local! {
    static HELD: RefCell<Vec<usize>> = const { RefCell::new(Vec::new()) };
    static HOOK: Cell<Option<fn(usize)>> = const { Cell::new(None) };
}
/// What to call at the scheduling points of this thread, with the number of locks held.
pub fn set_hook(f: Option<fn(usize)>) {
    HOOK.with(|h| h.set(f))
}
/// Forget the locks that were held (after a panic).
pub fn forget_held() {
    HELD.with(|h| h.borrow_mut().clear())
}
pub(crate) unsafe fn acquire_resource(a: usize) {
    HELD.with(|h| h.borrow_mut().push(a))
}
pub(crate) unsafe fn release_resource(a: usize) {
    HELD.with(|h| {
        let mut h = h.borrow_mut();
        if let Some(i) = h.iter().rposition(|x| *x == a) {
            h.remove(i);
        }
    })
}
/// A point at which another task may run.
#[inline]
pub(crate) fn point() {
    if let Some(f) = HOOK.with(|h| h.get()) {
        f(HELD.with(|h| h.borrow().len()))
    }
}
/// About to wait for a lock: this thread must not hold it already.
#[cold]
pub(crate) fn waits(a: usize) {
    if HELD.with(|h| h.borrow().contains(&a)) {
        panic!("lock taken twice by one thread")
    }
}
