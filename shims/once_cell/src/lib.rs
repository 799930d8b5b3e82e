pub mod unsync {
    use core::cell::{Cell, UnsafeCell};
    /// Computed on first use, once.
    pub struct Lazy<T, F = fn() -> T> { v: UnsafeCell<Option<T>>, f: Cell<Option<F>> }
    impl<T, F> Lazy<T, F> { pub const fn new(f: F) -> Self { Lazy { v: UnsafeCell::new(None), f: Cell::new(Some(f)) } } }
    impl<T, F: FnOnce() -> T> Lazy<T, F> {
        fn get(&self) -> &mut T {
            unsafe {
                if (*self.v.get()).is_none() {
                    let f = match self.f.take() { Some(f) => f, None => panic!("Lazy instance has previously been poisoned") };
                    let x = f();
                    *self.v.get() = Some(x);
                }
                (*self.v.get()).as_mut().unwrap()
            }
        }
        pub fn force(this: &Self) -> &T { this.get() }
        pub fn force_mut(this: &mut Self) -> &mut T { this.get() }
    }
    impl<T, F: FnOnce() -> T> core::ops::Deref for Lazy<T, F> { type Target = T; fn deref(&self) -> &T { self.get() } }
    impl<T, F: FnOnce() -> T> core::ops::DerefMut for Lazy<T, F> { fn deref_mut(&mut self) -> &mut T { self.get() } }
}
pub mod sync {
    use std::sync::{Mutex, OnceLock};
    pub struct Lazy<T, F = fn() -> T> { v: OnceLock<T>, f: Mutex<Option<F>> }
    impl<T, F> Lazy<T, F> { pub const fn new(f: F) -> Self { Lazy { v: OnceLock::new(), f: Mutex::new(Some(f)) } } }
    impl<T, F: FnOnce() -> T> core::ops::Deref for Lazy<T, F> { type Target = T; fn deref(&self) -> &T { self.v.get_or_init(|| (self.f.lock().unwrap().take().unwrap())()) } }
}
