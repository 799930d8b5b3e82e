//! The system allocator under mimalloc's name.
use std::alloc::{GlobalAlloc, Layout, System};
pub struct MiMalloc;
unsafe impl GlobalAlloc for MiMalloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
