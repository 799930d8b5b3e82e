//! The guest's heap.
/// After any allocation: two more are aligned, in fresh memory above everything handed out
/// before, and waste less than one alignment unit.
fn allocs(n: usize) {
    let first = rsx::u32() as usize;
    let p = mozak_sdk_vm::rsx_access::alloc(first, 1);
    rsx::check(p >= unsafe { core::ptr::addr_of!(crate::vm::_end) as usize }, 1);
    let mut end = p + first;
    for _ in 0..n {
        let size = rsx::u32() as usize;
        let al = 1usize << [0, 1, 2, 3, 4, 12][rsx::pick_below(6) as usize];
        let p = mozak_sdk_vm::rsx_access::alloc(size, al);
        rsx::check(p & (al - 1) == 0, 2);
        rsx::check(p >= end, 3);
        rsx::check(p - end < al, 4);
        end = p + size;
    }
    rsx::cover(1);
}
#[no_mangle]
pub extern "C" fn hx_alloc() { allocs(1) }
#[no_mangle]
pub extern "C" fn hx_alloc_2() { allocs(2) }
#[no_mangle]
pub extern "C" fn hx_alloc_3() { allocs(3) }
/// A long run of allocations from any heap position.
#[no_mangle]
pub extern "C" fn hx_alloc_many() {
    let mut end = mozak_sdk_vm::rsx_access::alloc(rsx::u32() as usize, 1);
    for i in 0..16 {
        let (size, al) = (5 + 3 * i, 1usize << (i % 5));
        let p = mozak_sdk_vm::rsx_access::alloc(size, al);
        rsx::check(p & (al - 1) == 0, 2);
        rsx::check(i == 0 || p >= end, 3);
        rsx::check(i == 0 || p - end < al, 4);
        end = p + size;
    }
    rsx::cover(1);
}
/// The global allocator as containers use it: whatever is allocated, grown and released, what
/// is in use keeps its contents, and memory asked for as zero is zero.
fn heap_use(n: usize) {
    use core::alloc::Layout;
    let h = mozak_sdk_vm::rsx_access::heap();
    let mut live: Vec<(*mut u8, Layout, Vec<u8>)> = vec![];
    for step in 0..n {
        let op = rsx::pick_below(if live.is_empty() { 2 } else { 4 });
        let l = Layout::from_size_align([3, 8][rsx::pick_below(2) as usize], [1, 8][step % 2]).unwrap();
        let mut put = |p: *mut u8, l: Layout, keep: &[u8]| {
            rsx::check(p as usize % l.align() == 0, 1);
            for i in 0..keep.len() { rsx::check(unsafe { *p.add(i) } == keep[i], 2); }
            let d: Vec<u8> = (0..l.size()).map(|_| rsx::u8()).collect();
            for i in 0..d.len() { unsafe { *p.add(i) = d[i]; } }
            (p, l, d)
        };
        match op {
            0 => { let b = put(unsafe { h.alloc(l) }, l, &[]); live.push(b); }
            1 => { let b = put(unsafe { h.alloc_zeroed(l) }, l, &vec![0; l.size()]); live.push(b); }
            2 => { let k = rsx::pick_below(live.len() as u64) as usize; let b = live.remove(k); unsafe { h.dealloc(b.0, b.1) } }
            _ => {
                let k = rsx::pick_below(live.len() as u64) as usize;
                let b = live.remove(k);
                let m = Layout::from_size_align(l.size(), b.1.align()).unwrap();
                let keep = m.size().min(b.1.size());
                let b = put(unsafe { h.realloc(b.0, b.1, m.size()) }, m, &b.2[..keep]);
                live.push(b);
            }
        }
        for b in &live { for i in 0..b.2.len() { rsx::check(unsafe { *b.0.add(i) } == b.2[i], 3); } }
    }
    rsx::cover(1);
}
#[no_mangle]
pub extern "C" fn hx_heap_use() { heap_use(4) }
