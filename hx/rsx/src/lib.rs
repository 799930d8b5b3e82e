//! Interface between a harness and the symbolic executor (/verif/engine/rsx.py).
//!
//! Built with `--cfg rsx_symbolic`, the functions below are undefined externals
//! that the executor interprets over SMT terms.  Built without it, they replay
//! one concrete counterexample: inputs come, in order, from the file named by
//! `$RSX_INPUT`, `assume` of a false fact exits 77 and a failing `check` exits 1.
#[cfg(rsx_symbolic)]
mod imp {
    extern "C" {
        pub fn rsx_sym(bits: u32) -> u64;
        pub fn rsx_assume(c: bool);
        pub fn rsx_check(c: bool, id: u32);
        pub fn rsx_cover(id: u32);
        pub fn rsx_on_panic(mode: u32);
        pub fn rsx_pick(x: u64) -> u64;
        pub fn rsx_unroll(n: u32);
        pub fn rsx_uf(tag: u32, inp: *const u64, n: u64, out: *mut u64, m: u64);
    }
}
#[cfg(not(rsx_symbolic))]
mod imp {
    use std::cell::RefCell;
    thread_local! {
        static IN: RefCell<Option<Vec<u64>>> = RefCell::new(None);
        static UF: RefCell<Vec<(u32, Vec<u64>, Vec<u64>)>> = RefCell::new(vec![]);
        static MODE: RefCell<u32> = RefCell::new(0);
    }
    fn load() {
        static HOOK: std::sync::Once = std::sync::Once::new();
        HOOK.call_once(|| std::panic::set_hook(Box::new(|i| {
            eprintln!("REPLAY: panic: {i}");
            std::process::exit(if mode() == 0 { 1 } else { 0 });
        })));
        IN.with(|i| {
            let mut i = i.borrow_mut();
            if i.is_none() {
                let t = std::env::var("RSX_INPUT").ok().map(|p| std::fs::read_to_string(p).unwrap()).unwrap_or_default();
                let mut v = vec![];
                for l in t.lines() {
                    let f: Vec<&str> = l.split_whitespace().collect();
                    match f.first() {
                        Some(&"in") => v.push(f[1].parse().unwrap()),
                        Some(&"uf") => {
                            let k = f.iter().position(|x| *x == "->").unwrap();
                            let n = |s: &[&str]| s.iter().map(|x| x.parse().unwrap()).collect::<Vec<u64>>();
                            UF.with(|u| u.borrow_mut().push((f[1].parse().unwrap(), n(&f[2..k]), n(&f[k + 1..]))));
                        }
                        _ => {}
                    }
                }
                v.reverse();
                *i = Some(v);
            }
        })
    }
    pub unsafe fn rsx_sym(bits: u32) -> u64 {
        load();
        let v = IN.with(|i| i.borrow_mut().as_mut().unwrap().pop().unwrap_or(0));
        if bits == 64 { v } else { v & ((1 << bits) - 1) }
    }
    pub unsafe fn rsx_assume(c: bool) { load(); if !c { eprintln!("REPLAY: assumption not met"); std::process::exit(77) } }
    pub unsafe fn rsx_check(c: bool, id: u32) { load(); if !c { eprintln!("REPLAY: check {id} fails"); std::process::exit(1) } }
    pub unsafe fn rsx_cover(_id: u32) {}
    pub unsafe fn rsx_on_panic(mode: u32) { load(); MODE.with(|m| *m.borrow_mut() = mode) }
    pub fn mode() -> u32 { MODE.with(|m| *m.borrow()) }
    pub unsafe fn rsx_pick(x: u64) -> u64 { x }
    pub unsafe fn rsx_unroll(_n: u32) {}
    pub unsafe fn rsx_uf(tag: u32, inp: *const u64, n: u64, out: *mut u64, m: u64) {
        load();
        let i = std::slice::from_raw_parts(inp, n as usize).to_vec();
        let o = std::slice::from_raw_parts_mut(out, m as usize);
        let r = UF.with(|u| {
            let mut u = u.borrow_mut();
            if let Some((_, _, r)) = u.iter().find(|(t, a, _)| *t == tag && *a == i) { return r.clone(); }
            // not constrained by the counterexample: any fixed function will do
            let mut h: u64 = 0xcbf2_9ce4_8422_2325 ^ u64::from(tag);
            for w in &i { for b in w.to_le_bytes() { h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3); } }
            let r: Vec<u64> = (0..m).map(|k| { let mut z = h.wrapping_add(0x9e37_79b9_7f4a_7c15u64.wrapping_mul(k + 1)); z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb); (z ^ (z >> 31)) % 0xffff_ffff_0000_0001 }).collect();
            u.push((tag, i.clone(), r.clone()));
            r
        });
        o.copy_from_slice(&r);
    }
}
pub fn u1() -> bool { unsafe { imp::rsx_sym(1) != 0 } }
pub fn u8() -> u8 { unsafe { imp::rsx_sym(8) as u8 } }
pub fn u16() -> u16 { unsafe { imp::rsx_sym(16) as u16 } }
pub fn u32() -> u32 { unsafe { imp::rsx_sym(32) as u32 } }
pub fn u64() -> u64 { unsafe { imp::rsx_sym(64) } }
/// A canonical Goldilocks element.
pub fn felt() -> u64 { let x = u64(); assume(x < 0xffff_ffff_0000_0001); x }
pub fn assume(c: bool) { unsafe { imp::rsx_assume(c) } }
/// The assertion: holds for every input reaching it, or the solver gives one where it does not.
pub fn check(c: bool, id: u32) { unsafe { imp::rsx_check(c, id) } }
/// Vacuity guard: must be reached by some input.
pub fn cover(id: u32) { unsafe { imp::rsx_cover(id) } }
/// 0: a panic is a violation (default); 1: a panic ends the path quietly;
/// 2: likewise, and some input must panic.
pub fn on_panic(mode: u32) { unsafe { imp::rsx_on_panic(mode) } }
/// Case split over every feasible value.
pub fn pick(x: u64) -> u64 { unsafe { imp::rsx_pick(x) } }
pub fn pick_below(n: u64) -> u64 { let x = u64(); assume(x < n); pick(x) }
/// From here on leading_zeros() is split into its cases.
pub fn split_clz() { unsafe { imp::rsx_unroll(1) } }
/// Uninterpreted function (equal inputs give equal outputs; nothing else known).
pub fn uf(tag: u32, inp: &[u64], out: &mut [u64]) { unsafe { imp::rsx_uf(tag, inp.as_ptr(), inp.len() as u64, out.as_mut_ptr(), out.len() as u64) } }
