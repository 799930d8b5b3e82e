//! Address arithmetic of the proposer's trees, for every address of the 64-bit tree.
use mozak_node::block_proposer::{reduce_tree, reduce_tree_by_address, AddressPath, BranchAddress, BranchAddressComparison as Cmp, Dir};

/// Any node of the tree: height 0 is a leaf, 64 the root.
fn node() -> (usize, u64) {
    let h = rsx::u64();
    rsx::assume(h <= 64);
    let a = rsx::u64();
    rsx::assume(if h == 64 { a == 0 } else if h == 0 { true } else { a < 1 << (64 - h) });
    (h as usize, a)
}
fn shr(a: u64, n: usize) -> u64 { if n >= 64 { 0 } else { a >> n } }

#[no_mangle]
pub extern "C" fn hx_addr_compare() {
    let ((lh, la), (rh, ra)) = (node(), node());
    let got = BranchAddress::rsx_at(lh, la).compare(BranchAddress::rsx_at(rh, ra));
    let want = if lh == rh {
        if la == ra { Cmp::Equal } else if la ^ ra == 1 { if la < ra { Cmp::RightSibling } else { Cmp::LeftSibling } } else if la < ra { Cmp::RightCousin } else { Cmp::LeftCousin }
    } else if lh > rh {
        let d = lh - rh;
        let up = shr(ra, d);
        if up == la { if shr(ra, d - 1) & 1 == 0 { Cmp::LeftChild } else { Cmp::RightChild } } else if up < la { Cmp::LeftCousin } else { Cmp::RightCousin }
    } else {
        let d = rh - lh;
        let up = shr(la, d);
        if up == ra { if shr(la, d - 1) & 1 == 0 { Cmp::LeftParent } else { Cmp::RightParent } } else if up < ra { Cmp::RightCousin } else { Cmp::LeftCousin }
    };
    rsx::check(got == want, 1);
    rsx::cover(1);
}
#[no_mangle]
pub extern "C" fn hx_addr_ancestor() {
    let ((lh, la), (rh, ra)) = (node(), node());
    let (h, a) = BranchAddress::rsx_at(lh, la).common_ancestor(BranchAddress::rsx_at(rh, ra)).rsx_parts();
    rsx::check(h >= lh && h >= rh && h <= 64, 1);
    rsx::check(shr(la, h - lh) == a && shr(ra, h - rh) == a, 2);
    // the lowest one
    if h > lh && h > rh { rsx::check(shr(la, h - 1 - lh) != shr(ra, h - 1 - rh), 3); }
    rsx::cover(1);
}
#[no_mangle]
pub extern "C" fn hx_addr_family() {
    let (h, a) = node();
    let me = BranchAddress::rsx_at(h, a);
    let n = rsx::u64();
    rsx::assume(n <= 64 - h as u64);
    let (ph, pa) = me.parent(n as usize).rsx_parts();
    rsx::check(ph == h + n as usize && pa == shr(a, n as usize), 1);
    rsx::check(BranchAddress::base(a).rsx_parts() == (0, a) && BranchAddress::root(h).rsx_parts() == (h, 0), 2);
    // downwards from a root of any height
    let depth = rsx::u64();
    rsx::assume(depth < 64);
    let a = rsx::u64();
    rsx::assume(a < 1 << 63);
    let right = rsx::u1();
    let me = BranchAddress::rsx_at(depth as usize, a);
    match me.child(if right { Dir::Right } else { Dir::Left }) {
        Ok(c) => { rsx::check(depth > 0 && c.rsx_parts() == (depth as usize - 1, 2 * a + right as u64), 3); rsx::check(c.parent(1) == me, 4); rsx::cover(2); }
        Err(c) => { rsx::check(depth == 0 && c.0 == 2 * a + right as u64, 5); rsx::cover(3); }
    }
    rsx::cover(1);
}
#[no_mangle]
pub extern "C" fn hx_addr_path() {
    let bits = rsx::pick_below(65) as usize;
    let a = rsx::u64();
    if bits < 64 { rsx::assume(a < 1 << bits); }
    let mut p = AddressPath::<u64>::path(a, bits);
    rsx::check(p.is_some() == (bits > 0), 1);
    for i in (0..bits).rev() {
        let q = p.unwrap();
        let rest = if i == 63 { a } else { a & ((1 << (i + 1)) - 1) };
        rsx::check(q.is_zero() == (rest == 0), 2);
        let (next, dir) = q.next();
        rsx::check((dir == Dir::Right) == (a >> i & 1 == 1), 3);
        p = next;
    }
    rsx::check(p.is_none(), 4);
    rsx::cover(1);
}

/// A merge nothing is known about.
fn two(l: u64, r: u64) -> u64 { let mut o = [0]; rsx::uf(9, &[l, r], &mut o); o[0] }
fn tree(v: &[u64]) -> u64 {
    if v.len() == 1 { return v[0]; }
    let mut k = 1;
    while 2 * k < v.len() { k *= 2; }
    two(tree(&v[..k]), tree(&v[k..]))
}
#[no_mangle]
pub extern "C" fn hx_reduce_tree() {
    let n = rsx::pick_below(20) as usize;
    let v: Vec<u64> = (0..n).map(|_| rsx::u64()).collect();
    let none = |v: &[u64]| if v.is_empty() { None } else { Some(tree(v)) };
    rsx::check(reduce_tree(v.clone(), |x| x, |x| x, two) == none(&v), 1);
    // an iterator of unknown length, and a result of another type
    let mut it = v.iter();
    let got = reduce_tree(core::iter::from_fn(|| it.next()), |x| [*x], |x: [u64; 1]| Box::leak(Box::new(x[0])) as &u64, |l, r| [two(*l, *r)]);
    rsx::check(got.map(|x| x[0]) == none(&v), 2);
    rsx::cover(1);
}

/// The tree over addresses: groups of equal addresses first, then pairs of neighbours upwards.
fn over(h: usize, v: &[(u64, u64)]) -> u64 {
    let same = v.iter().all(|x| x.0 == v[0].0);
    if same { return tree(&v.iter().map(|x| x.1).collect::<Vec<_>>()); }
    let k = v.iter().position(|x| shr(x.0, h - 1) & 1 == 1).unwrap_or(v.len());
    if k == 0 || k == v.len() { over(h - 1, v) } else { two(over(h - 1, &v[..k]), over(h - 1, &v[k..])) }
}
fn by_address(v: Vec<(u64, u64)>) {
    let want = over(64, &v);
    by_address_to(v, want);
}
fn by_address_to(v: Vec<(u64, u64)>, want: u64) {
    let got = reduce_tree_by_address(v.iter().map(|x| (BranchAddress::base(x.0), x.1)).collect(), |x| x.parent(1), |_, l, r| two(l, r));
    rsx::check(got.map(|x| x.1) == Some(want), 1);
    let got = reduce_tree_by_address(v.clone(), |x| x / 2, |_, l, r| two(l, r));
    rsx::check(got.map(|x| x.1) == Some(want), 2);
    rsx::cover(1);
}
#[no_mangle]
pub extern "C" fn hx_reduce_two() {
    // which bit sets them apart
    let k = [0, 1, 31, 62, 63][rsx::pick_below(5) as usize];
    let (a, b) = (rsx::u64(), rsx::u64());
    rsx::assume(shr(a, k + 1) == shr(b, k + 1) && a >> k & 1 == 0 && b >> k & 1 == 1);
    let (m, n) = (1 + rsx::pick_below(2), 1 + rsx::pick_below(2));
    let at = |a, n| (0..n).map(|_| (a, rsx::u64())).collect::<Vec<(u64, u64)>>();
    let (v, w) = (at(a, m), at(b, n));
    let group = |v: &[(u64, u64)]| tree(&v.iter().map(|x| x.1).collect::<Vec<_>>());
    let want = two(group(&v), group(&w));
    by_address_to([v, w].concat(), want);
}
pub fn spread(n: usize) -> Vec<u64> {
    let k = rsx::pick_below(5);
    let mut v: Vec<u64> = (0..n as u64).map(|i| match k { 0 => i, 1 => i << 60, 2 => (i / 3) << 32 | 1, 3 => (1 << (9 * i)) - 1, _ => (i * i) << 50 | i % 2 }).collect();
    v.sort();
    v
}
#[no_mangle]
pub extern "C" fn hx_reduce_many() {
    let n = 1 + rsx::pick_below(7) as usize;
    by_address(spread(n).into_iter().map(|a| (a, rsx::u64())).collect());
}
