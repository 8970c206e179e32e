use ass_renderer::utils::DirtyRegion as D;
fn any_region() -> D { D::new(kani::any(), kani::any(), kani::any(), kani::any()) }
fn inside(d: &D, x: u32, y: u32) -> bool {
    x >= d.x && y >= d.y && (x as u64) < d.x as u64 + d.width as u64 && (y as u64) < d.y as u64 + d.height as u64
}
#[kani::proof]
fn r07_contains_point() {
    let a = any_region();
    let (x, y) = (kani::any(), kani::any());
    assert!(a.contains_point(x, y) == inside(&a, x, y));
}
#[kani::proof]
fn r07_merge_is_bounding_box() {
    let (a, b) = (any_region(), any_region());
    let g = a.merge(&b);
    assert!(g == b.merge(&a));
    assert!(g.x == a.x.min(b.x) && g.y == a.y.min(b.y));
    let r = (a.x as u64 + a.width as u64).max(b.x as u64 + b.width as u64) - g.x as u64;
    let s = (a.y as u64 + a.height as u64).max(b.y as u64 + b.height as u64) - g.y as u64;
    assert!(g.width as u64 == r.min(u32::MAX as u64));
    assert!(g.height as u64 == s.min(u32::MAX as u64));
    // covering: every point of either input (below the far edge of the coordinate space) is in the merge
    let (x, y): (u32, u32) = (kani::any(), kani::any());
    if x < u32::MAX && y < u32::MAX && (inside(&a, x, y) || inside(&b, x, y)) { assert!(inside(&g, x, y)); }
    kani::cover!(inside(&a, x, y) && !inside(&b, x, y));
}
#[kani::proof]
fn r07_intersects() {
    let a = any_region();
    let (x1, y1, x2, y2): (u32, u32, u32, u32) = (kani::any(), kani::any(), kani::any(), kani::any());
    let (ax2, ay2) = ((a.x as u64 + a.width as u64).min(u32::MAX as u64), (a.y as u64 + a.height as u64).min(u32::MAX as u64));
    let t = a.x as u64 <= x2 as u64 && x1 as u64 <= ax2 && a.y as u64 <= y2 as u64 && y1 as u64 <= ay2;
    assert!(a.intersects((x1, y1, x2, y2)) == t);
}
#[kani::proof]
fn r07_area_and_full_screen() {
    let a = any_region();
    assert!(a.area() == a.width as u64 * a.height as u64);
    let f = D::full_screen();
    let (x, y): (u32, u32) = (kani::any(), kani::any());
    kani::assume(x < u32::MAX && y < u32::MAX);
    assert!(f.contains_point(x, y));
    assert!(f.merge(&a) == f);
}
