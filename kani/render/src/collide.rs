use ass_renderer::collision::{BoundingBox, CollisionResolver, PositionedEvent};
/// boxes on a quarter-pixel grid: every f32 operation below is exact, so the integer predicate is the
/// specification of the float code for every box within the stated range
fn q(i: i32) -> f32 { i as f32 * 0.25 }
fn bx(v: [i32; 4]) -> BoundingBox { BoundingBox::new(q(v[0]), q(v[1]), q(v[2]), q(v[3])) }
fn any16() -> [i32; 2] { let v: [i16; 2] = kani::any(); kani::assume(v[1] >= 0); [v[0] as i32, v[1] as i32] }
fn any8() -> [i32; 4] { let v: [i8; 4] = kani::any(); kani::assume(v[2] >= 0 && v[3] >= 0); [v[0] as i32, v[1] as i32, v[2] as i32, v[3] as i32] }
fn touch(x: [i32; 4], y: [i32; 4]) -> bool {
    x[0] < y[0] + y[2] && x[0] + x[2] > y[0] && x[1] < y[1] + y[3] && x[1] + x[3] > y[1]
}
// the overlap test is a conjunction of two independent axis tests: each axis over its whole i16 grid
#[kani::proof]
fn r04_intersects_x_axis() {
    let (a, b) = (any16(), any16());
    let (x, y) = (bx([a[0], 0, a[1], 4]), bx([b[0], 0, b[1], 4]));
    let s = a[0] < b[0] + b[1] && a[0] + a[1] > b[0];
    assert!(x.intersects(&y) == s && y.intersects(&x) == s);
    kani::cover!(s);
    kani::cover!(!s);
}
#[kani::proof]
fn r04_intersects_y_axis() {
    let (a, b) = (any16(), any16());
    let (x, y) = (bx([0, a[0], 4, a[1]]), bx([0, b[0], 4, b[1]]));
    let s = a[0] < b[0] + b[1] && a[0] + a[1] > b[0];
    assert!(x.intersects(&y) == s && y.intersects(&x) == s);
    kani::cover!(s);
    kani::cover!(!s);
}
#[kani::proof]
fn r04_intersects_both_axes() {
    let (a, b) = (any8(), any8());
    let s = touch(a, b);
    assert!(bx(a).intersects(&bx(b)) == s && bx(b).intersects(&bx(a)) == s);
}
#[kani::proof]
fn r04_expand() {
    let v: [i16; 4] = kani::any();
    let a = bx([v[0] as i32, v[1] as i32, v[2] as i32, v[3] as i32]);
    let m: u8 = kani::any();
    let e = a.expand(m as f32);
    assert!(e.x == a.x - m as f32 && e.y == a.y - m as f32 && e.width == a.width + 2.0 * m as f32 && e.height == a.height + 2.0 * m as f32);
}
fn lap(a: [i8; 2], b: [i8; 2]) -> i32 {
    (a[0] as i32 + a[1] as i32).min(b[0] as i32 + b[1] as i32) - (a[0] as i32).max(b[0] as i32)
}
#[kani::proof]
fn r04_overlap_area_x() {
    let (a, b): ([i8; 2], [i8; 2]) = (kani::any(), kani::any());
    kani::assume(a[1] >= 0 && b[1] >= 0);
    let (x, y) = (bx([a[0] as i32, 0, a[1] as i32, 4]), bx([b[0] as i32, 2, b[1] as i32, 4]));
    let w = lap(a, b);
    assert!(x.overlap_area(&y) == if w > 0 { q(w) * 0.5 } else { 0.0 });
}
#[kani::proof]
fn r04_overlap_area_y() {
    let (a, b): ([i8; 2], [i8; 2]) = (kani::any(), kani::any());
    kani::assume(a[1] >= 0 && b[1] >= 0);
    let (x, y) = (bx([0, a[0] as i32, 4, a[1] as i32]), bx([2, b[0] as i32, 4, b[1] as i32]));
    let w = lap(a, b);
    assert!(x.overlap_area(&y) == if w > 0 { q(w) * 0.5 } else { 0.0 });
}
fn ev(b: BoundingBox, layer: i32, alignment: u8) -> PositionedEvent {
    PositionedEvent { bbox: b, layer, margin_v: 0, margin_l: 0, margin_r: 0, alignment, priority: 0 }
}
#[allow(clippy::manual_clamp)]
fn clampq(y: i32, h: i32, screen: i32) -> i32 { y.max(0).min((screen - h).max(0)) }
/// an event against one earlier box, symbolic vertical geometry, layers and alignment (frame height 40 px,
/// margin 2 px = 8 grid units); the horizontal test is r04_intersects_*
fn place_one(ax: i32, bxx: i32) {
    let v: [i8; 4] = kani::any();
    kani::assume(v[1] >= 0 && v[3] >= 0);
    let (a, b) = ([ax, v[0] as i32, 40, v[1] as i32], [bxx, v[2] as i32, 40, v[3] as i32]);
    let (la, lb): (i8, i8) = (kani::any(), kani::any());
    let al: u8 = kani::any();
    let mut r = CollisionResolver::new(24.0, 40.0);
    r.add_fixed(ev(bx(a), la as i32, 2));
    let g = r.find_position(ev(bx(b), lb as i32, al));
    let m = 8;
    let ex = |v: [i32; 4]| [v[0] - m, v[1] - m, v[2] + 2 * m, v[3] + 2 * m];
    let hit = la == lb && touch(ex(a), ex(b));
    let y = if !hit { b[1] } else if al >= 1 && al <= 3 { a[1] - b[3] - 2 * m } else { a[1] + a[3] + 2 * m };
    assert!(g.y == q(clampq(y, b[3], 160)));
    assert!(g.x == q(b[0]) && g.width == q(b[2]) && g.height == q(b[3]));
    let p = r.positioned_events();
    assert!(p.len() == 2 && p[0].bbox.y == q(a[1]) && p[0].bbox.x == q(a[0]) && p[1].bbox.y == g.y && p[1].layer == lb as i32);
}
#[kani::proof]
#[kani::unwind(4)]
fn r04_place_against_one() { place_one(0, 8) }
#[kani::proof]
#[kani::unwind(4)]
fn r04_place_beside_one() { place_one(0, 56) }
/// nothing placed earlier: the request is only clamped into the frame
#[kani::proof]
#[kani::unwind(3)]
fn r04_place_alone() {
    let v: [i16; 4] = kani::any();
    kani::assume(v[2] >= 0 && v[3] >= 0);
    let b = [v[0] as i32, v[1] as i32, v[2] as i32, v[3] as i32];
    let mut r = CollisionResolver::new(1920.0, 1080.0);
    let g = r.find_position(ev(bx(b), 0, kani::any()));
    assert!(g.y == q(clampq(b[1], b[3], 4320)));
    assert!(g.x == q(b[0]) && g.width == q(b[2]) && g.height == q(b[3]));
}
