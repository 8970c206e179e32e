use ass_renderer::animation::{AnimatedResult, AnimatedValue, AnimationTiming};
use ass_renderer::verif_hooks as vh;
fn unit() -> f32 { let p: f32 = kani::any(); kani::assume(p >= 0.0 && p <= 1.0); p }

#[kani::proof]
fn r08_timing_progress() {
    let (a, b, t): (u32, u32, u32) = (kani::any(), kani::any(), kani::any());
    let p = AnimationTiming::new(a, b, 1.0).progress(t);
    assert!(p >= 0.0 && p <= 1.0);
    if t <= a { assert!(p == 0.0) } else if t >= b { assert!(p == 1.0) }
}
#[kani::proof]
fn r08_move_progress() {
    let (a, b, t): (u32, u32, u32) = (kani::any(), kani::any(), kani::any());
    let p = vh::calculate_move_progress(t, a, b);
    assert!(p >= 0.0 && p <= 1.0);
    if t <= a { assert!(p == 0.0) } else if t >= b { assert!(p == 1.0) }
}
#[kani::proof]
fn r08_fade_progress() {
    let (a, b, t): (u32, u32, u32) = (kani::any(), kani::any(), kani::any());
    let p = vh::calculate_fade_progress(t, a, b);
    assert!(p >= 0.0 && p <= 1.0);
    if t <= a { assert!(p == 0.0) } else if t >= b { assert!(p == 1.0) }
}
#[kani::proof]
fn r08_transform_progress() {
    let (a, b, t, full): (u32, u32, u32, u32) = (kani::any(), kani::any(), kani::any(), kani::any());
    let accel: f32 = if kani::any() { 1.0 } else { 2.0 };
    let p = vh::TransformAnimation { start_ms: a, end_ms: b, accel, target_tags: Vec::new() }.calculate_progress(t, full);
    assert!(p >= 0.0 && p <= 1.0);
    let end = if b > 0 { b } else { full };
    if t <= a { assert!(p == 0.0) } else if t >= end { assert!(p == 1.0) }
}
fn chan(g: u8, a: u8, b: u8, p: f32) {
    assert!(g >= a.min(b) && g <= a.max(b));
    if p == 0.0 { assert!(g == a) }
    if p == 1.0 { assert!(g == b) }
}
#[kani::proof]
fn r08_alpha_between() {
    let (a, b): (u8, u8) = (kani::any(), kani::any());
    let p = unit();
    chan(vh::interpolate_alpha(a, b, p), a, b, p);
}
#[kani::proof]
fn r08_color_between() {
    let (a, b): ([u8; 4], [u8; 4]) = (kani::any(), kani::any());
    let p = unit();
    let g = vh::interpolate_color(a, b, p);
    chan(g[0], a[0], b[0], p);
    chan(g[1], a[1], b[1], p);
    chan(g[2], a[2], b[2], p);
    chan(g[3], a[3], b[3], p);
}
#[kani::proof]
fn r08_animated_color_between() {
    let (a, b): ([u8; 4], [u8; 4]) = (kani::any(), kani::any());
    let p = unit();
    let AnimatedResult::Color(g) = (AnimatedValue::Color { from: a, to: b }).interpolate(p) else { panic!() };
    chan(g[0], a[0], b[0], p);
    chan(g[1], a[1], b[1], p);
    chan(g[2], a[2], b[2], p);
    chan(g[3], a[3], b[3], p);
}
#[kani::proof]
fn r08_animated_integer_between() {
    let (a, b): (i32, i32) = (kani::any(), kani::any());
    let p: f32 = kani::any();
    kani::assume(!p.is_nan());
    let AnimatedResult::Integer(g) = (AnimatedValue::Integer { from: a, to: b }).interpolate(p) else { panic!() };
    assert!(g >= a.min(b) && g <= a.max(b));
    if p <= 0.0 { assert!(g == a) }
}
