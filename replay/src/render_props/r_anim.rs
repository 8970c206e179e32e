use crate::ensure;
use crate::fw::{Cx, Rng};
use ass_renderer::animation::{AnimatedResult, AnimatedValue, AnimationInterpolation, AnimationTiming, AnimationTrack};
use ass_renderer::verif_hooks as vh;

const T: &[u32] = &[0, 1, 2, 10, 99, 100, 1000, 65535, 1 << 24, (1 << 24) + 1, 1 << 31, u32::MAX - 1, u32::MAX];

fn tm(r: &mut Rng, m: u64) -> u32 { match m { 0 => r.below(40) as u32, 1 => *r.pick(T), 2 => r.below(500_000) as u32, _ => r.next() as u32 } }

/// contract of a progress ratio between two instants
fn ratio(p: f32, t: u32, a: u32, b: u32, accel: f32) -> Result<(), String> {
    ensure!((0.0..=1.0).contains(&p), "progress {p} outside [0,1]");
    if t <= a { ensure!(p == 0.0, "progress {p} before the start"); return Ok(()); }
    if t >= b { ensure!(p == 1.0, "progress {p} after the end"); return Ok(()); }
    let lin = (t - a) as f64 / (b - a) as f64;
    let want = lin.powf(accel as f64);
    ensure!((p as f64 - want).abs() < 1e-3, "progress {p} expected {want}");
    Ok(())
}

pub fn r08(cx: &mut Cx) {
    for _ in 0..cx.n(60_000) {
        let mut r = Rng(cx.rng.next());
        let m = r.below(4);
        let (a, b, t, t2) = (tm(&mut r, m), tm(&mut r, m), tm(&mut r, m), tm(&mut r, m));
        let accel = *r.pick(&[1.0f32, 1.0, 2.0, 3.0, 0.25, 1.5, 4.0, 1.0005]);
        cx.check("progress_ratio", || format!("start {a} end {b} accel {accel} times {t},{t2}"), || {
            let tmg = AnimationTiming::new(a, b, accel);
            ratio(tmg.progress(t), t, a, b, accel)?;
            ratio(vh::calculate_move_progress(t, a, b), t, a, b, 1.0)?;
            ratio(vh::calculate_fade_progress(t, a, b), t, a, b, 1.0)?;
            let (lo, hi) = (t.min(t2), t.max(t2));
            ensure!(tmg.progress(lo) <= tmg.progress(hi), "progress decreases between {lo} and {hi}");
            ensure!(vh::calculate_move_progress(lo, a, b) <= vh::calculate_move_progress(hi, a, b), "move progress decreases");
            Ok(())
        });
        let full = tm(&mut r, m);
        cx.check("transform_progress", || format!("t1 {a} t2 {b} accel {accel} now {t} event-length {full}"), || {
            let tr = vh::TransformAnimation { start_ms: a, end_ms: b, accel, target_tags: vec![] };
            let p = tr.calculate_progress(t, full);
            let end = if b > 0 { b } else { full };
            ratio(p, t, a, end, accel)?;
            let (lo, hi) = (t.min(t2), t.max(t2));
            ensure!(tr.calculate_progress(lo, full) <= tr.calculate_progress(hi, full), "not monotone");
            let half = vh::TransformAnimation { start_ms: a, end_ms: b, accel: 0.5, target_tags: vec![] }.calculate_progress(t, full);
            ensure!((0.0..=1.0).contains(&half), "decelerating progress {half}");
            Ok(())
        });
        let mut by = || match r.below(4) { 0 => 0u8, 1 => 255, _ => r.below(256) as u8 };
        let (c1, c2) = ([by(), by(), by(), by()], [by(), by(), by(), by()]);
        let (i1, i2) = { let mut z = || match r.below(5) { 0 => i32::MIN, 1 => i32::MAX, 2 => r.range(-300, 300) as i32, 3 => r.range(0, 255) as i32, _ => r.next() as i32 }; (z(), z()) };
        let (f1, f2) = (r.range(-4000, 4000) as f32 / 4.0, r.range(-4000, 4000) as f32 / 4.0);
        let p = match r.below(6) { 0 => 0.0f32, 1 => 1.0, 2 => *r.pick(&[0.5f32, 0.25, 1e-7, 0.999_999_9]), _ => r.f() as f32 };
        let p2 = (p + r.f() as f32 * (1.0 - p)).min(1.0);
        cx.check("interpolation_between_endpoints", || format!("colors {c1:?}->{c2:?} ints {i1}->{i2} floats {f1}->{f2} progress {p} then {p2}"), || {
            let near = |g: u8, a: u8, b: u8, p: f32| { let w = a as f64 + (b as f64 - a as f64) * p as f64; let (lo, hi) = (a.min(b), a.max(b)); g >= lo && g <= hi && (g as f64 - w).abs() < 1.001 && (p != 0.0 || g == a) && (p != 1.0 || g == b) };
            let g = vh::interpolate_color(c1, c2, p);
            for k in 0..4 { ensure!(near(g[k], c1[k], c2[k], p), "interpolate_color channel {k}: {} from {} to {}", g[k], c1[k], c2[k]); }
            ensure!(near(vh::interpolate_alpha(c1[0], c2[0], p), c1[0], c2[0], p), "interpolate_alpha");
            let f = vh::interpolate_f32(f1, f2, p);
            ensure!((f as f64 - (f1 as f64 + (f2 as f64 - f1 as f64) * p as f64)).abs() < 1e-2 && (p != 0.0 || f == f1), "interpolate_f32 {f}");
            let AnimatedResult::Color(g) = (AnimatedValue::Color { from: c1, to: c2 }).interpolate(p) else { return Err("kind".into()) };
            for k in 0..4 { ensure!(near(g[k], c1[k], c2[k], p), "animated colour channel {k}: {}", g[k]); }
            let iv = |p: f32| match (AnimatedValue::Integer { from: i1, to: i2 }).interpolate(p) { AnimatedResult::Integer(v) => v, _ => i32::MIN };
            let v = iv(p);
            ensure!(v >= i1.min(i2) && v <= i1.max(i2), "integer {v} outside {i1}..{i2}");
            ensure!(p != 0.0 || v == i1, "integer start {v}");
            let tol = 1.0 + (i2 as f64 - i1 as f64).abs() * 1e-6;
            ensure!((v as f64 - (i1 as f64 + (i2 as f64 - i1 as f64) * p as f64)).abs() <= tol, "integer {v}");
            if p2 >= p { let w = iv(p2); ensure!(if i2 >= i1 { w >= v } else { w <= v }, "integer not monotone {v} {w}"); }
            let AnimatedResult::Float(v) = (AnimatedValue::Float { from: f1, to: f2 }).interpolate(p) else { return Err("kind".into()) };
            ensure!(v == f, "float {v}");
            // out-of-range progress is clamped
            let AnimatedResult::Integer(v) = (AnimatedValue::Integer { from: i1, to: i2 }).interpolate(-p - 0.5) else { return Err("kind".into()) };
            ensure!(v == i1, "negative progress");
            let AnimatedResult::Position((x, y)) = (AnimatedValue::Position { from: (f1, f2), to: (f2, f1) }).interpolate(p) else { return Err("kind".into()) };
            ensure!(x == f && (y as f64 - (f2 as f64 + (f1 as f64 - f2 as f64) * p as f64)).abs() < 1e-2, "position ({x},{y})");
            let AnimatedResult::Scale((x, y)) = (AnimatedValue::Scale { from: (f2, f1), to: (f1, f2) }).interpolate(p) else { return Err("kind".into()) };
            ensure!(y == f && (x as f64 - (f2 as f64 + (f1 as f64 - f2 as f64) * p as f64)).abs() < 1e-2, "scale ({x},{y})");
            Ok(())
        });
        let ip = *r.pick(&[AnimationInterpolation::Linear, AnimationInterpolation::Smooth, AnimationInterpolation::Smoother]);
        cx.check("track_evaluation", || format!("start {a} end {b} curve {ip:?} colors {c1:?}->{c2:?} time {t}"), || {
            let tr = AnimationTrack::new("c".into(), AnimationTiming::new(a, b, 1.0), AnimatedValue::Color { from: c1, to: c2 }, ip);
            let AnimatedResult::Color(g) = tr.evaluate(t) else { return Err("kind".into()) };
            if t <= a { ensure!(g == c1, "before start {g:?}"); } else if t >= b { ensure!(g == c2, "after end {g:?}"); }
            for k in 0..4 { ensure!(g[k] >= c1[k].min(c2[k]) && g[k] <= c1[k].max(c2[k]), "channel {k} {g:?}"); }
            Ok(())
        });
        // \fade / \fad / \move arguments: total on every number, centisecond conversion exact
        let n: Vec<u32> = (0..7).map(|i| if i < 3 { r.below(300) as u32 } else { tm(&mut r, m) }).collect();
        cx.check("fade_args_total", || format!("fade args {n:?}"), || {
            let s = format!("({},{},{},{},{},{},{})", n[0], n[1], n[2], n[3], n[4], n[5], n[6]);
            let f = vh::parse_fade_args(&s);
            if n[0] > 255 || n[1] > 255 || n[2] > 255 { ensure!(f.is_none(), "accepted an out-of-range alpha"); }
            else {
                let f = f.ok_or("rejected")?;
                ensure!((f.alpha_start as u32, f.alpha_middle.map(u32::from), f.alpha_end as u32, f.time_start, f.time_end) == (n[0], Some(n[1]), n[2], n[3] / 10, n[6] / 10), "fields {f:?}");
                if n[3] <= n[4] { ensure!(f.time_fade_in == Some(n[4] / 10 - n[3] / 10), "fade in {f:?}"); }
                if n[5] <= n[6] { ensure!(f.time_fade_out == Some(n[6] / 10 - n[5] / 10), "fade out {f:?}"); }
            }
            let f = vh::parse_fade_args(&format!("({}, {})", n[3], n[4])).ok_or("fad rejected")?;
            ensure!((f.time_start, f.time_end, f.alpha_middle, f.time_fade_in, f.time_fade_out) == (n[3] / 10, n[4] / 10, None, None, None), "fad {f:?}");
            let mv = vh::parse_move_args(&format!("(1.5,-2,{},4,{},{})", n[0], n[3], n[4])).ok_or("move rejected")?;
            ensure!(mv == (1.5, -2.0, n[0] as f32, 4.0, n[3] / 10, n[4] / 10), "move {mv:?}");
            let mv = vh::parse_move_args("(1,2,3,4)").ok_or("move4")?;
            ensure!(mv == (1.0, 2.0, 3.0, 4.0, 0, 0), "move without times {mv:?}");
            ensure!(vh::parse_move_args("(1,2,3)").is_none() && vh::parse_fade_args("(1,2,3)").is_none(), "short argument list accepted");
            let al = vh::parse_alpha(&format!("&H{:02X}&", c1[0])).ok_or("alpha rejected")?;
            ensure!(al == 255 - c1[0], "alpha {al}");
            Ok(())
        });
    }
}
