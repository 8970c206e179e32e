use crate::ensure;
use crate::fw::{Cx, Rng};
use std::sync::Arc;

mod r_anim;
mod r_state;

pub fn run(prop: &str, cx: &mut Cx) -> bool {
    match prop {
        "R01" => r01(cx),
        "R02" => r02(cx),
        "R03" => r_state::r03(cx),
        "R04" => r_state::r04(cx),
        "R05" => r_state::r05(cx),
        "R06" => r_state::r06(cx),
        "R07" => r_state::r07(cx),
        "R08" => r_anim::r08(cx),
        _ => return false,
    }
    true
}

/// exact round-half-up of a*b/255 over the integers (the specification of a coverage product)
fn sp(a: u32, b: u32) -> u32 { (2 * a * b + 255) / 510 }

/// Specification of one destination channel after compositing.
pub fn over_cov(d: [u8; 4], c: [u8; 4], cov: u8) -> [u8; 4] {
    let pa = c[3] as u32;
    if pa == 0 || cov == 0 { return d; }
    let p = [sp(c[0] as u32, pa), sp(c[1] as u32, pa), sp(c[2] as u32, pa), pa];
    let sa = sp(pa, cov as u32);
    let mut o = [0u8; 4];
    for k in 0..4 {
        let v = sp(p[k], cov as u32) + sp(d[k] as u32, 255 - sa);
        o[k] = v as u8;
        if v > 255 { return [1, 2, 3, 4]; }
    }
    o
}
pub fn over_rgba(d: [u8; 4], s: [u8; 4]) -> [u8; 4] {
    if s[3] == 0 { return d; }
    let inv = 255 - s[3] as u32;
    let mut o = [0u8; 4];
    for k in 0..4 { o[k] = (s[k] as u32 + sp(d[k] as u32, inv)) as u8; }
    o
}
fn premul_px(r: &mut Rng) -> [u8; 4] {
    let a = byte(r);
    let mut o = [0, 0, 0, a];
    for k in 0..3 { o[k] = r.range(0, a as i64) as u8; if r.chance(1, 3) { o[k] = a } }
    o
}
fn byte(r: &mut Rng) -> u8 {
    match r.below(6) { 0 => 0, 1 => 255, 2 => *r.pick(&[1u8, 2, 127, 128, 254]), _ => r.below(256) as u8 }
}

fn r01(cx: &mut Cx) {
    use ass_renderer::backends::coverage::{composite, composite_bitmap, CoverageTile, RenderBitmap};
    // (1) every (premultiplied destination level, alpha, coverage) on one channel, in wide rows that
    // exercise both the vector path (rows >= 4) and the scalar remainder.
    let step = if cx.thorough { 1 } else { 5 };
    let mut alphas: Vec<u32> = (0..256).step_by(step).collect();
    for a in [1u32, 2, 127, 128, 254, 255] { if !alphas.contains(&a) { alphas.push(a) } }
    for &a in &alphas {
        let colors = [[255u8, 128, 0, a as u8], [1, 254, 77, a as u8]];
        for color in colors {
            let ok = cx.check("pixel_over_exact", || format!("alpha={a} color={color:?} dst=all coverage=all"), || {
                for dlev in (0..256u32).step_by(17).chain([1, 127, 254]) {
                    let w = 259usize; // 64 quads + 3 scalar
                    let cov: Vec<u8> = (0..w).map(|i| (i % 256) as u8).collect();
                    let px = [dlev as u8, (dlev / 2) as u8, 0, dlev as u8];
                    let mut dst: Vec<u8> = (0..w).flat_map(|_| px).collect();
                    let tile = CoverageTile { width: w as u32, height: 1, data: Arc::new(cov.clone()) };
                    composite(&mut dst, w as u32, 1, &tile, 0, 0, color);
                    for i in 0..w {
                        let e = over_cov(px, color, cov[i]);
                        ensure!(dst[i * 4..i * 4 + 4] == e, "pixel {i} cov {} dst {px:?}: got {:?} expected {e:?}", cov[i], &dst[i * 4..i * 4 + 4]);
                    }
                }
                Ok(())
            });
            if !ok { break; }
        }
    }
    // (2) random tiles, placements (partly/fully off-frame), both bitmap kinds.
    for i in 0..cx.n(40_000) {
        let mut r = Rng(cx.rng.next());
        let big = i % 50 == 0;
        let (dw, dh) = (r.range(1, if big { 70 } else { 9 }) as u32, r.range(1, 7) as u32);
        let (tw, th) = (r.range(0, if big { 80 } else { 11 }) as u32, r.range(0, 8) as u32);
        let (x, y) = if r.chance(1, 12) {
            (*r.pick(&[-1_000_000, 1_000_000, -12, 0, 3]), *r.pick(&[-1_000_000, 1_000_000, -8, 0, 3]))
        } else { (r.range(-12, 12) as i32, r.range(-9, 9) as i32) };
        let rgba = r.chance(1, 3);
        let color = [byte(&mut r), byte(&mut r), byte(&mut r), byte(&mut r)];
        let dst: Vec<u8> = (0..dw * dh).flat_map(|_| premul_px(&mut r)).collect();
        let cov: Vec<u8> = (0..tw * th).map(|_| byte(&mut r)).collect();
        let px: Vec<u8> = (0..tw * th).flat_map(|_| premul_px(&mut r)).collect();
        let mode = r.below(2);
        cx.check(if rgba { "composite_rgba_frame" } else { "composite_coverage_frame" },
            || format!("frame {dw}x{dh} tile {tw}x{th} at ({x},{y}) color {color:?} cov {cov:?} px {px:?} dst {dst:?}"),
            || {
                let mut out = dst.clone();
                if rgba {
                    composite_bitmap(&mut out, dw, dh, &RenderBitmap::Rgba { width: tw, height: th, pixels: Arc::new(px.clone()), x, y });
                } else if mode == 0 {
                    composite(&mut out, dw, dh, &CoverageTile { width: tw, height: th, data: Arc::new(cov.clone()) }, x, y, color);
                } else {
                    composite_bitmap(&mut out, dw, dh, &RenderBitmap::Coverage { width: tw, height: th, coverage: Arc::new(cov.clone()), x, y, color });
                }
                for fy in 0..dh as i64 {
                    for fx in 0..dw as i64 {
                        let o = (fy * dw as i64 + fx) as usize * 4;
                        let d: [u8; 4] = dst[o..o + 4].try_into().unwrap();
                        let (tx, ty) = (fx - x as i64, fy - y as i64);
                        let inside = tx >= 0 && ty >= 0 && tx < tw as i64 && ty < th as i64;
                        let e = if !inside { d } else {
                            let t = (ty * tw as i64 + tx) as usize;
                            if rgba { over_rgba(d, px[t * 4..t * 4 + 4].try_into().unwrap()) } else { over_cov(d, color, cov[t]) }
                        };
                        ensure!(out[o..o + 4] == e, "frame pixel ({fx},{fy}) got {:?} expected {e:?} (inside={inside})", &out[o..o + 4]);
                    }
                }
                Ok(())
            });
    }
}

fn r02(cx: &mut Cx) {
    use ass_renderer::backends::coverage::{composite_bitmap, RenderBitmap};
    use ass_renderer::verif_hooks as vh;
    use tiny_skia::Pixmap;
    for _ in 0..cx.n(30_000) {
        let mut r = Rng(cx.rng.next());
        let (w, h) = (r.range(1, 9) as u32, r.range(1, 7) as u32);
        let dens = r.below(4);
        let mut data = vec![];
        for _ in 0..w * h { let p = if r.below(4) < dens { premul_px(&mut r) } else { [0; 4] }; data.extend(p); }
        let c = |r: &mut Rng, m: i64| if r.chance(1, 15) { *r.pick(&[-1_000_000i64, 1_000_000]) as i32 } else { r.range(-4, m + 4) as i32 };
        let (rx, ry) = (c(&mut r, w as i64), c(&mut r, h as i64));
        let (rw, rh) = (r.range(0, 12) as u32, r.range(0, 10) as u32);
        let mk = |data: &[u8]| { let mut p = Pixmap::new(w, h).unwrap(); p.data_mut().copy_from_slice(data); p };
        cx.check("clear_exact", || format!("{w}x{h} clear ({rx},{ry},{rw},{rh}) data {data:?}"), || {
            let mut p = mk(&data);
            vh::clear_region(&mut p, (rx, ry, rw, rh));
            for y in 0..h as i64 { for x in 0..w as i64 {
                let o = (y * w as i64 + x) as usize * 4;
                let ins = x >= rx as i64 && y >= ry as i64 && x < rx as i64 + rw as i64 && y < ry as i64 + rh as i64;
                let e: &[u8] = if ins { &[0, 0, 0, 0] } else { &data[o..o + 4] };
                ensure!(&p.data()[o..o + 4] == e, "pixel ({x},{y}) inside={ins} got {:?} expected {e:?}", &p.data()[o..o + 4]);
            } }
            Ok(())
        });
        let hint = if r.chance(1, 2) { None } else { Some((c(&mut r, w as i64), c(&mut r, h as i64), c(&mut r, w as i64), c(&mut r, h as i64))) };
        cx.check("crop_exact", || format!("{w}x{h} crop hint {hint:?} data {data:?}"), || {
            let p = mk(&data);
            let got = vh::crop_pixmap(&p, hint);
            // drawn pixels within the (inclusive) hint
            let inside = |x: i64, y: i64| match hint { None => true, Some((a, b, c2, d)) => x >= a as i64 && y >= b as i64 && x <= c2 as i64 && y <= d as i64 };
            let drawn: Vec<(i64, i64)> = (0..h as i64).flat_map(|y| (0..w as i64).map(move |x| (x, y)))
                .filter(|&(x, y)| inside(x, y) && data[(y * w as i64 + x) as usize * 4 + 3] != 0).collect();
            match got {
                None => ensure!(drawn.is_empty(), "None but drawn pixels {drawn:?}"),
                Some(RenderBitmap::Rgba { width, height, pixels, x, y }) => {
                    ensure!(!drawn.is_empty(), "bitmap for nothing drawn");
                    let (x0, x1) = (drawn.iter().map(|p| p.0).min().unwrap(), drawn.iter().map(|p| p.0).max().unwrap());
                    let (y0, y1) = (drawn.iter().map(|p| p.1).min().unwrap(), drawn.iter().map(|p| p.1).max().unwrap());
                    ensure!((x as i64, y as i64, width as i64, height as i64) == (x0, y0, x1 - x0 + 1, y1 - y0 + 1), "box ({x},{y},{width},{height}) expected ({x0},{y0})-({x1},{y1})");
                    ensure!(pixels.len() == (width * height * 4) as usize, "pixel buffer size");
                    for ty in 0..height { for tx in 0..width {
                        let s = ((y0 as u32 + ty) * w + x0 as u32 + tx) as usize * 4; let t = (ty * width + tx) as usize * 4;
                        ensure!(pixels[t..t + 4] == data[s..s + 4], "cropped pixel ({tx},{ty}) differs");
                    } }
                    if hint.is_none() {
                        // lossless: painting the crop back on a blank frame gives the visible picture
                        let mut f = vec![0u8; data.len()];
                        composite_bitmap(&mut f, w, h, &RenderBitmap::Rgba { width, height, pixels, x, y });
                        for i in 0..(w * h) as usize { if data[i * 4 + 3] != 0 { ensure!(f[i * 4..i * 4 + 4] == data[i * 4..i * 4 + 4], "repaint pixel {i}"); } }
                    }
                }
                Some(_) => return Err("coverage bitmap".into()),
            }
            Ok(())
        });
    }
}
