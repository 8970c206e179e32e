use ass_renderer::backends::coverage::{composite, composite_bitmap, CoverageTile, RenderBitmap};
use std::sync::Arc;

/// the code's own rounding formula, at u32, used as the *intermediate* specification
fn f(a: u32, b: u32) -> u32 { let t = a * b + 128; (t + (t >> 8)) >> 8 }
/// top-level specification: exact round-half-up of a*b/255
fn sp(a: u32, b: u32) -> u32 { (2 * a * b + 255) / 510 }

/// lemma: the shift formula is the exact rounded quotient for all byte operands
#[kani::proof]
fn r01_lemma_rounding() {
    let (a, b): (u8, u8) = (kani::any(), kani::any());
    assert!(f(a as u32, b as u32) == sp(a as u32, b as u32));
}
/// lemma: premultiplied source + attenuated destination never exceeds a byte
#[kani::proof]
fn r01_lemma_no_wrap() {
    let (c, pa, cov, d): (u8, u8, u8, u8) = (kani::any(), kani::any(), kani::any(), kani::any());
    let p = f(c as u32, pa as u32);
    assert!(p <= pa as u32);
    let s = f(p, cov as u32);
    let sa = f(pa as u32, cov as u32);
    assert!(s <= sa && sa <= 255);
    assert!(s + f(d as u32, 255 - sa) <= 255);
    // identities: zero coverage keeps, full opaque coverage replaces
    if cov == 0 { assert!(s + f(d as u32, 255 - sa) == d as u32); }
    if cov == 255 && pa == 255 { assert!(s == c as u32 && f(d as u32, 255 - sa) == 0); }
}
fn same(a: &[u8; 4], b: &[u8; 4]) -> bool { a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3] }
fn over(d: u8, p: u32, pa: u32, cov: u8) -> u32 {
    let sa = f(pa, cov as u32);
    f(p, cov as u32) + f(d as u32, 255 - sa)
}
/// contract of the scalar path: one pixel, all colours, all coverages, all destinations
#[kani::proof]
#[kani::unwind(2)]
fn r01_scalar_pixel() {
    let cov: u8 = kani::any();
    let color: [u8; 4] = kani::any();
    let old: [u8; 4] = kani::any();
    let mut dst = old;
    let tile = CoverageTile { width: 1, height: 1, data: Arc::new(vec![cov]) };
    composite(&mut dst, 1, 1, &tile, 0, 0, color);
    let pa = color[3] as u32;
    if pa == 0 || cov == 0 {
        assert!(same(&dst, &old));
    } else {
        assert!(dst[0] as u32 == over(old[0], f(color[0] as u32, pa), pa, cov));
        assert!(dst[1] as u32 == over(old[1], f(color[1] as u32, pa), pa, cov));
        assert!(dst[2] as u32 == over(old[2], f(color[2] as u32, pa), pa, cov));
        assert!(dst[3] as u32 == over(old[3], pa, pa, cov));
    }
}
/// contract of the RGBA path
#[kani::proof]
#[kani::unwind(3)]
fn r01_rgba_pixel() {
    let px: [u8; 4] = kani::any();
    kani::assume(px[0] <= px[3] && px[1] <= px[3] && px[2] <= px[3]); // premultiplied
    let old: [u8; 4] = kani::any();
    let mut dst = old;
    composite_bitmap(&mut dst, 1, 1, &RenderBitmap::Rgba { width: 1, height: 1, pixels: Arc::new(vec![px[0], px[1], px[2], px[3]]), x: 0, y: 0 });
    if px[3] == 0 {
        assert!(same(&dst, &old));
    } else {
        let inv = 255 - px[3] as u32;
        assert!(dst[0] as u32 == px[0] as u32 + f(old[0] as u32, inv));
        assert!(dst[1] as u32 == px[1] as u32 + f(old[1] as u32, inv));
        assert!(dst[2] as u32 == px[2] as u32 + f(old[2] as u32, inv));
        assert!(dst[3] as u32 == px[3] as u32 + f(old[3] as u32, inv));
    }
}
// Models of the four SSE2 lane instructions Kani cannot execute (trusted; from the Intel manual).
mod sse {
    use std::arch::x86_64::__m128i;
    use std::mem::transmute;
    fn map2(a: __m128i, b: __m128i, f: fn(u16, u16) -> u16) -> __m128i {
        let (x, y): ([u16; 8], [u16; 8]) = unsafe { (transmute(a), transmute(b)) };
        unsafe { transmute([f(x[0], y[0]), f(x[1], y[1]), f(x[2], y[2]), f(x[3], y[3]), f(x[4], y[4]), f(x[5], y[5]), f(x[6], y[6]), f(x[7], y[7])]) }
    }
    pub fn mullo(a: __m128i, b: __m128i) -> __m128i { map2(a, b, |x, y| x.wrapping_mul(y)) }
    pub fn add(a: __m128i, b: __m128i) -> __m128i { map2(a, b, |x, y| x.wrapping_add(y)) }
    pub fn srl(a: __m128i, c: __m128i) -> __m128i {
        let x: [u16; 8] = unsafe { transmute(a) };
        let n: [u64; 2] = unsafe { transmute(c) };
        let f = |v: u16| if n[0] > 15 { 0 } else { v >> n[0] };
        unsafe { transmute([f(x[0]), f(x[1]), f(x[2]), f(x[3]), f(x[4]), f(x[5]), f(x[6]), f(x[7])]) }
    }
}
/// contract of the vector path: four pixels at once, all coverages/colours/destinations; one harness
/// per destination byte so the solver sees one channel at a time
fn quad(k: usize) {
    let cov: [u8; 4] = kani::any();
    let color: [u8; 4] = kani::any();
    let old: [u8; 16] = kani::any();
    let mut dst = old;
    let tile = CoverageTile { width: 4, height: 1, data: Arc::new(vec![cov[0], cov[1], cov[2], cov[3]]) };
    composite(&mut dst, 4, 1, &tile, 0, 0, color);
    let pa = color[3] as u32;
    let c = cov[k / 4];
    if pa == 0 || c == 0 {
        assert!(dst[k] == old[k]);
    } else {
        let p = if k % 4 == 3 { pa } else { f(color[k % 4] as u32, pa) };
        assert!(dst[k] as u32 == over(old[k], p, pa, c));
    }
}
macro_rules! quads { ($($n:ident $k:expr),*) => { $(
    #[kani::proof]
    #[kani::unwind(18)]
    #[kani::stub(core::arch::x86_64::_mm_mullo_epi16, sse::mullo)]
    #[kani::stub(core::arch::x86_64::_mm_add_epi16, sse::add)]
    #[kani::stub(core::arch::x86_64::_mm_srl_epi16, sse::srl)]
    fn $n() { quad($k) }
)* } }
quads!(r01_quad_00 0, r01_quad_01 1, r01_quad_02 2, r01_quad_03 3, r01_quad_04 4, r01_quad_05 5, r01_quad_06 6, r01_quad_07 7,
       r01_quad_08 8, r01_quad_09 9, r01_quad_10 10, r01_quad_11 11, r01_quad_12 12, r01_quad_13 13, r01_quad_14 14, r01_quad_15 15);
