use vstd::prelude::*;
use std::sync::Arc;
verus! {

//@@ include px_lemmas.inc

pub assume_specification<T: Clone>[ <[T]>::fill ](s: &mut [T], v: T)
    ensures final(s)@.len() == old(s)@.len(), forall|i: int| 0 <= i < final(s)@.len() ==> final(s)@[i] == v;

/// tiny_skia::Pixmap as seen by the verified code: dimensions and a w*h*4 byte buffer (trusted
/// contract on the dependency's four accessors)
pub struct Pixmap { pub w: u32, pub h: u32, pub buf: Vec<u8> }
impl Pixmap {
    pub open spec fn wf(self) -> bool { self.buf@.len() == self.w * self.h * 4 && 0 < self.w <= 0x1000_0000 && 0 < self.h <= 0x1000_0000 && self.w * self.h * 4 <= i32::MAX }
    pub fn width(&self) -> (r: u32) ensures r == self.w { self.w }
    pub fn height(&self) -> (r: u32) ensures r == self.h { self.h }
    pub fn data(&self) -> (r: &[u8]) ensures r@ == self.buf@ { self.buf.as_slice() }
    pub fn data_mut(&mut self) -> (r: &mut [u8])
        ensures r@ == old(self).buf@, final(self).buf@ == final(r)@, final(self).w == old(self).w, final(self).h == old(self).h
    { self.buf.as_mut_slice() }
}

//@@ struct crates/ass-renderer/src/backends/coverage/mod.rs RenderBitmap

//@@ fn crates/ass-renderer/src/backends/software/dirty.rs clear_region
//@spec
    requires old(pixmap).wf(), -0x4000_0000 <= region.0 <= 0x4000_0000, -0x4000_0000 <= region.1 <= 0x4000_0000,
        region.2 <= 0x3fff_ffff, region.3 <= 0x3fff_ffff,
    ensures final(pixmap).wf(), final(pixmap).w == old(pixmap).w, final(pixmap).h == old(pixmap).h,
        forall|fx: int, fy: int, k: int| 0 <= fx < old(pixmap).w && 0 <= fy < old(pixmap).h && 0 <= k < 4 ==>
            #[trigger] final(pixmap).buf@[px(fx, fy, k, old(pixmap).w as int)] == (
                if region.0 <= fx < region.0 + region.2 && region.1 <= fy < region.1 + region.3 { 0 }
                else { old(pixmap).buf@[px(fx, fy, k, old(pixmap).w as int)] as int }),
//@start
    let ghost d0 = pixmap.buf@;
    let ghost (gw, gh) = (pixmap.w as int, pixmap.h as int);
//@loop 0
    invariant
        gw == w, gh == h, data@.len() == gw * gh * 4, d0.len() == data@.len(), gw * gh * 4 <= i32::MAX, 0 < gw <= 0x1000_0000, 0 < gh <= 0x1000_0000,
        0 <= x0 < x1 <= gw, 0 <= y0 < y1 <= gh, row_bytes == (x1 - x0) * 4,
        forall|fx: int, fy: int, k: int| 0 <= fx < gw && 0 <= fy < gh && 0 <= k < 4 ==>
            #[trigger] data@[px(fx, fy, k, gw)] == (if x0 <= fx < x1 && y0 <= fy < y { 0 } else { d0[px(fx, fy, k, gw)] as int }),
//@before "let start"
    let ghost prev = data@;
    proof { lemma_px_bound(gw, gh, x0 as int, y as int, 0); }
//@after "fill(0)"
    proof {
        assert forall|fx: int, fy: int, k: int| 0 <= fx < gw && 0 <= fy < gh && 0 <= k < 4 implies
            #[trigger] data@[px(fx, fy, k, gw)] == (if x0 <= fx < x1 && fy == y { 0 } else { prev[px(fx, fy, k, gw)] as int }) by {
            lemma_px_bound(gw, gh, fx, fy, k);
            lemma_row(gw, x0 as int, x1 - x0, y as int, fx, fy, k);
        }
    }
//@@ end

pub open spec fn in_scan(hint: Option<(i32, i32, i32, i32)>, fx: int, fy: int) -> bool {
    match hint { None => true, Some(b) => b.0 <= fx <= b.2 && b.1 <= fy <= b.3 }
}
pub open spec fn opaque(p: Pixmap, fx: int, fy: int) -> bool { p.buf@[px(fx, fy, 3, p.w as int)] != 0 }

//@@ fn crates/ass-renderer/src/backends/software/dirty.rs crop_pixmap
//@replace "use crate::backends::coverage::RenderBitmap;" => ""
//@sig-replace "crate::backends::coverage::RenderBitmap" => "RenderBitmap"
//@replace "pixels[dst..dst + row_bytes]" => "pixels.as_mut_slice()[dst..dst + row_bytes]"
//@ret r
//@spec
    requires pixmap.wf(), hint is Some ==> hint->Some_0.2 < i32::MAX && hint->Some_0.3 < i32::MAX,
    ensures match r {
        None => forall|fx: int, fy: int| 0 <= fx < pixmap.w && 0 <= fy < pixmap.h && in_scan(hint, fx, fy) ==> !(#[trigger] opaque(*pixmap, fx, fy)),
        Some(RenderBitmap::Rgba { width, height, pixels, x, y }) => {
            &&& 0 <= x && 0 <= y && x + width <= pixmap.w && y + height <= pixmap.h && width > 0 && height > 0
            // every drawn pixel of the scanned region is inside the crop
            &&& forall|fx: int, fy: int| 0 <= fx < pixmap.w && 0 <= fy < pixmap.h && in_scan(hint, fx, fy) && (#[trigger] opaque(*pixmap, fx, fy)) ==>
                    x <= fx < x + width && y <= fy < y + height
            // every edge of the crop touches a drawn pixel
            &&& exists|fx: int, fy: int| fx == x && 0 <= fy < pixmap.h && (#[trigger] opaque(*pixmap, fx, fy))
            &&& exists|fx: int, fy: int| fx == x + width - 1 && 0 <= fy < pixmap.h && (#[trigger] opaque(*pixmap, fx, fy))
            &&& exists|fx: int, fy: int| fy == y && 0 <= fx < pixmap.w && (#[trigger] opaque(*pixmap, fx, fy))
            &&& exists|fx: int, fy: int| fy == y + height - 1 && 0 <= fx < pixmap.w && (#[trigger] opaque(*pixmap, fx, fy))
            // the crop is a byte-exact copy
            &&& pixels@.len() == width * height * 4
            &&& forall|sx: int, sy: int, k: int| 0 <= sx < width && 0 <= sy < height && 0 <= k < 4 ==>
                    #[trigger] pixels@[px(sx, sy, k, width as int)] == pixmap.buf@[px(x + sx, y + sy, k, pixmap.w as int)]
        },
        _ => false,
    },
//@start
    let ghost (gw, gh) = (pixmap.w as int, pixmap.h as int);
//@loop 0
    invariant
        gw == w, gh == h, gw == pixmap.w, gh == pixmap.h, pixmap.wf(), data@ == pixmap.buf@,
        0 <= scan_x0 < scan_x1 <= gw, 0 <= scan_y0 < scan_y1 <= gh,
        max_x == -1 ==> (min_x == scan_x1 && min_y == scan_y1 && max_y == -1),
        max_x != -1 ==> (scan_x0 <= min_x <= max_x < scan_x1 && scan_y0 <= min_y <= max_y < scan_y1
            && (exists|fx: int, fy: int| fx == min_x && 0 <= fy < gh && (#[trigger] opaque(*pixmap, fx, fy)))
            && (exists|fx: int, fy: int| fx == max_x && 0 <= fy < gh && (#[trigger] opaque(*pixmap, fx, fy)))
            && (exists|fx: int, fy: int| fy == min_y && 0 <= fx < gw && (#[trigger] opaque(*pixmap, fx, fy)))
            && (exists|fx: int, fy: int| fy == max_y && 0 <= fx < gw && (#[trigger] opaque(*pixmap, fx, fy)))),
        forall|fx: int, fy: int| scan_x0 <= fx < scan_x1 && scan_y0 <= fy < y && (#[trigger] opaque(*pixmap, fx, fy)) ==>
            min_x <= fx <= max_x && min_y <= fy <= max_y,
//@before "let row ="
    proof { lemma_px_bound(gw, gh, 0, y as int, 0); }
//@loop 1
    invariant
        gw == w, gh == h, gw == pixmap.w, gh == pixmap.h, pixmap.wf(), data@ == pixmap.buf@, row == y * w * 4, scan_y0 <= y < scan_y1, y * w + w <= gw * gh,
        0 <= scan_x0 < scan_x1 <= gw, 0 <= scan_y0 < scan_y1 <= gh, 0 <= y * w,
        max_x == -1 ==> (min_x == scan_x1 && min_y == scan_y1 && max_y == -1),
        max_x != -1 ==> (scan_x0 <= min_x <= max_x < scan_x1 && scan_y0 <= min_y <= max_y < scan_y1
            && (exists|fx: int, fy: int| fx == min_x && 0 <= fy < gh && (#[trigger] opaque(*pixmap, fx, fy)))
            && (exists|fx: int, fy: int| fx == max_x && 0 <= fy < gh && (#[trigger] opaque(*pixmap, fx, fy)))
            && (exists|fx: int, fy: int| fy == min_y && 0 <= fx < gw && (#[trigger] opaque(*pixmap, fx, fy)))
            && (exists|fx: int, fy: int| fy == max_y && 0 <= fx < gw && (#[trigger] opaque(*pixmap, fx, fy)))),
        forall|fx: int, fy: int| scan_x0 <= fx < scan_x1 && scan_y0 <= fy < y && (#[trigger] opaque(*pixmap, fx, fy)) ==>
            min_x <= fx <= max_x && min_y <= fy <= max_y,
        forall|fx: int| scan_x0 <= fx < x && (#[trigger] opaque(*pixmap, fx, y as int)) ==>
            min_x <= fx <= max_x && min_y <= y <= max_y,
//@before "if data[row"
    proof {
        assert(px(x as int, y as int, 3, gw) == row + x * 4 + 3);
        assert(opaque(*pixmap, x as int, y as int) == (data@[row + x * 4 + 3] != 0));
    }
//@after "let bh ="
    let ghost (gbw, gbh) = (bw as int, bh as int);
    proof {
        assert(gbw * gbh <= gw * gh) by(nonlinear_arith) requires 0 < gbw <= gw, 0 < gbh <= gh;
        assert(gbw * 4 * gbh == gbw * gbh * 4) by(nonlinear_arith);
    }
//@loop 2
    invariant
        gw == w, gh == h, gw == pixmap.w, gh == pixmap.h, pixmap.wf(), data@ == pixmap.buf@, gbw == bw, gbh == bh, row_bytes == gbw * 4,
        pixels@.len() == gbw * gbh * 4, 0 <= min_x <= max_x < gw, 0 <= min_y <= max_y < gh, gbw == max_x - min_x + 1, gbh == max_y - min_y + 1,
        gbw * gbh <= gw * gh,
        forall|sx: int, sy: int, k: int| 0 <= sx < gbw && 0 <= sy < ty && 0 <= k < 4 ==>
            #[trigger] pixels@[px(sx, sy, k, gbw)] == pixmap.buf@[px(min_x + sx, min_y + sy, k, gw)],
//@before "let src = "
    let ghost prev = pixels@;
    proof {
        lemma_px_bound(gw, gh, min_x as int, min_y + ty, 0);
        lemma_px_bound(gbw, gbh, 0, ty as int, 0);
        assert(ty * row_bytes == ty * gbw * 4) by(nonlinear_arith) requires row_bytes == gbw * 4;
    }
//@after "copy_from_slice"
    proof {
        assert forall|sx: int, sy: int, k: int| 0 <= sx < gbw && 0 <= sy < gbh && 0 <= k < 4 implies
            #[trigger] pixels@[px(sx, sy, k, gbw)] == (if sy == ty { pixmap.buf@[px(min_x + sx, min_y + ty, k, gw)] } else { prev[px(sx, sy, k, gbw)] }) by {
            lemma_px_bound(gbw, gbh, sx, sy, k);
            lemma_row(gbw, 0, gbw, ty as int, sx, sy, k);
        }
    }
//@@ end
}
fn main() {}
