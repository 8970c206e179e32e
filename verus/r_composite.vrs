use vstd::prelude::*;
verus! {

//@@ include px_lemmas.inc

/// exact rounded quotient a*b/255 (the property's meaning of scaling by a coverage or alpha)
pub open spec fn rnd(a: int, b: int) -> int { (2 * a * b + 255) / 510 }
/// one byte of source-over: premultiplied source p scaled by cov, over destination d
pub open spec fn over(d: int, p: int, pa: int, cov: int) -> int { rnd(p, cov) + rnd(d, 255 - rnd(pa, cov)) }
pub open spec fn pm(color: [u8; 4], k: int) -> int {
    if k == 3 { color@[3] as int } else { rnd(color@[k] as int, color@[3] as int) }
}

proof fn lemma_rnd(a: int, b: int)
    requires 0 <= a <= 255, 0 <= b <= 255,
    ensures 0 <= a * b <= 65025, rnd(a, b) == ((a * b + 128) + (a * b + 128) / 256) / 256, 0 <= rnd(a, b) <= b, rnd(a, b) <= a,
{
    assert(0 <= a * b <= 65025) by(nonlinear_arith) requires 0 <= a <= 255, 0 <= b <= 255;
    assert(a * b <= 255 * b && a * b <= 255 * a) by(nonlinear_arith) requires 0 <= a <= 255, 0 <= b <= 255;
    let n = a * b;
    assert(2 * a * b == 2 * n) by(nonlinear_arith) requires n == a * b;
    assert((2 * n + 255) / 510 == ((n + 128) + (n + 128) / 256) / 256);
}
proof fn lemma_mono(p: int, pa: int, c: int)
    requires 0 <= p <= pa <= 255, 0 <= c <= 255,
    ensures rnd(p, c) <= rnd(pa, c),
{
    assert(2 * p * c <= 2 * pa * c) by(nonlinear_arith) requires 0 <= p <= pa, 0 <= c;
}
proof fn lemma_rnd_id(d: int)
    requires 0 <= d <= 255, ensures rnd(d, 255) == d, rnd(d, 0) == 0, rnd(0, d) == 0,
{
    assert((510 * d + 255) / 510 == d);
    assert(2 * 0 * d == 0) by(nonlinear_arith);
}
proof fn lemma_over(d: int, p: int, pa: int, cov: int)
    requires 0 <= d <= 255, 0 <= p <= pa <= 255, 0 <= cov <= 255,
    ensures 0 <= over(d, p, pa, cov) <= 255, cov == 0 ==> over(d, p, pa, cov) == d, pa == 0 ==> over(d, p, pa, cov) == d,
        pa == 255 && cov == 255 ==> over(d, p, pa, cov) == p,
        0 <= rnd(p, cov) <= 255, 0 <= rnd(pa, cov) <= 255, 0 <= rnd(d, 255 - rnd(pa, cov)) <= 255,
{
    lemma_rnd(p, cov); lemma_rnd(pa, cov); lemma_mono(p, pa, cov);
    lemma_rnd(d, 255 - rnd(pa, cov));
    lemma_rnd_id(cov); lemma_rnd_id(d); lemma_rnd_id(p); lemma_rnd_id(pa);
}

//@@ fn crates/ass-renderer/src/backends/coverage/blend.rs mul255
//@ret r
//@spec
    requires a <= 255, b <= 255,
    ensures r == rnd(a as int, b as int), r <= 255, r <= a, r <= b,
//@start
    proof {
        lemma_rnd(a as int, b as int);
        assert forall|t: u16| #[trigger] (t >> 8) == t / 256 by { assert(t >> 8 == t / 256) by(bit_vector); }
    }
//@@ end

//@@ fn crates/ass-renderer/src/backends/coverage/blend.rs blend_pixel
//@spec
    requires di + 4 <= old(dst)@.len(), old(dst)@.len() <= usize::MAX, pr <= pa, pg <= pa, pb <= pa, pa <= 255, cov <= 255,
    ensures final(dst)@.len() == old(dst)@.len(),
        forall|i: int| 0 <= i < old(dst)@.len() && !(di <= i < di + 4) ==> final(dst)@[i] == old(dst)@[i],
        final(dst)@[di as int] == over(old(dst)@[di as int] as int, pr as int, pa as int, cov as int),
        final(dst)@[di + 1] == over(old(dst)@[di + 1] as int, pg as int, pa as int, cov as int),
        final(dst)@[di + 2] == over(old(dst)@[di + 2] as int, pb as int, pa as int, cov as int),
        final(dst)@[di + 3] == over(old(dst)@[di + 3] as int, pa as int, pa as int, cov as int),
//@start
    proof {
        lemma_over(dst@[di as int] as int, pr as int, pa as int, cov as int);
        lemma_over(dst@[di + 1] as int, pg as int, pa as int, cov as int);
        lemma_over(dst@[di + 2] as int, pb as int, pa as int, cov as int);
        lemma_over(dst@[di + 3] as int, pa as int, pa as int, cov as int);
    }
//@@ end

pub open spec fn ch(pr: u16, pg: u16, pb: u16, pa: u16, k: int) -> int {
    if k == 0 { pr as int } else if k == 1 { pg as int } else if k == 2 { pb as int } else { pa as int }
}
/// contract of the row blend.  The scalar variant is verified against it here; the SIMD variant is
/// checked against the same formula by the Kani harnesses r01_quad_*.
//@@ fn crates/ass-renderer/src/backends/coverage/blend.rs blend_row
//@replace "for (t, &c) in cov_row.iter().enumerate() {" => "for t in 0..cov_row.len() { let c = cov_row[t];"
//@spec
    requires dst_start + cov_row@.len() * 4 <= old(dst)@.len(), old(dst)@.len() <= usize::MAX, pr <= pa, pg <= pa, pb <= pa, pa <= 255,
    ensures final(dst)@.len() == old(dst)@.len(),
        forall|i: int| 0 <= i < old(dst)@.len() && !(dst_start <= i < dst_start + cov_row@.len() * 4) ==> final(dst)@[i] == old(dst)@[i],
        forall|t: int, k: int| 0 <= t < cov_row@.len() && 0 <= k < 4 ==>
            #[trigger] final(dst)@[dst_start + t * 4 + k] == over(old(dst)@[dst_start + t * 4 + k] as int, ch(pr, pg, pb, pa, k), pa as int, cov_row@[t] as int),
//@loop 0
    invariant dst@.len() == old(dst)@.len(), dst_start + cov_row@.len() * 4 <= dst@.len(), dst@.len() <= usize::MAX, pr <= pa, pg <= pa, pb <= pa, pa <= 255,
        forall|i: int| 0 <= i < dst@.len() && !(dst_start <= i < dst_start + t * 4) ==> dst@[i] == old(dst)@[i],
        forall|s: int, k: int| 0 <= s < t && 0 <= k < 4 ==>
            #[trigger] dst@[dst_start + s * 4 + k] == over(old(dst)@[dst_start + s * 4 + k] as int, ch(pr, pg, pb, pa, k), pa as int, cov_row@[s] as int),
//@@ end

pub open spec fn in_clip(fx: int, fy: int, x: int, y: int, cw: int, ch: int) -> bool {
    x <= fx < x + cw && y <= fy < y + ch
}

//@@ fn crates/ass-renderer/src/backends/coverage/composite.rs composite_coverage
//@spec
    requires
        old(dst)@.len() == dst_dim.0 * dst_dim.1 * 4, dst_dim.0 * dst_dim.1 * 4 <= i32::MAX, dst_dim.0 <= 0x1000_0000, dst_dim.1 <= 0x1000_0000,
        src.0@.len() == src.1 * src.2, src.1 * src.2 <= i32::MAX, src.1 <= 0x1000_0000, src.2 <= 0x1000_0000,
        -0x4000_0000 <= pos.0 <= 0x4000_0000, -0x4000_0000 <= pos.1 <= 0x4000_0000,
    ensures
        final(dst)@.len() == old(dst)@.len(),
        forall|fx: int, fy: int, k: int| 0 <= fx < dst_dim.0 && 0 <= fy < dst_dim.1 && 0 <= k < 4 ==>
            #[trigger] final(dst)@[px(fx, fy, k, dst_dim.0 as int)] == (
                if in_clip(fx, fy, pos.0 as int, pos.1 as int, src.1 as int, src.2 as int) {
                    over(old(dst)@[px(fx, fy, k, dst_dim.0 as int)] as int, pm(color, k), color@[3] as int,
                         src.0@[(fy - pos.1) * src.1 + (fx - pos.0)] as int)
                } else { old(dst)@[px(fx, fy, k, dst_dim.0 as int)] as int }),
//@start
    let ghost d0 = dst@;
    let ghost (gw, gh, gcw, gch, gx, gy) = (dst_dim.0 as int, dst_dim.1 as int, src.1 as int, src.2 as int, pos.0 as int, pos.1 as int);
    proof {
        lemma_rnd(color@[0] as int, color@[3] as int); lemma_rnd(color@[1] as int, color@[3] as int); lemma_rnd(color@[2] as int, color@[3] as int);
        assert forall|fx: int, fy: int, k: int| 0 <= fx < gw && 0 <= fy < gh && 0 <= k < 4 && in_clip(fx, fy, gx, gy, gcw, gch)
            && color@[3] == 0 implies
            #[trigger] d0[px(fx, fy, k, gw)] == over(d0[px(fx, fy, k, gw)] as int, pm(color, k), color@[3] as int, src.0@[(fy - gy) * gcw + (fx - gx)] as int) by {
            lemma_px_bound(gw, gh, fx, fy, k);
            lemma_px_bound(gcw, gch, fx - gx, fy - gy, 0);
            lemma_over(d0[px(fx, fy, k, gw)] as int, pm(color, k), color@[3] as int, src.0@[(fy - gy) * gcw + (fx - gx)] as int);
        }
    }
//@loop 0
    invariant
        gw == dst_dim.0, gh == dst_dim.1, gcw == cov_w, gch == cov_h, gx == x, gy == y, tw == cov_w, th == cov_h, dw == gw, dh == gh,
        dst@.len() == gw * gh * 4, d0 == old(dst)@, d0.len() == dst@.len(), gw * gh * 4 <= i32::MAX, cov@.len() == gcw * gch, gcw * gch <= i32::MAX,
        gw <= 0x1000_0000, gh <= 0x1000_0000, gcw <= 0x1000_0000, gch <= 0x1000_0000,
        -0x4000_0000 <= gx <= 0x4000_0000, -0x4000_0000 <= gy <= 0x4000_0000,
        tx0 == (if gx < 0 { -gx } else { 0 }), tx1 == (if gcw < gw - gx { gcw } else { gw - gx }), tx0 < tx1, run == tx1 - tx0,
        ty0 == (if gy < 0 { -gy } else { 0 }), ty1 == (if gch < gh - gy { gch } else { gh - gy }),
        pa == color@[3], pr == rnd(color@[0] as int, pa as int), pg == rnd(color@[1] as int, pa as int), pb == rnd(color@[2] as int, pa as int),
        pr <= pa, pg <= pa, pb <= pa, pa <= 255,
        forall|fx: int, fy: int, k: int| 0 <= fx < gw && 0 <= fy < gh && 0 <= k < 4 ==>
            #[trigger] dst@[px(fx, fy, k, gw)] == (
                if in_clip(fx, fy, gx, gy, gcw, gch) && fy < gy + ty {
                    over(d0[px(fx, fy, k, gw)] as int, pm(color, k), pa as int, cov@[(fy - gy) * gcw + (fx - gx)] as int)
                } else { d0[px(fx, fy, k, gw)] as int }),
//@before "let tile_base"
    let ghost prev = dst@;
    proof {
        lemma_px_bound(gcw, gch, tx0 as int, ty as int, 0);
        lemma_px_bound(gw, gh, gx + tx0, gy + ty, 0);
    }
//@after "blend_row("
    proof {
        assert forall|fx: int, fy: int, k: int| 0 <= fx < gw && 0 <= fy < gh && 0 <= k < 4 implies
            #[trigger] dst@[px(fx, fy, k, gw)] == (
                if in_clip(fx, fy, gx, gy, gcw, gch) && fy == gy + ty {
                    over(prev[px(fx, fy, k, gw)] as int, pm(color, k), pa as int, cov@[(fy - gy) * gcw + (fx - gx)] as int)
                } else { prev[px(fx, fy, k, gw)] as int }) by {
            lemma_px_bound(gw, gh, fx, fy, k);
            lemma_row(gw, gx + tx0, run as int, gy + ty, fx, fy, k);
            if fy == gy + ty && gx + tx0 <= fx < gx + tx1 {
                let t = fx - gx - tx0;
                assert(px(fx, fy, k, gw) == dst_start + t * 4 + k);
                assert(cov_row@[t] == cov@[tile_base + t]);
                assert((fy - gy) * gcw + (fx - gx) == tile_base + t);
                assert(ch(pr, pg, pb, pa, k) == pm(color, k));
            }
        }
    }
//@@ end

//@@ fn crates/ass-renderer/src/backends/coverage/composite.rs composite_rgba
//@opt-replace "for _ in tx0..tx1" => "for tx in tx0..tx1"
//@spec
    requires
        old(dst)@.len() == dst_dim.0 * dst_dim.1 * 4, dst_dim.0 * dst_dim.1 * 4 <= i32::MAX, dst_dim.0 <= 0x1000_0000, dst_dim.1 <= 0x1000_0000,
        src.0@.len() == src.1 * src.2 * 4, src.1 * src.2 * 4 <= i32::MAX, src.1 <= 0x1000_0000, src.2 <= 0x1000_0000,
        -0x4000_0000 <= pos.0 <= 0x4000_0000, -0x4000_0000 <= pos.1 <= 0x4000_0000,
        // premultiplied source
        forall|sx: int, sy: int, k: int| 0 <= sx < src.1 && 0 <= sy < src.2 && 0 <= k < 4 ==>
            #[trigger] src.0@[px(sx, sy, k, src.1 as int)] <= src.0@[px(sx, sy, 3, src.1 as int)],
    ensures
        final(dst)@.len() == old(dst)@.len(),
        forall|fx: int, fy: int, k: int| 0 <= fx < dst_dim.0 && 0 <= fy < dst_dim.1 && 0 <= k < 4 ==>
            #[trigger] final(dst)@[px(fx, fy, k, dst_dim.0 as int)] == (
                if in_clip(fx, fy, pos.0 as int, pos.1 as int, src.1 as int, src.2 as int) {
                    src.0@[px(fx - pos.0, fy - pos.1, k, src.1 as int)]
                        + rnd(old(dst)@[px(fx, fy, k, dst_dim.0 as int)] as int, 255 - src.0@[px(fx - pos.0, fy - pos.1, 3, src.1 as int)])
                } else { old(dst)@[px(fx, fy, k, dst_dim.0 as int)] as int }),
//@start
    let ghost d0 = dst@;
    let ghost (gw, gh, gcw, gch, gx, gy) = (dst_dim.0 as int, dst_dim.1 as int, src.1 as int, src.2 as int, pos.0 as int, pos.1 as int);
//@loop 0
    invariant
        gw == dst_dim.0, gh == dst_dim.1, gcw == sw, gch == sh, gx == x, gy == y, tw == gcw, th == gch, dw == gw, dh == gh,
        dst@.len() == gw * gh * 4, d0 == old(dst)@, d0.len() == dst@.len(), gw * gh * 4 <= i32::MAX, pixels@.len() == gcw * gch * 4, gcw * gch * 4 <= i32::MAX,
        gw <= 0x1000_0000, gh <= 0x1000_0000, gcw <= 0x1000_0000, gch <= 0x1000_0000,
        -0x4000_0000 <= gx <= 0x4000_0000, -0x4000_0000 <= gy <= 0x4000_0000,
        tx0 == (if gx < 0 { -gx } else { 0 }), tx1 == (if gcw < gw - gx { gcw } else { gw - gx }), tx0 < tx1,
        ty0 == (if gy < 0 { -gy } else { 0 }), ty1 == (if gch < gh - gy { gch } else { gh - gy }),
        forall|sx: int, sy: int, k: int| 0 <= sx < gcw && 0 <= sy < gch && 0 <= k < 4 ==>
            #[trigger] pixels@[px(sx, sy, k, gcw)] <= pixels@[px(sx, sy, 3, gcw)],
        forall|fx: int, fy: int, k: int| 0 <= fx < gw && 0 <= fy < gh && 0 <= k < 4 ==>
            #[trigger] dst@[px(fx, fy, k, gw)] == (
                if in_clip(fx, fy, gx, gy, gcw, gch) && fy < gy + ty {
                    pixels@[px(fx - gx, fy - gy, k, gcw)] + rnd(d0[px(fx, fy, k, gw)] as int, 255 - pixels@[px(fx - gx, fy - gy, 3, gcw)])
                } else { d0[px(fx, fy, k, gw)] as int }),
//@before "let mut si"
    let ghost prev = dst@;
    proof {
        lemma_px_bound(gcw, gch, tx0 as int, ty as int, 0);
        lemma_px_bound(gw, gh, gx + tx0, gy + ty, 0);
    }
//@loop 1
    invariant
        gw == dst_dim.0, gh == dst_dim.1, gcw == sw, gch == sh, gx == x, gy == y,
        dst@.len() == gw * gh * 4, prev.len() == dst@.len(), gw * gh * 4 <= i32::MAX, pixels@.len() == gcw * gch * 4, gcw * gch * 4 <= i32::MAX,
        0 <= tx0, tx1 <= gcw, gx + tx1 <= gw, 0 <= gx + tx0, 0 <= ty < gch, 0 <= gy + ty < gh, tx0 < tx1,
        tx0 <= tx <= tx1,
        si == px(tx as int, ty as int, 0, gcw), di == px(gx + tx, gy + ty, 0, gw),
        forall|sx: int, sy: int, k: int| 0 <= sx < gcw && 0 <= sy < gch && 0 <= k < 4 ==>
            #[trigger] pixels@[px(sx, sy, k, gcw)] <= pixels@[px(sx, sy, 3, gcw)],
        forall|fx: int, fy: int, k: int| 0 <= fx < gw && 0 <= fy < gh && 0 <= k < 4 ==>
            #[trigger] dst@[px(fx, fy, k, gw)] == (
                if fy == gy + ty && gx + tx0 <= fx < gx + tx {
                    pixels@[px(fx - gx, fy - gy, k, gcw)] + rnd(prev[px(fx, fy, k, gw)] as int, 255 - pixels@[px(fx - gx, fy - gy, 3, gcw)])
                } else { prev[px(fx, fy, k, gw)] as int }),
//@before "let sa = "
    let ghost before = dst@;
    proof {
        lemma_px_bound(gcw, gch, tx as int, ty as int, 3);
        lemma_px_bound(gw, gh, gx + tx, gy + ty, 3);
        let (cx, cy) = (tx as int, ty as int);
        assert(pixels@[px(cx, cy, 0, gcw)] <= pixels@[px(cx, cy, 3, gcw)]);
        assert(pixels@[px(cx, cy, 1, gcw)] <= pixels@[px(cx, cy, 3, gcw)]);
        assert(pixels@[px(cx, cy, 2, gcw)] <= pixels@[px(cx, cy, 3, gcw)]);
        assert forall|k: int| 0 <= k < 4 implies #[trigger] before[px(gx + cx, gy + cy, k, gw)] == prev[px(gx + cx, gy + cy, k, gw)] by {}
        let s3 = pixels@[px(cx, cy, 3, gcw)] as int;
        lemma_rnd(before[di as int] as int, 255 - s3); lemma_rnd(before[di + 1] as int, 255 - s3);
        lemma_rnd(before[di + 2] as int, 255 - s3); lemma_rnd(before[di + 3] as int, 255 - s3);
        lemma_rnd_id(before[di as int] as int); lemma_rnd_id(before[di + 1] as int); lemma_rnd_id(before[di + 2] as int); lemma_rnd_id(before[di + 3] as int);
    }
//@before "si += 4"
    proof {
        assert forall|fx: int, fy: int, k: int| 0 <= fx < gw && 0 <= fy < gh && 0 <= k < 4 implies
            #[trigger] dst@[px(fx, fy, k, gw)] == (
                if fy == gy + ty && fx == gx + tx {
                    pixels@[px(fx - gx, fy - gy, k, gcw)] + rnd(before[px(fx, fy, k, gw)] as int, 255 - pixels@[px(fx - gx, fy - gy, 3, gcw)])
                } else { before[px(fx, fy, k, gw)] as int }) by {
            lemma_px_bound(gw, gh, fx, fy, k);
            lemma_row(gw, gx + tx, 1, gy + ty, fx, fy, k);
            lemma_rnd_id(before[px(fx, fy, k, gw)] as int);
            if fy == gy + ty && fx == gx + tx {
                assert(px(fx, fy, k, gw) == di + k);
                assert(px(fx - gx, fy - gy, k, gcw) == si + k && px(fx - gx, fy - gy, 3, gcw) == si + 3);
                assert(k == 0 || k == 1 || k == 2 || k == 3);
            }
        }
    }
//@@ end

}
fn main() {}
