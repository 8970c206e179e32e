/// byte index of channel k of pixel (x, y) in a w-wide RGBA buffer
pub open spec fn px(x: int, y: int, k: int, w: int) -> int { (y * w + x) * 4 + k }
/// a byte of pixel (x, y) lies in the run of `run` pixels starting at (x0, y0) iff y == y0 and x0 <= x < x0 + run
proof fn lemma_row(w: int, x0: int, run: int, y0: int, x: int, y: int, k: int)
    requires 0 <= x0, 0 <= run, x0 + run <= w, 0 <= x < w, 0 <= k < 4,
    ensures (px(x0, y0, 0, w) <= px(x, y, k, w) < px(x0, y0, 0, w) + run * 4) <==> (y == y0 && x0 <= x < x0 + run),
{
    if y == y0 {
    } else if y < y0 {
        assert(y * w + w <= y0 * w) by(nonlinear_arith) requires y + 1 <= y0, w >= 0;
    } else {
        assert(y0 * w + w <= y * w) by(nonlinear_arith) requires y0 + 1 <= y, w >= 0;
    }
}
proof fn lemma_px_bound(w: int, h: int, x: int, y: int, k: int)
    requires 0 <= x < w, 0 <= y < h, 0 <= k < 4,
    ensures 0 <= px(x, y, k, w) < w * h * 4, 0 <= y * w, y * w + w <= w * h, 0 <= y * w + x < w * h,
{
    assert(0 <= y * w && y * w + w <= w * h) by(nonlinear_arith) requires 0 <= y < h, w >= 0;
}
