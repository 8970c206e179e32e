use vstd::prelude::*;
verus! {

//@@ struct crates/ass-renderer/src/utils/caches.rs AtlasRegion pubfields
//@@ struct crates/ass-renderer/src/utils/caches.rs TextureAtlas pubfields

impl Clone for AtlasRegion {
    // trusted: derived Clone copies every field
    #[verifier::external_body]
    fn clone(&self) -> (r: AtlasRegion) ensures r == *self { unimplemented!() }
}

pub assume_specification<T: Clone>[ <[T]>::fill ](s: &mut [T], v: T)
    ensures final(s)@.len() == old(s)@.len(), forall|i: int| 0 <= i < final(s)@.len() ==> final(s)@[i] == v;
//@@ include px_lemmas.inc
pub open spec fn disjoint(a: AtlasRegion, b: AtlasRegion) -> bool {
    a.width == 0 || a.height == 0 || b.width == 0 || b.height == 0
    || a.x + a.width <= b.x || b.x + b.width <= a.x || a.y + a.height <= b.y || b.y + b.height <= a.y
}
pub open spec fn inside(a: AtlasRegion, w: u32, h: u32) -> bool {
    a.x + a.width <= w && a.y + a.height <= h
}
impl TextureAtlas {
    /// representation invariant: what a user of the atlas relies on (regions pairwise disjoint and in
    /// bounds), plus the packing cursor facts that make it inductive
    pub open spec fn wf(self) -> bool {
        &&& self.next_x <= self.width && self.next_y + self.row_height <= self.height
        &&& forall|i: int| 0 <= i < self.allocations@.len() ==> inside(#[trigger] self.allocations@[i], self.width, self.height)
        &&& forall|i: int, j: int| 0 <= i < j < self.allocations@.len() ==> disjoint(#[trigger] self.allocations@[i], #[trigger] self.allocations@[j])
        &&& forall|i: int| 0 <= i < self.allocations@.len() ==> {
              let r = #[trigger] self.allocations@[i];
              r.width == 0 || r.height == 0 || r.y + r.height <= self.next_y
              || (r.y == self.next_y && r.x + r.width <= self.next_x && r.height <= self.row_height) }
    }

//@@ fn crates/ass-renderer/src/utils/caches.rs TextureAtlas::allocate
//@ret r
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        final(self).width == old(self).width, final(self).height == old(self).height,
        final(self).data@ == old(self).data@,
        match r {
            Some(g) => {
                &&& g.width == width && g.height == height
                &&& inside(g, old(self).width, old(self).height)
                &&& forall|i: int| 0 <= i < old(self).allocations@.len() ==> disjoint(#[trigger] old(self).allocations@[i], g)
                &&& final(self).allocations@ == old(self).allocations@.push(g)
                &&& (old(self).allocations@.len() <= u32::MAX ==> g.id == old(self).allocations@.len())
            },
            None => {
                &&& final(self).allocations@ == old(self).allocations@
                &&& (width > old(self).width || height > old(self).height || height > old(self).height - old(self).next_y - old(self).row_height
                     || height > old(self).height - old(self).next_y)
            },
        },
//@@ end

//@@ fn crates/ass-renderer/src/utils/caches.rs TextureAtlas::new
//@ret r
//@spec
    requires width * height * 4 <= u32::MAX,
    ensures r.wf(), r.allocations@.len() == 0, r.width == width, r.height == height, r.data@.len() == width * height * 4,
//@start
    proof { assert(width * height * 4 <= u32::MAX ==> width * height <= u32::MAX) by(nonlinear_arith); }
//@@ end

//@@ fn crates/ass-renderer/src/utils/caches.rs TextureAtlas::clear
//@spec
    ensures final(self).wf(), final(self).allocations@.len() == 0, final(self).width == old(self).width, final(self).height == old(self).height,
        final(self).data@.len() == old(self).data@.len(), forall|i: int| 0 <= i < final(self).data@.len() ==> final(self).data@[i] == 0,
//@@ end

//@@ fn crates/ass-renderer/src/utils/caches.rs TextureAtlas::write_region
//@replace "self.data[dst_offset..dst_end]" => "self.data.as_mut_slice()[dst_offset..dst_end]"
//@spec
    requires inside(*region, old(self).width, old(self).height), old(self).width > 0, old(self).height > 0,
        old(self).width * old(self).height * 4 <= u32::MAX,
        old(self).data@.len() == old(self).width * old(self).height * 4,
        data@.len() == region.width * region.height * 4,
    ensures final(self).data@.len() == old(self).data@.len(),
        final(self).width == old(self).width, final(self).height == old(self).height, final(self).allocations == old(self).allocations,
        final(self).next_x == old(self).next_x, final(self).next_y == old(self).next_y, final(self).row_height == old(self).row_height,
        forall|x: int, y: int, k: int| region.x <= x < region.x + region.width && region.y <= y < region.y + region.height && 0 <= k < 4 ==>
            #[trigger] final(self).data@[px(x, y, k, old(self).width as int)] == data@[px(x - region.x, y - region.y, k, region.width as int)],
        forall|x: int, y: int, k: int| 0 <= x < old(self).width && 0 <= y < old(self).height && 0 <= k < 4
            && !(region.x <= x < region.x + region.width && region.y <= y < region.y + region.height) ==>
            #[trigger] final(self).data@[px(x, y, k, old(self).width as int)] == old(self).data@[px(x, y, k, old(self).width as int)],
//@start
    let ghost (w, h, rw, rh, rx, ry) = (self.width as int, self.height as int, region.width as int, region.height as int, region.x as int, region.y as int);
    let ghost data0 = self.data@;
    proof {
        assert(w * 4 <= w * h * 4) by(nonlinear_arith) requires w >= 0, h >= 1;
        assert(rw * rh * 4 <= w * h * 4) by(nonlinear_arith) requires rw <= w, rh <= h, rw >= 0, rh >= 0;
    }
//@loop 0
    invariant inside(*region, self.width, self.height), self.width > 0, self.height > 0,
        w == self.width, h == self.height, rw == region.width, rh == region.height, rx == region.x, ry == region.y,
        w * 4 <= u32::MAX, w * h * 4 <= u32::MAX, rw * rh * 4 <= u32::MAX, stride == w * 4,
        self.data@.len() == w * h * 4, data0.len() == w * h * 4,
        data@.len() == rw * rh * 4,
        self.width == old(self).width, self.height == old(self).height, self.allocations == old(self).allocations,
        self.next_x == old(self).next_x, self.next_y == old(self).next_y, self.row_height == old(self).row_height,
        forall|x: int, yy: int, k: int| rx <= x < rx + rw && ry <= yy < ry + y && 0 <= k < 4 ==>
            #[trigger] self.data@[px(x, yy, k, w)] == data@[px(x - rx, yy - ry, k, rw)],
        forall|x: int, yy: int, k: int| 0 <= x < w && 0 <= yy < h && 0 <= k < 4
            && !(rx <= x < rx + rw && ry <= yy < ry + y) ==>
            #[trigger] self.data@[px(x, yy, k, w)] == data0[px(x, yy, k, w)],
//@before "let src_offset"
    let ghost prev = self.data@;
    proof {
        assert(0 <= y * rw && y * rw + rw <= rw * rh) by(nonlinear_arith) requires 0 <= y < rh, rw >= 0;
        assert((ry + y) * stride == (ry + y) * w * 4) by(nonlinear_arith) requires stride == w * 4;
        assert(0 <= (ry + y) * w && (ry + y) * w + w <= w * h) by(nonlinear_arith) requires 0 <= ry + y < h, w >= 0;
    }
//@after "copy_from_slice"
    proof {
        assert forall|x: int, yy: int, k: int| 0 <= x < w && 0 <= yy < h && 0 <= k < 4 implies
            #[trigger] self.data@[px(x, yy, k, w)] == (if rx <= x < rx + rw && yy == ry + y { data@[px(x - rx, y as int, k, rw)] } else { prev[px(x, yy, k, w)] }) by {
            lemma_row(w, rx, rw, ry + y, x, yy, k);
            lemma_px_bound(w, h, x, yy, k);
        }
    }
//@@ end

}
}
fn main() {}
