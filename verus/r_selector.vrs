use vstd::prelude::*;
verus! {
//@@ struct crates/ass-renderer/src/renderer/event_selector.rs DirtyRegion
pub struct EventSelector { pub dirty_regions: Vec<DirtyRegion> }

pub open spec fn sat(a: u32, b: u32) -> int { if a + b > u32::MAX { u32::MAX as int } else { a + b } }
pub open spec fn rx(d: DirtyRegion) -> int { sat(d.x, d.width) }
pub open spec fn ry(d: DirtyRegion) -> int { sat(d.y, d.height) }
/// the pixel (px, py) lies in the region (the far edge of the coordinate space is u32::MAX)
pub open spec fn has(d: DirtyRegion, px: int, py: int) -> bool { d.x <= px < rx(d) && d.y <= py < ry(d) }
pub open spec fn covered(s: Seq<DirtyRegion>, px: int, py: int) -> bool { exists|i: int| 0 <= i < s.len() && has(#[trigger] s[i], px, py) }
pub open spec fn rect(x: u32, y: u32, w: u32, h: u32) -> DirtyRegion { DirtyRegion { x: x, y: y, width: w, height: h } }
pub open spec fn min(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn max(a: int, b: int) -> int { if a < b { b } else { a } }
/// d is the bounding box of a and b
pub open spec fn joined(d: DirtyRegion, a: DirtyRegion, b: DirtyRegion) -> bool {
    d.x == min(a.x as int, b.x as int) && d.y == min(a.y as int, b.y as int) && rx(d) == max(rx(a), rx(b)) && ry(d) == max(ry(a), ry(b))
}
impl EventSelector {
//@@ fn crates/ass-renderer/src/renderer/event_selector.rs EventSelector::regions_overlap
//@ret r
//@spec
    ensures r == (x < rx(*region) && region.x < sat(x, width) && y < ry(*region) && region.y < sat(y, height)),
//@@ end
//@@ fn crates/ass-renderer/src/renderer/event_selector.rs EventSelector::add_dirty_region
//@re for region in &mut self\.dirty_regions \{ => for i_ in 0..self.dirty_regions.len() { let region = &mut self.dirty_regions[i_];
//@re if Self::regions_overlap\(region, => if Self::regions_overlap(&*region,
//@spec
    ensures
        // nothing recorded before or now is lost
        forall|px: int, py: int| covered(old(self).dirty_regions@, px, py) ==> #[trigger] covered(final(self).dirty_regions@, px, py),
        forall|px: int, py: int| has(rect(x, y, width, height), px, py) ==> #[trigger] covered(final(self).dirty_regions@, px, py),
        // at most one region changes, and it becomes the bounding box of itself and the addition
        final(self).dirty_regions@ == old(self).dirty_regions@.push(rect(x, y, width, height))
        || exists|k: int| 0 <= k < old(self).dirty_regions@.len() && #[trigger] final(self).dirty_regions@ == old(self).dirty_regions@.update(k, final(self).dirty_regions@[k])
            && joined(final(self).dirty_regions@[k], old(self).dirty_regions@[k], rect(x, y, width, height)),
//@loop 0
        invariant self.dirty_regions@ == old(self).dirty_regions@,
//@before "return;"
            proof {
                let o = old(self).dirty_regions@; let n = self.dirty_regions@; let k = i_ as int;
                assert(joined(n[k], o[k], rect(x, y, width, height)));
                assert(n == o.update(k, n[k]));
                assert forall|px: int, py: int| covered(o, px, py) implies #[trigger] covered(n, px, py) by {
                    let w = choose|i: int| 0 <= i < o.len() && has(#[trigger] o[i], px, py);
                    assert(has(n[w], px, py));
                }
                assert forall|px: int, py: int| has(rect(x, y, width, height), px, py) implies #[trigger] covered(n, px, py) by { assert(has(n[k], px, py)); }
            }
//@finish
    proof {
        let o = old(self).dirty_regions@; let n = self.dirty_regions@;
        assert forall|px: int, py: int| covered(o, px, py) implies #[trigger] covered(n, px, py) by {
            let w = choose|i: int| 0 <= i < o.len() && has(#[trigger] o[i], px, py);
            assert(has(n[w], px, py));
        }
        assert forall|px: int, py: int| has(rect(x, y, width, height), px, py) implies #[trigger] covered(n, px, py) by { assert(has(n[o.len() as int], px, py)); }
    }
//@@ end
}
} // verus!
fn main() {}
