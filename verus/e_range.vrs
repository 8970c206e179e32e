use vstd::prelude::*;
verus! {
// a range stands for the set of offsets { p | start <= p < end }
pub open spec fn lo(a: usize, b: usize) -> usize { if a <= b { a } else { b } }
pub open spec fn hi(a: usize, b: usize) -> usize { if a <= b { b } else { a } }
fn min(a: usize, b: usize) -> (r: usize) ensures r == lo(a, b) { if a <= b { a } else { b } }
fn max(a: usize, b: usize) -> (r: usize) ensures r == hi(a, b) { if a <= b { b } else { a } }
pub enum EditorError { InvalidPosition { line: usize, column: usize } }
pub type Result<T> = core::result::Result<T, EditorError>;

//@@ struct crates/ass-editor/core/position/points.rs Position derive(Clone, Copy)
//@@ struct crates/ass-editor/core/position/points.rs LineColumn derive(Clone, Copy)
//@@ struct crates/ass-editor/core/position/range.rs Range derive(Clone, Copy)
//@@ struct crates/ass-editor/core/position/selection.rs Selection derive(Clone, Copy)

pub open spec fn holds(r: Range, p: usize) -> bool { r.start.offset <= p && p < r.end.offset }
pub open spec fn wf(r: Range) -> bool { r.start.offset <= r.end.offset }

impl Position {
//@@ fn crates/ass-editor/core/position/points.rs Position::new
//@ret r
//@spec
    ensures r.offset == offset
//@@ end
//@@ fn crates/ass-editor/core/position/points.rs Position::start
//@ret r
//@spec
    ensures r.offset == 0
//@@ end
//@@ fn crates/ass-editor/core/position/points.rs Position::is_start
//@ret r
//@spec
    ensures r == (self.offset == 0)
//@@ end
//@@ fn crates/ass-editor/core/position/points.rs Position::advance
//@ret r
//@spec
    ensures r.offset == (if self.offset + bytes <= usize::MAX { self.offset + bytes } else { usize::MAX as int })
//@@ end
//@@ fn crates/ass-editor/core/position/points.rs Position::retreat
//@ret r
//@spec
    ensures r.offset == (if self.offset >= bytes { self.offset - bytes } else { 0 })
//@@ end
}
impl LineColumn {
//@@ fn crates/ass-editor/core/position/points.rs LineColumn::new
//@ret r
//@spec
    ensures
        r is Ok <==> line > 0 && column > 0,
        r is Ok ==> r->Ok_0.line == line && r->Ok_0.column == column,
//@@ end
//@@ fn crates/ass-editor/core/position/points.rs LineColumn::start
//@ret r
//@spec
    ensures r.line == 1, r.column == 1
//@@ end
}
impl Range {
//@@ fn crates/ass-editor/core/position/range.rs Range::new
//@ret r
//@spec
    ensures wf(r), r.start.offset == lo(start.offset, end.offset), r.end.offset == hi(start.offset, end.offset)
//@@ end
//@@ fn crates/ass-editor/core/position/range.rs Range::empty
//@ret r
//@spec
    ensures wf(r), r.start.offset == pos.offset, r.end.offset == pos.offset
//@@ end
//@@ fn crates/ass-editor/core/position/range.rs Range::is_empty
//@ret r
//@spec
    ensures wf(*self) ==> (r <==> forall|p: usize| !holds(*self, p))
//@start
    assert(holds(*self, self.start.offset) || self.start.offset >= self.end.offset);
//@@ end
//@@ fn crates/ass-editor/core/position/range.rs Range::len
//@ret r
//@spec
    ensures wf(*self) ==> r == self.end.offset - self.start.offset, !wf(*self) ==> r == 0
//@@ end
//@@ fn crates/ass-editor/core/position/range.rs Range::contains
//@ret r
//@spec
    ensures r == holds(*self, pos.offset)
//@@ end
//@@ fn crates/ass-editor/core/position/range.rs Range::overlaps
//@ret r
//@spec
    ensures
        r ==> self.start.offset < other.end.offset && other.start.offset < self.end.offset,
        // for ranges that are not empty: they overlap exactly when some offset lies in both
        self.start.offset < self.end.offset && other.start.offset < other.end.offset ==> (r <==> exists|p: usize| holds(*self, p) && holds(*other, p)),
//@start
    proof {
        let m = hi(self.start.offset, other.start.offset);
        if self.start.offset < self.end.offset && other.start.offset < other.end.offset && self.start.offset < other.end.offset && other.start.offset < self.end.offset {
            assert(holds(*self, m) && holds(*other, m));
        }
    }
//@@ end
//@@ fn crates/ass-editor/core/position/range.rs Range::extend_to
//@ret r
//@spec
    ensures r.start.offset == lo(self.start.offset, pos.offset), r.end.offset == hi(self.end.offset, pos.offset), wf(*self) ==> wf(r)
//@@ end
//@@ fn crates/ass-editor/core/position/range.rs Range::union
//@ret r
//@spec
    ensures
        r.start.offset == lo(self.start.offset, other.start.offset), r.end.offset == hi(self.end.offset, other.end.offset), wf(*self) || wf(*other) ==> wf(r),
        // it covers both, and is the least range that does
        forall|p: usize| holds(*self, p) || holds(*other, p) ==> holds(r, p),
        forall|q: Range| #[trigger] wf(q) && q.start.offset <= self.start.offset && q.start.offset <= other.start.offset && q.end.offset >= self.end.offset && q.end.offset >= other.end.offset
            ==> q.start.offset <= r.start.offset && r.end.offset <= q.end.offset,
//@@ end
//@@ fn crates/ass-editor/core/position/range.rs Range::intersection
//@ret r
//@spec
    ensures
        r is Some ==> wf(r->0) && r->0.start.offset < r->0.end.offset,
        // exactly the common offsets
        forall|p: usize| (#[trigger] holds(*self, p) && holds(*other, p)) <==> (r is Some && holds(r->0, p)),
//@start
    proof { let m = hi(self.start.offset, other.start.offset); assert(holds(*self, m) || !holds(*self, m)); }
//@@ end
}
impl Selection {
//@@ fn crates/ass-editor/core/position/selection.rs Selection::new
//@ret r
//@spec
    ensures r.anchor == anchor, r.cursor == cursor
//@@ end
//@@ fn crates/ass-editor/core/position/selection.rs Selection::empty
//@ret r
//@spec
    ensures r.anchor == pos, r.cursor == pos
//@@ end
//@@ fn crates/ass-editor/core/position/selection.rs Selection::is_empty
//@ret r
//@spec
    ensures r == (self.anchor.offset == self.cursor.offset)
//@@ end
//@@ fn crates/ass-editor/core/position/selection.rs Selection::range
//@ret r
//@spec
    ensures wf(r), r.start.offset == lo(self.anchor.offset, self.cursor.offset), r.end.offset == hi(self.anchor.offset, self.cursor.offset)
//@@ end
//@@ fn crates/ass-editor/core/position/selection.rs Selection::is_reversed
//@ret r
//@spec
    ensures r == (self.cursor.offset < self.anchor.offset)
//@@ end
//@@ fn crates/ass-editor/core/position/selection.rs Selection::extend_to
//@ret r
//@spec
    ensures r.anchor == self.anchor, r.cursor == pos
//@@ end
}
}
fn main() {}
