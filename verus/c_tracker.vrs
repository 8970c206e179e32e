use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use core::ops::Range;
verus! {
//@@ include str.inc

// ---- specification: where a byte offset stands in a source -----------------------------------------
/// line breaks before byte n
pub open spec fn nl(b: Seq<u8>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { nl(b, n - 1) + if b[n - 1] == 10u8 { 1int } else { 0 } } }
/// first byte of the line on which byte n stands
pub open spec fn ls(b: Seq<u8>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else if b[n - 1] == 10u8 { n } else { ls(b, n - 1) } }
pub proof fn bounds(b: Seq<u8>, n: int)
    requires 0 <= n
    ensures 0 <= nl(b, n) <= n, 0 <= ls(b, n) <= n
    decreases n
{ if n > 0 { bounds(b, n - 1); } }
/// there is a break between p and n, and none before it since p
pub open spec fn breaks_at(b: Seq<u8>, p: int, n: int) -> bool {
    (forall|k: int| p <= k < n - 1 ==> b[k] != 10u8) && (n == b.len() || (n > p && b[n - 1] == 10u8))
}
pub open spec fn is_ws(x: u8) -> bool { x == 32u8 || x == 9u8 || x == 13u8 }
pub open spec fn min2(a: int, b: int) -> int { if a < b { a } else { b } }
fn umin(a: usize, b: usize) -> (r: usize) ensures r == min2(a as int, b as int) { if a < b { a } else { b } }

//@@ struct crates/ass-core/parser/ast/span.rs Span derive(Clone, Copy)
//@@ struct crates/ass-core/parser/position_tracker/tracker.rs PositionTracker pubfields

impl<'a> PositionTracker<'a> {
    pub open spec fn src(&self) -> Seq<u8> { self.source.spec_bytes() }
    /// the tracker stands at its offset: line and column are the real ones
    pub open spec fn wf(&self) -> bool {
        &&& self.offset <= self.src().len() < 0xffff_ffff
        &&& self.line == 1 + nl(self.src(), self.offset as int)
        &&& self.line_start == ls(self.src(), self.offset as int)
        &&& self.column == self.offset - self.line_start + 1
    }
}
impl Span {
//@@ fn crates/ass-core/parser/ast/span.rs Span::new
//@ret r
//@spec
    ensures r.start == start, r.end == end, r.line == line, r.column == column
//@@ end
//@@ fn crates/ass-core/parser/ast/span.rs Span::contains
//@ret r
//@spec
    ensures r == (self.start <= offset < self.end)
//@@ end
}
impl<'a> PositionTracker<'a> {
//@@ fn crates/ass-core/parser/position_tracker/tracker.rs PositionTracker::new
//@ret r
//@spec
    ensures r.source == source, r.offset == 0, source.spec_bytes().len() < 0xffff_ffff ==> r.wf()
//@@ end
//@@ fn crates/ass-core/parser/position_tracker/tracker.rs PositionTracker::new_at
//@ret r
//@spec
    ensures r.source == source, r.offset == offset, r.line == line, r.column == column,
        // given the real line and column of an offset, the tracker stands there
        (source.spec_bytes().len() < 0xffff_ffff && offset <= source.spec_bytes().len() && line == 1 + nl(source.spec_bytes(), offset as int)
            && column == offset - ls(source.spec_bytes(), offset as int) + 1) ==> r.wf(),
//@start
    proof { bounds(source.spec_bytes(), offset as int); }
//@@ end
//@@ fn crates/ass-core/parser/position_tracker/tracker.rs PositionTracker::offset
//@ret r
//@spec
    ensures r == self.offset
//@@ end
//@@ fn crates/ass-core/parser/position_tracker/tracker.rs PositionTracker::line
//@ret r
//@spec
    ensures r == self.line
//@@ end
//@@ fn crates/ass-core/parser/position_tracker/tracker.rs PositionTracker::column
//@ret r
//@spec
    ensures r == self.column
//@@ end
//@@ fn crates/ass-core/parser/position_tracker/tracker.rs PositionTracker::advance
//@re self\.source\.len\(\) => blen(self.source)
//@re (?s)([\w.]+\.saturating_add\([^()]*\))\.min\((\w+\([^()]*\))\) => umin(\1, \2)
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).source == old(self).source,
        final(self).offset == min2(old(self).offset + bytes, old(self).src().len() as int),
//@loop 0
    invariant self.wf(), self.source == old(self).source, self.offset <= end <= self.src().len(), end == min2(old(self).offset + bytes, old(self).src().len() as int),
    decreases end - self.offset
//@before "if self.source.as_bytes()"
    proof { bounds(self.src(), self.offset as int); bounds(self.src(), self.offset + 1); assert(self.src() == encode_utf8(self.source@)); }
//@@ end
//@@ fn crates/ass-core/parser/position_tracker/tracker.rs PositionTracker::advance_to
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).source == old(self).source,
        target_offset <= old(self).offset ==> final(self).offset == old(self).offset,
        target_offset > old(self).offset ==> final(self).offset == min2(target_offset as int, old(self).src().len() as int),
//@@ end
//@@ fn crates/ass-core/parser/position_tracker/tracker.rs PositionTracker::skip_whitespace
//@re Some\(&(\w+)\) = self\.source\.as_bytes\(\)\.get\(([^()]*)\) => Some(\1) = byte_get(self.source, \2)
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).source == old(self).source, final(self).offset >= old(self).offset,
        forall|k: int| old(self).offset <= k < final(self).offset ==> is_ws(#[trigger] old(self).src()[k]),
        final(self).offset == old(self).src().len() || !is_ws(old(self).src()[final(self).offset as int]),
//@loop 0
    invariant_except_break self.wf(), self.source == old(self).source, self.offset >= old(self).offset,
        forall|k: int| old(self).offset <= k < self.offset ==> is_ws(#[trigger] old(self).src()[k]),
    ensures self.wf(), self.source == old(self).source, self.offset >= old(self).offset,
        forall|k: int| old(self).offset <= k < self.offset ==> is_ws(#[trigger] old(self).src()[k]),
        self.offset == old(self).src().len() || !is_ws(old(self).src()[self.offset as int]),
    decreases self.src().len() - self.offset
//@@ end
//@@ fn crates/ass-core/parser/position_tracker/tracker.rs PositionTracker::skip_line
//@re Some\(&(\w+)\) = self\.source\.as_bytes\(\)\.get\(([^()]*)\) => Some(\1) = byte_get(self.source, \2)
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).source == old(self).source, final(self).offset >= old(self).offset,
        breaks_at(old(self).src(), old(self).offset as int, final(self).offset as int),
//@loop 0
    invariant_except_break self.wf(), self.source == old(self).source, self.offset >= old(self).offset,
        forall|k: int| old(self).offset <= k < self.offset ==> #[trigger] old(self).src()[k] != 10u8,
    ensures self.wf(), self.source == old(self).source, self.offset >= old(self).offset,
        breaks_at(old(self).src(), old(self).offset as int, self.offset as int),
    decreases self.src().len() - self.offset
//@@ end
//@@ fn crates/ass-core/parser/position_tracker/tracker.rs PositionTracker::remaining
//@ret r
//@re &self\.source\[([^\]]*?)\.\.\] => bslice(self.source, \1, blen(self.source))
//@spec
    requires self.wf(), at_boundary(self.source@, self.offset as int)
    ensures encode_utf8(r@) == self.src().subrange(self.offset as int, self.src().len() as int)
//@start
    proof { off_end(self.source@); let i = choose|i: int| 0 <= i <= self.source@.len() && #[trigger] off(self.source@, i) == self.offset; assert(off(self.source@, i) == self.offset); }
//@@ end
//@@ fn crates/ass-core/parser/position_tracker/tracker.rs PositionTracker::is_at_end
//@ret r
//@re self\.source\.len\(\) => blen(self.source)
//@spec
    requires self.wf()
    ensures r == (self.offset == self.src().len())
//@@ end
//@@ fn crates/ass-core/parser/position_tracker/tracker.rs PositionTracker::span_from
//@ret r
//@spec
    ensures r.start == start.offset, r.end == self.offset, r.line == start.line, r.column == start.column
//@@ end
//@@ fn crates/ass-core/parser/position_tracker/tracker.rs PositionTracker::span_for
//@ret r
//@spec
    requires self.offset + length <= usize::MAX
    ensures r.start == self.offset, r.end == self.offset + length, r.line == self.line, r.column == self.column
//@@ end
//@@ fn crates/ass-core/parser/position_tracker/tracker.rs PositionTracker::checkpoint
//@ret r
//@spec
    ensures r == *self
//@@ end
}

// ---- line numbers of byte positions ------------------------------------------------------------------
/// line breaks among the first n characters
pub open spec fn cnl(s: Seq<char>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { cnl(s, n - 1) + if s[n - 1] == '\n' { 1int } else { 0 } } }
pub proof fn cnl_pos(s: Seq<char>, n: int) requires 0 <= n <= s.len() ensures 0 <= cnl(s, n) <= n decreases n { if n > 0 { cnl_pos(s, n - 1); } }
pub proof fn cnl_bytes(s: Seq<char>, n: int)
    requires 0 <= n <= s.len()
    ensures cnl(s, n) == nl(encode_utf8(s), off(s, n))
    decreases n
{
    off_zero(s);
    if n > 0 {
        cnl_bytes(s, n - 1); off_step(s, n - 1); byte_at(s, n - 1);
        let a = off(s, n - 1); let b = encode_utf8(s);
        off_mono(s, n - 1, n);
        if (s[n - 1] as u32) < 128 { assert(nl(b, a + 1) == nl(b, a) + if b[a] == 10u8 { 1int } else { 0 }); }
        else { wide(s, n - 1); same(b, a, off(s, n)); }
    }
}
pub proof fn same(b: Seq<u8>, p: int, n: int)
    requires 0 <= p <= n <= b.len(), forall|k: int| p <= k < n ==> b[k] != 10u8
    ensures nl(b, p) == nl(b, n)
    decreases n
{ if p < n { same(b, p, n - 1); } }
/// no byte of a multi-byte character is ASCII
pub proof fn wide(s: Seq<char>, i: int)
    requires 0 <= i < s.len(), (s[i] as u32) >= 128
    ensures forall|k: int| off(s, i) <= k < off(s, i + 1) ==> #[trigger] encode_utf8(s)[k] >= 128
{
    assert forall|k: int| off(s, i) <= k < off(s, i + 1) implies #[trigger] encode_utf8(s)[k] >= 128 by {
        if encode_utf8(s)[k] < 128 { off_mono(s, i + 1, i + 1); let j = ascii_byte(s, k); if j <= i { off_mono(s, j, i); } else { off_mono(s, i + 1, j); } }
    }
}
/// the first character, from the i-th on, at or after byte position p
pub open spec fn first_at(s: Seq<char>, p: int, i: int) -> int
    decreases s.len() - i
{ if i >= s.len() { s.len() as int } else if off(s, i) >= p { i } else { first_at(s, p, i + 1) } }

pub proof fn first_is(s: Seq<char>, p: int, i: int, j: int)
    requires 0 <= j <= i <= s.len(), off(s, i) == p
    ensures first_at(s, p, j) == i
    decreases i - j
{ if j < i { off_mono(s, j, i); first_is(s, p, i, j + 1); } }

//@@ fn crates/ass-core/parser/incremental/line_calc.rs calculate_line_number
//@ret r
//@spec
    requires nbytes(source@) < 0xffff_ffff
    ensures
        // the line of a character boundary counts the line breaks before it
        at_boundary(source@, byte_pos as int) ==> r == 1 + nl(encode_utf8(source@), byte_pos as int),
        r == 1 + cnl(source@, first_at(source@, byte_pos as int, 0)),
//@start
    proof {
        off_zero(source@);
        if at_boundary(source@, byte_pos as int) {
            let i = choose|i: int| 0 <= i <= source@.len() && #[trigger] off(source@, i) == byte_pos;
            first_is(source@, byte_pos as int, i, 0); cnl_bytes(source@, i);
        }
    }
//@loop 0 it
    invariant_except_break nbytes(source@) < 0xffff_ffff, it.seq() == source@, current_pos == off(source@, it.index@), line == 1 + cnl(source@, it.index@), line <= 1 + it.index@,
        first_at(source@, byte_pos as int, 0) == first_at(source@, byte_pos as int, it.index@),
    ensures line == 1 + cnl(source@, first_at(source@, byte_pos as int, 0)),
//@before "if current_pos >= byte_pos"
    proof { off_step(source@, it.index@); off_mono(source@, it.index@ + 1, it.index@ + 1); off_mono(source@, 0, it.index@); }
//@@ end
//@@ fn crates/ass-core/parser/incremental/line_calc.rs calculate_line_range
//@ret r
//@spec
    requires nbytes(source@) < 0xffff_ffff, byte_range.start <= byte_range.end
    ensures
        // a range that starts inside the text: the lines of its two ends
        first_at(source@, byte_range.start as int, 0) < source@.len() ==>
            r.start == 1 + cnl(source@, first_at(source@, byte_range.start as int, 0)),
        r.end == 1 + cnl(source@, first_at(source@, byte_range.end as int, 0)),
//@start
    proof { off_zero(source@); }
//@loop 0 it
    invariant_except_break
        end_line == 0,
        nbytes(source@) < 0xffff_ffff, it.seq() == source@, byte_pos == off(source@, it.index@), 1 <= line == 1 + cnl(source@, it.index@), line <= 1 + it.index@,
        byte_range.start <= byte_range.end,
        start_line == 0 ==> first_at(source@, byte_range.start as int, 0) == first_at(source@, byte_range.start as int, it.index@),
        start_line != 0 ==> start_line == 1 + cnl(source@, first_at(source@, byte_range.start as int, 0)),
        first_at(source@, byte_range.end as int, 0) == first_at(source@, byte_range.end as int, it.index@),
    ensures
        end_line == 0 ==> line == 1 + cnl(source@, first_at(source@, byte_range.end as int, 0)),
        end_line != 0 ==> end_line == 1 + cnl(source@, first_at(source@, byte_range.end as int, 0)),
        start_line == 0 ==> first_at(source@, byte_range.start as int, 0) == source@.len(),
        start_line != 0 ==> start_line == 1 + cnl(source@, first_at(source@, byte_range.start as int, 0)),
//@before "if byte_pos >= byte_range.start"
    proof { off_step(source@, it.index@); off_mono(source@, it.index@ + 1, it.index@ + 1); off_mono(source@, 0, it.index@); cnl_pos(source@, it.index@); }
//@@ end
}
fn main() {}
