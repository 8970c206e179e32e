use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
verus! {
//@@ include str.inc
//@@ include rope.inc
pub enum EditorError {
    PositionOutOfBounds { position: usize, length: usize }, InvalidPosition { line: usize, column: usize },
}
pub type Result<T> = core::result::Result<T, EditorError>;
//@@ struct crates/ass-editor/core/position/points.rs Position derive(Clone, Copy)
//@@ struct crates/ass-editor/core/position/points.rs LineColumn derive(Clone, Copy)
//@@ struct crates/ass-editor/core/position/builder.rs PositionBuilder pubfields
// the part of the document these functions use
pub struct EditorDocument { pub text_rope: Rope }
impl Position {
//@@ fn crates/ass-editor/core/position/points.rs Position::new
//@ret r
//@spec
    ensures r.offset == offset
//@@ end
//@@ fn crates/ass-editor/core/position/points.rs Position::start
//@ret r
//@spec
    ensures r.offset == 0
//@@ end
}
impl LineColumn {
//@@ fn crates/ass-editor/core/position/points.rs LineColumn::new
//@ret r
//@spec
    ensures r is Ok <==> line > 0 && column > 0, r is Ok ==> r->Ok_0.line == line && r->Ok_0.column == column
//@@ end
}
/// character k stands on line `line`, in column `column`, both from 1
pub open spec fn stands(s: Chars, k: int, line: int, column: int) -> bool { exists|i: int| #[trigger] line_at(s, line - 1, i) && ln(s, k) == line - 1 && i <= k && column == k - i + 1 }
/// characters of the slice, in bytes
pub proof fn sub_off(s: Chars, i: int, j: int, n: int) requires 0 <= i <= j <= s.len(), 0 <= n <= j - i ensures off(s.subrange(i, j), n) == off(s, i + n) - off(s, i), nbytes(s.subrange(i, j)) == off(s, j) - off(s, i) {
    encode_utf8_concat(s.take(i), s.subrange(i, j).take(n));
    assert(s.take(i + n) =~= s.take(i) + s.subrange(i, j).take(n));
    encode_utf8_concat(s.take(i), s.subrange(i, j));
    assert(s.take(j) =~= s.take(i) + s.subrange(i, j));
}
pub proof fn the_char(s: Chars, i: int, k: int, b: int)
    requires 0 <= i <= s.len(), 0 <= k <= s.len(), off(s, k) == b, off(s, i) <= b, i < s.len() ==> b < off(s, i + 1)
    ensures i == k
{ if i < k { off_mono(s, i + 1, k); } if i > k { off_mono(s, k, i); off_step(s, k); off_mono(s, k + 1, i); } }
impl EditorDocument {
//@@ fn crates/ass-editor/core/document/text_access.rs EditorDocument::len_bytes
//@ret r
//@spec
    ensures r == nbytes(self.text_rope@)
//@@ end
//@@ fn crates/ass-editor/core/document/text_access.rs EditorDocument::position_to_line_column
//@re-all line\.chars\(\) => line.text().chars()
//@before "LineColumn::new(line_idx + 1"
        proof {
            assert forall|m: int| 0 <= m <= s.len() && #[trigger] off(s, m) == pos.offset implies stands(s, m, line_idx + 1, char_col + 1) by { the_char(s, k, m, pos.offset as int); assert(line_at(s, (line_idx + 1) - 1, i)); }
        }
//@ret r
//@spec
    ensures
        r is Ok <==> pos.offset <= nbytes(self.text_rope@),
        // at a character: exactly where it stands; within one: the column after it
        r is Ok ==> forall|k: int| 0 <= k <= self.text_rope@.len() && #[trigger] off(self.text_rope@, k) == pos.offset ==> stands(self.text_rope@, k, r->Ok_0.line as int, r->Ok_0.column as int),
//@start
    let ghost s = self.text_rope@;
    proof { rope_fits(self.text_rope); }
//@after "let line_idx"
        let ghost k = choose|k: int| 0 <= k <= s.len() && #[trigger] off(s, k) <= pos.offset && (k < s.len() ==> pos.offset < off(s, k + 1)) && line_idx == ln(s, k);
        proof { ln_mono(s, k, s.len() as int); chars_le_bytes(s); }
//@after "let line_start"
        let ghost i = choose|i: int| #[trigger] line_at(s, line_idx as int, i) && line_start == off(s, i);
        proof { if k < i { ln_mono(s, k, i - 1); } off_mono(s, i, k); }
//@after "let line = "
        let ghost (i2, j) = choose|i2: int, j: int| #[trigger] line_is(s, line_idx as int, i2, j) && line@ == s.subrange(i2, j);
        proof {
            line_at_one(s, line_idx as int, i, i2);
            line_holds(s, k, i, j);
            off_zero(line@);
        }
//@loop 0 it
        invariant_except_break
            char_col == it.index@,
        invariant
            it.seq() == line@, 0 <= it.index@ <= line@.len(), off(s, k) == pos.offset ==> char_col <= k - i,
            0 <= char_col <= k - i + 1, char_col <= line@.len(), line@ == s.subrange(i, j), 0 <= i <= k <= j <= s.len(), k < j || j == s.len(),
            byte_count == off(line@, char_col as int), col_offset == pos.offset - off(s, i), nbytes(s) < usize::MAX, s.len() <= nbytes(s),
            off(s, k) <= pos.offset, k < s.len() ==> pos.offset < off(s, k + 1),
            char_col <= k - i || byte_count >= col_offset,
        ensures
            off(s, k) == pos.offset ==> char_col == k - i,
            char_col <= k - i + 1, char_col <= line@.len(),
//@finish
//@loopstart 0
            proof {
                sub_off(s, i, j, char_col as int); sub_off(s, i, j, k - i);
                if k < j { sub_off(s, i, j, k - i + 1); }
                if char_col < line@.len() { off_step(line@, char_col as int); off_mono(line@, char_col + 1, line@.len() as int); off_end(line@); off_mono(s, j, s.len() as int); off_end(s); sub_off(s, i, j, char_col + 1); }
                if char_col < k - i { off_mono(s, i + char_col + 1, k); off_step(s, i + char_col); }
            }
//@@ end
}
pub proof fn chars_le_bytes(s: Chars) ensures s.len() <= nbytes(s) { off_zero(s); off_end(s); off_mono(s, 0, s.len() as int); }

impl PositionBuilder {
    /// the place before the break that ends line i..j of s
    pub open spec fn end_of(s: Chars, l: int, i: int, j: int) -> int {
        if l == ln(s, s.len() as int) { j } else if s[j - 1] == '\n' && j - 2 >= i && s[j - 2] == '\r' { j - 2 } else { j - 1 }
    }
//@@ fn crates/ass-editor/core/position/builder.rs PositionBuilder::new
//@ret r
//@spec
    ensures r.line is None, r.column is None, r.offset is None
//@@ end
//@@ fn crates/ass-editor/core/position/builder.rs PositionBuilder::line
//@sig-re mut self => self
//@re-all \bself\b => this
//@ret r
//@spec
    ensures r.line == Some(line), r.column == self.column, r.offset == self.offset
//@start
    let mut this = self;
//@@ end
//@@ fn crates/ass-editor/core/position/builder.rs PositionBuilder::column
//@sig-re mut self => self
//@re-all \bself\b => this
//@ret r
//@spec
    ensures r.column == Some(column), r.line == self.line, r.offset == self.offset
//@start
    let mut this = self;
//@@ end
//@@ fn crates/ass-editor/core/position/builder.rs PositionBuilder::offset
//@sig-re mut self => self
//@re-all \bself\b => this
//@ret r
//@spec
    ensures r.offset == Some(offset), r.line == self.line, r.column == self.column
//@start
    let mut this = self;
//@@ end
//@@ fn crates/ass-editor/core/position/builder.rs PositionBuilder::at_line_start
//@sig-re mut self => self
//@re-all \bself\b => this
//@ret r
//@spec
    ensures r.line == Some(line), r.column == Some(1usize), r.offset == self.offset
//@start
    let mut this = self;
//@@ end
//@@ fn crates/ass-editor/core/position/builder.rs PositionBuilder::at_line_end
//@sig-re mut self => self
//@re-all \bself\b => this
//@ret r
//@spec
    ensures r.line == Some(line), r.column is None, r.offset == self.offset
//@start
    let mut this = self;
//@@ end
//@@ fn crates/ass-editor/core/position/builder.rs PositionBuilder::at_start
//@ret r
//@spec
    ensures r.offset == Some(0usize)
//@@ end
#[verifier::rlimit(60)] #[verifier::spinoff_prover]
//@@ fn crates/ass-editor/core/position/builder.rs PositionBuilder::build
//@sig-re ropey::Rope => Rope
//@re-all line\.chars\(\) => line.text().chars()
//@re self\.line\.unwrap_or\(0\) => 0
//@ret r
//@spec
    ensures
        self.offset is Some ==> (r is Ok <==> self.offset->0 <= nbytes(rope@)) && (r is Ok ==> r->Ok_0.offset == self.offset->0),
        // a line and a column: the character of that column, one past the last included
        self.offset is None && self.line is Some && self.column is Some ==> {
            let (l, c) = (self.line->0 - 1, self.column->0 - 1);
            &&& r is Ok <==> exists|i: int, j: int| #[trigger] line_is(rope@, l, i, j) && 0 <= l && 0 <= c <= j - i
            &&& r is Ok ==> forall|i: int, j: int| #[trigger] line_is(rope@, l, i, j) ==> r->Ok_0.offset == off(rope@, i + c)
        },
        // a line alone: the place before its break
        self.offset is None && self.line is Some && self.column is None ==> {
            let l = self.line->0 - 1;
            &&& r is Ok <==> 0 <= l <= ln(rope@, rope@.len() as int)
            &&& r is Ok ==> forall|i: int, j: int| #[trigger] line_is(rope@, l, i, j) ==> r->Ok_0.offset == off(rope@, Self::end_of(rope@, l, i, j))
        },
        self.offset is None && self.line is None ==> r is Ok && r->Ok_0.offset == 0,
//@start
    let ghost s = rope@;
    proof { rope_fits(*rope); ln_mono(s, 0, s.len() as int); chars_le_bytes(s); }
//@before "return Err(EditorError::InvalidPosition { line, column: 1 })"
                proof { assert forall|i: int, j: int| #[trigger] line_is(s, line - 1, i, j) implies line == 0 by { ln_mono(s, i, s.len() as int); if line == 0 { } } }
//@before "let line_start"
            let ghost l = line_idx as int;
//@before "let mut byte_pos"
                let ghost (i, j) = choose|i: int, j: int| #[trigger] line_is(s, l, i, j) && line@ == s.subrange(i, j);
                proof {
                    let i0 = choose|i0: int| #[trigger] line_at(s, l, i0) && line_start == off(s, i0);
                    line_at_one(s, l, i, i0);
                    assert forall|i2: int, j2: int| #[trigger] line_is(s, l, i2, j2) implies i2 == i && j2 == j by { line_is_one(s, l, i, j, i2, j2); }
                    sub_off(s, i, j, 0); off_mono(s, j, s.len() as int); off_end(s); off_zero(line@); off_end(line@);
                }
//@loop 0 it
        invariant_except_break
            char_pos == it.index@,
        invariant
            it.seq() == line@, line@ == s.subrange(i, j), 0 <= i <= j <= s.len(), 0 <= char_pos <= line@.len(), char_pos <= col_idx, byte_pos == off(line@, char_pos as int),
            nbytes(s) < usize::MAX, s.len() <= nbytes(s), nbytes(line@) <= nbytes(s),
        ensures char_pos == (if col_idx <= line@.len() { col_idx as int } else { line@.len() as int }), byte_pos == off(line@, char_pos as int), 
//@loopstart 0
                    proof { if char_pos < line@.len() { off_step(line@, char_pos as int); off_mono(line@, char_pos + 1, line@.len() as int); off_end(line@); } }
//@before "if char_pos < col_idx"
                proof { sub_off(s, i, j, char_pos as int); off_mono(s, i + char_pos, s.len() as int); off_end(s); }
//@before "Ok(Position::new(line_start + byte_pos))"
                proof { assert(l == self.line->0 - 1); assert(line_is(s, self.line->0 - 1, i, j)); assert(off(s, i + char_pos) == line_start + byte_pos); }
//@before "let mut line_end"
                let ghost (i, j) = choose|i: int, j: int| #[trigger] line_is(s, l, i, j) && line@ == s.subrange(i, j);
                proof {
                    let i0 = choose|i0: int| #[trigger] line_at(s, l, i0) && line_start == off(s, i0);
                    line_at_one(s, l, i, i0);
                    assert forall|i2: int, j2: int| #[trigger] line_is(s, l, i2, j2) implies i2 == i && j2 == j by { line_is_one(s, l, i, j, i2, j2); }
                    sub_off(s, i, j, 0); off_mono(s, j, s.len() as int); off_end(s);
                    if j > i { off_step(s, j - 1); }
                    if j > i + 1 { off_step(s, j - 2); off_mono(s, 0, j - 2); off_zero(s); }
                }
//@@ end
}
}
fn main() {}
