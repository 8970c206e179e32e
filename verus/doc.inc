// ---- assumed contracts of string functions ----------------------------------------------------------------
pub uninterp spec fn is_ws(c: char) -> bool;
pub open spec fn blanks(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 || !is_ws(s[0]) { 0 } else { 1 + blanks(s.skip(1)) } }
pub open spec fn trail(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 || !is_ws(s.last()) { s.len() as int } else { trail(s.drop_last()) } }
pub open spec fn core_of(s: Seq<char>) -> Seq<char> { let t = s.skip(blanks(s)); t.take(trail(t)) }
pub proof fn blanks_in(s: Seq<char>) ensures 0 <= blanks(s) <= s.len() decreases s.len() { if s.len() > 0 && is_ws(s[0]) { blanks_in(s.skip(1)); } }
pub proof fn trail_in(s: Seq<char>) ensures 0 <= trail(s) <= s.len() decreases s.len() { if s.len() > 0 && is_ws(s.last()) { trail_in(s.drop_last()); } }
#[verifier::external_body]
fn trimmed<'a>(s: &'a str) -> (r: &'a str) ensures r@ == core_of(s@) { s.trim() }
#[verifier::external_body]
fn ltrimmed<'a>(s: &'a str) -> (r: &'a str) ensures r@ == s@.skip(blanks(s@)) { s.trim_start() }
pub open spec fn prefixed(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
#[verifier::external_body]
fn begins(s: &str, p: &str) -> (r: bool) ensures r == prefixed(s@, p@) { s.starts_with(p) }
#[verifier::external_body]
fn begins_with(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { s.starts_with(c) }
#[verifier::external_body]
fn bnd(s: &str, p: usize) -> (r: bool) ensures r == at_boundary(s@, p as int) { s.is_char_boundary(p) }
#[verifier::external_body]
fn nothing(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body]
fn snew() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body]
fn spush(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { s.push(c) }
#[verifier::external_body]
fn sadd(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { s.push_str(t) }
#[verifier::external_body]
fn owned(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
/// no allocation is larger than isize::MAX
#[verifier::external_body]
fn slen(s: &str) -> (r: usize) ensures r == nbytes(s@), r <= isize::MAX { s.len() }
pub proof fn sub_bytes(c: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= c.len()
    ensures nbytes(c.subrange(i, j)) == off(c, j) - off(c, i)
{ off_skip(c, i, j - i); off_end(c.subrange(i, j)); assert(c.skip(i).take(j - i) =~= c.subrange(i, j)); }
// ---- the document: contracts discharged on the real functions in unit e_undo -------------------------------
pub struct EditorError { pub kind: u8 }
pub type Result<T> = core::result::Result<T, EditorError>;
#[verifier::external_body]
fn refused() -> EditorError { unimplemented!() }
#[verifier::external_body]
pub struct Delta { x: u8 }
#[verifier::external_body]
pub struct EditorDocument { x: u8 }
impl EditorDocument {
    pub uninterp spec fn t(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn text(&self) -> (r: String) ensures r@ == self.t() { unimplemented!() }
    #[verifier::external_body]
    pub fn text_range(&self, range: Range) -> (r: Result<String>)
        ensures r is Ok <==> valid(self.t(), range), r is Ok ==> exists|i: int, j: int| #[trigger] spans(self.t(), range, i, j) && r->Ok_0@ == self.t().subrange(i, j)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn replace(&mut self, range: Range, text: &str) -> (r: Result<()>)
        ensures r is Ok <==> valid(old(self).t(), range), r is Err ==> final(self).t() == old(self).t(),
            r is Ok ==> exists|i: int, j: int| #[trigger] spans(old(self).t(), range, i, j) && final(self).t() == old(self).t().take(i) + text@ + old(self).t().skip(j)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn delete(&mut self, range: Range) -> (r: Result<()>)
        ensures r is Ok <==> valid(old(self).t(), range), r is Err ==> final(self).t() == old(self).t(),
            r is Ok ==> exists|i: int, j: int| #[trigger] spans(old(self).t(), range, i, j) && final(self).t() == old(self).t().take(i) + old(self).t().skip(j)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, position: Position, text: &str) -> (r: Result<()>)
        ensures r is Ok <==> at_boundary(old(self).t(), position.offset as int), r is Err ==> final(self).t() == old(self).t(),
            r is Ok ==> exists|i: int| 0 <= i <= old(self).t().len() && #[trigger] off(old(self).t(), i) == position.offset && final(self).t() == old(self).t().take(i) + text@ + old(self).t().skip(i)
    { unimplemented!() }
}
pub open spec fn spans(t: Seq<char>, r: Range, i: int, j: int) -> bool { 0 <= i <= j <= t.len() && off(t, i) == r.start.offset && off(t, j) == r.end.offset }
pub open spec fn valid(t: Seq<char>, r: Range) -> bool { exists|i: int, j: int| spans(t, r, i, j) }
pub proof fn spans_one(t: Seq<char>, r: Range, i: int, j: int, k: int, l: int) requires spans(t, r, i, j), spans(t, r, k, l) ensures i == k, j == l { off_inj(t, i, k); off_inj(t, j, l); }
/// texts are shorter than 2 GiB
#[verifier::external_body]
pub proof fn text_fits(d: &EditorDocument) ensures nbytes(d.t()) < 0x7fff_ffff {}

//@@ struct crates/ass-editor/core/position/points.rs Position derive(Clone, Copy)
//@@ struct crates/ass-editor/core/position/range.rs Range derive(Clone, Copy)
//@@ struct crates/ass-editor/commands/command_result.rs CommandResult "ScriptDeltaOwned" "Delta"
impl Position {
//@@ fn crates/ass-editor/core/position/points.rs Position::new
//@ret r
//@spec
    ensures r.offset == offset
//@@ end
}
impl Range {
//@@ fn crates/ass-editor/core/position/range.rs Range::new
//@ret r
//@spec
    ensures start.offset <= end.offset ==> r.start == start && r.end == end, r.start.offset <= r.end.offset
//@@ end
}
impl CommandResult {
//@@ fn crates/ass-editor/commands/command_result.rs CommandResult::success_with_change
//@ret r
//@spec
    ensures r.success, r.content_changed, r.new_cursor == Some(cursor), r.modified_range == Some(range)
//@@ end
//@@ fn crates/ass-editor/commands/command_result.rs CommandResult::success
//@ret r
//@spec
    ensures r.success, !r.content_changed, r.new_cursor is None, r.modified_range is None
//@@ end
}
