use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use std::collections::VecDeque;
verus! {
//@@ include str.inc

// ---- trusted: the rope, and opaque parts of the document ---------------------------------------------
#[verifier::external_body]
pub struct Rope { inner: String }
pub type Chars = Seq<char>;
impl Rope {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn len_bytes(&self) -> (r: usize) ensures r == nbytes(self@) { unimplemented!() }
    /// the character that holds byte b (the length for the end)
    #[verifier::external_body]
    pub fn byte_to_char(&self, b: usize) -> (r: usize)
        requires b <= nbytes(self@)
        ensures 0 <= r <= self@.len(), off(self@, r as int) <= b, r < self@.len() ==> b < off(self@, r + 1)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn char_to_byte(&self, i: usize) -> (r: usize) requires i <= self@.len() ensures r == off(self@, i as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, i: usize, text: &str)
        requires i <= old(self)@.len()
        ensures final(self)@ == old(self)@.take(i as int) + text@ + old(self)@.skip(i as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, r: core::ops::Range<usize>)
        requires r.start <= r.end <= old(self)@.len()
        ensures final(self)@ == old(self)@.take(r.start as int) + old(self)@.skip(r.end as int)
    { unimplemented!() }
    /// slice(a..b).to_string()
    #[verifier::external_body]
    pub fn slice_string(&self, r: core::ops::Range<usize>) -> (s: String)
        requires r.start <= r.end <= self@.len() ensures s@ == self@.subrange(r.start as int, r.end as int)
    { unimplemented!() }
}
/// a text that exists in memory has a length that fits the machine word
#[verifier::external_body]
pub proof fn rope_fits(r: Rope) ensures nbytes(r@) <= usize::MAX {}
#[verifier::external_body]
pub fn owned(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body]
pub fn formatted() -> (r: String) ensures nbytes(r@) <= fmt_bound() { String::new() }
/// no description made by format! is longer than this
pub uninterp spec fn fmt_bound() -> nat;
#[verifier::external_body]
pub fn vdq_empty<T>(v: &VecDeque<T>) -> (r: bool) ensures r == (v@.len() == 0) { v.is_empty() }
#[verifier::external_body]
pub struct Bump { x: u8 }
impl Bump {
    #[verifier::external_body]
    pub fn new() -> Bump { unimplemented!() }
    #[verifier::external_body]
    pub fn reset(&mut self) { unimplemented!() }
}
#[verifier::external_body]
pub struct Instant { x: u8 }
#[verifier::external_body]
pub fn now() -> Instant { unimplemented!() }
#[verifier::external_body]
pub struct ScriptDeltaOwned { x: u8 }
impl Clone for ScriptDeltaOwned { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub fn empty_delta() -> ScriptDeltaOwned { unimplemented!() }
#[verifier::external_body]
pub struct DeltaUndoData { x: u8 }
#[verifier::external_body]
pub struct RegistryIntegration { x: u8 }
#[verifier::external_body]
pub struct IncrementalParser { x: u8 }
impl IncrementalParser {
    #[verifier::external_body]
    pub fn apply_change(&mut self, text: &str, range: Range, new_text: &str) -> Result<ScriptDeltaOwned> { unimplemented!() }
    #[verifier::external_body]
    pub fn should_reparse(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn clear_cache(&mut self) { unimplemented!() }
}
#[verifier::external_body]
pub struct LazyValidator { x: u8 }
impl LazyValidator { #[verifier::external_body] pub fn clear_cache(&mut self) { unimplemented!() } }
#[verifier::external_body]
pub struct EventSender { x: u8 }
impl EventSender { #[verifier::external_body] pub fn send(&mut self, e: DocumentEvent) { unimplemented!() } }
pub enum DocumentEvent { 
    TextInserted { position: Position, text: String, length: usize }, TextDeleted { range: Range, deleted_text: String },
    TextReplaced { range: Range, old_text: String, new_text: String },
}
pub enum EditorError {
    PositionOutOfBounds { position: usize, length: usize }, InvalidRange { start: usize, end: usize, length: usize },
    CommandFailed { message: String }, NothingToUndo, NothingToRedo,
}
pub type Result<T> = core::result::Result<T, EditorError>;
impl EditorError {
    #[verifier::external_body]
    pub fn command_failed(m: &str) -> EditorError { unimplemented!() }
}
pub uninterp spec fn op_size() -> usize;
#[verifier::external_body]
pub fn op_size_of() -> (r: usize) ensures r == op_size() { unimplemented!() }
pub uninterp spec fn delta_size(f: ScriptDeltaOwned) -> nat;
#[verifier::external_body]
pub fn delta_mem(f: &ScriptDeltaOwned) -> (r: usize) ensures r == delta_size(*f) { unimplemented!() }
/// no delta is larger than this
pub uninterp spec fn delta_bound() -> nat;
#[verifier::external_body]
pub proof fn delta_fits(f: ScriptDeltaOwned) ensures delta_size(f) <= delta_bound() {}
/// which path an edit takes does not matter to what it does
#[verifier::external_body]
pub fn simple_edit(range: Range, new_text: &str) -> bool { unimplemented!() }
#[verifier::external_body]
pub fn is_bnd(s: &str, b: usize) -> (r: bool) ensures r == at_boundary(s@, b as int) { s.is_char_boundary(b) }
pub uninterp spec fn delta_op_size(f: ScriptDeltaOwned, u: DeltaUndoData) -> nat;
#[verifier::external_body]
pub fn delta_op_mem(f: &ScriptDeltaOwned, u: &DeltaUndoData) -> (r: usize) ensures r == delta_op_size(*f, *u) { unimplemented!() }
pub open spec fn lo(a: usize, b: usize) -> usize { if a <= b { a } else { b } }
pub open spec fn hi(a: usize, b: usize) -> usize { if a <= b { b } else { a } }

//@@ struct crates/ass-editor/core/position/points.rs Position derive(Clone, Copy)
//@@ struct crates/ass-editor/core/position/range.rs Range derive(Clone, Copy)
//@@ struct crates/ass-editor/core/history/operation.rs Operation
//@@ struct crates/ass-editor/core/history/entry.rs HistoryEntry "std::time::Instant" "Instant"
//@@ struct crates/ass-editor/core/history/config.rs UndoStackConfig
//@@ struct crates/ass-editor/core/history/stack.rs UndoStack
//@@ struct crates/ass-editor/core/history/manager.rs UndoManager pubfields
//@@ struct crates/ass-editor/commands/command_result.rs CommandResult
//@@ struct crates/ass-editor/core/document/types.rs EditorDocument "ropey::Rope" "Rope" "Arc<crate::extensions::registry_integration::RegistryIntegration>" "RegistryIntegration" "crate::core::incremental::IncrementalParser" "IncrementalParser" "crate::utils::validator::LazyValidator" "LazyValidator"

impl Position {
//@@ fn crates/ass-editor/core/position/points.rs Position::start
//@ret r
//@spec
    ensures r.offset == 0
//@@ end
//@@ fn crates/ass-editor/core/position/points.rs Position::new
//@ret r
//@spec
    ensures r.offset == offset
//@@ end
}
impl Range {
//@@ fn crates/ass-editor/core/position/range.rs Range::new
//@ret r
//@spec
    ensures r.start.offset == lo(start.offset, end.offset), r.end.offset == hi(start.offset, end.offset)
//@@ end
//@@ fn crates/ass-editor/core/position/range.rs Range::is_empty
//@ret r
//@spec
    ensures r == (self.start.offset == self.end.offset)
//@@ end
}
impl CommandResult {
//@@ fn crates/ass-editor/commands/command_result.rs CommandResult::success
//@ret r
//@spec
    ensures r.success, !r.content_changed, r.new_cursor is None, r.modified_range is None, r.script_delta is None
//@@ end
//@@ fn crates/ass-editor/commands/command_result.rs CommandResult::success_with_change
//@ret r
//@spec
    ensures r.success, r.content_changed, r.new_cursor == Some(cursor), r.modified_range == Some(range), r.script_delta is None
//@@ end
//@@ fn crates/ass-editor/commands/command_result.rs CommandResult::with_delta
//@sig-re mut self => self
//@re-all \bself\b => this
//@ret r
//@start
    let mut this = self;
//@spec
    ensures r.success == self.success, r.content_changed == self.content_changed, r.new_cursor == self.new_cursor, r.modified_range == self.modified_range, r.script_delta == Some(delta)
//@@ end
}

// ---- what an operation means: `step(op, b, a)` -- op takes text b to text a ----------------------------
pub open spec fn splice(b: Chars, i: int, j: int, x: Chars) -> Chars { b.take(i) + x + b.skip(j) }
/// a is b with the bytes s..e replaced by x
#[verifier::opaque]
pub open spec fn spliced(b: Chars, a: Chars, s: int, e: int, x: Chars) -> bool {
    exists|i: int, j: int| 0 <= i <= j <= b.len() && #[trigger] off(b, i) == s && #[trigger] off(b, j) == e && a == splice(b, i, j, x)
}
/// x is the text of b at the bytes s..e
#[verifier::opaque]
pub open spec fn cut(b: Chars, s: int, e: int, x: Chars) -> bool {
    exists|i: int, j: int| 0 <= i <= j <= b.len() && #[trigger] off(b, i) == s && #[trigger] off(b, j) == e && x == b.subrange(i, j)
}
pub open spec fn step(op: Operation, b: Chars, a: Chars) -> bool {
    match op {
        Operation::Insert { position, text } => spliced(b, a, position.offset as int, position.offset as int, text@),
        Operation::Delete { range, deleted_text } => spliced(b, a, range.start.offset as int, range.end.offset as int, Seq::empty()) && cut(b, range.start.offset as int, range.end.offset as int, deleted_text@),
        Operation::Replace { range, old_text, new_text } => spliced(b, a, range.start.offset as int, range.end.offset as int, new_text@) && cut(b, range.start.offset as int, range.end.offset as int, old_text@),
        Operation::Delta { forward, undo_data } => false,
    }
}
/// off of the parts of a splice
pub proof fn splice_offs(b: Chars, i: int, j: int, x: Chars)
    requires 0 <= i <= j <= b.len()
    ensures
        off(splice(b, i, j, x), i) == off(b, i),
        off(splice(b, i, j, x), i + x.len()) == off(b, i) + nbytes(x),
        nbytes(splice(b, i, j, x)) == off(b, i) + nbytes(x) + nbytes(b) - off(b, j),
        splice(b, i, j, x).subrange(i, i + x.len()) == x,
        splice(b, i, j, x).take(i) == b.take(i),
        splice(b, i, j, x).skip(i + x.len()) == b.skip(j),
        splice(splice(b, i, j, x), i, i + x.len(), b.subrange(i, j)) == b,
        off(b, j) == off(b, i) + nbytes(b.subrange(i, j)),
        off(b, i) <= off(b, j) <= nbytes(b),
{
    let a = splice(b, i, j, x);
    assert(a.take(i) =~= b.take(i));
    assert(a.take(i + x.len()) =~= b.take(i) + x);
    encode_utf8_concat(b.take(i), x);
    assert(a.subrange(i, i + x.len()) =~= x);
    assert(a.skip(i + x.len()) =~= b.skip(j));
    assert(splice(a, i, i + x.len(), b.subrange(i, j)) =~= b);
    encode_utf8_concat(b.take(i), b.subrange(i, j));
    assert(b.take(j) =~= b.take(i) + b.subrange(i, j));
    encode_utf8_concat(b.take(i) + x, b.skip(j));
    assert(a =~= b.take(i) + x + b.skip(j));
    split_at(b, j);
    off_mono(b, i, j);
    off_mono(b, j, j);
}
/// replacing has one outcome
pub proof fn spliced_fun(b: Chars, a1: Chars, a2: Chars, s: int, e: int, x: Chars) requires spliced(b, a1, s, e, x), spliced(b, a2, s, e, x) ensures a1 == a2 {
    reveal(spliced);
    let (i1, j1) = choose|i: int, j: int| 0 <= i <= j <= b.len() && #[trigger] off(b, i) == s && #[trigger] off(b, j) == e && a1 == splice(b, i, j, x);
    let (i2, j2) = choose|i: int, j: int| 0 <= i <= j <= b.len() && #[trigger] off(b, i) == s && #[trigger] off(b, j) == e && a2 == splice(b, i, j, x);
    off_inj(b, i1, i2); off_inj(b, j1, j2);
}
pub proof fn cut_fun(b: Chars, s: int, e: int, x: Chars, y: Chars) requires cut(b, s, e, x), cut(b, s, e, y) ensures x == y {
    reveal(cut);
    let (i1, j1) = choose|i: int, j: int| 0 <= i <= j <= b.len() && #[trigger] off(b, i) == s && #[trigger] off(b, j) == e && x == b.subrange(i, j);
    let (i2, j2) = choose|i: int, j: int| 0 <= i <= j <= b.len() && #[trigger] off(b, i) == s && #[trigger] off(b, j) == e && y == b.subrange(i, j);
    off_inj(b, i1, i2); off_inj(b, j1, j2);
}
pub proof fn cut_empty(b: Chars, s: int) requires at_boundary(b, s) ensures cut(b, s, s, Seq::empty()) {
    reveal(cut);
    let i = choose|i: int| 0 <= i <= b.len() && #[trigger] off(b, i) == s;
    assert(b.subrange(i, i) =~= Seq::empty());
}
pub proof fn cut_facts(b: Chars, s: int, e: int, x: Chars) requires cut(b, s, e, x) ensures 0 <= s <= e <= nbytes(b), nbytes(x) == e - s, at_boundary(b, s), at_boundary(b, e) {
    reveal(cut);
    let (i, j) = choose|i: int, j: int| 0 <= i <= j <= b.len() && #[trigger] off(b, i) == s && #[trigger] off(b, j) == e && x == b.subrange(i, j);
    splice_offs(b, i, j, x); off_mono(b, i, i); off_mono(b, j, j);
}
pub proof fn spliced_facts(b: Chars, a: Chars, s: int, e: int, x: Chars)
    requires spliced(b, a, s, e, x)
    ensures 0 <= s <= e <= nbytes(b), at_boundary(b, s), at_boundary(b, e), at_boundary(a, s), at_boundary(a, s + nbytes(x)), nbytes(a) == nbytes(b) - (e - s) + nbytes(x), s + nbytes(x) <= nbytes(a), cut(a, s, s + nbytes(x), x)
{
    reveal(spliced); reveal(cut);
    let (i, j) = choose|i: int, j: int| 0 <= i <= j <= b.len() && #[trigger] off(b, i) == s && #[trigger] off(b, j) == e && a == splice(b, i, j, x);
    splice_offs(b, i, j, x); off_mono(b, i, i); off_mono(b, j, j);
    assert(off(a, i) == s && off(a, i + x.len()) == s + nbytes(x));
    off_mono(a, i + x.len(), i + x.len());
}
/// putting the old text back restores the old text
pub proof fn spliced_inverse(b: Chars, a: Chars, s: int, e: int, x: Chars, y: Chars)
    requires spliced(b, a, s, e, x), cut(b, s, e, y)
    ensures spliced(a, b, s, s + nbytes(x), y)
{
    reveal(spliced); reveal(cut);
    let (i, j) = choose|i: int, j: int| 0 <= i <= j <= b.len() && #[trigger] off(b, i) == s && #[trigger] off(b, j) == e && a == splice(b, i, j, x);
    let (k, m) = choose|i: int, j: int| 0 <= i <= j <= b.len() && #[trigger] off(b, i) == s && #[trigger] off(b, j) == e && y == b.subrange(i, j);
    off_inj(b, i, k); off_inj(b, j, m);
    splice_offs(b, i, j, x);
    assert(off(a, i) == s && off(a, i + x.len()) == s + nbytes(x));
    assert(b == splice(a, i, i + x.len(), y));
}
/// removing and then inserting is replacing
pub proof fn spliced_twice(b: Chars, m: Chars, a: Chars, s: int, e: int, x: Chars)
    requires spliced(b, m, s, e, Seq::empty()), spliced(m, a, s, s, x)
    ensures spliced(b, a, s, e, x)
{
    reveal(spliced);
    let z = Seq::<char>::empty();
    let (i, j) = choose|i: int, j: int| 0 <= i <= j <= b.len() && #[trigger] off(b, i) == s && #[trigger] off(b, j) == e && m == splice(b, i, j, z);
    let (k, l) = choose|k: int, l: int| 0 <= k <= l <= m.len() && #[trigger] off(m, k) == s && #[trigger] off(m, l) == s && a == splice(m, k, l, x);
    splice_offs(b, i, j, z);
    assert(off(m, i) == s);
    off_inj(m, i, k); off_inj(m, i, l);
    assert(m.take(i) =~= b.take(i)); assert(m.skip(i) =~= b.skip(j));
    assert(a == splice(b, i, j, x));
}
/// an operation has one outcome, and one origin
pub proof fn step_forward(op: Operation, b: Chars, a1: Chars, a2: Chars) requires step(op, b, a1), step(op, b, a2) ensures a1 == a2 {
    match op {
        Operation::Insert { position, text } => spliced_fun(b, a1, a2, position.offset as int, position.offset as int, text@),
        Operation::Delete { range, deleted_text } => spliced_fun(b, a1, a2, range.start.offset as int, range.end.offset as int, Seq::empty()),
        Operation::Replace { range, old_text, new_text } => spliced_fun(b, a1, a2, range.start.offset as int, range.end.offset as int, new_text@),
        _ => {}
    }
}
/// the splice that takes the operation back
pub proof fn step_inverse(op: Operation, b: Chars, a: Chars)
    requires step(op, b, a)
    ensures ({ let (s, e, x) = inverse(op); spliced(a, b, s, e, x) && 0 <= s <= e <= nbytes(a) && s + nbytes(x) <= nbytes(b) && at_boundary(a, s) && at_boundary(a, e) })
{
    off_zero(Seq::empty()); off_end(Seq::empty());
    match op {
        Operation::Insert { position, text } => { let p = position.offset as int; spliced_facts(b, a, p, p, text@); cut_empty(b, p); spliced_inverse(b, a, p, p, text@, Seq::empty()); }
        Operation::Delete { range, deleted_text } => { let (s, e) = (range.start.offset as int, range.end.offset as int); spliced_facts(b, a, s, e, Seq::empty()); cut_facts(b, s, e, deleted_text@); spliced_inverse(b, a, s, e, Seq::empty(), deleted_text@); }
        Operation::Replace { range, old_text, new_text } => { let (s, e) = (range.start.offset as int, range.end.offset as int); spliced_facts(b, a, s, e, new_text@); cut_facts(b, s, e, old_text@); spliced_inverse(b, a, s, e, new_text@, old_text@); }
        _ => {}
    }
}
pub open spec fn inverse(op: Operation) -> (int, int, Chars) {
    match op {
        Operation::Insert { position, text } => (position.offset as int, position.offset + nbytes(text@), Seq::empty()),
        Operation::Delete { range, deleted_text } => (range.start.offset as int, range.start.offset as int, deleted_text@),
        Operation::Replace { range, old_text, new_text } => (range.start.offset as int, range.start.offset + nbytes(new_text@), old_text@),
        _ => (0, 0, Seq::empty()),
    }
}
pub proof fn step_back(op: Operation, b1: Chars, b2: Chars, a: Chars) requires step(op, b1, a), step(op, b2, a) ensures b1 == b2 {
    step_inverse(op, b1, a); step_inverse(op, b2, a);
    let (s, e, x) = inverse(op);
    spliced_fun(a, b1, b2, s, e, x);
}

// ---- the history: every entry leads from the text before it to the text after it -----------------------
pub open spec fn undo_ok(us: Seq<HistoryEntry>, t: Chars) -> bool
    decreases us.len()
{ us.len() == 0 || exists|b: Chars| #[trigger] step(us[0].operation, b, t) && undo_ok(us.skip(1), b) }
pub open spec fn redo_ok(rs: Seq<HistoryEntry>, t: Chars) -> bool
    decreases rs.len()
{ rs.len() == 0 || exists|a: Chars| #[trigger] step(rs[0].operation, t, a) && redo_ok(rs.skip(1), a) }
pub proof fn undo_prefix(us: Seq<HistoryEntry>, t: Chars, n: int)
    requires undo_ok(us, t), 0 <= n <= us.len()
    ensures undo_ok(us.take(n), t)
    decreases us.len()
{
    if n > 0 {
        let b = choose|b: Chars| #[trigger] step(us[0].operation, b, t) && undo_ok(us.skip(1), b);
        undo_prefix(us.skip(1), b, n - 1);
        assert(us.take(n).skip(1) =~= us.skip(1).take(n - 1));
        assert(step(us.take(n)[0].operation, b, t));
    }
}
pub open spec fn mem(s: Seq<HistoryEntry>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { mem(s.drop_last()) + s.last().memory_usage } }
pub proof fn mem_nonneg(s: Seq<HistoryEntry>) ensures mem(s) >= 0 decreases s.len() { if s.len() > 0 { mem_nonneg(s.drop_last()); } }
pub proof fn mem_front(e: HistoryEntry, s: Seq<HistoryEntry>)
    ensures mem(seq![e] + s) == e.memory_usage + mem(s)
    decreases s.len()
{
    if s.len() == 0 { assert((seq![e] + s).drop_last() =~= Seq::empty()); assert((seq![e] + s).last() == e); assert(mem(Seq::<HistoryEntry>::empty()) == 0); assert(s =~= Seq::empty()); }
    else { mem_front(e, s.drop_last()); assert((seq![e] + s).drop_last() =~= seq![e] + s.drop_last()); assert((seq![e] + s).last() == s.last()); }
}
pub proof fn mem_skip(s: Seq<HistoryEntry>) requires s.len() > 0 ensures mem(s) == s[0].memory_usage + mem(s.skip(1)) {
    mem_front(s[0], s.skip(1)); assert(s =~= seq![s[0]] + s.skip(1)); mem_nonneg(s.skip(1));
}
pub proof fn mem_take(s: Seq<HistoryEntry>, n: int) requires 0 < n <= s.len() ensures mem(s.take(n)) == mem(s.take(n - 1)) + s[n - 1].memory_usage {
    assert(s.take(n).drop_last() =~= s.take(n - 1)); assert(s.take(n).last() == s[n - 1]);
}
pub open spec fn within(s: Seq<HistoryEntry>, c: UndoStackConfig) -> bool { s.len() <= c.max_entries && (c.max_memory == 0 || s.len() == 0 || mem(s) <= c.max_memory) }
/// `kept` are the newest entries of `full` that fit the limits, as many of them as do
pub open spec fn newest(full: Seq<HistoryEntry>, kept: Seq<HistoryEntry>, c: UndoStackConfig) -> bool {
    &&& kept.len() <= full.len() && kept == full.take(kept.len() as int)
    &&& within(kept, c)
    &&& forall|n: int| kept.len() < n <= full.len() ==> !within(#[trigger] full.take(n), c)
}
impl UndoStack {
    pub open spec fn wf(&self) -> bool { self.current_memory == mem(self.undo_stack@) + mem(self.redo_stack@) && self.ops_since_reset < usize::MAX }
}
impl UndoManager {
    pub open spec fn linked(&self, t: Chars) -> bool { self.stack.wf() && undo_ok(self.stack.undo_stack@, t) && redo_ok(self.stack.redo_stack@, t) }
    pub open spec fn us(&self) -> Seq<HistoryEntry> { self.stack.undo_stack@ }
    pub open spec fn rs(&self) -> Seq<HistoryEntry> { self.stack.redo_stack@ }
}

impl UndoStack {
//@@ fn crates/ass-editor/core/history/stack_impl.rs UndoStack::with_config
//@ret r
//@spec
    ensures r.wf(), r.undo_stack@.len() == 0, r.redo_stack@.len() == 0, r.config == config
//@@ end
//@@ fn crates/ass-editor/core/history/stack_impl.rs UndoStack::reset_arena
//@spec
    ensures final(self).undo_stack == old(self).undo_stack, final(self).redo_stack == old(self).redo_stack, final(self).config == old(self).config,
        final(self).current_memory == old(self).current_memory, final(self).ops_since_reset == 0,
//@@ end
//@@ fn crates/ass-editor/core/history/stack_impl.rs UndoStack::clear_redo_stack
//@re for entry in self\.redo_stack\.drain\(\.\.\) => while let Some(entry) = self.redo_stack.pop_front()
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).redo_stack@.len() == 0, final(self).undo_stack == old(self).undo_stack, final(self).config == old(self).config,
        final(self).current_memory == old(self).current_memory - mem(old(self).redo_stack@), final(self).ops_since_reset == old(self).ops_since_reset,
//@loop 0
        invariant self.wf(), rs == self.redo_stack@, self.undo_stack == old(self).undo_stack, self.config == old(self).config, self.ops_since_reset == old(self).ops_since_reset,
            self.current_memory == old(self).current_memory - mem(old(self).redo_stack@) + mem(self.redo_stack@),
        ensures self.redo_stack@.len() == 0
        decreases self.redo_stack@.len()
//@before "self.current_memory -= entry.memory_usage"
            proof { mem_skip(rs); mem_nonneg(rs.skip(1)); mem_nonneg(self.undo_stack@); rs = self.redo_stack@; }
//@start
    let ghost mut rs = self.redo_stack@;
//@@ end

//@@ fn crates/ass-editor/core/history/stack_impl.rs UndoStack::enforce_limits
//@re !self\.undo_stack\.is_empty\(\) => !vdq_empty(&self.undo_stack)
//@spec
    requires old(self).wf()
    ensures final(self).wf(), newest(old(self).undo_stack@, final(self).undo_stack@, old(self).config) || old(self).redo_stack@.len() > 0,
        final(self).redo_stack == old(self).redo_stack, final(self).config == old(self).config, final(self).ops_since_reset == old(self).ops_since_reset,
        old(self).redo_stack@.len() == 0 ==> newest(old(self).undo_stack@, final(self).undo_stack@, old(self).config),
//@start
    let ghost full = self.undo_stack@;
    proof { assert(full.take(full.len() as int) =~= full); mem_nonneg(self.redo_stack@); }
//@loop 0
        invariant self.wf(), self.redo_stack == old(self).redo_stack, self.config == old(self).config, self.ops_since_reset == old(self).ops_since_reset,
            self.undo_stack@.len() <= full.len(), self.undo_stack@ == full.take(self.undo_stack@.len() as int), mem(self.redo_stack@) >= 0,
            forall|n: int| self.undo_stack@.len() < n <= full.len() ==> !within(#[trigger] full.take(n), self.config),
        decreases self.undo_stack@.len()
//@loopstart 0
            let ghost k = self.undo_stack@.len() as int;
            proof { if k > 0 { mem_take(full, k); mem_nonneg(full.take(k - 1)); } }
//@loop 1
        invariant self.wf(), self.redo_stack == old(self).redo_stack, self.config == old(self).config, self.ops_since_reset == old(self).ops_since_reset,
            self.undo_stack@.len() <= full.len(), self.undo_stack@ == full.take(self.undo_stack@.len() as int), mem(self.redo_stack@) >= 0,
            old(self).redo_stack@.len() == 0 ==> forall|n: int| self.undo_stack@.len() < n <= full.len() ==> !within(#[trigger] full.take(n), self.config),
            self.undo_stack@.len() <= self.config.max_entries,
        decreases self.undo_stack@.len()
//@loopstart 1
            let ghost k = self.undo_stack@.len() as int;
            proof { if k > 0 { mem_take(full, k); mem_nonneg(full.take(k - 1)); } }
//@@ end
//@@ fn crates/ass-editor/core/history/stack_impl.rs UndoStack::push
//@spec
    requires old(self).wf(), mem(old(self).undo_stack@) + entry.memory_usage <= usize::MAX, old(self).ops_since_reset < usize::MAX - 1
    ensures final(self).wf(), final(self).redo_stack@.len() == 0, newest(seq![entry] + old(self).undo_stack@, final(self).undo_stack@, old(self).config),
        final(self).config == old(self).config,
//@after "self.clear_redo_stack()"
        proof { mem_front(entry, self.undo_stack@); assert(mem(self.redo_stack@) == 0); mem_nonneg(self.undo_stack@); }
//@@ end
//@@ fn crates/ass-editor/core/history/stack_impl.rs UndoStack::push_redone
//@spec
    requires old(self).wf(), old(self).current_memory + entry.memory_usage <= usize::MAX
    ensures final(self).wf(), final(self).undo_stack@ == seq![entry] + old(self).undo_stack@, final(self).redo_stack == old(self).redo_stack, final(self).config == old(self).config,
        final(self).current_memory == old(self).current_memory + entry.memory_usage, final(self).ops_since_reset == old(self).ops_since_reset,
//@start
        proof { mem_front(entry, self.undo_stack@); mem_nonneg(self.undo_stack@); mem_nonneg(self.redo_stack@); }
//@finish
        proof { assert(self.undo_stack@ =~= seq![entry] + old(self).undo_stack@); }
//@@ end
//@@ fn crates/ass-editor/core/history/stack_impl.rs UndoStack::push_redo
//@spec
    requires old(self).wf(), old(self).current_memory + entry.memory_usage <= usize::MAX
    ensures final(self).wf(), final(self).redo_stack@ == seq![entry] + old(self).redo_stack@, final(self).undo_stack == old(self).undo_stack, final(self).config == old(self).config,
        final(self).current_memory == old(self).current_memory + entry.memory_usage, final(self).ops_since_reset == old(self).ops_since_reset,
//@start
        proof { mem_front(entry, self.redo_stack@); mem_nonneg(self.undo_stack@); mem_nonneg(self.redo_stack@); }
//@finish
        proof { assert(self.redo_stack@ =~= seq![entry] + old(self).redo_stack@); }
//@@ end
//@@ fn crates/ass-editor/core/history/stack_impl.rs UndoStack::pop_undo
//@ret r
//@spec
    requires old(self).wf()
    ensures final(self).wf(), r is None <==> old(self).undo_stack@.len() == 0, final(self).redo_stack == old(self).redo_stack, final(self).config == old(self).config,
        final(self).ops_since_reset == old(self).ops_since_reset,
        r is None ==> final(self).undo_stack@ == old(self).undo_stack@ && final(self).current_memory == old(self).current_memory,
        r is Some ==> r->0 == old(self).undo_stack@[0] && final(self).undo_stack@ == old(self).undo_stack@.skip(1) && final(self).current_memory == old(self).current_memory - r->0.memory_usage,
//@start
        proof { if self.undo_stack@.len() > 0 { mem_skip(self.undo_stack@); mem_nonneg(self.undo_stack@.skip(1)); } mem_nonneg(self.redo_stack@); }
//@@ end
//@@ fn crates/ass-editor/core/history/stack_impl.rs UndoStack::pop_redo
//@ret r
//@spec
    requires old(self).wf()
    ensures final(self).wf(), r is None <==> old(self).redo_stack@.len() == 0, final(self).undo_stack == old(self).undo_stack, final(self).config == old(self).config,
        final(self).ops_since_reset == old(self).ops_since_reset,
        r is None ==> final(self).redo_stack@ == old(self).redo_stack@ && final(self).current_memory == old(self).current_memory,
        r is Some ==> r->0 == old(self).redo_stack@[0] && final(self).redo_stack@ == old(self).redo_stack@.skip(1) && final(self).current_memory == old(self).current_memory - r->0.memory_usage,
//@start
        proof { if self.redo_stack@.len() > 0 { mem_skip(self.redo_stack@); mem_nonneg(self.redo_stack@.skip(1)); } mem_nonneg(self.undo_stack@); }
//@@ end
//@@ fn crates/ass-editor/core/history/stack_impl.rs UndoStack::can_undo
//@re self\.undo_stack\.is_empty\(\) => vdq_empty(&self.undo_stack)
//@ret r
//@spec
    ensures r == (self.undo_stack@.len() > 0)
//@@ end
//@@ fn crates/ass-editor/core/history/stack_impl.rs UndoStack::can_redo
//@re self\.redo_stack\.is_empty\(\) => vdq_empty(&self.redo_stack)
//@ret r
//@spec
    ensures r == (self.redo_stack@.len() > 0)
//@@ end
//@@ fn crates/ass-editor/core/history/stack_impl.rs UndoStack::undo_count
//@ret r
//@spec
    ensures r == self.undo_stack@.len()
//@@ end
//@@ fn crates/ass-editor/core/history/stack_impl.rs UndoStack::redo_count
//@ret r
//@spec
    ensures r == self.redo_stack@.len()
//@@ end
//@@ fn crates/ass-editor/core/history/stack_impl.rs UndoStack::memory_usage
//@ret r
//@spec
    ensures r == self.current_memory, self.wf() ==> r == mem(self.undo_stack@) + mem(self.redo_stack@)
//@@ end
//@@ fn crates/ass-editor/core/history/stack_impl.rs UndoStack::clear
//@spec
    ensures final(self).wf(), final(self).undo_stack@.len() == 0, final(self).redo_stack@.len() == 0, final(self).config == old(self).config
//@@ end
}
/// memory an operation is booked with
pub open spec fn opmem(op: Operation) -> int {
    match op {
        Operation::Insert { position, text } => op_size() + nbytes(text@),
        Operation::Delete { range, deleted_text } => op_size() + nbytes(deleted_text@),
        Operation::Replace { range, old_text, new_text } => op_size() + nbytes(old_text@) + nbytes(new_text@),
        Operation::Delta { forward, undo_data } => op_size() + delta_op_size(forward, undo_data),
    }
}
impl Operation {
//@@ fn crates/ass-editor/core/history/operation.rs Operation::memory_usage
//@re-all core::mem::size_of::<Self>\(\) => op_size_of()
//@re-all (\w+)\.len\(\)(?= *[,+\n]) => blen(\1.as_str())
//@re op_size_of\(\)\s*\+ forward[\s\S]*?sum::<usize>\(\)(?=\s*\}) => op_size_of() + delta_op_mem(forward, undo_data)
//@ret r
//@spec
    requires opmem(*self) <= usize::MAX
    ensures r == opmem(*self)
//@start
    proof { nbytes_all(); }
//@@ end
}
pub proof fn nbytes_all() ensures forall|s: Seq<char>| #[trigger] nbytes(s) >= 0 {}
impl HistoryEntry {
//@@ fn crates/ass-editor/core/history/entry.rs HistoryEntry::new
//@re description\.len\(\) => blen(description.as_str())
//@re std::time::Instant::now\(\) => now()
//@ret r
//@spec
    requires opmem(operation) + nbytes(description@) <= usize::MAX
    ensures r.operation == operation, r.cursor_before == cursor_before, r.cursor_after == result.new_cursor, r.memory_usage == opmem(operation) + nbytes(description@)
//@start
    proof { nbytes_all(); }
//@@ end
//@@ fn crates/ass-editor/core/history/entry.rs HistoryEntry::with_delta
//@re description\.len\(\) => blen(description.as_str())
//@re std::time::Instant::now\(\) => now()
//@re script_delta\.added\.iter[\s\S]*?sum::<usize>\(\); => delta_mem(&script_delta);
//@ret r
//@spec
    requires opmem(operation) + nbytes(description@) + delta_size(script_delta) <= usize::MAX
    ensures r.operation == operation, r.cursor_before == cursor_before, r.cursor_after == result.new_cursor, r.memory_usage == opmem(operation) + nbytes(description@) + delta_size(script_delta)
//@start
    proof { nbytes_all(); }
//@@ end
}
/// memory of the entry a result is recorded with
pub open spec fn emem(op: Operation, d: Chars, r: CommandResult) -> int { opmem(op) + nbytes(d) + (if r.script_delta is Some { delta_size(r.script_delta->0) as int } else { 0 }) }
/// the outcome of recording `op` on history h
pub open spec fn recorded(h: UndoManager, n: UndoManager, op: Operation, cur: Option<Position>, e: HistoryEntry) -> bool {
    &&& e.operation == op && e.cursor_before == h.current_cursor && e.cursor_after == cur
    &&& newest(seq![e] + h.us(), n.us(), h.stack.config)
    &&& n.rs().len() == 0 && n.stack.wf() && n.stack.config == h.stack.config
    &&& n.current_cursor == (if cur is Some { cur } else { h.current_cursor })
}
pub proof fn recorded_linked(h: UndoManager, n: UndoManager, op: Operation, cur: Option<Position>, e: HistoryEntry, b: Chars, a: Chars)
    requires recorded(h, n, op, cur, e), h.linked(b), step(op, b, a)
    ensures n.linked(a)
{
    let full = seq![e] + h.us();
    assert(full.skip(1) =~= h.us());
    assert(step(full[0].operation, b, a));
    assert(undo_ok(full, a));
    undo_prefix(full, a, n.us().len() as int);
}
impl UndoManager {
//@@ fn crates/ass-editor/core/history/manager.rs UndoManager::record_operation
//@re if let Some\(ref delta\) = result\.script_delta => if let Some(delta) = &result.script_delta
//@spec
    requires old(self).stack.wf(), mem(old(self).us()) + emem(operation, description@, *result) <= usize::MAX, old(self).stack.ops_since_reset < usize::MAX - 1
    ensures
        !(result.success && result.content_changed) ==> *final(self) == *old(self),
        result.success && result.content_changed ==> exists|e: HistoryEntry| #[trigger] recorded(*old(self), *final(self), operation, result.new_cursor, e),
//@start
    proof { mem_nonneg(self.us()); nbytes_all(); }
//@before "self.stack.push(entry);"
            let ghost e = entry;
//@after "self.stack.push(entry);"
            proof { assert(newest(seq![e] + old(self).us(), self.us(), old(self).stack.config)); }
//@after "self.current_cursor = Some(new_cursor);"
            }
            proof { assert(recorded(*old(self), *self, operation, result.new_cursor, e));
//@@ end
//@@ fn crates/ass-editor/core/history/manager.rs UndoManager::set_cursor
//@spec
    ensures final(self).current_cursor == cursor, final(self).stack == old(self).stack
//@@ end
//@@ fn crates/ass-editor/core/history/manager.rs UndoManager::cursor_position
//@ret r
//@spec
    ensures r == self.current_cursor
//@@ end
//@@ fn crates/ass-editor/core/history/manager.rs UndoManager::pop_undo_entry
//@ret r
//@spec
    requires old(self).stack.wf()
    ensures final(self).stack.wf(), r is None <==> old(self).us().len() == 0, final(self).rs() == old(self).rs(), final(self).stack.config == old(self).stack.config,
        final(self).current_cursor == old(self).current_cursor, final(self).stack.ops_since_reset == old(self).stack.ops_since_reset,
        r is None ==> final(self).us() == old(self).us(),
        r is Some ==> r->0 == old(self).us()[0] && final(self).us() == old(self).us().skip(1) && final(self).stack.current_memory == old(self).stack.current_memory - r->0.memory_usage,
//@@ end
//@@ fn crates/ass-editor/core/history/manager.rs UndoManager::pop_redo_entry
//@ret r
//@spec
    requires old(self).stack.wf()
    ensures final(self).stack.wf(), r is None <==> old(self).rs().len() == 0, final(self).us() == old(self).us(), final(self).stack.config == old(self).stack.config,
        final(self).current_cursor == old(self).current_cursor, final(self).stack.ops_since_reset == old(self).stack.ops_since_reset,
        r is None ==> final(self).rs() == old(self).rs(),
        r is Some ==> r->0 == old(self).rs()[0] && final(self).rs() == old(self).rs().skip(1) && final(self).stack.current_memory == old(self).stack.current_memory - r->0.memory_usage,
//@@ end
//@@ fn crates/ass-editor/core/history/manager.rs UndoManager::push_redone_entry
//@spec
    requires old(self).stack.wf(), old(self).stack.current_memory + entry.memory_usage <= usize::MAX
    ensures final(self).stack.wf(), final(self).us() == seq![entry] + old(self).us(), final(self).rs() == old(self).rs(), final(self).stack.config == old(self).stack.config,
        final(self).current_cursor == old(self).current_cursor, final(self).stack.ops_since_reset == old(self).stack.ops_since_reset,
//@@ end
//@@ fn crates/ass-editor/core/history/manager.rs UndoManager::push_redo_entry
//@spec
    requires old(self).stack.wf(), old(self).stack.current_memory + entry.memory_usage <= usize::MAX
    ensures final(self).stack.wf(), final(self).rs() == seq![entry] + old(self).rs(), final(self).us() == old(self).us(), final(self).stack.config == old(self).stack.config,
        final(self).current_cursor == old(self).current_cursor, final(self).stack.ops_since_reset == old(self).stack.ops_since_reset,
//@@ end
}

impl EditorDocument {
    pub open spec fn t(&self) -> Chars { self.text_rope@ }
    pub open spec fn inv(&self) -> bool { self.history.linked(self.t()) }
    /// the bookkeeping counters have room for one more operation
    pub open spec fn room(&self, extra: int) -> bool { mem(self.history.us()) + extra <= usize::MAX && self.history.stack.ops_since_reset < usize::MAX - 1 }
    #[verifier::external_body]
    pub fn text(&self) -> (r: String) ensures r@ == self.t() { unimplemented!() }
//@@ fn crates/ass-editor/core/document/text_access.rs EditorDocument::len_bytes
//@ret r
//@spec
    ensures r == nbytes(self.t())
//@@ end
//@@ fn crates/ass-editor/core/document/constructors.rs EditorDocument::emit
//@spec
    ensures final(self).text_rope == old(self).text_rope, final(self).history == old(self).history
//@@ end
//@@ fn crates/ass-editor/core/document/editing_raw.rs EditorDocument::require_char_boundary
//@ret r
//@spec
    requires offset <= nbytes(self.t())
    ensures r is Ok <==> at_boundary(self.t(), offset as int)
//@start
    proof {
        let s = self.t();
        off_end(s);
        if at_boundary(s, offset as int) {
            let k = choose|k: int| 0 <= k <= s.len() && #[trigger] off(s, k) == offset;
            assert forall|i: int| 0 <= i <= s.len() && #[trigger] off(s, i) <= offset && (i < s.len() ==> offset < off(s, i + 1)) implies i == k by {
                if i < k { off_mono(s, i + 1, k); } if i > k { off_mono(s, k, i); off_step(s, k); off_mono(s, k + 1, i); }
            }
        }
    }
//@@ end
//@@ fn crates/ass-editor/core/document/editing_raw.rs EditorDocument::insert_raw
//@ret r
//@spec
    ensures
        r is Ok <==> at_boundary(old(self).t(), pos.offset as int),
        r is Err ==> final(self).t() == old(self).t(),
        r is Ok ==> spliced(old(self).t(), final(self).t(), pos.offset as int, pos.offset as int, text@),
        final(self).history == old(self).history,
//@start
    proof { boundary_in(self.t(), pos.offset as int); }
//@before "self.text_rope.insert(char_idx, text)"
            proof { let k = choose|k: int| 0 <= k <= self.t().len() && #[trigger] off(self.t(), k) == pos.offset; the_char(self.t(), char_idx as int, k, pos.offset as int); reveal(spliced); }
//@@ end
//@@ fn crates/ass-editor/core/document/editing_raw.rs EditorDocument::delete_raw
//@ret r
//@spec
    ensures
        r is Ok <==> range.start.offset <= range.end.offset && at_boundary(old(self).t(), range.start.offset as int) && at_boundary(old(self).t(), range.end.offset as int),
        r is Err ==> final(self).t() == old(self).t(),
        r is Ok ==> spliced(old(self).t(), final(self).t(), range.start.offset as int, range.end.offset as int, Seq::empty()),
        final(self).history == old(self).history,
//@start
    proof { boundary_in(self.t(), range.start.offset as int); boundary_in(self.t(), range.end.offset as int); }
//@before "self.text_rope.remove(start_char..end_char)"
            let ghost (i, j) = (start_char as int, end_char as int);
            proof {
                let k = choose|k: int| 0 <= k <= self.t().len() && #[trigger] off(self.t(), k) == range.start.offset; the_char(self.t(), i, k, range.start.offset as int);
                let m = choose|m: int| 0 <= m <= self.t().len() && #[trigger] off(self.t(), m) == range.end.offset; the_char(self.t(), j, m, range.end.offset as int);
                if j < i { off_mono(self.t(), j, i); }
                assert(splice(self.t(), i, j, Seq::empty()) =~= self.t().take(i) + self.t().skip(j));
                reveal(spliced);
            }
//@@ end
//@@ fn crates/ass-editor/core/document/editing_raw.rs EditorDocument::replace_raw
//@ret r
//@spec
    ensures
        r is Ok <==> range.start.offset <= range.end.offset && at_boundary(old(self).t(), range.start.offset as int) && at_boundary(old(self).t(), range.end.offset as int),
        r is Err ==> final(self).t() == old(self).t(),
        r is Ok ==> spliced(old(self).t(), final(self).t(), range.start.offset as int, range.end.offset as int, text@),
        final(self).history == old(self).history,
//@before "self.insert_raw(range.start, text)?"
        let ghost mid = self.t();
        proof { spliced_facts(old(self).t(), mid, range.start.offset as int, range.end.offset as int, Seq::empty()); }
//@after "self.insert_raw(range.start, text)?"
        proof { spliced_twice(old(self).t(), mid, self.t(), range.start.offset as int, range.end.offset as int, text@); }
//@@ end
}
/// boundaries lie in the text
pub proof fn boundary_in(s: Chars, b: int) ensures at_boundary(s, b) ==> 0 <= b <= nbytes(s) {
    if at_boundary(s, b) { let k = choose|k: int| 0 <= k <= s.len() && #[trigger] off(s, k) == b; off_mono(s, k, k); }
}
pub proof fn the_char(s: Chars, i: int, k: int, b: int)
    requires 0 <= i <= s.len(), 0 <= k <= s.len(), off(s, k) == b, off(s, i) <= b, i < s.len() ==> b < off(s, i + 1)
    ensures i == k
{ if i < k { off_mono(s, i + 1, k); } if i > k { off_mono(s, k, i); off_step(s, k); off_mono(s, k + 1, i); } }

/// replacing an interval of the text needs at most the text's size plus the new text's to be booked
pub open spec fn need(t: Chars, new: Chars, desc: Chars) -> int { op_size() + nbytes(t) + nbytes(new) + nbytes(desc) }
pub open spec fn edited(b: EditorDocument, a: EditorDocument, op: Operation) -> bool {
    &&& step(op, b.t(), a.t())
    &&& exists|e: HistoryEntry, c: Position| #[trigger] recorded(b.history, a.history, op, Some(c), e)
    &&& a.history.linked(a.t())
}
pub proof fn step_facts(op: Operation, b: Chars, a: Chars)
    requires step(op, b, a)
    ensures match op {
        Operation::Insert { position, text } => at_boundary(b, position.offset as int) && position.offset + nbytes(text@) <= nbytes(a),
        Operation::Delete { range, deleted_text } => range.start.offset <= range.end.offset && at_boundary(b, range.start.offset as int) && at_boundary(b, range.end.offset as int),
        Operation::Replace { range, old_text, new_text } => range.start.offset <= range.end.offset && at_boundary(b, range.start.offset as int) && at_boundary(b, range.end.offset as int) && range.start.offset + nbytes(new_text@) <= nbytes(a),
        _ => false,
    }
{
    match op {
        Operation::Insert { position, text } => spliced_facts(b, a, position.offset as int, position.offset as int, text@),
        Operation::Delete { range, deleted_text } => spliced_facts(b, a, range.start.offset as int, range.end.offset as int, Seq::empty()),
        Operation::Replace { range, old_text, new_text } => spliced_facts(b, a, range.start.offset as int, range.end.offset as int, new_text@),
        _ => {}
    }
}
impl EditorDocument {
//@@ fn crates/ass-editor/core/document/text_access.rs EditorDocument::text_range
//@re self\.text_rope\.slice\((\w+\.\.\w+)\)\.to_string\(\) => self.text_rope.slice_string(\1)
//@ret r
//@spec
    ensures
        r is Ok <==> range.start.offset <= range.end.offset && at_boundary(self.t(), range.start.offset as int) && at_boundary(self.t(), range.end.offset as int),
        r is Ok ==> cut(self.t(), range.start.offset as int, range.end.offset as int, r->Ok_0@),
//@start
    proof { boundary_in(self.t(), range.start.offset as int); boundary_in(self.t(), range.end.offset as int); }
//@before "Ok(self.text_rope.slice"
            proof {
                let (i, j) = (start_char as int, end_char as int);
                let k = choose|k: int| 0 <= k <= self.t().len() && #[trigger] off(self.t(), k) == range.start.offset; the_char(self.t(), i, k, range.start.offset as int);
                let m = choose|m: int| 0 <= m <= self.t().len() && #[trigger] off(self.t(), m) == range.end.offset; the_char(self.t(), j, m, range.end.offset as int);
                if j < i { off_mono(self.t(), j, i); }
                reveal(cut);
            }
//@@ end
//@@ fn crates/ass-editor/core/document/editing.rs EditorDocument::insert_described
//@re-all (\w+)\.to_string\(\) => owned(\1)
//@re-all text\.len\(\) => blen(text)
//@re use crate::commands::CommandResult; => 
//@re use crate::core::history::Operation; => 
//@ret r
//@spec
    requires old(self).inv(), old(self).room(need(old(self).t(), text@, description@))
    ensures
        r is Ok <==> at_boundary(old(self).t(), pos.offset as int),
        r is Err ==> final(self).t() == old(self).t() && final(self).history == old(self).history,
        r is Ok ==> exists|op: Operation| #[trigger] edited(*old(self), *final(self), op) && op is Insert && op->position == pos && op->text@ == text@,
//@start
    let ghost b = self.t();
//@after "self.insert_raw(pos, text)?"
        proof { spliced_facts(b, self.t(), pos.offset as int, pos.offset as int, text@); rope_fits(self.text_rope); }
//@before "self.history"
        let ghost op = operation;
        proof { assert(step(op, b, self.t())); }
        let ghost h = self.history;
//@before "self.validator.clear_cache"
        proof {
            let e = choose|e: HistoryEntry| #[trigger] recorded(h, self.history, op, result.new_cursor, e);
            recorded_linked(h, self.history, op, result.new_cursor, e, b, self.t());
        }
//@before "Ok(())"
        proof { let e = choose|e: HistoryEntry| #[trigger] recorded(h, self.history, op, result.new_cursor, e); assert(recorded(old(self).history, self.history, op, Some(end_pos), e)); assert(edited(*old(self), *self, op)); }
//@@ end
//@@ fn crates/ass-editor/core/document/editing.rs EditorDocument::insert
//@ret r
//@spec
    requires old(self).inv(), old(self).room(need(old(self).t(), text@, "Insert text"@))
    ensures
        r is Ok <==> at_boundary(old(self).t(), pos.offset as int),
        r is Err ==> final(self).t() == old(self).t() && final(self).history == old(self).history,
        r is Ok ==> exists|op: Operation| #[trigger] edited(*old(self), *final(self), op) && op is Insert && op->position == pos && op->text@ == text@,
//@@ end
//@@ fn crates/ass-editor/core/document/editing.rs EditorDocument::delete_described
//@re-all \bdescription\.to_string\(\) => owned(description)
//@re use crate::commands::CommandResult; => 
//@re use crate::core::history::Operation; => 
//@ret r
//@spec
    requires old(self).inv(), old(self).room(need(old(self).t(), Seq::empty(), description@))
    ensures
        r is Ok <==> range.start.offset <= range.end.offset && at_boundary(old(self).t(), range.start.offset as int) && at_boundary(old(self).t(), range.end.offset as int),
        r is Err ==> final(self).t() == old(self).t() && final(self).history == old(self).history,
        r is Ok ==> exists|op: Operation| #[trigger] edited(*old(self), *final(self), op) && op is Delete && op->Delete_range == range,
//@start
    let ghost b = self.t();
//@after "self.delete_raw(range)?"
        proof { spliced_facts(b, self.t(), range.start.offset as int, range.end.offset as int, Seq::empty()); cut_facts(b, range.start.offset as int, range.end.offset as int, deleted_text@); off_zero(Seq::empty()); off_end(Seq::empty()); }
//@before "self.history"
        let ghost op = operation;
        proof { assert(step(op, b, self.t())); }
        let ghost h = self.history;
//@before "self.validator.clear_cache"
        proof {
            let e = choose|e: HistoryEntry| #[trigger] recorded(h, self.history, op, result.new_cursor, e);
            recorded_linked(h, self.history, op, result.new_cursor, e, b, self.t());
        }
//@before "Ok(())"
        proof { let e = choose|e: HistoryEntry| #[trigger] recorded(h, self.history, op, result.new_cursor, e); assert(recorded(old(self).history, self.history, op, Some(range.start), e)); assert(edited(*old(self), *self, op)); }
//@@ end
//@@ fn crates/ass-editor/core/document/editing.rs EditorDocument::delete
//@ret r
//@spec
    requires old(self).inv(), old(self).room(need(old(self).t(), Seq::empty(), "Delete text"@))
    ensures
        r is Ok <==> range.start.offset <= range.end.offset && at_boundary(old(self).t(), range.start.offset as int) && at_boundary(old(self).t(), range.end.offset as int),
        r is Err ==> final(self).t() == old(self).t() && final(self).history == old(self).history,
        r is Ok ==> exists|op: Operation| #[trigger] edited(*old(self), *final(self), op) && op is Delete && op->Delete_range == range,
//@@ end
//@@ fn crates/ass-editor/core/document/editing.rs EditorDocument::replace_described
//@re-all \b(description|text)\.to_string\(\) => owned(\1)
//@re-all \btext\.len\(\) => blen(text)
//@re use crate::commands::CommandResult; => 
//@re use crate::core::history::Operation; => 
//@ret r
//@spec
    requires old(self).inv(), old(self).room(need(old(self).t(), text@, description@))
    ensures
        r is Ok <==> range.start.offset <= range.end.offset && at_boundary(old(self).t(), range.start.offset as int) && at_boundary(old(self).t(), range.end.offset as int),
        r is Err ==> final(self).t() == old(self).t() && final(self).history == old(self).history,
        r is Ok ==> exists|op: Operation| #[trigger] edited(*old(self), *final(self), op) && op is Replace && op->Replace_range == range && op->new_text@ == text@,
//@start
    let ghost b = self.t();
//@after "self.replace_raw(range, text)?"
        proof { spliced_facts(b, self.t(), range.start.offset as int, range.end.offset as int, text@); cut_facts(b, range.start.offset as int, range.end.offset as int, old_text@); rope_fits(self.text_rope); }
//@before "self.history"
        let ghost op = operation;
        proof { assert(step(op, b, self.t())); }
        let ghost h = self.history;
//@before "self.validator.clear_cache"
        proof {
            let e = choose|e: HistoryEntry| #[trigger] recorded(h, self.history, op, result.new_cursor, e);
            recorded_linked(h, self.history, op, result.new_cursor, e, b, self.t());
        }
//@before "Ok(())"
        proof { let e = choose|e: HistoryEntry| #[trigger] recorded(h, self.history, op, result.new_cursor, e); assert(recorded(old(self).history, self.history, op, Some(end_pos), e)); assert(edited(*old(self), *self, op)); }
//@@ end
//@@ fn crates/ass-editor/core/document/editing.rs EditorDocument::replace
//@ret r
//@spec
    requires old(self).inv(), old(self).room(need(old(self).t(), text@, "Replace text"@))
    ensures
        r is Ok <==> range.start.offset <= range.end.offset && at_boundary(old(self).t(), range.start.offset as int) && at_boundary(old(self).t(), range.end.offset as int),
        r is Err ==> final(self).t() == old(self).t() && final(self).history == old(self).history,
        r is Ok ==> exists|op: Operation| #[trigger] edited(*old(self), *final(self), op) && op is Replace && op->Replace_range == range && op->new_text@ == text@,
//@@ end

    #[verifier::external_body]
    pub fn undo_delta(&mut self, f: &ScriptDeltaOwned, u: &DeltaUndoData) -> Result<()> { unimplemented!() }
    #[verifier::external_body]
    pub fn redo_delta(&mut self, f: &ScriptDeltaOwned) -> Result<()> { unimplemented!() }
    #[verifier::external_body]
    pub fn apply_script_delta(&mut self, d: ScriptDeltaOwned) -> Result<()> requires false { unimplemented!() }
//@@ fn crates/ass-editor/core/document/undo_redo.rs EditorDocument::undo
//@re-all \b(text|old_text|new_text|deleted_text)\.len\(\) => blen(\1.as_str())
//@re-all self\.(insert_raw|replace_raw)\(([^;]*), (\w+)\)\?; => self.\1(\2, \3.as_str())?;
//@re for \(index, section_text\)[\s\S]*?(?=result\.message = Some\("Delta) => self.undo_delta(forward, undo_data)?; 
//@re-all result\.message = Some\("[^"]*"\.to_string\(\)\); => 
//@re use crate::core::history::Operation; => 
//@ret r
//@spec
    requires old(self).inv(), old(self).room(0)
    ensures
        r is Ok <==> old(self).history.us().len() > 0,
        r is Err ==> final(self).t() == old(self).t() && final(self).history.us() == old(self).history.us() && final(self).history.rs() == old(self).history.rs() && final(self).history.current_cursor == old(self).history.current_cursor,
        final(self).inv(),
        final(self).history.stack.config == old(self).history.stack.config,
        r is Ok ==> {
            let e = old(self).history.us()[0];
            &&& step(e.operation, final(self).t(), old(self).t())
            &&& final(self).history.us() == old(self).history.us().skip(1)
            &&& final(self).history.rs() == seq![e] + old(self).history.rs()
            &&& final(self).history.current_cursor == (if e.cursor_before is Some { e.cursor_before } else { old(self).history.current_cursor })
        },
//@start
    let ghost a = self.t();
    let ghost us = self.history.us();
    let ghost b = if us.len() > 0 { choose|b: Chars| #[trigger] step(us[0].operation, b, a) && undo_ok(us.skip(1), b) } else { a };
    proof {
        rope_fits(self.text_rope);
        if us.len() > 0 { step_inverse(us[0].operation, b, a); }
    }
    let ghost (s, e, x) = inverse(us[0].operation);
//@after "self.delete_raw(range)?"
                    proof { spliced_fun(a, b, self.t(), s, e, x); }
//@after "self.insert_raw(range.start, deleted_text"
                    proof { spliced_fun(a, b, self.t(), s, e, x); rope_fits(self.text_rope); }
//@after "self.replace_raw(Range::new(range.start, new_end), old_text"
                    proof { spliced_fun(a, b, self.t(), s, e, x); rope_fits(self.text_rope); }
//@before "self.history.push_redo_entry(entry)"
            proof {
                assert(self.t() == b);
                let rs1 = seq![entry] + self.history.rs();
                assert(rs1.skip(1) =~= self.history.rs());
                assert(step(rs1[0].operation, b, a));
                assert(redo_ok(rs1, b));
                mem_nonneg(us.skip(1)); mem_skip(us); mem_nonneg(self.history.rs());
            }
//@@ end
//@@ fn crates/ass-editor/core/document/undo_redo.rs EditorDocument::redo
//@re-all \b(text|old_text|new_text|deleted_text)\.len\(\) => blen(\1.as_str())
//@re-all self\.(insert_raw|replace_raw)\(([^;]*), (\w+)\)\?; => self.\1(\2, \3.as_str())?;
//@re self\.apply_script_delta_internal\(forward\.clone\(\)\)\?; => self.redo_delta(forward)?; 
//@re-all result\.message = Some\("[^"]*"\.to_string\(\)\); => 
//@re use crate::core::history::Operation; => 
//@ret r
//@spec
    requires old(self).inv(), old(self).room(0)
    ensures
        r is Ok <==> old(self).history.rs().len() > 0,
        r is Err ==> final(self).t() == old(self).t() && final(self).history.us() == old(self).history.us() && final(self).history.rs() == old(self).history.rs() && final(self).history.current_cursor == old(self).history.current_cursor,
        final(self).inv(),
        final(self).history.stack.config == old(self).history.stack.config,
        r is Ok ==> {
            let e = old(self).history.rs()[0];
            &&& step(e.operation, old(self).t(), final(self).t())
            &&& final(self).history.rs() == old(self).history.rs().skip(1)
            &&& final(self).history.us() == seq![e] + old(self).history.us()
            &&& final(self).history.current_cursor == (if e.cursor_after is Some { e.cursor_after } else { old(self).history.current_cursor })
        },
//@start
    let ghost b = self.t();
    let ghost rs = self.history.rs();
    let ghost a = if rs.len() > 0 { choose|a: Chars| #[trigger] step(rs[0].operation, b, a) && redo_ok(rs.skip(1), a) } else { b };
    proof { if rs.len() > 0 { step_facts(rs[0].operation, b, a); } }
//@after "self.insert_raw(*position, text"
                    proof { rope_fits(self.text_rope); step_forward(rs[0].operation, b, a, self.t()); }
//@after "self.delete_raw(*range)?"
                    proof { step_forward(rs[0].operation, b, a, self.t()); }
//@after "self.replace_raw(*range, new_text"
                    proof { rope_fits(self.text_rope); step_forward(rs[0].operation, b, a, self.t()); }
//@before "self.history.push_redone_entry(entry)"
            proof {
                assert(self.t() == a);
                let us1 = seq![entry] + self.history.us();
                assert(us1.skip(1) =~= self.history.us());
                assert(step(us1[0].operation, b, a));
                assert(undo_ok(us1, a));
                mem_nonneg(rs.skip(1)); mem_skip(rs); mem_nonneg(self.history.us());
            }
//@@ end

//@@ fn crates/ass-editor/core/document/incremental_fast.rs EditorDocument::edit_incremental_fallback
//@re ScriptDeltaOwned \{[^}]*\} => empty_delta()
//@ret r
//@spec
    requires old(self).inv(), old(self).room(need(old(self).t(), new_text@, "Replace text"@))
    ensures
        r is Ok <==> range.start.offset <= range.end.offset && at_boundary(old(self).t(), range.start.offset as int) && at_boundary(old(self).t(), range.end.offset as int),
        r is Err ==> final(self).t() == old(self).t() && final(self).history == old(self).history,
        r is Ok ==> exists|op: Operation| #[trigger] edited(*old(self), *final(self), op) && op is Replace && op->Replace_range == range && op->new_text@ == new_text@,
//@@ end
//@@ fn crates/ass-editor/core/document/incremental_fast.rs EditorDocument::edit_fast_path
//@re-all \btext\.is_char_boundary\(([\w.]+)\) => is_bnd(text.as_str(), \1)
//@re-all \b(new_text)\.to_string\(\) => owned(\1)
//@re-all "([^"]*)"\.to_string\(\) => owned("\1")
//@re-all \bnew_text\.len\(\) => blen(new_text)
//@re use crate::core::history::Operation; => 
//@re ScriptDeltaOwned \{[^}]*\} => empty_delta()
//@ret r
//@spec
    requires old(self).inv(), old(self).room(need(old(self).t(), new_text@, "Fast character insert"@)), old(self).room(need(old(self).t(), new_text@, "Replace text"@))
    ensures
        r is Ok <==> range.start.offset <= range.end.offset && at_boundary(old(self).t(), range.start.offset as int) && at_boundary(old(self).t(), range.end.offset as int),
        r is Err ==> final(self).t() == old(self).t() && final(self).history == old(self).history,
        r is Ok ==> exists|op: Operation| #[trigger] edited(*old(self), *final(self), op) && op is Replace && op->Replace_range == range && op->new_text@ == new_text@,
//@start
    let ghost b = self.t();
//@before "self.replace_raw(range, new_text)?"
        proof { if range.start.offset == range.end.offset { cut_empty(b, range.start.offset as int); } }
//@after "self.replace_raw(range, new_text)?"
        proof { assert(old_text@ =~= Seq::empty() || cut(b, range.start.offset as int, range.end.offset as int, old_text@)); spliced_facts(b, self.t(), range.start.offset as int, range.end.offset as int, new_text@); assert(old_text@ =~= old_text@); cut_facts(b, range.start.offset as int, range.end.offset as int, old_text@); rope_fits(self.text_rope); }
//@before "self.history"
        let ghost op = operation;
        proof { assert(step(op, b, self.t())); }
        let ghost h = self.history;
//@before "self.modified = true"
        proof {
            let e = choose|e: HistoryEntry| #[trigger] recorded(h, self.history, op, result.new_cursor, e);
            recorded_linked(h, self.history, op, result.new_cursor, e, b, self.t());
        }
//@after "self.modified = true"
        proof {
            let e = choose|e: HistoryEntry| #[trigger] recorded(h, self.history, op, result.new_cursor, e);
            let c = result.new_cursor->0;
            assert(recorded(old(self).history, self.history, op, Some(c), e)); assert(edited(*old(self), *self, op));
        }
//@@ end
//@@ fn crates/ass-editor/core/document/incremental_edit.rs EditorDocument::edit_incremental
//@re let is_simple_edit = [\s\S]*?; => let is_simple_edit = simple_edit(range, new_text);
//@re-all &current_text => current_text.as_str()
//@re-all \b(new_text)\.to_string\(\) => owned(\1)
//@re-all \bnew_text\.len\(\) => blen(new_text)
//@re format!\([^)]*\) => formatted()
//@re Ok\(delta\)\s*\}\s*$ => \nlet answer = Ok(delta);\nanswer }
//@re eprintln!\([^)]*\); => 
//@re use crate::core::history::Operation; => 
//@re ScriptDeltaOwned \{[^}]*\} => empty_delta()
//@ret r
//@spec
    requires old(self).inv(), old(self).room(need(old(self).t(), new_text@, "Fast character insert"@) + delta_bound()), old(self).room(need(old(self).t(), new_text@, "Replace text"@)), old(self).room(need(old(self).t(), new_text@, Seq::empty()) + fmt_bound() + delta_bound())
    ensures
        r is Ok <==> range.start.offset <= range.end.offset && at_boundary(old(self).t(), range.start.offset as int) && at_boundary(old(self).t(), range.end.offset as int),
        r is Err ==> final(self).t() == old(self).t() && final(self).history == old(self).history,
        r is Ok ==> exists|op: Operation| #[trigger] edited(*old(self), *final(self), op) && op is Replace && op->Replace_range == range && op->new_text@ == new_text@,
//@start
    let ghost b = self.t();
//@before "self.replace_raw(range, new_text)?"
        assert(self.t() == b && self.history == old(self).history);
//@after "self.replace_raw(range, new_text)?"
        proof { off_zero(Seq::empty()); off_end(Seq::empty()); spliced_facts(b, self.t(), range.start.offset as int, range.end.offset as int, new_text@); cut_facts(b, range.start.offset as int, range.end.offset as int, old_text@); rope_fits(self.text_rope); delta_fits(delta); }
//@before "self.history"
        let ghost op = operation;
        proof { assert(step(op, b, self.t())); }
        let ghost h = self.history;
//@before "self.modified = true"
        proof {
            let e = choose|e: HistoryEntry| #[trigger] recorded(h, self.history, op, result.new_cursor, e);
            recorded_linked(h, self.history, op, result.new_cursor, e, b, self.t());
        }
//@before "let answer"
        proof {
            let e = choose|e: HistoryEntry| #[trigger] recorded(h, self.history, op, result.new_cursor, e);
            let c = result.new_cursor->0;
            assert(recorded(old(self).history, self.history, op, Some(c), e)); assert(edited(*old(self), *self, op));
        }
//@@ end

//@@ fn crates/ass-editor/core/document/editing.rs EditorDocument::record_text_change
//@re after == before => str_eq(after.as_str(), before)
//@replace "before\n            .chars()\n            .zip(after.chars())\n            .take_while(|(old, new)| old == new)\n            .map(|(old, _)| old.len_utf8())\n            .sum()" => "common_prefix(before, after.as_str())"
//@replace "before[prefix..]\n            .chars()\n            .rev()\n            .zip(after[prefix..].chars().rev())\n            .take_while(|(old, new)| old == new)\n            .map(|(old, _)| old.len_utf8())\n            .sum()" => "common_suffix(before, after.as_str(), prefix)"
//@re-all after\.len\(\) => blen(after.as_str())
//@re-all before\.len\(\) => blen(before)
//@re-all before\[([^\]]*?)\.\.([^\]]*?)\]\.to_string\(\) => owned(bslice(before, \1, \2))
//@re-all after\[([^\]]*?)\.\.([^\]]*?)\]\.to_string\(\) => owned(bslice(after.as_str(), \1, \2))
//@re use crate::commands::CommandResult; => 
//@re use crate::core::history::Operation; => 
//@re cursor\.unwrap_or\(new_end\) => (match cursor { Some(c) => c, None => new_end })
//@spec
    requires old(self).history.linked(before@), old(self).room(op_size() + nbytes(before@) + nbytes(old(self).t()) + nbytes(description@)), nbytes(before@) <= usize::MAX
    ensures
        final(self).text_rope == old(self).text_rope,
        old(self).t() == before@ ==> final(self).history == old(self).history,
        old(self).t() != before@ ==> exists|op: Operation, e: HistoryEntry, c: Position| #[trigger] recorded(old(self).history, final(self).history, op, Some(c), e) && step(op, before@, old(self).t())
            && (cursor is Some ==> c == cursor->0),
        final(self).history.linked(old(self).t()),
//@start
    let ghost b = before@;
    let ghost a = self.t();
//@before "let start = Position::new(prefix)"
        proof { rope_fits(self.text_rope); }
        let ghost (k, m) = choose|k: int, m: int| #[trigger] shared(b, a, k, m) && off(b, k) == prefix && off(a, k) == prefix && nbytes(b) - off(b, b.len() - m) == suffix && nbytes(a) - off(a, a.len() - m) == suffix;
        let ghost (bm, am) = (b.len() - m, a.len() - m);
        proof {
            off_mono(b, k, bm); off_mono(a, k, am); off_mono(b, bm, b.len() as int); off_mono(a, am, a.len() as int); off_end(b); off_end(a);
            assert(b.skip(bm) =~= a.skip(am));
            assert(a =~= splice(b, k, bm, a.subrange(k, am)));
            splice_offs(b, k, bm, a.subrange(k, am)); splice_offs(a, k, am, Seq::empty());
        }
//@before "self.history"
        let ghost op = operation;
        proof {
            assert(op->old_text@ == b.subrange(k, bm)) by { assert(off(b, k) == prefix && off(b, bm) == nbytes(b) - suffix); }
            assert(op->new_text@ == a.subrange(k, am));
            reveal(spliced); reveal(cut);
            assert(step(op, b, a));
            assert(opmem(op) <= op_size() + nbytes(b) + nbytes(a));
        }
        let ghost h = self.history;
        let ghost c = result.new_cursor->0;
//@before "self.validator.clear_cache"
        proof {
            let e = choose|e: HistoryEntry| #[trigger] recorded(h, self.history, op, result.new_cursor, e);
            recorded_linked(h, self.history, op, result.new_cursor, e, b, a);
            assert(recorded(h, self.history, op, Some(c), e));
        }
//@@ end
//@@ fn crates/ass-editor/core/document/validation.rs EditorDocument::execute_command
//@sig-re &dyn crate::commands::EditorCommand => &AnyCommand
//@sig-re crate::commands::CommandResult => CommandResult
//@re core::mem::take\(&mut self\.history\) => take_history(&mut self.history)
//@re-all &before => before.as_str()
//@re command\.description\(\)\.to_string\(\) => owned(command.description())
//@ret r
//@spec
    requires old(self).inv(), forall|t: Chars| nbytes(t) <= usize::MAX ==> #[trigger] old(self).room(op_size() + nbytes(old(self).t()) + nbytes(t) + nbytes(command.desc()))
    ensures
        // whatever the command did: it failed and nothing changed, or it is one entry of the history
        r is Err ==> final(self).t() == old(self).t() && final(self).history == old(self).history,
        r is Ok && final(self).t() == old(self).t() ==> final(self).history == old(self).history,
        r is Ok && final(self).t() != old(self).t() ==> exists|op: Operation| #[trigger] edited(*old(self), *final(self), op),
        final(self).inv(),
//@start
    proof { rope_fits(self.text_rope); }
//@after "self.history = history"
        let ghost t1 = self.t();
        let ghost h = self.history;
        proof { rope_fits(self.text_rope); off_zero(t1); off_end(t1); assert(off(t1, 0) == 0 && off(t1, t1.len() as int) == nbytes(t1)); assert(old(self).room(op_size() + nbytes(old(self).t()) + nbytes(t1) + nbytes(command.desc()))); }
//@before "Ok(result)\n"
                proof {
                    if t1 != before@ {
                        let (op, e, c) = choose|op: Operation, e: HistoryEntry, c: Position| #[trigger] recorded(h, self.history, op, Some(c), e) && step(op, before@, t1) && (result.new_cursor is Some ==> c == result.new_cursor->0);
                        assert(edited(*old(self), *self, op));
                    }
                }
//@before "Err(error)\n"
                proof { whole(t1, self.t(), before@); }
//@@ end
}
/// k characters at the start and m at the end are the same
pub open spec fn shared(b: Chars, a: Chars, k: int, m: int) -> bool {
    0 <= k && 0 <= m && k + m <= b.len() && k + m <= a.len() && b.take(k) == a.take(k) && b.skip(b.len() - m) == a.skip(a.len() - m)
}
#[verifier::external_body]
pub fn str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
/// bytes of the longest common start
#[verifier::external_body]
pub fn common_prefix(b: &str, a: &str) -> (r: usize)
    ensures exists|k: int| #[trigger] shared(b@, a@, k, 0) && off(b@, k) == r && off(a@, k) == r
{ b.chars().zip(a.chars()).take_while(|(o, n)| o == n).map(|(o, _)| o.len_utf8()).sum() }
/// bytes of the longest common end of what follows the first p bytes
#[verifier::external_body]
pub fn common_suffix(b: &str, a: &str, p: usize) -> (r: usize)
    requires exists|k: int| #[trigger] shared(b@, a@, k, 0) && off(b@, k) == p && off(a@, k) == p
    ensures exists|k: int, m: int| #[trigger] shared(b@, a@, k, m) && off(b@, k) == p && off(a@, k) == p && nbytes(b@) - off(b@, b@.len() - m) == r && nbytes(a@) - off(a@, a@.len() - m) == r
{ b[p..].chars().rev().zip(a[p..].chars().rev()).take_while(|(o, n)| o == n).map(|(o, _)| o.len_utf8()).sum() }
/// replacing everything gives the new text
pub proof fn whole(b: Chars, a: Chars, x: Chars) requires spliced(b, a, 0, nbytes(b), x) ensures a == x {
    reveal(spliced);
    let (i, j) = choose|i: int, j: int| 0 <= i <= j <= b.len() && #[trigger] off(b, i) == 0 && #[trigger] off(b, j) == nbytes(b) && a == splice(b, i, j, x);
    off_zero(b); off_end(b); off_inj(b, i, 0); off_inj(b, j, b.len() as int);
    assert(a =~= x);
}
/// any command at all: nothing is assumed of what it does to the document
#[verifier::external_body]
pub struct AnyCommand { x: u8 }
impl AnyCommand {
    pub uninterp spec fn desc(&self) -> Chars;
    #[verifier::external_body]
    pub fn execute(&self, d: &mut EditorDocument) -> Result<CommandResult> { unimplemented!() }
    #[verifier::external_body]
    pub fn description(&self) -> (r: &str) ensures r@ == self.desc() { unimplemented!() }
}
/// core::mem::take
#[verifier::external_body]
pub fn take_history(h: &mut UndoManager) -> (r: UndoManager) ensures r == *old(h) { unimplemented!() }
}
fn main() {}
