use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
verus! {
//@@ include str.inc
//@@ include tags.inc
impl<'a> OverrideTag<'a> {
    pub fn name(&self) -> (r: &'a str) ensures r == self.name { self.name }
    pub fn args(&self) -> (r: &'a str) ensures r == self.args { self.args }
    pub fn position(&self) -> (r: usize) ensures r == self.position { self.position }
}
// ---- assumed contracts of string functions and of the parts of ass-core the commands call --------------
pub uninterp spec fn is_ws(c: char) -> bool;
#[verifier::external_body]
fn white(c: char) -> (r: bool) ensures r == is_ws(c) { c.is_whitespace() }
pub open spec fn all_ws(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_ws(#[trigger] s[i]) }
#[verifier::external_body]
fn only_white(s: &str) -> (r: bool) ensures r == all_ws(s@) { s.trim().is_empty() }
pub open spec fn is_vowel(c: char) -> bool {
    c == 'a' || c == 'e' || c == 'i' || c == 'o' || c == 'u' || c == 'A' || c == 'E' || c == 'I' || c == 'O' || c == 'U'
}
#[verifier::external_body]
fn vowel(c: char) -> (r: bool) ensures r == is_vowel(c), r ==> !is_ws(c) { "aeiouAEIOU".contains(c) }
#[verifier::external_body]
fn holds_char(s: &str, c: char) -> (r: bool) ensures r == s@.contains(c) { s.contains(c) }
#[verifier::external_body]
fn bnd(s: &str, p: usize) -> (r: bool) ensures r == at_boundary(s@, p as int) { s.is_char_boundary(p) }
#[verifier::external_body]
fn nothing(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body]
fn snew() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body]
fn spush(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { s.push(c) }
#[verifier::external_body]
fn sadd(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { s.push_str(t) }
/// no allocation is larger than isize::MAX
#[verifier::external_body]
fn slen(s: &str) -> (r: usize) ensures r == nbytes(s@), r <= isize::MAX { s.len() }
#[verifier::external_body]
fn owned(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body]
fn collected(v: &Vec<char>, a: usize, b: usize) -> (r: String) requires a <= b <= v@.len() ensures r@ == v@.subrange(a as int, b as int) { v[a..b].iter().collect() }
/// a number as format! and to_string write it
pub uninterp spec fn dec(d: u32) -> Seq<char>;
#[verifier::external_body]
proof fn dec_digits(d: u32) ensures dec(d).len() > 0, forall|i: int| 0 <= i < dec(d).len() ==> is_digit(#[trigger] dec(d)[i]) {}
#[verifier::external_body]
fn shown(d: u32) -> (r: String) ensures r@ == dec(d) { d.to_string() }
pub open spec fn block(tag: Seq<char>, d: u32) -> Seq<char> { seq!['{', '\\'] + tag + dec(d) + seq!['}'] }
/// format!("{{\\{tag}{d}}}")
#[verifier::external_body]
fn tag_block(tag: &str, d: u32) -> (r: String) ensures r@ == block(tag@, d) { format!("{{\\{tag}{d}}}") }
/// the number a trimmed argument is read as
pub uninterp spec fn num_of(s: Seq<char>) -> Option<u32>;
#[verifier::external_body]
fn parsed(s: &str) -> (r: Option<u32>) ensures r == num_of(s@) { s.parse().ok() }
pub open spec fn blanks(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 || !is_ws(s[0]) { 0 } else { 1 + blanks(s.skip(1)) } }
pub open spec fn trail(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 || !is_ws(s.last()) { s.len() as int } else { trail(s.drop_last()) } }
pub open spec fn core_of(s: Seq<char>) -> Seq<char> { let t = s.skip(blanks(s)); t.take(trail(t)) }
proof fn blanks_in(s: Seq<char>) ensures 0 <= blanks(s) <= s.len() decreases s.len() { if s.len() > 0 && is_ws(s[0]) { blanks_in(s.skip(1)); } }
proof fn trail_in(s: Seq<char>) ensures 0 <= trail(s) <= s.len() decreases s.len() { if s.len() > 0 && is_ws(s.last()) { trail_in(s.drop_last()); } }
#[verifier::external_body]
fn trimmed<'a>(s: &'a str) -> (r: &'a str) ensures r@ == core_of(s@) { s.trim() }
#[verifier::external_body]
fn ltrimmed<'a>(s: &'a str) -> (r: &'a str) ensures r@ == s@.skip(blanks(s@)) { s.trim_start() }
#[verifier::external_body]
fn begins_with(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { s.starts_with(c) }
/// (d as f32 * factor) as u32
pub uninterp spec fn scaled(d: u32, f: f32) -> u32;
#[verifier::external_body]
fn scale(d: u32, f: f32) -> (r: u32) ensures r == scaled(d, f) { (d as f32 * f) as u32 }
#[verifier::external_body]
fn add_signed(d: u32, o: i32) -> (r: u32) ensures r == clamp(d + o) { d.saturating_add_signed(o) }
pub open spec fn clamp(x: int) -> u32 { if x < 0 { 0 } else if x > u32::MAX { u32::MAX } else { x as u32 } }
pub open spec fn some_time(d: u32) -> u32 { if d == 0 { 1 } else { d } }
fn at_least_one(d: u32) -> (r: u32) ensures r == some_time(d) { if d == 0 { 1 } else { d } }
pub struct ExtensionRegistry { pub id: u8 }
#[verifier::external_body]
fn karaoke_registry() -> Result<ExtensionRegistry> { unimplemented!() }
/// contract discharged on parse_override_block in unit c_tags
#[verifier::external_body]
fn parse_override_block_with_registry<'a>(content: &'a str, start_pos: usize, tags: &mut Vec<OverrideTag<'a>>, diagnostics: &mut Vec<TagDiagnostic<'a>>, registry: Option<&ExtensionRegistry>)
    requires start_pos + nbytes(content@) <= usize::MAX, nbytes(content@) < 0x7fff_ffff
    ensures tseq(final(tags)@) == tseq(old(tags)@) + tags_of(content@, start_pos as int, 0)
{ unimplemented!() }
pub struct EditorError { pub kind: u8 }
pub type Result<T> = core::result::Result<T, EditorError>;
#[verifier::external_body]
fn refused() -> EditorError { unimplemented!() }
/// the document: contracts discharged on the real functions in unit e_undo
#[verifier::external_body]
pub struct EditorDocument { x: u8 }
impl EditorDocument {
    pub uninterp spec fn t(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn text_range(&self, range: Range) -> (r: Result<String>)
        ensures r is Ok <==> valid(self.t(), range), r is Ok ==> exists|i: int, j: int| #[trigger] spans(self.t(), range, i, j) && r->Ok_0@ == self.t().subrange(i, j)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn replace(&mut self, range: Range, text: &str) -> (r: Result<()>)
        ensures r is Ok <==> valid(old(self).t(), range), r is Err ==> final(self).t() == old(self).t(),
            r is Ok ==> exists|i: int, j: int| #[trigger] spans(old(self).t(), range, i, j) && final(self).t() == old(self).t().take(i) + text@ + old(self).t().skip(j)
    { unimplemented!() }
}
pub open spec fn spans(t: Seq<char>, r: Range, i: int, j: int) -> bool { 0 <= i <= j <= t.len() && off(t, i) == r.start.offset && off(t, j) == r.end.offset }
pub open spec fn valid(t: Seq<char>, r: Range) -> bool { exists|i: int, j: int| spans(t, r, i, j) }
proof fn spans_one(t: Seq<char>, r: Range, i: int, j: int, k: int, l: int) requires spans(t, r, i, j), spans(t, r, k, l) ensures i == k, j == l { off_inj(t, i, k); off_inj(t, j, l); }
#[verifier::external_body]
proof fn text_fits(d: &EditorDocument) ensures nbytes(d.t()) < 0x7fff_ffff {}
#[verifier::external_body]
pub struct Delta { x: u8 }

//@@ struct crates/ass-editor/core/position/points.rs Position derive(Clone, Copy)
//@@ struct crates/ass-editor/core/position/range.rs Range derive(Clone, Copy)
//@@ struct crates/ass-editor/commands/command_result.rs CommandResult "ScriptDeltaOwned" "Delta"
//@@ struct crates/ass-editor/commands/karaoke_commands/types.rs KaraokeType derive(Clone, Copy)
//@@ struct crates/ass-editor/commands/karaoke_commands/split.rs SplitKaraokeCommand
//@@ struct crates/ass-editor/commands/karaoke_commands/generate.rs GenerateKaraokeCommand
//@@ struct crates/ass-editor/commands/karaoke_commands/adjust.rs AdjustKaraokeCommand
//@@ struct crates/ass-editor/commands/karaoke_commands/adjust.rs TimingAdjustment
impl Position {
//@@ fn crates/ass-editor/core/position/points.rs Position::new
//@ret r
//@spec
    ensures r.offset == offset
//@@ end
}
impl Range {
//@@ fn crates/ass-editor/core/position/range.rs Range::new
//@ret r
//@spec
    ensures start.offset <= end.offset ==> r.start == start && r.end == end
//@@ end
}
impl CommandResult {
//@@ fn crates/ass-editor/commands/command_result.rs CommandResult::success_with_change
//@ret r
//@spec
    ensures r.success, r.content_changed, r.new_cursor == Some(cursor), r.modified_range == Some(range)
//@@ end
}

// ---- specification: visible text, and text cut into pieces --------------------------------------------
/// the text ends inside a block
pub open spec fn open_at(s: Seq<char>) -> bool decreases s.len() { if s.len() == 0 { false } else if s.last() == '{' { true } else if s.last() == '}' { false } else { open_at(s.drop_last()) } }
/// what stands outside of blocks
pub open spec fn vis(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { s } else { let p = s.drop_last(); if open_at(p) || s.last() == '{' { vis(p) } else { vis(p).push(s.last()) } }
}
pub open spec fn no_braces(s: Seq<char>) -> bool { !s.contains('{') && !s.contains('}') }
proof fn vis_plain(a: Seq<char>, x: Seq<char>)
    requires !open_at(a), no_braces(x)
    ensures vis(a + x) == vis(a) + x, !open_at(a + x)
    decreases x.len()
{
    if x.len() == 0 { assert(a + x =~= a); assert(vis(a) + x =~= vis(a)); }
    else {
        let y = x.drop_last();
        assert(no_braces(y)) by { assert forall|c: char| y.contains(c) implies x.contains(c) by { let i = choose|i: int| 0 <= i < y.len() && y[i] == c; assert(x[i] == c); } }
        assert(x.contains(x.last()));
        vis_plain(a, y);
        assert((a + x).drop_last() =~= a + y);
        assert((a + x).last() == x.last());
        assert(vis(a) + x =~= (vis(a) + y).push(x.last()));
    }
}
proof fn vis_hidden(a: Seq<char>, x: Seq<char>)
    requires open_at(a), no_braces(x)
    ensures vis(a + x) == vis(a), open_at(a + x)
    decreases x.len()
{
    if x.len() == 0 { assert(a + x =~= a); }
    else {
        let y = x.drop_last();
        assert(no_braces(y)) by { assert forall|c: char| y.contains(c) implies x.contains(c) by { let i = choose|i: int| 0 <= i < y.len() && y[i] == c; assert(x[i] == c); } }
        assert(x.contains(x.last()));
        vis_hidden(a, y);
        assert((a + x).drop_last() =~= a + y);
    }
}
proof fn vis_block(a: Seq<char>, tag: Seq<char>, d: u32)
    requires !open_at(a), no_braces(tag)
    ensures vis(a + block(tag, d)) == vis(a), !open_at(a + block(tag, d))
{
    let a1 = a.push('{');
    assert(a1.drop_last() =~= a);
    let x = seq!['\\'] + tag + dec(d);
    dec_digits(d);
    assert(no_braces(x)) by {
        assert forall|i: int| 0 <= i < x.len() implies x[i] != '{' && x[i] != '}' by { if i > 0 && i <= tag.len() { assert(tag.contains(tag[i - 1])); } else if i > tag.len() { assert(is_digit(dec(d)[i - 1 - tag.len()])); } }
    }
    vis_hidden(a1, x);
    let a2 = (a1 + x).push('}');
    assert(a2.drop_last() =~= a1 + x);
    assert(a2 =~= a + block(tag, d));
}
pub open spec fn flat(p: Seq<Seq<char>>) -> Seq<char> decreases p.len() { if p.len() == 0 { Seq::empty() } else { flat(p.drop_last()) + p.last() } }
proof fn flat_push(p: Seq<Seq<char>>, x: Seq<char>) ensures flat(p.push(x)) == flat(p) + x { assert(p.push(x).drop_last() =~= p); }
/// every piece behind a tag of its own
pub open spec fn tagged(p: Seq<Seq<char>>, tag: Seq<char>, d: u32) -> Seq<char> decreases p.len() { if p.len() == 0 { Seq::empty() } else { tagged(p.drop_last(), tag, d) + block(tag, d) + p.last() } }
proof fn tagged_push(p: Seq<Seq<char>>, x: Seq<char>, tag: Seq<char>, d: u32) ensures tagged(p.push(x), tag, d) == tagged(p, tag, d) + block(tag, d) + x { assert(p.push(x).drop_last() =~= p); }
/// the words read as before
pub proof fn tagged_vis(p: Seq<Seq<char>>, tag: Seq<char>, d: u32)
    requires no_braces(flat(p)), no_braces(tag)
    ensures vis(tagged(p, tag, d)) == flat(p), !open_at(tagged(p, tag, d))
    decreases p.len()
{
    if p.len() > 0 {
        let f = flat(p); let q = p.drop_last();
        assert(no_braces(flat(q)) && no_braces(p.last())) by {
            assert forall|c: char| flat(q).contains(c) || p.last().contains(c) implies f.contains(c) by {
                if flat(q).contains(c) { let i = choose|i: int| 0 <= i < flat(q).len() && flat(q)[i] == c; assert(f[i] == c); }
                else { let i = choose|i: int| 0 <= i < p.last().len() && p.last()[i] == c; assert(f[flat(q).len() + i] == c); }
            }
        }
        tagged_vis(q, tag, d);
        vis_block(tagged(q, tag, d), tag, d);
        vis_plain(tagged(q, tag, d) + block(tag, d), p.last());
    }
}

// ---- splitting -----------------------------------------------------------------------------------------
/// the pieces before the first n positions, and the character at which the next one starts: a position is used
/// when it lies behind the last one used, inside the text, and on a character boundary
pub open spec fn pieces(s: Seq<char>, ps: Seq<usize>, n: int) -> (Seq<Seq<char>>, int)
    decreases n
{
    if n <= 0 { (Seq::empty(), 0) } else {
        let (g, l) = pieces(s, ps, n - 1);
        let p = ps[n - 1] as int;
        if off(s, l) < p && p < nbytes(s) && at_boundary(s, p) { (g.push(s.subrange(l, place(s, p))), place(s, p)) } else { (g, l) }
    }
}
pub open spec fn place(s: Seq<char>, p: int) -> int { choose|i: int| 0 <= i <= s.len() && #[trigger] off(s, i) == p }
pub open spec fn all_pieces(s: Seq<char>, ps: Seq<usize>) -> Seq<Seq<char>> {
    let (g, l) = pieces(s, ps, ps.len() as int);
    if l < s.len() { g.push(s.subrange(l, s.len() as int)) } else { g }
}
proof fn pieces_flat(s: Seq<char>, ps: Seq<usize>, n: int)
    requires 0 <= n <= ps.len()
    ensures flat(pieces(s, ps, n).0) == s.take(pieces(s, ps, n).1), 0 <= pieces(s, ps, n).1 <= s.len()
    decreases n
{
    if n > 0 {
        pieces_flat(s, ps, n - 1);
        let (g, l) = pieces(s, ps, n - 1); let p = ps[n - 1] as int;
        if off(s, l) < p && p < nbytes(s) && at_boundary(s, p) {
            let i = place(s, p);
            if i < l { off_mono(s, i, l); }
            flat_push(g, s.subrange(l, i)); assert(s.take(l) + s.subrange(l, i) =~= s.take(i));
        }
    } else { assert(s.take(0) =~= Seq::<char>::empty()); }
}
proof fn all_pieces_flat(s: Seq<char>, ps: Seq<usize>) ensures flat(all_pieces(s, ps)) == s {
    pieces_flat(s, ps, ps.len() as int);
    let (g, l) = pieces(s, ps, ps.len() as int);
    assert(s.take(s.len() as int) =~= s);
    if l < s.len() { flat_push(g, s.subrange(l, s.len() as int)); assert(s.take(l) + s.subrange(l, s.len() as int) =~= s); }
}
pub open spec fn or_fifty(d: Option<u32>) -> u32 { match d { Some(x) => x, None => 50 } }
impl SplitKaraokeCommand {
//@@ fn crates/ass-editor/commands/karaoke_commands/split.rs SplitKaraokeCommand::split_karaoke_text
//@ret r
//@re String::new\(\) => snew()
//@re let mut last_pos = 0; => let mut last_pos: usize = 0; let mut ix: usize = 0;
//@re for &pos in &self\.split_positions \{ => while ix < self.split_positions.len() { let pos = self.split_positions[ix]; ix += 1;
//@re !text\.is_char_boundary\(pos\) => !bnd(text, pos)
//@re-all text\.len\(\) => blen(text)
//@re &text\[last_pos\.\.pos\] => bslice(text, last_pos, pos)
//@re &text\[last_pos\.\.\] => bslice(text, last_pos, blen(text))
//@re-all segment\.is_empty\(\) => nothing(segment)
//@re-all result\.push_str\(&format!\("\{\{\\\\k\{duration\}\}\}\{segment\}"\)\); => { let b = tag_block("k", duration); sadd(&mut result, b.as_str()); sadd(&mut result, segment); }
//@spec
    ensures r is Ok,
        // every piece between the positions, behind a tag of its own; put together they are the text
        r->Ok_0@ == tagged(all_pieces(text@, self.split_positions@), seq!['k'], or_fifty(self.new_duration)),
        flat(all_pieces(text@, self.split_positions@)) == text@,
        no_braces(text@) ==> vis(r->Ok_0@) == text@,
//@start
    let ghost s = text@; let ghost ps = self.split_positions@; let ghost d = or_fifty(self.new_duration);
    proof { off_zero(s); off_end(s); reveal_strlit("k"); assert("k"@ =~= seq!['k']); }
//@loop 0
    invariant s == text@, ps == self.split_positions@, d == or_fifty(self.new_duration), ix <= ps.len(), "k"@ == seq!['k'],
        0 <= pieces(s, ps, ix as int).1 <= s.len(), last_pos == off(s, pieces(s, ps, ix as int).1),
        result@ == tagged(pieces(s, ps, ix as int).0, seq!['k'], d),
    decreases ps.len() - ix
//@loopstart 0
        let ghost (g, l) = pieces(s, ps, ix as int);
//@before "let segment = bslice(text, last_pos, pos);"
            let ghost i = place(s, pos as int);
            proof { if i < l { off_mono(s, i, l); } assert(off(s, l) == last_pos && off(s, i) == pos); assert(i > l) by { if i == l {} } tagged_push(g, s.subrange(l, i), seq!['k'], d); }
//@after "bslice(text, last_pos, blen(text))"
            proof { let (g, l) = pieces(s, ps, ps.len() as int); assert(off(s, l) == last_pos && off(s, s.len() as int) == nbytes(s)); tagged_push(g, s.subrange(l, s.len() as int), seq!['k'], d); }
//@before "Ok(result)"
    proof {
        all_pieces_flat(s, ps);
        let (g, l) = pieces(s, ps, ps.len() as int);
        if l < s.len() { off_mono(s, l, s.len() as int); }
        if no_braces(s) { let k = seq!['k']; assert(no_braces(k)) by { assert forall|c: char| k.contains(c) implies c == 'k' by {} } tagged_vis(all_pieces(s, ps), k, d); }
    }
//@@ end
//@@ fn crates/ass-editor/commands/karaoke_commands/split.rs SplitKaraokeCommand::execute
//@ret r
//@re processed_text\.len\(\) => slen(processed_text.as_str())
//@re-all &(original_text|processed_text)\b => \1.as_str()
//@start
    proof { text_fits(document); }
//@after "document.text_range(self.range)?"
    let ghost t = document.t();
    let ghost (i, j) = choose|i: int, j: int| #[trigger] spans(t, self.range, i, j) && original_text@ == t.subrange(i, j);
//@after "document.replace(self.range, processed_text.as_str())?"
    proof {
        let (k, l) = choose|k: int, l: int| #[trigger] spans(t, self.range, k, l) && document.t() == t.take(k) + processed_text@ + t.skip(l);
        spans_one(t, self.range, i, j, k, l); off_mono(t, i, t.len() as int);
    }
//@spec
    ensures r is Ok ==> exists|i: int, j: int| #[trigger] spans(old(document).t(), self.range, i, j) && final(document).t() == old(document).t().take(i) + tagged(all_pieces(old(document).t().subrange(i, j), self.split_positions@), seq!['k'], or_fifty(self.new_duration)) + old(document).t().skip(j),
        r is Err ==> final(document).t() == old(document).t(),
//@@ end
}
// ---- generating ----------------------------------------------------------------------------------------
pub open spec fn kname(k: KaraokeType) -> Seq<char> {
    match k { KaraokeType::Standard => seq!['k'], KaraokeType::Fill => seq!['k', 'f'], KaraokeType::Outline => seq!['k', 'o'], KaraokeType::Transition => seq!['k', 't'] }
}
impl KaraokeType {
//@@ fn crates/ass-editor/commands/karaoke_commands/types.rs KaraokeType::tag_string
//@ret r
//@spec
    ensures r@ == kname(self)
//@start
    proof { reveal_strlit("k"); reveal_strlit("kf"); reveal_strlit("ko"); reveal_strlit("kt"); assert("k"@ =~= seq!['k']); assert("kf"@ =~= seq!['k', 'f']); assert("ko"@ =~= seq!['k', 'o']); assert("kt"@ =~= seq!['k', 't']); }
//@@ end
}
proof fn kname_plain(k: KaraokeType) ensures no_braces(kname(k)) {
    let n = kname(k);
    assert forall|i: int| 0 <= i < n.len() implies n[i] != '{' && n[i] != '}' by {}
}
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|x: String| x@) }
proof fn texts_push(v: Seq<String>, x: String) ensures texts(v.push(x)) == texts(v).push(x@) { assert(texts(v.push(x)) =~= texts(v).push(x@)); }
/// the pieces one after the other, a tag before the first and before every one that is not blank
pub open spec fn timed(p: Seq<Seq<char>>, n: int, tag: Seq<char>, d: u32) -> Seq<char>
    decreases n
{
    if n <= 0 { Seq::empty() } else { timed(p, n - 1, tag, d) + (if n == 1 || !all_ws(p[n - 1]) { block(tag, d) } else { Seq::empty() }) + p[n - 1] }
}
proof fn timed_vis(p: Seq<Seq<char>>, n: int, tag: Seq<char>, d: u32)
    requires 0 <= n <= p.len(), no_braces(flat(p.take(n))), no_braces(tag)
    ensures vis(timed(p, n, tag, d)) == flat(p.take(n)), !open_at(timed(p, n, tag, d))
    decreases n
{
    if n > 0 {
        let f = flat(p.take(n)); let q = flat(p.take(n - 1)); let x = p[n - 1];
        assert(p.take(n).drop_last() =~= p.take(n - 1));
        assert(no_braces(q) && no_braces(x)) by {
            assert forall|c: char| q.contains(c) || x.contains(c) implies f.contains(c) by {
                if q.contains(c) { let i = choose|i: int| 0 <= i < q.len() && q[i] == c; assert(f[i] == c); }
                else { let i = choose|i: int| 0 <= i < x.len() && x[i] == c; assert(f[q.len() + i] == c); }
            }
        }
        timed_vis(p, n - 1, tag, d);
        let a = timed(p, n - 1, tag, d);
        if n == 1 || !all_ws(x) { vis_block(a, tag, d); vis_plain(a + block(tag, d), x); }
        else { assert(a + Seq::<char>::empty() =~= a); vis_plain(a, x); }
    }
}
impl GenerateKaraokeCommand {
//@@ fn crates/ass-editor/commands/karaoke_commands/generate.rs GenerateKaraokeCommand::is_syllable_boundary
//@ret r
//@sig-re chars: &\[char\] => chars: &Vec<char>
//@re-all "aeiouAEIOU"\.contains\((\w+)\) => vowel(\1)
//@re curr\.is_whitespace\(\) => white(curr)
//@spec
    ensures r == (0 < pos < chars@.len() && is_vowel(chars@[pos - 1]) && !is_vowel(chars@[pos as int]) && !is_ws(chars@[pos as int])),
        r ==> !is_ws(chars@[pos - 1]),
//@@ end
//@@ fn crates/ass-editor/commands/karaoke_commands/generate.rs GenerateKaraokeCommand::split_into_syllables
//@ret r
//@re-all vec!\[text\.to_string\(\)\] => one_text(text)
//@re let mut current_start = 0; => let mut current_start: usize = 0; let mut ix: usize = 0;
//@re text\.chars\(\)\.collect\(\) => chars_of(text)
//@re chars\.is_empty\(\) => (chars.len() == 0)
//@re for \(i, &ch\) in chars\.iter\(\)\.enumerate\(\) \{ => while ix < chars.len() { let i = ix; let ch = chars[ix]; ix += 1;
//@re-all ch\.is_whitespace\(\) => white(ch)
//@re chars\[end\]\.is_whitespace\(\) => white(chars[end])
//@re let syllable: String = chars\[current_start\.\.i\]\.iter\(\)\.collect\(\); => let syllable: String = collected(&chars, current_start, i);
//@re chars\[i\.\.end\]\.iter\(\)\.collect\(\) => collected(&chars, i, end)
//@re chars\[current_start\.\.\]\.iter\(\)\.collect\(\) => collected(&chars, current_start, chars.len())
//@re syllable\.trim\(\)\.is_empty\(\) => only_white(syllable.as_str())
//@re syllables\.is_empty\(\) => (syllables.len() == 0)
//@spec
    ensures flat(texts(r@)) == text@, !self.auto_detect_syllables || text@.len() == 0 ==> texts(r@) == seq![text@],
        r@.len() > 0,
//@start
    let ghost s = text@;
//@loop 0
    invariant chars@ == s, s == text@, ix <= s.len(), current_start <= s.len(), flat(texts(syllables@)) == s.take(current_start as int),
        // what is not yet in a syllable is not blank, or is one blank that has just been read
        current_start < ix ==> !is_ws(s[ix - 1]) || (current_start == ix - 1 && (ix < s.len() ==> !is_ws(s[ix as int]))),
        ix < s.len() && current_start > ix ==> forall|k: int| ix <= k < current_start ==> is_ws(s[k]),
        current_start > 0 && current_start < s.len() && current_start >= ix ==> !is_ws(s[current_start as int]),
        current_start == 0 ==> syllables@.len() == 0, current_start > 0 && syllables@.len() == 0 ==> false,
    decreases s.len() - ix
//@before "let syllable: String ="
                    let ghost t0 = syllables@;
                    proof { assert(s.take(current_start as int) + s.subrange(current_start as int, i as int) =~= s.take(i as int)); }
//@before "if !only_white(syllable.as_str())"
                    proof { assert(syllable@[i as int - 1 - current_start as int] == s[i as int - 1]); }
//@after "syllables.push(syllable)"
                        proof { texts_push(t0, syllables@.last()); assert(syllables@ =~= t0.push(syllables@.last())); flat_push(texts(t0), s.subrange(current_start as int, i as int)); }
//@loop 1
    invariant chars@ == s, i < end <= s.len(), forall|k: int| i <= k < end ==> is_ws(#[trigger] s[k]),
    ensures end == s.len() || !is_ws(s[end as int])
    decreases s.len() - end
//@before "let whitespace: String"
                        let ghost t1 = syllables@;
//@after "syllables.push(whitespace)"
                        proof { texts_push(t1, syllables@.last()); assert(syllables@ =~= t1.push(syllables@.last())); flat_push(texts(t1), s.subrange(i as int, end as int)); assert(s.take(i as int) + s.subrange(i as int, end as int) =~= s.take(end as int)); }
//@before "if current_start < chars.len()"
        let ghost t2 = syllables@;
//@before "if (syllables.len() == 0)"
        proof {
            if current_start < s.len() { texts_push(t2, syllables@.last()); assert(syllables@ =~= t2.push(syllables@.last())); flat_push(texts(t2), s.subrange(current_start as int, s.len() as int)); assert(s.take(current_start as int) + s.subrange(current_start as int, s.len() as int) =~= s); }
            assert(s.take(s.len() as int) =~= s);
        }
//@@ end
//@@ fn crates/ass-editor/commands/karaoke_commands/generate.rs GenerateKaraokeCommand::execute
//@ret r
//@re-all original_text\.contains\(('.')\) => holds_char(original_text.as_str(), \1)
//@re (?s)return Err\(EditorError::command_failed\(.*?\)\); => return Err(refused());
//@re-all &(original_text|karaoke_text)\b => \1.as_str()
//@re String::new\(\) => snew()
//@re for \(i, syllable\) in syllables\.iter\(\)\.enumerate\(\) \{ => let mut ix: usize = 0; while ix < syllables.len() { let i = ix; let syllable = syllables[ix].as_str(); ix += 1;
//@re-all karaoke_text\.push_str\(&format!\("\{\{\\\\\{tag\}\{\}\}\}", self\.default_duration\)\); => { let b = tag_block(tag, self.default_duration); sadd(&mut karaoke_text, b.as_str()); }
//@re syllable\.trim\(\)\.is_empty\(\) => only_white(syllable)
//@re karaoke_text\.push_str\(syllable\) => sadd(&mut karaoke_text, syllable)
//@re karaoke_text\.len\(\) => slen(karaoke_text.as_str())
//@spec
    ensures
        // the text of the range is replaced by text that reads the same; nothing else changes
        r is Ok ==> exists|i: int, j: int, x: Seq<char>| #[trigger] generated(*self, old(document).t(), final(document).t(), i, j, x),
        r is Err ==> final(document).t() == old(document).t(),
//@start
    proof { text_fits(document); kname_plain(self.karaoke_type); }
//@after "document.text_range(self.range)?"
    let ghost t = document.t();
    let ghost (i0, j0) = choose|i: int, j: int| #[trigger] spans(t, self.range, i, j) && original_text@ == t.subrange(i, j);
//@loop 0
    invariant ix <= syllables@.len(), tag@ == kname(self.karaoke_type), karaoke_text@ == timed(texts(syllables@), ix as int, tag@, self.default_duration),
    decreases syllables@.len() - ix
//@loopstart 0
        let ghost k0 = karaoke_text@;
        proof { assert(texts(syllables@)[ix as int] == syllables@[ix as int]@); }
//@loopend 0
        proof { assert(k0 + Seq::<char>::empty() =~= k0); }
//@after "document.replace(self.range, karaoke_text.as_str())?"
    proof {
        let (k, l) = choose|k: int, l: int| #[trigger] spans(t, self.range, k, l) && document.t() == t.take(k) + karaoke_text@ + t.skip(l);
        spans_one(t, self.range, i0, j0, k, l); off_mono(t, k, t.len() as int);
        let p = texts(syllables@);
        assert(p.take(p.len() as int) =~= p);
        timed_vis(p, p.len() as int, kname(self.karaoke_type), self.default_duration);
        assert(p =~= seq![original_text@] ==> true);
        assert(generated(*self, t, document.t(), k, l, karaoke_text@));
    }
//@@ end
}
#[verifier::external_body]
fn one_text(s: &str) -> (r: Vec<String>) ensures r@.len() == 1, texts(r@) == seq![s@], flat(texts(r@)) == s@ { vec![s.to_string()] }
pub open spec fn generated(c: GenerateKaraokeCommand, b: Seq<char>, a: Seq<char>, i: int, j: int, x: Seq<char>) -> bool {
    spans(b, c.range, i, j) && a == b.take(i) + x + b.skip(j)
        && no_braces(b.subrange(i, j)) && vis(x) == b.subrange(i, j)
        && exists|p: Seq<Seq<char>>| #![trigger flat(p)] flat(p) == b.subrange(i, j) && p.len() > 0 && x == timed(p, p.len() as int, kname(c.karaoke_type), c.default_duration) && (!c.auto_detect_syllables ==> p == seq![b.subrange(i, j)])
}
// ---- adjusting -----------------------------------------------------------------------------------------
pub open spec fn is_k(n: Seq<char>) -> bool { n.len() > 0 && n[0] == 'k' }
/// the new duration of the ci-th karaoke tag, and the number of the next one
pub open spec fn new_time(adj: TimingAdjustment, d: u32, ci: int) -> (u32, int) {
    match adj {
        TimingAdjustment::Scale(f) => (some_time(scaled(d, f)), ci),
        TimingAdjustment::Offset(o) => (some_time(clamp(d + o)), ci),
        TimingAdjustment::SetAll(x) => (x, ci),
        TimingAdjustment::Custom(v) => if 0 <= ci < v@.len() { (v@[ci], ci + 1) } else { (d, ci) },
    }
}
/// a block from character p on: the number after every karaoke tag replaced, everything else as it stands
pub open spec fn adj_block(adj: TimingAdjustment, c: Seq<char>, p: int, ci: int) -> (Seq<char>, int)
    decreases c.len() - p
{
    if p < 0 || p >= c.len() { (Seq::empty(), ci) }
    else if c[p] == '\\' {
        let s = p + 1; let e = name_end(c, s, s);
        if e > s {
            let a = args_end(c, s, e);
            if a <= p || a > c.len() { (c.skip(p), ci) } else {
                let g = c.subrange(e, a);
                if is_k(c.subrange(s, e)) && num_of(core_of(g)) is Some {
                    let (nd, cj) = new_time(adj, num_of(core_of(g))->0, ci);
                    let b = e + blanks(g); let l = core_of(g).len() as int;
                    let (rest, ck) = adj_block(adj, c, a, cj);
                    (c.subrange(p, b) + dec(nd) + c.subrange(b + l, a) + rest, ck)
                } else { let (rest, ck) = adj_block(adj, c, a, ci); (c.subrange(p, a) + rest, ck) }
            }
        } else { let q = if s < c.len() { s + 1 } else { s }; let (rest, ck) = adj_block(adj, c, q, ci); (c.subrange(p, q) + rest, ck) }
    } else { let (rest, ck) = adj_block(adj, c, p + 1, ci); (seq![c[p]] + rest, ck) }
}
/// the brace matching the one before i (d of them are open), or the end of the text
pub open spec fn close(c: Seq<char>, i: int, d: int) -> int
    decreases c.len() - i
{
    if i < 0 || i >= c.len() { c.len() as int }
    else if c[i] == '{' { close(c, i + 1, d + 1) }
    else if c[i] == '}' { if d == 1 { i } else { close(c, i + 1, d - 1) } }
    else { close(c, i + 1, d) }
}
proof fn close_in(c: Seq<char>, i: int, d: int)
    requires 0 <= i <= c.len()
    ensures i <= close(c, i, d) <= c.len()
    decreases c.len() - i
{ if i < c.len() { close_in(c, i + 1, d); close_in(c, i + 1, d + 1); close_in(c, i + 1, d - 1); } }
/// the text from character i on, its blocks adjusted one after the other
pub open spec fn adj_text(adj: TimingAdjustment, c: Seq<char>, i: int, ci: int) -> Seq<char>
    decreases c.len() - i
{
    if i < 0 || i >= c.len() { Seq::empty() }
    else if c[i] == '{' {
        let e = close(c, i + 1, 1);
        if e <= i || e > c.len() { Seq::empty() } else {
            let (w, cj) = adj_block(adj, c.subrange(i + 1, e), 0, ci);
            seq!['{'] + w + (if e < c.len() { seq!['}'] } else { Seq::empty() }) + adj_text(adj, c, if e < c.len() { e + 1 } else { e }, cj)
        }
    } else { seq![c[i]] + adj_text(adj, c, i + 1, ci) }
}
/// every tag of a block has its place there
proof fn next_tag(adj: TimingAdjustment, c: Seq<char>, p: int, ci: int) -> (q: int)
    requires 0 <= p <= c.len(), tags_of(c, 0, p).len() > 0
    ensures p <= q < c.len(), c[q] == '\\', name_end(c, q + 1, q + 1) > q + 1, tags_of(c, 0, q) == tags_of(c, 0, p),
        adj_block(adj, c, p, ci).0 == c.subrange(p, q) + adj_block(adj, c, q, ci).0, adj_block(adj, c, p, ci).1 == adj_block(adj, c, q, ci).1,
    decreases c.len() - p
{
    let s = p + 1;
    if c[p] == '\\' && name_end(c, s, s) > s { assert(c.subrange(p, p) + adj_block(adj, c, p, ci).0 =~= adj_block(adj, c, p, ci).0); p }
    else {
        let n = if c[p] == '\\' { if s < c.len() { s + 1 } else { s } } else { p + 1 };
        assert(c.subrange(p, p + 1) =~= seq![c[p]]);
        assert(tags_of(c, 0, n) == tags_of(c, 0, p));
        let q = next_tag(adj, c, n, ci);
        let r = adj_block(adj, c, q, ci).0;
        assert(c.subrange(p, n) + (c.subrange(n, q) + r) =~= c.subrange(p, q) + r);
        q
    }
}
/// behind the last tag of a block nothing changes
proof fn no_tag(adj: TimingAdjustment, c: Seq<char>, p: int, ci: int)
    requires 0 <= p <= c.len(), tags_of(c, 0, p).len() == 0
    ensures adj_block(adj, c, p, ci) == (c.skip(p), ci)
    decreases c.len() - p
{
    if p < c.len() {
        let s = p + 1;
        let e = name_end(c, s, s);
        ends_in(c, s, s, 0);
        if c[p] == '\\' && e > s { ends_in(c, s, e, 0); assert((seq![Tag { name: c.subrange(s, e), args: c.subrange(e, args_end(c, s, e)), pos: 0 + off(c, p) }] + tags_of(c, 0, args_end(c, s, e))).len() > 0); }
        else {
            let n = if c[p] == '\\' { if s < c.len() { s + 1 } else { s } } else { p + 1 };
            no_tag(adj, c, n, ci);
            assert(c.subrange(p, p + 1) =~= seq![c[p]]);
            assert(c.subrange(p, n) + c.skip(n) =~= c.skip(p));
        }
    } else { assert(c.skip(p) =~= Seq::<char>::empty()); }
}
proof fn sub_bytes(c: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= c.len()
    ensures nbytes(c.subrange(i, j)) == off(c, j) - off(c, i)
{ off_skip(c, i, j - i); off_end(c.subrange(i, j)); assert(c.skip(i).take(j - i) =~= c.subrange(i, j)); }
/// where the tag at q stands: its name, its arguments and the number in them, in characters and in bytes
proof fn tag_place(c: Seq<char>, q: int) -> (r: (int, int, int, int))
    requires 0 <= q < c.len(), c[q] == '\\', name_end(c, q + 1, q + 1) > q + 1
    ensures ({
        let (e, a, b, d) = r;
        let s = q + 1; let g = c.subrange(e, a);
        q < e && e <= a && a <= c.len() && e <= b && b <= d && d <= a && e == name_end(c, s, s) && a == args_end(c, s, e) && b == e + blanks(g) && d == b + core_of(g).len()
            && tags_of(c, 0, q) == seq![Tag { name: c.subrange(s, e), args: g, pos: off(c, q) }] + tags_of(c, 0, a)
            && off(c, q) + 1 + nbytes(c.subrange(s, e)) + (nbytes(g) - nbytes(g.skip(blanks(g)))) == off(c, b)
            && off(c, b) + nbytes(core_of(g)) == off(c, d) && off(c, d) <= nbytes(c) && off(c, q) + 1 + nbytes(c.subrange(s, e)) == off(c, e)
            && 0 <= nbytes(g.skip(blanks(g))) <= nbytes(g) && off(c, q) <= off(c, e) <= off(c, b)
            && core_of(g) == c.subrange(b, d)
    })
{
    let s = q + 1; let e = name_end(c, s, s);
    ends_in(c, s, s, 0); ends_in(c, s, e, 0);
    let a = args_end(c, s, e);
    let g = c.subrange(e, a);
    blanks_in(g); let t = g.skip(blanks(g)); trail_in(t);
    let b = e + blanks(g); let d = b + trail(t);
    assert(core_of(g) =~= c.subrange(b, d));
    assert(t =~= c.subrange(b, a));
    off_step(c, q); sub_bytes(c, s, e); sub_bytes(c, e, a); sub_bytes(c, b, a); sub_bytes(c, b, d); off_mono(c, e, b); off_mono(c, b, d); off_mono(c, q, e); off_mono(c, d, a); off_mono(c, e, a);
    (e, a, b, d)
}
impl AdjustKaraokeCommand {
#[verifier::rlimit(60)] #[verifier::spinoff_prover]
//@@ fn crates/ass-editor/commands/karaoke_commands/adjust_impl.rs AdjustKaraokeCommand::adjust_karaoke_tags_with_registry
//@ret r
//@sig-re tags: &\[ass_core::analysis::events::tags::OverrideTag\] => tags: &Vec<OverrideTag>
//@re String::with_capacity\([^;]*\); => snew();
//@re let mut copied = 0; => let mut copied: usize = 0; let mut ix: usize = 0;
//@re for tag in tags \{ => while ix < tags.len() { let tag = &tags[ix]; ix += 1;
//@re tag\.name\(\)\.starts_with\('k'\) => begins_with(tag.name(), 'k')
//@re args\.trim\(\) => trimmed(args)
//@re (?s)let Ok\(current_duration\) = digits\.parse::<u32>\(\) else \{\s*continue;\s*\}; => let num = parsed(digits); if num.is_none() { continue; } let current_duration = num.unwrap();
//@re (?s)\(\(current_duration as f32 \* factor\) as u32\)\.max\(1\) => at_least_one(scale(current_duration, *factor))
//@re current_duration\.saturating_add_signed\(\*offset\)\.max\(1\) => at_least_one(add_signed(current_duration, *offset))
//@re (?s)tag\.name\(\)\.len\(\) \+ \(args\.len\(\) - args\.trim_start\(\)\.len\(\)\) => blen(tag.name()) + (blen(args) - blen(ltrimmed(args)))
//@re result\.push_str\(&original_content\[copied\.\.start\]\) => sadd(&mut result, bslice(original_content, copied, start))
//@re result\.push_str\(&new_duration\.to_string\(\)\) => sadd(&mut result, shown(new_duration).as_str())
//@re result\.push_str\(&original_content\[copied\.\.\]\) => sadd(&mut result, bslice(original_content, copied, blen(original_content)))
//@re digits\.len\(\) => blen(digits)
//@spec
    requires tseq(tags@) == tags_of(original_content@, 0, 0), nbytes(original_content@) < 0x7fff_ffff
    ensures r is Ok, (r->Ok_0@, *final(custom_index) as int) == adj_block(self.adjustment, original_content@, 0, *old(custom_index) as int)
//@start
    let ghost c = original_content@; let ghost adj = self.adjustment; let ghost ci0 = *old(custom_index) as int;
    let ghost mut p: int = 0; let ghost mut cp: int = 0;
    proof { off_zero(c); off_end(c); assert(tseq(tags@).skip(0) =~= tseq(tags@)); assert(c.subrange(0, 0) =~= Seq::<char>::empty()); assert(Seq::<char>::empty() + Seq::<char>::empty() + adj_block(adj, c, 0, ci0).0 =~= adj_block(adj, c, 0, ci0).0); }
//@loop 0
    invariant c == original_content@, nbytes(c) < 0x7fff_ffff, adj == self.adjustment, ix <= tags@.len(), tseq(tags@).skip(ix as int) == tags_of(c, 0, p), 0 <= cp <= p <= c.len(), copied == off(c, cp),
        result@ + c.subrange(cp, p) + adj_block(adj, c, p, *custom_index as int).0 == adj_block(adj, c, 0, ci0).0,
        adj_block(adj, c, p, *custom_index as int).1 == adj_block(adj, c, 0, ci0).1,
    decreases tags@.len() - ix
//@loopstart 0
        let ghost p0 = p; let ghost cp0 = cp; let ghost ci = *custom_index as int; let ghost r0 = result@;
        let ghost q = next_tag(adj, c, p, ci);
        let ghost (e, a, b, d) = tag_place(c, q);
        let ghost g = c.subrange(e, a);
        proof {
            assert(tseq(tags@).skip(ix as int)[0] == tag_view(tags@[ix as int]));
            assert(tseq(tags@).skip(ix as int + 1) =~= tseq(tags@).skip(ix as int).skip(1));
            assert((seq![Tag { name: c.subrange(q + 1, e), args: g, pos: off(c, q) }] + tags_of(c, 0, a)).skip(1) =~= tags_of(c, 0, a));
            assert(r0 + c.subrange(cp, p) + (c.subrange(p, q) + adj_block(adj, c, q, ci).0) =~= r0 + c.subrange(cp, q) + adj_block(adj, c, q, ci).0);
            if !(is_k(c.subrange(q + 1, e)) && num_of(core_of(g)) is Some) {
                let rest = adj_block(adj, c, a, ci).0;
                assert(r0 + c.subrange(cp, q) + (c.subrange(q, a) + rest) =~= r0 + c.subrange(cp, a) + rest);
            }
            p = a;
            off_mono(c, cp, b); off_mono(c, b, d);
            assert(off(c, cp) == copied && off(c, b) == off(c, b));
        }
//@before "sadd(&mut result, bslice(original_content, copied, start))"
                proof { assert(start == off(c, b)); assert(off(c, cp) == copied); }
//@loopend 0
        proof {
            if is_k(c.subrange(q + 1, e)) && num_of(core_of(g)) is Some {
                let (nd, cj) = new_time(adj, num_of(core_of(g))->0, ci);
                let rest = adj_block(adj, c, a, cj).0;
                assert(result@ == r0 + c.subrange(cp0, b) + dec(nd));
                cp = d;
                assert(r0 + c.subrange(cp0, q) + (c.subrange(q, b) + dec(nd) + c.subrange(d, a) + rest) =~= r0 + c.subrange(cp0, b) + dec(nd) + c.subrange(d, a) + rest);
            }
        }
//@before "sadd(&mut result, bslice(original_content, copied, blen(original_content)))"
        proof {
            assert(tseq(tags@).skip(ix as int).len() == 0);
            no_tag(adj, c, p, *custom_index as int);
            assert(off(c, cp) == copied && off(c, c.len() as int) == nbytes(c)); off_mono(c, cp, c.len() as int);
            assert(result@ + c.subrange(cp, p) + c.skip(p) =~= result@ + c.subrange(cp, c.len() as int));
        }
//@@ end
//@@ fn crates/ass-editor/commands/karaoke_commands/adjust_impl.rs AdjustKaraokeCommand::adjust_karaoke_timing
//@ret r
//@re use ass_core::analysis::events::tags::parse_override_block_with_registry; => 
//@re use ass_core::plugin::\{[^;]*; => 
//@re (?s)let mut registry = ExtensionRegistry::new\(\);.*?\}\)\?;\s*\} => let registry = karaoke_registry()?;
//@re-all String::new\(\) => snew()
//@re let mut custom_index = 0; => let mut custom_index: usize = 0;
//@re let mut brace_count = 1; => let mut brace_count: usize = 1;
//@re let mut chars = text\.chars\(\)\.peekable\(\); => let cs: Vec<char> = chars_of(text); let mut at: usize = 0;
//@re while let Some\(ch\) = chars\.next\(\) \{ => while at < cs.len() { let ch = cs[at]; at += 1;
//@re for inner_ch in chars\.by_ref\(\) \{ => while at < cs.len() { let inner_ch = cs[at]; at += 1;
//@re override_content\.push\(inner_ch\) => spush(&mut override_content, inner_ch)
//@re-all result\.push\(([^()]+)\) => spush(&mut result, \1)
//@re result\.push_str\(&processed_content\) => sadd(&mut result, processed_content.as_str())
//@re-all &override_content => override_content.as_str()
//@spec
    requires nbytes(text@) < 0x7fff_ffff
    ensures r is Ok ==> r->Ok_0@ == adj_text(self.adjustment, text@, 0, 0)
//@start
    let ghost c = text@; let ghost adj = self.adjustment;
//@loop 0
    invariant cs@ == c, c == text@, adj == self.adjustment, at <= c.len(), nbytes(c) < 0x7fff_ffff,
        result@ + adj_text(adj, c, at as int, custom_index as int) == adj_text(adj, c, 0, 0),
    decreases c.len() - at
//@loopstart 0
        let ghost i = at as int; let ghost r0 = result@; let ghost ci = custom_index as int;
        proof { close_in(c, i + 1, 1); }
//@loop 1
    invariant_except_break cs@ == c, 0 <= i < at <= c.len(), brace_count >= 1, brace_count <= at - i, close(c, at as int, brace_count as int) == close(c, i + 1, 1),
        !closed, override_content@ =~= c.subrange(i + 1, at as int), c[i] == '{'
    ensures cs@ == c, i < at <= c.len(), closed == (close(c, i + 1, 1) < c.len()), at == (if closed { close(c, i + 1, 1) + 1 } else { close(c, i + 1, 1) }),
        override_content@ =~= c.subrange(i + 1, close(c, i + 1, 1)),
    decreases c.len() - at
//@before "let processed_content"
                proof {
                    let e = close(c, i + 1, 1);
                    assert(tseq(Seq::<OverrideTag>::empty()) =~= Seq::<Tag>::empty());
                    assert(Seq::<Tag>::empty() + tags_of(override_content@, 0, 0) =~= tags_of(override_content@, 0, 0));
                }
//@before "let mut tags"
                proof { let e = close(c, i + 1, 1); sub_bytes(c, i + 1, e); off_mono(c, i + 1, e); off_mono(c, e, c.len() as int); off_end(c); }
//@loopend 0
        proof {
            let n = at as int; let cj = custom_index as int;
            if c[i] == '{' {
                let (w, cj2) = adj_block(adj, override_content_of(c, i), 0, ci);
                let tl: Seq<char> = if close(c, i + 1, 1) < c.len() { seq!['}'] } else { Seq::empty() };
                assert(result@ =~= r0 + (seq!['{'] + w + tl));
                assert(r0 + (seq!['{'] + w + tl + adj_text(adj, c, n, cj)) =~= r0 + (seq!['{'] + w + tl) + adj_text(adj, c, n, cj));
            } else {
                assert(r0 + (seq![c[i]] + adj_text(adj, c, n, cj)) =~= r0.push(c[i]) + adj_text(adj, c, n, cj));
            }
        }
//@before "Ok(result)"
    proof { assert(result@ + Seq::<char>::empty() =~= result@); }
//@@ end
//@@ fn crates/ass-editor/commands/karaoke_commands/adjust_impl.rs AdjustKaraokeCommand::execute
//@ret r
//@re adjusted_text\.len\(\) => slen(adjusted_text.as_str())
//@re-all &(original_text|adjusted_text)\b => \1.as_str()
//@spec
    ensures r is Ok ==> exists|i: int, j: int| #[trigger] spans(old(document).t(), self.range, i, j) && final(document).t() == old(document).t().take(i) + adj_text(self.adjustment, old(document).t().subrange(i, j), 0, 0) + old(document).t().skip(j),
        r is Err ==> final(document).t() == old(document).t(),
//@start
    proof { text_fits(document); }
//@after "document.text_range(self.range)?"
    let ghost t = document.t();
    let ghost (i, j) = choose|i: int, j: int| #[trigger] spans(t, self.range, i, j) && original_text@ == t.subrange(i, j);
    proof { sub_bytes(t, i, j); off_mono(t, i, j); off_mono(t, j, t.len() as int); off_end(t); }
//@after "document.replace(self.range, adjusted_text.as_str())?"
    proof {
        let (k, l) = choose|k: int, l: int| #[trigger] spans(t, self.range, k, l) && document.t() == t.take(k) + adjusted_text@ + t.skip(l);
        spans_one(t, self.range, i, j, k, l);
    }
//@@ end
}
pub open spec fn override_content_of(c: Seq<char>, i: int) -> Seq<char> { c.subrange(i + 1, close(c, i + 1, 1)) }
fn main() {}
}
