use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
verus! {
//@@ include str.inc
//@@ include tags.inc
pub struct CoreError { pub kind: u8 }
impl CoreError { #[verifier::external_body] pub fn parse(s: &str) -> CoreError { CoreError { kind: 0 } } }
/// the registry of extensions: opaque here
pub struct ExtensionRegistry { pub id: u8 }
//@@ struct crates/ass-core/analysis/events/text_analysis/analysis.rs TextAnalysis pubfields
fn umin(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
#[verifier::external_body]
fn spush(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { s.push(c) }
#[verifier::external_body]
fn snew() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
pub uninterp spec fn int_of(s: Seq<char>) -> Option<i32>;
#[verifier::external_body]
fn parse_i32(s: &String) -> (r: Option<i32>) ensures r == int_of(s@) { s.parse().ok() }
#[verifier::external_body]
fn count_chars(s: &String) -> (r: usize) ensures r == s@.len() { s.chars().count() }
pub uninterp spec fn line_total(s: Seq<char>) -> int;
pub uninterp spec fn bidi(s: Seq<char>) -> bool;
pub uninterp spec fn complex(s: Seq<char>) -> bool;

/// contract discharged on the real function in unit c_tags
#[verifier::external_body]
fn parse_override_block<'a>(content: &'a str, start_pos: usize, tags: &mut Vec<OverrideTag<'a>>, diagnostics: &mut Vec<TagDiagnostic<'a>>)
    requires start_pos + nbytes(content@) <= usize::MAX, nbytes(content@) < 0x7fff_ffff
    ensures
        tseq(final(tags)@) == tseq(old(tags)@) + tags_of(content@, start_pos as int, 0),
        nseq(final(diagnostics)@) == nseq(old(diagnostics)@) + notes_of(content@, start_pos as int, 0),
{ unimplemented!() }
#[verifier::external_body]
fn parse_override_block_with_registry<'a>(content: &'a str, start_pos: usize, tags: &mut Vec<OverrideTag<'a>>, diagnostics: &mut Vec<TagDiagnostic<'a>>, registry: Option<&ExtensionRegistry>)
    requires start_pos + nbytes(content@) <= usize::MAX, nbytes(content@) < 0x7fff_ffff
    ensures tseq(final(tags)@) == tseq(old(tags)@) + tags_of(content@, start_pos as int, 0)
{ unimplemented!() }

// ---- specification: an event text, by character index --------------------------------------------------
/// the brace matching the one before i (d of them are open), or the end of the text
pub open spec fn close(c: Seq<char>, i: int, d: int) -> int
    decreases c.len() - i
{
    if i < 0 || i >= c.len() { c.len() as int }
    else if c[i] == '{' { close(c, i + 1, d + 1) }
    else if c[i] == '}' { if d == 1 { i } else { close(c, i + 1, d - 1) } }
    else { close(c, i + 1, d) }
}
/// more than a hundred blocks are open before that
pub open spec fn deep(c: Seq<char>, i: int, d: int) -> bool
    decreases c.len() - i
{
    if i < 0 || i >= c.len() { false }
    else if c[i] == '{' { d + 1 > 100 || deep(c, i + 1, d + 1) }
    else if c[i] == '}' { if d == 1 { false } else { deep(c, i + 1, d - 1) } }
    else { deep(c, i + 1, d) }
}
proof fn close_in(c: Seq<char>, i: int, d: int)
    requires 0 <= i <= c.len()
    ensures i <= close(c, i, d) <= c.len()
    decreases c.len() - i
{ if i < c.len() { close_in(c, i + 1, d); close_in(c, i + 1, d + 1); close_in(c, i + 1, d - 1); } }
pub open spec fn past(c: Seq<char>, e: int) -> int { if e < c.len() { e + 1 } else { e } }
/// end of a number after `\p`
pub open spec fn num_end(c: Seq<char>, i: int) -> int
    decreases c.len() - i
{ if i < 0 || i >= c.len() || !(is_digit(c[i]) || c[i] == '-') { i } else { num_end(c, i + 1) } }
/// drawing mode after the `\p` tags of a block from character i on
pub open spec fn drawing(c: Seq<char>, i: int, m: bool) -> bool
    decreases c.len() - i
{
    if i < 0 || i >= c.len() { m }
    else if c[i] == '\\' && i + 1 < c.len() && c[i + 1] == 'p' {
        let e = num_end(c, i + 2);
        if e <= i || e > c.len() { m } else { drawing(c, e, match int_of(c.subrange(i + 2, e)) { Some(v) => v > 0, None => m }) }
    } else { drawing(c, i + 1, m) }
}
proof fn num_in(c: Seq<char>, i: int)
    requires 0 <= i <= c.len()
    ensures i <= num_end(c, i) <= c.len()
    decreases c.len() - i
{ if i < c.len() { num_in(c, i + 1); } }
/// what an escape shows
pub open spec fn escape(x: char) -> Seq<char> { if x == 'n' || x == 'N' { seq!['\n'] } else if x == 'h' { seq!['\u{00A0}'] } else { seq!['\\', x] } }
/// the visible text from character i on
pub open spec fn visible(c: Seq<char>, i: int, m: bool) -> Seq<char>
    decreases c.len() - i
{
    if i < 0 || i >= c.len() { Seq::empty() }
    else if c[i] == '{' {
        let e = close(c, i + 1, 1); let n = past(c, e);
        if n <= i || n > c.len() { Seq::empty() } else { visible(c, n, if e > i + 1 { drawing(c.subrange(i + 1, e), 0, m) } else { m }) }
    } else if c[i] == '\\' && i + 1 < c.len() { (if m { Seq::empty() } else { escape(c[i + 1]) }) + visible(c, i + 2, m) }
    else { (if m { Seq::empty() } else { seq![c[i]] }) + visible(c, i + 1, m) }
}
pub open spec fn block_tags(c: Seq<char>, i: int) -> Seq<Tag>
    decreases c.len() - i
{
    if i < 0 || i >= c.len() { Seq::empty() }
    else if c[i] == '{' {
        let e = close(c, i + 1, 1); let n = past(c, e);
        if n <= i || n > c.len() { Seq::empty() } else { (if e > i + 1 { tags_of(c.subrange(i + 1, e), off(c, i + 1), 0) } else { Seq::empty() }) + block_tags(c, n) }
    } else if c[i] == '\\' && i + 1 < c.len() { block_tags(c, i + 2) }
    else { block_tags(c, i + 1) }
}
pub open spec fn block_notes(c: Seq<char>, i: int) -> Seq<Note>
    decreases c.len() - i
{
    if i < 0 || i >= c.len() { Seq::empty() }
    else if c[i] == '{' {
        let e = close(c, i + 1, 1); let n = past(c, e);
        if n <= i || n > c.len() { Seq::empty() } else {
            (if e > i + 1 { notes_of(c.subrange(i + 1, e), off(c, i + 1), 0) }
             else { seq![Note { span: c.subrange(i + 1, n), at: off(c, i + 1), kind: DiagnosticKind::EmptyOverride }] }) + block_notes(c, n) }
    } else if c[i] == '\\' && i + 1 < c.len() { block_notes(c, i + 2) }
    else { block_notes(c, i + 1) }
}
/// some block is nested deeper than a hundred
pub open spec fn too_deep(c: Seq<char>, i: int) -> bool
    decreases c.len() - i
{
    if i < 0 || i >= c.len() { false }
    else if c[i] == '{' {
        let e = close(c, i + 1, 1); let n = past(c, e);
        if n <= i || n > c.len() { false } else { deep(c, i + 1, 1) || too_deep(c, n) }
    } else if c[i] == '\\' && i + 1 < c.len() { too_deep(c, i + 2) }
    else { too_deep(c, i + 1) }
}
proof fn sub_bytes(c: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= c.len()
    ensures nbytes(c.subrange(i, j)) == off(c, j) - off(c, i)
{
    off_skip(c, i, j - i); off_end(c.subrange(i, j)); assert(c.skip(i).take(j - i) =~= c.subrange(i, j));
}
pub open spec fn dseq(a: Seq<char>, b: Seq<char>) -> Seq<char> { a + b }
proof fn glue1(a: Seq<char>, x: char, b: Seq<char>) ensures a.push(x) + b == a + (seq![x] + b) { assert(a.push(x) + b =~= a + (seq![x] + b)); }
proof fn glue2(a: Seq<char>, x: char, y: char, b: Seq<char>) ensures a.push(x).push(y) + b == a + (seq![x, y] + b) { assert(a.push(x).push(y) + b =~= a + (seq![x, y] + b)); }
proof fn assoc<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>) ensures (a + b) + c == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }

//@@ fn crates/ass-core/utils/errors/resource.rs check_depth_limit
//@ret r
//@re (?s)return Err\(resource_limit_exceeded\(.*?\)\); => return Err(CoreError { kind: 1 });
//@spec
    ensures r is Err == (current_depth > max_depth)
//@@ end
impl<'a> TextAnalysis<'a> {
#[verifier::external_body]
fn count_lines(text: &String) -> (r: usize) ensures r == line_total(text@) { unimplemented!() }
#[verifier::external_body]
fn detect_bidi_text(text: &String) -> (r: bool) ensures r == bidi(text@) { unimplemented!() }
#[verifier::external_body]
fn detect_complex_unicode(text: &String) -> (r: bool) ensures r == complex(text@) { unimplemented!() }
//@@ fn crates/ass-core/analysis/events/text_analysis/helpers.rs TextAnalysis::update_drawing_mode
//@ret r
//@re tag_content\.chars\(\)\.collect\(\) => chars_of(tag_content)
//@re String::new\(\) => snew()
//@re (chars\[pos\])\.is_ascii_digit\(\) => ascii_digit(\1)
//@re number_str\.push\( => spush(&mut number_str, 
//@re if let Ok\(p_value\) = number_str\.parse::<i32>\(\) => if let Some(p_value) = parse_i32(&number_str)
//@re let mut pos = 0; => let mut pos: usize = 0;
//@spec
    requires tag_content@.len() < usize::MAX
    ensures r == drawing(tag_content@, 0, current_mode)
//@loop 0
    invariant chars@ == tag_content@, pos <= chars@.len() < usize::MAX, drawing(tag_content@, pos as int, drawing_mode) == drawing(tag_content@, 0, current_mode)
    decreases chars@.len() - pos
//@before "let mut number_str"
    let ghost q = pos as int;
    proof { num_in(tag_content@, q); }
//@loop 1
    invariant chars@ == tag_content@, 2 <= q <= pos <= chars@.len() < usize::MAX, num_end(tag_content@, pos as int) == num_end(tag_content@, q), number_str@ =~= tag_content@.subrange(q, pos as int)
    decreases chars@.len() - pos
//@@ end
//@@ fn crates/ass-core/analysis/events/text_analysis/parser.rs TextAnalysis::analyze_impl_with_registry
//@ret r
//@sig-re Result<Self> => Result<Self, CoreError>
//@re const MAX_BRACE_DEPTH: usize = (\w+); => let max_brace_depth: usize = \1;
//@re MAX_BRACE_DEPTH => max_brace_depth
//@re let mut plain_text = String::new\(\); => let mut plain_text = snew();
//@re let mut position = 0; => let mut position: usize = 0;
//@re let mut brace_count = 1; => let mut brace_count: usize = 1;
//@re let mut chars = text\.chars\(\); => let cs: Vec<char> = chars_of(text); let mut ci: usize = 0;
//@re while let Some\(ch\) = chars\.next\(\) \{ => while ci < cs.len() { let ch = cs[ci]; ci += 1;
//@re for inner_ch in chars\.by_ref\(\) \{ => while ci < cs.len() { let inner_ch = cs[ci]; ci += 1;
//@re if let Some\(next_ch\) = chars\.next\(\) \{ => if ci < cs.len() { let next_ch = cs[ci]; ci += 1;
//@re-all plain_text\.push\( => spush(&mut plain_text, 
//@re &text\[tag_start\.\.text\.len\(\)\.min\(tag_start \+ 1\)\] => bslice(text, tag_start, umin(blen(text), tag_start + 1))
//@re &text\[(\w+)\.\.(\w+)\] => bslice(text, \1, \2)
//@re-all text\.len\(\) => blen(text)
//@re plain_text\.chars\(\)\.count\(\) => count_chars(&plain_text)
//@spec
    requires nbytes(text@) < 0x7fff_ffff
    ensures match r {
        Ok(t) => !too_deep(text@, 0)
            && t.plain_text@ == visible(text@, 0, false) && t.char_count == t.plain_text@.len() && t.line_count == line_total(t.plain_text@)
            && t.has_bidi_text == bidi(t.plain_text@) && t.has_complex_unicode == complex(t.plain_text@)
            && tseq(t.override_tags@) == block_tags(text@, 0)
            && (registry is None ==> nseq(t.parse_diagnostics@) == block_notes(text@, 0)),
        Err(_) => too_deep(text@, 0),
    }
//@before "let cs: Vec<char>"
    let ghost c = text@;
    proof { off_zero(c); off_mono(c, 0, c.len() as int); off_end(c); assert(tseq(override_tags@) + block_tags(c, 0) =~= block_tags(c, 0)); assert(nseq(parse_diagnostics@) + block_notes(c, 0) =~= block_notes(c, 0)); assert(plain_text@ + visible(c, 0, false) =~= visible(c, 0, false)); }
//@loop 0
    invariant c == text@, cs@ == c, ci <= c.len() <= nbytes(c) < 0x7fff_ffff, position == off(c, ci as int), max_brace_depth == 100,
        plain_text@ + visible(c, ci as int, drawing_mode) == visible(c, 0, false),
        tseq(override_tags@) + block_tags(c, ci as int) == block_tags(c, 0),
        registry is None ==> nseq(parse_diagnostics@) + block_notes(c, ci as int) == block_notes(c, 0),
        too_deep(c, ci as int) == too_deep(c, 0),
    decreases c.len() - ci
//@before "if ch == '{'"
    let ghost p = ci - 1; let ghost m0 = drawing_mode; let ghost v0 = plain_text@; let ghost t0 = tseq(override_tags@); let ghost n0 = nseq(parse_diagnostics@); let ghost e = close(c, p + 1, 1);
    proof { off_step(c, p); off_mono(c, p + 1, p + 1); off_mono(c, p, p); close_in(c, p + 1, 1); }
//@loop 1
    invariant_except_break
        c == text@, cs@ == c, 0 <= p < ci <= c.len() <= nbytes(c) < 0x7fff_ffff, position + 1 == off(c, ci as int), max_brace_depth == 100, 1 <= brace_count <= 100,
        close(c, ci as int, brace_count as int) == close(c, p + 1, 1), deep(c, ci as int, brace_count as int) == deep(c, p + 1, 1), too_deep(c, p) == too_deep(c, 0), c[p] == '{', p + 1 <= close(c, p + 1, 1) <= c.len(), past(c, close(c, p + 1, 1)) > p,
    ensures
        c == text@, cs@ == c, 0 <= p < ci <= c.len(), position + 1 == off(c, ci as int), !deep(c, p + 1, 1),
        ci == past(c, close(c, p + 1, 1)), brace_count == 0 <==> close(c, p + 1, 1) < c.len(), brace_count > 0 ==> ci == c.len(), brace_count == 0 ==> c[ci - 1] == '}',
        p + 1 <= close(c, p + 1, 1) <= c.len(),
    decreases c.len() - ci
//@before "position += inner_ch"
    proof { off_step(c, ci - 1); off_mono(c, ci as int, ci as int); }
//@before "let tag_end"
    proof { off_end(c); off_mono(c, p + 1, e); off_mono(c, e, ci as int); if brace_count == 0 { off_step(c, e); } if e > p + 1 { off_mono(c, p + 1, e); } }
//@before "let tag_content"
    proof { assert(e > p + 1); assert(off(c, p + 1) == tag_start && off(c, e) == tag_end); sub_bytes(c, p + 1, e); let content = c.subrange(p + 1, e); off_zero(content); off_mono(content, 0, content.len() as int); off_end(content); }
//@before "parse_diagnostics.push"
    let ghost pd = parse_diagnostics@;
    proof { if e > p + 1 { off_mono(c, p + 2, e); off_step(c, p + 1); } assert(e == p + 1); assert(off(c, p + 1) == tag_start && off(c, ci as int) == (if ci > p + 1 { tag_start + 1 } else { tag_start as int })); }
//@before "position += next_ch"
    proof { off_step(c, ci - 1); off_mono(c, ci as int, ci as int); }
//@loopend 0
    proof {
        if c[p] == '{' {
            if e > p + 1 {
                assoc(t0, tags_of(c.subrange(p + 1, e), off(c, p + 1), 0), block_tags(c, ci as int));
                assoc(n0, notes_of(c.subrange(p + 1, e), off(c, p + 1), 0), block_notes(c, ci as int));
            } else {
                let d = parse_diagnostics@[parse_diagnostics@.len() - 1];
                let before = parse_diagnostics@.drop_last();
                assert(parse_diagnostics@ =~= before.push(d)); notes_push(before, d); glue(n0, note_view(d), block_notes(c, ci as int));
                assert(d.span@ == c.subrange(p + 1, ci as int));
                assert(Seq::<Tag>::empty() + block_tags(c, ci as int) =~= block_tags(c, ci as int));
            }
        } else if c[p] == '\\' && p + 1 < c.len() {
            let x = c[p + 1]; let rest = visible(c, p + 2, m0);
            if !m0 { glue1(v0, '\n', rest); glue1(v0, '\u{00A0}', rest); glue2(v0, '\\', x, rest); }
            assert(Seq::<char>::empty() + rest =~= rest);
        } else {
            let rest = visible(c, p + 1, m0);
            if !m0 { glue1(v0, c[p], rest); }
            assert(Seq::<char>::empty() + rest =~= rest);
        }
    }
//@before "let char_count"
    proof { assert(plain_text@ + Seq::<char>::empty() =~= plain_text@); assert(tseq(override_tags@) + Seq::<Tag>::empty() =~= tseq(override_tags@)); assert(nseq(parse_diagnostics@) + Seq::<Note>::empty() =~= nseq(parse_diagnostics@)); }
//@@ end
}

// ---- text with its line breaks -------------------------------------------------------------------------
//@@ struct crates/ass-core/analysis/events/line_breaks.rs LineBreakType derive(Clone, Copy)
//@@ struct crates/ass-core/analysis/events/line_breaks.rs LineBreakInfo
//@@ struct crates/ass-core/analysis/events/line_breaks.rs TextWithLineBreaks
/// the plain text with escapes replaced (drawings show no breaks)
pub open spec fn unescaped(c: Seq<char>, i: int, m: bool) -> Seq<char>
    decreases c.len() - i
{
    if i < 0 || i >= c.len() { Seq::empty() }
    else if c[i] == '\\' && i + 1 < c.len() {
        let x = c[i + 1];
        (if m && (x == 'n' || x == 'N' || x == 'h') { Seq::empty() } else { escape(x) }) + unescaped(c, i + 2, m)
    } else { seq![c[i]] + unescaped(c, i + 1, m) }
}
pub ghost struct Break { pub at: int, pub kind: LineBreakType }
/// breaks (hard spaces) of the text from character i on, `at` bytes of plain text being out already
pub open spec fn breaks(c: Seq<char>, i: int, at: int, m: bool) -> Seq<Break>
    decreases c.len() - i
{
    if i < 0 || i >= c.len() { Seq::empty() }
    else if c[i] == '\\' && i + 1 < c.len() {
        let x = c[i + 1];
        if m && (x == 'n' || x == 'N' || x == 'h') { breaks(c, i + 2, at, m) }
        else if x == 'n' || x == 'N' { seq![Break { at, kind: if x == 'N' { LineBreakType::Hard } else { LineBreakType::Soft } }] + breaks(c, i + 2, at + nbytes(escape(x)), m) }
        else { breaks(c, i + 2, at + nbytes(escape(x)), m) }
    } else { breaks(c, i + 1, at + nbytes(seq![c[i]]), m) }
}
pub open spec fn spaces(c: Seq<char>, i: int, at: int, m: bool) -> Seq<usize>
    decreases c.len() - i
{
    if i < 0 || i >= c.len() { Seq::empty() }
    else if c[i] == '\\' && i + 1 < c.len() {
        let x = c[i + 1];
        if m && (x == 'n' || x == 'N' || x == 'h') { spaces(c, i + 2, at, m) }
        else if x == 'h' { seq![at as usize] + spaces(c, i + 2, at + nbytes(escape(x)), m) }
        else { spaces(c, i + 2, at + nbytes(escape(x)), m) }
    } else { spaces(c, i + 1, at + nbytes(seq![c[i]]), m) }
}
pub open spec fn break_view(b: LineBreakInfo) -> Break { Break { at: b.position as int, kind: b.break_type } }
pub open spec fn bseq(v: Seq<LineBreakInfo>) -> Seq<Break> { v.map_values(|b: LineBreakInfo| break_view(b)) }
proof fn bytes_push(a: Seq<char>, b: Seq<char>) ensures nbytes(a + b) == nbytes(a) + nbytes(b) { encode_utf8_concat(a, b); }
impl TextWithLineBreaks {
//@@ fn crates/ass-core/analysis/events/line_breaks.rs TextWithLineBreaks::from_text
//@ret r
//@re let mut plain_text = String::new\(\); => let mut plain_text = snew();
//@re let mut line_breaks = Vec::new\(\); => let mut line_breaks: Vec<LineBreakInfo> = Vec::new();
//@re let mut nbsp_positions = Vec::new\(\); => let mut nbsp_positions: Vec<usize> = Vec::new();
//@re let mut chars = text\.chars\(\)\.peekable\(\); => let cs: Vec<char> = chars_of(text); let mut ci: usize = 0;
//@re while let Some\(ch\) = chars\.next\(\) \{ => while ci < cs.len() { let ch = cs[ci]; ci += 1;
//@re if let Some\(&next_ch\) = chars\.peek\(\) \{ => if ci < cs.len() { let next_ch = cs[ci];
//@re-all chars\.next\(\); => ci += 1;
//@re-all plain_text\.push\( => spush(&mut plain_text, 
//@re-all plain_text\.len\(\) => blen(plain_text.as_str())
//@spec
    ensures r.text@ == unescaped(text@, 0, drawing_mode), bseq(r.line_breaks@) == breaks(text@, 0, 0, drawing_mode), r.nbsp_positions@ == spaces(text@, 0, 0, drawing_mode)
//@before "let cs: Vec"
    let ghost c = text@; let ghost m = drawing_mode;
    proof { off_zero(c); off_zero(plain_text@); off_end(plain_text@); assert(plain_text@ + unescaped(c, 0, m) =~= unescaped(c, 0, m)); assert(bseq(line_breaks@) + breaks(c, 0, 0, m) =~= breaks(c, 0, 0, m)); assert(nbsp_positions@ + spaces(c, 0, 0, m) =~= spaces(c, 0, 0, m)); }
//@loop 0
    invariant c == text@, m == drawing_mode, cs@ == c, ci <= c.len(),
        plain_text@ + unescaped(c, ci as int, m) == unescaped(c, 0, m),
        bseq(line_breaks@) + breaks(c, ci as int, nbytes(plain_text@), m) == breaks(c, 0, 0, m),
        nbsp_positions@ + spaces(c, ci as int, nbytes(plain_text@), m) == spaces(c, 0, 0, m),
    decreases c.len() - ci
//@before "if ch == '\\\\'"
    let ghost p = ci - 1; let ghost t0 = plain_text@; let ghost b0 = line_breaks@; let ghost s0 = nbsp_positions@;
//@loopend 0
    proof {
        let rest = unescaped(c, ci as int, m); let at = nbytes(plain_text@);
        if c[p] == '\\' && p + 1 < c.len() {
            let x = c[p + 1];
            glue1(t0, '\n', rest); glue1(t0, '\u{00A0}', rest); glue2(t0, '\\', x, rest);
            assert(Seq::<char>::empty() + rest =~= rest);
            bytes_push(t0, escape(x));
            assert(t0.push('\n') =~= t0 + seq!['\n']); assert(t0.push('\u{00A0}') =~= t0 + seq!['\u{00A0}']); assert(t0.push('\\').push(x) =~= t0 + seq!['\\', x]);
            if line_breaks@.len() > b0.len() {
                let b = line_breaks@[b0.len() as int]; assert(line_breaks@ =~= b0.push(b)); assert(bseq(line_breaks@) =~= bseq(b0).push(break_view(b)));
                glue(bseq(b0), break_view(b), breaks(c, ci as int, at, m));
            }
            if nbsp_positions@.len() > s0.len() { let b = nbsp_positions@[s0.len() as int]; assert(nbsp_positions@ =~= s0.push(b)); glue(s0, b, spaces(c, ci as int, at, m)); }
        } else { glue1(t0, c[p], rest); bytes_push(t0, seq![c[p]]); assert(t0.push(c[p]) =~= t0 + seq![c[p]]); }
    }
//@before "Self {"
    proof { assert(plain_text@ + Seq::<char>::empty() =~= plain_text@); assert(bseq(line_breaks@) + Seq::<Break>::empty() =~= bseq(line_breaks@)); assert(nbsp_positions@ + Seq::<usize>::empty() =~= nbsp_positions@); }
//@@ end
}
fn main() {}
}
