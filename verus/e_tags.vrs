use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
verus! {
//@@ include str.inc
//@@ include tags.inc
//@@ include doc.inc
impl<'a> OverrideTag<'a> {
    pub fn name(&self) -> (r: &'a str) ensures r == self.name { self.name }
    pub fn args(&self) -> (r: &'a str) ensures r == self.args { self.args }
    pub fn position(&self) -> (r: usize) ensures r == self.position { self.position }
}
/// contract discharged on parse_override_block in unit c_tags
#[verifier::external_body]
fn parse_override_block<'a>(content: &'a str, start_pos: usize, tags: &mut Vec<OverrideTag<'a>>, diagnostics: &mut Vec<TagDiagnostic<'a>>)
    requires start_pos + nbytes(content@) <= usize::MAX, nbytes(content@) < 0x7fff_ffff
    ensures tseq(final(tags)@) == tseq(old(tags)@) + tags_of(content@, start_pos as int, 0)
{ unimplemented!() }
type Bytes = core::ops::Range<usize>;
/// strip_prefix('\\').unwrap_or(..)
#[verifier::external_body]
fn bare<'a>(s: &'a str) -> (r: &'a str) ensures r@ == (if s@.len() > 0 && s@[0] == '\\' { s@.skip(1) } else { s@ }) { s.strip_prefix('\\').unwrap_or(s) }
#[verifier::external_body]
fn ends_with_char(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@.last() == c) { s.ends_with(c) }
/// format!("{{{tag}}}")
#[verifier::external_body]
fn braced(s: &str) -> (r: String) ensures r@ == seq!['{'] + s@ + seq!['}'] { format!("{{{s}}}") }
//@@ struct crates/ass-editor/commands/tag_commands/insert.rs InsertTagCommand
//@@ struct crates/ass-editor/commands/tag_commands/remove.rs RemoveTagCommand
//@@ struct crates/ass-editor/commands/tag_commands/replace.rs ReplaceTagCommand

// ---- specification: the override blocks of a text, and the tags in them, by character index ----------------
pub ghost struct Blk { pub a: int, pub b: int, pub closed: bool }
/// blocks from character i on, d braces being open, the outermost before character st
pub open spec fn blks(c: Seq<char>, i: int, d: int, st: int) -> Seq<Blk>
    decreases c.len() - i
{
    if i < 0 || i >= c.len() { if d > 0 { seq![Blk { a: st, b: c.len() as int, closed: false }] } else { Seq::empty() } }
    else if c[i] == '{' { blks(c, i + 1, d + 1, if d == 0 { i + 1 } else { st }) }
    else if c[i] == '}' && d > 0 { if d == 1 { seq![Blk { a: st, b: i, closed: true }] + blks(c, i + 1, 0, st) } else { blks(c, i + 1, d - 1, st) } }
    else { blks(c, i + 1, d, st) }
}
pub open spec fn at_block(c: Seq<char>, x: (Bytes, bool), b: Blk) -> bool { off(c, b.a) == x.0.start && off(c, b.b) == x.0.end && x.1 == b.closed }
pub open spec fn at_blocks(c: Seq<char>, v: Seq<(Bytes, bool)>, bl: Seq<Blk>) -> bool { v.len() == bl.len() && forall|k: int| 0 <= k < v.len() ==> at_block(c, #[trigger] v[k], bl[k]) }
/// blocks follow one another from character `from` on, an unclosed one only as the last
pub open spec fn in_order(c: Seq<char>, bl: Seq<Blk>, from: int) -> bool
    decreases bl.len()
{
    bl.len() == 0 || ({ let b = bl[0]; from <= b.a - 1 && 1 <= b.a <= b.b <= c.len() && c[b.a - 1] == '{' && (b.closed ==> b.b < c.len() && c[b.b] == '}' && in_order(c, bl.skip(1), b.b + 1)) && (!b.closed ==> b.b == c.len() && bl.len() == 1) })
}
proof fn blocks_in_order(c: Seq<char>, i: int, d: int, st: int, from: int)
    requires 0 <= from <= i <= c.len(), d >= 0, d > 0 ==> from < st <= i && c[st - 1] == '{'
    ensures in_order(c, blks(c, i, d, st), from)
    decreases c.len() - i
{
    if i < c.len() {
        if c[i] == '{' { blocks_in_order(c, i + 1, d + 1, if d == 0 { i + 1 } else { st }, from); }
        else if c[i] == '}' && d > 0 {
            if d == 1 { blocks_in_order(c, i + 1, 0, st, i + 1); let r = blks(c, i + 1, 0, st); assert((seq![Blk { a: st, b: i, closed: true }] + r).skip(1) =~= r); }
            else { blocks_in_order(c, i + 1, d - 1, st, from); }
        } else { blocks_in_order(c, i + 1, d, st, from); }
    }
}
/// where the tags of a block stand, from character p on
pub open spec fn spots(c: Seq<char>, p: int) -> Seq<(int, int)>
    decreases c.len() - p
{
    if p < 0 || p >= c.len() { Seq::empty() }
    else if c[p] == '\\' {
        let s = p + 1; let e = name_end(c, s, s);
        if e > s { let a = args_end(c, s, e); if a <= p || a > c.len() { Seq::empty() } else { seq![(p, a)] + spots(c, a) } }
        else { spots(c, if s < c.len() { s + 1 } else { s }) }
    } else { spots(c, p + 1) }
}
pub open spec fn spot_ok(c: Seq<char>, t: Tag, x: (int, int), p: int) -> bool {
    p <= x.0 && x.0 + 1 <= x.1 && x.1 <= c.len() && t.pos == off(c, x.0) && off(c, x.0) + 1 + nbytes(t.name) + nbytes(t.args) == off(c, x.1) && 0 <= nbytes(t.name) && 0 <= nbytes(t.args)
        && c.subrange(x.0, x.1) == seq!['\\'] + t.name + t.args
}
proof fn spots_ok(c: Seq<char>, p: int)
    requires 0 <= p <= c.len()
    ensures spots(c, p).len() == tags_of(c, 0, p).len(),
        forall|k: int| 0 <= k < spots(c, p).len() ==> spot_ok(c, tags_of(c, 0, p)[k], #[trigger] spots(c, p)[k], if k == 0 { p } else { spots(c, p)[k - 1].1 }),
    decreases c.len() - p
{
    if p < c.len() {
        let s = p + 1; let e = name_end(c, s, s);
        ends_in(c, s, s, 0);
        if c[p] == '\\' && e > s {
            ends_in(c, s, e, 0);
            let a = args_end(c, s, e);
            spots_ok(c, a);
            off_step(c, p); sub_bytes(c, s, e); sub_bytes(c, e, a); off_mono(c, s, e); off_mono(c, e, a);
            assert(c.subrange(p, a) =~= seq!['\\'] + c.subrange(s, e) + c.subrange(e, a));
            assert(spots(c, p) =~= seq![(p, a)] + spots(c, a));
            assert forall|k: int| 0 <= k < spots(c, p).len() implies spot_ok(c, tags_of(c, 0, p)[k], #[trigger] spots(c, p)[k], if k == 0 { p } else { spots(c, p)[k - 1].1 }) by {
                if k > 0 { assert(spots(c, p)[k] == spots(c, a)[k - 1]); assert(tags_of(c, 0, p)[k] == tags_of(c, 0, a)[k - 1]); if k > 1 { assert(spots(c, p)[k - 1] == spots(c, a)[k - 2]); } }
            }
        } else {
            let n = if c[p] == '\\' { if s < c.len() { s + 1 } else { s } } else { p + 1 };
            spots_ok(c, n);
        }
    }
}
pub open spec fn at_spot(c: Seq<char>, x: Bytes, y: (int, int)) -> bool { off(c, y.0) == x.start && off(c, y.1) == x.end }
pub open spec fn tags_and_spots(c: Seq<char>, v: Seq<(OverrideTag, Bytes)>) -> bool {
    v.len() == spots(c, 0).len() && forall|k: int| 0 <= k < v.len() ==> tag_view((#[trigger] v[k]).0) == tags_of(c, 0, 0)[k] && at_spot(c, v[k].1, spots(c, 0)[k])
}

//@@ fn crates/ass-editor/commands/tag_commands/blocks.rs override_blocks
//@ret r
//@sig-re (?s)Vec<\(Range<usize>, bool\)> => Vec<(Bytes, bool)>
//@re let mut block_start = 0; => let mut block_start: usize = 0;
//@re let mut depth = 0; => let mut depth: usize = 0; let cs: Vec<char> = chars_of(text); let mut ci: usize = 0; let mut pos: usize = 0;
//@re for \(pos, ch\) in text\.char_indices\(\) \{ => while ci < cs.len() { let ch = cs[ci];
//@re text\.len\(\) => blen(text)
//@spec
    requires nbytes(text@) < 0x7fff_ffff
    ensures at_blocks(text@, r@, blks(text@, 0, 0, 0)), in_order(text@, blks(text@, 0, 0, 0), 0)
//@start
    let ghost c = text@; let ghost mut st: int = 0; let ghost mut done: Seq<Blk> = Seq::empty();
    proof { off_zero(c); off_end(c); off_mono(c, 0, c.len() as int); blocks_in_order(c, 0, 0, 0, 0); assert(Seq::<Blk>::empty() + blks(c, 0, 0, 0) =~= blks(c, 0, 0, 0)); }
//@loop 0
    invariant cs@ == c, c == text@, ci <= c.len(), nbytes(c) < 0x7fff_ffff, c.len() <= nbytes(c), pos == off(c, ci as int), depth <= ci, 0 <= st <= ci, block_start == off(c, st),
        at_blocks(c, blocks@, done), done + blks(c, ci as int, depth as int, st) == blks(c, 0, 0, 0),
    decreases c.len() - ci
//@loopstart 0
        let ghost i = ci as int; let ghost d0 = done; let ghost b0 = blocks@;
        proof { off_step(c, i); off_mono(c, i + 1, c.len() as int); off_end(c); }
//@loopend 0
        proof {
            if c[i] == '{' { if depth == 1 { st = i + 1; } }
            else if c[i] == '}' && blocks@.len() > b0.len() {
                done = d0.push(Blk { a: st, b: i, closed: true });
                assert(done + blks(c, i + 1, 0, st) =~= d0 + (seq![Blk { a: st, b: i, closed: true }] + blks(c, i + 1, 0, st)));
            }
        }
        pos += ch.len_utf8(); ci += 1;
//@@ end

/// the blocks by index
#[verifier::opaque]
pub open spec fn ordered(c: Seq<char>, bl: Seq<Blk>, from: int) -> bool {
    forall|k: int| 0 <= k < bl.len() ==> ({ let b = #[trigger] bl[k]; (if k == 0 { from } else { bl[k - 1].b + 1 }) <= b.a - 1 && 1 <= b.a <= b.b <= c.len() && (b.closed ==> b.b < c.len()) && (k > 0 ==> bl[k - 1].closed) })
}
proof fn by_index(c: Seq<char>, bl: Seq<Blk>, from: int)
    requires in_order(c, bl, from)
    ensures ordered(c, bl, from)
    decreases bl.len()
{
    reveal(ordered);
    if bl.len() > 0 && bl[0].closed {
        let r = bl.skip(1); by_index(c, r, bl[0].b + 1);
        assert forall|k: int| 0 <= k < bl.len() implies ({ let b = #[trigger] bl[k]; (if k == 0 { from } else { bl[k - 1].b + 1 }) <= b.a - 1 && 1 <= b.a <= b.b <= c.len() && (b.closed ==> b.b < c.len()) && (k > 0 ==> bl[k - 1].closed) }) by {
            if k > 0 { assert(r[k - 1] == bl[k]); if k > 1 { assert(r[k - 2] == bl[k - 1]); } }
        }
    }
}
/// one of them
pub open spec fn one_at(c: Seq<char>, bl: Seq<Blk>, k: int) -> bool {
    let b = bl[k]; (if k == 0 { 0 } else { bl[k - 1].b + 1 }) <= b.a - 1 && 1 <= b.a <= b.b <= c.len() && (b.closed ==> b.b < c.len()) && (k > 0 ==> bl[k - 1].closed && 0 <= bl[k - 1].a <= bl[k - 1].b) && (k + 1 < bl.len() ==> b.closed)
}
proof fn block_at_index(c: Seq<char>, bl: Seq<Blk>, k: int)
    requires ordered(c, bl, 0), 0 <= k < bl.len()
    ensures one_at(c, bl, k)
{ reveal(ordered); let b = bl[k]; if k > 0 { let a = bl[k - 1]; } if k + 1 < bl.len() { let z = bl[k + 1]; } }
/// a copy of a value that holds borrowed strings only
#[verifier::external_body]
fn dup<'a>(t: &OverrideTag<'a>) -> (r: OverrideTag<'a>) ensures r == *t { unimplemented!() }
proof fn spot_at(c: Seq<char>, k: int)
    requires 0 <= k < spots(c, 0).len()
    ensures spots(c, 0).len() == tags_of(c, 0, 0).len(), spot_ok(c, tags_of(c, 0, 0)[k], spots(c, 0)[k], if k == 0 { 0 } else { spots(c, 0)[k - 1].1 }),
        0 <= (if k == 0 { 0 } else { spots(c, 0)[k - 1].1 }), 0 <= spots(c, 0)[k].0 < spots(c, 0)[k].1 <= c.len()
    decreases k
{ spots_ok(c, 0); let y = spots(c, 0)[k]; if k > 0 { spot_at(c, k - 1); } }
//@@ fn crates/ass-editor/commands/tag_commands/blocks.rs block_tags
//@ret r
//@sig-re Range<usize> => Bytes
//@re let mut tags = Vec::new\(\); => let mut tags: Vec<OverrideTag> = Vec::new();
//@re let mut diagnostics = Vec::new\(\); => let mut diagnostics: Vec<TagDiagnostic> = Vec::new();
//@re (?s)tags\.into_iter\(\)\s*\.map\(\|tag\| \{ => let mut out: Vec<(OverrideTag, Bytes)> = Vec::new(); let mut ix: usize = 0; while ix < tags.len() { let tag = dup(&tags[ix]); ix += 1;
//@re tag\.name\(\)\.len\(\) => blen(tag.name())
//@re tag\.args\(\)\.len\(\) => blen(tag.args())
//@re (?s)\((\w+), (\w+\.\.\w+)\)\s*\}\)\s*\.collect\(\) => out.push((\1, \2)); } out
//@spec
    requires nbytes(content@) < 0x7fff_ffff
    ensures tags_and_spots(content@, r@)
//@start
    let ghost c = content@;
    proof { spots_ok(c, 0); }
//@before "let mut out"
    proof { assert(tseq(tags@) =~= tags_of(c, 0, 0)); }
//@loop 0
    invariant c == content@, nbytes(c) < 0x7fff_ffff, ix <= tags.len(), out.len() == ix, tseq(tags@) == tags_of(c, 0, 0), tags.len() == spots(c, 0).len(),
        forall|k: int| 0 <= k < ix ==> tag_view((#[trigger] out@[k]).0) == tags_of(c, 0, 0)[k] && at_spot(c, out@[k].1, spots(c, 0)[k]),
    decreases tags.len() - ix
//@loopstart 0
        let ghost k = ix as int;
        proof { assert(tag_view(tags@[k]) == tseq(tags@)[k]); let y = spots(c, 0)[k]; spot_at(c, k); off_mono(c, y.1, c.len() as int); off_mono(c, y.0, y.1); }
//@@ end

// ---- removing ------------------------------------------------------------------------------------------
pub open spec fn bare_of(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s[0] == '\\' { s.skip(1) } else { s } }
/// a block without those of its first n tags whose name begins with the pattern, up to a character: text and character
pub open spec fn cut(c: Seq<char>, pat: Seq<char>, n: int) -> (Seq<char>, int)
    decreases n
{
    if n <= 0 { (Seq::empty(), 0) } else {
        let (g, l) = cut(c, pat, n - 1);
        if prefixed(tags_of(c, 0, 0)[n - 1].name, pat) { (g + c.subrange(l, spots(c, 0)[n - 1].0), spots(c, 0)[n - 1].1) } else { (g, l) }
    }
}
pub open spec fn without(c: Seq<char>, pat: Seq<char>) -> Seq<char> { let (g, l) = cut(c, pat, spots(c, 0).len() as int); g + c.skip(l) }
proof fn cut_in(c: Seq<char>, pat: Seq<char>, n: int)
    requires 0 <= n <= spots(c, 0).len()
    ensures 0 <= cut(c, pat, n).1 <= (if n == 0 { 0 } else { spots(c, 0)[n - 1].1 }) <= c.len()
    decreases n
{ spots_ok(c, 0); if n > 0 { cut_in(c, pat, n - 1); assert(spot_ok(c, tags_of(c, 0, 0)[n - 1], spots(c, 0)[n - 1], if n - 1 == 0 { 0 } else { spots(c, 0)[n - 2].1 })); } }
/// what is left of a block
pub open spec fn left_of(c: Seq<char>, pat: Option<String>) -> Seq<char> { match pat { None => Seq::empty(), Some(p) => without(c, bare_of(p@)) } }
/// a text with its first n blocks so treated, up to a character
pub open spec fn strip(c: Seq<char>, bl: Seq<Blk>, pat: Option<String>, clean: bool, n: int) -> (Seq<char>, int)
    decreases n
{
    if n <= 0 { (Seq::empty(), 0) } else {
        let (g, l) = strip(c, bl, pat, clean, n - 1); let b = bl[n - 1]; let m = left_of(c.subrange(b.a, b.b), pat);
        if b.closed { (g + c.subrange(l, b.a - 1) + (if m.len() > 0 || !clean { seq!['{'] + m + seq!['}'] } else { Seq::empty() }), b.b + 1) } else { (g, l) }
    }
}
pub open spec fn stripped(c: Seq<char>, pat: Option<String>, clean: bool) -> Seq<char> { let bl = blks(c, 0, 0, 0); let (g, l) = strip(c, bl, pat, clean, bl.len() as int); g + c.skip(l) }
proof fn strip_in(c: Seq<char>, bl: Seq<Blk>, pat: Option<String>, clean: bool, n: int)
    requires 0 <= n <= bl.len(), ordered(c, bl, 0)
    ensures 0 <= strip(c, bl, pat, clean, n).1 <= c.len(), n < bl.len() ==> strip(c, bl, pat, clean, n).1 == (if n == 0 { 0 } else { bl[n - 1].b + 1 })
    decreases n
{ if n > 0 { strip_in(c, bl, pat, clean, n - 1); block_at_index(c, bl, n - 1); } }
/// the text outside the blocks, of the first n of them
pub open spec fn outside(c: Seq<char>, bl: Seq<Blk>, n: int) -> Seq<char> decreases n { if n <= 0 { Seq::empty() } else { outside(c, bl, n - 1) + c.subrange(if n == 1 { 0 } else { bl[n - 2].b + 1 }, bl[n - 1].a - 1) } }
/// removing every tag of a text leaves exactly what stands outside its blocks
pub proof fn stripped_all(c: Seq<char>, bl: Seq<Blk>, n: int)
    requires ordered(c, bl, 0), 0 <= n <= bl.len(), forall|k: int| 0 <= k < n ==> (#[trigger] bl[k]).closed
    ensures strip(c, bl, None, true, n).0 == outside(c, bl, n)
    decreases n
{ if n > 0 { stripped_all(c, bl, n - 1); block_at_index(c, bl, n - 1); strip_in(c, bl, None, true, n - 1); let b = bl[n - 1]; assert(b.closed); assert(strip(c, bl, None, true, n).0 =~= outside(c, bl, n)); } }
impl RemoveTagCommand {
//@@ fn crates/ass-editor/commands/tag_commands/remove.rs RemoveTagCommand::process_override_content
//@ret r
//@re (?s)let Some\(pattern\) = &self\.tag_pattern else \{.*?\}; => let pattern = match &self.tag_pattern { Some(p) => p, None => return snew() };
//@re pattern\.strip_prefix\('\\\\'\)\.unwrap_or\(pattern\) => bare(pattern.as_str())
//@re String::new\(\) => snew()
//@re let mut kept = 0; => let mut kept: usize = 0;
//@re for \(tag, whole\) in block_tags\(content\) \{ => let found = block_tags(content); let mut ix: usize = 0; while ix < found.len() { let tag = &found[ix].0; let whole = &found[ix].1; ix += 1;
//@re tag\.name\(\)\.starts_with\((\w+)\) => begins(tag.name(), \1)
//@re &content\[kept\.\.whole\.start\] => bslice(content, kept, whole.start)
//@re &content\[kept\.\.\] => bslice(content, kept, blen(content))
//@re-all result\.push_str\( => sadd(&mut result, 
//@spec
    requires nbytes(content@) < 0x7fff_ffff
    ensures r@ == left_of(content@, self.tag_pattern)
//@start
    let ghost c = content@;
    proof { off_zero(c); off_end(c); }
//@loop 0
    invariant c == content@, nbytes(c) < 0x7fff_ffff, ix <= found.len(), tags_and_spots(c, found@), off(c, c.len() as int) == nbytes(c),
        result@ == cut(c, pattern_without_backslash@, ix as int).0, kept == off(c, cut(c, pattern_without_backslash@, ix as int).1),
    decreases found.len() - ix
//@loopstart 0
        let ghost k = ix as int; let ghost l = cut(c, pattern_without_backslash@, k).1;
        proof {
            cut_in(c, pattern_without_backslash@, k); spot_at(c, k);
            let y = spots(c, 0)[k];
            off_mono(c, l, y.0); assert(tag_view(found@[k].0) == tags_of(c, 0, 0)[k] && at_spot(c, found@[k].1, y));
            assert(off(c, l) == kept && off(c, y.0) == found@[k].1.start);
        }
//@before "sadd(&mut result, bslice(content, kept, blen(content)));"
    proof { let l = cut(c, pattern_without_backslash@, found.len() as int).1; cut_in(c, pattern_without_backslash@, found.len() as int); off_mono(c, l, c.len() as int); assert(off(c, l) == kept && off(c, c.len() as int) == nbytes(c)); assert(c.subrange(l, c.len() as int) =~= c.skip(l)); }
//@@ end
//@@ fn crates/ass-editor/commands/tag_commands/remove.rs RemoveTagCommand::remove_tags_from_text
//@ret r
//@re String::new\(\) => snew()
//@re let mut kept = 0; => let mut kept: usize = 0;
//@re for \(block, closed\) in override_blocks\(text\) \{ => let found = override_blocks(text); let mut ix: usize = 0; while ix < found.len() { let block = &found[ix].0; let closed = found[ix].1; ix += 1;
//@re &text\[block\.clone\(\)\] => bslice(text, block.start, block.end)
//@re &text\[kept\.\.block\.start - 1\] => bslice(text, kept, block.start - 1)
//@re &text\[kept\.\.\] => bslice(text, kept, blen(text))
//@re !cleaned_override\.is_empty\(\) => !nothing(cleaned_override.as_str())
//@re &cleaned_override\) => cleaned_override.as_str())
//@re-all result\.push_str\( => sadd(&mut result, 
//@re-all result\.push\( => spush(&mut result, 
//@spec
    requires nbytes(text@) < 0x7fff_ffff
    ensures r is Ok, r->Ok_0@ == stripped(text@, self.tag_pattern, self.clean_empty_overrides)
//@start
    let ghost c = text@; let ghost bl = blks(c, 0, 0, 0); let ghost pat = self.tag_pattern; let ghost cl = self.clean_empty_overrides;
    proof { off_zero(c); off_end(c); }
//@loop 0
    invariant_except_break ix <= found.len(), result@ == strip(c, bl, pat, cl, ix as int).0, kept == off(c, strip(c, bl, pat, cl, ix as int).1),
    invariant c == text@, nbytes(c) < 0x7fff_ffff, at_blocks(c, found@, bl), in_order(c, bl, 0), pat == self.tag_pattern, cl == self.clean_empty_overrides, off(c, c.len() as int) == nbytes(c),
    ensures result@ == strip(c, bl, pat, cl, bl.len() as int).0, kept == off(c, strip(c, bl, pat, cl, bl.len() as int).1),
    decreases found.len() - ix
//@loopstart 0
        let ghost k = ix as int; let ghost b = bl[k]; let ghost (g, l) = strip(c, bl, pat, cl, k);
        proof {
            by_index(c, bl, 0); strip_in(c, bl, pat, cl, k); assert(at_block(c, found@[k], b));
            block_at_index(c, bl, k);
            off_mono(c, l, b.a - 1); off_mono(c, b.a, b.b); off_step(c, b.a - 1); off_mono(c, b.b, c.len() as int); sub_bytes(c, b.a, b.b);
            if b.closed { off_step(c, b.b); off_mono(c, b.b + 1, c.len() as int); w_ascii('}'); in_braces(c, bl, 0, k); w_ascii('{'); }
        }
//@before "let cleaned_override"
            proof { assert(off(c, b.a) == block.start && off(c, b.b) == block.end); }
//@after "let cleaned_override = self.process_override_content(bslice(text, block.start, block.end));"
            proof { assert(off(c, l) == kept && off(c, b.a - 1) == block.start - 1); }
//@loopend 0
        proof { let m = left_of(c.subrange(b.a, b.b), pat); assert(m == cleaned_override@); if m.len() > 0 || !cl { assert(g + c.subrange(l, b.a - 1) + (seq!['{'] + m + seq!['}']) =~= (g + c.subrange(l, b.a - 1)).push('{') + m + seq!['}']); assert(result@ =~= g + c.subrange(l, b.a - 1) + (seq!['{'] + m + seq!['}'])); } else { assert(result@ =~= g + c.subrange(l, b.a - 1) + Seq::<char>::empty()); } }
//@before "sadd(&mut result, bslice(text, kept, blen(text)));"
    proof { let l = strip(c, bl, pat, cl, bl.len() as int).1; by_index(c, bl, 0); strip_in(c, bl, pat, cl, bl.len() as int); off_mono(c, l, c.len() as int); assert(off(c, l) == kept && off(c, c.len() as int) == nbytes(c)); assert(c.subrange(l, c.len() as int) =~= c.skip(l)); }
//@@ end
//@@ fn crates/ass-editor/commands/tag_commands/remove.rs RemoveTagCommand::execute
//@ret r
//@re cleaned_text\.len\(\) => slen(cleaned_text.as_str())
//@re-all &(original_text|cleaned_text)\b => \1.as_str()
//@start
    proof { text_fits(document); }
//@after "document.text_range(self.range)?"
    let ghost t = document.t();
    let ghost (i, j) = choose|i: int, j: int| #[trigger] spans(t, self.range, i, j) && original_text@ == t.subrange(i, j);
    proof { sub_bytes(t, i, j); off_mono(t, 0, i); off_mono(t, j, t.len() as int); off_zero(t); }
//@after "document.replace(self.range, cleaned_text.as_str())?"
    proof {
        let (k, l) = choose|k: int, l: int| #[trigger] spans(t, self.range, k, l) && document.t() == t.take(k) + cleaned_text@ + t.skip(l);
        spans_one(t, self.range, i, j, k, l); off_mono(t, i, t.len() as int);
    }
//@spec
    ensures r is Ok ==> exists|i: int, j: int| #[trigger] spans(old(document).t(), self.range, i, j) && final(document).t() == old(document).t().take(i) + stripped(old(document).t().subrange(i, j), self.tag_pattern, self.clean_empty_overrides) + old(document).t().skip(j),
        r is Err ==> final(document).t() == old(document).t(),
//@@ end
}
proof fn in_braces(c: Seq<char>, bl: Seq<Blk>, from: int, k: int)
    requires in_order(c, bl, from), 0 <= k < bl.len()
    ensures 1 <= bl[k].a <= bl[k].b <= c.len(), c[bl[k].a - 1] == '{', bl[k].closed ==> bl[k].b < c.len() && c[bl[k].b] == '}'
    decreases bl.len()
{ if k > 0 { in_braces(c, bl.skip(1), bl[0].b + 1, k - 1); assert(bl.skip(1)[k - 1] == bl[k]); } }

// ---- replacing -----------------------------------------------------------------------------------------
pub ghost struct Rep { pub g: Seq<char>, pub l: int, pub m: int }
/// the first n tags of block b, every one (or the first of the text) that begins with `find` rewritten
pub open spec fn rep_tags(c: Seq<char>, b: Blk, find: Seq<char>, with: Seq<char>, all: bool, n: int, s0: Rep) -> Rep
    decreases n
{
    if n <= 0 { s0 } else {
        let s = rep_tags(c, b, find, with, all, n - 1, s0); let y = spots(c.subrange(b.a, b.b), 0)[n - 1];
        if prefixed(c.subrange(b.a + y.0, b.a + y.1), find) && (all || s.m == 0) { Rep { g: s.g + c.subrange(s.l, b.a + y.0) + with, l: b.a + y.0 + find.len(), m: s.m + 1 } } else { s }
    }
}
pub open spec fn rep_blocks(c: Seq<char>, bl: Seq<Blk>, find: Seq<char>, with: Seq<char>, all: bool, n: int) -> Rep
    decreases n
{
    if n <= 0 { Rep { g: Seq::empty(), l: 0, m: 0 } } else {
        let s = rep_blocks(c, bl, find, with, all, n - 1); let b = bl[n - 1];
        if b.closed { rep_tags(c, b, find, with, all, spots(c.subrange(b.a, b.b), 0).len() as int, s) } else { s }
    }
}
pub open spec fn replaced(c: Seq<char>, find: Seq<char>, with: Seq<char>, all: bool) -> Seq<char> { let bl = blks(c, 0, 0, 0); let s = rep_blocks(c, bl, find, with, all, bl.len() as int); s.g + c.skip(s.l) }
proof fn rep_tags_in(c: Seq<char>, b: Blk, find: Seq<char>, with: Seq<char>, all: bool, n: int, s0: Rep)
    requires 0 <= b.a <= b.b <= c.len(), 0 <= n <= spots(c.subrange(b.a, b.b), 0).len(), 0 <= s0.l <= b.a, 0 <= s0.m <= b.a
    ensures ({ let s = rep_tags(c, b, find, with, all, n, s0); let e = b.a + (if n == 0 { 0 } else { spots(c.subrange(b.a, b.b), 0)[n - 1].1 }); 0 <= s.l <= e <= b.b && 0 <= s.m <= e })
    decreases n
{
    let sub = c.subrange(b.a, b.b);
    spots_ok(sub, 0);
    if n > 0 {
        rep_tags_in(c, b, find, with, all, n - 1, s0);
        let y = spots(sub, 0)[n - 1];
        assert(spot_ok(sub, tags_of(sub, 0, 0)[n - 1], y, if n - 1 == 0 { 0 } else { spots(sub, 0)[n - 2].1 }));
        assert(c.subrange(b.a + y.0, b.a + y.1).len() == y.1 - y.0);
    }
}
proof fn rep_blocks_in(c: Seq<char>, bl: Seq<Blk>, find: Seq<char>, with: Seq<char>, all: bool, n: int)
    requires 0 <= n <= bl.len(), ordered(c, bl, 0)
    ensures ({ let s = rep_blocks(c, bl, find, with, all, n); let e = if n == 0 { 0 } else { bl[n - 1].b }; 0 <= s.l <= e <= c.len() && 0 <= s.m <= e })
    decreases n
{
    if n > 0 {
        rep_blocks_in(c, bl, find, with, all, n - 1); let b = bl[n - 1]; block_at_index(c, bl, n - 1);
        if b.closed { rep_tags_in(c, b, find, with, all, spots(c.subrange(b.a, b.b), 0).len() as int, rep_blocks(c, bl, find, with, all, n - 1)); }
    }
}
/// byte offsets in a part of a text
proof fn off_sub(c: Seq<char>, a: int, b: int, i: int)
    requires 0 <= a <= b <= c.len(), 0 <= i <= b - a
    ensures off(c, a) + off(c.subrange(a, b), i) == off(c, a + i)
{ off_skip(c, a, i); assert(c.subrange(a, b).take(i) =~= c.skip(a).take(i)); }
impl ReplaceTagCommand {
//@@ fn crates/ass-editor/commands/tag_commands/replace.rs ReplaceTagCommand::replace_tags_in_text
//@ret r
//@re String::new\(\) => snew()
//@re let mut kept = 0; => let mut kept: usize = 0;
//@re for \(block, closed\) in override_blocks\(text\) \{ => let found = override_blocks(text); let mut ix: usize = 0; while ix < found.len() { let block = &found[ix].0; let closed = found[ix].1; ix += 1;
//@re for \(_, tag\) in block_tags\(&text\[block\.clone\(\)\]\) \{ => let inner = block_tags(bslice(text, block.start, block.end)); let mut jx: usize = 0; while jx < inner.len() { let tag = &inner[jx].1; jx += 1;
//@re text\[tag\.clone\(\)\]\.starts_with\(&self\.find_pattern\) => begins(bslice(text, tag.start, tag.end), self.find_pattern.as_str())
//@re &text\[kept\.\.tag\.start\] => bslice(text, kept, tag.start)
//@re &text\[kept\.\.\] => bslice(text, kept, blen(text))
//@re &self\.replace_with => self.replace_with.as_str()
//@re self\.find_pattern\.len\(\) => slen(self.find_pattern.as_str())
//@re-all result\.push_str\( => sadd(&mut result, 
//@spec
    requires nbytes(text@) < 0x7fff_ffff
    ensures r is Ok, r->Ok_0@ == replaced(text@, self.find_pattern@, self.replace_with@, self.replace_all)
//@start
    let ghost c = text@; let ghost bl = blks(c, 0, 0, 0); let ghost f = self.find_pattern@; let ghost h = self.replace_with@; let ghost all = self.replace_all;
    proof { off_zero(c); off_end(c); off_mono(c, 0, c.len() as int); }
//@loop 0
    invariant_except_break ix <= found.len(), ({ let s = rep_blocks(c, bl, f, h, all, ix as int); result@ == s.g && kept == off(c, s.l) && replacements_made == s.m }),
    invariant c == text@, nbytes(c) < 0x7fff_ffff, at_blocks(c, found@, bl), in_order(c, bl, 0), f == self.find_pattern@, h == self.replace_with@, all == self.replace_all, off(c, c.len() as int) == nbytes(c), c.len() <= nbytes(c),
    ensures ({ let s = rep_blocks(c, bl, f, h, all, bl.len() as int); result@ == s.g && kept == off(c, s.l) }),
    decreases found.len() - ix
//@loopstart 0
        let ghost k = ix as int; let ghost b = bl[k]; let ghost s0 = rep_blocks(c, bl, f, h, all, k); let ghost sub = c.subrange(b.a, b.b);
        proof {
            by_index(c, bl, 0); rep_blocks_in(c, bl, f, h, all, k); assert(at_block(c, found@[k], b));
            block_at_index(c, bl, k);
            off_mono(c, b.a, b.b); off_mono(c, b.b, c.len() as int); sub_bytes(c, b.a, b.b);
        }
//@before "let inner = block_tags"
            proof { assert(off(c, b.a) == block.start && off(c, b.b) == block.end); }
//@loop 1
    invariant c == text@, nbytes(c) < 0x7fff_ffff, c.len() <= nbytes(c), f == self.find_pattern@, h == self.replace_with@, all == self.replace_all, 0 <= b.a <= b.b <= c.len(), sub == c.subrange(b.a, b.b), off(c, b.a) == block.start, 0 <= s0.l <= b.a, 0 <= s0.m <= b.a,
        jx <= inner.len(), tags_and_spots(sub, inner@), ({ let s = rep_tags(c, b, f, h, all, jx as int, s0); result@ == s.g && kept == off(c, s.l) && replacements_made == s.m }),
    decreases inner.len() - jx
//@loopstart 1
                let ghost q = jx as int; let ghost y = spots(sub, 0)[q]; let ghost s = rep_tags(c, b, f, h, all, q, s0);
                proof {
                    rep_tags_in(c, b, f, h, all, q, s0); spot_at(sub, q);
                    assert(at_spot(sub, inner@[q].1, y));
                    off_sub(c, b.a, b.b, y.0); off_sub(c, b.a, b.b, y.1);
                    off_mono(c, b.a + y.0, b.a + y.1); off_mono(c, s.l, b.a + y.0); off_mono(c, b.a + y.1, c.len() as int);
                    assert(off(c, b.a + y.0) == block.start + inner@[q].1.start && off(c, b.a + y.1) == block.start + inner@[q].1.end && off(c, s.l) == kept);
                    let whole = c.subrange(b.a + y.0, b.a + y.1);
                    if prefixed(whole, f) { assert(c.subrange(b.a + y.0, b.a + y.0 + f.len()) =~= whole.take(f.len() as int)); sub_bytes(c, b.a + y.0, b.a + y.0 + f.len()); off_mono(c, b.a + y.0 + f.len(), c.len() as int); }
                }
//@before "sadd(&mut result, bslice(text, kept, blen(text)));"
    proof { let l = rep_blocks(c, bl, f, h, all, bl.len() as int).l; by_index(c, bl, 0); rep_blocks_in(c, bl, f, h, all, bl.len() as int); off_mono(c, l, c.len() as int); assert(off(c, l) == kept && off(c, c.len() as int) == nbytes(c)); assert(c.subrange(l, c.len() as int) =~= c.skip(l)); }
//@@ end
//@@ fn crates/ass-editor/commands/tag_commands/replace.rs ReplaceTagCommand::execute
//@ret r
//@re replaced_text\.len\(\) => slen(replaced_text.as_str())
//@re-all &(original_text|replaced_text)\b => \1.as_str()
//@start
    proof { text_fits(document); }
//@after "document.text_range(self.range)?"
    let ghost t = document.t();
    let ghost (i, j) = choose|i: int, j: int| #[trigger] spans(t, self.range, i, j) && original_text@ == t.subrange(i, j);
    proof { sub_bytes(t, i, j); off_mono(t, 0, i); off_mono(t, j, t.len() as int); off_zero(t); }
//@after "document.replace(self.range, replaced_text.as_str())?"
    proof {
        let (k, l) = choose|k: int, l: int| #[trigger] spans(t, self.range, k, l) && document.t() == t.take(k) + replaced_text@ + t.skip(l);
        spans_one(t, self.range, i, j, k, l); off_mono(t, i, t.len() as int);
    }
//@spec
    ensures r is Ok ==> exists|i: int, j: int| #[trigger] spans(old(document).t(), self.range, i, j) && final(document).t() == old(document).t().take(i) + replaced(old(document).t().subrange(i, j), self.find_pattern@, self.replace_with@, self.replace_all) + old(document).t().skip(j),
        r is Err ==> final(document).t() == old(document).t(),
//@@ end
}
// ---- inserting -----------------------------------------------------------------------------------------
/// the text a tag is inserted as, if it begins with a backslash
pub open spec fn as_inserted(s: Seq<char>, wrap: bool) -> Seq<char> { if wrap { seq!['{'] + core_of(s) + seq!['}'] } else { core_of(s) } }
pub open spec fn is_tag(s: Seq<char>) -> bool { core_of(s).len() > 0 && core_of(s)[0] == '\\' }
impl InsertTagCommand {
//@@ fn crates/ass-editor/commands/tag_commands/insert.rs InsertTagCommand::format_tag
//@ret r
//@re self\.tag\.trim\(\) => trimmed(self.tag.as_str())
//@re-all tag\.starts_with\( => begins_with(tag, 
//@re tag\.ends_with\( => ends_with_char(tag, 
//@re-all tag\.to_string\(\) => owned(tag)
//@re format!\("\{\{\{tag\}\}\}"\) => braced(tag)
//@re (?s)EditorError::command_failed\(.*?\)\)\) => refused())
//@spec
    ensures r is Ok <==> is_tag(self.tag@), r is Ok ==> r->Ok_0@ == as_inserted(self.tag@, self.auto_wrap)
//@@ end
//@@ fn crates/ass-editor/commands/tag_commands/insert.rs InsertTagCommand::execute
//@ret r
//@re formatted_tag\.len\(\) => slen(formatted_tag.as_str())
//@re &formatted_tag\b => formatted_tag.as_str()
//@start
    proof { text_fits(document); }
    let ghost t = document.t();
//@after "document.insert(self.position, formatted_tag.as_str())?"
    proof {
        let i = choose|i: int| 0 <= i <= t.len() && #[trigger] off(t, i) == self.position.offset && document.t() == t.take(i) + formatted_tag@ + t.skip(i);
        off_mono(t, i, t.len() as int);
    }
//@spec
    ensures r is Ok ==> exists|i: int| 0 <= i <= old(document).t().len() && #[trigger] off(old(document).t(), i) == self.position.offset && final(document).t() == old(document).t().take(i) + as_inserted(self.tag@, self.auto_wrap) + old(document).t().skip(i),
        r is Ok ==> is_tag(self.tag@), r is Err ==> final(document).t() == old(document).t(),
//@@ end
}

// ---- wrapping ------------------------------------------------------------------------------------------
//@@ struct crates/ass-editor/commands/tag_commands/wrap.rs WrapTagCommand
/// format!("{{{opening}}}{text}{{{closing}}}")
#[verifier::external_body]
fn between(opening: &str, text: &str, closing: &str) -> (r: String) ensures r@ == seq!['{'] + opening@ + seq!['}'] + text@ + seq!['{'] + closing@ + seq!['}'] { format!("{{{opening}}}{text}{{{closing}}}") }
pub uninterp spec fn closing_of(s: Seq<char>) -> Seq<char>;
impl WrapTagCommand {
    pub open spec fn closes(&self) -> Seq<char> { match self.closing_tag { Some(c) => c@, None => closing_of(self.opening_tag@) } }
    /// which tag closes which is decided by the replay
    #[verifier::external_body]
    fn get_closing_tag(&self) -> (r: String) ensures r@ == self.closes() { unimplemented!() }
//@@ fn crates/ass-editor/commands/tag_commands/wrap.rs WrapTagCommand::execute
//@ret r
//@re wrapped_text\.len\(\) => slen(wrapped_text.as_str())
//@re format!\("\{\{\{\}\}\}\{original_text\}\{\{\{closing_tag\}\}\}", self\.opening_tag\) => between(self.opening_tag.as_str(), original_text.as_str(), closing_tag.as_str())
//@re-all &(wrapped_text)\b => \1.as_str()
//@start
    proof { text_fits(document); }
//@after "document.text_range(self.range)?"
    let ghost t = document.t();
    let ghost (i, j) = choose|i: int, j: int| #[trigger] spans(t, self.range, i, j) && original_text@ == t.subrange(i, j);
//@after "document.replace(self.range, wrapped_text.as_str())?"
    proof {
        let (k, l) = choose|k: int, l: int| #[trigger] spans(t, self.range, k, l) && document.t() == t.take(k) + wrapped_text@ + t.skip(l);
        spans_one(t, self.range, i, j, k, l); off_mono(t, i, t.len() as int);
        assert(document.t() =~= t.take(i) + seq!['{'] + self.opening_tag@ + seq!['}'] + t.subrange(i, j) + seq!['{'] + self.closes() + seq!['}'] + t.skip(j));
    }
//@spec
    ensures r is Ok ==> exists|i: int, j: int| #[trigger] spans(old(document).t(), self.range, i, j) && final(document).t() == old(document).t().take(i) + seq!['{'] + self.opening_tag@ + seq!['}'] + old(document).t().subrange(i, j) + seq!['{'] + self.closes() + seq!['}'] + old(document).t().skip(j),
        r is Err ==> final(document).t() == old(document).t(),
//@@ end
}

// ---- reading -------------------------------------------------------------------------------------------
//@@ struct crates/ass-editor/commands/tag_commands/parse.rs ParseTagCommand
//@@ struct crates/ass-editor/commands/tag_commands/parse.rs ParsedTag
pub uninterp spec fn parts(s: Seq<char>) -> Seq<String>;
/// split at commas, every part trimmed
#[verifier::external_body]
fn comma_parts(s: &str) -> (r: Vec<String>) ensures r@ == parts(s@) { s.split(',').map(|p| p.trim().to_string()).collect() }
#[verifier::external_body]
fn slashed(n: &str) -> (r: String) ensures r@ == seq!['\\'] + n@ { format!("\\{n}") }
#[verifier::external_body]
fn slashed2(n: &str, a: &str) -> (r: String) ensures r@ == seq!['\\'] + n@ + a@ { format!("\\{n}{a}") }
/// what is read of one tag: its text, its parameters, and its place if asked for
pub open spec fn bracketed(a: Seq<char>) -> bool { a.len() >= 1 && a[0] == '(' && a.last() == ')' }
pub open spec fn read_as(p: ParsedTag, t: Tag, at: Option<int>) -> bool {
    &&& p.tag@ == (if bracketed(t.args) { seq!['\\'] + t.name } else { seq!['\\'] + t.name + t.args })
    &&& p.parameters@ == (if bracketed(t.args) && t.args.len() > 2 { parts(t.args.subrange(1, t.args.len() - 1)) } else { Seq::empty() })
    &&& match at { None => p.position is None, Some(x) => p.position is Some && p.position->Some_0.offset == x }
}
pub open spec fn read_all(v: Seq<ParsedTag>, c: Seq<char>, base: Option<int>) -> bool {
    v.len() == tags_of(c, 0, 0).len() && forall|k: int| 0 <= k < v.len() ==> read_as(#[trigger] v[k], tags_of(c, 0, 0)[k], match base { Some(b) => Some(b + tags_of(c, 0, 0)[k].pos), None => None })
}
impl ParseTagCommand {
    /// where places count from, if they are asked for
    pub open spec fn places(&self) -> Option<int> { if self.include_positions { Some(self.range.start.offset as int) } else { None } }
//@@ fn crates/ass-editor/commands/tag_commands/parse.rs ParseTagCommand::extract_tags_from_override
//@ret r
//@re let mut tags = Vec::new\(\); => let mut tags: Vec<ParsedTag> = Vec::new();
//@re let mut parameters = Vec::new\(\); => let mut parameters: Vec<String> = Vec::new();
//@re for \(core_tag, _\) in block_tags\(content\) \{ => let found = block_tags(content); let mut ix: usize = 0; while ix < found.len() { let core_tag = &found[ix].0; ix += 1;
//@re args\.starts_with\( => begins_with(args, 
//@re args\.ends_with\( => ends_with_char(args, 
//@re &args\[1\.\.args\.len\(\) - 1\] => bslice(args, 1, blen(args) - 1)
//@re !param_content\.is_empty\(\) => !nothing(param_content)
//@re (?s)param_content\s*\.split\(','\)\s*\.map\(\|p\| p\.trim\(\)\.to_string\(\)\)\s*\.collect\(\) => comma_parts(param_content)
//@re format!\("\\\\\{\}", core_tag\.name\(\)\) => slashed(core_tag.name())
//@re format!\("\\\\\{\}\{\}", core_tag\.name\(\), args\) => slashed2(core_tag.name(), args)
//@spec
    requires nbytes(content@) < 0x7fff_ffff, self.range.start.offset + base_position + nbytes(content@) <= usize::MAX
    ensures r is Ok, read_all(r->Ok_0@, content@, if self.include_positions { Some(self.range.start.offset + base_position) } else { None })
//@start
    let ghost c = content@; let ghost base: Option<int> = if self.include_positions { Some(self.range.start.offset + base_position) } else { None };
//@loop 0
    invariant c == content@, nbytes(c) < 0x7fff_ffff, self.range.start.offset + base_position + nbytes(c) <= usize::MAX, base == (if self.include_positions { Some(self.range.start.offset + base_position) } else { None::<int> }),
        tags_and_spots(c, found@), ix <= found.len(), tags.len() == ix,
        forall|k: int| 0 <= k < ix ==> read_as(#[trigger] tags@[k], tags_of(c, 0, 0)[k], match base { Some(b) => Some(b + tags_of(c, 0, 0)[k].pos), None => None }),
    decreases found.len() - ix
//@loopstart 0
        let ghost k = ix as int; let ghost a = found@[k].0.args@;
        proof {
            spot_at(c, k); let y = spots(c, 0)[k]; off_mono(c, y.0, c.len() as int); off_mono(c, y.1, c.len() as int); assert(tag_view(found@[k].0) == tags_of(c, 0, 0)[k]);
            off_zero(a); off_end(a); off_mono(a, 0, a.len() as int);
            if bracketed(a) { w_ascii('('); w_ascii(')'); off_step(a, 0); off_step(a, a.len() - 1); off_mono(a, 1, a.len() - 1); assert(off(a, 1) == 1 && off(a, a.len() - 1) == nbytes(a) - 1); }
        }
//@before "Ok(tags)"
    proof { spots_ok(c, 0); }
//@@ end
//@@ fn crates/ass-editor/commands/tag_commands/parse.rs ParseTagCommand::parse_tags_from_text
//@ret r
//@re let mut tags = Vec::new\(\); => let mut tags: Vec<ParsedTag> = Vec::new();
//@re for \(block, _\) in override_blocks\(text\) \{ => let found = override_blocks(text); let mut ix: usize = 0; while ix < found.len() { let block = &found[ix].0; ix += 1;
//@re &text\[block\.clone\(\)\] => bslice(text, block.start, block.end)
//@re tags\.append\(&mut (self\.extract_tags_from_override\(.*\))\?\); => let mut more = \1?;\ntags.append(&mut more);
//@spec
    requires nbytes(text@) < 0x7fff_ffff, self.range.start.offset + nbytes(text@) <= usize::MAX
    ensures r is Ok, exists|g: Seq<Seq<ParsedTag>>| #[trigger] blockwise(text@, g, self.places()) && r->Ok_0@ == g.flatten()
//@start
    let ghost c = text@; let ghost bl = blks(c, 0, 0, 0); let ghost base: Option<int> = if self.include_positions { Some(self.range.start.offset as int) } else { None }; let ghost mut g: Seq<Seq<ParsedTag>> = Seq::empty();
    proof { g.lemma_flatten_and_flatten_alt_are_equivalent(); }
//@loop 0
    invariant c == text@, bl == blks(c, 0, 0, 0), nbytes(c) < 0x7fff_ffff, self.range.start.offset + nbytes(c) <= usize::MAX, at_blocks(c, found@, bl), in_order(c, bl, 0), ix <= found.len(), base == (if self.include_positions { Some(self.range.start.offset as int) } else { None::<int> }),
        g.len() == ix, tags@ == g.flatten_alt(), forall|k: int| 0 <= k < ix ==> of_block(c, #[trigger] g[k], bl[k], base),
    decreases found.len() - ix
//@loopstart 0
        let ghost k = ix as int; let ghost b = bl[k];
        proof { by_index(c, bl, 0); block_at_index(c, bl, k); assert(at_block(c, found@[k], b)); off_mono(c, b.a, b.b); off_mono(c, b.b, c.len() as int); sub_bytes(c, b.a, b.b); assert(off(c, b.a) == found@[k].0.start && off(c, b.b) == found@[k].0.end); }
//@after "block.start)?;"
            proof { let g1 = g.push(more@); assert(g1.drop_last() =~= g); assert(of_block(c, more@, b, base)); assert(g1.flatten_alt() == g.flatten_alt() + more@); g = g1; }
//@before "Ok(tags)"
    proof { g.lemma_flatten_and_flatten_alt_are_equivalent(); assert(blockwise(c, g, base)); }
//@@ end
}
pub open spec fn of_block(c: Seq<char>, v: Seq<ParsedTag>, b: Blk, base: Option<int>) -> bool { read_all(v, c.subrange(b.a, b.b), match base { Some(x) => Some(x + off(c, b.a)), None => None }) }
pub open spec fn blockwise(c: Seq<char>, g: Seq<Seq<ParsedTag>>, base: Option<int>) -> bool {
    let bl = blks(c, 0, 0, 0); g.len() == bl.len() && forall|k: int| 0 <= k < g.len() ==> of_block(c, #[trigger] g[k], bl[k], base)
}
fn main() {}
}
