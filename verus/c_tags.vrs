use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
verus! {
//@@ include str.inc
//@@ include tags.inc
//@@ fn crates/ass-core/analysis/events/tags/complexity.rs calculate_tag_complexity
//@ret r
//@strmatch tag_name
//@spec
    ensures r as int == cost(tag_name@)
//@@ end
//@@ fn crates/ass-core/analysis/events/tags/parser.rs scan_tag_name
//@ret r
//@re-all (chars\[char_pos\])\.is_ascii_digit\(\) => ascii_digit(\1)
//@re-all (chars\[char_pos\])\.is_ascii_alphabetic\(\) => ascii_alphabetic(\1)
//@re &content\[(\w+)\.\.(\w+)\] => bslice(content, \1, \2)
//@spec
    requires chars@ == content@, char_pos <= chars@.len(), byte_pos == off(content@, char_pos as int), name_start == byte_pos, nbytes(content@) < 0x7fff_ffff
    ensures r.0 == name_end(content@, char_pos as int, char_pos as int), r.1 == off(content@, r.0 as int), char_pos <= r.0 <= content@.len()
//@start
    let ghost s = char_pos as int;
    proof { off_mono(content@, s, content@.len() as int); }
//@loop 0
    invariant_except_break chars@ == content@, 0 <= s <= char_pos <= chars@.len(), name_start == off(content@, s), byte_pos == off(content@, char_pos as int), nbytes(content@) < 0x7fff_ffff,
        tag_name_len == char_pos - s, name_end(content@, s, char_pos as int) == name_end(content@, s, s),
    ensures char_pos == name_end(content@, s, s), byte_pos == off(content@, char_pos as int), s <= char_pos <= content@.len(),
    decreases chars@.len() - char_pos
//@before "if tag_name_len == 0"
    proof { off_step(content@, char_pos as int); off_mono(content@, char_pos as int + 1, char_pos as int + 1); assert(content@.len() <= nbytes(content@)) by { off_zero(content@); off_mono(content@, 0, content@.len() as int); off_end(content@); } }
//@before "let name_so_far"
    proof { off_mono(content@, s, char_pos as int); assert(off(content@, s) == name_start && off(content@, char_pos as int) == byte_pos); assert(bounds2(content@, s, char_pos as int)); }
//@@ end
spec fn bounds2(c: Seq<char>, i: int, j: int) -> bool { 0 <= i <= j <= c.len() && off(c, i) <= off(c, j) }

//@@ fn crates/ass-core/analysis/events/tags/parser.rs parse_override_block
//@re content\.chars\(\)\.collect\(\) => chars_of(content)
//@re \(char_pos, byte_pos\) = (scan_tag_name\([^;]*\)); => let (cp, bp) = \1; char_pos = cp; byte_pos = bp;
//@re-all &content\[(\w+)\.\.(\w+)\] => bslice(content, \1, \2)
//@re tag_name\.trim\(\)\.is_empty\(\) => trims_to_nothing(tag_name)
//@re (?s)chars\s*\.get\(char_pos\)\s*\.map_or\(byte_pos, \|ch\| byte_pos \+ ch\.len_utf8\(\)\) => if char_pos < chars.len() { byte_pos + chars[char_pos].len_utf8() } else { byte_pos }
//@re let mut char_pos = 0; => let mut char_pos: usize = 0;
//@re let mut byte_pos = 0; => let mut byte_pos: usize = 0;
//@re let mut paren_depth = 0; => let mut paren_depth: i32 = 0;
//@spec
    requires start_pos + nbytes(content@) <= usize::MAX, nbytes(content@) < 0x7fff_ffff
    ensures
        // every tag once, in order, with its exact name, arguments and place; every complaint quotes its text
        tseq(final(tags)@) == tseq(old(tags)@) + tags_of(content@, start_pos as int, 0),
        nseq(final(diagnostics)@) == nseq(old(diagnostics)@) + notes_of(content@, start_pos as int, 0),
        forall|k: int| old(tags)@.len() <= k < final(tags)@.len() ==> (#[trigger] final(tags)@[k]).complexity as int == cost(final(tags)@[k].name@),
        final(tags)@.len() >= old(tags)@.len(), final(tags)@.subrange(0, old(tags)@.len() as int) =~= old(tags)@,
//@start
    let ghost c = content@; let ghost base = start_pos as int; let ghost t0 = old(tags)@; let ghost d0 = old(diagnostics)@;
    proof { off_zero(c); off_mono(c, 0, c.len() as int); off_end(c); }
//@loop 0
    invariant chars@ == c, c == content@, base == start_pos, char_pos <= c.len() <= nbytes(c), byte_pos == off(c, char_pos as int), byte_pos <= nbytes(c),
        start_pos + nbytes(c) <= usize::MAX, nbytes(c) < 0x7fff_ffff,
        tseq(tags@) + tags_of(c, base, char_pos as int) == tseq(t0) + tags_of(c, base, 0),
        nseq(diagnostics@) + notes_of(c, base, char_pos as int) == nseq(d0) + notes_of(c, base, 0),
        tags@.len() >= t0.len(), tags@.subrange(0, t0.len() as int) == t0,
        forall|k: int| t0.len() <= k < tags@.len() ==> (#[trigger] tags@[k]).complexity as int == cost(tags@[k].name@),
    decreases c.len() - char_pos
//@before "if chars[char_pos] == '\\\\' {"
    let ghost p = char_pos as int; let ghost t1 = tags@; let ghost d1 = diagnostics@;
    proof { off_step(c, p); off_mono(c, p + 1, p + 1); assert(tseq(t1) + tags_of(c, base, p) == tseq(t0) + tags_of(c, base, 0)); }
//@before "let name_end"
    let ghost s = p + 1; let ghost e = char_pos as int;
    proof { starts_ok(c, s); off_mono(c, s, e); off_mono(c, e, e); assert(bounds2(c, s, e)); ends_in(c, s, e, 0); assert(off(c, s) == name_start && off(c, e) == byte_pos); }
//@loop 1
    invariant_except_break
        chars@ == c, c == content@, e <= char_pos <= c.len() <= nbytes(c), byte_pos == off(c, char_pos as int), byte_pos <= nbytes(c) < 0x7fff_ffff, nbytes(c) <= usize::MAX, 0 <= e,
        0 <= paren_depth <= char_pos - e, paren_depth >= 1 || (char_pos == e && c[e] == '('), paren_end(c, char_pos as int, paren_depth as int) == paren_end(c, e, 0),
    ensures char_pos == paren_end(c, e, 0), byte_pos == off(c, char_pos as int), byte_pos <= nbytes(c), char_pos <= c.len()
    decreases c.len() - char_pos
//@before "if chars[char_pos] == '('"
    proof { off_step(c, char_pos as int); off_mono(c, char_pos as int + 1, char_pos as int + 1); }
//@loop 2
    invariant chars@ == c, c == content@, 0 <= e <= char_pos <= c.len() <= nbytes(c), byte_pos == off(c, char_pos as int), byte_pos <= nbytes(c), nbytes(c) < 0x7fff_ffff,
        slash(c, char_pos as int) == slash(c, e),
    ensures char_pos == slash(c, e)
    decreases c.len() - char_pos
//@before "byte_pos += chars[char_pos].len_utf8();"
//@after "while char_pos < chars.len() && chars[char_pos] != '\\\\'"
    proof { off_step(c, char_pos as int); off_mono(c, char_pos as int + 1, char_pos as int + 1); }
//@before "let tag_name ="
    let ghost a = char_pos as int;
    proof {
        assert(tag_name_preview@ == c.subrange(s, e));
        assert(a == args_end(c, s, e)); ends_in(c, s, e, 0); off_mono(c, e, a); off_mono(c, p, a); assert(bounds2(c, e, a)); assert(bounds2(c, p, a)); assert(off(c, a) == byte_pos);
        assert(tags_of(c, base, p) == seq![Tag { name: c.subrange(s, e), args: c.subrange(e, a), pos: base + off(c, p) }] + tags_of(c, base, a));
        assert(notes_of(c, base, p) == notes_of(c, base, a));
        assert(c.subrange(s, e)[0] == c[s]);
    }
//@before "let span_end"
    proof { if char_pos < c.len() { off_step(c, char_pos as int); off_mono(c, char_pos as int + 1, char_pos as int + 1); } off_mono(c, p, char_pos as int); assert(off(c, p) == tag_start); assert(off(c, char_pos as int) == byte_pos); if char_pos < c.len() { off_mono(c, p, char_pos as int + 1); assert(off(c, char_pos as int + 1) == byte_pos + w(c[char_pos as int])); } }
//@loopend 0
    proof {
        if c[p] == '\\' {
            if tags@.len() > t1.len() { let t = tags@[t1.len() as int]; tags_push(t1, t); assert(tags@ =~= t1.push(t)); glue(tseq(t1), tag_view(t), tags_of(c, base, char_pos as int)); }
            if diagnostics@.len() > d1.len() { let t = diagnostics@[d1.len() as int]; notes_push(d1, t); assert(diagnostics@ =~= d1.push(t)); glue(nseq(d1), note_view(t), notes_of(c, base, char_pos as int)); }
        }
        assert(tags@.subrange(0, t0.len() as int) =~= t0);
    }
//@finish
    proof { assert(tseq(tags@) + tags_of(c, base, char_pos as int) =~= tseq(tags@)); assert(nseq(diagnostics@) + notes_of(c, base, char_pos as int) =~= nseq(diagnostics@)); }
//@@ end
fn main() {}
}
