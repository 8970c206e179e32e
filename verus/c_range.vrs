use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use core::ops::Range;
verus! {
//@@ include str.inc
fn umin(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }

//@@ struct crates/ass-core/parser/ast/span.rs Span derive(Clone, Copy)
//@@ struct crates/ass-core/parser/incremental/range_adjust.rs TextChange

// ---- specification: what an edit does to positions ---------------------------------------------------
/// where text at `p`, not inside the replaced range, stands after replacing [s,e) by n bytes
pub open spec fn moved(p: int, s: int, e: int, n: int) -> int { if p >= e { p + n - (e - s) } else { p } }
/// the text after the edit
pub open spec fn edited(src: Seq<u8>, s: int, e: int, new: Seq<u8>) -> Seq<u8> { src.subrange(0, s) + new + src.subrange(e, src.len() as int) }
/// a range that the edit does not touch names the same bytes afterwards
pub proof fn untouched(src: Seq<u8>, s: int, e: int, new: Seq<u8>, a: int, b: int)
    requires 0 <= s <= e <= src.len(), 0 <= a <= b <= src.len(), b <= s || e <= a
    ensures
        e <= a ==> edited(src, s, e, new).subrange(a + new.len() - (e - s), b + new.len() - (e - s)) =~= src.subrange(a, b),
        b <= s ==> edited(src, s, e, new).subrange(a, b) =~= src.subrange(a, b),
{}

//@@ fn crates/ass-core/parser/incremental/range_adjust.rs adjust_range_for_change
//@ret r
//@re-all change\.new_text\.len\(\) => blen(change.new_text.as_str())
//@re-all (\w+\.\w+)\.min\((\w+\.\w+\.\w+)\) => umin(\1, \2)
//@spec
    requires
        change.range.start <= change.range.end, original_range.start <= original_range.end,
        original_range.end + nbytes(change.new_text@) <= usize::MAX, change.range.end + nbytes(change.new_text@) <= usize::MAX,
    ensures ({
        let (s, e, n) = (change.range.start as int, change.range.end as int, nbytes(change.new_text@));
        let (a, b) = (original_range.start as int, original_range.end as int);
        if e <= a { r.start == a + n - (e - s) && r.end == b + n - (e - s) }        // before the range: it moves as a whole
        else if s >= b { r.start == a && r.end == b }                               // after it: it stays
        else {                                                                      // overlapping: it covers what is left of it and the new text
            r.start == (if a < s { a } else { s }) && r.end == (if e >= b { s + n } else { b + n - (e - s) })
        }
    }),
//@@ end
impl Span {
//@@ fn crates/ass-core/parser/ast/span.rs Span::new
//@ret r
//@spec
    ensures r.start == start, r.end == end, r.line == line, r.column == column
//@@ end
}
//@@ fn crates/ass-core/parser/script/partial.rs Script::adjust_section_spans/adjust_span
//@ret r
//@sig-re span: &Span => span: &Span, new_len: usize, old_len: usize
//@spec
    // old_len bytes in front of the span became new_len bytes
    requires old_len <= span.start <= span.end, span.end + new_len <= usize::MAX
    ensures r.start == span.start + new_len - old_len, r.end == span.end + new_len - old_len, r.line == span.line, r.column == span.column
//@@ end

// ---- splicing ------------------------------------------------------------------------------------------
#[verifier::external_body]
fn string_with_capacity(n: usize) -> (r: String) ensures r@ == Seq::<char>::empty() { String::with_capacity(n) }
#[verifier::external_body]
fn append(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { s.push_str(t) }

//@@ fn crates/ass-core/parser/streaming/source.rs build_modified_source
//@ret r
//@re-all (original|replacement)\.len\(\) => blen(\1)
//@re String::with_capacity\( => string_with_capacity(
//@re &original\[\.\.([^\]]+)\] => bslice(original, 0, \1)
//@re &original\[([^\].]+\.\w+)\.\.\] => bslice(original, \1, blen(original))
//@re-all result\.push_str\( => append(&mut result, 
//@spec
    requires range.start <= range.end <= nbytes(original@), at_boundary(original@, range.start as int), at_boundary(original@, range.end as int),
        nbytes(original@) + nbytes(replacement@) <= usize::MAX
    ensures
        // exactly the named range is replaced
        encode_utf8(r@) == edited(encode_utf8(original@), range.start as int, range.end as int, encode_utf8(replacement@)),
//@start
    proof {
        let i = choose|i: int| 0 <= i <= original@.len() && #[trigger] off(original@, i) == range.start;
        let j = choose|j: int| 0 <= j <= original@.len() && #[trigger] off(original@, j) == range.end;
        off_zero(original@); off_end(original@);
        if j < i { off_mono(original@, j, i); off_inj(original@, i, j); }
        assert(off(original@, 0) == 0 && off(original@, i) == range.start && off(original@, j) == range.end && off(original@, original@.len() as int) == nbytes(original@));
        let a = original@.subrange(0, i); let c = original@.subrange(j, original@.len() as int);
        encode_utf8_concat(a, replacement@); encode_utf8_concat(a + replacement@, c);
        assert(Seq::<char>::empty() + a =~= a);
    }
//@@ end

// ---- section boundaries --------------------------------------------------------------------------------
#[verifier::external_body]
fn is_boundary(s: &str, i: usize) -> (r: bool) ensures r == at_boundary(s@, i as int) { s.is_char_boundary(i) }
//@@ fn crates/ass-core/parser/incremental/section_bounds.rs char_boundary_at_or_before
//@ret r
//@re offset\.min\(source\.len\(\)\) => umin(offset, blen(source))
//@re source\.is_char_boundary\(boundary\) => is_boundary(source, boundary)
//@spec
    ensures r <= offset, at_boundary(source@, r as int), r <= nbytes(source@),
        forall|p: int| r < p <= offset && p <= nbytes(source@) ==> !at_boundary(source@, p),
//@start
    proof { off_zero(source@); assert(off(source@, 0) == 0); assert(at_boundary(source@, 0)); }
//@loop 0
    invariant boundary <= offset, boundary <= nbytes(source@), at_boundary(source@, 0),
        forall|p: int| boundary < p <= offset && p <= nbytes(source@) ==> !at_boundary(source@, p),
    decreases boundary
//@@ end

pub enum ParseError { SectionNotFound }
//@@ struct crates/ass-core/parser/ast/section/section_type.rs SectionType derive(Clone, Copy)
/// h stands at byte p of b
#[verifier::opaque]
pub open spec fn occ(b: Seq<u8>, h: Seq<u8>, p: int) -> bool { 0 <= p && p + h.len() <= b.len() && b.subrange(p, p + h.len()) == h }
pub open spec fn bytes(s: Seq<char>) -> Seq<u8> { encode_utf8(s) }
#[verifier::external_body]
fn find(s: &str, h: &str) -> (r: Option<usize>)
    ensures match r { Some(p) => p + nbytes(h@) <= nbytes(s@) && occ(bytes(s@), bytes(h@), p as int) && forall|q: int| 0 <= q < p ==> !occ(bytes(s@), bytes(h@), q), None => forall|q: int| !occ(bytes(s@), bytes(h@), q) }
{ s.find(h) }
#[verifier::external_body]
fn rfind(s: &str, h: &str) -> (r: Option<usize>)
    ensures match r { Some(p) => p + nbytes(h@) <= nbytes(s@) && occ(bytes(s@), bytes(h@), p as int) && forall|q: int| p < q ==> !occ(bytes(s@), bytes(h@), q), None => forall|q: int| !occ(bytes(s@), bytes(h@), q) }
{ s.rfind(h) }
#[verifier::external_body]
fn rfind_break(s: &str) -> (r: Option<usize>)
    ensures match r { Some(p) => p < nbytes(s@) && bytes(s@)[p as int] == 10u8 && forall|q: int| p < q < nbytes(s@) ==> bytes(s@)[q] != 10u8, None => forall|q: int| 0 <= q < nbytes(s@) ==> bytes(s@)[q] != 10u8 }
{ s.rfind('\n') }
/// first byte of the line on which byte n stands
pub open spec fn ls(b: Seq<u8>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else if b[n - 1] == 10u8 { n } else { ls(b, n - 1) } }
proof fn ls_is(b: Seq<u8>, n: int, p: int)
    requires 0 <= p <= n <= b.len(), p == 0 || b[p - 1] == 10u8, forall|q: int| p <= q < n ==> b[q] != 10u8
    ensures ls(b, n) == p
    decreases n
{ if n > p { ls_is(b, n - 1, p); } }
/// first byte of the line of a character boundary
fn line_start_of(s: &str, n: usize) -> (r: usize)
    requires at_boundary(s@, n as int)
    ensures r == ls(bytes(s@), n as int), r <= n
{
    proof { off_zero(s@); off_end(s@); let i = choose|i: int| 0 <= i <= s@.len() && #[trigger] off(s@, i) == n; off_mono(s@, 0, i); assert(off(s@, 0) == 0 && off(s@, i) == n); off_mono(s@, i, s@.len() as int); }
    let t = bslice(s, 0, n);
    match rfind_break(t) {
        Some(p) => { proof { assert(forall|q: int| p < q < n ==> bytes(s@)[q] == bytes(t@)[q]); assert(bytes(s@)[p as int] == bytes(t@)[p as int]); ls_is(bytes(s@), n as int, p + 1); } p + 1 },
        None => { proof { assert(forall|q: int| 0 <= q < n ==> bytes(s@)[q] == bytes(t@)[q]); ls_is(bytes(s@), n as int, 0); } 0 },
    }
}
pub open spec fn header(h: Seq<char>) -> bool { h == "[Script Info]"@ || h == "[V4+ Styles]"@ || h == "[Events]"@ || h == "[Fonts]"@ || h == "[Graphics]"@ }
/// some section header stands at byte p
pub open spec fn header_at(b: Seq<u8>, p: int) -> bool { exists|h: Seq<char>| header(h) && occ(b, #[trigger] bytes(h), p) }
proof fn opens(h: Seq<char>) requires header(h) ensures bytes(h).len() > 0, bytes(h)[0] == 91u8, 7 <= bytes(h).len() <= 13
{
    reveal_strlit("[Script Info]"); reveal_strlit("[V4+ Styles]"); reveal_strlit("[Events]"); reveal_strlit("[Fonts]"); reveal_strlit("[Graphics]");
    off_zero(h); byte_at(h, 0); assert(is_ascii_chars(h)); is_ascii_chars_encode_utf8(h);
}
/// where a header stands is a character boundary
proof fn header_boundary(s: Seq<char>, p: int) requires header_at(bytes(s), p) ensures at_boundary(s, p)
{
    let h = choose|h: Seq<char>| header(h) && occ(bytes(s), #[trigger] bytes(h), p);
    reveal(occ); opens(h); assert(bytes(s).subrange(p, p + bytes(h).len())[0] == 91u8);
    let i = ascii_byte(s, p); assert(off(s, i) == p);
}
proof fn tail_occ(b: Seq<u8>, a: int, h: Seq<u8>)
    requires 0 <= a <= b.len()
    ensures forall|q: int| 0 <= q ==> #[trigger] occ(b.subrange(a, b.len() as int), h, q) == occ(b, h, a + q),
        forall|q: int| a <= q ==> #[trigger] occ(b, h, q) == occ(b.subrange(a, b.len() as int), h, q - a),
{
    reveal(occ);
    assert forall|q: int| 0 <= q implies #[trigger] occ(b.subrange(a, b.len() as int), h, q) == occ(b, h, a + q) by {
        if q + h.len() + a <= b.len() { assert(b.subrange(a, b.len() as int).subrange(q, q + h.len()) =~= b.subrange(a + q, a + q + h.len())); }
    }
    assert forall|q: int| a <= q implies #[trigger] occ(b, h, q) == occ(b.subrange(a, b.len() as int), h, q - a) by {
        assert(occ(b.subrange(a, b.len() as int), h, q - a) == occ(b, h, a + (q - a)));
    }
}
proof fn window_occ(b: Seq<u8>, a: int, z: int, h: Seq<u8>)
    requires 0 <= a <= z <= b.len()
    ensures forall|q: int| 0 <= q ==> #[trigger] occ(b.subrange(a, z), h, q) == (occ(b, h, a + q) && a + q + h.len() <= z),
        forall|q: int| a <= q && q + h.len() <= z ==> #[trigger] occ(b, h, q) == occ(b.subrange(a, z), h, q - a),
{
    reveal(occ);
    assert forall|q: int| 0 <= q implies #[trigger] occ(b.subrange(a, z), h, q) == (occ(b, h, a + q) && a + q + h.len() <= z) by {
        if q + h.len() + a <= z { assert(b.subrange(a, z).subrange(q, q + h.len()) =~= b.subrange(a + q, a + q + h.len())); }
    }
    assert forall|q: int| a <= q && q + h.len() <= z implies #[trigger] occ(b, h, q) == occ(b.subrange(a, z), h, q - a) by {
        assert(occ(b.subrange(a, z), h, q - a) == occ(b, h, a + (q - a)) || true);
        if q + h.len() <= z { assert(b.subrange(a, z).subrange(q - a, q - a + h.len()) =~= b.subrange(q, q + h.len())); }
    }
}
pub open spec fn boundary_before(s: Seq<char>, p: int) -> int
    decreases p
{ if p <= 0 { 0 } else if p <= nbytes(s) && at_boundary(s, p) { p } else { boundary_before(s, p - 1) } }
proof fn boundary_is(s: Seq<char>, p: int, r: int)
    requires 0 <= r <= p, at_boundary(s, r), r <= nbytes(s), forall|q: int| r < q <= p && q <= nbytes(s) ==> !at_boundary(s, q)
    ensures boundary_before(s, p) == r
    decreases p
{ if r < p { boundary_is(s, p - 1, r); } }

#[verifier::rlimit(40)]
#[verifier::spinoff_prover]
//@@ fn crates/ass-core/parser/incremental/section_bounds.rs find_section_end
//@ret r
//@re for header in &section_headers \{ => let mut hi: usize = 0; while hi < section_headers.len() { let header = section_headers[hi]; hi += 1;
//@re search_text\.find\((\w+)\) => find(search_text, \1)
//@re Some\((\w+)\.map_or\((\w+), \|(\w+): usize\| (\w+)\.min\((\w+)\)\)\) => Some(match \1 { None => \2, Some(\3) => umin(\4, \5) })
//@re (?s)min_pos\.map_or\(Ok\(source\.len\(\)\), \|pos\| (\{.*?\n    \})\) => match min_pos { None => Ok(blen(source)), Some(pos) => \1 }
//@re source\[\.\.(\w+)\]\.rfind\('\\n'\)\.map_or\(0, \|p\| p \+ 1\) => line_start_of(source, \1)
//@re &source\[(\w+)\.\.\] => bslice(source, \1, blen(source))
//@spec
    ensures r is Ok, ({
        let b = bytes(source@); let from = boundary_before(source@, end_hint as int); let e = r->Ok_0;
        // the line of the first header at or after the hint, or the end of the text
        ||| e == b.len() && forall|p: int| from <= p ==> !header_at(b, p)
        ||| exists|p: int| from <= p && #[trigger] header_at(b, p) && e == ls(b, p) && forall|q: int| from <= q < p ==> !header_at(b, q)
    }),
//@before "let search_text"
    proof {
        boundary_is(source@, end_hint0 as int, end_hint as int);
        let i = choose|i: int| 0 <= i <= source@.len() && #[trigger] off(source@, i) == end_hint;
        off_end(source@); assert(off(source@, i) == end_hint); assert(off(source@, source@.len() as int) == nbytes(source@));
    }
//@re let end_hint = char => let end_hint0 = end_hint; let end_hint = char
//@loop 0
    invariant
        section_headers@.len() == 5, hi <= 5,
        forall|k: int| 0 <= k < 5 ==> header(#[trigger] section_headers@[k]@),
        forall|h: Seq<char>| #[trigger] header(h) ==> exists|k: int| 0 <= k < 5 && h == #[trigger] section_headers@[k]@,
        bytes(search_text@) == bytes(source@).subrange(end_hint as int, nbytes(source@)), end_hint <= nbytes(source@),
        match min_pos {
            None => forall|k: int, q: int| 0 <= k < hi && end_hint <= q ==> !#[trigger] occ(bytes(source@), bytes(section_headers@[k]@), q),
            Some(p) => end_hint + p <= nbytes(source@) && header_at(bytes(source@), end_hint + p) && forall|k: int, q: int| 0 <= k < hi && end_hint <= q < end_hint + p ==> !#[trigger] occ(bytes(source@), bytes(section_headers@[k]@), q),
        }
    decreases 5 - hi
//@before "if let Some(pos)"
    proof { tail_occ(bytes(source@), end_hint as int, bytes(header@)); }
//@before "line_start_of"
    proof { header_boundary(source@, next_section_pos as int); }
//@@ end
pub open spec fn header_of(t: SectionType) -> Seq<char> {
    match t { SectionType::ScriptInfo => "[Script Info]"@, SectionType::Styles => "[V4+ Styles]"@, SectionType::Events => "[Events]"@,
        SectionType::Fonts => "[Fonts]"@, SectionType::Graphics => "[Graphics]"@ }
}
pub open spec fn sub0(a: int, b: int) -> int { if a > b { a - b } else { 0 } }
//@@ fn crates/ass-core/parser/incremental/section_bounds.rs find_section_header_start
//@ret r
//@re search_text\s*\.rfind\(header\) => rfind(search_text, header)
//@re (?s)rfind\(search_text, header\)\s*\.map_or\(Err\(ParseError::SectionNotFound\), \|pos\| (\{.*?\n        \})\) => match rfind(search_text, header) { None => { proof { let b = bytes(source@); let h = bytes(header_of(section_type)); assert(bytes(search_text@) == b.subrange(search_start as int, search_end as int)); assert forall|q: int| search_start <= q && q + h.len() <= search_end implies !occ(b, h, q) by { assert(occ(b, h, q) == occ(bytes(search_text@), h, q - search_start)); } assert(boundary_before(source@, start_hint as int) == search_end); assert(boundary_before(source@, sub0(search_end as int, h.len() as int + 100)) == search_start); } Err(ParseError::SectionNotFound) }, Some(pos) => \1 }
//@re source\[\.\.(\w+)\]\.rfind\('\\n'\)\.map_or\(0, \|p\| p \+ 1\) => line_start_of(source, \1)
//@re &source\[(\w+)\.\.(\w+)\] => bslice(source, \1, \2)
//@re header\.len\(\) => blen(header)
//@spec
    ensures ({
        let b = bytes(source@); let h = bytes(header_of(section_type));
        let to = boundary_before(source@, start_hint as int);
        let from = boundary_before(source@, sub0(to, h.len() as int + 100));
        match r {
            // the line of the last header of that section within the window before the hint
            Ok(e) => exists|p: int| from <= p && p + h.len() <= to && #[trigger] occ(b, h, p) && e == ls(b, p) && forall|q: int| p < q && q + h.len() <= to ==> !occ(b, h, q),
            Err(_) => forall|p: int| from <= p && p + h.len() <= to ==> !occ(b, h, p),
        }
    }),
//@before "let search_text"
    proof {
        opens(header@);
        assert(header@ == header_of(section_type));
        boundary_is(source@, start_hint as int, search_end as int);
        boundary_is(source@, sub0(search_end as int, nbytes(header@) + 100), search_start as int);
        let i = choose|i: int| 0 <= i <= source@.len() && #[trigger] off(source@, i) == search_end;
        let j = choose|j: int| 0 <= j <= source@.len() && #[trigger] off(source@, j) == search_start;
        if i < j { off_mono(source@, i, j); off_inj(source@, i, j); }
        assert(off(source@, i) == search_end && off(source@, j) == search_start);
        window_occ(bytes(source@), search_start as int, search_end as int, bytes(header@));
    }
//@before "line_start_of"
    proof { assert(header@ == header_of(section_type)); assert(bytes(search_text@) == bytes(source@).subrange(search_start as int, search_end as int)); assert(occ(bytes(source@), bytes(header@), header_pos as int)); header_boundary(source@, header_pos as int); }
//@before "Ok(line_start)"
    proof {
        let b = bytes(source@); let h = bytes(header_of(section_type)); let to = search_end as int;
        assert(header_pos + h.len() <= to);
        assert forall|q: int| header_pos < q && q + h.len() <= to implies !occ(b, h, q) by { assert(occ(b, h, q) == occ(bytes(search_text@), h, q - search_start)); }
        assert(boundary_before(source@, start_hint as int) == to);
        assert(boundary_before(source@, sub0(to, h.len() as int + 100)) == search_start);
    }
//@before "let search_end"
    proof { opens(header@); }
//@@ end
fn main() {}
}
