use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
verus! {
//@@ include str.inc
pub enum CoreError { Utf8Error { position: usize, message: String } }
//@@ struct crates/ass-core/utils/utf8/bom.rs BomType derive(Clone, Copy, PartialEq, Eq)
pub open spec fn starts(b: Seq<u8>, p: Seq<u8>) -> bool { b.len() >= p.len() && b.take(p.len() as int) =~= p }
// ---- assumed contracts of the standard library ---------------------------------------------------
#[verifier::external_body]
fn begins(b: &[u8], p: &[u8]) -> (r: bool) ensures r == starts(b@, p@) { b.starts_with(p) }
#[verifier::external_body]
fn is_boundary(s: &str, i: usize) -> (r: bool) ensures r == at_boundary(s@, i as int) { s.is_char_boundary(i) }
/// offset of the first byte that does not belong to well-formed text
pub uninterp spec fn first_bad(b: Seq<u8>) -> int;
/// core::str::from_utf8: accepts exactly well-formed text, else names the first offending byte
#[verifier::external_body]
fn checked(b: &[u8]) -> (r: Result<(), usize>)
    ensures r is Ok <==> valid_utf8(b@), r is Err ==> r->Err_0 == first_bad(b@)
{ match core::str::from_utf8(b) { Ok(_) => Ok(()), Err(e) => Err(e.valid_up_to()) } }
#[verifier::external_body]
fn msg() -> String { String::new() }
fn checked_or(b: &[u8]) -> (r: Result<(), CoreError>)
    ensures verdict(r, b@)
{ match checked(b) { Ok(_) => Ok(()), Err(p) => Err(CoreError::Utf8Error { position: p, message: msg() }) } }
#[verifier::external_body]
fn chunk(b: &[u8], a: usize, z: usize) -> (r: &[u8]) requires a <= z <= b@.len() ensures r@ == b@.subrange(a as int, z as int) { &b[a..z] }
/// the 16 lanes, one bit each where the top bit of the byte is set
#[verifier::external_body]
fn lanes_over_127(c: &[u8]) -> (r: u32) requires c@.len() == 16 ensures (r != 0) == exists|i: int| 0 <= i < 16 && #[trigger] c@[i] >= 128 { c.iter().fold(0, |a, b| a << 1 | (*b >> 7) as u32) }
// ---- specification -------------------------------------------------------------------------------
pub open spec fn verdict(r: Result<(), CoreError>, b: Seq<u8>) -> bool {
    match r { Ok(_) => valid_utf8(b), Err(e) => !valid_utf8(b) && e->position == first_bad(b) }
}
pub open spec fn mark(t: BomType) -> Seq<u8> {
    match t { BomType::Utf8 => seq![0xEFu8, 0xBB, 0xBF], BomType::Utf16Le => seq![0xFFu8, 0xFE], BomType::Utf16Be => seq![0xFEu8, 0xFF], BomType::Utf32Le => seq![0xFFu8, 0xFE, 0, 0], BomType::Utf32Be => seq![0u8, 0, 0xFE, 0xFF] }
}
/// the text begins with this mark, and with no longer one
pub open spec fn marked(b: Seq<u8>, t: BomType) -> bool { starts(b, mark(t)) && forall|u: BomType| starts(b, #[trigger] mark(u)) ==> mark(u).len() <= mark(t).len() }
proof fn heads(b: Seq<u8>, p: Seq<u8>) requires starts(b, p), p.len() >= 2 ensures b[0] == p[0], b[1] == p[1]
{ assert(b.take(p.len() as int)[0] == b[0]); assert(b.take(p.len() as int)[1] == b[1]); }
proof fn longest(b: Seq<u8>)
    ensures starts(b, mark(BomType::Utf32Le)) ==> marked(b, BomType::Utf32Le), starts(b, mark(BomType::Utf32Be)) ==> marked(b, BomType::Utf32Be), starts(b, mark(BomType::Utf8)) ==> marked(b, BomType::Utf8),
        starts(b, mark(BomType::Utf16Le)) && !starts(b, mark(BomType::Utf32Le)) ==> marked(b, BomType::Utf16Le), starts(b, mark(BomType::Utf16Be)) ==> marked(b, BomType::Utf16Be)
{
    assert forall|t: BomType, u: BomType| starts(b, #[trigger] mark(t)) && starts(b, #[trigger] mark(u)) && (t == BomType::Utf16Le ==> !starts(b, mark(BomType::Utf32Le))) && !(u == BomType::Utf32Le && t == BomType::Utf16Le)
        implies mark(u).len() <= mark(t).len() by { heads(b, mark(t)); heads(b, mark(u)); }
}
impl BomType {
//@@ fn crates/ass-core/utils/utf8/bom.rs BomType::signature
//@ret r
//@spec
    ensures r@ == mark(self)
//@@ end
//@@ fn crates/ass-core/utils/utf8/bom.rs BomType::len
//@ret r
//@spec
    ensures r == mark(self).len()
//@@ end
}
//@@ fn crates/ass-core/utils/utf8/bom.rs detect_bom
//@ret r
//@re-all bytes\.starts_with\( => begins(bytes, 
//@spec
    ensures match r { Some((t, n)) => marked(bytes@, t) && n == mark(t).len(), None => forall|t: BomType| !starts(bytes@, #[trigger] mark(t)) }
//@start
    proof { longest(bytes@); }
//@@ end
//@@ fn crates/ass-core/utils/utf8/bom.rs strip_bom
//@ret r
//@re-all bytes\.starts_with\( => begins(bytes, 
//@re &text\[3\.\.\] => bslice(text, 3, blen(text))
//@spec
    ensures r.1 == starts(encode_utf8(text@), mark(BomType::Utf8)),
        !r.1 ==> r.0@ == text@, r.1 ==> encode_utf8(r.0@) == encode_utf8(text@).skip(3)
//@start
    proof { if starts(encode_utf8(text@), mark(BomType::Utf8)) { mark_is_a_char(text@); assert(encode_utf8(text@).subrange(3, nbytes(text@)) =~= encode_utf8(text@).skip(3)); } }
//@@ end
/// a text that begins with those three bytes begins with that character
proof fn mark_is_a_char(s: Seq<char>)
    requires starts(encode_utf8(s), mark(BomType::Utf8))
    ensures exists|i: int, j: int| 0 <= i <= j <= s.len() && #[trigger] off(s, i) == 3 && #[trigger] off(s, j) == nbytes(s)
{
    off_zero(s); off_end(s);
    if s.len() == 0 { assert(false); }
    off_step(s, 0); off_mono(s, 1, s.len() as int);
    split_at(s, 1);
    encode_utf8_push(Seq::empty(), s[0]);
    assert(Seq::<char>::empty().push(s[0]) =~= s.take(1));
    assert(encode_utf8(Seq::<char>::empty()).len() == 0) by { reveal_with_fuel(encode_utf8, 2); }
    assert(encode_utf8(s.take(1)) =~= encode_scalar(s[0] as u32));
    heads(encode_utf8(s), mark(BomType::Utf8));
    assert(encode_utf8(s)[0] == encode_scalar(s[0] as u32)[0]);
    lead_ef(s[0]);
    assert(off(s, 1) == 3); assert(off(s, s.len() as int) == nbytes(s));
}
proof fn lead_ef(c: char) requires encode_scalar(c as u32)[0] == 0xEFu8 ensures w(c) == 3
{
    let u = c as u32;
    assert(u <= 0x10ffff);
    w_range(c);
    if u < 0x80 { w_ascii(c); assert(u < 0x80 ==> (u as u8) != 0xEFu8) by (bit_vector); }
    else if u < 0x800 { assert(encode_scalar(u)[0] == leading_byte_width_2(u)); assert(u < 0x800 ==> ((0xC0u8 as u8) | (((u >> 6) & 0x1F) as u8)) != 0xEFu8) by (bit_vector); }
    else if u < 0x10000 { reveal(encode_scalar); }
    else { assert(encode_scalar(u)[0] == leading_byte_width_4(u)); assert((0xF0u8 | (((u >> 18) & 0x7) as u8)) >= 0xF0u8) by (bit_vector); }
}
//@@ fn crates/ass-core/utils/utf8/validation/truncate.rs truncate_at_char_boundary
//@ret r
//@re-all text\.len\(\) => blen(text)
//@re text\.is_char_boundary\(boundary\) => is_boundary(text, boundary)
//@re &text\[\.\.boundary\] => bslice(text, 0, boundary)
//@spec
    ensures r.1 == (nbytes(text@) > max_bytes),
        exists|i: int| 0 <= i <= text@.len() && r.0@ == #[trigger] text@.take(i) && nbytes(r.0@) <= max_bytes && (i < text@.len() ==> off(text@, i + 1) > max_bytes)
//@start
    proof { off_zero(text@); off_end(text@); assert(text@.take(text@.len() as int) =~= text@); }
//@loop 0
    invariant boundary <= max_bytes, max_bytes < nbytes(text@), off(text@, 0) == 0, forall|i: int| 0 <= i <= text@.len() && boundary < #[trigger] off(text@, i) ==> off(text@, i) > max_bytes
    decreases boundary
//@before "(bslice(text, 0, boundary)"
    proof {
        let i = choose|i: int| 0 <= i <= text@.len() && #[trigger] off(text@, i) == boundary;
        assert(at_boundary(text@, boundary as int)) by { if boundary == 0 { assert(off(text@, 0) == 0); } }
        assert(off(text@, 0) == 0 && off(text@, i) == boundary);
        assert(text@.subrange(0, i) =~= text@.take(i));
        off_end(text@);
        if i < text@.len() { off_step(text@, i); }
    }
//@@ end
//@@ fn crates/ass-core/tokenizer/simd/utf8.rs validate_utf8_scalar
//@ret r
//@re core::str::from_utf8\(bytes\)\s*\.map\(\|_\| \(\)\)\s*\.map_err\(\|e\| CoreError::utf8_error\(e\.valid_up_to\(\), format!\("\{e\}"\)\)\) => checked_or(bytes)
//@spec
    ensures verdict(r, bytes@)
//@@ end
proof fn ascii_is_valid(b: Seq<u8>) requires forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] < 128 ensures valid_utf8(b) {
    let s = Seq::new(b.len(), |i: int| b[i] as char);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i] as u32) < 128 by { assert(b[i] < 128); }
    is_ascii_chars_encode_utf8(s);
    assert(encode_utf8(s) =~= b);
    encode_utf8_valid_utf8(s);
}
//@@ fn crates/ass-core/tokenizer/simd/utf8.rs validate_utf8_simd_impl!
//@ret r
//@re let chunks = bytes\.chunks_exact\(16\);\s*let remainder = chunks\.remainder\(\); => let full = bytes.len() / 16 * 16; let remainder = chunk(bytes, full, bytes.len());
//@re for chunk in chunks \{\s*let chunk_array: \[u8; 16\] = chunk\.try_into\(\)\.unwrap\(\);\s*let simd_chunk = u8x16::from\(chunk_array\);\s*let ascii_mask = u8x16::splat\(0x80\);\s*let has_non_ascii = \(simd_chunk & ascii_mask\)\.move_mask\(\); => for i in 0..bytes.len() / 16 { let has_non_ascii = lanes_over_127(chunk(bytes, i * 16, i * 16 + 16));
//@spec
    ensures verdict(r, bytes@)
//@loop 0
    invariant forall|k: int| 0 <= k < i * 16 ==> #[trigger] bytes@[k] < 128
//@loopend 0
    proof { let c = bytes@.subrange(i * 16, i * 16 + 16); assert forall|k: int| 0 <= k < i * 16 + 16 implies #[trigger] bytes@[k] < 128 by { if k >= i * 16 { assert(c[k - i * 16] == bytes@[k]); } } }
//@before "match validate_utf8_scalar(remainder)"
    proof {
        assert(full <= bytes@.len());
        ascii_is_valid(bytes@.take(full as int));
        assert(bytes@ =~= bytes@.take(full as int) + remainder@);
        if valid_utf8(remainder@) { valid_utf8_concat(bytes@.take(full as int), remainder@); }
    }
//@@ end
//@@ fn crates/ass-core/tokenizer/simd/utf8.rs validate_utf8_batch
//@ret r
//@spec
    ensures verdict(r, bytes@)
//@@ end
fn utf8_error(position: usize, message: String) -> (r: CoreError) ensures r->position == position { CoreError::Utf8Error { position, message } }
//@@ fn crates/ass-core/utils/utf8/validation/validate.rs validate_utf8
//@ret r
//@re match str::from_utf8\(bytes\) => match checked(bytes)
//@re err\.valid_up_to\(\) => err
//@re err\.error_len\(\)\.map_or_else\([^;]*; => msg();
//@re CoreError::utf8_error\( => utf8_error(
//@spec
    ensures verdict(r, bytes@)
//@@ end
// ---- line endings --------------------------------------------------------------------------------
pub open spec fn crlf_to_lf(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { s } else if s.len() >= 2 && s[0] == '\r' && s[1] == '\n' { seq!['\n'] + crlf_to_lf(s.skip(2)) } else { seq![s[0]] + crlf_to_lf(s.skip(1)) }
}
pub open spec fn cr_to_lf(s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |i: int| if s[i] == '\r' { '\n' } else { s[i] }) }
/// each of CR LF, CR and LF becomes one LF; everything else stays
pub open spec fn normal(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { s } else if s[0] == '\r' { seq!['\n'] + normal(if s.len() >= 2 && s[1] == '\n' { s.skip(2) } else { s.skip(1) }) } else { seq![s[0]] + normal(s.skip(1)) }
}
proof fn both_steps(s: Seq<char>) ensures cr_to_lf(crlf_to_lf(s)) =~= normal(s) decreases s.len() {
    if s.len() > 0 {
        if s.len() >= 2 && s[0] == '\r' && s[1] == '\n' { both_steps(s.skip(2)); } else { both_steps(s.skip(1)); }
    }
}
/// str::replace: every occurrence from the left
#[verifier::external_body]
fn replace_crlf(s: &str) -> (r: String) ensures r@ == crlf_to_lf(s@) { s.replace("\r\n", "\n") }
#[verifier::external_body]
fn replace_cr(s: String) -> (r: String) ensures r@ == cr_to_lf(s@) { s.replace('\r', "\n") }
//@@ fn crates/ass-core/utils/utf8/normalization/line_endings.rs normalize_line_endings
//@ret r
//@re text\.replace\("\\r\\n", "\\n"\)\.replace\('\\r', "\\n"\) => replace_cr(replace_crlf(text))
//@spec
    ensures r@ == normal(text@)
//@start
    proof { both_steps(text@); }
//@@ end
}
fn main() {}
