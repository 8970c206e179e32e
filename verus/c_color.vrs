use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
verus! {
//@@ include str.inc
pub enum CoreError { InvalidColor(String) }
pub open spec fn bytes(s: &str) -> Seq<u8> { encode_utf8(s@) }
pub open spec fn digit(b: u8) -> Option<int> {
    if 48 <= b <= 57 { Some(b - 48) } else if 65 <= b <= 70 { Some(b - 55) } else if 97 <= b <= 102 { Some(b - 87) } else { None }
}
pub open spec fn all_hex(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> digit(#[trigger] b[i]) is Some }
/// the number that hexadecimal digits denote
pub open spec fn hex(b: Seq<u8>) -> int decreases b.len() { if b.len() == 0 { 0 } else { hex(b.drop_last()) * 16 + (match digit(b.last()) { Some(d) => d, None => 0 }) } }
pub open spec fn starts(b: Seq<u8>, p: Seq<u8>) -> bool { b.len() >= p.len() && b.take(p.len() as int) =~= p }
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
// ---- assumed contracts of the standard library ---------------------------------------------------
#[verifier::external_body]
fn trim(s: &str) -> (r: &str) ensures r@ == trimmed(s@) { s.trim() }
#[verifier::external_body]
fn pre(s: &str, p: &str) -> (r: bool) ensures r == starts(bytes(s), bytes(p)) { s.starts_with(p) }
#[verifier::external_body]
fn strip<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>)
    ensures match r { Some(t) => starts(bytes(s), bytes(p)) && bytes(t) == bytes(s).skip(bytes(p).len() as int), None => !starts(bytes(s), bytes(p)) }
{ s.strip_prefix(p) }
#[verifier::external_body]
fn ends_amp(s: &str) -> (r: bool) ensures r == (bytes(s).len() > 0 && bytes(s).last() == 38) { s.ends_with('&') }
#[verifier::external_body]
fn only_hex(s: &str) -> (r: bool) ensures r == all_hex(bytes(s)) { s.chars().all(|c| c.is_ascii_hexdigit()) }
/// u32::from_str_radix(s, 16): an optional plus, then hexadecimal digits, of a value that fits
#[verifier::external_body]
fn radix16(s: &str) -> (r: Option<u32>)
    ensures ({ let b = bytes(s); let d = if b.len() > 0 && b[0] == 43 { b.skip(1) } else { b };
        r is Some <==> d.len() > 0 && all_hex(d) && hex(d) <= u32::MAX && (r is Some ==> r->Some_0 == hex(d)) }),
        ({ let b = bytes(s); let d = if b.len() > 0 && b[0] == 43 { b.skip(1) } else { b }; r is Some ==> r->Some_0 == hex(d) })
{ u32::from_str_radix(s, 16).ok() }
fn radix_or(s: &str) -> (r: Result<u32, CoreError>)
    ensures ({ let b = bytes(s); let d = if b.len() > 0 && b[0] == 43 { b.skip(1) } else { b };
        (r is Ok <==> d.len() > 0 && all_hex(d) && hex(d) <= u32::MAX) && (r is Ok ==> r->Ok_0 == hex(d)) })
{ match radix16(s) { Some(v) => Ok(v), None => Err(CoreError::InvalidColor(msg())) } }
#[verifier::external_body]
fn msg() -> String { String::new() }
fn unreached() -> (r: Option<u32>) requires false { None }
// ---- specification -------------------------------------------------------------------------------
/// the digits of a colour text: after an optional &H (with optional closing &) or 0x
pub open spec fn body(b: Seq<u8>) -> Option<Seq<u8>> {
    if starts(b, seq![38u8, 72]) || starts(b, seq![38u8, 104]) { Some(if b.last() == 38 { b.subrange(2, b.len() - 1) } else { b.skip(2) }) }
    else if starts(b, seq![48u8, 120]) { Some(b.skip(2)) }
    else { Some(b) }
}
/// red, green, blue from the lowest byte up, then alpha; six digits have no alpha
pub open spec fn colour_of(d: Seq<u8>) -> Option<Seq<u8>> {
    if (d.len() == 6 || d.len() == 8) && all_hex(d) { let v = hex(d); Some(seq![(v % 256) as u8, (v / 256 % 256) as u8, (v / 65536 % 256) as u8, (v / 16777216 % 256) as u8]) } else { None }
}
pub open spec fn colour(s: Seq<char>) -> Option<Seq<u8>> { match body(encode_utf8(trimmed(s))) { Some(d) => colour_of(d), None => None } }
pub open spec fn p16(n: int) -> int decreases n { if n <= 0 { 1 } else { 16 * p16(n - 1) } }
proof fn hex_bound(b: Seq<u8>) ensures 0 <= hex(b) < p16(b.len() as int) decreases b.len() {
    if b.len() > 0 { hex_bound(b.drop_last()); }
}
proof fn p16_8() ensures p16(6) == 0x100_0000, p16(8) == 0x1_0000_0000 { reveal_with_fuel(p16, 10); }
proof fn p16_mono(a: int, b: int) requires 0 <= a <= b ensures p16(a) <= p16(b), p16(a) >= 1 decreases b { if a < b { p16_mono(a, b - 1); } else if a > 0 { p16_mono(a - 1, b - 1); } }
proof fn cuts(s: Seq<char>, n: int)
    requires encode_utf8(s).len() == n, n >= 2, encode_utf8(s)[1] < 128
    ensures exists|i: int| 0 <= i <= s.len() && #[trigger] off(s, i) == 2
{ let i = ascii_byte(s, 1); off_step(s, i); assert(off(s, i + 1) == 2); }
proof fn cut_last(s: Seq<char>, n: int)
    requires encode_utf8(s).len() == n, n >= 1, encode_utf8(s)[n - 1] < 128
    ensures exists|j: int| 0 <= j <= s.len() && #[trigger] off(s, j) == n - 1
{ let j = ascii_byte(s, n - 1); assert(off(s, j) == n - 1); }
/// what a slice between two boundaries needs
proof fn cut2(s: Seq<char>, a: int, b: int)
    requires at_boundary(s, a), at_boundary(s, b), a <= b
    ensures exists|i: int, j: int| 0 <= i <= j <= s.len() && #[trigger] off(s, i) == a && #[trigger] off(s, j) == b
{
    let i = choose|i: int| 0 <= i <= s.len() && #[trigger] off(s, i) == a;
    let j = choose|j: int| 0 <= j <= s.len() && #[trigger] off(s, j) == b;
    if j < i { off_mono(s, j, i); off_step(s, j); off_mono(s, j + 1, i); }
    assert(off(s, i) == a && off(s, j) == b);
}
proof fn lits()
    ensures encode_utf8("&H"@) =~= seq![38u8, 72], encode_utf8("&h"@) =~= seq![38u8, 104], encode_utf8("0x"@) =~= seq![48u8, 120], encode_utf8("+"@) =~= seq![43u8]
{
    reveal_strlit("&H"); reveal_strlit("&h"); reveal_strlit("0x"); reveal_strlit("+");
    is_ascii_chars_encode_utf8("&H"@); is_ascii_chars_encode_utf8("&h"@); is_ascii_chars_encode_utf8("0x"@); is_ascii_chars_encode_utf8("+"@);
}
#[verifier::rlimit(60)]
//@@ fn crates/ass-core/utils/color.rs parse_bgr_color
//@ret r
//@re color_str\.trim\(\) => trim(color_str)
//@re-all (\w+)\.starts_with\((?:"(..)")\) => pre(\1, "\2")
//@re-all (\w+)\.starts_with\('\+'\) => pre(\1, "+")
//@re-all (\w+)\.ends_with\('&'\) => ends_amp(\1)
//@re-all (\w+)\.strip_prefix\((?:"(..)")\) => strip(\1, "\2")
//@re (\w+)\.chars\(\)\.all\(\|c\| c\.is_ascii_hexdigit\(\)\) => only_hex(\1)
//@re &trimmed\[2\.\.trimmed\.len\(\) - 1\] => bslice(trimmed, 2, blen(trimmed) - 1)
//@re-all format!\("[^"]*"\) => msg()
//@re u32::from_str_radix\(hex_part, 16\)\s*\.map_err\(\|_\| CoreError::InvalidColor\(msg\(\)\)\) => radix_or(hex_part)
//@re match hex_part\.len\(\) => match blen(hex_part)
//@re-all hex_part\.len\(\) => blen(hex_part)
//@spec
    ensures match r { Ok(c) => colour(color_str@) == Some(c@), Err(_) => colour(color_str@) is None }
//@start
    proof { lits(); }
//@after "trim(color_str);"
    proof {
        let s = trimmed@; let n = nbytes(s);
        if n >= 3 && encode_utf8(s)[1] < 128 && encode_utf8(s)[n - 1] < 128 { cuts(s, n); cut_last(s, n); cut2(s, 2, n - 1); }
        assert(encode_utf8(s).subrange(0, n) =~= encode_utf8(s));
        assert(starts(encode_utf8(s), seq![38u8, 72]) || starts(encode_utf8(s), seq![38u8, 104]) ==> encode_utf8(s)[1] == encode_utf8(s).take(2)[1] && encode_utf8(s)[1] != 38);
        assert(starts(encode_utf8(s), seq![38u8, 72]) ==> encode_utf8(s)[0] == encode_utf8(s).take(2)[0]);
        assert(starts(encode_utf8(s), seq![38u8, 104]) ==> encode_utf8(s)[0] == encode_utf8(s).take(2)[0]);
    }
//@before "if pre(hex_part, "+")"
    proof {
        let b = bytes(hex_part);
        assert(body(bytes(trimmed)) == Some(b));
        assert(b.len() > 0 && b[0] == 43 ==> b.take(1) =~= seq![43u8]);
        assert(starts(b, seq![43u8]) ==> b[0] == b.take(1)[0]);
        assert(digit(43u8) is None);
        hex_bound(b); p16_8();
    }
//@before "Ok(color_array)"
    proof {
        let v = hex_value; let d = bytes(hex_part);
        assert((v & 0xFF) as u8 == (v % 256) as u8 && ((v >> 8) & 0xFF) as u8 == (v / 256 % 256) as u8 && ((v >> 16) & 0xFF) as u8 == (v / 65536 % 256) as u8 && ((v >> 24) & 0xFF) as u8 == (v / 16777216 % 256) as u8) by (bit_vector);
        assert(d.len() == 6 ==> hex(d) / 16777216 == 0);
        assert(color_array@ =~= colour_of(d)->Some_0);
    }
//@@ end
pub open spec fn number(b: Seq<u8>) -> Option<u32> { if 1 <= b.len() <= 8 && all_hex(b) { Some(hex(b) as u32) } else { None } }
//@@ fn crates/ass-core/tokenizer/simd/hex.rs parse_hex_scalar_direct!
//@ret r
//@re for &byte in bytes \{ => for i in 0..bytes.len() { let byte = bytes[i];
//@spec
    ensures r == number(bytes@)
//@loop 0
    invariant 1 <= bytes@.len() <= 8, all_hex(bytes@.take(i as int)), result == hex(bytes@.take(i as int))
//@loopstart 0
    proof {
        let t = bytes@.take(i as int + 1);
        assert(t.drop_last() =~= bytes@.take(i as int)); assert(t.last() == bytes@[i as int]);
        hex_bound(bytes@.take(i as int)); hex_bound(t); p16_mono(i as int + 1, 8); p16_mono(i as int, 7); p16_8(); assert(p16(8) == 16 * p16(7));
        assert(all_hex(bytes@) ==> digit(bytes@[i as int]) is Some);
    }
//@loopend 0
    proof {
        let t = bytes@.take(i as int + 1);
        assert forall|k: int| 0 <= k < t.len() implies digit(#[trigger] t[k]) is Some by { if k < i { assert(t[k] == bytes@.take(i as int)[k]); } }
    }
//@before "Some(result)"
    proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
//@@ end
//@@ fn crates/ass-core/tokenizer/simd/hex.rs parse_hex_scalar
//@ret r
//@re hex_str\.starts_with\('\+'\) => pre(hex_str, "+")
//@re u32::from_str_radix\(hex_str, 16\)\.ok\(\) => radix16(hex_str)
//@spec
    requires 1 <= bytes(hex_str).len() <= 8
    ensures r == number(bytes(hex_str))
//@start
    proof {
        lits(); hex_bound(bytes(hex_str)); p16_mono(bytes(hex_str).len() as int, 8); p16_8(); let b = bytes(hex_str);
        assert(b.len() > 0 && b[0] == 43 ==> b.take(1) =~= seq![43u8]);
        assert(starts(b, seq![43u8]) ==> b[0] == b.take(1)[0]);
        assert(digit(43u8) is None);
    }
//@@ end
//@@ fn crates/ass-core/tokenizer/simd/hex.rs parse_hex_simd_impl!
//@frag "let bytes = hex_str.as_bytes();" "let chunks"
//@sig fn parse_hex_simd_impl(hex_str: &str) -> (r: Option<u32>)
//@spec
    requires 1 <= bytes(hex_str).len() <= 8
    ensures r == number(bytes(hex_str))
//@finish
    unreached()
//@@ end
//@@ fn crates/ass-core/tokenizer/simd/hex.rs parse_hex_u32
//@ret r
//@re hex_str\.is_empty\(\) => blen(hex_str) == 0
//@re-all hex_str\.len\(\) => blen(hex_str)
//@spec
    ensures r == number(bytes(hex_str))
//@@ end
}
fn main() {}
