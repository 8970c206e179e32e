use vstd::prelude::*;
verus! {
pub struct CoreError { pub id: u8 }

// ---- assumed contracts of the string functions used ----------------------------------------------
pub uninterp spec fn bytes_of(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn starts(s: Seq<char>, p: Seq<char>) -> bool;
#[verifier::external_body]
fn trim_uu<'a>(s: &'a str) -> (r: &'a str) ensures r@ == trimmed(s@) { s.trim_start().trim_end_matches(['\n', '\r']) }
#[verifier::external_body]
fn empty(s: &str) -> (r: bool) ensures r == (bytes_of(s@).len() == 0) { s.is_empty() }
#[verifier::external_body]
fn is(s: &str, t: &str) -> (r: bool) ensures r == (s@ == t@) { s == t }
#[verifier::external_body]
fn begins(s: &str, t: &str) -> (r: bool) ensures r == starts(s@, t@) { s.starts_with(t) }
#[verifier::external_body]
fn raw<'a>(s: &'a str) -> (r: &'a [u8]) ensures r@ == bytes_of(s@) { s.as_bytes() }

// ---- specification -------------------------------------------------------------------------------
pub open spec fn six(c: u8) -> int { ((c as int) - 32) % 64 }
/// value of the i-th character of the data, missing ones being blanks
pub open spec fn at(d: Seq<u8>, i: int) -> int { if 0 <= i < d.len() { six(d[i]) } else { 0 } }
/// the k-th decoded byte: eight consecutive bits of the stream of six-bit values
pub open spec fn byte(d: Seq<u8>, k: int) -> int {
    let g = 4 * (k / 3);
    if k % 3 == 0 { at(d, g) * 4 + at(d, g + 1) / 16 }
    else if k % 3 == 1 { (at(d, g + 1) % 16) * 16 + at(d, g + 2) / 4 }
    else { (at(d, g + 2) % 4) * 64 + at(d, g + 3) }
}
pub open spec fn groups(n: int) -> int { (n + 3) / 4 }
pub open spec fn min(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn decoded(d: Seq<u8>, want: int) -> Seq<u8> {
    Seq::new(min(want, 3 * groups(d.len() as int)) as nat, |k: int| byte(d, k) as u8)
}
pub enum Kind { Skip, Stop, Data(Seq<u8>) }
pub open spec fn kind(line: Seq<char>) -> Kind {
    let t = trimmed(line); let b = bytes_of(t);
    if b.len() == 0 { Kind::Skip }
    else if t == "end"@ || starts(t, "end "@) { Kind::Stop }
    else {
        let n = ((b[0] as int) - 32) % 256;
        if n > 45 { Kind::Skip } else if n == 0 { Kind::Stop } else { Kind::Data(decoded(b.subrange(1, b.len() as int), n)) }
    }
}
/// everything decoded from the first n lines
pub open spec fn upto(lines: Seq<Seq<char>>, n: int) -> (Seq<u8>, bool)
    decreases n
{
    if n <= 0 { (Seq::empty(), false) } else {
        let p = upto(lines, n - 1);
        if p.1 { p } else { match kind(lines[n - 1]) { Kind::Skip => p, Kind::Stop => (p.0, true), Kind::Data(b) => (p.0 + b, false) } }
    }
}
proof fn stopped(lines: Seq<Seq<char>>, a: int, n: int)
    requires 0 <= a <= n, upto(lines, a).1
    ensures upto(lines, n) == upto(lines, a)
    decreases n - a
{ if a < n { stopped(lines, a, n - 1); } }
pub open spec fn texts(lines: Seq<&str>) -> Seq<Seq<char>> { lines.map_values(|l: &str| l@) }

proof fn bits(g0: u8, g1: u8, g2: u8, g3: u8, c1: u8, c2: u8, c3: u8, c4: u8)
    requires c1 < 64, c2 < 64, c3 < 64, c4 < 64,
    ensures
        ((c1 << 2) | (c2 >> 4)) as int == c1 * 4 + c2 / 16,
        (((c2 & 0x0F) << 4) | (c3 >> 2)) as int == (c2 % 16) * 16 + c3 / 4,
        (((c3 & 0x03) << 6) | c4) as int == (c3 % 4) * 64 + c4,
{
    assert(((c1 << 2) | (c2 >> 4)) == c1 * 4 + c2 / 16) by (bit_vector) requires c1 < 64, c2 < 64;
    assert((((c2 & 0x0F) << 4) | (c3 >> 2)) == (c2 % 16) * 16 + c3 / 4) by (bit_vector) requires c2 < 64, c3 < 64;
    assert((((c3 & 0x03) << 6) | c4) == (c3 % 4) * 64 + c4) by (bit_vector) requires c3 < 64, c4 < 64;
}
fn sub32(b: u8) -> (r: u8) ensures r as int == ((b as int) - 32) % 256 { if b >= 32 { b - 32 } else { (224 + b) as u8 } }
proof fn mask(x: u8) ensures (x & 0x3Fu8) as int == (x as int) % 64, (x & 0x3Fu8) < 64 {
    assert((x & 0x3Fu8) == x % 64u8) by (bit_vector);
    assert((x & 0x3Fu8) < 64u8) by (bit_vector);
}
//@@ fn crates/ass-core/utils/uu.rs decode_uu_data
//@ret r
//@sig-re pub fn decode_uu_data<'a, I>\(lines: I\) => pub fn decode_uu_data<'a>(lines: Vec<&'a str>)
//@sig-re (?s)\s*where\s+I: Iterator<Item = &'a str>, => 
//@re for line in lines \{ => let mut li: usize = 0; while li < lines.len() { let line = lines[li]; li += 1;
//@re line\.trim_start\(\)\.trim_end_matches\(\['\\n', '\\r'\]\) => trim_uu(line)
//@re line\.is_empty\(\) => empty(line)
//@re line == ("[^"]*") => is(line, \1)
//@re line\.starts_with\(("[^"]*")\) => begins(line, \1)
//@re line\.as_bytes\(\) => raw(line)
//@re-all (\w+\[\d\])\.wrapping_sub\(b' '\) => sub32(\1)
//@re &input_bytes\[1\.\.\] => vstd::slice::slice_subrange(input_bytes, 1, input_bytes.len())
//@re for chunk in data_part\.chunks\(4\) \{ => let mut ci: usize = 0; while ci < data_part.len() { let hi = if data_part.len() - ci < 4 { data_part.len() } else { ci + 4 }; let chunk = vstd::slice::slice_subrange(data_part, ci, hi); ci = hi;
//@re for \(i, &byte\) in chunk\.iter\(\)\.enumerate\(\) \{ => for i in 0..chunk.len() { let byte = chunk[i];
//@re let mut decoded_bytes = Vec::new\(\) => let mut decoded_bytes: Vec<u8> = Vec::new()
//@re let mut result = Vec::new\(\) => let mut result: Vec<u8> = Vec::new()
//@spec
    requires forall|i: int| 0 <= i < lines@.len() ==> bytes_of(trimmed(#[trigger] lines@[i]@)).len() < usize::MAX,
    ensures r is Ok, r->Ok_0@ == upto(texts(lines@), lines@.len() as int).0,
//@loop 0
        invariant_except_break
            result@ == upto(texts(lines@), li as int).0, !upto(texts(lines@), li as int).1,
        invariant
            forall|i: int| 0 <= i < lines@.len() ==> bytes_of(trimmed(#[trigger] lines@[i]@)).len() < usize::MAX,
            li <= lines@.len(),
        ensures
            result@ == upto(texts(lines@), lines@.len() as int).0,
        decreases lines@.len() - li,
//@after "lines[li]; li"
        proof { reveal_with_fuel(upto, 2); assert(texts(lines@)[li - 1] == lines@[li - 1]@);
            assert(kind(lines@[li - 1]@) is Stop ==> upto(texts(lines@), li as int) == (result@, true));
            if upto(texts(lines@), li as int).1 { stopped(texts(lines@), li as int, lines@.len() as int); } }
//@loop 1
            invariant
                0 <= ci <= data_part@.len(), ci % 4 == 0 || ci == data_part@.len(),
                data_part@.len() < usize::MAX,
                decoded_bytes@.len() == 3 * groups(ci as int),
                forall|k: int| 0 <= k < decoded_bytes@.len() ==> (#[trigger] decoded_bytes@[k]) as int == byte(data_part@, k),
            decreases data_part@.len() - ci,
//@loop 2
                invariant
                    chunk@.len() <= 4, group@.len() == 4,
                    forall|k: int| 0 <= k < 4 ==> #[trigger] group@[k] == (if k < i { chunk@[k] } else { 32u8 }),
//@before "let decoded_byte1"
            let ghost lo = (3 * groups(ci as int) - 3) / 3 * 4;
            proof {
                assert forall|x: u8| (#[trigger] (x & 0x3Fu8)) as int == (x as int) % 64 && (x & 0x3Fu8) < 64 by { mask(x); }
                assert(c1 == at(data_part@, lo)); assert(c2 == at(data_part@, lo + 1)); assert(c3 == at(data_part@, lo + 2)); assert(c4 == at(data_part@, lo + 3));
                bits(0, 0, 0, 0, c1, c2, c3, c4);
            }
//@before "decoded_bytes.truncate(expected_length);"
        let ghost all = decoded_bytes@;
//@before "result.extend_from_slice"
        proof { assert(decoded_bytes@ =~= decoded(data_part@, expected_length as int)); }
//@@ end

// ---- decoding inverts encoding --------------------------------------------------------------------
/// the four six-bit values of three bytes, in the usual big-endian packing
pub open spec fn enc(a: int, b: int, c: int, i: int) -> int {
    if i == 0 { a / 4 } else if i == 1 { (a % 4) * 16 + b / 16 } else if i == 2 { (b % 16) * 4 + c / 64 } else { c % 64 }
}
/// a character encodes a six-bit value either as value + ' ' or, for zero, as a backtick
pub open spec fn encodes(ch: u8, v: int) -> bool { 0 <= v < 64 && (ch == v + 32 || (v == 0 && ch == 96)) }
proof fn round_trip(d: Seq<u8>, x: Seq<u8>)
    requires
        d.len() == 4 * groups(d.len() as int), 4 * x.len() <= 3 * d.len(),
        forall|g: int, i: int| 0 <= g < d.len() / 4 && 0 <= i < 4 ==> encodes(#[trigger] d[4 * g + i],
            enc(if 3 * g < x.len() { x[3 * g] as int } else { 0 }, if 3 * g + 1 < x.len() { x[3 * g + 1] as int } else { 0 }, if 3 * g + 2 < x.len() { x[3 * g + 2] as int } else { 0 }, i)),
    ensures decoded(d, x.len() as int) =~= x
{
    assert forall|k: int| 0 <= k < x.len() implies byte(d, k) == x[k] by {
        let g = k / 3;
        assert(0 <= g < d.len() / 4);
        let (a, b, c) = (if 3 * g < x.len() { x[3 * g] as int } else { 0 }, if 3 * g + 1 < x.len() { x[3 * g + 1] as int } else { 0 }, if 3 * g + 2 < x.len() { x[3 * g + 2] as int } else { 0 });
        assert(encodes(d[4 * g + 0], enc(a, b, c, 0)));
        assert(encodes(d[4 * g + 1], enc(a, b, c, 1)));
        assert(encodes(d[4 * g + 2], enc(a, b, c, 2)));
        assert(encodes(d[4 * g + 3], enc(a, b, c, 3)));
        assert(at(d, 4 * g) == enc(a, b, c, 0)); assert(at(d, 4 * g + 1) == enc(a, b, c, 1));
        assert(at(d, 4 * g + 2) == enc(a, b, c, 2)); assert(at(d, 4 * g + 3) == enc(a, b, c, 3));
    }
    assert(3 * groups(d.len() as int) >= x.len());
}
} // verus!
fn main() {}
