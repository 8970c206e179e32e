// ---- strings: byte offsets of characters, over vstd's UTF-8 model -------------------------------------
/// byte offset of the i-th character
pub open spec fn off(s: Seq<char>, i: int) -> int { encode_utf8(s.take(i)).len() as int }
/// encoded width of a character
pub open spec fn w(c: char) -> int { encode_scalar(c as u32).len() as int }
pub open spec fn nbytes(s: Seq<char>) -> int { encode_utf8(s).len() as int }
/// character index of a byte offset that is a character boundary
pub open spec fn at_boundary(s: Seq<char>, b: int) -> bool { exists|i: int| 0 <= i <= s.len() && #[trigger] off(s, i) == b }

pub proof fn off_zero(s: Seq<char>) ensures off(s, 0) == 0 {
    assert(s.take(0) =~= Seq::<char>::empty());
    assert(encode_utf8(Seq::<char>::empty()).len() == 0) by { reveal_with_fuel(encode_utf8, 2); }
}
pub proof fn off_end(s: Seq<char>) ensures off(s, s.len() as int) == nbytes(s) { assert(s.take(s.len() as int) =~= s); }
pub proof fn w_ascii(c: char) requires (c as u32) < 128 ensures w(c) == 1, encode_scalar(c as u32) =~= seq![c as u8] {
    encode_utf8_push(Seq::empty(), c);
    is_ascii_chars_encode_utf8(seq![c]);
    assert(Seq::<char>::empty().push(c) =~= seq![c]);
    assert(encode_utf8(Seq::<char>::empty()).len() == 0) by { reveal_with_fuel(encode_utf8, 2); }
    assert(encode_utf8(seq![c]) =~= encode_scalar(c as u32));
    assert(encode_utf8(seq![c]).len() == 1);
    assert(encode_utf8(seq![c])[0] == c as u8);
}
pub proof fn w_range(c: char) ensures 1 <= w(c) <= 4, (w(c) == 1) == ((c as u32) < 128) { if (c as u32) < 128 { w_ascii(c); } reveal(encode_scalar); }
pub proof fn off_step(s: Seq<char>, i: int)
    requires 0 <= i < s.len()
    ensures off(s, i + 1) == off(s, i) + w(s[i]), 1 <= w(s[i]) <= 4, off(s, i + 1) > off(s, i), (w(s[i]) == 1) == ((s[i] as u32) < 128)
{
    encode_utf8_push(s.take(i), s[i]);
    assert(s.take(i + 1) =~= s.take(i).push(s[i]));
    w_range(s[i]);
}
pub proof fn off_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures off(s, i) <= off(s, j), j - i <= off(s, j) - off(s, i), 0 <= off(s, i), off(s, j) <= nbytes(s)
    decreases s.len() - i
{
    if i < j { off_step(s, i); off_mono(s, i + 1, j); }
    else if j < s.len() { off_step(s, j); off_mono(s, j + 1, j + 1); }
    else { off_end(s); }
}
pub proof fn off_inj(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= s.len(), 0 <= j <= s.len(), off(s, i) == off(s, j)
    ensures i == j
{ if i < j { off_mono(s, i, j); } if j < i { off_mono(s, j, i); } }
/// the bytes split at a character
pub proof fn split_at(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures encode_utf8(s) =~= encode_utf8(s.take(i)) + encode_utf8(s.skip(i)), off(s, i) <= nbytes(s),
        encode_utf8(s).subrange(0, off(s, i)) =~= encode_utf8(s.take(i)), encode_utf8(s).subrange(off(s, i), nbytes(s)) =~= encode_utf8(s.skip(i))
{ encode_utf8_concat(s.take(i), s.skip(i)); assert(s =~= s.take(i) + s.skip(i)); }
/// the byte at the offset of an ASCII character is that character
pub proof fn byte_at(s: Seq<char>, i: int)
    requires 0 <= i < s.len()
    ensures off(s, i) < nbytes(s), (s[i] as u32) < 128 ==> encode_utf8(s)[off(s, i)] == s[i] as u8,
        (s[i] as u32) >= 128 ==> encode_utf8(s)[off(s, i)] >= 128,
{
    split_at(s, i); off_step(s, i); off_mono(s, i + 1, i + 1);
    split_at(s.skip(i), 1);
    assert(s.skip(i).take(1) =~= seq![s[i]]);
    encode_utf8_push(Seq::empty(), s[i]);
    assert(Seq::<char>::empty().push(s[i]) =~= seq![s[i]]);
    assert(encode_utf8(Seq::<char>::empty()).len() == 0) by { reveal_with_fuel(encode_utf8, 2); }
    assert(encode_utf8(s.skip(i))[0] == encode_scalar(s[i] as u32)[0]);
    if (s[i] as u32) < 128 { w_ascii(s[i]); } else { lead(s[i]); }
}
/// every byte of a multi-byte character has its top bit set
pub proof fn lead(c: char) requires (c as u32) >= 128 ensures forall|k: int| 0 <= k < w(c) ==> #[trigger] encode_scalar(c as u32)[k] >= 128
{
    let u = c as u32;
    assert(u <= 0x10ffff);
    assert(forall|x: u8| #![auto] (0x80u8 | (x & 0x3F)) >= 128u8) by (bit_vector);
    if u < 0x800 {
        assert(encode_scalar(u)[0] == leading_byte_width_2(u));
        assert(((0xC0u8 as u8) | (((u >> 6) & 0x1F) as u8)) >= 128u8) by (bit_vector);
        assert((0x80u8 | ((u & 0x3F) as u8)) >= 128u8) by (bit_vector);
    } else if u < 0x10000 {
        assert(encode_scalar(u)[0] == leading_byte_width_3(u));
        assert(((0xE0u8 as u8) | (((u >> 12) & 0xF) as u8)) >= 128u8) by (bit_vector);
        assert((0x80u8 | (((u >> 6) & 0x3F) as u8)) >= 128u8) by (bit_vector);
        assert((0x80u8 | ((u & 0x3F) as u8)) >= 128u8) by (bit_vector);
    } else {
        assert(encode_scalar(u)[0] == leading_byte_width_4(u));
        assert(((0xF0u8 as u8) | (((u >> 18) & 0x7) as u8)) >= 128u8) by (bit_vector);
        assert((0x80u8 | (((u >> 12) & 0x3F) as u8)) >= 128u8) by (bit_vector);
        assert((0x80u8 | (((u >> 6) & 0x3F) as u8)) >= 128u8) by (bit_vector);
        assert((0x80u8 | ((u & 0x3F) as u8)) >= 128u8) by (bit_vector);
    }
}
/// an ASCII byte is an ASCII character
pub proof fn ascii_byte(s: Seq<char>, p: int) -> (i: int)
    requires 0 <= p < nbytes(s), encode_utf8(s)[p] < 128
    ensures 0 <= i < s.len(), off(s, i) == p, (s[i] as u32) < 128, s[i] as u8 == encode_utf8(s)[p]
    decreases s.len()
{
    if s.len() == 0 { off_zero(s); off_end(s); return 0; }
    off_zero(s);
    split_at(s, 1); off_step(s, 0); off_end(s);
    encode_utf8_push(Seq::empty(), s[0]);
    assert(Seq::<char>::empty().push(s[0]) =~= s.take(1));
    assert(encode_utf8(Seq::<char>::empty()).len() == 0) by { reveal_with_fuel(encode_utf8, 2); }
    assert(encode_utf8(s.take(1)) =~= encode_scalar(s[0] as u32));
    if p < w(s[0]) {
        if (s[0] as u32) >= 128 { lead(s[0]); }
        byte_at(s, 0);
        0
    } else {
        let j = ascii_byte(s.skip(1), p - w(s[0]));
        off_skip(s, 1, j);
        byte_at(s, j + 1);
        j + 1
    }
}
pub proof fn off_skip(s: Seq<char>, k: int, j: int)
    requires 0 <= k, 0 <= j, k + j <= s.len()
    ensures off(s, k + j) == off(s, k) + off(s.skip(k), j)
{
    encode_utf8_concat(s.take(k), s.skip(k).take(j));
    assert(s.take(k + j) =~= s.take(k) + s.skip(k).take(j));
}
#[verifier::external_body]
pub const fn blen(s: &str) -> (r: usize) ensures r == nbytes(s@) { s.len() }
#[verifier::external_body]
pub fn bslice<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str)
    requires a <= b, exists|i: int, j: int| 0 <= i <= j <= s@.len() && #[trigger] off(s@, i) == a && #[trigger] off(s@, j) == b
    ensures forall|i: int, j: int| 0 <= i <= j <= s@.len() && #[trigger] off(s@, i) == a && #[trigger] off(s@, j) == b ==> r@ == s@.subrange(i, j),
        encode_utf8(r@) == encode_utf8(s@).subrange(a as int, b as int)
{ &s[a..b] }
pub fn byte_get(s: &str, i: usize) -> (r: Option<u8>)
    ensures r == (if i < nbytes(s@) { Some(s.spec_bytes()[i as int]) } else { None::<u8> }), s.spec_bytes() == encode_utf8(s@)
{ let b = s.as_bytes(); if i < b.len() { Some(b[i]) } else { None } }
