// ---- trusted: the rope is a sequence of characters, and its line methods ---------------------------
pub type Chars = Seq<char>;
/// one of the line breaks ropey recognises (feature unicode_lines)
pub open spec fn is_break(c: char) -> bool { 0x0a <= c as u32 <= 0x0d || c as u32 == 0x85 || c as u32 == 0x2028 || c as u32 == 0x2029 }
/// a line starts at character i
pub open spec fn starts(s: Chars, i: int) -> bool {
    i == 0 || (0 < i <= s.len() && is_break(s[i - 1]) && !(s[i - 1] == '\r' && i < s.len() && s[i] == '\n'))
}
/// line breaks before character i: the zero-based line on which it stands
pub open spec fn ln(s: Chars, i: int) -> int
    decreases i
{ if i <= 0 { 0 } else { ln(s, i - 1) + if starts(s, i) { 1int } else { 0 } } }
/// line l starts at character i
pub open spec fn line_at(s: Chars, l: int, i: int) -> bool { 0 <= i <= s.len() && starts(s, i) && ln(s, i) == l }
/// line l is the characters i..j, its break included
pub open spec fn line_is(s: Chars, l: int, i: int, j: int) -> bool {
    line_at(s, l, i) && i <= j && (line_at(s, l + 1, j) && i < j || j == s.len() && ln(s, j) == l)
}
#[verifier::external_body]
pub struct Rope { inner: String }
#[verifier::external_body]
pub struct RopeSlice { inner: String }
#[verifier::external_body]
pub struct BackChars { inner: String }
impl Rope {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn len_bytes(&self) -> (r: usize) ensures r == nbytes(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn len_lines(&self) -> (r: usize) ensures r == ln(self@, self@.len() as int) + 1 { unimplemented!() }
    /// the line of the character that holds byte b
    #[verifier::external_body]
    pub fn byte_to_line(&self, b: usize) -> (r: usize)
        requires b <= nbytes(self@)
        ensures exists|k: int| 0 <= k <= self@.len() && #[trigger] off(self@, k) <= b && (k < self@.len() ==> b < off(self@, k + 1)) && r == ln(self@, k)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn line_to_byte(&self, l: usize) -> (r: usize)
        requires l <= ln(self@, self@.len() as int)
        ensures exists|i: int| #[trigger] line_at(self@, l as int, i) && r == off(self@, i)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn line(&self, l: usize) -> (r: RopeSlice)
        requires l <= ln(self@, self@.len() as int)
        ensures exists|i: int, j: int| #[trigger] line_is(self@, l as int, i, j) && r@ == self@.subrange(i, j)
    { unimplemented!() }
}
impl RopeSlice {
    pub uninterp spec fn view(&self) -> Seq<char>;
    /// the characters of the slice
    #[verifier::external_body]
    pub fn text(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn len_bytes(&self) -> (r: usize) ensures r == nbytes(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn len_chars(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn chars_at(&self, i: usize) -> (r: BackChars) requires i <= self@.len() ensures r.of() == self@, r.pos() == i { unimplemented!() }
}
impl BackChars {
    pub uninterp spec fn of(&self) -> Seq<char>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn prev(&mut self) -> (r: Option<char>)
        ensures final(self).of() == old(self).of(), old(self).pos() <= 0 ==> r is None && final(self).pos() == old(self).pos(),
            old(self).pos() > 0 ==> final(self).pos() == old(self).pos() - 1 && (old(self).pos() <= old(self).of().len() ==> r == Some(old(self).of()[old(self).pos() - 1]))
    { unimplemented!() }
}
#[verifier::external_body]
pub proof fn rope_fits(r: Rope) ensures nbytes(r@) < usize::MAX {}
pub proof fn ln_mono(s: Chars, i: int, j: int) requires 0 <= i <= j ensures 0 <= ln(s, i) <= ln(s, j) <= j decreases j - i + j {
    if i < j { ln_mono(s, i, j - 1); } else if i > 0 { ln_mono(s, i - 1, i - 1); }
}
/// a line starts at one place
pub proof fn line_at_one(s: Chars, l: int, i: int, j: int) requires line_at(s, l, i), line_at(s, l, j) ensures i == j {
    if i < j { ln_mono(s, i, j - 1); } if j < i { ln_mono(s, j, i - 1); }
}
/// the line a character stands on: from the start of the line to the start of the next
pub proof fn line_holds(s: Chars, k: int, i: int, j: int)
    requires 0 <= k <= s.len(), line_is(s, ln(s, k), i, j)
    ensures i <= k <= j, k < j || j == s.len()
{
    if k < i { ln_mono(s, k, i - 1); }
    if k >= j && line_at(s, ln(s, k) + 1, j) { ln_mono(s, j, k); }
}
/// a line has one extent
pub proof fn line_is_one(s: Chars, l: int, i: int, j: int, i2: int, j2: int) requires line_is(s, l, i, j), line_is(s, l, i2, j2) ensures i == i2, j == j2 {
    line_at_one(s, l, i, i2);
    if line_at(s, l + 1, j) { ln_mono(s, j, s.len() as int); }
    if line_at(s, l + 1, j2) { ln_mono(s, j2, s.len() as int); }
    if line_at(s, l + 1, j) && line_at(s, l + 1, j2) { line_at_one(s, l + 1, j, j2); }
}
