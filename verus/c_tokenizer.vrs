use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
verus! {
//@@ include str.inc
pub type Chars = Seq<char>;
pub enum CoreError { Parse, Internal }
pub type Result<T> = core::result::Result<T, CoreError>;
//@@ struct crates/ass-core/tokenizer/state/context.rs TokenContext derive(Clone, Copy, PartialEq, Eq)
//@@ struct crates/ass-core/tokenizer/tokens/token_type.rs TokenType derive(Clone, Copy)
//@@ struct crates/ass-core/tokenizer/tokens/token.rs Token derive()
//@@ struct crates/ass-core/tokenizer/scanner/navigator.rs CharNavigator pubfields "Chars<'a>" "Rest"
//@@ struct crates/ass-core/tokenizer/scanner/token_scanner.rs TokenScanner pubfields
// the part of the tokenizer that decides tokens (its issue list is left out)
pub struct AssTokenizer<'a> { pub source: &'a str, pub scanner: TokenScanner<'a>, pub context: TokenContext }

// ---- assumed contracts of the standard library ---------------------------------------------------
/// the iterator the navigator keeps beside its offset; nothing reads it
#[verifier::external_body]
pub struct Rest { }
impl Rest { #[verifier::external_body] pub fn next(&mut self) -> Option<char> { None } }
#[verifier::external_body]
pub fn rest_of(s: &str) -> Rest { Rest { } }
/// sources under 2 GiB: the nesting depth of braces is counted in an i32
pub open spec fn small(s: &str) -> bool { nbytes(s@) < i32::MAX }
#[verifier::external_body]
fn nth_char(s: &str, n: usize) -> (r: Option<char>) ensures r == (if n < s@.len() { Some(s@[n as int]) } else { None::<char> }) { s.chars().nth(n) }
#[verifier::external_body]
fn nchars(s: &str) -> (r: usize) ensures r == s@.len() { s.chars().count() }
#[verifier::external_body]
fn last_of(s: &str) -> (r: Option<char>) ensures r == (if s@.len() > 0 { Some(s@.last()) } else { None::<char> }) { s.chars().next_back() }
#[verifier::external_body]
fn find_semi(s: &str) -> (r: Option<usize>)
    ensures match r { Some(p) => exists|i: int| 0 <= i < s@.len() && s@[i] == ';' && #[trigger] off(s@, i) == p && (forall|k: int| 0 <= k < i ==> #[trigger] s@[k] != ';'), None => forall|k: int| 0 <= k < s@.len() ==> #[trigger] s@[k] != ';' }
{ s.find(';') }
#[verifier::external_body]
fn strip_amp_h(s: &str) -> (r: Option<&str>)
    ensures match r { Some(t) => amp_h(s@) && t@ == s@.skip(2), None => !amp_h(s@) }
{ s.strip_prefix("&H") }
#[verifier::external_body]
fn no_last_amp(s: &str) -> (r: &str) ensures r@ == (if s@.len() > 0 && s@.last() == '&' { s@.drop_last() } else { s@ }) { s.strip_suffix('&').unwrap_or(s) }
pub uninterp spec fn ws(c: char) -> bool;
#[verifier::external_body]
proof fn brackets_are_not_ws() ensures !ws(']'), !ws('}') { }
#[verifier::external_body]
fn is_ws(c: char) -> (r: bool) ensures r == ws(c) { c.is_whitespace() }
#[verifier::external_body]
fn all_ws(s: &str) -> (r: bool) ensures r == (forall|k: int| 0 <= k < s@.len() ==> ws(#[trigger] s@[k])) { s.chars().all(char::is_whitespace) }
#[verifier::external_body]
fn all_hex(s: &str) -> (r: bool) ensures r == hexes(s@) { s.chars().all(|c| c.is_ascii_hexdigit()) }
#[verifier::external_body]
fn all_number(s: &str) -> (r: bool) ensures r == numeric(s@, false) { s.chars().all(|c| c.is_ascii_digit() || c == '.' || c == '-') }
#[verifier::external_body]
fn all_number_or_time(s: &str) -> (r: bool) ensures r == numeric(s@, true) { s.chars().all(|c| c.is_ascii_digit() || c == '.' || c == '-' || c == ':') }
#[verifier::external_body]
fn has_mark(s: &str) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == '\u{FEFF}') { s.starts_with('\u{FEFF}') }
/// proved in c_color: one to eight hexadecimal digits and nothing else denote a number
#[verifier::external_body]
fn parse_hex_u32(s: &str) -> (r: Option<u32>) ensures hexes(s@) && 1 <= s@.len() <= 8 ==> r is Some { None }
/// proved below for a slice of bytes
fn bslice_from<'a>(s: &'a str, a: usize) -> (r: &'a str)
    requires at_boundary(s@, a as int)
    ensures forall|i: int| 0 <= i <= s@.len() && #[trigger] off(s@, i) == a ==> r@ == s@.skip(i)
{
    proof { off_end(s@); let i = choose|i: int| 0 <= i <= s@.len() && #[trigger] off(s@, i) == a; off_mono(s@, i, s@.len() as int); assert(off(s@, i) == a && off(s@, s@.len() as int) == nbytes(s@)); }
    let r = bslice(s, a, blen(s));
    proof { assert forall|i: int| 0 <= i <= s@.len() && #[trigger] off(s@, i) == a implies r@ == s@.skip(i) by { assert(off(s@, s@.len() as int) == nbytes(s@)); assert(s@.subrange(i, s@.len() as int) =~= s@.skip(i)); } }
    r
}
fn fail<T>() -> (r: Result<T>) ensures r is Err { Err(CoreError::Parse) }
fn or_err(o: Option<char>) -> (r: Result<char>) ensures r is Ok <==> o is Some, o is Some ==> r->Ok_0 == o->Some_0 { match o { Some(c) => Ok(c), None => Err(CoreError::Parse) } }

// ---- specification: lines and columns ------------------------------------------------------------
pub struct LC { pub line: int, pub col: int, pub last: Option<char> }
/// CR, LF and CR LF each end a line
pub open spec fn step(x: LC, c: char) -> LC {
    if c == '\r' { LC { line: x.line + 1, col: 1, last: Some(c) } }
    else if c == '\n' { LC { line: if x.last == Some('\r') { x.line } else { x.line + 1 }, col: 1, last: Some(c) } }
    else { LC { line: x.line, col: x.col + 1, last: Some(c) } }
}
pub open spec fn walk(s: Chars, i: int, j: int, x: LC) -> LC decreases j - i { if j <= i { x } else { step(walk(s, i, j - 1, x), s[j - 1]) } }
proof fn walk_trans(s: Chars, i: int, j: int, k: int, x: LC) requires i <= j <= k ensures walk(s, j, k, walk(s, i, j, x)) == walk(s, i, k, x) decreases k - j { if j < k { walk_trans(s, i, j, k - 1, x); } }
proof fn walk_plain(s: Chars, i: int, j: int, x: LC)
    requires 0 <= i <= j <= s.len(), forall|m: int| i <= m < j ==> #[trigger] s[m] != '\r' && s[m] != '\n'
    ensures walk(s, i, j, x) == (LC { line: x.line, col: x.col + (j - i), last: if j > i { Some(s[j - 1]) } else { x.last } })
    decreases j - i
{ if i < j { walk_plain(s, i, j - 1, x); assert(s[j - 1] != '\r'); } }
// ---- specification: kinds ------------------------------------------------------------------------
pub open spec fn delim(c: char) -> bool { c == ':' || c == ',' || c == '{' || c == '}' || c == '[' || c == ']' || c == '\n' || c == '\r' }
pub open spec fn hexdig(c: char) -> bool { '0' <= c <= '9' || 'A' <= c <= 'F' || 'a' <= c <= 'f' }
pub open spec fn hexes(s: Chars) -> bool { forall|i: int| 0 <= i < s.len() ==> hexdig(#[trigger] s[i]) }
pub open spec fn numeric(s: Chars, time: bool) -> bool { forall|i: int| 0 <= i < s.len() ==> { let c = #[trigger] s[i]; '0' <= c <= '9' || c == '.' || c == '-' || (time && c == ':') } }
pub open spec fn amp_h(s: Chars) -> bool { s.len() >= 2 && s[0] == '&' && s[1] == 'H' }
pub open spec fn digits_of(s: Chars) -> Chars { let t = s.skip(2); if t.len() > 0 && t.last() == '&' { t.drop_last() } else { t } }
pub open spec fn hex_value(s: Chars) -> bool { amp_h(s) && 2 <= digits_of(s).len() <= 8 && digits_of(s).len() % 2 == 0 && hexes(digits_of(s)) }
pub open spec fn blank(s: Chars) -> bool { s.len() > 0 && forall|k: int| 0 <= k < s.len() ==> ws(#[trigger] s[k]) }
pub open spec fn text_kind(s: Chars) -> TokenType { if hex_value(s) { TokenType::HexValue } else if s.len() > 0 && numeric(s, false) { TokenType::Number } else if blank(s) { TokenType::Whitespace } else { TokenType::Text } }
pub open spec fn field_kind(s: Chars) -> TokenType { if s.len() > 0 && numeric(s, true) { TokenType::Number } else if blank(s) { TokenType::Whitespace } else { TokenType::Text } }
pub open spec fn ends_text(c: char, ctx: TokenContext) -> bool { if ctx is FieldValue { c != ':' && delim(c) } else { delim(c) || (c == ';' && ctx is Document) } }
pub open spec fn ends_field(c: char) -> bool { c == ',' || c == '\n' || c == '\r' || c == '{' || c == '[' }
pub open spec fn eol(c: char) -> bool { c == '\n' || c == '\r' }
/// j is the first place from i on where `p` holds, or the end
pub open spec fn upto(s: Chars, i: int, j: int, p: spec_fn(char) -> bool) -> bool { i <= j <= s.len() && (forall|m: int| i <= m < j ==> !p(#[trigger] s[m])) && (j < s.len() ==> p(s[j])) }
/// depth of braces in s[i..j), starting at d
pub open spec fn depth(s: Chars, i: int, j: int, d: int) -> int decreases j - i { if j <= i { d } else { let e = depth(s, i, j - 1, d); if s[j - 1] == '{' { e + 1 } else if s[j - 1] == '}' { e - 1 } else { e } } }
/// j is the brace that closes the block opened just before i, or the end
pub open spec fn closes(s: Chars, i: int, j: int) -> bool { i <= j <= s.len() && (forall|m: int| i < m <= j ==> #[trigger] depth(s, i, m, 1) >= 1) && (j < s.len() ==> s[j] == '}' && depth(s, i, j, 1) == 1) }
/// what the token that starts at i in this context is, where it ends, and the context after it
pub open spec fn token(s: Chars, i: int, ctx: TokenContext, t: TokenType, j: int, ctx2: TokenContext) -> bool {
    let c = s[i];
    if c == '[' { t is SectionHeader && upto(s, i + 1, j, |x: char| x == ']') && ctx2 is SectionHeader }
    else if c == ']' && ctx is SectionHeader { t is SectionClose && j == i + 1 && ctx2 is Document }
    else if c == ':' && ctx is Document { t is Colon && j == i + 1 && ctx2 is FieldValue }
    else if c == '{' { t is OverrideBlock && closes(s, i + 1, j) && ctx2 is StyleOverride }
    else if c == '}' && ctx is StyleOverride { t is OverrideClose && j == i + 1 && ctx2 is Document }
    else if c == ',' { t is Comma && j == i + 1 && ctx2 == ctx }
    else if eol(c) { t is Newline && j == (if c == '\r' && i + 1 < s.len() && s[i + 1] == '\n' { i + 2 } else { i + 1 }) && ctx2 is Document }
    else if (c == ';' || (c == '!' && i + 1 < s.len() && s[i + 1] == ':')) && ctx is Document { t is Comment && upto(s, i, j, |x: char| eol(x)) && ctx2 == ctx }
    else if c == '}' || c == ']' { t is Text && j == i + 1 && ctx2 == ctx }
    else if ctx is FieldValue { t == field_kind(s.subrange(i, j)) && upto(s, i, j, |x: char| ends_field(x)) && ctx2 == ctx }
    else { t == text_kind(s.subrange(i, j)) && upto(s, i, j, |x: char| ends_text(x, ctx)) && ctx2 == ctx }
}
// ---- the navigator -------------------------------------------------------------------------------
impl<'a> CharNavigator<'a> {
    pub open spec fn s(&self) -> Chars { self.source@ }
    /// index of the character it stands at
    pub open spec fn k(&self) -> int { choose|k: int| 0 <= k <= self.s().len() && #[trigger] off(self.s(), k) == self.position }
    pub open spec fn lc(&self) -> LC { LC { line: self.line as int, col: self.column as int, last: self.last_char } }
    pub open spec fn ok(&self) -> bool {
        &&& at_boundary(self.s(), self.position as int) && small(self.source)
        &&& self.line >= 1 && self.column >= 1 && self.line + self.column <= self.position + 2
        &&& self.peek_char is Some ==> self.k() < self.s().len() && self.peek_char->Some_0 == self.s()[self.k()]
    }
    pub proof fn at(&self, k: int) requires 0 <= k <= self.s().len(), off(self.s(), k) == self.position ensures self.k() == k
    { let m = self.k(); off_inj(self.s(), k, m); }
    pub proof fn here(&self) requires self.ok() ensures 0 <= self.k() <= self.s().len(), off(self.s(), self.k()) == self.position, (self.k() == self.s().len()) == (self.position >= nbytes(self.s())), self.k() < self.s().len() ==> self.position < nbytes(self.s())
    {
        let k = self.k(); off_end(self.s());
        if k < self.s().len() { off_step(self.s(), k); off_mono(self.s(), k + 1, self.s().len() as int); }
    }
    /// moved forward from k0, keeping count of lines and columns
    pub open spec fn from(&self, o: CharNavigator<'a>) -> bool { self.ok() && self.source == o.source && o.k() <= self.k() && self.lc() == walk(o.s(), o.k(), self.k(), o.lc()) }
//@@ fn crates/ass-core/tokenizer/scanner/navigator.rs CharNavigator::new
//@ret r
//@re source\[position\.\.\]\.chars\(\) => rest_of(bslice_from(source, position))
//@spec
    requires small(source), at_boundary(source@, position as int), line >= 1, column >= 1, line + column <= position + 2
    ensures r.ok(), r.source == source, r.position == position, r.lc() == (LC { line: line as int, col: column as int, last: None })
//@@ end
//@@ fn crates/ass-core/tokenizer/scanner/navigator.rs CharNavigator::position
//@ret r
//@spec
    ensures r == self.position
//@@ end
//@@ fn crates/ass-core/tokenizer/scanner/navigator.rs CharNavigator::line
//@ret r
//@spec
    ensures r == self.line
//@@ end
//@@ fn crates/ass-core/tokenizer/scanner/navigator.rs CharNavigator::column
//@ret r
//@spec
    ensures r == self.column
//@@ end
//@@ fn crates/ass-core/tokenizer/scanner/navigator.rs CharNavigator::is_at_end
//@ret r
//@re self\.source\.len\(\) => blen(self.source)
//@spec
    requires self.ok()
    ensures r == (self.k() == self.s().len())
//@start
    proof { self.here(); }
//@@ end
//@@ fn crates/ass-core/tokenizer/scanner/navigator.rs CharNavigator::peek_char
//@ret r
//@re self\.source\.len\(\) => blen(self.source)
//@re self\.source\[self\.position\.\.\]\.chars\(\)\.next\(\)\.ok_or_else\(\|\| \{\s*CoreError::parse\([^;]*\)\s*\}\)\? => or_err(nth_char(bslice_from(self.source, self.position), 0))?
//@re Err\(CoreError::parse\("[^"]*"\.to_string\(\)\)\) => fail()
//@spec
    requires old(self).ok()
    ensures final(self).ok(), final(self).source == old(self).source, final(self).position == old(self).position, final(self).lc() == old(self).lc(), final(self).k() == old(self).k(),
        match r { Ok(c) => old(self).k() < old(self).s().len() && c == old(self).s()[old(self).k()], Err(_) => old(self).k() == old(self).s().len() }
//@start
    proof { self.here(); }
//@@ end
//@@ fn crates/ass-core/tokenizer/scanner/navigator.rs CharNavigator::peek_next
//@ret r
//@re let mut chars = self\.source\[self\.position\.\.\]\.chars\(\);\s*chars\.next\(\);\s*chars\s*\.next\(\)\s*\.ok_or_else\(\|\| CoreError::parse\("[^"]*"\.to_string\(\)\)\) => or_err(nth_char(bslice_from(self.source, self.position), 1))
//@spec
    requires self.ok()
    ensures match r { Ok(c) => self.k() + 1 < self.s().len() && c == self.s()[self.k() + 1], Err(_) => self.k() + 1 >= self.s().len() }
//@start
    proof { self.here(); }
//@@ end
//@@ fn crates/ass-core/tokenizer/scanner/navigator.rs CharNavigator::advance_char
//@ret r
//@spec
    requires old(self).ok()
    ensures final(self).ok(), final(self).source == old(self).source,
        match r {
            Ok(c) => old(self).k() < old(self).s().len() && c == old(self).s()[old(self).k()] && final(self).k() == old(self).k() + 1 && final(self).lc() == step(old(self).lc(), c) && final(self).from(*old(self)),
            Err(_) => old(self).k() == old(self).s().len() && final(self).k() == old(self).k() && final(self).lc() == old(self).lc(),
        }
//@before "self.position += ch"
        proof {
            let s = self.s(); let k = self.k(); self.here(); off_step(s, k); off_mono(s, k + 1, s.len() as int);

        }
//@before "Ok(ch)"
        proof { self.at(old(self).k() + 1); assert(off(self.s(), old(self).k() + 1) == self.position); reveal_with_fuel(walk, 2); }
//@@ end
//@@ fn crates/ass-core/tokenizer/scanner/navigator.rs CharNavigator::skip_to!
//@re &self\.source\[self\.position\.\.position\] => bslice(self.source, self.position, position)
//@re skipped\.chars\(\)\.count\(\) => nchars(skipped)
//@re skipped\.chars\(\)\.next_back\(\) => last_of(skipped)
//@re self\.source\[position\.\.\]\.chars\(\) => rest_of(bslice_from(self.source, position))
//@spec
    requires old(self).ok(), exists|j: int| old(self).k() <= j <= old(self).s().len() && #[trigger] off(old(self).s(), j) == position && (forall|m: int| old(self).k() <= m < j ==> !eol(#[trigger] old(self).s()[m]))
    ensures final(self).from(*old(self)), final(self).position == position
//@start
    let ghost k = self.k();
    let ghost s = self.s();
    proof {
        let j = choose|j: int| k <= j <= s.len() && #[trigger] off(s, j) == position && (forall|m: int| k <= m < j ==> !eol(#[trigger] s[m]));
        self.here(); off_mono(s, k, j); off_mono(s, j, j);
        assert(off(s, k) == self.position && off(s, j) == position);
        walk_plain(s, k, j, self.lc());
        assert(j > k ==> s.subrange(k, j).last() == s[j - 1]);
    }
//@finish
    proof {
        let j = choose|j: int| k <= j <= s.len() && #[trigger] off(s, j) == position && (forall|m: int| k <= m < j ==> !eol(#[trigger] s[m]));
        self.at(j);
    }
//@@ end
//@@ fn crates/ass-core/tokenizer/scanner/navigator.rs CharNavigator::skip_whitespace
//@re self\.source\.len\(\) => blen(self.source)
//@re ch\.is_whitespace\(\) => is_ws(ch)
//@spec
    requires old(self).ok()
    ensures final(self).from(*old(self)), upto(old(self).s(), old(self).k(), final(self).k(), |c: char| !ws(c) || eol(c))
//@loop 0
    invariant_except_break self.from(*old(self)), (self.k() == self.s().len()) == (self.position >= nbytes(self.s())), forall|m: int| old(self).k() <= m < self.k() ==> ws(#[trigger] self.s()[m]) && !eol(self.s()[m])
    ensures self.from(*old(self)), upto(old(self).s(), old(self).k(), self.k(), |c: char| !ws(c) || eol(c))
    decreases self.s().len() - self.k()
//@start
    proof { self.here(); }
//@loopstart 0
    proof { self.here(); walk_trans(self.s(), old(self).k(), self.k(), self.k() + 1, old(self).lc()); reveal_with_fuel(walk, 2); }
//@after "let _ = self.advance_char"
    proof { self.here(); }
//@@ end
}

impl TokenContext {
//@@ fn crates/ass-core/tokenizer/state/context.rs TokenContext::allows_whitespace_skipping
//@ret r
//@spec
    ensures r == !(self is FieldValue || self is UuEncodedData)
//@@ end
//@@ fn crates/ass-core/tokenizer/state/context.rs TokenContext::enter_field_value
//@ret r
//@spec
    ensures r == (if self is Document { TokenContext::FieldValue } else { self })
//@@ end
//@@ fn crates/ass-core/tokenizer/state/context.rs TokenContext::reset_to_document
//@ret r
//@spec
    ensures r is Document
//@@ end
}
// ---- the first delimiter -------------------------------------------------------------------------
pub open spec fn bdelim(b: u8) -> bool { b == 58 || b == 44 || b == 123 || b == 125 || b == 91 || b == 93 || b == 10 || b == 13 }
/// the first delimiter byte
pub open spec fn first_delim(b: Seq<u8>, r: Option<usize>) -> bool {
    match r { Some(p) => p < b.len() && bdelim(b[p as int]) && forall|k: int| 0 <= k < p ==> !bdelim(#[trigger] b[k]), None => forall|k: int| 0 <= k < b.len() ==> !bdelim(#[trigger] b[k]) }
}
#[verifier::external_body]
fn part(b: &[u8], a: usize, z: usize) -> (r: &[u8]) requires a <= z <= b@.len() ensures r@ == b@.subrange(a as int, z as int) { &b[a..z] }
/// the lanes of a 16-byte group equal to one byte, one bit each (wide::u8x16::cmp_eq and move_mask)
pub open spec fn lane(m: u32, i: int) -> bool { 0 <= i < 16 && (m >> (i as u32)) & 1 == 1 }
pub uninterp spec fn lanes(c: Seq<u8>, b: u8) -> u32;
#[verifier::external_body]
fn lanes_eq(c: &[u8], b: u8) -> (r: u32) requires c@.len() == 16 ensures r == lanes(c@, b), r < 0x1_0000, forall|i: int| 0 <= i < 16 ==> (#[trigger] lane(r, i) == (c@[i] == b))
{ let mut m = 0; for i in 0..16 { if c[i] == b { m |= 1u32 << i; } } m }
proof fn lane_or(a: u32, b: u32, i: int) requires 0 <= i < 16 ensures lane(a | b, i) == (lane(a, i) || lane(b, i)) {
    let k = i as u32;
    assert(k < 16 ==> ((((a | b) >> k) & 1 == 1) == (((a >> k) & 1 == 1) || ((b >> k) & 1 == 1)))) by (bit_vector);
}
proof fn or8(a: u32, b: u32, c: u32, d: u32, e: u32, f: u32, g: u32, h: u32)
    requires a < 0x1_0000, b < 0x1_0000, c < 0x1_0000, d < 0x1_0000, e < 0x1_0000, f < 0x1_0000, g < 0x1_0000, h < 0x1_0000
    ensures (a | b | c | d | e | f | g | h) < 0x1_0000
{ assert(a < 0x1_0000 && b < 0x1_0000 && c < 0x1_0000 && d < 0x1_0000 && e < 0x1_0000 && f < 0x1_0000 && g < 0x1_0000 && h < 0x1_0000 ==> (a | b | c | d | e | f | g | h) < 0x1_0000) by (bit_vector); }
proof fn lane_lowest(m: u32, z: u32)
    requires m != 0, m < 0x1_0000, z < 32, (m >> z) & 1 == 1, forall|j: u32| j < z ==> (#[trigger] (m >> j)) & 1 == 0
    ensures z < 16, lane(m, z as int), forall|j: int| 0 <= j < z ==> !#[trigger] lane(m, j)
{
    assert(m < 0x1_0000 && z < 32 && (m >> z) & 1 == 1 ==> z < 16) by (bit_vector);
    assert forall|j: int| 0 <= j < z implies !#[trigger] lane(m, j) by { assert((m >> (j as u32)) & 1 == 0); }
}
proof fn lane_none(m: u32, i: int) requires m == 0 ensures !lane(m, i) { let k = i as u32; if 0 <= i < 16 { assert(k < 16 ==> (0u32 >> k) & 1 == 0) by (bit_vector); } }
/// u32::trailing_zeros
#[verifier::external_body]
fn lowest_bit(m: u32) -> (r: u32) requires m != 0 ensures r < 32, (m >> r) & 1 == 1, forall|j: u32| j < r ==> (#[trigger] (m >> j)) & 1 == 0 { m.trailing_zeros() }
//@@ fn crates/ass-core/tokenizer/simd/delimiters.rs scan_delimiters_scalar
//@ret r
//@re for \(i, &byte\) in bytes\.iter\(\)\.enumerate\(\) \{ => for i in 0..bytes.len() { let byte = bytes[i];
//@spec
    ensures first_delim(bytes@, r)
//@loop 0
    invariant forall|k: int| 0 <= k < i ==> !bdelim(#[trigger] bytes@[k])
//@@ end
#[verifier::loop_isolation(false)]
//@@ fn crates/ass-core/tokenizer/simd/delimiters.rs scan_delimiters_simd_impl!
//@ret r
//@re-all let (\w+) = u8x16::splat\((b'[^']+')\); => let \1 = \2;
//@re let chunks = bytes\.chunks_exact\(16\);\s*let remainder = chunks\.remainder\(\); => let full = bytes.len() / 16 * 16; let remainder = part(bytes, full, bytes.len());
//@re for \(chunk_idx, chunk\) in chunks\.enumerate\(\) \{\s*let chunk_array: \[u8; 16\] = chunk\.try_into\(\)\.unwrap\(\);\s*let simd_chunk = u8x16::from\(chunk_array\); => for chunk_idx in 0..bytes.len() / 16 { let simd_chunk = part(bytes, chunk_idx * 16, chunk_idx * 16 + 16);
//@re-all simd_chunk\.cmp_eq\( => lanes_eq(simd_chunk, 
//@re mask\.move_mask\(\) => mask
//@re mask_bits\.trailing_zeros\(\) => lowest_bit(mask_bits)
//@re !remainder\.is_empty\(\) => remainder.len() > 0
//@spec
    ensures first_delim(bytes@, r)
//@loop 0
    invariant forall|k: int| 0 <= k < chunk_idx * 16 ==> !bdelim(#[trigger] bytes@[k])
//@before "if mask_bits != 0"
            proof {
                let c = simd_chunk@;
                let (m1, m2, m3, m4, m5, m6, m7, m8) = (lanes(c, 58), lanes(c, 44), lanes(c, 123), lanes(c, 125), lanes(c, 91), lanes(c, 93), lanes(c, 10), lanes(c, 13));
                assert(mask_bits < 0x1_0000) by { or8(m1, m2, m3, m4, m5, m6, m7, m8); }
                assert forall|i: int| 0 <= i < 16 implies #[trigger] lane(mask_bits, i) == bdelim(c[i]) by {
                    lane_or(m1, m2, i); lane_or(m1 | m2, m3, i); lane_or(m1 | m2 | m3, m4, i); lane_or(m1 | m2 | m3 | m4, m5, i);
                    lane_or(m1 | m2 | m3 | m4 | m5, m6, i); lane_or(m1 | m2 | m3 | m4 | m5 | m6, m7, i); lane_or(m1 | m2 | m3 | m4 | m5 | m6 | m7, m8, i);
                    assert(lane(m1, i) == (c[i] == 58)); assert(lane(m2, i) == (c[i] == 44)); assert(lane(m3, i) == (c[i] == 123)); assert(lane(m4, i) == (c[i] == 125));
                    assert(lane(m5, i) == (c[i] == 91)); assert(lane(m6, i) == (c[i] == 93)); assert(lane(m7, i) == (c[i] == 10)); assert(lane(m8, i) == (c[i] == 13));
                }
                assert forall|k: int| chunk_idx * 16 <= k < chunk_idx * 16 + 16 implies bytes@[k] == #[trigger] c[k - chunk_idx * 16] by { }
            }
//@after "let first_match"
            proof {
                lane_lowest(mask_bits, first_match as u32);
                let c = simd_chunk@;
                assert(lane(mask_bits, first_match as int));
                assert forall|k: int| 0 <= k < chunk_idx * 16 + first_match implies !bdelim(#[trigger] bytes@[k]) by { if k >= chunk_idx * 16 { assert(bytes@[k] == c[k - chunk_idx * 16]); assert(!lane(mask_bits, k - chunk_idx * 16)); } }
            }
//@loopend 0
            proof {
                let c = simd_chunk@;
                assert forall|k: int| 0 <= k < chunk_idx * 16 + 16 implies !bdelim(#[trigger] bytes@[k]) by { if k >= chunk_idx * 16 { assert(bytes@[k] == c[k - chunk_idx * 16]); lane_none(mask_bits, k - chunk_idx * 16); } }
            }
//@before "if remainder.len() > 0"
        proof { assert(forall|k: int| 0 <= k < full ==> !bdelim(#[trigger] bytes@[k])); assert forall|k: int| full <= k < bytes@.len() implies #[trigger] bytes@[k] == remainder@[k - full] by { } assert(full <= bytes@.len()); assert(remainder@.len() < 16); }
//@@ end
//@@ fn crates/ass-core/tokenizer/simd/delimiters.rs scan_delimiters
//@ret r
//@spec
    ensures first_delim(encode_utf8(text@), r)
//@@ end

proof fn walk1(s: Chars, i: int, j: int, x: LC) requires i <= j ensures walk(s, i, j + 1, x) == step(walk(s, i, j, x), s[j]), walk(s, i, i, x) == x { }
pub open spec fn to_delim(s: Chars, i: int, j: int) -> bool { 0 <= i <= j <= s.len() && (forall|m: int| i <= m < j ==> !delim(#[trigger] s[m])) && (j < s.len() ==> delim(s[j])) }
/// the first delimiter byte is the first delimiter character
proof fn first_char(s: Chars, p: int) -> (i: int)
    requires first_delim(encode_utf8(s), Some(p as usize)), 0 <= p <= usize::MAX
    ensures 0 <= i < s.len(), off(s, i) == p, delim(s[i]), forall|m: int| 0 <= m < i ==> !delim(#[trigger] s[m])
{
    let i = ascii_byte(s, p);
    byte_at(s, i);
    assert forall|m: int| 0 <= m < i implies !delim(#[trigger] s[m]) by { byte_at(s, m); off_mono(s, m, i); off_step(s, m); off_mono(s, m + 1, i); assert(!bdelim(encode_utf8(s)[off(s, m)])); }
    i
}
proof fn no_char(s: Chars) requires first_delim(encode_utf8(s), None) ensures forall|m: int| 0 <= m < s.len() ==> !delim(#[trigger] s[m])
{ assert forall|m: int| 0 <= m < s.len() implies !delim(#[trigger] s[m]) by { byte_at(s, m); off_step(s, m); off_mono(s, m, m); assert(!bdelim(encode_utf8(s)[off(s, m)])); } }
proof fn ascii_len(s: Chars) requires hexes(s) ensures nbytes(s) == s.len() decreases s.len() {
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i] as u32) < 128 by { assert(hexdig(s[i])); }
    is_ascii_chars_encode_utf8(s);
}
impl<'a> TokenScanner<'a> {
    pub open spec fn ok(&self) -> bool { self.navigator.ok() && self.source@ == self.navigator.s() }
    pub open spec fn from(&self, o: TokenScanner<'a>) -> bool { self.navigator.from(o.navigator) && self.source == o.source }
//@@ fn crates/ass-core/tokenizer/scanner/token_scanner.rs TokenScanner::new
//@ret r
//@spec
    requires small(source), at_boundary(source@, position as int), line >= 1, column >= 1, line + column <= position + 2
    ensures r.ok(), r.source == source, r.navigator.position == position, r.navigator.lc() == (LC { line: line as int, col: column as int, last: None })
//@@ end
//@@ fn crates/ass-core/tokenizer/scanner/token_scanner.rs TokenScanner::scan_section_header
//@ret r
//@spec
    requires old(self).ok(), old(self).navigator.k() < old(self).navigator.s().len()
    ensures final(self).from(*old(self)), r is Ok && r->Ok_0 is SectionHeader, upto(old(self).navigator.s(), old(self).navigator.k() + 1, final(self).navigator.k(), |x: char| x == ']')
//@start
    let ghost o = self.navigator; proof { o.here(); walk1(o.s(), o.k(), o.k(), o.lc()); }
//@loop 0
    invariant_except_break self.navigator.from(o), self.source == old(self).source, o.k() < self.navigator.k(), forall|m: int| o.k() < m < self.navigator.k() ==> o.s()[m] != ']'
    ensures self.navigator.from(o), self.source == old(self).source, upto(o.s(), o.k() + 1, self.navigator.k(), |x: char| x == ']')
    decreases o.s().len() - self.navigator.k()
//@loopstart 0
    proof { self.navigator.here(); walk1(o.s(), o.k(), self.navigator.k(), o.lc()); }
//@@ end
//@@ fn crates/ass-core/tokenizer/scanner/token_scanner.rs TokenScanner::scan_comment
//@ret r
//@spec
    requires old(self).ok()
    ensures final(self).from(*old(self)), r is Ok && r->Ok_0 is Comment, upto(old(self).navigator.s(), old(self).navigator.k(), final(self).navigator.k(), |x: char| eol(x))
//@start
    let ghost o = self.navigator; proof { o.here(); }
//@loop 0
    invariant_except_break self.navigator.from(o), self.source == old(self).source, forall|m: int| o.k() <= m < self.navigator.k() ==> !eol(#[trigger] o.s()[m])
    ensures self.navigator.from(o), self.source == old(self).source, upto(o.s(), o.k(), self.navigator.k(), |x: char| eol(x))
    decreases o.s().len() - self.navigator.k()
//@loopstart 0
    proof { self.navigator.here(); walk1(o.s(), o.k(), self.navigator.k(), o.lc()); }
//@@ end
//@@ fn crates/ass-core/tokenizer/scanner/token_scanner.rs TokenScanner::scan_style_override
//@ret r
//@spec
    requires old(self).ok(), old(self).navigator.k() < old(self).navigator.s().len()
    ensures final(self).from(*old(self)), r is Ok && r->Ok_0 is OverrideBlock, closes(old(self).navigator.s(), old(self).navigator.k() + 1, final(self).navigator.k())
//@start
    let ghost o = self.navigator; proof { o.here(); walk1(o.s(), o.k(), o.k(), o.lc()); off_mono(o.s(), 0, o.s().len() as int); off_end(o.s()); off_zero(o.s()); }
//@loop 0
    invariant self.navigator.from(o), self.source == old(self).source, o.k() < self.navigator.k(), 0 <= o.k(), o.s().len() < i32::MAX, 0 <= brace_depth <= self.navigator.k() - o.k(),
        brace_depth > 0 ==> depth(o.s(), o.k() + 1, self.navigator.k(), 1) == brace_depth,
        brace_depth == 0 ==> self.navigator.k() < o.s().len() && o.s()[self.navigator.k()] == '}' && depth(o.s(), o.k() + 1, self.navigator.k(), 1) == 1,
        forall|m: int| o.k() + 1 < m <= self.navigator.k() ==> #[trigger] depth(o.s(), o.k() + 1, m, 1) >= 1
    decreases o.s().len() - self.navigator.k() + (if brace_depth > 0 { 1int } else { 0int })
//@loopstart 0
    proof { self.navigator.here(); walk1(o.s(), o.k(), self.navigator.k(), o.lc()); depth1(o.s(), o.k() + 1, self.navigator.k()); }
//@finish
//@@ end
//@@ fn crates/ass-core/tokenizer/scanner/text_scanner.rs TokenScanner::is_hex_value!
//@ret r
//@re span\.strip_prefix\("&H"\) => strip_amp_h(span)
//@re after_prefix\s*\.strip_suffix\('&'\)\s*\.map_or\(after_prefix, \|stripped\| stripped\) => no_last_amp(after_prefix)
//@re !hex_part\.is_empty\(\) => blen(hex_part) != 0
//@re-all hex_part\.len\(\) => blen(hex_part)
//@re hex_part\.chars\(\)\.all\(\|c\| c\.is_ascii_hexdigit\(\)\) => all_hex(hex_part)
//@re TokenScanner::parse_hex_simd\((\w+)\) => parse_hex_u32(\1)
//@spec
    ensures r == hex_value(span@)
//@start
    proof { if hexes(digits_of(span@)) { ascii_len(digits_of(span@)); } }
//@@ end
#[verifier::rlimit(80)] #[verifier::spinoff_prover]
//@@ fn crates/ass-core/tokenizer/scanner/text_scanner.rs TokenScanner::scan_delimiters_simd!
//@ret r
//@re simd::scan_delimiters\(&self\.source\[start\.\.\]\)\.map\(\|offset\| start \+ offset\) => match scan_delimiters(bslice_from(self.source, start)) { Some(offset) => Some(start + offset), None => None }
//@spec
    requires self.ok(), start == self.navigator.position
    ensures match r { Some(e) => exists|j: int| to_delim(self.navigator.s(), self.navigator.k(), j) && j < self.navigator.s().len() && #[trigger] off(self.navigator.s(), j) == e && e < nbytes(self.navigator.s()), None => to_delim(self.navigator.s(), self.navigator.k(), self.navigator.s().len() as int) }
//@start
    let ghost s = self.navigator.s(); let ghost k = self.navigator.k();
    proof {
        self.navigator.here();
        let t = s.skip(k);
        split_at(s, k);
        assert forall|p: usize| first_delim(encode_utf8(t), Some(p)) implies p + start <= nbytes(s) && exists|j: int| to_delim(s, k, j) && j < s.len() && #[trigger] off(s, j) == start + p && start + p < nbytes(s) by {
            let i = first_char(t, p as int);
            off_skip(s, k, i);
            assert(off(s, k + i) == start + p);
            assert forall|m: int| k <= m < k + i implies !delim(#[trigger] s[m]) by { assert(!delim(t[m - k])); }
            assert(t[i] == s[k + i]);
            assert(to_delim(s, k, k + i)); off_step(s, k + i); off_mono(s, k + i + 1, s.len() as int); off_end(s);
        }
        if first_delim(encode_utf8(t), None) { no_char(t); assert forall|m: int| k <= m < s.len() implies !delim(#[trigger] s[m]) by { assert(!delim(t[m - k])); } }
    }
//@@ end
#[verifier::rlimit(60)] #[verifier::spinoff_prover]
//@@ fn crates/ass-core/tokenizer/scanner/text_scanner.rs TokenScanner::scan_text!
//@ret r
//@re self\.source\.len\(\) => blen(self.source)
//@re self\.source\[start\.\.end\]\.find\(';'\) => find_semi(bslice(self.source, start, end))
//@re &self\.source\[start\.\.self\.navigator\.position\(\)\] => bslice(self.source, start, self.navigator.position())
//@re context == TokenContext::Document \{ => matches!(context, TokenContext::Document) {
//@re ch == ';' && context == TokenContext::Document => ch == ';' && matches!(context, TokenContext::Document)
//@re context == TokenContext::SectionHeader => matches!(context, TokenContext::SectionHeader)
//@re-all !span\.is_empty\(\) => blen(span) != 0
//@re span\s*\.chars\(\)\s*\.all\(\|c\| c\.is_ascii_digit\(\) \|\| c == '\.' \|\| c == '-'\) => all_number(span)
//@re span\.chars\(\)\.all\(char::is_whitespace\) => all_ws(span)
//@spec
    requires old(self).ok()
    ensures final(self).from(*old(self)), r is Ok, upto(old(self).navigator.s(), old(self).navigator.k(), final(self).navigator.k(), |x: char| ends_text(x, context)),
        r->Ok_0 == (if context is SectionHeader { TokenType::SectionName } else { text_kind(old(self).navigator.s().subrange(old(self).navigator.k(), final(self).navigator.k())) })
//@start
    let ghost o = self.navigator; let ghost s = o.s(); let ghost k = o.k();
    proof { o.here(); off_end(s); assert(off(s, k) == o.position); }
//@before "if matches!(context, TokenContext::Document) {"
    let ghost e0 = if end == nbytes(s) { s.len() as int } else { choose|j: int| to_delim(s, k, j) && j < s.len() && #[trigger] off(s, j) == end && end < nbytes(s) };
    proof {
        off_end(s);
        assert(to_delim(s, k, e0) && off(s, e0) == end);
        off_mono(s, k, e0); off_mono(s, e0, s.len() as int);
    }
    let ghost mut e1 = e0;
//@before "if let Some(pos) = find_semi"
            let ghost t = s.subrange(k, e0);
            proof {
                sub_off(s, k, e0, 0); off_mono(s, k, e0);
                assert forall|i: int| 0 <= i <= t.len() implies #[trigger] off(t, i) == off(s, k + i) - off(s, k) && off(t, i) <= nbytes(t) by { sub_off(s, k, e0, i); off_mono(t, i, t.len() as int); off_end(t); }
                assert forall|m: int| k <= m < e0 implies #[trigger] s[m] == t[m - k] by { }
            }
//@after "end = start + pos;"
                proof {
                    let i = choose|i: int| 0 <= i < t.len() && t[i] == ';' && #[trigger] off(t, i) == pos && (forall|m: int| 0 <= m < i ==> #[trigger] t[m] != ';');
                    e1 = k + i;
                    assert(off(s, e1) == end); assert(s[e1] == t[i]);
                }
//@before "self.navigator.skip_to(end);"
            proof {
                assert(off(s, e1) == end);
                assert(k <= e1 <= e0);
                assert forall|m: int| k <= m < e1 implies !ends_text(#[trigger] s[m], context) && !eol(s[m]) by { assert(!delim(s[m])); }
                assert(e1 < s.len() ==> ends_text(s[e1], context));
            }
//@after "self.navigator.skip_to(end);"
            proof { self.navigator.at(e1); assert(upto(s, k, e1, |x: char| ends_text(x, context))); }
//@loop 0
    invariant_except_break self.navigator.from(o), self.source == old(self).source, context is FieldValue, forall|m: int| o.k() <= m < self.navigator.k() ==> !ends_text(#[trigger] o.s()[m], context)
    ensures self.navigator.from(o), self.source == old(self).source, upto(o.s(), o.k(), self.navigator.k(), |x: char| ends_text(x, context))
    decreases o.s().len() - self.navigator.k()
//@loopstart 0
    proof { self.navigator.here(); walk1(o.s(), o.k(), self.navigator.k(), o.lc()); }
//@before "let span ="
    proof {
        let n = self.navigator; n.here(); off_mono(s, k, n.k());
        assert(off(s, k) == start && off(s, n.k()) == n.position);
        let sp = s.subrange(k, n.k());
        sub_off(s, k, n.k(), 0); off_mono(s, k, n.k());
        assert(nbytes(sp) == n.position - start); if n.k() > k { off_step(s, k); off_mono(s, k + 1, n.k()); }
    }
//@@ end
//@@ fn crates/ass-core/tokenizer/scanner/text_scanner.rs TokenScanner::scan_field_value!
//@ret r
//@re &self\.source\[start\.\.self\.navigator\.position\(\)\] => bslice(self.source, start, self.navigator.position())
//@re-all !span\.is_empty\(\) => blen(span) != 0
//@re span\s*\.chars\(\)\s*\.all\(\|c\| c\.is_ascii_digit\(\) \|\| c == '\.' \|\| c == '-' \|\| c == ':'\) => all_number_or_time(span)
//@re span\.chars\(\)\.all\(char::is_whitespace\) => all_ws(span)
//@spec
    requires old(self).ok()
    ensures final(self).from(*old(self)), r is Ok, upto(old(self).navigator.s(), old(self).navigator.k(), final(self).navigator.k(), |x: char| ends_field(x)),
        r->Ok_0 == field_kind(old(self).navigator.s().subrange(old(self).navigator.k(), final(self).navigator.k()))
//@start
    let ghost o = self.navigator; let ghost s = o.s(); let ghost k = o.k();
    proof { o.here(); off_end(s); assert(off(s, k) == o.position); }
//@loop 0
    invariant_except_break self.navigator.from(o), self.source == old(self).source, forall|m: int| o.k() <= m < self.navigator.k() ==> !ends_field(#[trigger] o.s()[m])
    ensures self.navigator.from(o), self.source == old(self).source, upto(o.s(), o.k(), self.navigator.k(), |x: char| ends_field(x))
    decreases o.s().len() - self.navigator.k()
//@loopstart 0
    proof { self.navigator.here(); walk1(o.s(), o.k(), self.navigator.k(), o.lc()); }
//@before "let span ="
    proof {
        let n = self.navigator; n.here(); off_mono(s, k, n.k());
        assert(off(s, k) == start && off(s, n.k()) == n.position);
        let sp = s.subrange(k, n.k());
        sub_off(s, k, n.k(), 0); off_mono(s, k, n.k());
        assert(nbytes(sp) == n.position - start); if n.k() > k { off_step(s, k); off_mono(s, k + 1, n.k()); }
    }
//@@ end
}
proof fn depth1(s: Chars, i: int, j: int) requires i <= j ensures depth(s, i, j + 1, 1) == (if s[j] == '{' { depth(s, i, j, 1) + 1 } else if s[j] == '}' { depth(s, i, j, 1) - 1 } else { depth(s, i, j, 1) }), depth(s, i, i, 1) == 1 { }
pub proof fn sub_off(s: Chars, i: int, j: int, n: int) requires 0 <= i <= j <= s.len(), 0 <= n <= j - i ensures off(s.subrange(i, j), n) == off(s, i + n) - off(s, i), nbytes(s.subrange(i, j)) == off(s, j) - off(s, i) {
    encode_utf8_concat(s.take(i), s.subrange(i, j).take(n));
    assert(s.take(i + n) =~= s.take(i) + s.subrange(i, j).take(n));
    encode_utf8_concat(s.take(i), s.subrange(i, j));
    assert(s.take(j) =~= s.take(i) + s.subrange(i, j));
}

/// index of the first character after an optional byte order mark
pub open spec fn marked(s: Chars) -> bool { s.len() > 0 && s[0] == '\u{FEFF}' }
pub open spec fn first(s: Chars) -> int { if marked(s) { 1 } else { 0 } }
pub open spec fn lc0() -> LC { LC { line: 1, col: 1, last: None } }
proof fn mark_width(s: Chars) requires s.len() > 0, s[0] == '\u{FEFF}' ensures off(s, 1) == 3 { off_zero(s); off_step(s, 0); reveal(encode_scalar); }
impl<'a> AssTokenizer<'a> {
    pub open spec fn s(&self) -> Chars { self.source@ }
    pub open spec fn k(&self) -> int { self.scanner.navigator.k() }
    /// stands at a character of its source, with that place's line and column; inside a block only at its end
    pub open spec fn ok(&self) -> bool {
        &&& self.scanner.ok() && self.scanner.source == self.source
        &&& first(self.s()) <= self.k() && self.scanner.navigator.lc() == walk(self.s(), first(self.s()), self.k(), lc0())
        &&& self.context is SectionHeader && self.k() < self.s().len() ==> self.s()[self.k()] == ']'
        &&& !(self.context is UuEncodedData) && !(self.context is DrawingCommands)
        &&& self.context is StyleOverride && self.k() < self.s().len() ==> self.s()[self.k()] == '}'
    }
//@@ fn crates/ass-core/tokenizer/ass_tokenizer.rs AssTokenizer::new
//@ret r
//@re source\.starts_with\('\\u\{FEFF\}'\) => has_mark(source)
//@re Self \{\s*source,([^}]*)issues: IssueCollector::new\(\),\s*\} => let r = Self { source, \1 }; proof { r.scanner.navigator.at(first(source@)); } r
//@spec
    requires small(source)
    ensures r.ok(), r.source == source, r.k() == first(source@), r.context is Document
//@start
    proof { off_zero(source@); if marked(source@) { mark_width(source@); } assert(at_boundary(source@, 0)) by { assert(off(source@, 0) == 0); } if marked(source@) { assert(off(source@, 1) == 3); } }
//@@ end
//@@ fn crates/ass-core/tokenizer/ass_tokenizer.rs AssTokenizer::reset
//@re self\.source\.starts_with\('\\u\{FEFF\}'\) => has_mark(self.source)
//@re self\.issues\.clear\(\); => 
//@spec
    requires small(old(self).source)
    ensures final(self).ok(), final(self).source == old(self).source, final(self).k() == first(old(self).s()), final(self).context is Document
//@start
    let ghost s = self.source@;
    proof { off_zero(s); if marked(s) { mark_width(s); } assert(at_boundary(s, 0)) by { assert(off(s, 0) == 0); } if marked(s) { assert(off(s, 1) == 3); } }
//@finish
    proof { self.scanner.navigator.at(first(s)); }
//@@ end
//@@ fn crates/ass-core/tokenizer/ass_tokenizer.rs AssTokenizer::position
//@ret r
//@re self\.scanner\.navigator\(\) => self.scanner.navigator
//@spec
    ensures r == self.scanner.navigator.position
//@@ end
//@@ fn crates/ass-core/tokenizer/ass_tokenizer.rs AssTokenizer::line
//@ret r
//@re self\.scanner\.navigator\(\) => self.scanner.navigator
//@spec
    ensures r == self.scanner.navigator.line
//@@ end
//@@ fn crates/ass-core/tokenizer/ass_tokenizer.rs AssTokenizer::column
//@ret r
//@re self\.scanner\.navigator\(\) => self.scanner.navigator
//@spec
    ensures r == self.scanner.navigator.column
//@@ end
#[verifier::rlimit(100)] #[verifier::spinoff_prover]
//@@ fn crates/ass-core/tokenizer/next_token.rs AssTokenizer::next_token
//@ret r
//@re-all self\.scanner\.navigator(_mut)?\(\) => self.scanner.navigator
//@re self\.scanner\.navigator\.peek_next\(\) == Ok\(':'\) => matches!(self.scanner.navigator.peek_next(), Ok(':'))
//@re self\.context == TokenContext::FieldValue => matches!(self.context, TokenContext::FieldValue)
//@re crate::utils::CoreError::internal\(\s*"[^"]*",?\s*\) => CoreError::Internal
//@re &self\.source\[start_pos\.\.end_pos\] => bslice(self.source, start_pos, end_pos)
//@spec
    requires old(self).ok()
    ensures final(self).ok(), final(self).source == old(self).source, r is Ok,
        match r->Ok_0 {
            // no more tokens: what is left is whitespace
            None => final(self).k() == old(self).s().len() && final(self).context == old(self).context && skipped(old(self).s(), old(self).context, old(self).k(), final(self).k()),
            // the next token, after whitespace
            Some(t) => exists|i: int| #[trigger] skipped(old(self).s(), old(self).context, old(self).k(), i) && i < final(self).k() && t.span@ == old(self).s().subrange(i, final(self).k())
                && t.line == walk(old(self).s(), first(old(self).s()), i, lc0()).line && t.column == walk(old(self).s(), first(old(self).s()), i, lc0()).col
                && token(old(self).s(), i, old(self).context, t.token_type, final(self).k(), final(self).context),
        }
//@start
    let ghost o = *self; let ghost s = self.s(); let ghost b = first(s);
    proof { self.scanner.navigator.here(); brackets_are_not_ws(); }
//@before "if self.scanner.navigator.is_at_end()"
    proof { walk_trans(s, b, o.k(), self.k(), lc0()); self.scanner.navigator.here(); assert(skipped(s, o.context, o.k(), self.k())); }
//@after "let start_column"
    let ghost i = self.k(); let ghost n0 = self.scanner.navigator;
//@before "let end_pos ="
    proof {
        assert(i < s.len() && current_char == s[i]);
        let c = s[i];
        if self.k() == i { assert(!ends_field(c) || !(o.context is FieldValue)); assert(!ends_text(c, o.context) || c == ':'); assert(!eol(c)); assert(i >= self.k()); }
        assert(i < self.k());
        assert(self.k() <= s.len());
        assert(token(s, i, o.context, token_type, self.k(), self.context));
    }
    proof { walk_trans(s, b, i, self.k(), lc0()); n0.here(); self.scanner.navigator.here(); off_mono(s, i, self.k()); assert(off(s, i) == start_pos); assert(off(s, self.k()) == self.scanner.navigator.position); if i < self.k() { off_mono(s, i + 1, self.k()); off_step(s, i); } reveal_with_fuel(walk, 3); }
//@@ end
}
/// from `a` to `i` there is only whitespace that the context lets the tokenizer skip, and nothing more to skip at `i`
pub open spec fn skipped(s: Chars, ctx: TokenContext, a: int, i: int) -> bool { if ctx is FieldValue || ctx is UuEncodedData { i == a } else { upto(s, a, i, |c: char| !ws(c) || eol(c)) } }
}
fn main() {}
