// ---- lines, sections and fields of a document, by character index ------------------------------------------
pub open spec fn texts(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|s: &str| s@) }
#[verifier::external_body]
fn listed(h: &[&str], n: &str) -> (r: bool) ensures r == texts(h@).contains(n@) { h.contains(&n) }
#[verifier::external_body]
fn same(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
/// the next line break at or after character p
pub open spec fn brk(c: Seq<char>, p: int) -> int decreases c.len() - p { if p < 0 || p >= c.len() { c.len() as int } else if c[p] == '\n' { p } else { brk(c, p + 1) } }
pub proof fn brk_in(c: Seq<char>, p: int) requires 0 <= p <= c.len() ensures p <= brk(c, p) <= c.len(), brk(c, p) < c.len() ==> c[brk(c, p)] == '\n' decreases c.len() - p { if p < c.len() && c[p] != '\n' { brk_in(c, p + 1); } }
/// behind it
pub open spec fn eol(c: Seq<char>, p: int) -> int { if brk(c, p) < c.len() { brk(c, p) + 1 } else { c.len() as int } }
/// the lines from character p on, each with its line break
pub open spec fn lns(c: Seq<char>, p: int) -> Seq<(int, int)>
    decreases c.len() - p
{ if p < 0 || p >= c.len() || eol(c, p) <= p { Seq::empty() } else { seq![(p, eol(c, p))] + lns(c, eol(c, p)) } }
pub proof fn lns_at(c: Seq<char>, p: int, k: int)
    requires 0 <= p <= c.len(), 0 <= k < lns(c, p).len()
    ensures lns(c, p)[k].0 == (if k == 0 { p } else { lns(c, p)[k - 1].1 }), p <= lns(c, p)[k].0 < lns(c, p)[k].1 <= c.len(), lns(c, p)[k].1 == eol(c, lns(c, p)[k].0)
    decreases c.len() - p
{ brk_in(c, p); if k > 0 { lns_at(c, eol(c, p), k - 1); if k > 1 { assert(lns(c, p)[k - 1] == lns(c, eol(c, p))[k - 2]); } } }
pub open spec fn ln(c: Seq<char>, k: int) -> Seq<char> { c.subrange(lns(c, 0)[k].0, lns(c, 0)[k].1) }
#[verifier::external_body]
fn lines_of<'a>(s: &'a str) -> (r: Vec<&'a str>) ensures r@.len() == lns(s@, 0).len(), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k])@ == ln(s@, k) { s.split_inclusive('\n').collect() }
pub open spec fn unbom(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && s[0] == '\u{FEFF}' { unbom(s.skip(1)) } else { s } }
#[verifier::external_body]
fn no_bom<'a>(s: &'a str) -> (r: &'a str) ensures r@ == unbom(s@) { s.trim_start_matches('\u{FEFF}') }
/// length without trailing CR and LF
pub open spec fn ends_at(s: Seq<char>) -> int decreases s.len() { if s.len() > 0 && (s.last() == '\r' || s.last() == '\n') { ends_at(s.drop_last()) } else { s.len() as int } }
pub proof fn ends_in_line(s: Seq<char>) ensures 0 <= ends_at(s) <= s.len() decreases s.len() { if s.len() > 0 { ends_in_line(s.drop_last()); } }
#[verifier::external_body]
fn unbreak<'a>(s: &'a str) -> (r: &'a str) ensures r@ == s@.take(ends_at(s@)) { s.trim_end_matches(['\r', '\n']) }
/// what a header line is called
pub open spec fn called(s: Seq<char>) -> Seq<char> { core_of(unbom(s)) }
pub open spec fn bracket(s: Seq<char>) -> bool { called(s).len() > 0 && called(s)[0] == '[' }
/// whether line k stands in a section with one of these headers: decided by the last header line before it
pub open spec fn within(c: Seq<char>, k: int, h: Seq<Seq<char>>) -> bool decreases k { if k <= 0 { false } else if bracket(ln(c, k - 1)) { h.contains(called(ln(c, k - 1))) } else { within(c, k - 1, h) } }
pub open spec fn row_of(c: Seq<char>, k: int) -> (int, int) { (lns(c, 0)[k].0, lns(c, 0)[k].0 + ends_at(ln(c, k))) }
/// the lines of those sections among the first k, without their line breaks
pub open spec fn rows(c: Seq<char>, k: int, h: Seq<Seq<char>>) -> Seq<(int, int)> decreases k {
    if k <= 0 { Seq::empty() } else if !bracket(ln(c, k - 1)) && within(c, k - 1, h) { rows(c, k - 1, h).push(row_of(c, k - 1)) } else { rows(c, k - 1, h) }
}
pub open spec fn all_rows(c: Seq<char>, h: Seq<Seq<char>>) -> Seq<(int, int)> { rows(c, lns(c, 0).len() as int, h) }
pub open spec fn at_row(c: Seq<char>, x: (usize, &str), r: (int, int)) -> bool { x.0 == off(c, r.0) && x.1@ == c.subrange(r.0, r.1) && 0 <= r.0 <= r.1 <= c.len() && nbytes(x.1@) == off(c, r.1) - off(c, r.0) && off(c, r.1) <= nbytes(c) }
pub open spec fn at_rows(c: Seq<char>, v: Seq<(usize, &str)>, r: Seq<(int, int)>) -> bool { v.len() == r.len() && forall|k: int| 0 <= k < v.len() ==> at_row(c, #[trigger] v[k], r[k]) }
/// the first header line among those from the k-th on
pub open spec fn header_from(c: Seq<char>, k: int, h: Seq<Seq<char>>) -> Option<(int, int)>
    decreases lns(c, 0).len() - k
{ if k < 0 || k >= lns(c, 0).len() { None } else if h.contains(called(ln(c, k))) { Some(lns(c, 0)[k]) } else { header_from(c, k + 1, h) } }
pub open spec fn at_header(c: Seq<char>, r: Option<Bytes>, x: Option<(int, int)>) -> bool {
    match (r, x) { (None, None) => true, (Some(b), Some(y)) => 0 <= y.0 < y.1 <= c.len() && y.1 == eol(c, y.0) && off(c, y.0) == b.start && off(c, y.1) == b.end, _ => false }
}
type Bytes = core::ops::Range<usize>;
/// the first occurrence of a character at or after p
pub open spec fn ch_at(c: Seq<char>, p: int, x: char) -> int decreases c.len() - p { if p < 0 || p >= c.len() { c.len() as int } else if c[p] == x { p } else { ch_at(c, p + 1, x) } }
pub proof fn ch_in(c: Seq<char>, p: int, x: char) requires 0 <= p <= c.len() ensures p <= ch_at(c, p, x) <= c.len(), ch_at(c, p, x) < c.len() ==> c[ch_at(c, p, x)] == x decreases c.len() - p { if p < c.len() && c[p] != x { ch_in(c, p + 1, x); } }
pub proof fn brk_ch(c: Seq<char>, p: int) requires 0 <= p <= c.len() ensures brk(c, p) == p + ch_at(c.skip(p), 0, '\n') decreases c.len() - p { brk_ch_from(c, p, p); }
pub proof fn brk_ch_from(c: Seq<char>, p: int, q: int) requires 0 <= p <= q <= c.len() ensures brk(c, q) == p + ch_at(c.skip(p), q - p, '\n') decreases c.len() - q { if q < c.len() { assert(c.skip(p)[q - p] == c[q]); if c[q] != '\n' { brk_ch_from(c, p, q + 1); } } }
#[verifier::external_body]
fn find_char(s: &str, x: char) -> (r: Option<usize>) ensures match r { None => ch_at(s@, 0, x) == s@.len(), Some(p) => ch_at(s@, 0, x) < s@.len() && off(s@, ch_at(s@, 0, x)) == p } { s.find(x) }
/// split at the first colon
#[verifier::external_body]
fn split_colon<'a>(s: &'a str) -> (r: Option<(&'a str, &'a str)>) ensures match r { None => ch_at(s@, 0, ':') == s@.len(), Some((a, b)) => ({ let i = ch_at(s@, 0, ':'); i < s@.len() && a@ == s@.take(i) && b@ == s@.skip(i + 1) }) } { s.split_once(':') }
pub open spec fn is_remark(s: Seq<char>) -> bool { let t = s.skip(blanks(s)); t.len() > 0 && (t[0] == ';' || t[0] == '#') }
/// key and value of a line
pub open spec fn keyed(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    let i = ch_at(s, 0, ':'); if is_remark(s) || i == s.len() { None } else { Some((core_of(s.take(i)), core_of(s.skip(i + 1)))) }
}
/// the first row from the k-th on that has this key
pub open spec fn key_row(c: Seq<char>, r: Seq<(int, int)>, k: int, key: Seq<char>) -> Option<int>
    decreases r.len() - k
{ if k < 0 || k >= r.len() { None } else { let x = keyed(c.subrange(r[k].0, r[k].1)); if x is Some && x->Some_0.0 == key { Some(k) } else { key_row(c, r, k + 1, key) } } }
