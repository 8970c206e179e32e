use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
verus! {
//@@ include str.inc
//@@ include doc.inc
//@@ include lines.inc

// ---- assumed contracts of character and string functions ---------------------------------------------------
/// `char::is_alphanumeric`
pub uninterp spec fn alnum(c: char) -> bool;
#[verifier::external_body]
fn is_alnum(c: char) -> (r: bool) ensures r == alnum(c) { c.is_alphanumeric() }
/// `char::to_lowercase`
pub uninterp spec fn lower(c: char) -> Seq<char>;
#[verifier::external_body]
proof fn lower_some(c: char) ensures lower(c).len() >= 1 {}
#[verifier::external_body]
fn lowers(c: char) -> (r: Vec<char>) ensures r@ == lower(c) { c.to_lowercase().collect() }
#[verifier::external_body]
fn chars_of(s: &str) -> (r: Vec<char>) ensures r@ == s@ { s.chars().collect() }
/// `s.chars().flat_map(char::to_lowercase).collect()`
#[verifier::external_body]
fn lower_chars(s: &str) -> (r: Vec<char>) ensures r@ == fold(s@, false) { s.chars().flat_map(char::to_lowercase).collect() }
#[verifier::external_body]
fn first_char(s: &str) -> (r: Option<char>) ensures r == (if s@.len() > 0 { Some(s@[0]) } else { None }) { s.chars().next() }
#[verifier::external_body]
fn last_char(s: &str) -> (r: Option<char>) ensures r == (if s@.len() > 0 { Some(s@.last()) } else { None }) { s.chars().next_back() }
pub open spec fn count(s: Seq<char>, x: char) -> int decreases s.len() { if s.len() == 0 { 0 } else { count(s.drop_last(), x) + (if s.last() == x { 1int } else { 0 }) } }
/// `s.matches(x).count()`
#[verifier::external_body]
fn count_char(s: &str, x: char) -> (r: usize) ensures r == count(s@, x) { s.matches(x).count() }
/// the last occurrence of a character, or -1
pub open spec fn last_at(s: Seq<char>, x: char) -> int decreases s.len() { if s.len() == 0 { -1 } else if s.last() == x { s.len() - 1 } else { last_at(s.drop_last(), x) } }
proof fn last_in(s: Seq<char>, x: char) ensures -1 <= last_at(s, x) < s.len(), last_at(s, x) >= 0 ==> s[last_at(s, x)] == x decreases s.len() { if s.len() > 0 && s.last() != x { last_in(s.drop_last(), x); } }
#[verifier::external_body]
fn rfind_char(s: &str, x: char) -> (r: Option<usize>) ensures match r { None => last_at(s@, x) == -1, Some(p) => last_at(s@, x) >= 0 && off(s@, last_at(s@, x)) == p } { s.rfind(x) }
/// the name in a bracketed line
pub open spec fn name_of(s: Seq<char>) -> Option<Seq<char>> { if s.len() >= 2 && s[0] == '[' && s.last() == ']' { Some(s.subrange(1, s.len() - 1)) } else { None } }
/// `s.strip_prefix('[').and_then(|rest| rest.strip_suffix(']'))`
#[verifier::external_body]
fn bracketed<'a>(s: &'a str) -> (r: Option<&'a str>) ensures match r { None => name_of(s@) is None, Some(n) => name_of(s@) == Some(n@) } { s.strip_prefix('[').and_then(|rest| rest.strip_suffix(']')) }
pub open spec fn wants(v: Seq<String>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == n }
/// `names.iter().any(|wanted| wanted == name)`
#[verifier::external_body]
fn named(v: &Vec<String>, n: &str) -> (r: bool) ensures r == wants(v@, n@) { v.iter().any(|w| w == n) }
fn least(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }

// ---- specification: occurrences of a pattern, by character index --------------------------------------------
/// a text as it is compared
pub open spec fn fold(s: Seq<char>, cs: bool) -> Seq<char>
    decreases s.len()
{ if cs { s } else if s.len() == 0 { s } else { fold(s.drop_last(), cs) + lower(s.last()) } }
pub open spec fn one(c: char, cs: bool) -> Seq<char> { if cs { seq![c] } else { lower(c) } }
proof fn fold_step(s: Seq<char>, k: int, cs: bool)
    requires 0 <= k < s.len()
    ensures fold(s.take(k + 1), cs) == fold(s.take(k), cs) + one(s[k], cs), one(s[k], cs).len() >= 1
{ lower_some(s[k]); assert(s.take(k + 1).drop_last() =~= s.take(k)); assert(s.take(k + 1) =~= s.take(k).push(s[k])); assert(s.take(k) + seq![s[k]] =~= s.take(k + 1)); }
/// a longer prefix continues a shorter one
proof fn fold_grows(s: Seq<char>, k: int, j: int, cs: bool)
    requires 0 <= k <= j <= s.len()
    ensures fold(s.take(j), cs).len() >= fold(s.take(k), cs).len() + (j - k), fold(s.take(j), cs).take(fold(s.take(k), cs).len() as int) == fold(s.take(k), cs)
    decreases j - k
{
    if k < j { fold_grows(s, k, j - 1, cs); fold_step(s, j - 1, cs); let a = fold(s.take(k), cs); let b = fold(s.take(j - 1), cs); assert((b + one(s[j - 1], cs)).take(a.len() as int) =~= b.take(a.len() as int)); }
    else { let a = fold(s.take(k), cs); assert(a.take(a.len() as int) =~= a); }
}
/// the characters from i up to k are an occurrence
pub open spec fn occ(t: Seq<char>, i: int, k: int, p: Seq<char>, cs: bool) -> bool { i <= k && fold(t.subrange(i, k), cs) == p }
/// where the occurrence that begins at i ends, at e at the latest
pub open spec fn occ_end(t: Seq<char>, i: int, e: int, p: Seq<char>, cs: bool) -> Option<int> {
    if exists|k: int| k <= e && #[trigger] occ(t, i, k, p, cs) { Some(choose|k: int| k <= e && #[trigger] occ(t, i, k, p, cs)) } else { None }
}
proof fn occ_one(t: Seq<char>, i: int, e: int, k: int, p: Seq<char>, cs: bool)
    requires 0 <= i <= k <= e <= t.len(), occ(t, i, k, p, cs)
    ensures occ_end(t, i, e, p, cs) == Some(k)
{
    let j = occ_end(t, i, e, p, cs)->Some_0; assert(occ(t, i, j, p, cs)); let s = t.subrange(i, e);
    assert(s.take(j - i) =~= t.subrange(i, j)); assert(s.take(k - i) =~= t.subrange(i, k));
    if j < k { fold_grows(s, j - i, k - i, cs); } if k < j { fold_grows(s, k - i, j - i, cs); }
}
proof fn no_occ(c: Seq<char>, p: Seq<char>, k: int, cs: bool, q: int)
    requires 0 <= k < c.len(), fold(c.take(k), cs).len() < p.len(), 0 <= q < one(c[k], cs).len(), ({ let m = fold(c.take(k), cs).len(); m + q >= p.len() || p[m + q] != one(c[k], cs)[q] })
    ensures forall|j: int| 0 <= j <= c.len() ==> fold(#[trigger] c.take(j), cs) != p
{
    let f = fold(c.take(k), cs); let add = one(c[k], cs); let m = f.len(); fold_step(c, k, cs);
    assert forall|j: int| 0 <= j <= c.len() implies fold(#[trigger] c.take(j), cs) != p by {
        if j <= k { fold_grows(c, j, k, cs); }
        else { fold_grows(c, k + 1, j, cs); let g = fold(c.take(j), cs); assert(g.take((m + add.len()) as int)[m + q] == (f + add)[m + q]); }
    }
}
pub open spec fn wordy(c: char) -> bool { alnum(c) || c == '_' }
pub open spec fn whole(t: Seq<char>, i: int, k: int) -> bool { !(i > 0 && wordy(t[i - 1])) && !(k < t.len() && wordy(t[k])) }
pub struct Opt { pub p: Seq<char>, pub cs: bool, pub ww: bool }
/// the occurrence at i that counts
pub open spec fn hit(t: Seq<char>, i: int, e: int, o: Opt) -> Option<int> {
    match occ_end(t, i, e, o.p, o.cs) { Some(k) => if (o.ww ==> whole(t, i, k)) && k > i { Some(k) } else { None }, None => None }
}
/// the leftmost occurrences from i on that do not overlap
pub open spec fn hits(t: Seq<char>, i: int, e: int, o: Opt) -> Seq<(int, int)>
    decreases e - i
{ if i >= e { Seq::empty() } else { match hit(t, i, e, o) { Some(k) => if k > i { seq![(i, k)] + hits(t, k, e, o) } else { Seq::empty() }, None => hits(t, i + 1, e, o) } } }
pub open spec fn hits_in(t: Seq<char>, rs: Seq<(int, int)>, r: int, o: Opt) -> Seq<(int, int)>
    decreases rs.len() - r
{ if r < 0 || r >= rs.len() { Seq::empty() } else { hits(t, rs[r].0, rs[r].1, o) + hits_in(t, rs, r + 1, o) } }
pub open spec fn limited(v: Seq<(int, int)>, max: int) -> Seq<(int, int)> { if max > 0 && v.len() > max { v.take(max) } else { v } }
/// one result: its place, text, line, column and context
pub open spec fn at_hit(t: Seq<char>, x: SearchResult, y: (int, int)) -> bool {
    let a = last_at(t.take(y.0), '\n') + 1;
    0 <= y.0 <= y.1 <= t.len() && x.start.offset == off(t, y.0) && x.end.offset == off(t, y.1) && x.text@ == t.subrange(y.0, y.1)
        && x.line == count(t.take(y.0), '\n') && x.column == off(t, y.0) - off(t, a) && x.context@ == t.subrange(a, brk(t, y.0))
}
pub open spec fn at_hits(t: Seq<char>, v: Seq<SearchResult>, h: Seq<(int, int)>) -> bool { v.len() == h.len() && forall|k: int| 0 <= k < v.len() ==> at_hit(t, #[trigger] v[k], h[k]) }
pub open spec fn opt_of(pattern: Seq<char>, o: SearchOptions) -> Opt { Opt { p: fold(pattern, o.case_sensitive), cs: o.case_sensitive, ww: o.whole_words } }
/// what a search finds
pub open spec fn found(t: Seq<char>, pattern: Seq<char>, o: SearchOptions) -> Seq<(int, int)> {
    if opt_of(pattern, o).p.len() == 0 { Seq::empty() } else { limited(hits_in(t, scope_of(t, o.scope), 0, opt_of(pattern, o)), o.max_results as int) }
}
proof fn off_sub(c: Seq<char>, a: int, b: int, i: int)
    requires 0 <= a <= b <= c.len(), 0 <= i <= b - a
    ensures off(c, a) + off(c.subrange(a, b), i) == off(c, a + i)
{ off_skip(c, a, i); assert(c.subrange(a, b).take(i) =~= c.skip(a).take(i)); }
// ---- the part of the text that is searched ------------------------------------------------------------------
pub open spec fn ceil(t: Seq<char>, i: int, o: int) -> int decreases t.len() - i { if i >= t.len() || off(t, i) >= o { i } else { ceil(t, i + 1, o) } }
pub open spec fn floor(t: Seq<char>, i: int, o: int) -> int decreases i { if i <= 0 || off(t, i) <= o { i } else { floor(t, i - 1, o) } }
/// the sections wanted among the first k lines, and where the last one began if it goes on
pub open spec fn chosen(t: Seq<char>, k: int, names: Seq<String>) -> (Seq<(int, int)>, Option<int>)
    decreases k
{
    if k <= 0 { (Seq::empty(), None) } else {
        let (v, at) = chosen(t, k - 1, names); let x = lns(t, 0)[k - 1].0;
        match name_of(core_of(ln(t, k - 1))) { None => (v, at), Some(n) => (match at { Some(a) => v.push((a, x)), None => v }, if wants(names, n) { Some(x) } else { None }) }
    }
}
pub open spec fn scope_of(t: Seq<char>, s: SearchScope) -> Seq<(int, int)> {
    let n = lns(t, 0).len() as int;
    match s {
        SearchScope::All => seq![(0, t.len() as int)],
        SearchScope::Range(r) => { let a = ceil(t, 0, r.start.offset as int); let b = floor(t, t.len() as int, r.end.offset as int); if a <= b { seq![(a, b)] } else { Seq::empty() } }
        SearchScope::Lines { start, end } => if start <= end && start < n { seq![(lns(t, 0)[start as int].0, lns(t, 0)[if end < n { end as int } else { n - 1 }].1)] } else { Seq::empty() },
        SearchScope::Sections(names) => { let (v, at) = chosen(t, n, names@); match at { Some(a) => v.push((a, t.len() as int)), None => v } }
    }
}
pub open spec fn at_range(t: Seq<char>, x: (usize, usize), y: (int, int)) -> bool { 0 <= y.0 <= y.1 <= t.len() && x.0 == off(t, y.0) && x.1 == off(t, y.1) }
pub open spec fn at_ranges(t: Seq<char>, v: Seq<(usize, usize)>, h: Seq<(int, int)>) -> bool { v.len() == h.len() && forall|k: int| 0 <= k < v.len() ==> at_range(t, #[trigger] v[k], h[k]) }
proof fn ceil_in(t: Seq<char>, i: int, o: int)
    requires 0 <= i <= t.len()
    ensures ({ let x = ceil(t, i, o); i <= x <= t.len() && (x == t.len() || off(t, x) >= o) && (x == i || off(t, x - 1) < o) })
    decreases t.len() - i
{ if !(i >= t.len() || off(t, i) >= o) { ceil_in(t, i + 1, o); } }
proof fn floor_in(t: Seq<char>, i: int, o: int)
    requires 0 <= i <= t.len()
    ensures ({ let x = floor(t, i, o); 0 <= x <= i && (x == 0 || off(t, x) <= o) && (x == i || off(t, x + 1) > o) })
    decreases i
{ if !(i <= 0 || off(t, i) <= o) { floor_in(t, i - 1, o); } }
/// a boundary found by going up from an offset is the first one there
proof fn up_to(t: Seq<char>, o: int, b: int)
    requires at_boundary(t, b), b <= off(t, ceil(t, 0, o)), b >= o || b >= nbytes(t)
    ensures b == off(t, ceil(t, 0, o))
{ let i = choose|i: int| 0 <= i <= t.len() && #[trigger] off(t, i) == b; let x = ceil(t, 0, o); ceil_in(t, 0, o); off_end(t); if i < x { off_mono(t, i, x - 1); off_mono(t, i, t.len() as int); if b >= nbytes(t) { off_inj(t, i, t.len() as int); } } else { off_mono(t, x, i); } }
proof fn down_to(t: Seq<char>, o: int, b: int)
    requires at_boundary(t, b), b >= off(t, floor(t, t.len() as int, o)), b <= o
    ensures b == off(t, floor(t, t.len() as int, o))
{ let i = choose|i: int| 0 <= i <= t.len() && #[trigger] off(t, i) == b; let x = floor(t, t.len() as int, o); floor_in(t, t.len() as int, o); if i > x { off_mono(t, x + 1, i); } else { off_mono(t, i, x); } }
/// where line k begins
pub open spec fn begin(t: Seq<char>, k: int) -> int { if k <= 0 { 0 } else { lns(t, 0)[k - 1].1 } }
proof fn lines_end(t: Seq<char>, p: int)
    requires 0 <= p <= t.len()
    ensures lns(t, p).len() == 0 ==> p == t.len(), lns(t, p).len() > 0 ==> lns(t, p).last().1 == t.len()
    decreases t.len() - p
{ brk_in(t, p); if p < t.len() { lines_end(t, eol(t, p)); let v = lns(t, eol(t, p)); if v.len() > 0 { assert(lns(t, p).last() == v.last()); } } }
proof fn line_at(t: Seq<char>, k: int)
    requires 0 <= k < lns(t, 0).len()
    ensures ({ let (a, b) = lns(t, 0)[k]; a == begin(t, k) && b == begin(t, k + 1) && 0 <= a < b <= t.len() && off(t, a) + nbytes(ln(t, k)) == off(t, b) && off(t, b) <= nbytes(t) })
{ lns_at(t, 0, k); let (a, b) = lns(t, 0)[k]; sub_bytes(t, a, b); off_mono(t, a, b); off_mono(t, b, b); }
/// the character an offset lies in
proof fn inside(t: Seq<char>, o: int) -> (i: int)
    requires 0 <= o < nbytes(t)
    ensures 0 <= i < t.len(), off(t, i) <= o < off(t, i + 1)
{ off_end(t); off_zero(t); inside_from(t, o, 0) }
proof fn inside_from(t: Seq<char>, o: int, j: int) -> (i: int)
    requires 0 <= j <= t.len(), off(t, j) <= o < nbytes(t), off(t, t.len() as int) == nbytes(t)
    ensures 0 <= i < t.len(), off(t, i) <= o < off(t, i + 1)
    decreases t.len() - j
{ if o < off(t, j + 1) { j } else { inside_from(t, o, j + 1) } }

pub uninterp spec fn by_regex(t: Seq<char>, p: Seq<char>, o: SearchOptions) -> Seq<(int, int)>;
pub uninterp spec fn by_index(t: Seq<char>, p: Seq<char>, o: SearchOptions) -> Seq<(int, int)>;
pub uninterp spec fn plain(p: Seq<char>) -> bool;
/// `pattern.bytes().all(|byte| byte.is_ascii_alphanumeric() || byte == b'_')`
#[verifier::external_body]
fn plain_word(s: &str) -> (r: bool) ensures r == plain(s@) { s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_') }
/// what a search reports: whole words of plain letters come from the index
pub open spec fn looked(t: Seq<char>, p: Seq<char>, o: SearchOptions, index: bool) -> Seq<(int, int)> {
    if o.use_regex { by_regex(t, p, o) } else if o.whole_words && index && p.len() > 0 && plain(p) { by_index(t, p, o) } else { found(t, p, o) }
}
/// in order, and not overlapping
pub open spec fn apart(h: Seq<(int, int)>, lo: int, hi: int) -> bool {
    lo <= hi && (forall|k: int| 0 <= k < h.len() ==> lo <= (#[trigger] h[k]).0 <= h[k].1 <= hi) && (forall|j: int, k: int| 0 <= j < k < h.len() ==> (#[trigger] h[j]).1 <= (#[trigger] h[k]).0)
}
pub open spec fn last_end(h: Seq<(int, int)>, k: int) -> int { if k <= 0 { 0 } else { h[k - 1].1 } }
/// the text from p on with every occurrence from the k-th on replaced
pub open spec fn rebuilt(t: Seq<char>, h: Seq<(int, int)>, k: int, p: int, x: Seq<char>) -> Seq<char>
    decreases h.len() - k
{ if k >= h.len() { t.skip(p) } else { t.subrange(p, h[k].0) + x + rebuilt(t, h, k + 1, h[k].1, x) } }
/// the text with every occurrence from the k-th on replaced
pub open spec fn redo(t: Seq<char>, h: Seq<(int, int)>, k: int, x: Seq<char>) -> Seq<char> { t.take(last_end(h, k)) + rebuilt(t, h, k, last_end(h, k), x) }
proof fn hits_apart(t: Seq<char>, i: int, e: int, o: Opt)
    requires i <= e
    ensures apart(hits(t, i, e, o), i, e)
    decreases e - i
{
    if i < e { match hit(t, i, e, o) { Some(k) => if k > i { hits_apart(t, k, e, o); }, None => hits_apart(t, i + 1, e, o) } }
}
proof fn scope_apart(t: Seq<char>, s: SearchScope)
    ensures apart(scope_of(t, s), 0, t.len() as int)
{
    let n = lns(t, 0).len() as int;
    match s {
        SearchScope::All => {}
        SearchScope::Range(r) => { ceil_in(t, 0, r.start.offset as int); floor_in(t, t.len() as int, r.end.offset as int); }
        SearchScope::Lines { start, end } => if start <= end && start < n { let e = if end < n { end as int } else { n - 1 }; lines_up(t, start as int, e); line_at(t, start as int); line_at(t, e); },
        SearchScope::Sections(names) => { lines_end(t, 0); chosen_apart(t, n, names@); }
    }
}
proof fn lines_up(t: Seq<char>, j: int, k: int)
    requires 0 <= j <= k < lns(t, 0).len()
    ensures lns(t, 0)[j].0 <= lns(t, 0)[k].0
    decreases k - j
{ if j < k { lines_up(t, j, k - 1); line_at(t, k - 1); line_at(t, k); } }
proof fn chosen_apart(t: Seq<char>, k: int, names: Seq<String>)
    requires 0 <= k <= lns(t, 0).len()
    ensures ({ let (v, at) = chosen(t, k, names); 0 <= begin(t, k) <= t.len() && match at { Some(a) => apart(v, 0, a) && a <= begin(t, k), None => apart(v, 0, begin(t, k)) } })
    decreases k
{ if k > 0 { chosen_apart(t, k - 1, names); line_at(t, k - 1); } }
proof fn all_apart(t: Seq<char>, rs: Seq<(int, int)>, r: int, o: Opt)
    requires apart(rs, 0, t.len() as int), 0 <= r <= rs.len()
    ensures apart(hits_in(t, rs, r, o), if r < rs.len() { rs[r].0 } else { t.len() as int }, t.len() as int)
    decreases rs.len() - r
{ if r < rs.len() { hits_apart(t, rs[r].0, rs[r].1, o); all_apart(t, rs, r + 1, o); if r + 1 < rs.len() { assert(rs[r].1 <= rs[r + 1].0); } } }
proof fn found_apart(t: Seq<char>, p: Seq<char>, o: SearchOptions)
    ensures apart(found(t, p, o), 0, t.len() as int)
{ let rs = scope_of(t, o.scope); scope_apart(t, o.scope); all_apart(t, rs, 0, opt_of(p, o)); if rs.len() > 0 { assert(0 <= rs[0].0); } }

//@@ struct crates/ass-editor/utils/search/options.rs SearchScope
//@@ struct crates/ass-editor/utils/search/options.rs SearchOptions
//@@ struct crates/ass-editor/utils/search/options.rs SearchResult "SearchResult<'a>" "SearchResult" "Cow<'a, str>" "String"
/// the fields read here: the index and the caches are dropped
pub struct DocumentSearchImpl { pub cached_text: String }

//@@ fn crates/ass-editor/utils/search/basic.rs is_word_char
//@ret r
//@re ch\.is_alphanumeric\(\) => is_alnum(ch)
//@spec
    ensures r == wordy(ch)
//@@ end
//@@ fn crates/ass-editor/utils/search/basic.rs pattern_chars
//@ret r
//@re pattern\.chars\(\)\.collect\(\) => chars_of(pattern)
//@re pattern\.chars\(\)\.flat_map\(char::to_lowercase\)\.collect\(\) => lower_chars(pattern)
//@spec
    ensures r@ == fold(pattern@, case_sensitive)
//@@ end
//@@ fn crates/ass-editor/utils/search/basic.rs matched_len
//@ret r
//@re let mut matched = 0; => let mut matched: usize = 0; let cs: Vec<char> = chars_of(text); let mut ci: usize = 0; let mut next: usize = 0;
//@re for \(offset, ch\) in text\.char_indices\(\) \{ => while ci < cs.len() { let ch = cs[ci]; let offset = next; proof { off_step(c, ci as int); off_mono(c, ci as int + 1, c.len() as int); fold_step(c, ci as int, case_sensitive); } next += ch.len_utf8(); ci += 1;
//@re for lower in ch\.to_lowercase\(\) \{ => let ls = lowers(ch); let mut li: usize = 0; while li < ls.len() { let lower = ls[li]; li += 1;
//@re \(matched == pattern\.len\(\)\)\.then_some\(text\.len\(\)\) => proof { assert(c.take(c.len() as int) =~= c); assert(p.take(p.len() as int) =~= p); if matched < p.len() { assert forall|j: int| 0 <= j <= c.len() implies fold(#[trigger] c.take(j), sens) != p by { fold_grows(c, j, c.len() as int, sens); } } } if matched == pattern.len() { Some(size) } else { None }
//@re return Some\(offset\); => proof { assert(p.take(p.len() as int) =~= p); } return Some(offset);
//@re (?s)(if pattern\[matched\] != ch \{\s*)return None; => \1proof { no_occ(c, p, k, sens, 0); } return None;
//@re (?s)(pattern\[matched\] != lower \{\s*)return None; => \1proof { no_occ(c, p, k, sens, li as int - 1); } return None;
//@spec
    ensures match r { Some(n) => exists|k: int| 0 <= k <= text@.len() && #[trigger] off(text@, k) == n && fold(text@.take(k), case_sensitive) == pattern@,
        None => forall|k: int| 0 <= k <= text@.len() ==> fold(#[trigger] text@.take(k), case_sensitive) != pattern@ }
//@start
    let size = blen(text); let ghost c = text@; let ghost p = pattern@; let ghost sens = case_sensitive;
    proof { off_zero(c); off_end(c); assert(c.take(0) =~= Seq::<char>::empty()); assert(fold(c.take(0), sens) =~= Seq::<char>::empty()); assert(p.take(0) =~= fold(c.take(0), sens)); }
//@loop 0
    invariant size == nbytes(c), cs@ == c, c == text@, p == pattern@, sens == case_sensitive, ci <= c.len(), next == off(c, ci as int), off(c, c.len() as int) == nbytes(c), nbytes(c) <= usize::MAX,
        matched <= p.len(), p.take(matched as int) == fold(c.take(ci as int), sens),
    decreases c.len() - ci
//@loopstart 0
        let ghost k = ci as int; let ghost old_m = matched as int; let ghost add = one(c[k], sens);
        proof { let f = fold(c.take(k), sens); assert(f.len() == old_m); }
//@loopend 0
            proof { assert(p.take(matched as int) =~= p.take(old_m) + p.subrange(old_m, matched as int)); if sens { assert(p.subrange(old_m, matched as int) =~= add); } else { assert(add.take(add.len() as int) =~= add); } }
//@loopend 1
                proof { assert(p.subrange(old_m, matched as int) =~= p.subrange(old_m, matched as int - 1).push(p[matched as int - 1])); assert(add.take(li as int) =~= add.take(li as int - 1).push(add[li as int - 1])); }
//@loop 1
    invariant ls@ == add, li <= ls.len(), matched == old_m + li, matched <= p.len(), p == pattern@, p.subrange(old_m, matched as int) == add.take(li as int), 0 <= old_m <= matched,
        sens == false, 0 <= k < c.len(), c == text@, sens == case_sensitive, add == one(c[k], sens), old_m < p.len(), old_m == fold(c.take(k), sens).len(), p.take(old_m) == fold(c.take(k), sens),
        fold(c.take(k + 1), sens) == fold(c.take(k), sens) + add,
    decreases ls.len() - li
//@@ end
//@@ fn crates/ass-editor/utils/search/basic.rs is_whole_word
//@ret r
//@re (?s)!text\[\.\.start\]\.chars\(\)\.next_back\(\)\.is_some_and\(is_word_char\) => !(match last_char(bslice(text, 0, start)) { Some(x) => is_word_char(x), None => false })
//@re (?s)!text\[end\.\.\]\.chars\(\)\.next\(\)\.is_some_and\(is_word_char\) => !(match first_char(bslice(text, end, blen(text))) { Some(x) => is_word_char(x), None => false })
//@spec
    requires exists|y: (int, int)| #[trigger] at_range(text@, (start, end), y)
    ensures forall|y: (int, int)| #[trigger] at_range(text@, (start, end), y) ==> r == whole(text@, y.0, y.1)
//@start
    let ghost t = text@; let ghost y = choose|y: (int, int)| #[trigger] at_range(text@, (start, end), y);
    proof {
        off_zero(t); off_end(t); off_mono(t, 0, y.0); off_mono(t, y.1, t.len() as int); assert(off(t, y.0) == start && off(t, y.1) == end && off(t, 0) == 0 && off(t, t.len() as int) == nbytes(t));
        assert(t.subrange(0, y.0) =~= t.take(y.0)); assert(t.subrange(y.1, t.len() as int) =~= t.skip(y.1));
        assert forall|x: (int, int)| #[trigger] at_range(text@, (start, end), x) implies x == y by { off_inj(t, x.0, y.0); off_inj(t, x.1, y.1); }
    }
//@@ end
impl DocumentSearchImpl {
//@@ fn crates/ass-editor/utils/search/basic.rs DocumentSearchImpl::result_at
//@ret r
//@sig-re SearchResult<'static> => SearchResult
//@re text\[\.\.start\]\.matches\('\\n'\)\.count\(\) => count_char(before, '\\n')
//@re text\[\.\.start\]\.rfind\('\\n'\)\.map_or\(0, \|i\| i \+ 1\) => match rfind_char(before, '\\n') { Some(i) => { proof { last_in(before@, '\\n'); let a = last_at(before@, '\\n'); off_step(before@, a); w_ascii('\\n'); } i + 1 } None => 0 }
//@re text\[start\.\.\]\.find\('\\n'\)\.map_or\(text\.len\(\), \|i\| start \+ i\) => match find_char(after, '\\n') { Some(i) => { start + i } None => size }
//@re Cow::Owned\(text\[start\.\.end\]\.to_string\(\)\) => owned(bslice(text, start, end))
//@re Cow::Owned\(text\[line_start\.\.line_end\]\.to_string\(\)\) => owned(bslice(text, line_start, line_end))
//@re (let text = self\.cached_text\.as_str\(\);) => \1 let size = blen(text); let before = bslice(text, 0, start); let after = bslice(text, start, size);
//@spec
    requires exists|y: (int, int)| #[trigger] at_range(self.cached_text@, (start, end), y)
    ensures forall|y: (int, int)| #[trigger] at_range(self.cached_text@, (start, end), y) ==> at_hit(self.cached_text@, r, y)
//@start
    let ghost t = self.cached_text@; let ghost y = choose|y: (int, int)| #[trigger] at_range(t, (start, end), y); let ghost i = y.0; let ghost a = last_at(t.take(i), '\n') + 1; let ghost z = brk(t, i);
    proof {
        off_zero(t); off_end(t); off_mono(t, 0, i); off_mono(t, i, y.1); off_mono(t, y.1, t.len() as int); assert(off(t, i) == start && off(t, y.1) == end && off(t, 0) == 0 && off(t, t.len() as int) == nbytes(t));
        assert(t.subrange(0, i) =~= t.take(i)); assert(t.subrange(i, t.len() as int) =~= t.skip(i));
        assert forall|x: (int, int)| #[trigger] at_range(t, (start, end), x) implies x == y by { off_inj(t, x.0, i); off_inj(t, x.1, y.1); }
        last_in(t.take(i), '\n'); brk_in(t, i); brk_ch(t, i); ch_in(t.skip(i), 0, '\n');
        off_mono(t, a, i); off_mono(t, i, z); off_mono(t, z, t.len() as int); off_skip(t, i, z - i);
        assert(t.take(i).take(a) =~= t.take(a)); off_zero(t.take(i)); if a > 0 { assert(t.take(i).take(a - 1) =~= t.take(a - 1)); off_step(t, a - 1); }
    }
//@before "SearchResult {"
        proof { assert(off(t, a) == line_start && off(t, z) == line_end && off(t, i) == start && off(t, y.1) == end); }
//@@ end
//@@ fn crates/ass-editor/utils/search/basic.rs DocumentSearchImpl::scope_ranges
//@ret r
//@re (let text = self\.cached_text\.as_str\(\);) => \1 let size = blen(text);
//@re-all range\.(start|end)\.offset\.min\(text\.len\(\)\) => least(range.\1.offset, size)
//@re-all !text\.is_char_boundary\((\w+)\) => !bnd(text, \1)
//@re vec!\[\(0, text\.len\(\)\)\] => vec![(0, size)]
//@re vec!\[\(start, end\)\] => vec![(start, end)]
//@re (let mut selected: Option<\(usize, usize\)> = None;) => let all = lines_of(text); let mut number: usize = 0; \1
//@re for \(number, line\) in text\.split_inclusive\('\\n'\)\.enumerate\(\) \{ => while number < all.len() { let line = all[number];
//@re selected\.map_or\(offset, \|\(first, _\)\| first\) => match selected { Some((first, _)) => first, None => offset }
//@re selected\.into_iter\(\)\.collect\(\) => match selected { Some(one) => vec![one], None => Vec::new() }
//@re for line in text\.split_inclusive\('\\n'\) \{ => let all = lines_of(text); let mut ix: usize = 0; while ix < all.len() { let line = all[ix];
//@re line\.trim\(\) => trimmed(line)
//@re (?s)trimmed\s*\.strip_prefix\('\['\)\s*\.and_then\(\|rest\| rest\.strip_suffix\('\]'\)\) => bracketed(trimmed)
//@re names\.iter\(\)\.any\(\|wanted\| wanted == name\) => named(names, name)
//@re-all let mut offset = 0; => let mut offset: usize = 0;
//@re-all line\.len\(\) => blen(line)
//@spec
    ensures at_ranges(self.cached_text@, r@, scope_of(self.cached_text@, *scope))
//@start
    let ghost t = self.cached_text@; let ghost n = lns(t, 0).len() as int;
    proof { off_zero(t); off_end(t); lines_end(t, 0); assert(begin(t, n) == t.len()); }
//@before "let mut start = least"
                let ghost o1 = range.start.offset as int; let ghost o2 = range.end.offset as int; let ghost a = ceil(t, 0, o1); let ghost b = floor(t, t.len() as int, o2);
                proof { ceil_in(t, 0, o1); floor_in(t, t.len() as int, o2); off_mono(t, a, a); off_mono(t, b, b); assert(at_boundary(t, off(t, a))); assert(at_boundary(t, off(t, b))); }
//@loop 0
    invariant t == text@, size == nbytes(t), at_boundary(t, off(t, a)), start <= off(t, a), start >= o1 || start >= nbytes(t), off(t, a) <= nbytes(t)
    decreases off(t, a) - start
//@before "let mut end = least"
                proof { up_to(t, o1, start as int); }
//@loop 1
    invariant t == text@, size == nbytes(t), at_boundary(t, off(t, b)), off(t, b) <= end <= o2, 0 <= off(t, b)
    decreases end
//@before "if start <= end {"
                proof { down_to(t, o2, end as int); if a <= b { off_mono(t, a, b); } else { off_mono(t, b, a); } assert(start <= end ==> at_range(t, (start, end), (a, b))); }
//@loop 2
    invariant t == text@, n == lns(t, 0).len(), all@.len() == n, forall|k: int| 0 <= k < all@.len() ==> (#[trigger] all@[k])@ == ln(t, k), number <= n, offset == off(t, begin(t, number as int)), 0 <= begin(t, number as int) <= t.len(), nbytes(t) == size,
        match selected { None => !(*start <= *end && *start < number), Some(x) => *start <= *end && *start < number && ({ let e = if *end < number { *end as int } else { number - 1 }; at_range(t, x, (lns(t, 0)[*start as int].0, lns(t, 0)[e].1)) && lns(t, 0)[*start as int].0 <= begin(t, number as int) }) },
    decreases n - number
//@loopstart 2
        proof { line_at(t, number as int); }
//@loopend 2
                    number += 1;
//@loop 3
    invariant t == text@, n == lns(t, 0).len(), all@.len() == n, forall|k: int| 0 <= k < all@.len() ==> (#[trigger] all@[k])@ == ln(t, k), ix <= n, offset == off(t, begin(t, ix as int)), 0 <= begin(t, ix as int) <= t.len(), nbytes(t) == size,
        at_ranges(t, ranges@, chosen(t, ix as int, names@).0),
        match current { None => chosen(t, ix as int, names@).1 is None, Some(x) => chosen(t, ix as int, names@).1 is Some && ({ let y = chosen(t, ix as int, names@).1->Some_0; 0 <= y <= begin(t, ix as int) && x == off(t, y) }) },
    decreases n - ix
//@loopstart 3
        proof { line_at(t, ix as int); }
//@loopend 3
                    ix += 1;
//@@ end
//@@ fn crates/ass-editor/utils/search/basic.rs DocumentSearchImpl::basic_search
//@ret r
//@sig-re SearchResult<'static> => SearchResult
//@re let mut results = Vec::new\(\); => let mut results: Vec<SearchResult> = Vec::new();
//@re (let text = self\.cached_text\.as_str\(\);) => \1 let size = blen(text);
//@re needle\.is_empty\(\) => needle.len() == 0
//@re for \(range_start, range_end\) in self\.scope_ranges\(&options\.scope\) \{ => let ranges = self.scope_ranges(&options.scope); let mut rx: usize = 0; while rx < ranges.len() { let (range_start, range_end) = ranges[rx]; rx += 1;
//@re (?s)let found = matched_len\(&text\[at\.\.range_end\], &needle, options\.case_sensitive\)\s*\.filter\(\|len\| (.*?is_whole_word\(text, at, at \+ len\))\); => let part = bslice(text, at, range_end); let direct = matched_len(part, needle.as_slice(), options.case_sensitive);\nlet found = match direct { Some(len) => if \1 { Some(len) } else { None }, None => None };
//@re text\[at\.\.\]\.chars\(\)\.next\(\)\.map_or\(1, char::len_utf8\) => match first_char(bslice(text, at, size)) { Some(x) => x.len_utf8(), None => 1 }
//@spec
    ensures r is Ok, at_hits(self.cached_text@, r->Ok_0@, found(self.cached_text@, pattern@, *options))
//@start
    let ghost t = self.cached_text@; let ghost rs = scope_of(t, options.scope); let ghost o = opt_of(pattern@, *options); let ghost full = hits_in(t, rs, 0, o); let ghost mut acc: Seq<(int, int)> = Seq::empty();
    proof { off_zero(t); off_end(t); assert(acc + full =~= full); }
//@loop 0
    invariant t == self.cached_text@, t == text@, size == nbytes(t), off(t, t.len() as int) == nbytes(t), rs == scope_of(t, options.scope), o == opt_of(pattern@, *options), needle@ == o.p, o.p.len() > 0, full == hits_in(t, rs, 0, o),
        at_ranges(t, ranges@, rs), rx <= ranges.len(), at_hits(t, results@, acc), acc + hits_in(t, rs, rx as int, o) == full, options.max_results > 0 ==> results.len() < options.max_results,
    decreases ranges.len() - rx
//@loopstart 0
        let ghost r = rx as int; let ghost (a, e) = rs[r]; let ghost rest = hits_in(t, rs, r + 1, o); let ghost mut i = a;
        proof { assert(at_range(t, ranges@[r], rs[r])); assert(acc + (hits(t, a, e, o) + rest) =~= acc + hits(t, a, e, o) + rest); }
//@loop 1
    invariant t == self.cached_text@, t == text@, size == nbytes(t), off(t, t.len() as int) == nbytes(t), o == opt_of(pattern@, *options), needle@ == o.p, o.p.len() > 0, full == hits_in(t, rs, 0, o), rs == scope_of(t, options.scope),
        0 <= i <= e <= t.len(), at == off(t, i), range_end == off(t, e), at_hits(t, results@, acc), acc + hits(t, i, e, o) + rest == full, options.max_results > 0 ==> results.len() < options.max_results,
    decreases e - i
//@loopend 0
            proof { if i < e { off_step(t, i); off_mono(t, i + 1, e); } assert(acc + hits(t, i, e, o) + rest =~= acc + rest); }
//@loopstart 1
            let ghost sub = t.subrange(i, e);
            proof { if i == e { assert(false); } off_mono(t, i, e); if e < i { off_mono(t, e, i); } off_mono(t, e, t.len() as int); off_step(t, i); off_mono(t, i + 1, t.len() as int); assert(t.subrange(i, t.len() as int) =~= t.skip(i)); assert(off(t, i) == at && off(t, e) == range_end); }
//@before "let found = match direct"
            let ghost k = match direct { Some(len) => i + (choose|k: int| 0 <= k <= sub.len() && #[trigger] off(sub, k) == len && fold(sub.take(k), o.cs) == o.p), None => i };
            proof {
                match direct {
                    Some(len) => { off_sub(t, i, e, k - i); assert(sub.take(k - i) =~= t.subrange(i, k)); occ_one(t, i, e, k, o.p, o.cs); off_mono(t, k, e); if k == i { assert(t.subrange(i, k) =~= Seq::<char>::empty()); } assert(at_range(t, (at, (at + len) as usize), (i, k))); }
                    None => { assert forall|k: int| k <= e implies !#[trigger] occ(t, i, k, o.p, o.cs) by { if i <= k { assert(sub.take(k - i) =~= t.subrange(i, k)); } } }
                }
                assert(hit(t, i, e, o) == match direct { Some(len) => if o.ww ==> whole(t, i, k) { Some(k) } else { None }, None => None });
            }
//@after "results.push(self.result_at(at, at + len));"
                    proof { acc = acc.push((i, k)); assert(acc + hits(t, k, e, o) + rest =~= acc.drop_last() + (seq![(i, k)] + hits(t, k, e, o)) + rest); if options.max_results > 0 && results.len() >= options.max_results { assert(full.take(acc.len() as int) =~= acc); } }
//@re at \+= len; => at += len; proof { i = k; }
//@re (at \+= match first_char.*?;) => \1 proof { i = i + 1; }
//@@ end
    /// nothing is ever put into the cache of results
    #[verifier::external_body]
    fn cached(&self, pattern: &str, options: &SearchOptions) -> (r: Option<Vec<SearchResult>>) ensures r is None { unimplemented!() }
    pub uninterp spec fn has_index(&self) -> bool;
    #[verifier::external_body]
    fn is_indexed(&self) -> (r: bool) ensures r == self.has_index() { unimplemented!() }
    /// index and regular expressions: checked by replay
    #[verifier::external_body]
    fn regex_search(&self, pattern: &str, options: &SearchOptions) -> (r: Result<Vec<SearchResult>>) ensures r is Ok ==> at_hits(self.cached_text@, r->Ok_0@, by_regex(self.cached_text@, pattern@, *options)) && apart(by_regex(self.cached_text@, pattern@, *options), 0, self.cached_text@.len() as int) { unimplemented!() }
    #[verifier::external_body]
    fn indexed_word_search(&self, pattern: &str, options: &SearchOptions) -> (r: Vec<SearchResult>) ensures at_hits(self.cached_text@, r@, by_index(self.cached_text@, pattern@, *options)) && apart(by_index(self.cached_text@, pattern@, *options), 0, self.cached_text@.len() as int) { unimplemented!() }
    #[verifier::external_body]
    fn index_words(&mut self, text: &String) -> (r: Result<()>) ensures final(self).cached_text@ == old(self).cached_text@, r is Ok ==> final(self).has_index() { unimplemented!() }
    #[verifier::external_body]
    fn new() -> (r: DocumentSearchImpl) { unimplemented!() }
//@@ fn crates/ass-editor/utils/search/query.rs DocumentSearchImpl::search_impl
//@ret r
//@sig-re SearchResult<'static> => SearchResult
//@opt-re let _start_time = Instant::now\(\); => 
//@re (?s)let cache_key = self\.cache_key\(pattern, options\);\s*if let Some\(cached_results\) = self\.result_cache\.get\(&cache_key\) \{\s*return Ok\(cached_results\.clone\(\)\);\s*\} => if let Some(cached_results) = self.cached(pattern, options) { return Ok(cached_results); }
//@opt-re (?s)\{\s*return Err\(crate::core::EditorError::CommandFailed \{.*?\}\);\s*\} => 
//@re self\.word_index\.is_some\(\) => self.is_indexed()
//@re !pattern\.is_empty\(\) => !nothing(pattern)
//@re (?s)pattern\s*\.bytes\(\)\s*\.all\(\|byte\| byte\.is_ascii_alphanumeric\(\) \|\| byte == b'_'\) => plain_word(pattern)
//@spec
    ensures ({ let t = self.cached_text@; let h = looked(t, pattern@, *options, self.has_index()); (r is Ok ==> at_hits(t, r->Ok_0@, h) && apart(h, 0, t.len() as int)) && (!options.use_regex ==> r is Ok) })
//@start
    proof { found_apart(self.cached_text@, pattern@, *options); }
//@@ end
//@@ fn crates/ass-editor/utils/search/trait_impl.rs DocumentSearchImpl::build_index
//@ret r
//@opt-re let _start_time = Instant::now\(\); => 
//@re (?s)\{\s*let words = .*?\n        \} => self.index_words(&text)?;
//@re self\.document_version \+= 1; => 
//@re self\.result_cache\.clear\(\); => 
//@spec
    ensures r is Ok ==> final(self).cached_text@ == document.t() && final(self).has_index()
//@@ end
//@@ fn crates/ass-editor/utils/search/trait_impl.rs DocumentSearchImpl::replace_all
//@ret r
//@sig-re SearchResult<'static> => SearchResult
//@re (?s)for result in results\.iter\(\)\.rev\(\) \{ => let mut rx = results.len(); while rx > 0 { rx -= 1; let result = &results[rx];
//@start
    let ghost t = document.t(); let ghost h = looked(t, pattern@, *options, true);
//@loop 0
    invariant rx <= results.len(), at_hits(t, results@, h), apart(h, 0, t.len() as int), document.t() == redo(t, h, rx as int, replacement@),
    decreases rx
//@before "let mut rx"
        proof { assert(document.t() == redo(t, h, h.len() as int, replacement@)) by { assert(t.take(last_end(h, h.len() as int)) + t.skip(last_end(h, h.len() as int)) =~= t); } }
//@loopstart 0
            let ghost k = rx as int - 1; let ghost (i, j) = h[k]; let ghost d = document.t(); let ghost q = last_end(h, k);
            proof {
                assert(at_hit(t, results@[k], h[k])); let back = rebuilt(t, h, k + 1, j, replacement@); assert(d == t.take(j) + back);
                assert(d.take(i) =~= t.take(i)); assert(d.take(j) =~= t.take(j)); assert(d.skip(j) =~= back); off_mono(t, i, j); assert(off(d, i) == off(t, i) && off(d, j) == off(t, j));
                assert(t.take(i) + replacement@ + back =~= t.take(q) + (t.subrange(q, i) + replacement@ + back));
            }
//@re (?s)document\.replace\((Range::new\(result\.start, result\.end\)), replacement\)\?; => let range = \1; proof { assert(spans(d, range, i, j)); } document.replace(range, replacement)?; proof { let (a, b) = choose|a: int, b: int| #[trigger] spans(d, range, a, b) && document.t() == d.take(a) + replacement@ + d.skip(b); spans_one(d, range, a, b, i, j); }
//@spec
    ensures r is Ok ==> ({ let t = old(document).t(); let h = looked(t, pattern@, *options, true); at_hits(t, r->Ok_0@, h) && final(document).t() == redo(t, h, 0, replacement@) }), r is Err ==> final(document).t() == old(document).t()
//@@ end
}
fn main() {}
}
