// ---- times of cues: assumed contracts of the standard library functions used ---------------------------------
pub struct EditorError { pub kind: u8 }
#[verifier::external_body]
fn refused() -> EditorError { unimplemented!() }
pub uninterp spec fn core(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn split_spec(s: Seq<char>, sep: char) -> Seq<Seq<char>>;
pub uninterp spec fn num(s: Seq<char>) -> Option<u32>;
/// as decimal digits, with at least two or three of them
pub uninterp spec fn plain(n: int) -> Seq<char>;
pub uninterp spec fn two(n: int) -> Seq<char>;
pub uninterp spec fn three(n: int) -> Seq<char>;
/// what a time text of a script denotes, in centiseconds (unit c_time)
pub uninterp spec fn cs_of(s: Seq<char>) -> Option<u32>;
#[verifier::external_body]
fn parse_ass_time(s: &str) -> (r: core::result::Result<u32, EditorError>) ensures match r { Ok(x) => cs_of(s@) == Some(x), Err(_) => cs_of(s@) is None } { unimplemented!() }
#[verifier::external_body]
fn trimmed<'a>(s: &'a str) -> (r: &'a str) ensures r@ == core(s@) { s.trim() }
#[verifier::external_body]
fn owned(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
/// `s.parse::<u32>().ok()`
#[verifier::external_body]
fn number(s: &str) -> (r: Option<u32>) ensures r == num(s@) { s.parse().ok() }
#[verifier::external_body]
fn split_on<'a>(s: &'a str, sep: char) -> (r: Vec<&'a str>) ensures r@.len() >= 1, r@.len() == split_spec(s@, sep).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == split_spec(s@, sep)[i] { s.split(sep).collect() }
#[verifier::external_body]
fn begins_with(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { s.starts_with(c) }
#[verifier::external_body]
fn contains_char(s: &str, c: char) -> (r: bool) ensures r == s@.contains(c) { s.contains(c) }
/// `s.strip_prefix(c)`
#[verifier::external_body]
fn less<'a>(s: &'a str, c: char) -> (r: Option<&'a str>) ensures match r { Some(x) => s@.len() > 0 && s@[0] == c && x@ == s@.skip(1), None => !(s@.len() > 0 && s@[0] == c) } { s.strip_prefix(c) }
pub open spec fn at_char(s: Seq<char>, c: char, i: int) -> int decreases s.len() - i { if i < 0 || i >= s.len() { s.len() as int } else if s[i] == c { i } else { at_char(s, c, i + 1) } }
/// before and behind the first such character: find, split_at and the rest without it
#[verifier::external_body]
fn parted<'a>(s: &'a str, c: char) -> (r: Option<(&'a str, &'a str)>)
    ensures match r { None => !s@.contains(c), Some(x) => s@.contains(c) && x.0@ == s@.take(at_char(s@, c, 0)) && x.1@ == s@.skip(at_char(s@, c, 0) + 1) }
{ s.split_once(c) }
pub open spec fn clock(h: int, m: int, s: int, sep: Seq<char>, ms: int) -> Seq<char> { two(h) + ":"@ + two(m) + ":"@ + two(s) + sep + three(ms) }
/// `format!("{:02}:{:02}:{:02}<sep>{:03}", ..)`
#[verifier::external_body]
fn clock_text(sep: &str, h: u32, m: u32, s: u32, ms: u32) -> (r: String) ensures r@ == clock(h as int, m as int, s as int, sep@, ms as int) { format!("{:02}:{:02}:{:02}{sep}{:03}", h, m, s, ms) }
/// hours, minutes, seconds and milliseconds of a time in centiseconds
pub open spec fn cue_time(cs: u32, sep: Seq<char>) -> Seq<char> { clock(cs as int / 360_000, (cs as int / 6_000) % 60, (cs as int / 100) % 60, sep, (cs as int % 100) * 10) }
