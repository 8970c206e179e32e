use vstd::prelude::*;
verus! {
pub enum CoreError { InvalidTime(String) }

// ---- assumed contracts of the standard library string functions used -----------------------------
pub uninterp spec fn split_spec(s: Seq<char>, sep: char) -> Seq<Seq<char>>;
pub uninterp spec fn num(s: Seq<char>) -> Option<u32>;
pub open spec fn digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> '0' <= #[trigger] s[i] && s[i] <= '9' }
#[verifier::external_body]
fn split_on<'a>(s: &'a str, sep: char) -> (r: Vec<&'a str>)
    ensures r@.len() >= 1, r@.len() == split_spec(s@, sep).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == split_spec(s@, sep)[i]
{ s.split(sep).collect() }
#[verifier::external_body]
fn parse_u32(s: &str) -> (r: Result<u32, CoreError>)
    ensures match r { Ok(v) => num(s@) == Some(v), Err(_) => num(s@) is None }
{ s.parse().map_err(|_| CoreError::InvalidTime(String::new())) }
#[verifier::external_body]
fn only_digits(s: &str) -> (r: bool) ensures r == digits(s@) { s.bytes().all(|b| b.is_ascii_digit()) }
#[verifier::external_body]
fn no_chars(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body]
fn msg() -> String { String::new() }
fn narrow(v: u64) -> (r: Result<u32, CoreError>) ensures match r { Ok(w) => w == v, Err(_) => v > u32::MAX }
{ if v > u32::MAX as u64 { Err(CoreError::InvalidTime(msg())) } else { Ok(v as u32) } }

// ---- specification -------------------------------------------------------------------------------
/// what the text denotes: H:MM:SS or H:MM:SS.CC with MM, SS < 60, CC a plain count of centiseconds
pub open spec fn fields(s: Seq<char>) -> Option<(u32, u32, u32, u32)> {
    let p = split_spec(s, ':');
    if p.len() != 3 { None } else {
        let q = split_spec(p[2], '.');
        match (num(p[0]), num(p[1]), num(q[0])) {
            (Some(h), Some(m), Some(sec)) =>
                if m >= 60 || sec >= 60 { None }
                else if q.len() > 1 { if q[1].len() == 0 || !digits(q[1]) { None } else { match num(q[1]) { Some(c) => Some((h, m, sec, c)), None => None } } }
                else { Some((h, m, sec, 0)) },
            _ => None,
        }
    }
}
pub open spec fn value(f: (u32, u32, u32, u32)) -> int { f.0 * 360_000 + f.1 * 6_000 + f.2 * 100 + f.3 }
pub open spec fn time_of(s: Seq<char>) -> Option<u32> {
    match fields(s) { Some(f) => if value(f) <= u32::MAX { Some(value(f) as u32) } else { None }, None => None }
}
//@@ fn crates/ass-core/utils/time.rs parse_ass_time
//@ret r
//@re let parts: Vec<&str> = time_str\.split\('(.)'\)\.collect\(\); => let parts: Vec<&str> = split_on(time_str, '\1');
//@re let seconds_parts: Vec<&str> = (\S+)\.split\('(.)'\)\.collect\(\); => let seconds_parts: Vec<&str> = split_on(\1, '\2');
//@re-all (parts\[\d\]|seconds_parts\[\d\]|frac_str)\s*\.parse(?:::<u32>)?\(\)\s*\.map_err\(\|_\| CoreError::InvalidTime\(format!\("[^"]*"(?:, [^)]*)?\)\)\) => parse_u32(\1)
//@re u32::try_from\((\w+)\)\s*\.map_err\(\|_\| CoreError::InvalidTime\(format!\("[^"]*"\)\)\) => narrow(\1)
//@re-all format!\(\s*"[^"]*"\s*\) => msg()
//@re-all frac_str\.is_empty\(\) => no_chars(frac_str)
//@re frac_str\.bytes\(\)\.all\(\|b\| b\.is_ascii_digit\(\)\) => only_digits(frac_str)
//@spec
    ensures match r { Ok(v) => time_of(time_str@) == Some(v), Err(_) => time_of(time_str@) is None },
//@@ end

/// the four numbers printed, in order: hours, minutes, seconds, centiseconds (the last three as two digits)
pub struct Printed { pub h: u32, pub m: u32, pub s: u32, pub c: u32 }
//@@ fn crates/ass-core/utils/time.rs format_ass_time
//@ret r
//@sig-re -> String => -> Printed
//@re format!\("\{(\w+)\}:\{(\w+):02\}:\{(\w+):02\}\.\{(\w+):02\}"\) => Printed { h: \1, m: \2, s: \3, c: \4 }
//@spec
    ensures r.m < 60, r.s < 60, r.c < 100, value((r.h, r.m, r.s, r.c)) == centiseconds,
//@@ end
} // verus!
fn main() {}
