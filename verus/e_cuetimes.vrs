use vstd::prelude::*;
use vstd::string::*;
verus! {
//@@ include cuetimes.inc
/// nothing is lost: they add up to it, each in its range
proof fn nothing_lost(cs: u32) ensures ({ let c = cs as int; let h = c / 360_000; let m = (c / 6_000) % 60; let s = (c / 100) % 60; let ms = (c % 100) * 10; 0 <= m < 60 && 0 <= s < 60 && 0 <= ms < 1000 && h * 3_600_000 + m * 60_000 + s * 1_000 + ms == c * 10 }) { }
/// `format!("{time_part}.{cs:02}")`, `format!("{hours}:{}:{}.{cs:02}", ..)` and `format!("{hours}:{minutes:02}:{seconds:02}.{centiseconds:02}")`
#[verifier::external_body]
fn with_cs(a: &str, cs: u32) -> (r: String) ensures r@ == a@ + "."@ + two(cs as int) { format!("{a}.{cs:02}") }
#[verifier::external_body]
fn with_hours(h: &str, m: &str, s: &str, cs: u32) -> (r: String) ensures r@ == h@ + ":"@ + m@ + ":"@ + s@ + "."@ + two(cs as int) { format!("{h}:{m}:{s}.{cs:02}") }
#[verifier::external_body]
fn script_time(h: u32, m: u32, s: u32, c: u32) -> (r: String) ensures r@ == plain(h as int) + ":"@ + two(m as int) + ":"@ + two(s as int) + "."@ + two(c as int) { format!("{h}:{m:02}:{s:02}.{c:02}") }
pub uninterp spec fn swapped_spec(s: Seq<char>, a: char, b: Seq<char>) -> Seq<char>;
#[verifier::external_body]
fn swapped(s: &str, a: char, b: &str) -> (r: String) ensures r@ == swapped_spec(s@, a, b@) { s.replace(a, b) }

// ---- writing: the time as a cue gives it -------------------------------------------------------------------
pub struct SrtFormat {}
pub struct WebVttFormat {}
pub struct FormatConverter {}
pub open spec fn written(s: Seq<char>, sep: Seq<char>) -> Option<Seq<char>> { if core(s).contains('.') && cs_of(core(s)) is Some { Some(cue_time(cs_of(core(s))->Some_0, sep)) } else { None } }
/// with hours of two digits, as far as there are; a time that is none stays as it is
pub open spec fn written_as(s: Seq<char>, sep: Seq<char>) -> Seq<char> { match cs_of(core(s)) { Some(x) => cue_time(x, sep), None => s } }
impl SrtFormat {
//@@ fn crates/ass-editor/formats/srt/time.rs SrtFormat::format_srt_time
//@ret r
//@re ass_time\.trim\(\) => trimmed(ass_time)
//@re ass_time\.contains\('\.'\) => contains_char(ass_time, '.')
//@re (?s)return Err\(EditorError::InvalidFormat\(format!\(\s*"[^"]*"\s*\)\)\) => return Err(refused())
//@re parse_ass_time\(ass_time\)\.map_err\(\|e\| EditorError::InvalidFormat\(e\.to_string\(\)\)\)\?; => match parse_ass_time(ass_time) { Ok(v) => v, Err(_) => { return Err(refused()); } };
//@re (?s)format!\(\s*"\{:02\}:\{:02\}:\{:02\}(.)\{:03\}", => clock_text("\1",
//@spec
    ensures match r { Ok(x) => written(ass_time@, ","@) == Some(x@), Err(_) => written(ass_time@, ","@) is None }
//@@ end
//@@ fn crates/ass-editor/formats/srt/time.rs SrtFormat::parse_srt_time
//@ret r
//@re time_str\.trim\(\) => trimmed(time_str)
//@re (?s)if let Some\(comma_pos\) = time_str\.find\(','\) \{\s*let \(time_part, ms_part\) = time_str\.split_at\(comma_pos\);\s*let ms_part = &ms_part\[1\.\.\]; => if let Some((time_part, ms_part)) = parted(time_str, ',') {
//@re (?s)ms_part\.parse\(\)\.map_err\(\|_\| \{\s*EditorError::InvalidFormat\(format!\("[^"]*"\)\)\s*\}\)\?; => match number(ms_part) { Some(v) => v, None => { return Err(refused()); } };
//@re time_part\.strip_prefix\('0'\) => less(time_part, '0')
//@re rest\.starts_with\(':'\) => begins_with(rest, ':')
//@re format!\("\{time_part\}\.\{cs:02\}"\) => with_cs(time_part, cs)
//@re (?s)Err\(EditorError::InvalidFormat\(format!\(\s*"[^"]*"\s*\)\)\) => Err(refused())
//@spec
    ensures match r { Ok(x) => srt_read(core(time_str@)) == Some(x@), Err(_) => srt_read(core(time_str@)) is None }
//@@ end
}
/// hours of one digit where the first of two is a nought
pub open spec fn hours_short(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s[0] == '0' && !(s.len() > 1 && s[1] == ':') { s.skip(1) } else { s } }
/// the milliseconds behind the comma, as centiseconds
pub open spec fn srt_read(s: Seq<char>) -> Option<Seq<char>> {
    let i = at_char(s, ',', 0);
    if !s.contains(',') { None } else { match num(s.skip(i + 1)) { None => None, Some(ms) => Some(hours_short(s.take(i)) + "."@ + two(ms as int / 10)) } }
}
impl WebVttFormat {
//@@ fn crates/ass-editor/formats/webvtt/time.rs WebVttFormat::format_vtt_time
//@ret r
//@re ass_time\.trim\(\) => trimmed(ass_time)
//@re ass_time\.contains\('\.'\) => contains_char(ass_time, '.')
//@re (?s)return Err\(EditorError::InvalidFormat\(format!\(\s*"[^"]*"\s*\)\)\) => return Err(refused())
//@re parse_ass_time\(ass_time\)\.map_err\(\|e\| EditorError::InvalidFormat\(e\.to_string\(\)\)\)\?; => match parse_ass_time(ass_time) { Ok(v) => v, Err(_) => { return Err(refused()); } };
//@re (?s)format!\(\s*"\{:02\}:\{:02\}:\{:02\}(.)\{:03\}", => clock_text("\1",
//@spec
    ensures match r { Ok(x) => written(ass_time@, "."@) == Some(x@), Err(_) => written(ass_time@, "."@) is None }
//@@ end
//@@ fn crates/ass-editor/formats/webvtt/time.rs WebVttFormat::parse_vtt_time
//@ret r
//@re time_str\.trim\(\) => trimmed(time_str)
//@re-all (\w+)\.split\('(.)'\)\.collect\(\) => split_on(\1, '\2')
//@re-all (?s)return Err\(EditorError::InvalidFormat\(format!\(\s*"[^"]*"\s*\)\)\) => return Err(refused())
//@re (?s)ms_part\s*\.parse\(\)\s*\.map_err\(\|_\| EditorError::InvalidFormat\(format!\("[^"]*"\)\)\)\?; => match number(ms_part) { Some(v) => v, None => { return Err(refused()); } };
//@re (?s)let hours = if hours\.starts_with\('0'\) && hours\.len\(\) > 1 \{\s*&hours\[1\.\.\]\s*\} else \{\s*hours\s*\}; => let hours = less_nought(hours);
//@re (?s)format!\("0:\{time_part\}\.\{cs:02\}"\) => hourless(time_part, cs)
//@re (?s)format!\(\s*"\{hours\}:\{\}:\{\}\.\{cs:02\}",\s*([^;]*?)\s*\)(\s*\}) => with_hours(hours, \1, cs)\2
//@spec
    ensures match r { Ok(x) => vtt_read(core(time_str@)) == Some(x@), Err(_) => vtt_read(core(time_str@)) is None }
//@@ end
}
/// a nought before further digits of the hours is left out: starts_with, len and the slice behind it
pub open spec fn less_nought_spec(s: Seq<char>) -> Seq<char> { if s.len() > 1 && s[0] == '0' { s.skip(1) } else { s } }
#[verifier::external_body]
fn less_nought<'a>(s: &'a str) -> (r: &'a str) ensures r@ == less_nought_spec(s@) { if s.starts_with('0') && s.len() > 1 { &s[1..] } else { s } }
#[verifier::external_body]
fn hourless(a: &str, cs: u32) -> (r: String) ensures r@ == "0:"@ + a@ + "."@ + two(cs as int) { format!("0:{a}.{cs:02}") }
pub open spec fn vtt_read(s: Seq<char>) -> Option<Seq<char>> {
    let p = split_spec(s, '.');
    if p.len() != 2 { None } else { match num(p[1]) { None => None, Some(ms) => {
        let q = split_spec(p[0], ':'); let cs = two(ms as int / 10);
        if q.len() == 2 { Some("0:"@ + p[0] + "."@ + cs) } else if q.len() == 3 { Some(less_nought_spec(q[0]) + ":"@ + q[1] + ":"@ + q[2] + "."@ + cs) } else { None }
    } } }
}
pub open spec fn or_none(x: Option<u32>) -> int { match x { Some(v) => v as int, None => 0 } }
fn or_nought(x: Option<u32>) -> (r: u32) ensures r == or_none(x) { match x { Some(v) => v, None => 0 } }
/// seconds and centiseconds
pub open spec fn low_part(s: Seq<char>) -> Option<(int, int)> { let q = split_spec(s, '.'); match num(q[0]) { None => None, Some(x) => Some((x as int, if q.len() > 1 { or_none(num(q[1])) / 10 } else { 0 })) } }
pub open spec fn conv_srt(s: Seq<char>) -> Option<Seq<char>> {
    let p = split_spec(swapped_spec(s, ',', "."@), ':');
    if p.len() != 3 { None } else { match (num(p[0]), num(p[1]), low_part(p[2])) { (Some(h), Some(m), Some(l)) => Some(plain(h as int) + ":"@ + two(m as int) + ":"@ + two(l.0) + "."@ + two(l.1)), _ => None } }
}
pub open spec fn conv_vtt(s: Seq<char>) -> Option<Seq<char>> {
    let p = split_spec(s, ':'); let n = p.len();
    if n != 2 && n != 3 { None } else { match (num(p[n - 2]), low_part(p[n - 1])) { (Some(m), Some(l)) => Some(plain(if n == 3 { or_none(num(p[0])) } else { 0 }) + ":"@ + two(m as int) + ":"@ + two(l.0) + "."@ + two(l.1)), _ => None } }
}
impl FormatConverter {
//@@ fn crates/ass-editor/utils/formats/export_srt.rs FormatConverter::ass_time_to_srt
//@ret r
//@re let Ok\(cs\) = parse_ass_time\(time\.trim\(\)\) else \{\s*return time\.to_string\(\);\s*\}; => let cs = match parse_ass_time(trimmed(time)) { Ok(v) => v, Err(_) => { return owned(time); } };
//@re (?s)format!\(\s*"\{:02\}:\{:02\}:\{:02\}(.)\{:03\}", => clock_text("\1",
//@spec
    ensures r@ == written_as(time@, ","@)
//@@ end
//@@ fn crates/ass-editor/utils/formats/export_webvtt.rs FormatConverter::ass_time_to_webvtt
//@ret r
//@re let Ok\(cs\) = parse_ass_time\(time\.trim\(\)\) else \{\s*return time\.to_string\(\);\s*\}; => let cs = match parse_ass_time(trimmed(time)) { Ok(v) => v, Err(_) => { return owned(time); } };
//@re (?s)format!\(\s*"\{:02\}:\{:02\}:\{:02\}(.)\{:03\}", => clock_text("\1",
//@spec
    ensures r@ == written_as(time@, "."@)
//@@ end
//@@ fn crates/ass-editor/utils/formats/import_srt.rs FormatConverter::parse_srt_time
//@ret r
//@sig-re -> Result<String> => -> core::result::Result<String, EditorError>
//@re let time = time\.replace\(',', "\."\); => let time = swapped(time, ',', "."); let time = time.as_str();
//@re-all (\w+(?:\[\d\])?)\.split\('(.)'\)\.collect\(\) => split_on(\1, '\2')
//@re (?s)return Err\(EditorError::ValidationError \{\s*message: format!\("[^"]*"\),\s*\}\) => return Err(refused())
//@re-all (?s)(\w+\[\d\])\s*\.parse\(\)\s*\.map_err\(\|_\| EditorError::ValidationError \{\s*message: format!\("[^"]*", \w+\[\d\]\),\s*\}\)\?; => match number(\1) { Some(v) => v, None => { return Err(refused()); } };
//@re (\w+\[\d\])\.parse\(\)\.unwrap_or\(0\) => or_nought(number(\1))
//@re (?s)format!\(\s*"\{hours\}:\{minutes:02\}:\{seconds:02\}\.\{centiseconds:02\}"\s*\) => script_time(hours, minutes, seconds, centiseconds)
//@spec
    ensures match r { Ok(x) => conv_srt(time@) == Some(x@), Err(_) => conv_srt(time@) is None }
//@@ end
//@@ fn crates/ass-editor/utils/formats/import_webvtt.rs FormatConverter::parse_webvtt_time
//@ret r
//@sig-re -> Result<String> => -> core::result::Result<String, EditorError>
//@re-all (\w+(?:\[\d\])?)\.split\('(.)'\)\.collect\(\) => split_on(\1, '\2')
//@re (?s)return Err\(EditorError::ValidationError \{\s*message: format!\("[^"]*"\),\s*\}\) => return Err(refused())
//@re parts\[0\]\.parse::<u32>\(\)\.unwrap_or\(0\) => or_nought(number(parts[0]))
//@re-all (?s)(\w+(?:\[\d\])?)\s*\.parse\(\)\s*\.map_err\(\|_\| EditorError::ValidationError \{\s*message: format!\("[^"]*"(?:, \w+\[\d\])?\),\s*\}\)\?; => match number(\1) { Some(v) => v, None => { return Err(refused()); } };
//@re (\w+\[\d\])\.parse\(\)\.unwrap_or\(0\) => or_nought(number(\1))
//@re (?s)format!\(\s*"\{hours\}:\{minutes:02\}:\{seconds:02\}\.\{centiseconds:02\}"\s*\) => script_time(hours, minutes, seconds, centiseconds)
//@spec
    ensures match r { Ok(x) => conv_vtt(time@) == Some(x@), Err(_) => conv_vtt(time@) is None }
//@@ end
}
fn main() {}
}
