use vstd::prelude::*;
use vstd::string::*;
verus! {
//@@ include cuetimes.inc
pub type Time = core::result::Result<String, EditorError>;
// ---- the text of cues: assumed contracts; times are the contracts discharged in unit e_cuetimes ---------------
pub uninterp spec fn written(s: Seq<char>, sep: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn written_as(s: Seq<char>, sep: Seq<char>) -> Seq<char>;
pub uninterp spec fn srt_read(s: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn vtt_read(s: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn swap(s: Seq<char>, a: Seq<char>, b: Seq<char>) -> Seq<char>;
pub uninterp spec fn to_srt(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn to_vtt(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn of_srt(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn of_vtt(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn settings_of(v: Seq<Seq<char>>) -> Seq<char>;
pub uninterp spec fn words_of(s: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn arrow_parts(s: Seq<char>) -> Seq<Seq<char>>;
pub open spec fn contains_text(s: Seq<char>, p: Seq<char>) -> bool { exists|i: int, j: int| 0 <= i <= j <= s.len() && #[trigger] s.subrange(i, j) == p }
#[verifier::external_body]
fn holds(s: &str, p: &str) -> (r: bool) ensures r == contains_text(s@, p@) { s.contains(p) }
pub open spec fn prefixed(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.take(p.len() as int) == p }
#[verifier::external_body]
fn begins(s: &str, p: &str) -> (r: bool) ensures r == prefixed(s@, p@) { s.starts_with(p) }
#[verifier::external_body]
fn replaced(s: &String, a: &str, b: &str) -> (r: String) ensures r@ == swap(s@, a@, b@) { s.replace(a, b) }
#[verifier::external_body]
fn nothing(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body]
fn same(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body]
fn counted(n: usize) -> (r: String) ensures r@ == plain(n as int) + "\n"@ { format!("{n}\n") }
#[verifier::external_body]
fn arrow(a: &str, b: &str) -> (r: String) ensures r@ == a@ + " --> "@ + b@ + "\n"@ { format!("{a} --> {b}\n") }
#[verifier::external_body]
fn spoken(a: &str, b: &str, c: &str) -> (r: String) ensures r@ == "Dialogue: 0,"@ + a@ + ","@ + b@ + ",Default,,0,0,0,,"@ + c@ { format!("Dialogue: 0,{a},{b},Default,,0,0,0,,{c}") }
#[verifier::external_body]
fn joined(a: &str, b: &str) -> (r: String) ensures r@ == a@ + b@ { format!("{a}{b}") }
pub open spec fn views(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
pub open spec fn views_of(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|s: &str| s@) }
/// the lines with a break between them
pub open spec fn with_breaks(v: Seq<Seq<char>>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { with_breaks(v.drop_last()) + "\\N"@ + v.last() } }
#[verifier::external_body]
fn join_lines(v: &Vec<String>) -> (r: String) ensures r@ == with_breaks(views(v@)) { v.join("\\N") }
/// `s.split("-->").collect()`
#[verifier::external_body]
fn arrow_split<'a>(s: &'a str) -> (r: Vec<&'a str>) ensures views_of(r@) == arrow_parts(s@), r@.len() >= 1, contains_text(s@, "-->"@) ==> r@.len() >= 2 { s.split("-->").collect() }
#[verifier::external_body]
fn words<'a>(s: &'a str) -> (r: Vec<&'a str>) ensures views_of(r@) == words_of(s@) { s.split_whitespace().collect() }
#[verifier::external_body]
fn snew() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
//@@ struct crates/ass-core/parser/ast/event/event_type.rs EventType derive(Clone, Copy)
pub open spec fn shown(e: EventType) -> bool { e == EventType::Dialogue }
impl EventType {
    /// whether `as_str()` is this name: only Dialogue is called "Dialogue" (checked by the replay)
    #[verifier::external_body]
    fn called_dialogue(&self) -> (r: bool) ensures r == shown(*self) { unimplemented!() }
}
pub struct SrtFormat {}
pub struct WebVttFormat {}
impl SrtFormat {
    #[verifier::external_body]
    fn format_srt_time(s: &str) -> (r: Time) ensures match r { Ok(x) => written(s@, ","@) == Some(x@), Err(_) => written(s@, ","@) is None } { unimplemented!() }
    #[verifier::external_body]
    fn parse_srt_time(s: &str) -> (r: Time) ensures match r { Ok(x) => srt_read(core(s@)) == Some(x@), Err(_) => srt_read(core(s@)) is None } { unimplemented!() }
    #[verifier::external_body]
    fn convert_ass_to_srt_styling(s: &str) -> (r: String) ensures r@ == to_srt(s@) { unimplemented!() }
    #[verifier::external_body]
    fn convert_srt_to_ass_styling(s: &str) -> (r: String) ensures r@ == of_srt(s@) { unimplemented!() }
}
impl WebVttFormat {
    #[verifier::external_body]
    fn format_vtt_time(s: &str) -> (r: Time) ensures match r { Ok(x) => written(s@, "."@) == Some(x@), Err(_) => written(s@, "."@) is None } { unimplemented!() }
    #[verifier::external_body]
    fn parse_vtt_time(s: &str) -> (r: Time) ensures match r { Ok(x) => vtt_read(core(s@)) == Some(x@), Err(_) => vtt_read(core(s@)) is None } { unimplemented!() }
    #[verifier::external_body]
    fn convert_ass_to_vtt_styling(s: &str) -> (r: String) ensures r@ == to_vtt(s@) { unimplemented!() }
    #[verifier::external_body]
    fn convert_vtt_to_ass_styling(s: &str) -> (r: String) ensures r@ == of_vtt(s@) { unimplemented!() }
}
// ---- writing: every dialogue event with two times, in order, numbered from one ---------------------------------
pub type Row = (EventType, String, String, String);
pub open spec fn told(e: Row, sep: Seq<char>) -> bool { shown(e.0) && written(e.1@, sep) is Some && written(e.2@, sep) is Some }
pub open spec fn number_of(v: Seq<Row>, k: int, sep: Seq<char>) -> int decreases k { if k <= 0 { 0 } else { number_of(v, k - 1, sep) + if told(v[k - 1], sep) { 1int } else { 0 } } }
pub open spec fn block(n: int, e: Row, sep: Seq<char>, text: Seq<char>) -> Seq<char> { plain(n) + "\n"@ + (written(e.1@, sep)->Some_0 + " --> "@ + written(e.2@, sep)->Some_0 + "\n"@) + text + "\n\n"@ }
/// both kinds of line break of a script become line breaks
pub open spec fn broken(s: Seq<char>) -> Seq<char> { swap(swap(s, "\\N"@, "\n"@), "\\n"@, "\n"@) }
pub open spec fn srt_out(v: Seq<Row>, k: int) -> Seq<char> decreases k { if k <= 0 { Seq::empty() } else if told(v[k - 1], ","@) { srt_out(v, k - 1) + block(number_of(v, k, ","@), v[k - 1], ","@, to_srt(broken(v[k - 1].3@))) } else { srt_out(v, k - 1) } }
pub open spec fn vtt_out(v: Seq<Row>, k: int) -> Seq<char> decreases k { if k <= 0 { "WEBVTT\n\n"@ } else if told(v[k - 1], "."@) { vtt_out(v, k - 1) + block(number_of(v, k, "."@), v[k - 1], "."@, to_vtt(broken(v[k - 1].3@))) } else { vtt_out(v, k - 1) } }
impl SrtFormat {
//@@ fn crates/ass-editor/formats/srt/export.rs SrtFormat::export_to_writer
//@frag "let mut srt_content = String::new();" "let bytes"
//@sig fn write_srt(events: &Vec<Row>) -> (r: (String, usize))
//@re let mut srt_content = String::new\(\); => let mut srt_content = snew();
//@re let mut subtitle_num = 1; => let mut subtitle_num: usize = 1;
//@re let mut warnings = Vec::new\(\); => 
//@re for \(event_type, start, end, text\) in &events \{ => let mut ix: usize = 0; while ix < events.len() { let row = &events[ix]; ix += 1; let event_type = row.0; let start = row.1.as_str(); let end = row.2.as_str(); let text = owned(row.3.as_str());
//@re event_type\.as_str\(\) != "Dialogue" => !event_type.called_dialogue()
//@re-all (?s)Err\(e\) =\x3e \{\s*warnings\.push\(format!\([^;]*\)\);\s*continue;\s*\} => Err(_) => { continue; }
//@re-all text = text\.replace\(("[^"]*"), ("[^"]*")\); => text = replaced(&text, \1, \2);
//@re Self::convert_ass_to_srt_styling\(&text\) => Self::convert_ass_to_srt_styling(text.as_str())
//@re srt_content\.push_str\(&format!\("\{subtitle_num\}\\n"\)\); => srt_content.append(counted(subtitle_num).as_str());
//@re srt_content\.push_str\(&format!\("\{start_time\} --> \{end_time\}\\n"\)\); => srt_content.append(arrow(start_time.as_str(), end_time.as_str()).as_str());
//@re srt_content\.push_str\(&text\); => srt_content.append(text.as_str());
//@re srt_content\.push_str\("\\n\\n"\); => srt_content.append("\\n\\n");
//@loop 0
    invariant events.len() < usize::MAX, ix <= events.len(), subtitle_num == 1 + number_of(events@, ix as int, ","@), 1 <= subtitle_num <= ix + 1, srt_content@ == srt_out(events@, ix as int),
    decreases events.len() - ix
//@loopstart 0
        let ghost was = srt_content@; proof { reveal_with_fuel(srt_out, 2); reveal_with_fuel(number_of, 2); }
//@after "srt_content.append("
        proof { }
//@loopend 0
            proof { assert(srt_content@ =~= was + block(number_of(events@, ix as int, ","@), events@[ix - 1], ","@, to_srt(broken(events@[ix - 1].3@)))); }
//@finish
    (srt_content, subtitle_num - 1)
//@spec
    requires events.len() < usize::MAX
    ensures r.0@ == srt_out(events@, events@.len() as int), r.1 == number_of(events@, events@.len() as int, ","@)
//@@ end
}
impl WebVttFormat {
//@@ fn crates/ass-editor/formats/webvtt/exporter.rs WebVttFormat::export_to_writer
//@frag "let mut vtt_content = String::new();" "let bytes"
//@sig fn write_vtt(events: &Vec<Row>) -> (r: (String, usize))
//@re let mut vtt_content = String::new\(\); => let mut vtt_content = snew();
//@re let mut cue_num = 1; => let mut cue_num: usize = 1;
//@re let mut warnings = Vec::new\(\); => 
//@re for \(event_type, start, end, text\) in &events \{ => let mut ix: usize = 0; while ix < events.len() { let row = &events[ix]; ix += 1; let event_type = row.0; let start = row.1.as_str(); let end = row.2.as_str(); let text = owned(row.3.as_str());
//@re event_type\.as_str\(\) != "Dialogue" => !event_type.called_dialogue()
//@re-all (?s)Err\(e\) =\x3e \{\s*warnings\.push\(format!\([^;]*\)\);\s*continue;\s*\} => Err(_) => { continue; }
//@re-all text = text\.replace\(("[^"]*"), ("[^"]*")\); => text = replaced(&text, \1, \2);
//@re Self::convert_ass_to_vtt_styling\(&text\) => Self::convert_ass_to_vtt_styling(text.as_str())
//@re vtt_content\.push_str\(&format!\("\{cue_num\}\\n"\)\); => vtt_content.append(counted(cue_num).as_str());
//@re vtt_content\.push_str\(&format!\("\{start_time\} --> \{end_time\}\\n"\)\); => vtt_content.append(arrow(start_time.as_str(), end_time.as_str()).as_str());
//@re vtt_content\.push_str\(&text\); => vtt_content.append(text.as_str());
//@re vtt_content\.push_str\("\\n\\n"\); => vtt_content.append("\\n\\n");
//@re vtt_content\.push_str\("WEBVTT\\n\\n"\); => vtt_content.append("WEBVTT\\n\\n"); proof { reveal_with_fuel(vtt_out, 1); assert(vtt_content@ =~= "WEBVTT\\n\\n"@); }
//@loop 0
    invariant events.len() < usize::MAX, ix <= events.len(), cue_num == 1 + number_of(events@, ix as int, "."@), 1 <= cue_num <= ix + 1, vtt_content@ == vtt_out(events@, ix as int),
    decreases events.len() - ix
//@loopstart 0
        let ghost was = vtt_content@; proof { reveal_with_fuel(vtt_out, 2); reveal_with_fuel(number_of, 2); }
//@after "vtt_content.append("
        proof { }
//@loopend 0
            proof { assert(vtt_content@ =~= was + block(number_of(events@, ix as int, "."@), events@[ix - 1], "."@, to_vtt(broken(events@[ix - 1].3@)))); }
//@finish
    (vtt_content, cue_num - 1)
//@spec
    requires events.len() < usize::MAX
    ensures r.0@ == vtt_out(events@, events@.len() as int), r.1 == number_of(events@, events@.len() as int, "."@)
//@@ end
}

// ---- reading: a cue is the lines up to the next blank one, its times on the line with the arrow -----------------
pub open spec fn blank(l: Seq<char>) -> bool { core(l).len() == 0 }
/// the first line from i that is not blank
pub open spec fn full_from(v: Seq<String>, i: int) -> int decreases v.len() - i { if i < 0 || i >= v.len() { v.len() as int } else if !blank(v[i]@) { i } else { full_from(v, i + 1) } }
/// the first line from i that is blank
pub open spec fn blank_from(v: Seq<String>, i: int) -> int decreases v.len() - i { if i < 0 || i >= v.len() { v.len() as int } else if blank(v[i]@) { i } else { blank_from(v, i + 1) } }
/// the first line from i that is neither blank nor a comment
pub open spec fn cue_from(v: Seq<String>, i: int) -> int decreases v.len() - i { if i < 0 || i >= v.len() { v.len() as int } else if !blank(v[i]@) && !prefixed(core(v[i]@), "NOTE"@) { i } else { cue_from(v, i + 1) } }
proof fn blank_in(v: Seq<String>, i: int) requires 0 <= i <= v.len() ensures i <= blank_from(v, i) <= v.len(), forall|j: int| i <= j < blank_from(v, i) ==> !blank(#[trigger] v[j]@) decreases v.len() - i { if i < v.len() && !blank(v[i]@) { blank_in(v, i + 1); } }
proof fn full_in(v: Seq<String>, i: int) requires 0 <= i <= v.len() ensures i <= full_from(v, i) <= v.len(), forall|j: int| i <= j < full_from(v, i) ==> blank(#[trigger] v[j]@) decreases v.len() - i { if i < v.len() && blank(v[i]@) { full_in(v, i + 1); } }
proof fn cue_in(v: Seq<String>, i: int) requires 0 <= i <= v.len() ensures i <= cue_from(v, i) <= v.len() decreases v.len() - i { if i < v.len() && !(!blank(v[i]@) && !prefixed(core(v[i]@), "NOTE"@)) { cue_in(v, i + 1); } }
/// every line a to b with its styling rewritten
pub open spec fn srt_lines(v: Seq<String>, a: int, b: int) -> Seq<Seq<char>> decreases b - a { if b <= a { Seq::empty() } else { srt_lines(v, a, b - 1).push(of_srt(v[b - 1]@)) } }
pub open spec fn vtt_lines(v: Seq<String>, a: int, b: int) -> Seq<Seq<char>> decreases b - a { if b <= a { Seq::empty() } else { vtt_lines(v, a, b - 1).push(of_vtt(v[b - 1]@)) } }
pub open spec fn line_of(a: Seq<char>, b: Seq<char>, text: Seq<char>) -> Seq<char> { "Dialogue: 0,"@ + a + ","@ + b + ",Default,,0,0,0,,"@ + text }
/// the subtitle at i, and the line behind it
pub open spec fn srt_cue(v: Seq<String>, i: int) -> Option<(int, Seq<char>)> {
    let n = full_from(v, i); let t = n + 1; let e = blank_from(v, t + 1);
    if n >= v.len() || t >= v.len() || !contains_text(v[t]@, "-->"@) || arrow_parts(v[t]@).len() != 2 { None }
    else { let p = arrow_parts(v[t]@);
        if srt_read(core(p[0])) is None || srt_read(core(p[1])) is None || e <= t + 1 { None }
        else { Some((e, line_of(srt_read(core(p[0]))->Some_0, srt_read(core(p[1]))->Some_0, with_breaks(srt_lines(v, t + 1, e))))) } }
}
/// the cue with its times on line t
pub open spec fn timed(v: Seq<String>, t: int) -> Option<(int, Seq<char>)> {
    let p = arrow_parts(v[t]@); let w = words_of(p[1]); let e = blank_from(v, t + 1); let b = if w.len() > 0 { w[0] } else { Seq::empty() };
    if p.len() < 2 || vtt_read(core(p[0])) is None || vtt_read(core(b)) is None || e <= t + 1 { None }
    else { Some((e, line_of(vtt_read(core(p[0]))->Some_0, vtt_read(core(b))->Some_0, settings_of(w) + with_breaks(vtt_lines(v, t + 1, e))))) }
}
/// a line before the one with the times names the cue; what follows a name that looks like a comment may be named again
pub open spec fn vtt_cue(v: Seq<String>, i: int) -> Option<(int, Seq<char>)> decreases v.len() - i {
    let n = cue_from(v, i);
    if i < 0 || n < i || n >= v.len() { None }
    else if contains_text(v[n]@, "-->"@) { timed(v, n) }
    else if n + 1 < v.len() && contains_text(v[n + 1]@, "-->"@) { vtt_cue(v, n + 1) }
    else { None }
}
/// `s[1..].join(" ")` read as settings and written as tags
#[verifier::external_body]
fn settings_text(v: &Vec<&str>) -> (r: String) ensures r@ == settings_of(views_of(v@)) { unimplemented!() }
/// `first().copied().unwrap_or_default()`
#[verifier::external_body]
fn first_or_nothing<'a>(v: &Vec<&'a str>) -> (r: &'a str) ensures r@ == (if v@.len() > 0 { v@[0]@ } else { Seq::<char>::empty() }) { v.first().copied().unwrap_or_default() }
type Read = core::result::Result<(usize, String), EditorError>;
pub open spec fn agrees(r: Read, w: Option<(int, Seq<char>)>) -> bool { match r { Ok(x) => w is Some && w->Some_0.0 == x.0 && w->Some_0.1 == x.1@, Err(_) => w is None } }
impl SrtFormat {
//@@ fn crates/ass-editor/formats/srt/import.rs SrtFormat::parse_srt_subtitle
//@sig-re lines: &\[String\] => lines: &Vec<String>
//@sig-re Result<\(usize, String\), EditorError> => Read
//@re-all (?s)return Err\(EditorError::InvalidFormat\((?:format!\([^;]*?\)|[^;]*?)\)\); => return Err(refused());
//@re let mut idx = start_idx; => let mut idx = start_idx; proof { full_in(lines@, start_idx as int); }
//@re-all lines\[idx\]\.trim\(\)\.is_empty\(\) => nothing(trimmed(lines[idx].as_str()))
//@re let _subtitle_num = lines\[idx\]\.trim\(\); => 
//@re let timestamp_line = &lines\[idx\]; => let timestamp_line = lines[idx].as_str();
//@re timestamp_line\.contains\("-->"\) => holds(timestamp_line, "-->")
//@re let parts: Vec<&str> = timestamp_line\.split\("-->"\)\.collect\(\); => let parts: Vec<&str> = arrow_split(timestamp_line);
//@re let mut text_lines = Vec::new\(\); => let ghost n0 = idx as int; let mut text_lines: Vec<String> = Vec::new(); proof { blank_in(lines@, n0); }
//@re Self::convert_srt_to_ass_styling\(&lines\[idx\]\) => Self::convert_srt_to_ass_styling(lines[idx].as_str())
//@re text_lines\.is_empty\(\) => text_lines.len() == 0
//@re text_lines\.join\("\\\\N"\) => join_lines(&text_lines)
//@re format!\("Dialogue: 0,\{start_time\},\{end_time\},Default,,0,0,0,,\{text\}"\) => spoken(start_time.as_str(), end_time.as_str(), text.as_str())
//@loop 0
    invariant start_idx <= idx <= lines.len(), full_from(lines@, start_idx as int) == full_from(lines@, idx as int),
    decreases lines.len() - idx
//@loop 1
    invariant n0 <= idx <= lines.len(), n0 >= 0, blank_from(lines@, n0) == blank_from(lines@, idx as int), views(text_lines@) == srt_lines(lines@, n0, idx as int), text_lines@.len() == idx - n0,
    decreases lines.len() - idx
//@after "idx += 1;"
//@loopend 1
            proof { assert(views(text_lines@) =~= srt_lines(lines@, n0, idx as int - 1).push(of_srt(lines@[idx - 1]@))); }
//@spec
    requires true
    ensures agrees(r, srt_cue(lines@, start_idx as int)), r is Ok ==> start_idx < r->Ok_0.0 <= lines.len()
//@ret r
//@@ end
}
impl WebVttFormat {
//@@ fn crates/ass-editor/formats/webvtt/cue.rs WebVttFormat::parse_vtt_cue
//@sig-re lines: &\[String\] => lines: &Vec<String>
//@sig-re Result<\(usize, String\), EditorError> => Read
//@re-all (?s)return Err\(EditorError::InvalidFormat\((?:format!\([^;]*?\)|[^;]*?)\)\); => return Err(refused());
//@re (?s)Err\(EditorError::InvalidFormat\(format!\([^;]*?\)\)\) => Err(refused())
//@re let mut idx = start_idx; => let mut idx = start_idx; proof { cue_in(lines@, start_idx as int); }
//@re let line = lines\[idx\]\.trim\(\); => let line = trimmed(lines[idx].as_str());
//@re line\.is_empty\(\) \|\| line\.starts_with\("NOTE"\) => nothing(line) || begins(line, "NOTE")
//@re let current_line = &lines\[idx\]; => let ghost t0 = idx as int; proof { assert(t0 == cue_from(lines@, start_idx as int)); } let current_line = lines[idx].as_str();
//@re current_line\.contains\("-->"\) => holds(current_line, "-->")
//@re lines\[idx\]\.contains\("-->"\) => holds(lines[idx].as_str(), "-->")
//@re let parts: Vec<&str> = timestamp_line\.split\("-->"\)\.collect\(\); => let parts: Vec<&str> = arrow_split(timestamp_line);
//@re let end_time_and_settings: Vec<&str> = parts\[1\]\.split_whitespace\(\)\.collect\(\); => let end_time_and_settings: Vec<&str> = words(parts[1]);
//@re end_time_and_settings\.first\(\)\.copied\(\)\.unwrap_or_default\(\) => first_or_nothing(&end_time_and_settings)
//@re (?s)let cue_settings = if .*?HashMap::new\(\)\s*\}; => let positioning = settings_text(&end_time_and_settings);
//@re let positioning = Self::cue_settings_to_ass_positioning\(&cue_settings\); => 
//@re let mut text_lines = Vec::new\(\); => let ghost n0 = idx as int; let mut text_lines: Vec<String> = Vec::new(); proof { blank_in(lines@, n0); }
//@re lines\[idx\]\.trim\(\)\.is_empty\(\) => nothing(trimmed(lines[idx].as_str()))
//@re Self::convert_vtt_to_ass_styling\(&lines\[idx\]\) => Self::convert_vtt_to_ass_styling(lines[idx].as_str())
//@re text_lines\.is_empty\(\) => text_lines.len() == 0
//@re text_lines\.join\("\\\\N"\) => join_lines(&text_lines)
//@re format!\("Dialogue: 0,\{start_time\},\{end_time\},Default,,0,0,0,,\{positioning\}\{text\}"\) => spoken(start_time.as_str(), end_time.as_str(), joined(positioning.as_str(), text.as_str()).as_str())
//@loop 0
    invariant_except_break start_idx <= idx <= lines.len(), cue_from(lines@, start_idx as int) == cue_from(lines@, idx as int),
    ensures start_idx <= idx <= lines.len(), cue_from(lines@, start_idx as int) == idx,
    decreases lines.len() - idx
//@loop 1
    invariant n0 <= idx <= lines.len(), n0 >= 0, blank_from(lines@, n0) == blank_from(lines@, idx as int), views(text_lines@) == vtt_lines(lines@, n0, idx as int), text_lines@.len() == idx - n0,
    decreases lines.len() - idx
//@loopend 1
            proof { assert(views(text_lines@) =~= vtt_lines(lines@, n0, idx as int - 1).push(of_vtt(lines@[idx - 1]@))); }
//@spec
    requires true
    ensures agrees(r, vtt_cue(lines@, start_idx as int)), r is Ok ==> start_idx < r->Ok_0.0 <= lines.len()
    decreases lines.len() - start_idx
//@ret r
//@@ end
}
/// the header of the file is no cue
pub open spec fn first_line(v: Seq<String>) -> int { if v.len() > 0 && prefixed(core(v[0]@), "WEBVTT"@) { 1 } else { 0 } }
// ---- a file: every cue of it in order; a line no cue begins at is passed over -----------------------------------
pub open spec fn srt_cues(v: Seq<String>, i: int) -> Seq<Seq<char>> decreases v.len() - i {
    if i < 0 || i >= v.len() { Seq::empty() } else { match srt_cue(v, i) { Some(x) => if i < x.0 <= v.len() { seq![x.1] + srt_cues(v, x.0) } else { Seq::empty() }, None => srt_cues(v, i + 1) } }
}
pub open spec fn vtt_cues(v: Seq<String>, i: int) -> Seq<Seq<char>> decreases v.len() - i {
    if i < 0 || i >= v.len() { Seq::empty() } else { match vtt_cue(v, i) { Some(x) => if i < x.0 <= v.len() { seq![x.1] + vtt_cues(v, x.0) } else { Seq::empty() }, None => vtt_cues(v, i + 1) } }
}
impl SrtFormat {
//@@ fn crates/ass-editor/formats/srt/import.rs SrtFormat::import_from_reader
//@frag "let mut dialogues = Vec::new();" "let mut ass_content"
//@sig fn read_srt(lines: &Vec<String>) -> (r: (Vec<String>, usize))
//@re let mut dialogues = Vec::new\(\); => let mut dialogues: Vec<String> = Vec::new();
//@re let mut idx = 0; => let mut idx: usize = 0;
//@re let mut subtitle_count = 0; => let mut subtitle_count: usize = 0;
//@re parse_srt_subtitle\(&lines, idx\) => parse_srt_subtitle(lines, idx)
//@re (?s)Err\(e\) =\x3e => Err(_) =>
//@re (?s)warnings\.push\(format!\([^;]*?\)\); => 
//@loop 0
    invariant idx <= lines.len(), subtitle_count == dialogues.len(), dialogues.len() <= idx, views(dialogues@) + srt_cues(lines@, idx as int) == srt_cues(lines@, 0),
    ensures idx == lines.len(),
    decreases lines.len() - idx
//@loopstart 0
        let ghost was = views(dialogues@); let ghost at = idx as int;
//@loopend 0
        proof { match srt_cue(lines@, at) { Some(x) => { assert(views(dialogues@) =~= was.push(x.1)); assert(was + (seq![x.1] + srt_cues(lines@, x.0)) =~= was.push(x.1) + srt_cues(lines@, x.0)); } None => {} } }
//@finish
    proof { assert(views(dialogues@) + Seq::<Seq<char>>::empty() =~= views(dialogues@)); }
    (dialogues, subtitle_count)
//@spec
    requires true
    ensures views(r.0@) == srt_cues(lines@, 0), r.1 == r.0@.len()
//@@ end
}
impl WebVttFormat {
//@@ fn crates/ass-editor/formats/webvtt/importer.rs WebVttFormat::import_from_reader
//@frag "let mut dialogues = Vec::new();" "let mut ass_content"
//@sig fn read_vtt(lines: &Vec<String>) -> (r: (Vec<String>, usize))
//@re let mut dialogues = Vec::new\(\); => let mut dialogues: Vec<String> = Vec::new();
//@re let mut idx = 0; => let mut idx: usize = 0;
//@re let mut cue_count = 0; => let mut cue_count: usize = 0;
//@re lines\.is_empty\(\) \|\| !lines\[0\]\.trim\(\)\.starts_with\("WEBVTT"\) => lines.len() == 0 || !begins(trimmed(lines[0].as_str()), "WEBVTT")
//@re warnings\.push\("Missing or invalid WebVTT header"\.to_string\(\)\); => 
//@re parse_vtt_cue\(&lines, idx\) => parse_vtt_cue(lines, idx)
//@re (?s)Err\(e\) =\x3e => Err(_) =>
//@re (?s)warnings\.push\(format!\([^;]*?\)\); => 
//@before "while idx < lines.len()"
        proof { assert(views(dialogues@) =~= Seq::<Seq<char>>::empty()); assert(views(dialogues@) + vtt_cues(lines@, idx as int) =~= vtt_cues(lines@, idx as int)); }
//@loop 0
    invariant idx <= lines.len(), cue_count == dialogues.len(), dialogues.len() <= idx, views(dialogues@) + vtt_cues(lines@, idx as int) == vtt_cues(lines@, first_line(lines@)),
    ensures idx == lines.len(),
    decreases lines.len() - idx
//@loopstart 0
        let ghost was = views(dialogues@); let ghost at = idx as int;
//@loopend 0
        proof { match vtt_cue(lines@, at) { Some(x) => { assert(views(dialogues@) =~= was.push(x.1)); assert(was + (seq![x.1] + vtt_cues(lines@, x.0)) =~= was.push(x.1) + vtt_cues(lines@, x.0)); } None => {} } }
//@finish
    proof { assert(views(dialogues@) + Seq::<Seq<char>>::empty() =~= views(dialogues@)); }
    (dialogues, cue_count)
//@spec
    requires true
    ensures views(r.0@) == vtt_cues(lines@, first_line(lines@)), r.1 == r.0@.len()
//@@ end
}
fn main() {}
}
