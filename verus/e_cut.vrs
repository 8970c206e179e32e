use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
verus! {
//@@ include str.inc
//@@ include doc.inc
//@@ include lines.inc
//@@ include sections.inc
//@@ include fields.inc
//@@ include walk.inc
//@@ include event.inc
/// contract discharged in unit e_event
#[verifier::external_body]
fn parse_event_line<'a>(line: &'a str) -> (r: core::result::Result<Event<'a>, EditorError>)
    requires nbytes(line@) < 0x7fff_ffff
    ensures match r { Ok(e) => event_of(line@) is Some && is_ev(e, event_of(line@)->Some_0), Err(_) => event_of(line@) is None }
{ unimplemented!() }
/// times as text: contracts discharged in unit c_time
pub uninterp spec fn cs_of(s: Seq<char>) -> Option<u32>;
pub uninterp spec fn time_text(x: u32) -> Seq<char>;
impl<'a> Event<'a> {
    #[verifier::external_body]
    pub fn start_time_cs(&self) -> (r: core::result::Result<u32, EditorError>) ensures match r { Ok(x) => cs_of(self.start@) == Some(x), Err(_) => cs_of(self.start@) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn end_time_cs(&self) -> (r: core::result::Result<u32, EditorError>) ensures match r { Ok(x) => cs_of(self.end@) == Some(x), Err(_) => cs_of(self.end@) is None } { unimplemented!() }
}

// ---- specification: event number k of a document ------------------------------------------------------------
#[verifier::opaque]
pub open spec fn nth(t: Seq<char>, p: int, n: int, k: int) -> Option<int>
    decreases t.len() - p
{
    if p < 0 || p >= t.len() || eol(t, p) <= p { None } else {
        let s = t.subrange(p, brk(t, p)); let e = eol(t, p);
        if is_event(s) { if n == k { Some(p) } else { nth(t, e, n + 1, k) } } else if new_section(s) { None } else { nth(t, e, n, k) }
    }
}
pub open spec fn target(t: Seq<char>, k: int) -> Option<int> { match first_line(t) { None => None, Some(p) => nth(t, p, 0, k) } }
proof fn nth_next(t: Seq<char>, p: int, n: int, k: int)
    requires 0 <= p < t.len()
    ensures ({ let s = t.subrange(p, brk(t, p)); let e = eol(t, p); nth(t, p, n, k) == if is_event(s) { if n == k { Some(p) } else { nth(t, e, n + 1, k) } } else if new_section(s) { None } else { nth(t, e, n, k) } })
{ reveal(nth); brk_in(t, p); }
proof fn nth_end(t: Seq<char>, n: int, k: int) ensures nth(t, t.len() as int, n, k) is None { reveal(nth); }
/// it is a line of the text at or below p
proof fn nth_in(t: Seq<char>, p: int, n: int, k: int)
    requires 0 <= p <= t.len(), p == 0 || p == t.len() || t[p - 1] == '\n'
    ensures nth(t, p, n, k) is Some ==> ({ let x = nth(t, p, n, k)->Some_0; p <= x < t.len() && (x == 0 || t[x - 1] == '\n') && is_event(t.subrange(x, brk(t, x))) })
    decreases t.len() - p
{ reveal(nth); if p < t.len() { brk_in(t, p); nth_in(t, eol(t, p), n + 1, k); nth_in(t, eol(t, p), n, k); } }
/// the line at p in bytes
pub open spec fn line_at(t: Seq<char>, p: int) -> bool {
    let z = brk(t, p); let e = eol(t, p);
    p <= z <= e <= t.len() && p < e && ch_at(t.skip(p), 0, '\n') == z - p && t.subrange(p, t.len() as int) == t.skip(p) && t.skip(p).len() == t.len() - p && off(t, t.len() as int) == nbytes(t)
        && off(t, z) == off(t, p) + off(t.skip(p), z - p) && off(t, e) == off(t, z) + (e - z) && off(t, e) <= nbytes(t) && off(t, p) < off(t, e) && 0 <= off(t, p) && (z < t.len() ==> e == z + 1 && t[z] == '\n') && (z == t.len() ==> e == z)
        && nbytes(t.subrange(p, z)) == off(t, z) - off(t, p) && nbytes(t.subrange(p, e)) == off(t, e) - off(t, p)
}
proof fn line_is(t: Seq<char>, p: int)
    requires 0 <= p < t.len()
    ensures line_at(t, p)
{
    brk_in(t, p); brk_ch(t, p); let z = brk(t, p); let e = eol(t, p); off_end(t); off_skip(t, p, z - p); off_mono(t, 0, p); off_mono(t, p, z); off_mono(t, z, e); off_mono(t, e, t.len() as int); off_mono(t, p, e); off_zero(t);
    assert(t.subrange(p, t.len() as int) =~= t.skip(p)); sub_bytes(t, p, z); sub_bytes(t, p, e);
    if z < t.len() { off_step(t, z); w_ascii('\n'); }
}
/// with or without its line break, a line begins alike
proof fn begins_alike(t: Seq<char>, p: int)
    requires 0 <= p < t.len()
    ensures ({ let a = t.subrange(p, brk(t, p)); let b = t.subrange(p, eol(t, p)); (prefixed(a, "Dialogue:"@) <==> prefixed(b, "Dialogue:"@)) && (prefixed(a, "Comment:"@) <==> prefixed(b, "Comment:"@)) && (new_section(a) <==> new_section(b)) })
{
    brk_in(t, p); let z = brk(t, p); let a = t.subrange(p, z); let b = t.subrange(p, eol(t, p));
    reveal_strlit("Dialogue:"); reveal_strlit("Comment:"); let d = "Dialogue:"@; let c = "Comment:"@;
    assert(d.len() == 9 && c.len() == 8); assert(d[0] == 'D' && d[1] == 'i' && d[2] == 'a' && d[3] == 'l' && d[4] == 'o' && d[5] == 'g' && d[6] == 'u' && d[7] == 'e' && d[8] == ':');
    assert(c[0] == 'C' && c[1] == 'o' && c[2] == 'm' && c[3] == 'm' && c[4] == 'e' && c[5] == 'n' && c[6] == 't' && c[7] == ':');
    if z < t.len() { assert(b =~= a.push('\n')); } else { assert(b =~= a); }
    prefix_alike(a, b, d); prefix_alike(a, b, c);
    if a.len() == 0 && b.len() > 0 { assert(b[0] == '\n'); } if a.len() > 0 { assert(a[0] == b[0]); }
}
proof fn prefix_alike(a: Seq<char>, b: Seq<char>, d: Seq<char>)
    requires b == a || b == a.push('\n'), forall|i: int| 0 <= i < d.len() ==> d[i] != '\n'
    ensures prefixed(a, d) <==> prefixed(b, d)
{
    if prefixed(a, d) { assert(b.take(d.len() as int) =~= a.take(d.len() as int)); }
    if prefixed(b, d) { if b.len() > a.len() && d.len() == b.len() { assert(b[a.len() as int] == '\n'); assert(b.take(d.len() as int)[a.len() as int] == d[a.len() as int]); } else { assert(b.take(d.len() as int) =~= a.take(d.len() as int)); } }
}
proof fn first_is(t: Seq<char>)
    requires first_line(t) is Some, 0 <= header_from(t, 0, EVENTS_is())->Some_0.0 <= t.len()
    ensures ({ let p = first_line(t)->Some_0; 0 < p <= t.len() && t[p - 1] == '\n' && p <= off(t, p) <= nbytes(t) && t.len() <= nbytes(t) && off(t, t.len() as int) == nbytes(t) })
{ let h = header_from(t, 0, EVENTS_is())->Some_0.0; occurs_in(t.skip(h), "Format:"@, 0); let i = occurs(t.skip(h), "Format:"@, 0)->Some_0; brk_in(t, h + i); off_mono(t, 0, first_line(t)->Some_0); off_mono(t, first_line(t)->Some_0, t.len() as int); off_zero(t); off_end(t); off_mono(t, 0, t.len() as int); }

// ---- deleting -----------------------------------------------------------------------------------------------
//@@ struct crates/ass-editor/commands/event_commands/delete.rs DeleteEventCommand
impl DeleteEventCommand {
//@@ fn crates/ass-editor/commands/event_commands/delete.rs DeleteEventCommand::execute
//@ret r
//@re (?s)section_header\(&content, EVENTS\)\s*\.map\(\|header\| header\.start\)\s*\.ok_or_else\(\|\| EditorError::command_failed\("[^"]*"\)\)\?; => match section_header(content.as_str(), EVENTS()) { Some(header) => header.start, None => { return Err(refused()); } };
//@after "let events_start ="
    let ghost h = header_from(t, 0, EVENTS_is())->Some_0.0; proof { off_mono(t, h, t.len() as int); off_end(t); assert(off(t, h) == events_start && off(t, t.len() as int) == nbytes(t)); } let ghost sub = t.skip(h); proof { assert(t.subrange(h, t.len() as int) =~= sub); }
//@before "let mut current_index"
    proof { p = first_line(t)->Some_0; first_is(t); if p == t.len() { nth_end(t, 0, self.event_index as int); } }
//@re let mut current_index = 0; => let mut current_index: usize = 0;
//@re-all line\.starts_with\("(Dialogue|Comment):"\) => begins(line, "\1:")
//@re line\.starts_with\('\['\) => begins_with(line, '[')
//@re while event_start < content\.len\(\) => while event_start < slen(content.as_str())
//@re-all (?s)Err\(EditorError::command_failed\((?:format!\([^;]*?\)|\s*"[^"]*",?\s*)\)\) => Err(refused())
//@re document\.text\(\)\.to_string\(\) => document.text()
//@re (?s)content\[events_start\.\.\]\s*\.find\("Format:"\)\s*\.and_then\(\|format_pos\| \{\s*content\[events_start \+ format_pos\.\.\]\s*\.find\('\\n'\)\s*\.map\(\|newline_pos\| (events_start [^)]*)\)\s*\}\)\s*\.ok_or_else\(\|\| EditorError::command_failed\("[^"]*"\)\)\?; => { let at = find_str(bslice(content.as_str(), events_start, blen(content.as_str())), "Format:"); proof { start_here(t, h, sub); } match at { None => { return Err(refused()); } Some(format_pos) => { proof { start_there(t, h, sub); let i = occurs(sub, "Format:"@, 0)->Some_0; off_skip(t, h, i); assert(t.subrange(h + i, t.len() as int) =~= sub.skip(i)); } match find_char(bslice(content.as_str(), events_start + format_pos, blen(content.as_str())), '\\n') { None => { return Err(refused()); } Some(newline_pos) => \1 } } } };
//@re (?s)content\[event_start\.\.\]\s*\.find\('\\n'\)\s*\.map\(\|pos\| event_start \+ pos \+ 1\)\s*\.unwrap_or\(content\.len\(\)\); => match find_char(bslice(content.as_str(), event_start, blen(content.as_str())), '\\n') { Some(pos) => event_start + pos + 1, None => blen(content.as_str()) };
//@re let line = &content\[event_start\.\.line_end\]; => proof { begins_alike(t, p); } let line = bslice(content.as_str(), event_start, line_end);
//@before "while event_start <"
    proof { if p < t.len() { line_is(t, p); } }
//@start
    proof { text_fits(document); }
    let ghost t = document.t(); let ghost mut p: int = 0; let ghost mut n: int = 0;
//@loop 0
    invariant_except_break content@ == t, document.t() == t, t == old(document).t(), nbytes(t) < 0x7fff_ffff, t.len() <= nbytes(t), off(t, t.len() as int) == nbytes(t), 0 <= p <= t.len(), current_index <= p, n == current_index, p < t.len() ==> event_start == off(t, p) && off(t, p) < nbytes(t), p == t.len() ==> event_start >= nbytes(t), p > 0 && t[p - 1] == '\n' || p == t.len(), delete_range is None, nth(t, p, n, self.event_index as int) == target(t, self.event_index as int), p == t.len() ==> target(t, self.event_index as int) is None,
    ensures match delete_range { None => target(t, self.event_index as int) is None, Some(g) => target(t, self.event_index as int) is Some && ({ let x = target(t, self.event_index as int)->Some_0; 0 <= x < t.len() && eol(t, x) <= t.len() && x <= eol(t, x) && spans(t, g, x, eol(t, x)) }) }, document.t() == t
    decreases t.len() - p
//@loopstart 0
        let ghost z = brk(t, p); let ghost e = eol(t, p); proof { line_is(t, p); nth_next(t, p, n, self.event_index as int); nth_end(t, n, self.event_index as int); nth_end(t, n + 1, self.event_index as int); }
//@loopend 0
            proof { p = e; n = current_index as int; if p < t.len() { line_is(t, p); } }
//@re document\.delete\(range\)\?; => document.delete(range)?; proof { let x = target(t, self.event_index as int)->Some_0; let (a, b) = choose|a: int, b: int| #[trigger] spans(t, range, a, b) && document.t() == t.take(a) + t.skip(b); spans_one(t, range, a, b, x, eol(t, x)); }
//@spec
    ensures match target(old(document).t(), self.event_index as int) { None => r is Err && final(document).t() == old(document).t(), Some(x) => r is Ok && r->Ok_0.success && r->Ok_0.content_changed && final(document).t() == old(document).t().take(x) + old(document).t().skip(eol(old(document).t(), x)) }
//@@ end
}

// ---- splitting ----------------------------------------------------------------------------------------------
//@@ struct crates/ass-editor/commands/event_commands/split.rs SplitEventCommand
#[verifier::external_body]
fn parse_ass_time(s: &str) -> (r: core::result::Result<u32, EditorError>) ensures match r { Ok(x) => cs_of(s@) == Some(x), Err(_) => cs_of(s@) is None } { unimplemented!() }
/// `format!("{a}\n{b}")`
#[verifier::external_body]
fn two_lines(a: &str, b: &str) -> (r: String) ensures r@ == a@ + "\n"@ + b@ { format!("{a}\n{b}") }
/// the event that ends at the time given, then the one that begins there
pub open spec fn in_two(s: Seq<char>, w: Seq<char>) -> Option<Seq<char>> {
    match event_of(s) { None => None, Some(e) => if cs_of(w) is Some && cs_of(e.f[1]) is Some && cs_of(e.f[2]) is Some && cs_of(e.f[1])->Some_0 < cs_of(w)->Some_0 && cs_of(w)->Some_0 < cs_of(e.f[2])->Some_0
        { Some(ev_line(kind_of(e), e.f.update(2, w)) + "\n"@ + ev_line(kind_of(e), e.f.update(1, w))) } else { None } }
}
pub open spec fn split_to(t: Seq<char>, k: int, w: Seq<char>) -> Option<Seq<char>> {
    match target(t, k) { None => None, Some(x) => match in_two(t.subrange(x, brk(t, x)), w) { None => None, Some(y) => Some(t.take(x) + y + t.skip(brk(t, x))) } }
}
impl SplitEventCommand {
//@@ fn crates/ass-editor/commands/event_commands/split.rs SplitEventCommand::execute
//@ret r
//@re (?s)parse_ass_time\(&self\.split_time\)\.map_err\(\|_\| \{[^}]*\{\}[^}]*\}\)\?; => match parse_ass_time(self.split_time.as_str()) { Ok(v) => v, Err(_) => { return Err(refused()); } };
//@re-all (?s)event\s*\.(start|end)_time_cs\(\)\s*\.map_err\(\|_\| EditorError::command_failed\("[^"]*"\)\)\?; => match event.\1_time_cs() { Ok(v) => v, Err(_) => { return Err(refused()); } };
//@re-all (?s)format!\(\s*"\{\}: (?:\{\},){9}\{\}",(.*?)\s*\); => event_line(\1);
//@re-all self\.split_time, => self.split_time.as_str(),
//@re format!\("\{first_event\}\\n\{second_event\}"\) => two_lines(first_event.as_str(), second_event.as_str())
//@re document\.replace\(range, &replacement\)\?; => proof { off_mono(t, p, z); assert(spans(t, range, p, z)); let x = event_of(s)->Some_0; assert(seq![x.f[0], x.f[1], self.split_time@, x.f[3], x.f[4], x.f[5], x.f[6], x.f[7], x.f[8], x.f[9]] =~= x.f.update(2, self.split_time@)); assert(seq![x.f[0], self.split_time@, x.f[2], x.f[3], x.f[4], x.f[5], x.f[6], x.f[7], x.f[8], x.f[9]] =~= x.f.update(1, self.split_time@)); } document.replace(range, replacement.as_str())?; proof { let (a, b) = choose|a: int, b: int| #[trigger] spans(t, range, a, b) && document.t() == t.take(a) + replacement@ + t.skip(b); spans_one(t, range, a, b, p, z); text_fits(document); encode_utf8_concat(t.take(p) + replacement@, t.skip(z)); encode_utf8_concat(t.take(p), replacement@); start_at(t, p); }
//@re replacement\.len\(\) => slen(replacement.as_str())
//@re (?s)\.with_message\(format!\([^;]*\)\)\); => );
//@re (?s)section_header\(&content, EVENTS\)\s*\.map\(\|header\| header\.start\)\s*\.ok_or_else\(\|\| EditorError::command_failed\("[^"]*"\)\)\?; => match section_header(content.as_str(), EVENTS()) { Some(header) => header.start, None => { return Err(refused()); } };
//@after "let events_start ="
    let ghost h = header_from(t, 0, EVENTS_is())->Some_0.0; proof { off_mono(t, h, t.len() as int); off_end(t); assert(off(t, h) == events_start && off(t, t.len() as int) == nbytes(t)); } let ghost sub = t.skip(h); proof { assert(t.subrange(h, t.len() as int) =~= sub); }
//@before "let mut current_index"
    proof { p = first_line(t)->Some_0; first_is(t); if p == t.len() { nth_end(t, 0, self.event_index as int); } }
//@re let mut current_index = 0; => let mut current_index: usize = 0;
//@re-all line\.starts_with\("(Dialogue|Comment):"\) => begins(line, "\1:")
//@re line\.starts_with\('\['\) => begins_with(line, '[')
//@re while event_start < content\.len\(\) => while event_start < slen(content.as_str())
//@re-all (?s)Err\(EditorError::command_failed\((?:format!\([^;]*?\)|\s*"[^"]*",?\s*)\)\) => Err(refused())
//@re &content\[events_start\.\.\]; => bslice(content.as_str(), events_start, blen(content.as_str()));
//@re (?s)events_content\s*\.find\("Format:"\)\s*\.and_then\(\|format_pos\| \{\s*events_content\[format_pos\.\.\]\s*\.find\('\\n'\)\s*\.map\(\|newline_pos\| (events_start [^)]*)\)\s*\}\)\s*\.ok_or_else\(\|\| EditorError::command_failed\("[^"]*"\)\)\?; => { let at = find_str(events_content, "Format:"); proof { start_here(t, h, sub); } match at { None => { return Err(refused()); } Some(format_pos) => { proof { start_there(t, h, sub); } match find_char(bslice(events_content, format_pos, blen(events_content)), '\\n') { None => { return Err(refused()); } Some(newline_pos) => \1 } } } };
//@re (?s)content\[event_start\.\.\]\s*\.find\('\\n'\)\s*\.map\(\|pos\| event_start \+ pos\)\s*\.unwrap_or\(content\.len\(\)\); => match find_char(bslice(content.as_str(), event_start, blen(content.as_str())), '\\n') { Some(pos) => event_start + pos, None => blen(content.as_str()) };
//@re let line = &content\[event_start\.\.line_end\]; => let line = bslice(content.as_str(), event_start, line_end);
//@before "while event_start <"
    proof { if p < t.len() { line_is(t, p); } }
//@start
    proof { text_fits(document); }
    let ghost t = document.t(); let ghost mut p: int = 0; let ghost mut n: int = 0;
//@loop 0
    invariant_except_break content@ == t, document.t() == t, t == old(document).t(), nbytes(t) < 0x7fff_ffff, t.len() <= nbytes(t), off(t, t.len() as int) == nbytes(t), 0 <= p <= t.len(), current_index <= p, n == current_index, p < t.len() ==> event_start == off(t, p) && off(t, p) < nbytes(t), p == t.len() ==> event_start >= nbytes(t), p > 0 && t[p - 1] == '\n' || p == t.len(), cs_of(self.split_time@) == Some(split_time_cs), nth(t, p, n, self.event_index as int) == target(t, self.event_index as int), p == t.len() ==> target(t, self.event_index as int) is None,
    ensures target(t, self.event_index as int) is None, document.t() == t, t == old(document).t(),
    decreases t.len() - p
//@loopstart 0
        let ghost z = brk(t, p); let ghost e = eol(t, p); let ghost s = t.subrange(p, z); proof { line_is(t, p); nth_next(t, p, n, self.event_index as int); nth_end(t, n, self.event_index as int); nth_end(t, n + 1, self.event_index as int); }
//@loopend 0
            proof { p = e; n = current_index as int; if p < t.len() { line_is(t, p); } }
//@spec
    ensures match split_to(old(document).t(), self.event_index as int, self.split_time@) { None => r is Err && final(document).t() == old(document).t(), Some(y) => r is Ok && r->Ok_0.success && r->Ok_0.content_changed && final(document).t() == y }
//@@ end
}

// ---- merging ------------------------------------------------------------------------------------------------
//@@ struct crates/ass-editor/commands/event_commands/merge.rs MergeEventsCommand
/// `format!("{}{}{}", a, b, c)` and `format!("{a}{b}")`
#[verifier::external_body]
fn three(a: &str, b: &str, c: &str) -> (r: String) ensures r@ == a@ + b@ + c@ { format!("{}{}{}", a, b, c) }
#[verifier::external_body]
fn joined(a: &str, b: &str) -> (r: String) ensures r@ == a@ + b@ { format!("{a}{b}") }
/// the first event, up to the end of the second and with its text behind
pub open spec fn in_one(a: Seq<char>, b: Seq<char>, w: Seq<char>) -> Option<Seq<char>> {
    match event_of(a) { None => None, Some(x) => match event_of(b) { None => None, Some(y) => Some(ev_line(kind_of(x), x.f.update(2, y.f[2]).update(9, x.f[9] + w + y.f[9]))) } }
}
/// what stood between the two stays, behind the merged event
pub open spec fn merge_to(t: Seq<char>, i: int, j: int, w: Seq<char>) -> Option<Seq<char>> {
    match target(t, i) { None => None, Some(x) => match target(t, j) { None => None, Some(y) => if i >= j { None } else {
        match in_one(t.subrange(x, brk(t, x)), t.subrange(y, brk(t, y)), w) { None => None, Some(m) => Some(t.take(x) + (m + t.subrange(brk(t, x), y - 1)) + t.skip(brk(t, y))) }
    } } }
}
/// the entry of the event at x
pub open spec fn noted(t: Seq<char>, e: (usize, usize, usize, String), x: int) -> bool { 0 <= x < t.len() && e.1 == off(t, x) && e.2 == off(t, brk(t, x)) && e.3@ == t.subrange(x, brk(t, x)) && x <= brk(t, x) <= t.len() }
pub type Entry = (usize, usize, usize, String);
/// what was gathered above event n: those of the two events that stand there
#[verifier::opaque]
pub open spec fn gathered(t: Seq<char>, p: int, n: int, i1: int, i2: int, ev: Seq<Entry>) -> bool {
    let g1 = target(t, i1); let g2 = target(t, i2);
    &&& n <= i1 ==> ev.len() == 0 && nth(t, p, n, i1) == g1 && nth(t, p, n, i2) == g2
    &&& i1 < n <= i2 ==> ev.len() == 1 && g1 is Some && noted(t, ev[0], g1->Some_0) && eol(t, g1->Some_0) <= p && nth(t, p, n, i2) == g2
    &&& n > i2 ==> ev.len() == 2 && both(t, i1, i2, ev)
}
pub open spec fn both(t: Seq<char>, i1: int, i2: int, ev: Seq<Entry>) -> bool {
    let g1 = target(t, i1); let g2 = target(t, i2);
    g1 is Some && g2 is Some && noted(t, ev[0], g1->Some_0) && noted(t, ev[1], g2->Some_0) && eol(t, g1->Some_0) <= g2->Some_0 && g2->Some_0 > 0 && t[g2->Some_0 - 1] == '\n'
}
proof fn gathered_from(t: Seq<char>, i1: int, i2: int, ev: Seq<Entry>) requires first_line(t) is Some, ev.len() == 0, 0 <= i1 < i2 ensures gathered(t, first_line(t)->Some_0, 0, i1, i2, ev) { reveal(gathered); }
proof fn gathered_next(t: Seq<char>, p: int, n: int, i1: int, i2: int, ev: Seq<Entry>, ev2: Seq<Entry>)
    requires gathered(t, p, n, i1, i2, ev), 0 < p < t.len(), t[p - 1] == '\n', 0 <= i1 < i2,
        ({ let s = t.subrange(p, brk(t, p)); if is_event(s) && (n == i1 || n == i2) { ev2.len() == ev.len() + 1 && ev2.drop_last() == ev && noted(t, ev2.last(), p) } else { ev2 == ev && (is_event(s) || !new_section(s)) } })
    ensures gathered(t, eol(t, p), if is_event(t.subrange(p, brk(t, p))) { n + 1 } else { n }, i1, i2, ev2)
{
    reveal(gathered); nth_next(t, p, n, i1); nth_next(t, p, n, i2); brk_in(t, p);
    if ev2.len() == ev.len() + 1 { if ev.len() == 1 { assert(ev2[0] == ev2.drop_last()[0]); } }
}
proof fn gathered_end(t: Seq<char>, p: int, n: int, i1: int, i2: int, ev: Seq<Entry>)
    requires gathered(t, p, n, i1, i2, ev), 0 <= i1 < i2, 0 <= p <= t.len(), p == t.len() || ({ let s = t.subrange(p, brk(t, p)); new_section(s) && !is_event(s) })
    ensures ev.len() == 2 <==> target(t, i1) is Some && target(t, i2) is Some, ev.len() == 2 ==> both(t, i1, i2, ev)
{ reveal(gathered); if p == t.len() { nth_end(t, n, i1); nth_end(t, n, i2); } else { nth_next(t, p, n, i1); nth_next(t, p, n, i2); } }
/// the places in bytes
proof fn both_places(t: Seq<char>, i1: int, i2: int, ev: Seq<Entry>)
    requires both(t, i1, i2, ev)
    ensures ({ let x = target(t, i1)->Some_0; let y = target(t, i2)->Some_0; 0 <= x <= brk(t, x) <= y - 1 && y <= brk(t, y) <= t.len() && off(t, y - 1) == off(t, y) - 1 && off(t, brk(t, x)) <= off(t, y - 1) && off(t, x) <= off(t, brk(t, y)) <= nbytes(t) && off(t, y) >= 1 && nbytes(t.subrange(x, brk(t, x))) <= nbytes(t) && nbytes(t.subrange(y, brk(t, y))) <= nbytes(t) && 0 <= off(t, x) && off(t, y - 1) <= nbytes(t) })
{ let x = target(t, i1)->Some_0; let y = target(t, i2)->Some_0; line_is(t, x); line_is(t, y); off_mono(t, eol(t, x), y); off_step(t, y - 1); w_ascii('\n'); off_mono(t, brk(t, x), y - 1); off_mono(t, x, brk(t, y)); off_mono(t, y - 1, t.len() as int); off_mono(t, 0, y - 1); off_zero(t); }
impl MergeEventsCommand {
#[verifier::rlimit(40)] #[verifier::spinoff_prover]
//@@ fn crates/ass-editor/commands/event_commands/merge.rs MergeEventsCommand::execute
//@ret r
//@re let mut events = Vec::new\(\); => let mut events: Vec<(usize, usize, usize, String)> = Vec::new();
//@re let first_event_line = &events\[0\]\.3; => let first_event_line = events[0].3.as_str();
//@re let second_event_line = &events\[1\]\.3; => let second_event_line = events[1].3.as_str();
//@re line\.to_string\(\) => owned(line)
//@re (?s)format!\(\s*"\{\}\{\}\{\}",\s*first_event\.text, self\.merge_text_separator, second_event\.text\s*\) => three(first_event.text, self.merge_text_separator.as_str(), second_event.text)
//@re (?s)format!\(\s*"\{\}: (?:\{\},){9}\{\}",(.*?)\s*\); => event_line(\1.as_str());
//@re format!\("\{merged_event\}\{between\}"\) => joined(merged_event.as_str(), between)
//@re let \(_, first_start, first_end, _\) = events\[0\]; => let first_start = events[0].1; let first_end = events[0].2;
//@re let \(_, second_start, second_end, _\) = events\[1\]; => let second_start = events[1].1; let second_end = events[1].2;
//@re &content\[first_end\.\.second_start - 1\] => bslice(content.as_str(), first_end, second_start - 1)
//@re document\.replace\(range, &replacement\)\?; => proof { let x = event_of(t.subrange(gx, brk(t, gx)))->Some_0; let y = event_of(t.subrange(gy, brk(t, gy)))->Some_0; assert(spans(t, range, gx, brk(t, gy))); assert(seq![x.f[0], x.f[1], y.f[2], x.f[3], x.f[4], x.f[5], x.f[6], x.f[7], x.f[8], merged_text@] =~= x.f.update(2, y.f[2]).update(9, merged_text@)); } document.replace(range, replacement.as_str())?; proof { let (a, b) = choose|a: int, b: int| #[trigger] spans(t, range, a, b) && document.t() == t.take(a) + replacement@ + t.skip(b); spans_one(t, range, a, b, gx, brk(t, gy)); text_fits(document); encode_utf8_concat(t.take(gx) + replacement@, t.skip(brk(t, gy))); encode_utf8_concat(t.take(gx), replacement@); start_at(t, gx); }
//@re replacement\.len\(\) => slen(replacement.as_str())
//@re (?s)\.with_message\(format!\([^;]*\)\)\) => )
//@re (?s)section_header\(&content, EVENTS\)\s*\.map\(\|header\| header\.start\)\s*\.ok_or_else\(\|\| EditorError::command_failed\("[^"]*"\)\)\?; => match section_header(content.as_str(), EVENTS()) { Some(header) => header.start, None => { return Err(refused()); } };
//@after "let events_start ="
    let ghost h = header_from(t, 0, EVENTS_is())->Some_0.0; proof { off_mono(t, h, t.len() as int); off_end(t); assert(off(t, h) == events_start && off(t, t.len() as int) == nbytes(t)); } let ghost sub = t.skip(h); proof { assert(t.subrange(h, t.len() as int) =~= sub); }
//@before "let mut current_index"
    proof { p = first_line(t)->Some_0; first_is(t); if p == t.len() { nth_end(t, 0, self.first_event_index as int); nth_end(t, 0, self.second_event_index as int); } }
//@re let mut current_index = 0; => let mut current_index: usize = 0;
//@re-all line\.starts_with\("(Dialogue|Comment):"\) => begins(line, "\1:")
//@re line\.starts_with\('\['\) => begins_with(line, '[')
//@re while event_start < content\.len\(\) => while event_start < slen(content.as_str())
//@re-all (?s)Err\(EditorError::command_failed\((?:format!\([^;]*?\)|\s*"[^"]*",?\s*)\)\) => Err(refused())
//@re &content\[events_start\.\.\]; => bslice(content.as_str(), events_start, blen(content.as_str()));
//@re (?s)events_content\s*\.find\("Format:"\)\s*\.and_then\(\|format_pos\| \{\s*events_content\[format_pos\.\.\]\s*\.find\('\\n'\)\s*\.map\(\|newline_pos\| (events_start [^)]*)\)\s*\}\)\s*\.ok_or_else\(\|\| EditorError::command_failed\("[^"]*"\)\)\?; => { let at = find_str(events_content, "Format:"); proof { start_here(t, h, sub); } match at { None => { return Err(refused()); } Some(format_pos) => { proof { start_there(t, h, sub); } match find_char(bslice(events_content, format_pos, blen(events_content)), '\\n') { None => { return Err(refused()); } Some(newline_pos) => \1 } } } };
//@re (?s)content\[event_start\.\.\]\s*\.find\('\\n'\)\s*\.map\(\|pos\| event_start \+ pos\)\s*\.unwrap_or\(content\.len\(\)\); => match find_char(bslice(content.as_str(), event_start, blen(content.as_str())), '\\n') { Some(pos) => event_start + pos, None => blen(content.as_str()) };
//@re let line = &content\[event_start\.\.line_end\]; => let line = bslice(content.as_str(), event_start, line_end);
//@before "while event_start <"
    proof { if p < t.len() { line_is(t, p); } gathered_from(t, i1, i2, events@); }
//@start
    proof { text_fits(document); }
    let ghost t = document.t(); let ghost mut p: int = 0; let ghost mut n: int = 0;
    let ghost i1 = self.first_event_index as int; let ghost i2 = self.second_event_index as int;
//@loop 0
    invariant i1 == self.first_event_index, i2 == self.second_event_index, 0 <= i1 < i2,
        content@ == t, document.t() == t, t == old(document).t(), nbytes(t) < 0x7fff_ffff, t.len() <= nbytes(t), off(t, t.len() as int) == nbytes(t), 0 <= p <= t.len(), current_index <= p, n == current_index, p < t.len() ==> event_start == off(t, p) && off(t, p) < nbytes(t), p == t.len() ==> event_start >= nbytes(t), p > 0 && t[p - 1] == '\n' || p == t.len(),
        gathered(t, p, n, i1, i2, events@),
    ensures p == t.len() || new_section(t.subrange(p, brk(t, p))) && !is_event(t.subrange(p, brk(t, p)))
    decreases t.len() - p
//@loopstart 0
        let ghost z = brk(t, p); let ghost e = eol(t, p); let ghost s = t.subrange(p, z); let ghost ev = events@; proof { line_is(t, p); }
//@loopend 0
            proof { if events@.len() > ev.len() { assert(events@.drop_last() =~= ev); } gathered_next(t, p, n, i1, i2, ev, events@); p = e; n = current_index as int; if p < t.len() { line_is(t, p); } }
//@before "if events.len() != 2"
    proof { gathered_end(t, p, n, i1, i2, events@); }
//@before "let first_event_line"
    let ghost gx = target(t, i1)->Some_0; let ghost gy = target(t, i2)->Some_0;
    proof { both_places(t, i1, i2, events@); }
//@spec
    ensures match merge_to(old(document).t(), self.first_event_index as int, self.second_event_index as int, self.merge_text_separator@) { None => r is Err && final(document).t() == old(document).t(), Some(y) => r is Ok && r->Ok_0.success && r->Ok_0.content_changed && final(document).t() == y }
//@@ end
}
fn main() {}
}
