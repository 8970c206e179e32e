use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
verus! {
//@@ include str.inc
//@@ include doc.inc
//@@ include lines.inc
//@@ include sections.inc
//@@ include fields.inc
//@@ include walk.inc
//@@ include event.inc
/// contract discharged in unit e_event
#[verifier::external_body]
fn parse_event_line<'a>(line: &'a str) -> (r: core::result::Result<Event<'a>, EditorError>)
    requires nbytes(line@) < 0x7fff_ffff
    ensures match r { Ok(e) => event_of(line@) is Some && is_ev(e, event_of(line@)->Some_0), Err(_) => event_of(line@) is None }
{ unimplemented!() }

// ---- shifting times -----------------------------------------------------------------------------------------
//@@ struct crates/ass-editor/commands/event_commands/timing.rs TimingAdjustCommand
/// times as text: contracts discharged in unit c_time
pub uninterp spec fn cs_of(s: Seq<char>) -> Option<u32>;
pub uninterp spec fn time_text(x: u32) -> Seq<char>;
impl<'a> Event<'a> {
    #[verifier::external_body]
    pub fn start_time_cs(&self) -> (r: core::result::Result<u32, EditorError>) ensures match r { Ok(x) => cs_of(self.start@) == Some(x), Err(_) => cs_of(self.start@) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn end_time_cs(&self) -> (r: core::result::Result<u32, EditorError>) ensures match r { Ok(x) => cs_of(self.end@) == Some(x), Err(_) => cs_of(self.end@) is None } { unimplemented!() }
}
#[verifier::external_body]
fn format_ass_time(x: u32) -> (r: String) ensures r@ == time_text(x) { unimplemented!() }
fn later(a: u32, b: u32) -> (r: u32) ensures r == if a < b { b } else { a } { if a < b { b } else { a } }
pub open spec fn sum_of(a: int, b: int) -> int { if a + b < 0 { 0 } else if a + b > u32::MAX { u32::MAX as int } else { a + b } }
#[verifier::external_body]
fn add_signed(a: u32, b: i32) -> (r: u32) ensures r == sum_of(a as int, b as int) { a.saturating_add_signed(b) }
//@@ fn crates/ass-editor/commands/event_commands/timing.rs shift_time
//@ret r
//@re time_cs\.saturating_add_signed\(offset_cs\) => add_signed(time_cs, offset_cs)
//@spec
    ensures r == sum_of(time_cs as int, offset_cs as int)
//@@ end
/// shifted by the amounts given, kept in range, and never left empty
pub open spec fn shifted(a: int, b: int, s: Seq<char>) -> Option<Seq<char>> {
    match event_of(s) { None => None, Some(e) => if cs_of(e.f[1]) is None || cs_of(e.f[2]) is None { None } else {
        let x = sum_of(cs_of(e.f[1])->Some_0 as int, a); let y = sum_of(cs_of(e.f[2])->Some_0 as int, b); let z = sum_of(x, 1);
        Some(ev_line(kind_of(e), e.f.update(1, time_text(x as u32)).update(2, time_text((if y < z { z } else { y }) as u32))))
    } }
}

impl TimingAdjustCommand {
//@@ fn crates/ass-editor/commands/event_commands/timing.rs TimingAdjustCommand::execute
//@ret r
//@re (?s)section_header\(&content, EVENTS\)\s*\.map\(\|header\| header\.start\)\s*\.ok_or_else\(\|\| EditorError::command_failed\("[^"]*"\)\)\?; => match section_header(content.as_str(), EVENTS()) { Some(header) => header.start, None => { return Err(refused()); } };
//@re &content\[events_start\.\.\]; => bslice(content.as_str(), events_start, blen(content.as_str()));
//@re (?s)events_content\s*\.find\("Format:"\)\s*\.and_then\(\|format_pos\| \{\s*events_content\[format_pos\.\.\]\s*\.find\('\\n'\)\s*\.map\(\|newline_pos\| (events_start [^)]*)\)\s*\}\)\s*\.ok_or_else\(\|\| EditorError::command_failed\("[^"]*"\)\)\?; => { let at = find_str(events_content, "Format:"); proof { start_here(t, h, events_content@); } match at { None => { return Err(refused()); } Some(format_pos) => { proof { start_there(t, h, events_content@); } match find_char(bslice(events_content, format_pos, blen(events_content)), '\\n') { None => { return Err(refused()); } Some(newline_pos) => \1 } } } };
//@re let mut changes_made = 0; => let mut changes_made: usize = 0;
//@re let mut current_index = 0; => let mut current_index: usize = 0;
//@re while event_start < content\.len\(\) => proof { if p == t.len() { walk_end(t, p, n, v, f); } } while event_start < slen(content.as_str())
//@re (?s)content\[event_start\.\.\]\s*\.find\('\\n'\)\s*\.map\(\|pos\| event_start \+ pos\)\s*\.unwrap_or\(content\.len\(\)\); => match find_char(bslice(content.as_str(), event_start, blen(content.as_str())), '\\n') { Some(pos) => event_start + pos, None => blen(content.as_str()) };
//@re let line = &content\[event_start\.\.line_end\]; => proof { assert(off(content@, q) == event_start && off(content@, q + (z - p)) == line_end); } let line = owned(bslice(content.as_str(), event_start, line_end)); let line = line.as_str();
//@re-all line\.starts_with\("(Dialogue|Comment):"\) => begins(line, "\1:")
//@re line\.starts_with\('\['\) => begins_with(line, '[')
//@re self\.event_indices\.is_empty\(\) => self.event_indices.len() == 0
//@re self\.event_indices\.contains\(&current_index\) => listed_index(&self.event_indices, current_index)
//@re document\.replace\(range, &new_line\)\?; => proof { assert(spans(d, range, q, q + (z - p))); y = new_line@; line_put(t, done, p, y); } document.replace(range, new_line.as_str())?; proof { let (a, b) = choose|a: int, b: int| #[trigger] spans(d, range, a, b) && document.t() == d.take(a) + new_line@ + d.skip(b); spans_one(d, range, a, b, q, q + (z - p)); text_fits(document); }
//@re-all new_line\.len\(\) => slen(new_line.as_str())
//@re-all Position::new\(content\.len\(\)\) => Position::new(slen(content.as_str()))
//@re (?s)\.with_message\(format!\([^;]*\)\)\)(\s*\} else) => )\1
//@re (?s)\.with_message\("[^"]*"\.to_string\(\)\)\) => )
//@re (?s)format!\(\s*"\{\}: (?:\{\},){9}\{\}",(.*?)\s*\);(\s*let range) => event_line(\1);\2
//@re new_end_cs\.max\(new_start_cs\.saturating_add\(1\)\) => later(new_end_cs, new_start_cs.saturating_add(1))
//@re-all new_(start|end)_time, => new_\1_time.as_str(),
//@re let range =\s*Range => let range = Range
//@after "let range ="
                            proof { let x = event_of(s)->Some_0; assert(seq![x.f[0], new_start_time@, new_end_time@, x.f[3], x.f[4], x.f[5], x.f[6], x.f[7], x.f[8], x.f[9]] =~= x.f.update(1, new_start_time@).update(2, new_end_time@)); }
//@start
    proof { text_fits(document); }
    let ghost t = document.t(); let ghost v = self.event_indices@; let ghost f: Change = (|s: Seq<char>| shifted(self.start_offset_cs as int, self.end_offset_cs as int, s)); let ghost goal = walked(t, v, f); let ghost mut done: Seq<char> = t; let ghost mut p: int = 0; let ghost mut n: int = 0;
//@before "let events_content ="
    let ghost h = header_from(t, 0, EVENTS_is())->Some_0.0; let ghost total = tally(t, first_line(t)->Some_0, 0, v, f);
    proof { off_mono(t, h, t.len() as int); off_end(t); assert(off(t, h) == events_start && off(t, t.len() as int) == nbytes(t)); }
//@before "let mut changes_made"
    proof { p = first_line(t)->Some_0; start_at(t, p); done = t.take(p); off_mono(t, p, t.len() as int); off_mono(t, 0, p); if p < t.len() { more(t, done, p); } else { walk_end(t, p, n, v, f); } off_mono(t, 0, t.len() as int); off_zero(t); }
//@loop 0
    invariant_except_break
        done + walk(t, p, n, v, f) == goal, changes_made + tally(t, p, n, v, f) == total,
        p == t.len() ==> walk(t, p, n, v, f) == t.skip(p) && tally(t, p, n, v, f) == 0, p < t.len() ==> event_start < nbytes(content@),
        nbytes(content@) < 0x7fff_ffff, content@ == document.t(), content@ == done + t.skip(p), 0 <= p <= t.len(), event_start == nbytes(done) || (p == t.len() && event_start == nbytes(done) + 1),
        v == self.event_indices@, f == (|s: Seq<char>| shifted(self.start_offset_cs as int, self.end_offset_cs as int, s)), n == current_index, current_index <= p, changes_made <= current_index, p <= t.len(), t.len() <= nbytes(t), nbytes(t) < 0x7fff_ffff, goal == walked(t, v, f), first_line(t) is Some, total == tally(t, first_line(t)->Some_0, 0, v, f),
    ensures content@ == document.t(), document.t() == goal, changes_made == total, nbytes(content@) < 0x7fff_ffff
    decreases t.len() - p
//@loopstart 0
        let ghost q = done.len() as int; let ghost z = brk(t, p); let ghost e = eol(t, p); let ghost d = document.t(); let ghost s = t.subrange(p, z); let ghost mut y = s;
        proof { line_here(t, done, p); line_put(t, done, p, s);  }
//@re break; => proof { walk_end(t, p, n, v, f); } break;
//@loopend 0
            proof { walk_next(t, done, p, n, v, f, y); done = put(t, done, p, y); p = e; n = current_index as int; if p == t.len() { walk_end(t, p, n, v, f); assert(t.skip(p) =~= Seq::<char>::empty()); assert(done + t.skip(p) =~= done); } else { more(t, done, p); } }
//@spec
    ensures final(document).t() == walked(old(document).t(), self.event_indices@, (|s: Seq<char>| shifted(self.start_offset_cs as int, self.end_offset_cs as int, s))), told(old(document).t(), r, self.event_indices@, (|s: Seq<char>| shifted(self.start_offset_cs as int, self.end_offset_cs as int, s)))
//@@ end
}
fn main() {}
}
