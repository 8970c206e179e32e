use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
verus! {
//@@ include str.inc
//@@ include doc.inc
//@@ include lines.inc
//@@ include sections.inc
//@@ include fields.inc
//@@ include walk.inc
//@@ include event.inc
/// contract discharged in unit e_event
#[verifier::external_body]
fn parse_event_line<'a>(line: &'a str) -> (r: core::result::Result<Event<'a>, EditorError>)
    requires nbytes(line@) < 0x7fff_ffff
    ensures match r { Ok(e) => event_of(line@) is Some && is_ev(e, event_of(line@)->Some_0), Err(_) => event_of(line@) is None }
{ unimplemented!() }
// ---- changing the effect ------------------------------------------------------------------------------------
//@@ struct crates/ass-editor/commands/event_commands/effect.rs EffectOperation
//@@ struct crates/ass-editor/commands/event_commands/effect.rs EventEffectCommand
/// `format!("{} {}", a, b)`
#[verifier::external_body]
fn spaced(a: &str, b: &str) -> (r: String) ensures r@ == a@ + " "@ + b@ { format!("{} {}", a, b) }
pub open spec fn new_effect_of(op: EffectOperation, x: Seq<char>, was: Seq<char>) -> Seq<char> {
    match op {
        EffectOperation::Set => x,
        EffectOperation::Clear => Seq::empty(),
        EffectOperation::Append => if was.len() == 0 { x } else { was + " "@ + x },
        EffectOperation::Prepend => if was.len() == 0 { x } else { x + " "@ + was },
    }
}
pub open spec fn effected(op: EffectOperation, x: Seq<char>, s: Seq<char>) -> Option<Seq<char>> { match event_of(s) { None => None, Some(e) => Some(ev_line(kind_of(e), e.f.update(8, new_effect_of(op, x, e.f[8])))) } }

impl EventEffectCommand {
//@@ fn crates/ass-editor/commands/event_commands/effect_exec.rs EventEffectCommand::execute
//@ret r
//@re (?s)section_header\(&content, EVENTS\)\s*\.map\(\|header\| header\.start\)\s*\.ok_or_else\(\|\| EditorError::command_failed\("[^"]*"\)\)\?; => match section_header(content.as_str(), EVENTS()) { Some(header) => header.start, None => { return Err(refused()); } };
//@re &content\[events_start\.\.\]; => bslice(content.as_str(), events_start, blen(content.as_str()));
//@re (?s)events_content\s*\.find\("Format:"\)\s*\.and_then\(\|format_pos\| \{\s*events_content\[format_pos\.\.\]\s*\.find\('\\n'\)\s*\.map\(\|newline_pos\| (events_start [^)]*)\)\s*\}\)\s*\.ok_or_else\(\|\| EditorError::command_failed\("[^"]*"\)\)\?; => { let at = find_str(events_content, "Format:"); proof { start_here(t, h, events_content@); } match at { None => { return Err(refused()); } Some(format_pos) => { proof { start_there(t, h, events_content@); } match find_char(bslice(events_content, format_pos, blen(events_content)), '\\n') { None => { return Err(refused()); } Some(newline_pos) => \1 } } } };
//@re let mut changes_made = 0; => let mut changes_made: usize = 0;
//@re let mut current_index = 0; => let mut current_index: usize = 0;
//@re while event_start < content\.len\(\) => proof { if p == t.len() { walk_end(t, p, n, v, f); } } while event_start < slen(content.as_str())
//@re (?s)content\[event_start\.\.\]\s*\.find\('\\n'\)\s*\.map\(\|pos\| event_start \+ pos\)\s*\.unwrap_or\(content\.len\(\)\); => match find_char(bslice(content.as_str(), event_start, blen(content.as_str())), '\\n') { Some(pos) => event_start + pos, None => blen(content.as_str()) };
//@re let line = &content\[event_start\.\.line_end\]; => proof { assert(off(content@, q) == event_start && off(content@, q + (z - p)) == line_end); } let line = owned(bslice(content.as_str(), event_start, line_end)); let line = line.as_str();
//@re-all line\.starts_with\("(Dialogue|Comment):"\) => begins(line, "\1:")
//@re line\.starts_with\('\['\) => begins_with(line, '[')
//@re self\.event_indices\.is_empty\(\) => self.event_indices.len() == 0
//@re self\.event_indices\.contains\(&current_index\) => listed_index(&self.event_indices, current_index)
//@re document\.replace\(range, &new_line\)\?; => proof { assert(spans(d, range, q, q + (z - p))); y = new_line@; line_put(t, done, p, y); } document.replace(range, new_line.as_str())?; proof { let (a, b) = choose|a: int, b: int| #[trigger] spans(d, range, a, b) && document.t() == d.take(a) + new_line@ + d.skip(b); spans_one(d, range, a, b, q, q + (z - p)); text_fits(document); }
//@re-all new_line\.len\(\) => slen(new_line.as_str())
//@re-all Position::new\(content\.len\(\)\) => Position::new(slen(content.as_str()))
//@re (?s)\.with_message\(format!\([^;]*\)\)\)(\s*\} else) => )\1
//@re (?s)\.with_message\("[^"]*"\.to_string\(\)\)\) => )
//@re (?s)format!\(\s*"\{\}: (?:\{\},){9}\{\}",(.*?)\s*\);(\s*let range) => event_line(\1);\2
//@re String::new\(\) => snew()
//@re-all event\.effect\.is_empty\(\) => nothing(event.effect)
//@re format!\("\{\} \{\}", event\.effect, self\.effect\) => spaced(event.effect, self.effect.as_str())
//@re format!\("\{\} \{\}", self\.effect, event\.effect\) => spaced(self.effect.as_str(), event.effect)
//@re new_effect, => new_effect.as_str(),
//@re (?s)let operation_name = match .*?\n            \}; => 
//@after "let range ="
                        proof { let x = event_of(s)->Some_0; assert(seq![x.f[0], x.f[1], x.f[2], x.f[3], x.f[4], x.f[5], x.f[6], x.f[7], new_effect@, x.f[9]] =~= x.f.update(8, new_effect@)); }
//@start
    proof { text_fits(document); }
    let ghost t = document.t(); let ghost v = self.event_indices@; let ghost f: Change = (|s: Seq<char>| effected(self.operation, self.effect@, s)); let ghost goal = walked(t, v, f); let ghost mut done: Seq<char> = t; let ghost mut p: int = 0; let ghost mut n: int = 0;
//@before "let events_content ="
    let ghost h = header_from(t, 0, EVENTS_is())->Some_0.0; let ghost total = tally(t, first_line(t)->Some_0, 0, v, f);
    proof { off_mono(t, h, t.len() as int); off_end(t); assert(off(t, h) == events_start && off(t, t.len() as int) == nbytes(t)); }
//@before "let mut changes_made"
    proof { p = first_line(t)->Some_0; start_at(t, p); done = t.take(p); off_mono(t, p, t.len() as int); off_mono(t, 0, p); if p < t.len() { more(t, done, p); } else { walk_end(t, p, n, v, f); } off_mono(t, 0, t.len() as int); off_zero(t); }
//@loop 0
    invariant_except_break
        done + walk(t, p, n, v, f) == goal, changes_made + tally(t, p, n, v, f) == total,
        p == t.len() ==> walk(t, p, n, v, f) == t.skip(p) && tally(t, p, n, v, f) == 0, p < t.len() ==> event_start < nbytes(content@),
        nbytes(content@) < 0x7fff_ffff, content@ == document.t(), content@ == done + t.skip(p), 0 <= p <= t.len(), event_start == nbytes(done) || (p == t.len() && event_start == nbytes(done) + 1),
        v == self.event_indices@, f == (|s: Seq<char>| effected(self.operation, self.effect@, s)), n == current_index, current_index <= p, changes_made <= current_index, p <= t.len(), t.len() <= nbytes(t), nbytes(t) < 0x7fff_ffff, goal == walked(t, v, f), first_line(t) is Some, total == tally(t, first_line(t)->Some_0, 0, v, f),
    ensures content@ == document.t(), document.t() == goal, changes_made == total, nbytes(content@) < 0x7fff_ffff
    decreases t.len() - p
//@loopstart 0
        let ghost q = done.len() as int; let ghost z = brk(t, p); let ghost e = eol(t, p); let ghost d = document.t(); let ghost s = t.subrange(p, z); let ghost mut y = s;
        proof { line_here(t, done, p); line_put(t, done, p, s);  }
//@re break; => proof { walk_end(t, p, n, v, f); } break;
//@loopend 0
            proof { walk_next(t, done, p, n, v, f, y); done = put(t, done, p, y); p = e; n = current_index as int; if p == t.len() { walk_end(t, p, n, v, f); assert(t.skip(p) =~= Seq::<char>::empty()); assert(done + t.skip(p) =~= done); } else { more(t, done, p); } }
//@spec
    ensures final(document).t() == walked(old(document).t(), self.event_indices@, (|s: Seq<char>| effected(self.operation, self.effect@, s))), told(old(document).t(), r, self.event_indices@, (|s: Seq<char>| effected(self.operation, self.effect@, s)))
//@@ end
}
fn main() {}
}
