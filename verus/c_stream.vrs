use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
verus! {
//@@ include str.inc
pub struct CoreError { pub kind: u8 }
pub struct ParseDelta { pub k: u8 }
pub struct DeltaBatch { pub deltas: Vec<ParseDelta> }
pub type Batch = core::result::Result<DeltaBatch, CoreError>;
impl DeltaBatch {
//@@ fn crates/ass-core/parser/streaming/delta/batch.rs DeltaBatch::new
//@spec
    requires true
    ensures r.deltas@.len() == 0
//@ret r
//@@ end
//@@ fn crates/ass-core/parser/streaming/delta/batch.rs DeltaBatch::into_deltas
//@sig-re Vec<ParseDelta<'a>> => Vec<ParseDelta>
//@spec
    requires true
    ensures r == self.deltas
//@ret r
//@@ end
}
// ---- assumed contracts of the standard library ----------------------------------------------------------------
pub uninterp spec fn core(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
fn trimmed<'a>(s: &'a str) -> (r: &'a str) ensures r@ == core(s@) { s.trim() }
#[verifier::external_body]
fn nothing(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
pub open spec fn first_is(s: Seq<char>, c: char) -> bool { s.len() > 0 && s[0] == c }
pub open spec fn last_is(s: Seq<char>, c: char) -> bool { s.len() > 0 && s.last() == c }
pub open spec fn prefixed(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.take(p.len() as int) == p }
#[verifier::external_body]
fn begins_char(s: &str, c: char) -> (r: bool) ensures r == first_is(s@, c) { s.starts_with(c) }
#[verifier::external_body]
fn ends_char(s: &str, c: char) -> (r: bool) ensures r == last_is(s@, c) { s.ends_with(c) }
#[verifier::external_body]
fn begins(s: &str, p: &str) -> (r: bool) ensures r == prefixed(s@, p@) { s.starts_with(p) }
#[verifier::external_body]
fn contains_char(s: &str, c: char) -> (r: bool) ensures r == s@.contains(c) { s.contains(c) }
/// `strip_prefix`
#[verifier::external_body]
fn less<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>) ensures match r { Some(x) => prefixed(s@, p@) && x@ == s@.skip(p@.len() as int), None => !prefixed(s@, p@) } { s.strip_prefix(p) }
#[verifier::external_body]
fn find_char(s: &str, x: char) -> (r: Option<usize>) ensures match r { None => !s@.contains(x), Some(p) => exists|i: int| 0 <= i < s@.len() && s@[i] == x && #[trigger] off(s@, i) == p } { s.find(x) }
#[verifier::external_body]
fn owned(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body]
fn same(s: &str, t: &str) -> (r: bool) ensures r == (s@ == t@) { s == t }
#[verifier::external_body]
fn snew() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body]
fn copied(v: &Vec<u8>) -> (r: Vec<u8>) ensures r@ == v@ { v.clone() }
#[verifier::external_body]
fn more(v: &mut Vec<u8>, c: &[u8]) ensures final(v)@ == old(v)@ + c@ { v.extend_from_slice(c) }
#[verifier::external_body]
fn cut_off(v: &mut Vec<u8>, n: usize) -> (r: Vec<u8>) requires n <= old(v)@.len() ensures final(v)@ == old(v)@.take(n as int), r@ == old(v)@.skip(n as int) { v.split_off(n) }
// ---- text in pieces ---------------------------------------------------------------------------------------------
/// the beginning of some text
pub open spec fn begun(b: Seq<u8>) -> bool { exists|y: Seq<u8>| valid_utf8(#[trigger] (b + y)) }
/// `core::str::from_utf8`: all of it text; or text up to a place, with the beginning of a character after it; or no beginning of a text
pub struct Utf8Error { pub valid_up_to: usize, pub cut: bool }
impl Utf8Error {
    #[verifier::external_body]
    fn error_len(&self) -> (r: Option<usize>) ensures (r is None) == self.cut { unimplemented!() }
    fn valid_up_to(&self) -> (r: usize) ensures r == self.valid_up_to { self.valid_up_to }
}
#[verifier::external_body]
fn from_utf8<'a>(b: &'a Vec<u8>) -> (r: core::result::Result<&'a str, Utf8Error>)
    ensures match r { Ok(s) => valid_utf8(b@) && encode_utf8(s@) == b@,
        Err(e) => !valid_utf8(b@) && e.valid_up_to <= b@.len() && (e.cut ==> valid_utf8(b@.take(e.valid_up_to as int)) && begun(b@)) && (!e.cut ==> !begun(b@)) }
{ unimplemented!() }
#[verifier::external_body]
fn as_text<'a>(b: &'a Vec<u8>) -> (r: core::result::Result<&'a str, CoreError>)
    ensures match r { Ok(s) => valid_utf8(b@) && encode_utf8(s@) == b@, Err(_) => !valid_utf8(b@) }
{ unimplemented!() }
#[verifier::external_body]
fn refused() -> CoreError { unimplemented!() }
/// what follows text is text exactly if both together are
proof fn behind(a: Seq<u8>, b: Seq<u8>) requires valid_utf8(a) ensures valid_utf8(a + b) == valid_utf8(b) decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); }
    else {
        let n = length_of_first_scalar(a);
        assert((a + b)[0] == a[0]);
        assert(0 < n <= a.len());
        assert(forall|i: int| 0 <= i < n ==> (a + b)[i] == a[i]);
        assert(pop_first_scalar(a + b) =~= pop_first_scalar(a) + b);
        behind(pop_first_scalar(a), b);
    }
}
proof fn begun_behind(a: Seq<u8>, b: Seq<u8>) requires valid_utf8(a) ensures begun(a + b) == begun(b)
{
    if begun(a + b) { let y = choose|y: Seq<u8>| valid_utf8(#[trigger] ((a + b) + y)); assert((a + b) + y =~= a + (b + y)); behind(a, b + y); }
    if begun(b) { let y = choose|y: Seq<u8>| valid_utf8(#[trigger] (b + y)); behind(a, b + y); assert((a + b) + y =~= a + (b + y)); }
}
// ---- lines --------------------------------------------------------------------------------------------------------
pub uninterp spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>>;
pub open spec fn views(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
#[verifier::external_body]
fn lines_in(s: &String) -> (r: Vec<String>) ensures views(r@) == lines_of(s@), lines_of(s@).len() <= s@.len() { s.lines().map(str::to_string).collect() }
//@@ struct crates/ass-core/parser/streaming/state/section_kind.rs SectionKind derive(Clone, Copy)
//@@ struct crates/ass-core/parser/streaming/state/parser_state.rs ParserState
//@@ struct crates/ass-core/parser/streaming/state/context.rs StreamingContext
//@@ struct crates/ass-core/parser/streaming/processor/line_processor.rs LineProcessor
/// the state of the reader of lines
pub struct St { pub state: ParserState, pub n: int, pub section: Option<SectionKind>, pub events: Option<Seq<char>>, pub styles: Option<Seq<char>> }
pub open spec fn text_of(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn st(p: LineProcessor) -> St { St { state: p.state, n: p.context.line_number as int, section: p.context.current_section, events: text_of(p.context.events_format), styles: text_of(p.context.styles_format) } }
pub open spec fn kind_of(h: Seq<char>) -> SectionKind { let t = core(h); if t == "Script Info"@ { SectionKind::ScriptInfo } else if t == "V4+ Styles"@ || t == "V4 Styles"@ { SectionKind::Styles } else if t == "Events"@ { SectionKind::Events } else if t == "Fonts"@ { SectionKind::Fonts } else if t == "Graphics"@ { SectionKind::Graphics } else { SectionKind::Unknown } }
pub open spec fn silent(t: Seq<char>) -> bool { t.len() == 0 || first_is(t, ';') || prefixed(t, "!:"@) }
pub open spec fn entered(s: St, k: SectionKind) -> St { St { state: ParserState::InSection(k), section: Some(k), events: if k is Events { None } else { s.events }, styles: if k is Styles { None } else { s.styles }, ..s } }
/// what a line of the section does
pub open spec fn within(s: St, k: SectionKind, t: Seq<char>) -> St {
    match k {
        SectionKind::Styles => if prefixed(t, "Format:"@) { St { styles: Some(core(t.skip("Format:"@.len() as int))), ..s } } else { s },
        SectionKind::Events => if prefixed(t, "Format:"@) { St { events: Some(core(t.skip("Format:"@.len() as int))), ..s } } else if prefixed(t, "Dialogue:"@) || prefixed(t, "Comment:"@) { St { state: ParserState::InEvent { section: SectionKind::Events, fields_seen: 0 }, ..s } } else { s },
        _ => s,
    }
}
pub open spec fn after(s0: St, line: Seq<char>) -> St {
    let s = St { n: s0.n + 1, ..s0 }; let t = core(line);
    if silent(t) { s } else if first_is(t, '[') && last_is(t, ']') { entered(s, kind_of(t.subrange(1, t.len() - 1))) }
    else { match s.state { ParserState::ExpectingSection => s, ParserState::InSection(k) => within(s, k, t), ParserState::InEvent { section, fields_seen } => St { state: ParserState::InSection(section), ..s } } }
}
/// after the first k of the lines
pub open spec fn after_lines(s: St, v: Seq<Seq<char>>, k: int) -> St decreases k { if k <= 0 { s } else { after(after_lines(s, v, k - 1), v[k - 1]) } }
impl SectionKind {
//@@ fn crates/ass-core/parser/streaming/state/section_kind.rs SectionKind::from_header
//@strmatch header.trim()
//@re-all header\.trim\(\) => trimmed(header)
//@spec
    requires true
    ensures r == kind_of(header@)
//@ret r
//@@ end
//@@ fn crates/ass-core/parser/streaming/state/section_kind.rs SectionKind::expects_format
//@spec
    requires true
    ensures r == (self is Styles || self is Events)
//@ret r
//@@ end
}
impl ParserState {
//@@ fn crates/ass-core/parser/streaming/state/parser_state.rs ParserState::enter_section
//@spec
    requires true
    ensures *final(self) == ParserState::InSection(kind)
//@@ end
//@@ fn crates/ass-core/parser/streaming/state/parser_state.rs ParserState::enter_event
//@spec
    requires true
    ensures *final(self) == (ParserState::InEvent { section, fields_seen: 0 })
//@@ end
}
impl StreamingContext {
//@@ fn crates/ass-core/parser/streaming/state/context.rs StreamingContext::next_line
//@spec
    requires old(self).line_number < usize::MAX
    ensures *final(self) == (StreamingContext { line_number: (old(self).line_number + 1) as usize, ..*old(self) })
//@@ end
//@@ fn crates/ass-core/parser/streaming/state/context.rs StreamingContext::enter_section
//@spec
    requires true
    ensures *final(self) == (StreamingContext { current_section: Some(kind), ..*old(self) })
//@@ end
//@@ fn crates/ass-core/parser/streaming/state/context.rs StreamingContext::set_events_format
//@spec
    requires true
    ensures *final(self) == (StreamingContext { events_format: Some(format), ..*old(self) })
//@@ end
//@@ fn crates/ass-core/parser/streaming/state/context.rs StreamingContext::set_styles_format
//@spec
    requires true
    ensures *final(self) == (StreamingContext { styles_format: Some(format), ..*old(self) })
//@@ end
//@@ fn crates/ass-core/parser/streaming/state/context.rs StreamingContext::reset
//@spec
    requires true
    ensures *final(self) == (StreamingContext { line_number: 0, current_section: None, events_format: None, styles_format: None })
//@@ end
}
impl LineProcessor {
//@@ fn crates/ass-core/parser/streaming/processor/section_lines.rs LineProcessor::process_script_info_line
//@sig-re DeltaBatch<'static> => DeltaBatch
//@re let trimmed = line\.trim\(\); => let text = trimmed(line);
//@re if let Some\(colon_pos\) = trimmed\.find\(':'\) => let total = blen(text); if let Some(colon_pos) = find_char(text, ':')
//@re trimmed\[\.\.colon_pos\]\.trim\(\) => trimmed({ proof { off_zero(text@); off_end(text@); let i = choose|i: int| 0 <= i < text@.len() && text@[i] == ':' && off(text@, i) == colon_pos; off_step(text@, i); off_mono(text@, i + 1, text@.len() as int); assert(off(text@, 0) == 0); assert(off(text@, i + 1) == colon_pos + 1); assert(colon_pos + 1 <= total); } bslice(text, 0, colon_pos) })
//@re trimmed\[colon_pos \+ 1\.\.\]\.trim\(\) => trimmed(bslice(text, colon_pos + 1, blen(text)))
//@spec
    requires true
    ensures r.deltas@.len() == 0
//@ret r
//@@ end
//@@ fn crates/ass-core/parser/streaming/processor/section_lines.rs LineProcessor::process_styles_line
//@sig-re DeltaBatch<'static> => DeltaBatch
//@re let trimmed = line\.trim\(\); => let text = trimmed(line);
//@re trimmed\.strip_prefix\("Format:"\) => less(text, "Format:")
//@re format_str\.trim\(\)\.to_string\(\) => owned(trimmed(format_str))
//@opt-re trimmed\.starts_with\("Style:"\) => begins(text, "Style:")
//@spec
    requires true
    ensures r.deltas@.len() == 0, st(*final(self)) == within(st(*old(self)), SectionKind::Styles, core(line@))
//@ret r
//@@ end
//@@ fn crates/ass-core/parser/streaming/processor/section_lines.rs LineProcessor::process_events_line
//@sig-re DeltaBatch<'static> => DeltaBatch
//@re let trimmed = line\.trim\(\); => let text = trimmed(line);
//@re trimmed\.strip_prefix\("Format:"\) => less(text, "Format:")
//@re format_str\.trim\(\)\.to_string\(\) => owned(trimmed(format_str))
//@re-all trimmed\.starts_with\( => begins(text, 
//@spec
    requires true
    ensures r.deltas@.len() == 0, st(*final(self)) == within(st(*old(self)), SectionKind::Events, core(line@))
//@ret r
//@@ end
//@@ fn crates/ass-core/parser/streaming/processor/section_lines.rs LineProcessor::process_binary_line
//@sig-re DeltaBatch<'static> => DeltaBatch
//@opt-re let trimmed = line\.trim\(\); => let text = trimmed(line);
//@opt-re trimmed\.contains\(':'\) => contains_char(text, ':')
//@spec
    requires true
    ensures r.deltas@.len() == 0
//@ret r
//@@ end
//@@ fn crates/ass-core/parser/streaming/processor/section_lines.rs LineProcessor::process_event_continuation
//@sig-re DeltaBatch<'static> => DeltaBatch
//@opt-re let trimmed = line\.trim\(\); => let text = trimmed(line);
//@opt-re !trimmed\.is_empty\(\) => !nothing(text)
//@spec
    requires true
    ensures r.deltas@.len() == 0, st(*final(self)) == (St { state: ParserState::InSection(section), ..st(*old(self)) })
//@ret r
//@@ end
//@@ fn crates/ass-core/parser/streaming/processor/line_processor.rs LineProcessor::process_section_header
//@sig-re DeltaBatch<'static> => DeltaBatch
//@re &line\[1\.\.line\.len\(\) - 1\] => bslice(line, 1, blen(line) - 1)
//@start
    proof { let s = line@; off_zero(s); off_step(s, 0); off_end(s); off_step(s, s.len() - 1); off_mono(s, 1, s.len() - 1); assert(off(s, 1) == 1); assert(off(s, s.len() - 1) == nbytes(s) - 1); }
//@spec
    requires line@.len() >= 2, first_is(line@, '['), last_is(line@, ']')
    ensures r.deltas@.len() == 0, st(*final(self)) == entered(st(*old(self)), kind_of(line@.subrange(1, line@.len() - 1)))
//@ret r
//@@ end
//@@ fn crates/ass-core/parser/streaming/processor/line_processor.rs LineProcessor::process_section_content
//@sig-re DeltaBatch<'static> => DeltaBatch
//@spec
    requires true
    ensures r.deltas@.len() == 0, st(*final(self)) == within(st(*old(self)), section_kind, core(line@))
//@ret r
//@@ end
//@@ fn crates/ass-core/parser/streaming/processor/line_processor.rs LineProcessor::process_line
//@sig-re Result<DeltaBatch<'static>> => Batch
//@re let trimmed = line\.trim\(\); => let text = trimmed(line);
//@re trimmed\.is_empty\(\) => nothing(text)
//@re-all trimmed\.starts_with\(('[^']') => begins_char(text, \1
//@re trimmed\.ends_with\( => ends_char(text, 
//@re trimmed\.starts_with\("!:" => begins(text, "!:"
//@re process_section_header\(trimmed\) => process_section_header(text)
//@spec
    requires old(self).context.line_number < usize::MAX
    ensures r is Ok, r->Ok_0.deltas@.len() == 0, st(*final(self)) == after(st(*old(self)), line@)
//@ret r
//@@ end
//@@ fn crates/ass-core/parser/streaming/processor/line_processor.rs LineProcessor::reset
//@spec
    requires true
    ensures st(*final(self)) == (St { state: ParserState::ExpectingSection, n: 0, section: None, events: None, styles: None })
//@@ end
}
proof fn counted(s: St, v: Seq<Seq<char>>, k: int) requires 0 <= k ensures after_lines(s, v, k).n == s.n + k decreases k { if k > 0 { counted(s, v, k - 1); } }
// ---- the parser ---------------------------------------------------------------------------------------------------
pub enum ScriptVersion { AssV4 }
pub struct ParseIssue { pub k: u8 }
pub struct StreamingParser { pub processor: LineProcessor, pub buffer: String, pub pending: Vec<u8>, pub sections: Vec<String> }
pub struct StreamingResult { pub sections: Vec<String>, pub version: ScriptVersion, pub issues: Vec<ParseIssue> }
/// the parser has taken these bytes: all but the beginning of a character at their end is text and was accepted
pub open spec fn taken(p: StreamingParser, fed: Seq<u8>) -> bool { exists|d: Seq<u8>| valid_utf8(d) && fed == #[trigger] (d + p.pending@) }
pub open spec fn lines_done(s: Seq<char>) -> int { let n = lines_of(s).len() as int; if last_is(s, '\n') || last_is(s, '\r') { n } else if n > 0 { n - 1 } else { 0 } }
/// the characters of the bytes, where they are text
pub open spec fn chars_of(b: Seq<u8>) -> Seq<char> { choose|s: Seq<char>| encode_utf8(s) == b }
/// the text now waiting or handed on: what waited before, and the new characters
pub open spec fn now_text(was: StreamingParser, now: StreamingParser, chunk: Seq<u8>, t: Seq<char>) -> bool { exists|c: Seq<char>| t == was.buffer@ + c && #[trigger] encode_utf8(c) + now.pending@ == was.pending@ + chunk }
pub open spec fn handed(was: StreamingParser, now: StreamingParser, t: Seq<char>) -> bool {
    &&& st(now.processor) == after_lines(st(was.processor), lines_of(t), lines_done(t))
    &&& now.buffer@ == (if lines_done(t) < lines_of(t).len() { lines_of(t)[lines_done(t)] } else { Seq::empty() })
}
impl StreamingParser {
#[verifier::rlimit(60)] #[verifier::spinoff_prover]
//@@ fn crates/ass-core/parser/streaming/parser.rs StreamingParser::feed_chunk
//@sig-re Result<Vec<ParseDelta<'static>>> => core::result::Result<Vec<ParseDelta>, CoreError>
//@re chunk\.is_empty\(\) => chunk.len() == 0
//@re let mut bytes = self\.pending\.clone\(\); => let mut bytes = copied(&self.pending);
//@re bytes\.extend_from_slice\(chunk\); => more(&mut bytes, chunk); let ghost whole = bytes@;
//@re match core::str::from_utf8\(&bytes\) => match from_utf8(&bytes)
//@re text\.len\(\) => blen(text)
//@re (?s)return Err\(CoreError::parse\(format!\("[^"]*"\)\)\) => return Err(refused())
//@re self\.pending = bytes\.split_off\((.*?)\); => proof { assert(whole.take(whole.len() as int) =~= whole); } self.pending = cut_off(&mut bytes, \1); proof { assert(valid_utf8(bytes@)); assert(whole =~= bytes@ + self.pending@); }
//@re (?s)core::str::from_utf8\(&bytes\)\s*\.map_err\(\|e\| CoreError::parse\(format!\("[^"]*"\)\)\)\? => as_text(&bytes)?
//@re self\.buffer\.push_str\(chunk_str\); => let ghost ok = *self; self.buffer.append(chunk_str); let ghost t = self.buffer@;
//@re let mut all_deltas = Vec::new\(\); => let mut all_deltas: Vec<ParseDelta> = Vec::new();
//@re self\.buffer\.lines\(\)\.map\(str::to_string\)\.collect\(\) => lines_in(&self.buffer)
//@re-all self\.buffer\.ends_with\( => ends_char(self.buffer.as_str(), 
//@re for line in &lines\[\.\.complete_lines\] \{ => let ghost s0 = st(self.processor); let ghost ls = lines_of(t); proof { assert(views(lines@).len() == lines@.len()); off_mono(chunk_str@, 0, chunk_str@.len() as int); off_zero(chunk_str@); off_end(chunk_str@); assert(nbytes(chunk_str@) <= whole.len()); assert(ls.len() <= t.len()); } let ghost p0 = *self; let mut ix: usize = 0; while ix < complete_lines { let line = &lines[ix]; ix += 1; proof { counted(s0, ls, ix - 1); assert(ls[ix - 1] == line@); }
//@re self\.processor\.process_line\(line\)\? => self.processor.process_line(line.as_str())?
//@re all_deltas\.extend\(deltas\.into_deltas\(\)\); => let mut news = deltas.into_deltas(); all_deltas.append(&mut news);
//@re self\.buffer\.clone_from\(&lines\[complete_lines\]\); => self.buffer = owned(lines[complete_lines].as_str());
//@re self\.buffer\.clear\(\); => self.buffer = snew();
//@re (?s)\{\s*let current_memory = .*?\}\s*\}\s*(?=Ok\(all_deltas\)) => 
//@loop 0
    invariant ix <= complete_lines <= lines@.len(), views(lines@) == ls, ls.len() == lines@.len(), s0 == st(p0.processor), s0.n + ls.len() < usize::MAX, st(self.processor) == after_lines(s0, ls, ix as int), all_deltas@.len() == 0,
        self.buffer == p0.buffer, self.pending == p0.pending, self.sections == p0.sections,
    decreases complete_lines - ix
//@before "Ok(all_deltas)"
        proof { let c = chunk_str@; assert(t == was.buffer@ + c); assert(encode_utf8(c) + self.pending@ =~= whole); assert(now_text(was, *self, chunk@, t)); assert(handed(was, *self, t));
            assert forall|fed: Seq<u8>| taken(was, fed) implies taken(*self, fed + chunk@) && begun(fed + chunk@) by { let d = choose|d: Seq<u8>| valid_utf8(d) && fed == #[trigger] (d + was.pending@); assert(fed + chunk@ =~= (d + bytes@) + self.pending@); behind(d, bytes@); assert(fed + chunk@ =~= d + whole); begun_behind(d, whole); } }
//@start
        let ghost was = *self; proof { assert forall|fed: Seq<u8>| taken(was, fed) && !begun(was.pending@ + chunk@) implies !begun(fed + chunk@) by { let d = choose|d: Seq<u8>| valid_utf8(d) && fed == #[trigger] (d + was.pending@); assert(fed + chunk@ =~= d + (was.pending@ + chunk@)); begun_behind(d, was.pending@ + chunk@); }
            assert(chunk@.len() == 0 ==> forall|fed: Seq<u8>| fed + chunk@ =~= fed); valid_begun(was.pending@ + chunk@); }
//@spec
    requires old(self).processor.context.line_number + old(self).buffer@.len() + old(self).pending@.len() + chunk@.len() < usize::MAX
    ensures forall|fed: Seq<u8>| taken(*old(self), fed) ==> (r is Ok <==> chunk@.len() == 0 || #[trigger] begun(fed + chunk@)) && (r is Ok ==> taken(*final(self), fed + chunk@)),
        r is Ok ==> r->Ok_0@.len() == 0 && final(self).sections == old(self).sections,
        r is Ok && chunk@.len() > 0 ==> exists|t: Seq<char>| now_text(*old(self), *final(self), chunk@, t) && #[trigger] handed(*old(self), *final(self), t),
        chunk@.len() == 0 || r is Err ==> *final(self) == *old(self)
//@ret r
//@@ end
//@@ fn crates/ass-core/parser/streaming/parser.rs StreamingParser::finish
//@sig-re mut self => self
//@sig-re Result<StreamingResult> => core::result::Result<StreamingResult, CoreError>
//@re-all self\. => this.
//@re (?s)core::str::from_utf8\(&this\.pending\)\s*\.map_err\(\|e\| CoreError::parse\(format!\("[^"]*"\)\)\)\? => as_text(&this.pending)?
//@re this\.buffer\.trim\(\)\.is_empty\(\) => nothing(trimmed(this.buffer.as_str()))
//@re this\.processor\.process_line\(&this\.buffer\.clone\(\)\)\? => this.processor.process_line(this.buffer.as_str())?
//@start
        let mut this = self; proof { assert forall|fed: Seq<u8>| taken(self, fed) implies valid_utf8(fed) == valid_utf8(self.pending@) by { let d = choose|d: Seq<u8>| valid_utf8(d) && fed == #[trigger] (d + self.pending@); behind(d, self.pending@); } }
//@spec
    requires self.processor.context.line_number < usize::MAX
    ensures forall|fed: Seq<u8>| #[trigger] taken(self, fed) ==> (r is Ok <==> valid_utf8(fed)),
        r is Ok ==> r->Ok_0.sections == self.sections && r->Ok_0.issues@.len() == 0
//@ret r
//@@ end
//@@ fn crates/ass-core/parser/streaming/parser.rs StreamingParser::reset
//@re self\.buffer\.clear\(\); => self.buffer = snew();
//@re (?s)\{\s*self\.peak_memory = 0;\s*\} => 
//@spec
    requires true
    ensures final(self).pending@.len() == 0, final(self).buffer@.len() == 0, final(self).sections@.len() == 0, final(self).processor.state is ExpectingSection
//@@ end
//@@ fn crates/ass-core/parser/streaming/parser.rs StreamingParser::new
//@re LineProcessor::new\(\) => fresh()
//@re String::new\(\) => snew()
//@sig-re const fn => fn
//@re peak_memory: 0, => 
//@spec
    requires true
    ensures r.pending@.len() == 0, r.buffer@.len() == 0, r.sections@.len() == 0
//@ret r
//@@ end
}
proof fn valid_begun(b: Seq<u8>) ensures valid_utf8(b) ==> begun(b) { if valid_utf8(b) { assert(b + Seq::<u8>::empty() =~= b); } }
#[verifier::external_body]
fn fresh() -> LineProcessor { unimplemented!() }
/// however the bytes are divided, the parser ends the same way: it has taken them all exactly if they begin a text, and finishes exactly if they are one
proof fn any_division(p: StreamingParser, fed: Seq<u8>) requires taken(p, fed), p.pending@.len() == 0 ensures valid_utf8(fed) { let d = choose|d: Seq<u8>| valid_utf8(d) && fed == #[trigger] (d + p.pending@); assert(fed =~= d); }
proof fn from_nothing(p: StreamingParser) requires p.pending@.len() == 0 ensures taken(p, Seq::empty()) { let d = Seq::<u8>::empty(); assert(valid_utf8(d)); assert(d + p.pending@ =~= Seq::<u8>::empty()); assert(taken(p, Seq::<u8>::empty())); }
fn main() {}
}
