use vstd::prelude::*;
use vstd::string::*;
extern crate alloc;
verus! {
//@@ struct crates/ass-core/parser/ast/span.rs Span derive(Clone, Copy)
pub enum ParseError { Other }
pub type ParseResult<T> = core::result::Result<T, ParseError>;
pub struct Issue { pub k: u64 }
#[verifier::external_body]
fn an_issue() -> Issue { unimplemented!() }
#[derive(Clone, Copy)]
pub struct Event { pub k: u64 }
#[derive(Clone, Copy)]
pub struct Style { pub k: u64 }
pub struct ScriptInfo<'a> { pub fields: Vec<(&'a str, &'a str)>, pub span: Span }
pub enum Section<'a> { ScriptInfo(ScriptInfo<'a>), Styles(Vec<Style>), Events(Vec<Event>) }
pub type SectionParseResult<'a> = (Section<'a>, Option<Vec<&'a str>>, Vec<Issue>, usize, usize);
#[derive(Clone, Copy)]
pub struct ScriptVersion { pub k: u64 }
pub type ScriptInfoParseResult<'a> = (Section<'a>, Option<ScriptVersion>, Vec<Issue>, usize, usize);
// ---- text ---------------------------------------------------------------------------------------------------------
pub uninterp spec fn ws(c: char) -> bool;
pub open spec fn ltrim(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && ws(s[0]) { ltrim(s.skip(1)) } else { s } }
pub open spec fn rtrim(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && ws(s.last()) { rtrim(s.drop_last()) } else { s } }
pub open spec fn tight(s: Seq<char>) -> Seq<char> { rtrim(ltrim(s)) }
#[verifier::external_body]
fn trimmed<'a>(s: &'a str) -> (r: &'a str) ensures r@ == tight(s@) { s.trim() }
#[verifier::external_body]
fn ltrimmed<'a>(s: &'a str) -> (r: &'a str) ensures r@ == ltrim(s@) { s.trim_start() }
#[verifier::external_body]
fn begins(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { s.starts_with(c) }
#[verifier::external_body]
fn blank(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body]
fn same(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
pub open spec fn prefixed(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
#[verifier::external_body]
fn strip<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>) ensures match r { Some(x) => prefixed(s@, p@) && x@ == s@.skip(p@.len() as int), None => !prefixed(s@, p@) } { s.strip_prefix(p) }
#[verifier::external_body]
fn leads(s: &str, p: &str) -> (r: bool) ensures r == prefixed(s@, p@) { s.starts_with(p) }
pub open spec fn texts(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
/// the pieces between commas, without the blanks around them
pub uninterp spec fn columns(s: Seq<char>) -> Seq<Seq<char>>;
#[verifier::external_body]
fn columns_of<'a>(s: &'a str) -> (r: Vec<&'a str>) ensures texts(r@) == columns(s@) { s.split(',').map(str::trim).collect() }
/// characters up to the first c, or all
pub open spec fn upto(s: Seq<char>, c: char) -> int decreases s.len() { if s.len() == 0 || s[0] == c { 0 } else { 1 + upto(s.skip(1), c) } }
proof fn upto_in(s: Seq<char>, c: char) ensures 0 <= upto(s, c) <= s.len() decreases s.len() { if s.len() > 0 && s[0] != c { upto_in(s.skip(1), c); } }
pub uninterp spec fn byte_off(s: Seq<char>, i: int) -> int;
#[verifier::external_body]
fn find_ch(s: &str, c: char) -> (r: Option<usize>) ensures match r { Some(i) => upto(s@, c) < s@.len() && i == byte_off(s@, upto(s@, c)) && i < usize::MAX, None => upto(s@, c) >= s@.len() } { s.find(c) }
#[verifier::external_body]
fn blen(s: &str) -> (r: usize) ensures r == byte_off(s@, s@.len() as int) { s.len() }
#[verifier::external_body]
fn before<'a>(s: &'a str, i: usize, Ghost(n): Ghost<int>) -> (r: &'a str) requires 0 <= n <= s@.len(), i == byte_off(s@, n) ensures r@ == s@.take(n) { &s[..i] }
#[verifier::external_body]
fn after<'a>(s: &'a str, i: usize, Ghost(n): Ghost<int>) -> (r: &'a str) requires 0 <= n < s@.len(), (s@[n] as u32) < 128, i == byte_off(s@, n) + 1 ensures r@ == s@.skip(n + 1) { &s[i..] }
// ---- where a section is read (PositionTracker, whose contract is discharged in unit c_tracker) -----------------------
#[derive(Clone, Copy)]
pub struct Tracker<'a> { pub source: &'a str, pub k: u64 }
pub open spec fn next_line(s: Seq<char>) -> Seq<char> { if upto(s, '\n') < s.len() { s.skip(upto(s, '\n') + 1) } else { Seq::empty() } }
pub open spec fn unspaced(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && (s[0] == ' ' || s[0] == '\t' || s[0] == '\r') { unspaced(s.skip(1)) } else { s } }
proof fn unspaced_in(s: Seq<char>) ensures unspaced(s).len() <= s.len() decreases s.len() { if s.len() > 0 && (s[0] == ' ' || s[0] == '\t' || s[0] == '\r') { unspaced_in(s.skip(1)); } }
impl<'a> Tracker<'a> {
    pub uninterp spec fn left(self) -> Seq<char>;
    #[verifier::external_body]
    fn is_at_end(&self) -> (r: bool) ensures r == (self.left().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    fn remaining(&self) -> (r: &'a str) ensures r@ == self.left() { unimplemented!() }
    #[verifier::external_body]
    fn skip_line(&mut self) ensures final(self).left() == next_line(old(self).left()) { unimplemented!() }
    #[verifier::external_body]
    fn skip_whitespace(&mut self) ensures final(self).left() == unspaced(old(self).left()) { unimplemented!() }
    #[verifier::external_body]
    fn advance(&mut self, n: usize) requires n == 1, old(self).left().len() > 0, (old(self).left()[0] as u32) < 128 ensures final(self).left() == old(self).left().skip(1) { unimplemented!() }
    fn checkpoint(&self) -> (r: Self) ensures r == *self { *self }
    #[verifier::external_body]
    fn offset(&self) -> (r: usize) ensures r == place(*self) { unimplemented!() }
    #[verifier::external_body]
    fn line(&self) -> (r: u32) ensures r == line_no(*self) { unimplemented!() }
    #[verifier::external_body]
    fn span_from(&self, s: &Self) -> (r: Span) ensures r == between(*s, *self) { unimplemented!() }
}
pub uninterp spec fn place(t: Tracker) -> usize;
pub uninterp spec fn line_no(t: Tracker) -> u32;
pub uninterp spec fn between(s: Tracker, t: Tracker) -> Span;
// ---- the lines of a section ---------------------------------------------------------------------------------------
/// nothing is left, or the next section begins
pub open spec fn over(s: Seq<char>) -> bool { s.len() == 0 || (ltrim(s).len() > 0 && ltrim(s)[0] == '[') }
/// past blank lines and comments
pub open spec fn settled(s: Seq<char>) -> Seq<char> decreases s.len() {
    let t = unspaced(s);
    if t.len() == 0 || t.len() > s.len() { t } else if (t[0] == ';' || t[0] == '#') && next_line(t).len() < t.len() { settled(next_line(t)) } else if t[0] == '\n' { settled(t.skip(1)) } else { t }
}
proof fn next_in(s: Seq<char>) requires s.len() > 0 ensures next_line(s).len() < s.len() { upto_in(s, '\n'); }
proof fn settled_in(s: Seq<char>) ensures settled(s).len() <= s.len() decreases s.len() { let t = unspaced(s); unspaced_in(s); if t.len() > 0 { next_in(t); if t[0] == ';' || t[0] == '#' { settled_in(next_line(t)); } else if t[0] == '\n' { settled_in(t.skip(1)); } } }
pub open spec fn this_line(s: Seq<char>) -> Seq<char> { tight(s.take(upto(s, '\n'))) }
pub type Fmt = Option<Seq<Seq<char>>>;
pub open spec fn fmt_of(f: Option<Vec<&str>>) -> Fmt { match f { Some(v) => Some(texts(v@)), None => None } }
pub struct Ev { pub k: int }
pub uninterp spec fn ev(e: Event) -> Ev;
pub uninterp spec fn sty(e: Style) -> Ev;
pub open spec fn evs(v: Seq<Event>) -> Seq<Ev> { v.map_values(|e: Event| ev(e)) }
pub open spec fn stys(v: Seq<Style>) -> Seq<Ev> { v.map_values(|e: Style| sty(e)) }
/// what one line says under a format (unit c_entries proves the readers of lines)
pub uninterp spec fn ev_said(line: Seq<char>, f: Fmt) -> Option<Ev>;
pub uninterp spec fn sty_data(data: Seq<char>, f: Fmt) -> Option<Ev>;
pub open spec fn sty_said(line: Seq<char>, f: Fmt) -> Option<Ev> { if prefixed(line, "Style:"@) { sty_data(tight(line.skip(6)), f) } else { None } }
pub struct Got { pub found: Seq<Ev>, pub fmt: Fmt, pub left: Seq<char> }
/// the entries the remaining lines of a section say, one by one
pub open spec fn rows(s: Seq<char>, f: Fmt, found: Seq<Ev>, said: spec_fn(Seq<char>, Fmt) -> Option<Ev>) -> Got
    decreases s.len()
{
    let t = settled(s);
    if over(s) { Got { found: found, fmt: f, left: s } } else if over(t) || next_line(t).len() >= s.len() { Got { found: found, fmt: f, left: t } }
    else {
        let line = this_line(t); let n = next_line(t);
        if line.len() == 0 { rows(n, f, found, said) }
        else if prefixed(line, "Format:"@) { rows(n, Some(columns(line.skip(7))), found, said) }
        else { match said(line, f) { Some(e) => rows(n, f, found.push(e), said), None => rows(n, f, found, said) } }
    }
}
/// a line that says nothing neither adds nor removes an entry: what follows is read as if it were not there
proof fn lost_line(s: Seq<char>, f: Fmt, found: Seq<Ev>, said: spec_fn(Seq<char>, Fmt) -> Option<Ev>)
    requires !over(s), !over(settled(s)), ({ let line = this_line(settled(s)); line.len() > 0 && !prefixed(line, "Format:"@) && said(line, f) is None })
    ensures rows(s, f, found, said) == rows(next_line(settled(s)), f, found, said)
{ settled_in(s); next_in(settled(s)); }
/// entries found stay found, in order, and do not affect those that follow
proof fn kept(s: Seq<char>, f: Fmt, found: Seq<Ev>, said: spec_fn(Seq<char>, Fmt) -> Option<Ev>)
    ensures ({ let a = rows(s, f, found, said); let b = rows(s, f, Seq::empty(), said); a.found == found + b.found && a.fmt == b.fmt && a.left == b.left })
    decreases s.len()
{
    let t = settled(s); settled_in(s);
    if over(s) || over(t) { assert(found + Seq::<Ev>::empty() =~= found); } else {
        next_in(t); let line = this_line(t); let n = next_line(t);
        if line.len() == 0 { kept(n, f, found, said); } else if prefixed(line, "Format:"@) { kept(n, Some(columns(line.skip(7))), found, said); }
        else { match said(line, f) { Some(e) => { kept(n, f, found.push(e), said); kept(n, f, Seq::empty().push(e), said); let x = rows(n, f, Seq::empty(), said).found; assert(found.push(e) + x =~= found + (Seq::empty().push(e) + x)); } None => { kept(n, f, found, said); } } }
    }
}
pub struct EventsParser<'a> { pub tracker: Tracker<'a>, pub issues: Vec<Issue>, pub format: Option<Vec<&'a str>> }
impl<'a> EventsParser<'a> {
    #[verifier::external_body]
    fn parse_event_line_internal(&mut self, line: &'a str, line_start: &Tracker<'a>) -> (r: Option<Event>) ensures final(self).tracker == old(self).tracker, final(self).format == old(self).format, match r { Some(e) => ev_said(line@, fmt_of(old(self).format)) == Some(ev(e)), None => ev_said(line@, fmt_of(old(self).format)) is None } { unimplemented!() }
//@@ fn crates/ass-core/parser/sections/events/parser.rs EventsParser::current_line
//@ret r
//@re remaining\.find\('\\n'\)\.unwrap_or\(remaining\.len\(\)\) => match find_ch(remaining, '\\n') { Some(i) => i, None => blen(remaining) }
//@re &remaining\[\.\.end\] => before(remaining, end, Ghost(upto(remaining@, '\\n')))
//@start
    proof { upto_in(self.tracker.left(), '\n'); }
//@spec
    requires true
    ensures r@ == self.tracker.left().take(upto(self.tracker.left(), '\n'))
//@@ end
//@@ fn crates/ass-core/parser/sections/events/parser.rs EventsParser::at_next_section
//@ret r
//@re self\.tracker\.remaining\(\)\.trim_start\(\)\.starts_with\('\['\) => begins(ltrimmed(self.tracker.remaining()), '[')
//@spec
    requires true
    ensures r == (ltrim(self.tracker.left()).len() > 0 && ltrim(self.tracker.left())[0] == '[')
//@@ end
//@@ fn crates/ass-core/parser/sections/events/parser.rs EventsParser::skip_whitespace_and_comments
//@re remaining\.is_empty\(\) => blank(remaining)
//@re-all remaining\.starts_with\(('\\?.')\) => begins(remaining, \1)
//@loop 0
    invariant_except_break settled(self.tracker.left()) == settled(old(self).tracker.left()),
    invariant self.issues == old(self).issues, self.format == old(self).format,
    ensures self.tracker.left() == settled(old(self).tracker.left()),
    decreases self.tracker.left().len()
//@loopstart 0
    proof { unspaced_in(self.tracker.left()); if unspaced(self.tracker.left()).len() > 0 { next_in(unspaced(self.tracker.left())); } }
//@spec
    requires true
    ensures final(self).tracker.left() == settled(old(self).tracker.left()), final(self).issues == old(self).issues, final(self).format == old(self).format
//@@ end
//@@ fn crates/ass-core/parser/sections/events/parser.rs EventsParser::parse_format_line
//@re line\.strip_prefix\( => strip(line, 
//@re format_data\.split\(','\)\.map\(str::trim\)\.collect\(\) => columns_of(format_data)
//@spec
    requires true
    ensures final(self).tracker == old(self).tracker, final(self).issues == old(self).issues, fmt_of(final(self).format) == (if prefixed(line@, "Format:"@) { Some(columns(line@.skip(7))) } else { fmt_of(old(self).format) })
//@start
    proof { reveal_strlit("Format:"); assert("Format:"@.len() == 7); }
//@@ end
//@@ fn crates/ass-core/parser/sections/events/parser.rs EventsParser::parse
//@ret r
//@sig-re mut self => self
//@re-all self\. => this.
//@re let mut events = Vec::new\(\) => let mut events: Vec<Event> = Vec::new(); let mut this = self; let ghost s0 = self.tracker.left(); let ghost f0 = fmt_of(self.format); let ghost mut open = true
//@re this\.current_line\(\)\.trim\(\) => trimmed(this.current_line())
//@re line\.is_empty\(\) => blank(line)
//@re-all line\.starts_with\( => leads(line, 
//@loop 0
    invariant_except_break rows(this.tracker.left(), fmt_of(this.format), evs(events@), said) == rows(s0, f0, Seq::empty(), said),
    invariant said == (|l: Seq<char>, f: Fmt| ev_said(l, f)),
    ensures ({ let g = rows(s0, f0, Seq::empty(), said); evs(events@) == g.found && fmt_of(this.format) == g.fmt && this.tracker.left() == g.left }),
    decreases this.tracker.left().len()
//@loopstart 0
    let ghost l0 = this.tracker.left(); let ghost ev0 = evs(events@); proof { settled_in(l0); if settled(l0).len() > 0 { next_in(settled(l0)); } }
//@loopend 0
    proof { assert(said(line@, fmt0) == ev_said(line@, fmt0)); if !prefixed(line@, "Format:"@) && ev_said(line@, fmt0) is Some { assert(evs(events@) =~= ev0.push(ev_said(line@, fmt0)->Some_0)); } }
//@after "let line_start = this.tracker.checkpoint();"
    let ghost fmt0 = fmt_of(this.format);
//@before "while"
    let ghost said = |l: Seq<char>, f: Fmt| ev_said(l, f); proof { assert(evs(events@) =~= Seq::<Ev>::empty()); }
//@spec
    requires true
    ensures r is Ok, ({ let g = rows(self.tracker.left(), fmt_of(self.format), Seq::empty(), |l: Seq<char>, f: Fmt| ev_said(l, f)); let x = r->Ok_0; x.0 is Events && evs(x.0->Events_0@) == g.found && fmt_of(x.1) == g.fmt && exists|t: Tracker| #[trigger] t.left() == g.left && x.3 == place(t) && x.4 == line_no(t) })
//@@ end
}
pub open spec fn style_columns() -> Seq<Seq<char>> { seq!["Name"@, "Fontname"@, "Fontsize"@, "PrimaryColour"@, "SecondaryColour"@, "OutlineColour"@, "BackColour"@, "Bold"@, "Italic"@, "Underline"@, "StrikeOut"@, "ScaleX"@, "ScaleY"@, "Spacing"@, "Angle"@, "BorderStyle"@, "Outline"@, "Shadow"@, "Alignment"@, "MarginL"@, "MarginR"@, "MarginV"@, "Encoding"@] }
pub struct StylesParser<'a> { pub tracker: Tracker<'a>, pub issues: Vec<Issue>, pub format: Option<Vec<&'a str>> }
impl<'a> StylesParser<'a> {
    #[verifier::external_body]
    fn parse_style_line_internal(&mut self, line: &'a str, line_start: &Tracker<'a>) -> (r: Option<Style>) ensures final(self).tracker == old(self).tracker, final(self).format == old(self).format, match r { Some(e) => sty_data(line@, fmt_of(old(self).format)) == Some(sty(e)), None => sty_data(line@, fmt_of(old(self).format)) is None } { unimplemented!() }
//@@ fn crates/ass-core/parser/sections/styles/parser.rs StylesParser::current_line
//@ret r
//@re remaining\.find\('\\n'\)\.unwrap_or\(remaining\.len\(\)\) => match find_ch(remaining, '\\n') { Some(i) => i, None => blen(remaining) }
//@re &remaining\[\.\.end\] => before(remaining, end, Ghost(upto(remaining@, '\\n')))
//@start
    proof { upto_in(self.tracker.left(), '\n'); }
//@spec
    requires true
    ensures r@ == self.tracker.left().take(upto(self.tracker.left(), '\n'))
//@@ end
//@@ fn crates/ass-core/parser/sections/styles/parser.rs StylesParser::at_next_section
//@ret r
//@re self\.tracker\.remaining\(\)\.trim_start\(\)\.starts_with\('\['\) => begins(ltrimmed(self.tracker.remaining()), '[')
//@spec
    requires true
    ensures r == (ltrim(self.tracker.left()).len() > 0 && ltrim(self.tracker.left())[0] == '[')
//@@ end
//@@ fn crates/ass-core/parser/sections/styles/parser.rs StylesParser::skip_whitespace_and_comments
//@re remaining\.is_empty\(\) => blank(remaining)
//@re-all remaining\.starts_with\(('\\?.')\) => begins(remaining, \1)
//@loop 0
    invariant_except_break settled(self.tracker.left()) == settled(old(self).tracker.left()),
    invariant self.issues == old(self).issues, self.format == old(self).format,
    ensures self.tracker.left() == settled(old(self).tracker.left()),
    decreases self.tracker.left().len()
//@loopstart 0
    proof { unspaced_in(self.tracker.left()); if unspaced(self.tracker.left()).len() > 0 { next_in(unspaced(self.tracker.left())); } }
//@spec
    requires true
    ensures final(self).tracker.left() == settled(old(self).tracker.left()), final(self).issues == old(self).issues, final(self).format == old(self).format
//@@ end
//@@ fn crates/ass-core/parser/sections/styles/parser.rs StylesParser::parse_format_line
//@re line\.strip_prefix\( => strip(line, 
//@re format_data\.split\(','\)\.map\(str::trim\)\.collect\(\) => columns_of(format_data)
//@spec
    requires true
    ensures final(self).tracker == old(self).tracker, final(self).issues == old(self).issues, fmt_of(final(self).format) == (if prefixed(line@, "Format:"@) { Some(columns(line@.skip(7))) } else { fmt_of(old(self).format) })
//@start
    proof { reveal_strlit("Format:"); assert("Format:"@.len() == 7); }
//@@ end
//@@ fn crates/ass-core/parser/sections/styles/parser.rs StylesParser::parse
//@ret r
//@sig-re mut self => self
//@re-all self\. => this.
//@re let mut styles = Vec::new\(\) => let mut styles: Vec<Style> = Vec::new(); let mut this = self; let ghost s0 = self.tracker.left(); let ghost f0 = fmt_of(self.format); let ghost mut open = true
//@re this\.current_line\(\)\.trim\(\) => trimmed(this.current_line())
//@re line\.is_empty\(\) => blank(line)
//@re-all line\.starts_with\( => leads(line, 
//@re-all line\.strip_prefix\( => strip(line, 
//@re style_data\.trim\(\) => trimmed(style_data)
//@re this\.format\.is_none\(\) && !styles\.is_empty\(\) => this.format.is_none() && styles.len() > 0
//@re (?s)Some\(vec!\[\s*("Name".*?),?\s*\]\) => { let std = vec![\1]; proof { assert(texts(std@) =~= style_columns()); } Some(std) }
//@loop 0
    invariant_except_break rows(this.tracker.left(), fmt_of(this.format), stys(styles@), said) == rows(s0, f0, Seq::empty(), said),
    invariant said == (|l: Seq<char>, f: Fmt| sty_said(l, f)), "Style:"@.len() == 6,
    ensures ({ let g = rows(s0, f0, Seq::empty(), said); stys(styles@) == g.found && fmt_of(this.format) == g.fmt && this.tracker.left() == g.left }),
    decreases this.tracker.left().len()
//@loopstart 0
    let ghost l0 = this.tracker.left(); let ghost ev0 = stys(styles@); proof { settled_in(l0); if settled(l0).len() > 0 { next_in(settled(l0)); } }
//@loopend 0
    proof { assert(said(line@, fmt0) == sty_said(line@, fmt0)); if !prefixed(line@, "Format:"@) && sty_said(line@, fmt0) is Some { assert(stys(styles@) =~= ev0.push(sty_said(line@, fmt0)->Some_0)); } }
//@after "let line_start = this.tracker.checkpoint();"
    let ghost fmt0 = fmt_of(this.format);
//@before "while"
    let ghost said = |l: Seq<char>, f: Fmt| sty_said(l, f); proof { assert(stys(styles@) =~= Seq::<Ev>::empty()); reveal_strlit("Style:"); assert("Style:"@.len() == 6); }
//@spec
    requires true
    ensures r is Ok, ({ let g = rows(self.tracker.left(), fmt_of(self.format), Seq::empty(), |l: Seq<char>, f: Fmt| sty_said(l, f)); let x = r->Ok_0; x.0 is Styles && stys(x.0->Styles_0@) == g.found && fmt_of(x.1) == (if g.fmt is None && g.found.len() > 0 { Some(style_columns()) } else { g.fmt }) && exists|t: Tracker| #[trigger] t.left() == g.left && x.3 == place(t) && x.4 == line_no(t) })
//@@ end
}
pub type Pair = (Seq<char>, Seq<char>);
pub open spec fn pairs(v: Seq<(&str, &str)>) -> Seq<Pair> { v.map_values(|f: (&str, &str)| (f.0@, f.1@)) }
pub uninterp spec fn version_of(s: Seq<char>) -> Option<ScriptVersion>;
impl ScriptVersion { #[verifier::external_body]
    fn from_header(s: &str) -> (r: Option<Self>) ensures r == version_of(s@) { unimplemented!() } }
pub struct Info { pub found: Seq<Pair>, pub version: Option<ScriptVersion>, pub left: Seq<char> }
/// the fields the lines of a section say, and the last version they name
pub open spec fn facts(s: Seq<char>, v: Option<ScriptVersion>, found: Seq<Pair>) -> Info
    decreases s.len()
{
    let t = settled(s);
    if over(s) { Info { found: found, version: v, left: s } } else if over(t) || next_line(t).len() >= s.len() { Info { found: found, version: v, left: t } }
    else {
        let line = this_line(t); let n = next_line(t); let c = upto(line, ':');
        if c >= line.len() { facts(n, v, found) }
        else { let key = tight(line.take(c)); let value = tight(line.skip(c + 1)); facts(n, if key == "ScriptType"@ && version_of(value) is Some { version_of(value) } else { v }, found.push((key, value))) }
    }
}
pub struct ScriptInfoParser<'a> { pub tracker: Tracker<'a>, pub issues: Vec<Issue> }
impl<'a> ScriptInfoParser<'a> {
//@@ fn crates/ass-core/parser/sections/script_info/parser.rs ScriptInfoParser::current_line
//@ret r
//@re remaining\.find\('\\n'\)\.unwrap_or\(remaining\.len\(\)\) => match find_ch(remaining, '\\n') { Some(i) => i, None => blen(remaining) }
//@re &remaining\[\.\.end\] => before(remaining, end, Ghost(upto(remaining@, '\\n')))
//@start
    proof { upto_in(self.tracker.left(), '\n'); }
//@spec
    requires true
    ensures r@ == self.tracker.left().take(upto(self.tracker.left(), '\n'))
//@@ end
//@@ fn crates/ass-core/parser/sections/script_info/parser.rs ScriptInfoParser::at_next_section
//@ret r
//@re self\.tracker\.remaining\(\)\.trim_start\(\)\.starts_with\('\['\) => begins(ltrimmed(self.tracker.remaining()), '[')
//@spec
    requires true
    ensures r == (ltrim(self.tracker.left()).len() > 0 && ltrim(self.tracker.left())[0] == '[')
//@@ end
//@@ fn crates/ass-core/parser/sections/script_info/parser.rs ScriptInfoParser::skip_whitespace_and_comments
//@re remaining\.is_empty\(\) => blank(remaining)
//@re-all remaining\.starts_with\(('\\?.')\) => begins(remaining, \1)
//@loop 0
    invariant_except_break settled(self.tracker.left()) == settled(old(self).tracker.left()),
    invariant self.issues == old(self).issues,
    ensures self.tracker.left() == settled(old(self).tracker.left()),
    decreases self.tracker.left().len()
//@loopstart 0
    proof { unspaced_in(self.tracker.left()); if unspaced(self.tracker.left()).len() > 0 { next_in(unspaced(self.tracker.left())); } }
//@spec
    requires true
    ensures final(self).tracker.left() == settled(old(self).tracker.left()), final(self).issues == old(self).issues
//@@ end
//@@ fn crates/ass-core/parser/sections/script_info/parser.rs ScriptInfoParser::parse
//@ret r
//@sig-re mut self => self
//@re-all self\. => this.
//@re let section_start = => let mut this = self; let ghost s0 = self.tracker.left(); let section_start =
//@re let mut fields = Vec::new\(\) => let mut fields: Vec<(&'a str, &'a str)> = Vec::new()
//@re let mut detected_version = None => let mut detected_version: Option<ScriptVersion> = None
//@re this\.current_line\(\)\.trim\(\) => trimmed(this.current_line())
//@re line\.is_empty\(\) => blank(line)
//@re line\.find\(':'\) => find_ch(line, ':')
//@re line\[\.\.colon_pos\]\.trim\(\) => trimmed(before(line, colon_pos, Ghost(upto(line@, ':'))))
//@re line\[colon_pos \+ 1\.\.\]\.trim\(\) => trimmed(after(line, colon_pos + 1, Ghost(upto(line@, ':'))))
//@re key == "ScriptType" => same(key, "ScriptType")
//@re (?s)ParseIssue::new\(.*?line_start\.line\(\) as usize,\s*\) => an_issue()
//@loop 0
    invariant_except_break facts(this.tracker.left(), detected_version, pairs(fields@)) == facts(s0, None, Seq::empty()),
    ensures ({ let g = facts(s0, None, Seq::empty()); pairs(fields@) == g.found && detected_version == g.version && this.tracker.left() == g.left }),
    decreases this.tracker.left().len()
//@loopstart 0
    let ghost l0 = this.tracker.left(); let ghost ev0 = pairs(fields@); proof { settled_in(l0); if settled(l0).len() > 0 { next_in(settled(l0)); } }
//@loopend 0
    proof { let c = upto(line@, ':'); if c < line@.len() { assert(pairs(fields@) =~= ev0.push((tight(line@.take(c)), tight(line@.skip(c + 1))))); } }
//@after "let line = trimmed(this.current_line());"
    proof { upto_in(line@, ':'); upto_at(line@, ':'); }
//@before "while"
    proof { assert(pairs(fields@) =~= Seq::<Pair>::empty()); }
//@spec
    requires true
    ensures r is Ok, ({ let g = facts(self.tracker.left(), None, Seq::empty()); let x = r->Ok_0; x.0 is ScriptInfo && pairs(x.0->ScriptInfo_0.fields@) == g.found && x.1 == g.version && exists|t: Tracker| #[trigger] t.left() == g.left && x.3 == place(t) && x.4 == line_no(t) && x.0->ScriptInfo_0.span == between(self.tracker, t) })
//@@ end
}
proof fn upto_at(s: Seq<char>, c: char) ensures upto(s, c) < s.len() ==> s[upto(s, c)] == c decreases s.len() { if s.len() > 0 && s[0] != c { upto_in(s.skip(1), c); upto_at(s.skip(1), c); } }
// ---- fonts and graphics -------------------------------------------------------------------------------------------
pub struct Entry<'a> { pub filename: &'a str, pub data_lines: Vec<&'a str>, pub span: Span }
fn build<'a>(filename: &'a str, data_lines: Vec<&'a str>, span: Span) -> (r: Entry<'a>) ensures r.filename == filename, r.data_lines == data_lines, r.span == span { Entry { filename, data_lines, span } }
pub type File = (Seq<char>, Seq<Seq<char>>);
pub open spec fn file(e: Entry) -> File { (e.filename@, texts(e.data_lines@)) }
pub open spec fn files(v: Seq<Entry>) -> Seq<File> { v.map_values(|e: Entry| file(e)) }
pub open spec fn settled2(s: Seq<char>) -> Seq<char> decreases s.len() {
    let t = unspaced(s);
    if t.len() == 0 || t.len() > s.len() { t } else if (t[0] == ';' || prefixed(t, "!:"@)) && next_line(t).len() < t.len() { settled2(next_line(t)) } else if t[0] == '\n' { settled2(t.skip(1)) } else { t }
}
proof fn settled2_in(s: Seq<char>) ensures settled2(s).len() <= s.len() decreases s.len() { let t = unspaced(s); unspaced_in(s); if t.len() > 0 { next_in(t); if t[0] == ';' || prefixed(t, "!:"@) { settled2_in(next_line(t)); } else if t[0] == '\n' { settled2_in(t.skip(1)); } } }
/// a line that begins an entry: this key before a colon
pub open spec fn keyed(s: Seq<char>, key: Seq<char>) -> bool { upto(s, ':') < s.len() && tight(s.take(upto(s, ':'))) == key }
fn is_keyed(s: &str, key: &str) -> (r: bool) ensures r == keyed(s@, key@) { proof { upto_in(s@, ':'); } match find_ch(s, ':') { Some(i) => same(trimmed(before(s, i, Ghost(upto(s@, ':')))), key), None => false } }
/// the data lines that follow
pub open spec fn data(s: Seq<char>, key: Seq<char>, found: Seq<Seq<char>>) -> (Seq<Seq<char>>, Seq<char>) decreases s.len() {
    let l = this_line(s); let n = next_line(s);
    if over(s) || l.len() == 0 || l[0] == '[' || n.len() >= s.len() { (found, s) }
    else if l[0] == ';' || l[0] == '!' { data(n, key, found) }
    else if keyed(l, key) || prefixed(l, "# "@) || l == "#"@ { (found, s) }
    else { data(n, key, found.push(s.take(upto(s, '\n')))) }
}
proof fn data_in(s: Seq<char>, key: Seq<char>, found: Seq<Seq<char>>) ensures data(s, key, found).1.len() <= s.len() decreases s.len() { let l = this_line(s); let n = next_line(s); if over(s) || l.len() == 0 || l[0] == '[' || n.len() >= s.len() {} else if l[0] == ';' || l[0] == '!' { data_in(n, key, found); } else if keyed(l, key) || prefixed(l, "# "@) || l == "#"@ {} else { data_in(n, key, found.push(s.take(upto(s, '\n')))); } }
pub open spec fn entry(s: Seq<char>, key: Seq<char>) -> (Option<File>, Seq<char>) {
    let l = s.take(upto(s, '\n')); let d = data(next_line(s), key, Seq::empty());
    if keyed(l, key) { (Some((tight(l.skip(upto(l, ':') + 1)), d.0)), d.1) } else { (None, next_line(s)) }
}
pub open spec fn all_files(s: Seq<char>, key: Seq<char>, found: Seq<File>) -> (Seq<File>, Seq<char>) decreases s.len() {
    let t = settled2(s); let e = entry(t, key);
    if over(s) { (found, s) } else if over(t) || e.1.len() >= s.len() { (found, t) } else { match e.0 { Some(f) => all_files(e.1, key, found.push(f)), None => all_files(e.1, key, found) } }
}
pub struct BinaryDataParser<'a> { pub tracker: Tracker<'a>, pub entry_key: &'static str }
impl<'a> BinaryDataParser<'a> {
//@@ fn crates/ass-core/parser/binary_data/binary_parser.rs BinaryDataParser::current_line
//@ret r
//@re remaining\.find\('\\n'\)\.unwrap_or\(remaining\.len\(\)\) => match find_ch(remaining, '\\n') { Some(i) => i, None => blen(remaining) }
//@re &remaining\[\.\.end\] => before(remaining, end, Ghost(upto(remaining@, '\\n')))
//@start
    proof { upto_in(self.tracker.left(), '\n'); }
//@spec
    requires true
    ensures r@ == self.tracker.left().take(upto(self.tracker.left(), '\n'))
//@@ end
//@@ fn crates/ass-core/parser/binary_data/binary_parser.rs BinaryDataParser::at_next_section
//@ret r
//@re self\.tracker\.remaining\(\)\.trim_start\(\)\.starts_with\('\['\) => begins(ltrimmed(self.tracker.remaining()), '[')
//@spec
    requires true
    ensures r == (ltrim(self.tracker.left()).len() > 0 && ltrim(self.tracker.left())[0] == '[')
//@@ end
//@@ fn crates/ass-core/parser/binary_data/binary_parser.rs BinaryDataParser::skip_whitespace_and_comments
//@re remaining\.is_empty\(\) => blank(remaining)
//@re-all remaining\.starts_with\(('\\?.')\) => begins(remaining, \1)
//@re remaining\.starts_with\("!:"\) => leads(remaining, "!:")
//@loop 0
    invariant_except_break settled2(self.tracker.left()) == settled2(old(self).tracker.left()),
    invariant self.entry_key == old(self).entry_key
    ensures self.tracker.left() == settled2(old(self).tracker.left()),
    decreases self.tracker.left().len()
//@loopstart 0
    proof { unspaced_in(self.tracker.left()); if unspaced(self.tracker.left()).len() > 0 { next_in(unspaced(self.tracker.left())); } }
//@spec
    requires true
    ensures final(self).tracker.left() == settled2(old(self).tracker.left()), final(self).entry_key == old(self).entry_key
//@@ end
//@@ fn crates/ass-core/parser/binary_data/binary_parser.rs BinaryDataParser::collect_data_lines
//@ret r
//@re let mut data_lines = Vec::new\(\) => let mut data_lines: Vec<&'a str> = Vec::new(); let ghost s0 = self.tracker.left(); let ghost key = self.entry_key@
//@re data_line\.trim\(\) => trimmed(data_line)
//@re trimmed\.is_empty\(\) => blank(short)
//@re let trimmed = => let short =
//@re-all trimmed\.starts_with\(('.')\) => begins(short, \1)
//@re (?s)trimmed\s*\.split_once\(':'\)\s*\.is_some_and\(\|\(key, _\)\| key\.trim\(\) == self\.entry_key\) => is_keyed(short, self.entry_key)
//@re trimmed\.starts_with\("# "\) \|\| trimmed == "#" => leads(short, "# ") || same(short, "#")
//@loop 0
    invariant_except_break data(self.tracker.left(), key, texts(data_lines@)) == data(s0, key, Seq::empty()),
    invariant self.entry_key == old(self).entry_key, key == self.entry_key@,
    ensures texts(data_lines@) == data(s0, key, Seq::empty()).0, self.tracker.left() == data(s0, key, Seq::empty()).1,
    decreases self.tracker.left().len()
//@loopstart 0
    let ghost l0 = self.tracker.left(); let ghost t0 = texts(data_lines@); proof { next_in(l0); }
//@loopend 0
    proof { assert(texts(data_lines@) =~= t0.push(l0.take(upto(l0, '\n')))); }
//@before "while"
    proof { assert(texts(data_lines@) =~= Seq::<Seq<char>>::empty()); }
//@spec
    requires true
    ensures final(self).entry_key == old(self).entry_key, texts(r@) == data(old(self).tracker.left(), old(self).entry_key@, Seq::empty()).0, final(self).tracker.left() == data(old(self).tracker.left(), old(self).entry_key@, Seq::empty()).1
//@@ end
//@@ fn crates/ass-core/parser/binary_data/binary_parser.rs BinaryDataParser::parse_entry
//@ret r
//@sig-re <T> => <Entry<'a>>
//@re line\.find\(':'\) => find_ch(line, ':')
//@re line\[\.\.colon_pos\]\.trim\(\) => trimmed(before(line, colon_pos, Ghost(upto(line@, ':'))))
//@re line\[colon_pos \+ 1\.\.\]\.trim\(\) => trimmed(after(line, colon_pos + 1, Ghost(upto(line@, ':'))))
//@re key == self\.entry_key => same(key, self.entry_key)
//@re \(self\.constructor\)\( => build(
//@after "let line = self.current_line();"
    proof { upto_in(line@, ':'); upto_at(line@, ':'); }
//@spec
    requires true
    ensures final(self).entry_key == old(self).entry_key, ({ let x = entry(old(self).tracker.left(), old(self).entry_key@); final(self).tracker.left() == x.1 && match r { Some(e) => x.0 == Some(file(e)), None => x.0 is None } })
//@@ end
//@@ fn crates/ass-core/parser/binary_data/binary_parser.rs BinaryDataParser::parse
//@ret r
//@sig-re mut self => self
//@sig-re <T> => <Entry<'a>>
//@re-all self\. => this.
//@re let mut entries = Vec::new\(\) => let mut entries: Vec<Entry<'a>> = Vec::new(); let mut this = self; let ghost s0 = self.tracker.left(); let ghost key = self.entry_key@
//@loop 0
    invariant_except_break all_files(this.tracker.left(), key, files(entries@)) == all_files(s0, key, Seq::empty()),
    invariant this.entry_key@ == key,
    ensures files(entries@) == all_files(s0, key, Seq::empty()).0, this.tracker.left() == all_files(s0, key, Seq::empty()).1,
    decreases this.tracker.left().len()
//@loopstart 0
    let ghost l0 = this.tracker.left(); let ghost e0 = files(entries@); proof { settled2_in(l0); let t = settled2(l0); if t.len() > 0 { next_in(t); data_in(next_line(t), key, Seq::empty()); } }
//@loopend 0
    proof { let x = entry(settled2(l0), key); if x.0 is Some { assert(files(entries@) =~= e0.push(x.0->Some_0)); } }
//@before "while"
    proof { assert(files(entries@) =~= Seq::<File>::empty()); }
//@spec
    requires true
    ensures ({ let g = all_files(self.tracker.left(), self.entry_key@, Seq::empty()); files(r.0@) == g.0 && exists|t: Tracker| #[trigger] t.left() == g.1 && r.1 == place(t) && r.2 == line_no(t) })
//@@ end
}
fn main() {}
}
