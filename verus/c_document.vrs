use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
verus! {
//@@ include str.inc
// ---- text ---------------------------------------------------------------------------------------------------------
pub uninterp spec fn ws(c: char) -> bool;
#[verifier::external_body]
pub proof fn header_is_ink() ensures !ws('[') {}
pub open spec fn ltrim(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && ws(s[0]) { ltrim(s.skip(1)) } else { s } }
pub open spec fn rtrim(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && ws(s.last()) { rtrim(s.drop_last()) } else { s } }
pub open spec fn tight(s: Seq<char>) -> Seq<char> { rtrim(ltrim(s)) }
/// blanks at the front
pub open spec fn gap(s: Seq<char>) -> int decreases s.len() { if s.len() > 0 && ws(s[0]) { 1 + gap(s.skip(1)) } else { 0 } }
proof fn gap_is(s: Seq<char>) ensures 0 <= gap(s) <= s.len(), ltrim(s) == s.skip(gap(s)), (gap(s) == 0) == (ltrim(s) == s) decreases s.len()
{ assert(s.skip(0) =~= s); if s.len() > 0 && ws(s[0]) { gap_is(s.skip(1)); assert(s.skip(1).skip(gap(s.skip(1))) =~= s.skip(gap(s))); assert(ltrim(s).len() < s.len()); } }
#[verifier::external_body]
fn trimmed<'a>(s: &'a str) -> (r: &'a str) ensures r@ == tight(s@) { s.trim() }
#[verifier::external_body]
fn ltrimmed<'a>(s: &'a str) -> (r: &'a str) ensures r@ == ltrim(s@) { s.trim_start() }
#[verifier::external_body]
fn begins(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { s.starts_with(c) }
#[verifier::external_body]
fn same(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
pub open spec fn prefixed(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
#[verifier::external_body]
fn leads(s: &str, p: &str) -> (r: bool) ensures r == prefixed(s@, p@) { s.starts_with(p) }
pub open spec fn upto(s: Seq<char>, c: char) -> int decreases s.len() { if s.len() == 0 || s[0] == c { 0 } else { 1 + upto(s.skip(1), c) } }
proof fn upto_in(s: Seq<char>, c: char) ensures 0 <= upto(s, c) <= s.len(), upto(s, c) < s.len() ==> s[upto(s, c)] == c decreases s.len() { if s.len() > 0 && s[0] != c { upto_in(s.skip(1), c); } }
#[verifier::external_body]
fn find_char(s: &str, c: char) -> (r: Option<usize>) ensures match r { Some(i) => upto(s@, c) < s@.len() && i == off(s@, upto(s@, c)), None => upto(s@, c) >= s@.len() } { s.find(c) }
fn holds(s: &str, c: char) -> (r: bool) ensures r == (upto(s@, c) < s@.len()) { find_char(s, c).is_some() }
#[verifier::external_body]
fn breaks(s: &str) -> usize { s.matches('\n').count() }
/// line numbers stay far below the machine limit
#[verifier::external_body]
fn bump(n: &mut usize, k: usize) { *n += k; }
// ---- standing in a text -------------------------------------------------------------------------------------------
pub open spec fn on(s: Seq<char>, b: int) -> bool { exists|i: int| 0 <= i <= s.len() && #[trigger] off(s, i) == b }
pub open spec fn spot(s: Seq<char>, b: int) -> int { choose|i: int| 0 <= i <= s.len() && #[trigger] off(s, i) == b }
/// the text from there on
pub open spec fn from(s: Seq<char>, b: int) -> Seq<char> { s.skip(spot(s, b)) }
proof fn spot_is(s: Seq<char>, b: int) requires on(s, b) ensures 0 <= spot(s, b) <= s.len(), off(s, spot(s, b)) == b, 0 <= b <= nbytes(s), (b == nbytes(s)) == (from(s, b).len() == 0) { let p = spot(s, b); off_mono(s, p, s.len() as int); off_end(s); off_mono(s, 0, p); off_zero(s); if b == nbytes(s) { off_inj(s, p, s.len() as int); } }
broadcast proof fn stands(s: Seq<char>, b: int) requires on(s, b) ensures 0 <= b <= nbytes(s), (b == nbytes(s)) == ((#[trigger] from(s, b)).len() == 0) { spot_is(s, b); }
/// k characters further
proof fn ahead(s: Seq<char>, b: int, k: int) requires on(s, b), 0 <= k <= from(s, b).len() ensures on(s, b + off(from(s, b), k)), from(s, b + off(from(s, b), k)) == from(s, b).skip(k), b + off(from(s, b), k) <= nbytes(s)
{ spot_is(s, b); let p = spot(s, b); off_skip(s, p, k); let q = p + k; assert(off(s, q) == b + off(from(s, b), k)); spot_is(s, off(s, q)); off_inj(s, spot(s, off(s, q)), q); assert(s.skip(p).skip(k) =~= s.skip(q)); }
/// the name in the brackets, and what follows them
proof fn name_spot(s: Seq<char>, b: int) requires on(s, b) ensures ({ let l = from(s, b); let e = upto(l, ']'); 0 <= e <= l.len() && (e < l.len() && l[0] == '[' ==> e >= 1 && ({ let p = spot(s, b); 0 <= p && p + e <= s.len() && l == s.skip(p) && off(s, p + 1) == b + 1 && off(s, p + e) == b + off(l, e) && b + 1 <= b + off(l, e) && on(s, b + off(l, e) + 1) && from(s, b + off(l, e) + 1) == l.skip(e + 1) && b + off(l, e) + 1 <= nbytes(s) })) })
{ let l = from(s, b); let e = upto(l, ']'); upto_in(l, ']'); spot_is(s, b); if e < l.len() && l[0] == '[' { ahead(s, b, e); ahead(s, b, e + 1); ahead(s, b, 1); w_ascii('['); w_ascii(']'); off_step(l, e); off_zero(l); off_step(l, 0); off_mono(l, 1, e); let p = spot(s, b); off_skip(s, p, 1); off_skip(s, p, e); } }
fn rest<'a>(s: &'a str, b: usize) -> (r: &'a str) requires on(s@, b as int) ensures r@ == from(s@, b as int)
{ proof { spot_is(s@, b as int); off_end(s@); let p = spot(s@, b as int); assert(off(s@, p) == b && off(s@, s@.len() as int) == nbytes(s@)); } let r = bslice(s, b, blen(s)); proof { let p = spot(s@, b as int); assert(r@ == s@.subrange(p, s@.len() as int)); assert(r@ =~= s@.skip(p)); } r }
// ---- sections -----------------------------------------------------------------------------------------------------
pub struct Issue { pub k: u64 }
#[verifier::external_body]
fn an_issue() -> Issue { unimplemented!() }
#[verifier::external_body]
fn merge(a: &mut Vec<Issue>, b: Vec<Issue>) { a.extend(b) }
pub enum Failure { Some }
#[verifier::external_body]
fn a_failure() -> Failure { unimplemented!() }
#[verifier::external_body]
fn a_hint() -> Option<String> { unimplemented!() }
pub struct Registry { pub k: u64 }
pub enum SectionResult { Processed, Failed(String), Ignored }
#[verifier::external_body]
fn ask_plugins(name: &str) -> Option<SectionResult> { unimplemented!() }
pub struct Section { pub k: u64 }
#[derive(Clone, Copy)]
pub struct ScriptVersion { pub k: u64 }
pub struct Sec { pub k: int }
pub uninterp spec fn sec(s: Section) -> Sec;
pub type Fmt = Option<Seq<Seq<char>>>;
pub open spec fn fmt_of(f: Option<Vec<&str>>) -> Fmt { match f { Some(v) => Some(Seq::new(v@.len(), |i: int| v@[i]@)), None => None } }
pub struct Parser<'a> { pub source: &'a str, pub position: usize, pub line: usize, pub sections: Vec<Section>, pub issues: Vec<Issue>, pub version: ScriptVersion, pub styles_format: Option<Vec<&'a str>>, pub events_format: Option<Vec<&'a str>>, pub registry: Option<Registry> }
pub struct Script<'a> { pub source: &'a str, pub version: ScriptVersion, pub sections: Vec<Section>, pub issues: Vec<Issue>, pub styles_format: Option<Vec<&'a str>>, pub events_format: Option<Vec<&'a str>> }
impl<'a> Script<'a> {
    fn from_parts(source: &'a str, version: ScriptVersion, sections: Vec<Section>, issues: Vec<Issue>, styles_format: Option<Vec<&'a str>>, events_format: Option<Vec<&'a str>>) -> (r: Self) ensures r.source == source, r.version == version, r.sections == sections, r.styles_format == styles_format, r.events_format == events_format { Script { source, version, sections, issues, styles_format, events_format } }
}
pub open spec fn next_line(s: Seq<char>) -> Seq<char> { if upto(s, '\n') < s.len() { s.skip(upto(s, '\n') + 1) } else { Seq::empty() } }
proof fn next_in(s: Seq<char>) requires s.len() > 0 ensures next_line(s).len() < s.len() { upto_in(s, '\n'); }
/// a section header follows: a bracket, closed on its line
pub open spec fn heads(s: Seq<char>) -> bool { let t = ltrim(s); t.len() > 0 && t[0] == '[' && upto(t.take(upto(t, '\n')), ']') < upto(t, '\n') }
/// past blanks and comments between sections
pub open spec fn settled(s: Seq<char>) -> Seq<char> decreases s.len() {
    let t = ltrim(s);
    if s.len() == 0 { s } else if ((t.len() > 0 && t[0] == ';') || prefixed(t, "!:"@)) && next_line(s).len() < s.len() { settled(next_line(s)) } else if t.len() < s.len() { settled(t) } else { s }
}
proof fn settled_in(s: Seq<char>) ensures settled(s).len() <= s.len(), settled(s).len() > 0 ==> ltrim(settled(s)) == settled(s) decreases s.len() { let t = ltrim(s); gap_is(s); if s.len() > 0 { next_in(s); if (t.len() > 0 && t[0] == ';') || prefixed(t, "!:"@) { settled_in(next_line(s)); } else if t.len() < s.len() { settled_in(t); } else { assert(s.skip(0) =~= s); } } }
/// the lines up to the next section are passed over
pub open spec fn recovered(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 || heads(s) || next_line(s).len() >= s.len() { s } else { recovered(next_line(s)) } }
proof fn recovered_in(s: Seq<char>) ensures recovered(s).len() <= s.len(), recovered(s).len() > 0 ==> heads(recovered(s)), s.len() > 0 && !heads(s) ==> recovered(s).len() < s.len(), recovered(recovered(s)) == recovered(s) decreases s.len() { if s.len() > 0 && !heads(s) { next_in(s); recovered_in(next_line(s)); } }
/// what the lines of such a section say (unit c_rows), and what is left after them
pub uninterp spec fn info_in(s: Seq<char>) -> Sec;
pub uninterp spec fn info_left(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn info_version(s: Seq<char>) -> Option<ScriptVersion>;
#[verifier::external_body]
fn read_info(source: &str, position: usize, line: usize) -> (r: (Section, Option<ScriptVersion>, Vec<Issue>, usize, usize)) requires on(source@, position as int) ensures sec(r.0) == info_in(from(source@, position as int)), on(source@, r.3 as int), from(source@, r.3 as int) == info_left(from(source@, position as int)), info_left(from(source@, position as int)).len() <= from(source@, position as int).len(), r.1 == info_version(from(source@, position as int)) { unimplemented!() }
/// what the lines of such a section say (unit c_rows), and what is left after them
pub uninterp spec fn styles_in(s: Seq<char>) -> Sec;
pub uninterp spec fn styles_left(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn styles_fmt(s: Seq<char>) -> Fmt;
#[verifier::external_body]
fn read_styles<'a>(source: &'a str, position: usize, line: usize) -> (r: (Section, Option<Vec<&'a str>>, Vec<Issue>, usize, usize)) requires on(source@, position as int) ensures sec(r.0) == styles_in(from(source@, position as int)), on(source@, r.3 as int), from(source@, r.3 as int) == styles_left(from(source@, position as int)), styles_left(from(source@, position as int)).len() <= from(source@, position as int).len(), fmt_of(r.1) == styles_fmt(from(source@, position as int)) { unimplemented!() }
/// what the lines of such a section say (unit c_rows), and what is left after them
pub uninterp spec fn events_in(s: Seq<char>) -> Sec;
pub uninterp spec fn events_left(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn events_fmt(s: Seq<char>) -> Fmt;
#[verifier::external_body]
fn read_events<'a>(source: &'a str, position: usize, line: usize) -> (r: (Section, Option<Vec<&'a str>>, Vec<Issue>, usize, usize)) requires on(source@, position as int) ensures sec(r.0) == events_in(from(source@, position as int)), on(source@, r.3 as int), from(source@, r.3 as int) == events_left(from(source@, position as int)), events_left(from(source@, position as int)).len() <= from(source@, position as int).len(), fmt_of(r.1) == events_fmt(from(source@, position as int)) { unimplemented!() }
/// what the lines of such a section say (unit c_rows), and what is left after them
pub uninterp spec fn fonts_in(s: Seq<char>) -> Sec;
pub uninterp spec fn fonts_left(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
fn read_fonts(source: &str, position: usize, line: usize) -> (r: (Section, usize, usize)) requires on(source@, position as int) ensures sec(r.0) == fonts_in(from(source@, position as int)), on(source@, r.1 as int), from(source@, r.1 as int) == fonts_left(from(source@, position as int)), fonts_left(from(source@, position as int)).len() <= from(source@, position as int).len() { unimplemented!() }
/// what the lines of such a section say (unit c_rows), and what is left after them
pub uninterp spec fn graphics_in(s: Seq<char>) -> Sec;
pub uninterp spec fn graphics_left(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
fn read_graphics(source: &str, position: usize, line: usize) -> (r: (Section, usize, usize)) requires on(source@, position as int) ensures sec(r.0) == graphics_in(from(source@, position as int)), on(source@, r.1 as int), from(source@, r.1 as int) == graphics_left(from(source@, position as int)), graphics_left(from(source@, position as int)).len() <= from(source@, position as int).len() { unimplemented!() }
pub struct Doc { pub secs: Seq<Sec>, pub version: ScriptVersion, pub styles: Fmt, pub events: Fmt }
/// what the text with a section header at its front adds, and what is left
pub open spec fn part(s: Seq<char>, d: Doc) -> (Option<Sec>, Doc, Seq<char>) {
    let e = upto(s, ']');
    if s.len() == 0 || s[0] != '[' || e >= s.len() { (None, d, s) } else {
        let name = tight(s.subrange(1, e)); let body = next_line(s.skip(e + 1));
        if name == "Script Info"@ { (Some(info_in(body)), Doc { version: match info_version(body) { Some(v) => v, None => d.version }, ..d }, info_left(body)) }
        else if name == "V4+ Styles"@ || name == "V4 Styles"@ || name == "V4++ Styles"@ { (Some(styles_in(body)), Doc { styles: styles_fmt(body), ..d }, styles_left(body)) }
        else if name == "Events"@ { (Some(events_in(body)), Doc { events: events_fmt(body), ..d }, events_left(body)) }
        else if name == "Fonts"@ { (Some(fonts_in(body)), d, fonts_left(body)) }
        else if name == "Graphics"@ { (Some(graphics_in(body)), d, graphics_left(body)) }
        else { (None, d, recovered(body)) }
    }
}
/// the sections of a text, in order; what is no section is passed over up to the next header
pub open spec fn document(s: Seq<char>, d: Doc) -> Doc decreases s.len() {
    let t = settled(s);
    if s.len() == 0 || t.len() == 0 { d } else {
        let p = part(t, d);
        match p.0 {
            Some(x) => if p.2.len() < s.len() { document(p.2, Doc { secs: d.secs.push(x), ..p.1 }) } else { d },
            None => { let r = recovered(p.2); if r.len() < s.len() { document(r, d) } else { d } }
        }
    }
}
pub open spec fn doc(p: Parser) -> Doc { Doc { secs: p.sections@.map_values(|x: Section| sec(x)), version: p.version, styles: fmt_of(p.styles_format), events: fmt_of(p.events_format) } }
pub open spec fn left(p: Parser) -> Seq<char> { from(p.source@, p.position as int) }
impl<'a> Parser<'a> {
    pub open spec fn wf(self) -> bool { on(self.source@, self.position as int) && nbytes(self.source@) <= usize::MAX }
    pub open spec fn stood(self) -> bool { self.position <= nbytes(self.source@) && ((self.position == nbytes(self.source@)) == (left(self).len() == 0)) }
    /// everything but the place and the line is as before
    pub open spec fn same_but_place(self, o: Self) -> bool { self.source == o.source && self.sections == o.sections && self.version == o.version && self.styles_format == o.styles_format && self.events_format == o.events_format && self.registry == o.registry }
//@@ fn crates/ass-core/parser/main/helpers.rs Parser::at_next_section
//@ret r
//@re self\.source\[self\.position\.\.\]\.trim_start\(\) => ltrimmed(rest(self.source, self.position))
//@re remaining\.starts_with\('\['\) => begins(remaining, '[')
//@re (?s)remaining\.find\('\\n'\)\.map_or_else\(\s*\|\| remaining\.contains\('\]'\),\s*\|line_end\| remaining\[\.\.line_end\]\.contains\('\]'\),\s*\) => match find_char(remaining, '\\n') { None => { proof { upto_in(remaining@, '\\n'); assert(remaining@.take(upto(remaining@, '\\n')) =~= remaining@); } holds(remaining, ']') } Some(line_end) => { proof { upto_in(remaining@, '\\n'); off_zero(remaining@); let k = upto(remaining@, '\\n'); assert(off(remaining@, 0) == 0 && off(remaining@, k) == line_end); assert(remaining@.subrange(0, k) =~= remaining@.take(k)); } holds(bslice(remaining, 0, line_end), ']') } }
//@spec
    requires self.wf()
    ensures r == heads(left(*self))
//@@ end
//@@ fn crates/ass-core/parser/main/helpers.rs Parser::skip_line
//@re self\.source\[self\.position\.\.\]\.find\('\\n'\) => find_char(rest(self.source, self.position), '\\n')
//@re self\.line \+= 1 => bump(&mut self.line, 1)
//@re-all self\.source\.len\(\) => blen(self.source)
//@start
    proof { let s = self.source@; let b = self.position as int; let l = from(s, b); let k = upto(l, '\n'); upto_in(l, '\n'); spot_is(s, b); if k < l.len() { ahead(s, b, k); ahead(s, b, k + 1); off_step(l, k); } ahead(s, b, l.len() as int); off_end(s); assert(off(s, s.len() as int) == nbytes(s)); spot_is(s, nbytes(s)); assert(from(s, nbytes(s)) =~= Seq::<char>::empty()); }
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).same_but_place(*old(self)), left(*final(self)) == next_line(left(*old(self)))
//@@ end
//@@ fn crates/ass-core/parser/main/helpers.rs Parser::skip_whitespace_and_comments
//@re-all self\.source\.len\(\) => blen(self.source)
//@re &self\.source\[self\.position\.\.\] => rest(self.source, self.position)
//@re remaining\.trim_start\(\) => ltrimmed(remaining)
//@re trimmed\.starts_with\(';'\) => begins(trimmed, ';')
//@re trimmed\.starts_with\("!:"\) => leads(trimmed, "!:")
//@re trimmed != remaining => !same(trimmed, remaining)
//@re &remaining\[\.\.remaining\.len\(\) - trimmed\.len\(\)\] => bslice(remaining, 0, blen(remaining) - blen(trimmed))
//@re self\.line \+= skipped\.matches\('\\n'\)\.count\(\) => bump(&mut self.line, breaks(skipped))
//@re self\.position \+= skipped\.len\(\) => self.position += blen(skipped)
//@before "let skipped"
    proof { let l = remaining@; let g = gap(l); gap_is(l); split_at(l, g); off_end(l); off_zero(l); assert(nbytes(trimmed@) == nbytes(l) - off(l, g)) by { off_skip(l, g, l.len() - g); off_end(l.skip(g)); } assert(off(l, 0) == 0 && off(l, g) == blen_of(remaining@) - blen_of(trimmed@)); assert(l.subrange(0, g) =~= l.take(g)); ahead(self.source@, self.position as int, g); }
//@loop 0
    invariant_except_break settled(left(*self)) == settled(left(*old(self))),
    invariant self.wf(), self.stood(), self.same_but_place(*old(self)),
    ensures left(*self) == settled(left(*old(self))),
    decreases left(*self).len()
//@loopstart 0
    broadcast use stands;
    proof { spot_is(self.source@, self.position as int); gap_is(left(*self)); next_in(left(*self)); }
//@start
    broadcast use stands;
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).same_but_place(*old(self)), left(*final(self)) == settled(left(*old(self)))
//@@ end
//@@ fn crates/ass-core/parser/main/helpers.rs Parser::skip_to_next_section
//@ret r
//@re let mut suggestion = None => let mut suggestion: Option<String> = None
//@re (?s)let line_start = self\.position;.*?(?=self\.skip_line\(\);) => suggestion = a_hint();
//@re self\.position = \(self\.position \+ 1\)\.min\(self\.source\.len\(\)\) => stuck(self)
//@re-all self\.source\.len\(\) => blen(self.source)
//@loop 0
    invariant_except_break recovered(left(*self)) == recovered(left(*old(self))), self.position == start_position || left(*self).len() < left(*old(self)).len(),
    invariant self.wf(), self.stood(), self.same_but_place(*old(self)), start_position == old(self).position, old(self).wf(),
    ensures left(*self) == recovered(left(*old(self))),
    decreases left(*self).len()
//@loopstart 0
    broadcast use stands;
    let ghost l0 = left(*self); proof { spot_is(self.source@, self.position as int); next_in(l0); }
//@start
    broadcast use stands;
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).same_but_place(*old(self)), left(*final(self)) == recovered(left(*old(self)))
//@@ end
//@@ fn crates/ass-core/parser/main/registry.rs Parser::try_process_with_registry
//@ret r
//@sig-re Result<Section<'a>> => core::result::Result<Section, Failure>
//@re let registry = self\.registry\?; => if self.registry.is_none() { return None; }
//@re let mut lines = Vec::new\(\); =>
//@re-all self\.source\.len\(\) => blen(self.source)
//@re (?s)let line_start = self\.position;.*?(?=self\.skip_line\(\);) =>
//@re registry\.process_section\(section_name, section_name, &lines\) => ask_plugins(section_name)
//@re-all (?s)self\.issues\.push\(ParseIssue::new\(.*?start_line,\s*\)\); => self.issues.push(an_issue());
//@loop 0
    invariant recovered(left(*self)) == recovered(left(*old(self))), self.wf(), self.stood(), self.same_but_place(*old(self)), old(self).registry is Some,
    decreases left(*self).len()
//@loopstart 0
    broadcast use stands;
    proof { spot_is(self.source@, self.position as int); next_in(left(*self)); }
//@start
    broadcast use stands;
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).same_but_place(*old(self)), r is None, old(self).registry is Some ==> left(*final(self)) == recovered(left(*old(self))), old(self).registry is None ==> left(*final(self)) == left(*old(self))
//@@ end
//@@ fn crates/ass-core/parser/main/section.rs Parser::parse_section
//@ret r
//@sig-re Result<Section<'a>> => core::result::Result<Section, Failure>
//@re self\.source\[self\.position\.\.\]\.starts_with\('\['\) => begins(rest(self.source, self.position), '[')
//@re (?s)return Err\(CoreError::from\(ParseError::ExpectedSectionHeader \{.*?\}\)\) => return Err(a_failure())
//@re (?s)self\.source\[self\.position\.\.\]\.find\('\]'\)\.ok_or_else\(\|\| \{.*?\}\)\s*\}\)\? \+ self\.position => match find_char(rest(self.source, self.position), ']') { Some(i) => i, None => { return Err(a_failure()); } } + self.position
//@re &self\.source\[self\.position \+ 1\.\.header_end\] => bslice(self.source, self.position + 1, header_end)
//@re self\.line \+= section_name\.matches\('\\n'\)\.count\(\) => bump(&mut self.line, breaks(section_name))
//@strmatch section_name.trim()
//@re section_name\.trim\(\) => trimmed(section_name)
//@re let parser = ScriptInfoParser::new\(self\.source, self\.position, start_line\); =>
//@re (?s)(let \(section, detected_version, issues, final_position, final_line\) =\s*)parser\.parse\(\)\.map_err\(CoreError::from\)\? => \1read_info(self.source, self.position, start_line)
//@re (?s)let parser = StylesParser::new\(self\.source, self\.position, start_line\);\s*(let \(section, format, issues, final_position, final_line\) =\s*)parser\.parse\(\)\.map_err\(CoreError::from\)\? => \1read_styles(self.source, self.position, start_line)
//@re (?s)let parser = EventsParser::new\(self\.source, self\.position, start_line\);\s*(let \(section, format, issues, final_position, final_line\) =\s*)parser\.parse\(\)\.map_err\(CoreError::from\)\? => \1read_events(self.source, self.position, start_line)
//@re FontsParser::parse\( => read_fonts(
//@re GraphicsParser::parse\( => read_graphics(
//@re-all self\.issues\.extend\(issues\) => merge(&mut self.issues, issues)
//@re (?s)let error = ParseError::UnknownSection \{.*?\n                \}; =>
//@re (?s)self\.issues\.push\(ParseIssue \{.*?\}\); => self.issues.push(an_issue());
//@re Err\(CoreError::from\(error\)\) => Err(a_failure())
//@before "let header_end"
    let ghost p0 = self.position as int; let ghost s = self.source@; let ghost l = left(*self); let ghost e = upto(l, ']'); proof { name_spot(s, p0); }
//@after "let section_name"
    proof { let p = spot(s, p0); assert(section_name@ == s.subrange(p + 1, p + e)); assert(section_name@ =~= l.subrange(1, e)); }
//@before "let start_line"
    let ghost body = left(*self); proof { assert(body == next_line(l.skip(e + 1))); recovered_in(body); assert(doc(*self) == doc(*old(self))); }
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).source == old(self).source, final(self).sections == old(self).sections,
        ({ let p = part(left(*old(self)), doc(*old(self))); left(*final(self)) == p.2 && doc(*final(self)) == p.1 && match r { Ok(x) => p.0 == Some(sec(x)), Err(_) => p.0 is None } })
//@@ end
//@@ fn crates/ass-core/parser/main/parse.rs Parser::parse
//@ret r
//@sig-re mut self => self
//@re-all self\. => this.
//@re (?s)if let Err\(e\) = check_input_size_limit\(this\.source\.len\(\), MAX_INPUT_SIZE\) \{ => let mut this = self; if oversized(this.source) {
//@re (?s)if let Err\(e\) = validate_bom_handling\(this\.source\.as_bytes\(\)\) \{ => if bad_mark(this.source) {
//@re-all (?s)this\.issues\.push\(ParseIssue::new\(.*?this\.line,\s*\)\); => this.issues.push(an_issue());
//@re this\.source\.starts_with\('\\u\{FEFF\}'\) => begins(this.source, '\\u{FEFF}')
//@re-all this\.source\.len\(\) => blen(this.source)
//@re (?s)let \(severity, message\) = if .*?\n                    \}; =>
//@re this\.skip_to_next_section\(\) => let _ = this.skip_to_next_section()
//@loop 0
    invariant_except_break document(left(this), doc(this)) == document(l0, d0),
    invariant this.wf(), this.stood(), this.source == self.source,
    ensures doc(this) == document(l0, d0),
    decreases left(this).len()
//@before "while"
    let ghost l0 = start(this.source@); let ghost d0 = doc(this); proof { let s = this.source@; off_zero(s); if s.len() > 0 && s[0] == '\u{FEFF}' { off_step(s, 0); mark_is_three(); assert(this.position == 3); assert(off(s, 1) == 3); assert(on(s, 3)); spot_is(s, 3); off_inj(s, spot(s, 3), 1); } else { assert(this.position == 0); assert(off(s, 0) == 0); assert(on(s, 0)); spot_is(s, 0); off_inj(s, spot(s, 0), 0); assert(s.skip(0) =~= s); } assert(left(this) =~= l0); }
//@loopstart 0
    broadcast use stands;
    let ghost l1 = left(this); let ghost d1 = doc(this); proof { spot_is(this.source@, this.position as int); settled_in(l1); let t = settled(l1); let p = part(t, d1); part_shrinks(t, d1); recovered_in(p.2); }
//@after "this.skip_whitespace_and_comments();"
    proof { spot_is(this.source@, this.position as int); }
//@loopend 0
    proof { spot_is(this.source@, this.position as int); assert(doc(this).secs =~= d1.secs || doc(this).secs =~= d1.secs.push(part(settled(l1), d1).0->Some_0)); }
//@start
    broadcast use stands;
//@spec
    requires self.position == 0, nbytes(self.source@) <= usize::MAX, self.sections@.len() == 0
    ensures r.source == self.source, !too_long(self.source@) ==> ({ let d = document(start(self.source@), doc(self)); r.sections@.map_values(|x: Section| sec(x)) == d.secs && r.version == d.version && fmt_of(r.styles_format) == d.styles && fmt_of(r.events_format) == d.events })
//@@ end
}
/// past a byte-order mark
pub open spec fn start(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s[0] == '\u{FEFF}' { s.skip(1) } else { s } }
proof fn mark_is_three() ensures w('\u{FEFF}') == 3 { reveal(encode_scalar); }
pub uninterp spec fn too_long(s: Seq<char>) -> bool;
#[verifier::external_body]
fn oversized(s: &str) -> (r: bool) ensures r == too_long(s@) { unimplemented!() }
#[verifier::external_body]
fn bad_mark(s: &str) -> bool { unimplemented!() }
pub open spec fn blen_of(s: Seq<char>) -> int { nbytes(s) }
#[verifier::external_body]
fn stuck(p: &mut Parser) requires false { unimplemented!() }
#[verifier::external_body]
proof fn readers_shrink(s: Seq<char>) ensures info_left(s).len() <= s.len(), styles_left(s).len() <= s.len(), events_left(s).len() <= s.len(), fonts_left(s).len() <= s.len(), graphics_left(s).len() <= s.len() {}
proof fn part_shrinks(t: Seq<char>, d: Doc) requires t.len() > 0 ==> ltrim(t) == t ensures part(t, d).0 is Some ==> part(t, d).2.len() < t.len(), part(t, d).0 is None && t.len() > 0 ==> recovered(part(t, d).2).len() < t.len()
{
    let e = upto(t, ']'); upto_in(t, ']'); recovered_in(t); recovered_in(part(t, d).2);
    if t.len() == 0 {} else if t[0] != '[' { } else if e >= t.len() { let k = upto(t, '\n'); upto_in(t, '\n'); no_char(t, ']', k); }
    else { let u = t.skip(e + 1); let body = next_line(u); upto_in(u, '\n'); assert(body.len() <= u.len()); readers_shrink(body); recovered_in(body); }
}
/// what is nowhere in a text is not in its front either
proof fn no_char(t: Seq<char>, c: char, k: int) requires upto(t, c) >= t.len(), 0 <= k <= t.len() ensures upto(t.take(k), c) >= k decreases t.len()
{ if t.len() > 0 && k > 0 { assert(t.take(k).skip(1) =~= t.skip(1).take(k - 1)); no_char(t.skip(1), c, k - 1); } }
fn main() {}
}
