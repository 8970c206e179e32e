use vstd::prelude::*;
use vstd::string::*;
extern crate alloc;
verus! {
//@@ struct crates/ass-core/parser/ast/span.rs Span derive(Clone, Copy)
//@@ struct crates/ass-core/parser/ast/event/event_type.rs EventType derive(Clone, Copy)
//@@ struct crates/ass-core/parser/ast/event/event_struct.rs Event
//@@ struct crates/ass-core/parser/ast/style/definition.rs Style
pub enum ParseError { InvalidEventType { line: usize }, InsufficientFields { expected: usize, found: usize, line: usize } }
impl Span { #[verifier::external_body] pub fn new(a: usize, b: usize, c: u32, d: u32) -> Span { unimplemented!() } }
// ---- text ---------------------------------------------------------------------------------------------------------
pub uninterp spec fn ws(c: char) -> bool;
/// which characters of an entry's own punctuation are white space
pub open spec fn plain() -> bool { ws(' ') && !ws(',') && !ws('*') }
#[verifier::external_body]
pub proof fn plain_is() ensures plain() {}
pub open spec fn ltrim(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && ws(s[0]) { ltrim(s.skip(1)) } else { s } }
pub open spec fn rtrim(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && ws(s.last()) { rtrim(s.drop_last()) } else { s } }
pub open spec fn tight(s: Seq<char>) -> Seq<char> { rtrim(ltrim(s)) }
#[verifier::external_body]
fn trimmed(s: &str) -> (r: &str) ensures r@ == tight(s@) { s.trim() }
#[verifier::external_body]
fn ltrimmed(s: &str) -> (r: &str) ensures r@ == ltrim(s@) { s.trim_start() }
pub open spec fn low1(c: char) -> char { if 65 <= c as u32 <= 90 { ((c as u8) + 32) as u8 as char } else { c } }
pub open spec fn low(s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |i: int| low1(s[i])) }
#[verifier::external_body]
fn lowered(s: &str) -> (r: String) ensures r@ == low(s@) { s.to_ascii_lowercase() }
#[verifier::external_body]
fn alike(a: &str, b: &str) -> (r: bool) ensures r == (low(a@) == low(b@)) { a.eq_ignore_ascii_case(b) }
pub open spec fn prefixed(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
#[verifier::external_body]
fn strip<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>) ensures match r { Some(x) => prefixed(s@, p@) && x@ == s@.skip(p@.len() as int), None => !prefixed(s@, p@) } { s.strip_prefix(p) }
pub open spec fn texts(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
/// the first comma, or the end
pub open spec fn comma(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 || s[0] == ',' { 0 } else { 1 + comma(s.skip(1)) } }
/// at most n pieces between commas
pub open spec fn cut(s: Seq<char>, n: int) -> Seq<Seq<char>> decreases n { if n <= 0 { Seq::empty() } else if n == 1 || comma(s) >= s.len() { seq![s] } else { seq![s.take(comma(s))] + cut(s.skip(comma(s) + 1), n - 1) } }
#[verifier::external_body]
fn pieces<'a>(s: &'a str, n: usize) -> (r: Vec<&'a str>) ensures texts(r@) == cut(s@, n as int) { s.splitn(n, ',').collect() }
#[verifier::external_body]
fn all_pieces<'a>(s: &'a str) -> (r: Vec<&'a str>) ensures texts(r@) == cut(s@, s@.len() as int + 1) { s.split(',').collect() }
pub open spec fn joined(v: Seq<Seq<char>>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { v[0] + seq![','] + joined(v.skip(1)) } }
#[verifier::external_body]
fn join(v: &Vec<&str>) -> (r: String) ensures r@ == joined(texts(v@)) { v.join(",") }
pub open spec fn comma_free(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != ',' }
proof fn comma_of(a: Seq<char>, b: Seq<char>) requires comma_free(a) ensures comma(a + seq![','] + b) == a.len(), comma(a) == a.len() decreases a.len()
{ let s = a + seq![','] + b; if a.len() > 0 { assert(s[0] == a[0]); assert(s.skip(1) =~= a.skip(1) + seq![','] + b); comma_of(a.skip(1), b); } else { assert(s[0] == ','); } }
/// cutting what was joined gives the pieces back: only the last may contain commas if the count is known, none otherwise
proof fn cut_joined(v: Seq<Seq<char>>, n: int)
    requires v.len() > 0, n >= v.len(), forall|i: int| 0 <= i < v.len() - 1 ==> comma_free(#[trigger] v[i]), n == v.len() || comma_free(v.last())
    ensures cut(joined(v), n) == v
    decreases v.len()
{
    if v.len() == 1 { assert(v =~= seq![v[0]]); if n > 1 { comma_of(v[0], Seq::empty()); } }
    else {
        let r = v.skip(1); let s = joined(v);
        assert(comma_free(v[0])); comma_of(v[0], joined(r));
        assert forall|i: int| 0 <= i < r.len() - 1 implies comma_free(#[trigger] r[i]) by { assert(comma_free(v[i + 1])); }
        cut_joined(r, n - 1);
        assert(s.take(v[0].len() as int) =~= v[0]); assert(s.skip(v[0].len() as int + 1) =~= joined(r)); assert(seq![v[0]] + r =~= v);
    }
}
/// neither end is white space
pub open spec fn firm(s: Seq<char>) -> bool { s.len() == 0 || (!ws(s[0]) && !ws(s.last())) }
proof fn firm_joined(v: Seq<Seq<char>>) requires plain(), forall|i: int| 0 <= i < v.len() ==> firm(#[trigger] v[i]) ensures firm(joined(v)), v.len() > 1 ==> joined(v).len() > 0 decreases v.len()
{ if v.len() == 1 { assert(firm(v[0])); } if v.len() > 1 { let r = v.skip(1); assert forall|i: int| 0 <= i < r.len() implies firm(#[trigger] r[i]) by { assert(firm(v[i + 1])); } firm_joined(r); assert(firm(v[0])); let s = joined(v); assert(s[0] == if v[0].len() > 0 { v[0][0] } else { ',' }); assert(s.last() == if joined(r).len() > 0 { joined(r).last() } else { ',' }); } }
proof fn tight_firm(s: Seq<char>) requires firm(s) ensures tight(s) == s, plain() ==> tight(seq![' '] + s) == s {
    if plain() { let t = seq![' '] + s; assert(t[0] == ' '); assert(t.skip(1) =~= s); assert(ltrim(t) == ltrim(s)); }
}
// ---- the format of a section --------------------------------------------------------------------------------------
/// the first column of that name
pub open spec fn column(fmt: Seq<Seq<char>>, name: Seq<char>, i: int) -> int decreases fmt.len() - i { if i < 0 || i >= fmt.len() { fmt.len() as int } else if low(fmt[i]) == low(name) { i } else { column(fmt, name, i + 1) } }
pub open spec fn has_column(fmt: Seq<Seq<char>>, name: Seq<char>) -> bool { column(fmt, name, 0) < fmt.len() }
proof fn column_is(fmt: Seq<Seq<char>>, name: Seq<char>, i: int) requires 0 <= i <= fmt.len() ensures i <= column(fmt, name, i) <= fmt.len(), column(fmt, name, i) < fmt.len() ==> low(fmt[column(fmt, name, i)]) == low(name) decreases fmt.len() - i { if i < fmt.len() && low(fmt[i]) != low(name) { column_is(fmt, name, i + 1); } }
/// what the columns say under that name
pub open spec fn cell(fmt: Seq<Seq<char>>, parts: Seq<Seq<char>>, name: Seq<char>) -> Seq<char> { let i = column(fmt, name, 0); if i < fmt.len() && i < parts.len() { tight(parts[i]) } else { Seq::empty() } }
pub open spec fn opt_cell(fmt: Seq<Seq<char>>, parts: Seq<Seq<char>>, name: Seq<char>) -> Option<Seq<char>> { if has_column(fmt, name) { Some(cell(fmt, parts, name)) } else { None } }
/// `iter().position(..)` for a column name
fn column_of(format: &[&str], name: &str) -> (r: usize) ensures r == column(texts(format@), name@, 0)
{
    let mut i: usize = 0;
    while i < format.len() invariant i <= format@.len(), column(texts(format@), name@, 0) == column(texts(format@), name@, i as int), decreases format@.len() - i
    { proof { assert(texts(format@)[i as int] == format@[i as int]@); } if alike(format[i], name) { return i; } i += 1; }
    i
}
fn get_field<'a>(format: &[&str], parts: &Vec<&'a str>, name: &str) -> (r: &'a str) ensures r@ == cell(texts(format@), texts(parts@), name@)
{ let i = column_of(format, name); proof { column_is(texts(format@), name@, 0); reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); } if i < format.len() && i < parts.len() { trimmed(parts[i]) } else { "" } }
fn named(format: &[&str], name: &str) -> (r: bool) ensures r == has_column(texts(format@), name@)
{ let i = column_of(format, name); proof { column_is(texts(format@), name@, 0); } i < format.len() }
fn opt_field<'a>(there: bool, v: &'a str) -> (r: Option<&'a str>) ensures r == (if there { Some(v) } else { None::<&'a str> }) { if there { Some(v) } else { None } }
pub open spec fn seen(x: Option<&str>) -> Option<Seq<char>> { match x { Some(s) => Some(s@), None => None } }
pub open spec fn or_nil(x: Option<Seq<char>>) -> Seq<char> { match x { Some(s) => s, None => seq!['0'] } }
#[verifier::external_body]
fn or<'a>(x: Option<&'a str>, d: &'a str) -> (r: &'a str) ensures r@ == (match x { Some(s) => s@, None => d@ }) { x.unwrap_or(d) }

pub open spec fn event_columns() -> Seq<Seq<char>> { seq!["Layer"@, "Start"@, "End"@, "Style"@, "Name"@, "MarginL"@, "MarginR"@, "MarginV"@, "Effect"@, "Text"@] }
pub open spec fn style_columns() -> Seq<Seq<char>> { seq!["Name"@, "Fontname"@, "Fontsize"@, "PrimaryColour"@, "SecondaryColour"@, "OutlineColour"@, "BackColour"@, "Bold"@, "Italic"@, "Underline"@, "StrikeOut"@, "ScaleX"@, "ScaleY"@, "Spacing"@, "Angle"@, "BorderStyle"@, "Outline"@, "Shadow"@, "Alignment"@, "MarginL"@, "MarginR"@, "MarginV"@, "Encoding"@] }
// ---- events: the fields of one, what it says in a column, and reading it back ---------------------------------------
pub struct Ev { pub kind: EventType, pub layer: Seq<char>, pub start: Seq<char>, pub end: Seq<char>, pub style: Seq<char>, pub name: Seq<char>, pub margin_l: Seq<char>, pub margin_r: Seq<char>, pub margin_v: Seq<char>, pub effect: Seq<char>, pub text: Seq<char>, pub margin_t: Option<Seq<char>>, pub margin_b: Option<Seq<char>> }
pub open spec fn ev(e: Event) -> Ev { Ev { kind: e.event_type, layer: e.layer@, start: e.start@, end: e.end@, style: e.style@, name: e.name@, margin_l: e.margin_l@, margin_r: e.margin_r@, margin_v: e.margin_v@, effect: e.effect@, text: e.text@, margin_t: seen(e.margin_t), margin_b: seen(e.margin_b) } }
pub struct Sty { pub parent: Option<Seq<char>>, pub name: Seq<char>, pub fontname: Seq<char>, pub fontsize: Seq<char>, pub primary_colour: Seq<char>, pub secondary_colour: Seq<char>, pub outline_colour: Seq<char>, pub back_colour: Seq<char>, pub bold: Seq<char>, pub italic: Seq<char>, pub underline: Seq<char>, pub strikeout: Seq<char>, pub scale_x: Seq<char>, pub scale_y: Seq<char>, pub spacing: Seq<char>, pub angle: Seq<char>, pub border_style: Seq<char>, pub outline: Seq<char>, pub shadow: Seq<char>, pub alignment: Seq<char>, pub margin_l: Seq<char>, pub margin_r: Seq<char>, pub margin_v: Seq<char>, pub encoding: Seq<char>, pub margin_t: Option<Seq<char>>, pub margin_b: Option<Seq<char>>, pub relative_to: Option<Seq<char>> }
pub open spec fn sty(e: Style) -> Sty { Sty { parent: seen(e.parent), name: e.name@, fontname: e.fontname@, fontsize: e.fontsize@, primary_colour: e.primary_colour@, secondary_colour: e.secondary_colour@, outline_colour: e.outline_colour@, back_colour: e.back_colour@, bold: e.bold@, italic: e.italic@, underline: e.underline@, strikeout: e.strikeout@, scale_x: e.scale_x@, scale_y: e.scale_y@, spacing: e.spacing@, angle: e.angle@, border_style: e.border_style@, outline: e.outline@, shadow: e.shadow@, alignment: e.alignment@, margin_l: e.margin_l@, margin_r: e.margin_r@, margin_v: e.margin_v@, encoding: e.encoding@, margin_t: seen(e.margin_t), margin_b: seen(e.margin_b), relative_to: seen(e.relative_to) } }
/// what is written in the column of that name
pub open spec fn ev_val(e: Ev, name: Seq<char>) -> Seq<char> { let n = low(name); if n == "layer"@ { e.layer } else if n == "start"@ { e.start } else if n == "end"@ { e.end } else if n == "style"@ { e.style } else if n == "name"@ || n == "actor"@ { e.name } else if n == "marginl"@ { e.margin_l } else if n == "marginr"@ { e.margin_r } else if n == "marginv"@ { e.margin_v } else if n == "effect"@ { e.effect } else if n == "text"@ { e.text } else if n == "margint"@ { or_nil(e.margin_t) } else if n == "marginb"@ { or_nil(e.margin_b) } else { Seq::empty() } }
pub open spec fn sty_val(e: Sty, name: Seq<char>) -> Seq<char> { let n = low(name); if n == "name"@ { e.name } else if n == "fontname"@ { e.fontname } else if n == "fontsize"@ { e.fontsize } else if n == "primarycolour"@ { e.primary_colour } else if n == "secondarycolour"@ { e.secondary_colour } else if n == "outlinecolour"@ || n == "tertiarycolour"@ { e.outline_colour } else if n == "backcolour"@ { e.back_colour } else if n == "bold"@ { e.bold } else if n == "italic"@ { e.italic } else if n == "underline"@ { e.underline } else if n == "strikeout"@ { e.strikeout } else if n == "scalex"@ { e.scale_x } else if n == "scaley"@ { e.scale_y } else if n == "spacing"@ { e.spacing } else if n == "angle"@ { e.angle } else if n == "borderstyle"@ { e.border_style } else if n == "outline"@ { e.outline } else if n == "shadow"@ { e.shadow } else if n == "alignment"@ { e.alignment } else if n == "marginl"@ { e.margin_l } else if n == "marginr"@ { e.margin_r } else if n == "marginv"@ { e.margin_v } else if n == "encoding"@ { e.encoding } else if n == "margint"@ { or_nil(e.margin_t) } else if n == "marginb"@ { or_nil(e.margin_b) } else if n == "relativeto"@ { or_nil(e.relative_to) } else { Seq::empty() } }
pub open spec fn ev_cells(e: Ev, fmt: Seq<Seq<char>>) -> Seq<Seq<char>> { Seq::new(fmt.len(), |i: int| ev_val(e, fmt[i])) }
pub open spec fn sty_cells(e: Sty, fmt: Seq<Seq<char>>) -> Seq<Seq<char>> { Seq::new(fmt.len(), |i: int| sty_val(e, fmt[i])) }
pub open spec fn ev_read(kind: EventType, fmt: Seq<Seq<char>>, p: Seq<Seq<char>>) -> Ev { Ev { kind: kind, layer: cell(fmt, p, "Layer"@), start: cell(fmt, p, "Start"@), end: cell(fmt, p, "End"@), style: cell(fmt, p, "Style"@), name: cell(fmt, p, "Name"@), margin_l: cell(fmt, p, "MarginL"@), margin_r: cell(fmt, p, "MarginR"@), margin_v: cell(fmt, p, "MarginV"@), effect: cell(fmt, p, "Effect"@), text: cell(fmt, p, "Text"@), margin_t: opt_cell(fmt, p, "MarginT"@), margin_b: opt_cell(fmt, p, "MarginB"@) } }
pub open spec fn sty_read(parent: Option<Seq<char>>, fmt: Seq<Seq<char>>, p: Seq<Seq<char>>) -> Sty { Sty { parent: parent, name: cell(fmt, p, "Name"@), fontname: cell(fmt, p, "Fontname"@), fontsize: cell(fmt, p, "Fontsize"@), primary_colour: cell(fmt, p, "PrimaryColour"@), secondary_colour: cell(fmt, p, "SecondaryColour"@), outline_colour: cell(fmt, p, "OutlineColour"@), back_colour: cell(fmt, p, "BackColour"@), bold: cell(fmt, p, "Bold"@), italic: cell(fmt, p, "Italic"@), underline: cell(fmt, p, "Underline"@), strikeout: cell(fmt, p, "StrikeOut"@), scale_x: cell(fmt, p, "ScaleX"@), scale_y: cell(fmt, p, "ScaleY"@), spacing: cell(fmt, p, "Spacing"@), angle: cell(fmt, p, "Angle"@), border_style: cell(fmt, p, "BorderStyle"@), outline: cell(fmt, p, "Outline"@), shadow: cell(fmt, p, "Shadow"@), alignment: cell(fmt, p, "Alignment"@), margin_l: cell(fmt, p, "MarginL"@), margin_r: cell(fmt, p, "MarginR"@), margin_v: cell(fmt, p, "MarginV"@), encoding: cell(fmt, p, "Encoding"@), margin_t: opt_cell(fmt, p, "MarginT"@), margin_b: opt_cell(fmt, p, "MarginB"@), relative_to: opt_cell(fmt, p, "RelativeTo"@) } }
pub open spec fn kind_name(k: EventType) -> Seq<char> { match k { EventType::Dialogue => "Dialogue"@, EventType::Comment => "Comment"@, EventType::Picture => "Picture"@, EventType::Sound => "Sound"@, EventType::Movie => "Movie"@, EventType::Command => "Command"@ } }
/// the kind a line names, and what follows the colon
pub open spec fn kind_of(s: Seq<char>) -> Option<(EventType, Seq<char>)> { if prefixed(s, "Dialogue:"@) { Some((EventType::Dialogue, s.skip(9))) } else if prefixed(s, "Comment:"@) { Some((EventType::Comment, s.skip(8))) } else if prefixed(s, "Picture:"@) { Some((EventType::Picture, s.skip(8))) } else if prefixed(s, "Sound:"@) { Some((EventType::Sound, s.skip(6))) } else if prefixed(s, "Movie:"@) { Some((EventType::Movie, s.skip(6))) } else if prefixed(s, "Command:"@) { Some((EventType::Command, s.skip(8))) } else { None } }
/// the pieces of the data of an event line: the text, if there is a column for it, keeps its commas
pub open spec fn ev_cut(data: Seq<char>, fmt: Seq<Seq<char>>) -> Seq<Seq<char>> { if has_column(fmt, "Text"@) { cut(data, fmt.len() as int) } else { cut(data, 10) } }
pub open spec fn ev_data(kind: EventType, data: Seq<char>, format: Seq<Seq<char>>) -> Option<Ev> { let fmt = if format.len() == 0 { event_columns() } else { format }; let p = ev_cut(data, fmt); if p.len() < fmt.len() { None } else { Some(ev_read(kind, fmt, p)) } }
/// what an event line says
pub open spec fn ev_of(line: Seq<char>, fmt: Seq<Seq<char>>) -> Option<Ev> { match kind_of(line) { None => None, Some(x) => ev_data(x.0, tight(x.1), fmt) } }
pub open spec fn ev_line(e: Ev, fmt: Seq<Seq<char>>) -> Seq<char> { kind_name(e.kind) + seq![':', ' '] + joined(ev_cells(e, fmt)) }
#[verifier::external_body]
fn labelled(k: &str, v: String) -> (r: String) ensures r@ == k@ + seq![':', ' '] + v@ { format!("{}: {}", k, v) }
impl EventType {
//@@ fn crates/ass-core/parser/ast/event/event_type.rs EventType::as_str
//@ret r
//@spec
    requires true
    ensures r@ == kind_name(self)
//@@ end
}

impl Event<'_> {
//@@ fn crates/ass-core/parser/ast/event/serialization.rs Event::to_ass_string_with_format
//@ret r
//@re (?s)for field in format \{\s*let value = match field\.to_ascii_lowercase\(\)\.as_str\(\) \{ => let mut at: usize = 0;\n while at < format.len() {\n let field = format[at]; let lower = lowered(field); let column = lower.as_str(); at += 1;\n let value = match column {
//@re-all self\.(\w+)\.unwrap_or\("0"\) => or(self.\1, "0")
//@strmatch column
//@re Vec::with_capacity\(format\.len\(\)\) => Vec::<&str>::new()
//@re (?s)format!\("\{event_type_str\}: \{\}", field_values\.join\(","\)\) => proof { assert(texts(field_values@) =~= ev_cells(ev(*self), texts(format@))); } labelled(event_type_str, join(&field_values))
//@spec
    requires true
    ensures r@ == ev_line(ev(*self), texts(format@))
//@start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); reveal_strlit("0"); assert("0"@ =~= seq!['0']); }
//@loop 0
    invariant at <= format@.len(), field_values@.len() == at, ""@ == Seq::<char>::empty(), "0"@ == seq!['0'], forall|i: int| 0 <= i < at ==> (#[trigger] field_values@[i])@ == ev_val(ev(*self), format@[i]@),
    decreases format@.len() - at
//@loopend 0
    proof { names_of_ev(); assert(lower@ == low(field@)); assert(seen(self.margin_t) == ev(*self).margin_t); assert(column@ == low(field@)); assert(column@ == "layer"@ ==> value@ == self.layer@); assert(column@ == "margint"@ ==> value@ == or_nil(seen(self.margin_t))); assert(column@ == "actor"@ ==> value@ == self.name@); assert(value@ == ev_val(ev(*self), field@)); assert(field_values@[at - 1]@ == ev_val(ev(*self), format@[at - 1]@)); }
//@@ end
//@@ fn crates/ass-core/parser/ast/event/serialization.rs Event::to_ass_string
//@ret r
//@re (?s)format!\(\s*"\{event_type_str\}: \{\},\{\},\{\},\{\},\{\},\{\},\{\},\{\},\{\},\{\}",\s*(.*?)\s*\) => { let cells = vec![\1]; proof { standard_event(); assert(texts(cells@) =~= ev_cells(ev(*self), event_columns())); } labelled(event_type_str, join(&cells)) }
//@spec
    requires true
    ensures r@ == ev_line(ev(*self), event_columns())
//@@ end
}

/// the column names in lower case are different words
pub open spec fn code_ev(s: Seq<char>) -> int { if s == "layer"@ { 0 } else if s == "start"@ { 1 } else if s == "end"@ { 2 } else if s == "style"@ { 3 } else if s == "name"@ { 4 } else if s == "marginl"@ { 5 } else if s == "marginr"@ { 6 } else if s == "marginv"@ { 7 } else if s == "effect"@ { 8 } else if s == "text"@ { 9 } else if s == "margint"@ { 10 } else if s == "marginb"@ { 11 } else if s == "actor"@ { 12 } else { -1 } }
proof fn names_of_ev()
    ensures low("Layer"@) == "layer"@, low("Start"@) == "start"@, low("End"@) == "end"@, low("Style"@) == "style"@, low("Name"@) == "name"@, low("MarginL"@) == "marginl"@, low("MarginR"@) == "marginr"@, low("MarginV"@) == "marginv"@, low("Effect"@) == "effect"@, low("Text"@) == "text"@, low("MarginT"@) == "margint"@, low("MarginB"@) == "marginb"@,
        code_ev("layer"@) == 0, code_ev("start"@) == 1, code_ev("end"@) == 2, code_ev("style"@) == 3, code_ev("name"@) == 4, code_ev("marginl"@) == 5, code_ev("marginr"@) == 6, code_ev("marginv"@) == 7, code_ev("effect"@) == 8, code_ev("text"@) == 9, code_ev("margint"@) == 10, code_ev("marginb"@) == 11, code_ev("actor"@) == 12
{
    { reveal_strlit("Layer"); reveal_strlit("layer"); assert("layer"@ =~= seq!['l', 'a', 'y', 'e', 'r']); assert(low("Layer"@) =~= "layer"@); }
    { reveal_strlit("Start"); reveal_strlit("start"); assert("start"@ =~= seq!['s', 't', 'a', 'r', 't']); assert(low("Start"@) =~= "start"@); }
    { reveal_strlit("End"); reveal_strlit("end"); assert("end"@ =~= seq!['e', 'n', 'd']); assert(low("End"@) =~= "end"@); }
    { reveal_strlit("Style"); reveal_strlit("style"); assert("style"@ =~= seq!['s', 't', 'y', 'l', 'e']); assert(low("Style"@) =~= "style"@); }
    { reveal_strlit("Name"); reveal_strlit("name"); assert("name"@ =~= seq!['n', 'a', 'm', 'e']); assert(low("Name"@) =~= "name"@); }
    { reveal_strlit("MarginL"); reveal_strlit("marginl"); assert("marginl"@ =~= seq!['m', 'a', 'r', 'g', 'i', 'n', 'l']); assert(low("MarginL"@) =~= "marginl"@); }
    { reveal_strlit("MarginR"); reveal_strlit("marginr"); assert("marginr"@ =~= seq!['m', 'a', 'r', 'g', 'i', 'n', 'r']); assert(low("MarginR"@) =~= "marginr"@); }
    { reveal_strlit("MarginV"); reveal_strlit("marginv"); assert("marginv"@ =~= seq!['m', 'a', 'r', 'g', 'i', 'n', 'v']); assert(low("MarginV"@) =~= "marginv"@); }
    { reveal_strlit("Effect"); reveal_strlit("effect"); assert("effect"@ =~= seq!['e', 'f', 'f', 'e', 'c', 't']); assert(low("Effect"@) =~= "effect"@); }
    { reveal_strlit("Text"); reveal_strlit("text"); assert("text"@ =~= seq!['t', 'e', 'x', 't']); assert(low("Text"@) =~= "text"@); }
    { reveal_strlit("MarginT"); reveal_strlit("margint"); assert("margint"@ =~= seq!['m', 'a', 'r', 'g', 'i', 'n', 't']); assert(low("MarginT"@) =~= "margint"@); }
    { reveal_strlit("MarginB"); reveal_strlit("marginb"); assert("marginb"@ =~= seq!['m', 'a', 'r', 'g', 'i', 'n', 'b']); assert(low("MarginB"@) =~= "marginb"@); }
    reveal_strlit("actor"); assert("actor"@ =~= seq!['a', 'c', 't', 'o', 'r']);
    assert("layer"@.len() == 5 && "layer"@[0] == 'l' && "layer"@[1] == 'a' && "layer"@[2] == 'y' && "layer"@[3] == 'e' && "layer"@[4] == 'r');
    assert("start"@.len() == 5 && "start"@[0] == 's' && "start"@[1] == 't' && "start"@[2] == 'a' && "start"@[3] == 'r' && "start"@[4] == 't');
    assert("end"@.len() == 3 && "end"@[0] == 'e' && "end"@[1] == 'n' && "end"@[2] == 'd');
    assert("style"@.len() == 5 && "style"@[0] == 's' && "style"@[1] == 't' && "style"@[2] == 'y' && "style"@[3] == 'l' && "style"@[4] == 'e');
    assert("name"@.len() == 4 && "name"@[0] == 'n' && "name"@[1] == 'a' && "name"@[2] == 'm' && "name"@[3] == 'e');
    assert("marginl"@.len() == 7 && "marginl"@[0] == 'm' && "marginl"@[1] == 'a' && "marginl"@[2] == 'r' && "marginl"@[3] == 'g' && "marginl"@[4] == 'i' && "marginl"@[5] == 'n' && "marginl"@[6] == 'l');
    assert("marginr"@.len() == 7 && "marginr"@[0] == 'm' && "marginr"@[1] == 'a' && "marginr"@[2] == 'r' && "marginr"@[3] == 'g' && "marginr"@[4] == 'i' && "marginr"@[5] == 'n' && "marginr"@[6] == 'r');
    assert("marginv"@.len() == 7 && "marginv"@[0] == 'm' && "marginv"@[1] == 'a' && "marginv"@[2] == 'r' && "marginv"@[3] == 'g' && "marginv"@[4] == 'i' && "marginv"@[5] == 'n' && "marginv"@[6] == 'v');
    assert("effect"@.len() == 6 && "effect"@[0] == 'e' && "effect"@[1] == 'f' && "effect"@[2] == 'f' && "effect"@[3] == 'e' && "effect"@[4] == 'c' && "effect"@[5] == 't');
    assert("text"@.len() == 4 && "text"@[0] == 't' && "text"@[1] == 'e' && "text"@[2] == 'x' && "text"@[3] == 't');
    assert("margint"@.len() == 7 && "margint"@[0] == 'm' && "margint"@[1] == 'a' && "margint"@[2] == 'r' && "margint"@[3] == 'g' && "margint"@[4] == 'i' && "margint"@[5] == 'n' && "margint"@[6] == 't');
    assert("marginb"@.len() == 7 && "marginb"@[0] == 'm' && "marginb"@[1] == 'a' && "marginb"@[2] == 'r' && "marginb"@[3] == 'g' && "marginb"@[4] == 'i' && "marginb"@[5] == 'n' && "marginb"@[6] == 'b');
    assert("actor"@.len() == 5 && "actor"@[0] == 'a' && "actor"@[1] == 'c' && "actor"@[2] == 't' && "actor"@[3] == 'o' && "actor"@[4] == 'r');
}
/// the standard columns say the fields in their order
proof fn standard_event() ensures forall|e: Ev, i: int| 0 <= i < 10 ==> #[trigger] ev_val(e, event_columns()[i]) == (if i == 0 { e.layer } else if i == 1 { e.start } else if i == 2 { e.end } else if i == 3 { e.style } else if i == 4 { e.name } else if i == 5 { e.margin_l } else if i == 6 { e.margin_r } else if i == 7 { e.margin_v } else if i == 8 { e.effect } else if i == 9 { e.text } else { Seq::empty() })
{ names_of_ev(); }
/// the column names in lower case are different words
pub open spec fn code_sty(s: Seq<char>) -> int { if s == "name"@ { 0 } else if s == "fontname"@ { 1 } else if s == "fontsize"@ { 2 } else if s == "primarycolour"@ { 3 } else if s == "secondarycolour"@ { 4 } else if s == "outlinecolour"@ { 5 } else if s == "backcolour"@ { 6 } else if s == "bold"@ { 7 } else if s == "italic"@ { 8 } else if s == "underline"@ { 9 } else if s == "strikeout"@ { 10 } else if s == "scalex"@ { 11 } else if s == "scaley"@ { 12 } else if s == "spacing"@ { 13 } else if s == "angle"@ { 14 } else if s == "borderstyle"@ { 15 } else if s == "outline"@ { 16 } else if s == "shadow"@ { 17 } else if s == "alignment"@ { 18 } else if s == "marginl"@ { 19 } else if s == "marginr"@ { 20 } else if s == "marginv"@ { 21 } else if s == "encoding"@ { 22 } else if s == "margint"@ { 23 } else if s == "marginb"@ { 24 } else if s == "relativeto"@ { 25 } else if s == "tertiarycolour"@ { 26 } else { -1 } }
proof fn names_of_sty()
    ensures low("Name"@) == "name"@, low("Fontname"@) == "fontname"@, low("Fontsize"@) == "fontsize"@, low("PrimaryColour"@) == "primarycolour"@, low("SecondaryColour"@) == "secondarycolour"@, low("OutlineColour"@) == "outlinecolour"@, low("BackColour"@) == "backcolour"@, low("Bold"@) == "bold"@, low("Italic"@) == "italic"@, low("Underline"@) == "underline"@, low("StrikeOut"@) == "strikeout"@, low("ScaleX"@) == "scalex"@, low("ScaleY"@) == "scaley"@, low("Spacing"@) == "spacing"@, low("Angle"@) == "angle"@, low("BorderStyle"@) == "borderstyle"@, low("Outline"@) == "outline"@, low("Shadow"@) == "shadow"@, low("Alignment"@) == "alignment"@, low("MarginL"@) == "marginl"@, low("MarginR"@) == "marginr"@, low("MarginV"@) == "marginv"@, low("Encoding"@) == "encoding"@, low("MarginT"@) == "margint"@, low("MarginB"@) == "marginb"@, low("RelativeTo"@) == "relativeto"@,
        code_sty("name"@) == 0, code_sty("fontname"@) == 1, code_sty("fontsize"@) == 2, code_sty("primarycolour"@) == 3, code_sty("secondarycolour"@) == 4, code_sty("outlinecolour"@) == 5, code_sty("backcolour"@) == 6, code_sty("bold"@) == 7, code_sty("italic"@) == 8, code_sty("underline"@) == 9, code_sty("strikeout"@) == 10, code_sty("scalex"@) == 11, code_sty("scaley"@) == 12, code_sty("spacing"@) == 13, code_sty("angle"@) == 14, code_sty("borderstyle"@) == 15, code_sty("outline"@) == 16, code_sty("shadow"@) == 17, code_sty("alignment"@) == 18, code_sty("marginl"@) == 19, code_sty("marginr"@) == 20, code_sty("marginv"@) == 21, code_sty("encoding"@) == 22, code_sty("margint"@) == 23, code_sty("marginb"@) == 24, code_sty("relativeto"@) == 25, code_sty("tertiarycolour"@) == 26
{
    { reveal_strlit("Name"); reveal_strlit("name"); assert("name"@ =~= seq!['n', 'a', 'm', 'e']); assert(low("Name"@) =~= "name"@); }
    { reveal_strlit("Fontname"); reveal_strlit("fontname"); assert("fontname"@ =~= seq!['f', 'o', 'n', 't', 'n', 'a', 'm', 'e']); assert(low("Fontname"@) =~= "fontname"@); }
    { reveal_strlit("Fontsize"); reveal_strlit("fontsize"); assert("fontsize"@ =~= seq!['f', 'o', 'n', 't', 's', 'i', 'z', 'e']); assert(low("Fontsize"@) =~= "fontsize"@); }
    { reveal_strlit("PrimaryColour"); reveal_strlit("primarycolour"); assert("primarycolour"@ =~= seq!['p', 'r', 'i', 'm', 'a', 'r', 'y', 'c', 'o', 'l', 'o', 'u', 'r']); assert(low("PrimaryColour"@) =~= "primarycolour"@); }
    { reveal_strlit("SecondaryColour"); reveal_strlit("secondarycolour"); assert("secondarycolour"@ =~= seq!['s', 'e', 'c', 'o', 'n', 'd', 'a', 'r', 'y', 'c', 'o', 'l', 'o', 'u', 'r']); assert(low("SecondaryColour"@) =~= "secondarycolour"@); }
    { reveal_strlit("OutlineColour"); reveal_strlit("outlinecolour"); assert("outlinecolour"@ =~= seq!['o', 'u', 't', 'l', 'i', 'n', 'e', 'c', 'o', 'l', 'o', 'u', 'r']); assert(low("OutlineColour"@) =~= "outlinecolour"@); }
    { reveal_strlit("BackColour"); reveal_strlit("backcolour"); assert("backcolour"@ =~= seq!['b', 'a', 'c', 'k', 'c', 'o', 'l', 'o', 'u', 'r']); assert(low("BackColour"@) =~= "backcolour"@); }
    { reveal_strlit("Bold"); reveal_strlit("bold"); assert("bold"@ =~= seq!['b', 'o', 'l', 'd']); assert(low("Bold"@) =~= "bold"@); }
    { reveal_strlit("Italic"); reveal_strlit("italic"); assert("italic"@ =~= seq!['i', 't', 'a', 'l', 'i', 'c']); assert(low("Italic"@) =~= "italic"@); }
    { reveal_strlit("Underline"); reveal_strlit("underline"); assert("underline"@ =~= seq!['u', 'n', 'd', 'e', 'r', 'l', 'i', 'n', 'e']); assert(low("Underline"@) =~= "underline"@); }
    { reveal_strlit("StrikeOut"); reveal_strlit("strikeout"); assert("strikeout"@ =~= seq!['s', 't', 'r', 'i', 'k', 'e', 'o', 'u', 't']); assert(low("StrikeOut"@) =~= "strikeout"@); }
    { reveal_strlit("ScaleX"); reveal_strlit("scalex"); assert("scalex"@ =~= seq!['s', 'c', 'a', 'l', 'e', 'x']); assert(low("ScaleX"@) =~= "scalex"@); }
    { reveal_strlit("ScaleY"); reveal_strlit("scaley"); assert("scaley"@ =~= seq!['s', 'c', 'a', 'l', 'e', 'y']); assert(low("ScaleY"@) =~= "scaley"@); }
    { reveal_strlit("Spacing"); reveal_strlit("spacing"); assert("spacing"@ =~= seq!['s', 'p', 'a', 'c', 'i', 'n', 'g']); assert(low("Spacing"@) =~= "spacing"@); }
    { reveal_strlit("Angle"); reveal_strlit("angle"); assert("angle"@ =~= seq!['a', 'n', 'g', 'l', 'e']); assert(low("Angle"@) =~= "angle"@); }
    { reveal_strlit("BorderStyle"); reveal_strlit("borderstyle"); assert("borderstyle"@ =~= seq!['b', 'o', 'r', 'd', 'e', 'r', 's', 't', 'y', 'l', 'e']); assert(low("BorderStyle"@) =~= "borderstyle"@); }
    { reveal_strlit("Outline"); reveal_strlit("outline"); assert("outline"@ =~= seq!['o', 'u', 't', 'l', 'i', 'n', 'e']); assert(low("Outline"@) =~= "outline"@); }
    { reveal_strlit("Shadow"); reveal_strlit("shadow"); assert("shadow"@ =~= seq!['s', 'h', 'a', 'd', 'o', 'w']); assert(low("Shadow"@) =~= "shadow"@); }
    { reveal_strlit("Alignment"); reveal_strlit("alignment"); assert("alignment"@ =~= seq!['a', 'l', 'i', 'g', 'n', 'm', 'e', 'n', 't']); assert(low("Alignment"@) =~= "alignment"@); }
    { reveal_strlit("MarginL"); reveal_strlit("marginl"); assert("marginl"@ =~= seq!['m', 'a', 'r', 'g', 'i', 'n', 'l']); assert(low("MarginL"@) =~= "marginl"@); }
    { reveal_strlit("MarginR"); reveal_strlit("marginr"); assert("marginr"@ =~= seq!['m', 'a', 'r', 'g', 'i', 'n', 'r']); assert(low("MarginR"@) =~= "marginr"@); }
    { reveal_strlit("MarginV"); reveal_strlit("marginv"); assert("marginv"@ =~= seq!['m', 'a', 'r', 'g', 'i', 'n', 'v']); assert(low("MarginV"@) =~= "marginv"@); }
    { reveal_strlit("Encoding"); reveal_strlit("encoding"); assert("encoding"@ =~= seq!['e', 'n', 'c', 'o', 'd', 'i', 'n', 'g']); assert(low("Encoding"@) =~= "encoding"@); }
    { reveal_strlit("MarginT"); reveal_strlit("margint"); assert("margint"@ =~= seq!['m', 'a', 'r', 'g', 'i', 'n', 't']); assert(low("MarginT"@) =~= "margint"@); }
    { reveal_strlit("MarginB"); reveal_strlit("marginb"); assert("marginb"@ =~= seq!['m', 'a', 'r', 'g', 'i', 'n', 'b']); assert(low("MarginB"@) =~= "marginb"@); }
    { reveal_strlit("RelativeTo"); reveal_strlit("relativeto"); assert("relativeto"@ =~= seq!['r', 'e', 'l', 'a', 't', 'i', 'v', 'e', 't', 'o']); assert(low("RelativeTo"@) =~= "relativeto"@); }
    reveal_strlit("tertiarycolour"); assert("tertiarycolour"@ =~= seq!['t', 'e', 'r', 't', 'i', 'a', 'r', 'y', 'c', 'o', 'l', 'o', 'u', 'r']);
    assert("name"@.len() == 4 && "name"@[0] == 'n' && "name"@[1] == 'a' && "name"@[2] == 'm' && "name"@[3] == 'e');
    assert("fontname"@.len() == 8 && "fontname"@[0] == 'f' && "fontname"@[1] == 'o' && "fontname"@[2] == 'n' && "fontname"@[3] == 't' && "fontname"@[4] == 'n' && "fontname"@[5] == 'a' && "fontname"@[6] == 'm' && "fontname"@[7] == 'e');
    assert("fontsize"@.len() == 8 && "fontsize"@[0] == 'f' && "fontsize"@[1] == 'o' && "fontsize"@[2] == 'n' && "fontsize"@[3] == 't' && "fontsize"@[4] == 's' && "fontsize"@[5] == 'i' && "fontsize"@[6] == 'z' && "fontsize"@[7] == 'e');
    assert("primarycolour"@.len() == 13 && "primarycolour"@[0] == 'p' && "primarycolour"@[1] == 'r' && "primarycolour"@[2] == 'i' && "primarycolour"@[3] == 'm' && "primarycolour"@[4] == 'a' && "primarycolour"@[5] == 'r' && "primarycolour"@[6] == 'y' && "primarycolour"@[7] == 'c' && "primarycolour"@[8] == 'o' && "primarycolour"@[9] == 'l' && "primarycolour"@[10] == 'o' && "primarycolour"@[11] == 'u' && "primarycolour"@[12] == 'r');
    assert("secondarycolour"@.len() == 15 && "secondarycolour"@[0] == 's' && "secondarycolour"@[1] == 'e' && "secondarycolour"@[2] == 'c' && "secondarycolour"@[3] == 'o' && "secondarycolour"@[4] == 'n' && "secondarycolour"@[5] == 'd' && "secondarycolour"@[6] == 'a' && "secondarycolour"@[7] == 'r' && "secondarycolour"@[8] == 'y' && "secondarycolour"@[9] == 'c' && "secondarycolour"@[10] == 'o' && "secondarycolour"@[11] == 'l' && "secondarycolour"@[12] == 'o' && "secondarycolour"@[13] == 'u' && "secondarycolour"@[14] == 'r');
    assert("outlinecolour"@.len() == 13 && "outlinecolour"@[0] == 'o' && "outlinecolour"@[1] == 'u' && "outlinecolour"@[2] == 't' && "outlinecolour"@[3] == 'l' && "outlinecolour"@[4] == 'i' && "outlinecolour"@[5] == 'n' && "outlinecolour"@[6] == 'e' && "outlinecolour"@[7] == 'c' && "outlinecolour"@[8] == 'o' && "outlinecolour"@[9] == 'l' && "outlinecolour"@[10] == 'o' && "outlinecolour"@[11] == 'u' && "outlinecolour"@[12] == 'r');
    assert("backcolour"@.len() == 10 && "backcolour"@[0] == 'b' && "backcolour"@[1] == 'a' && "backcolour"@[2] == 'c' && "backcolour"@[3] == 'k' && "backcolour"@[4] == 'c' && "backcolour"@[5] == 'o' && "backcolour"@[6] == 'l' && "backcolour"@[7] == 'o' && "backcolour"@[8] == 'u' && "backcolour"@[9] == 'r');
    assert("bold"@.len() == 4 && "bold"@[0] == 'b' && "bold"@[1] == 'o' && "bold"@[2] == 'l' && "bold"@[3] == 'd');
    assert("italic"@.len() == 6 && "italic"@[0] == 'i' && "italic"@[1] == 't' && "italic"@[2] == 'a' && "italic"@[3] == 'l' && "italic"@[4] == 'i' && "italic"@[5] == 'c');
    assert("underline"@.len() == 9 && "underline"@[0] == 'u' && "underline"@[1] == 'n' && "underline"@[2] == 'd' && "underline"@[3] == 'e' && "underline"@[4] == 'r' && "underline"@[5] == 'l' && "underline"@[6] == 'i' && "underline"@[7] == 'n' && "underline"@[8] == 'e');
    assert("strikeout"@.len() == 9 && "strikeout"@[0] == 's' && "strikeout"@[1] == 't' && "strikeout"@[2] == 'r' && "strikeout"@[3] == 'i' && "strikeout"@[4] == 'k' && "strikeout"@[5] == 'e' && "strikeout"@[6] == 'o' && "strikeout"@[7] == 'u' && "strikeout"@[8] == 't');
    assert("scalex"@.len() == 6 && "scalex"@[0] == 's' && "scalex"@[1] == 'c' && "scalex"@[2] == 'a' && "scalex"@[3] == 'l' && "scalex"@[4] == 'e' && "scalex"@[5] == 'x');
    assert("scaley"@.len() == 6 && "scaley"@[0] == 's' && "scaley"@[1] == 'c' && "scaley"@[2] == 'a' && "scaley"@[3] == 'l' && "scaley"@[4] == 'e' && "scaley"@[5] == 'y');
    assert("spacing"@.len() == 7 && "spacing"@[0] == 's' && "spacing"@[1] == 'p' && "spacing"@[2] == 'a' && "spacing"@[3] == 'c' && "spacing"@[4] == 'i' && "spacing"@[5] == 'n' && "spacing"@[6] == 'g');
    assert("angle"@.len() == 5 && "angle"@[0] == 'a' && "angle"@[1] == 'n' && "angle"@[2] == 'g' && "angle"@[3] == 'l' && "angle"@[4] == 'e');
    assert("borderstyle"@.len() == 11 && "borderstyle"@[0] == 'b' && "borderstyle"@[1] == 'o' && "borderstyle"@[2] == 'r' && "borderstyle"@[3] == 'd' && "borderstyle"@[4] == 'e' && "borderstyle"@[5] == 'r' && "borderstyle"@[6] == 's' && "borderstyle"@[7] == 't' && "borderstyle"@[8] == 'y' && "borderstyle"@[9] == 'l' && "borderstyle"@[10] == 'e');
    assert("outline"@.len() == 7 && "outline"@[0] == 'o' && "outline"@[1] == 'u' && "outline"@[2] == 't' && "outline"@[3] == 'l' && "outline"@[4] == 'i' && "outline"@[5] == 'n' && "outline"@[6] == 'e');
    assert("shadow"@.len() == 6 && "shadow"@[0] == 's' && "shadow"@[1] == 'h' && "shadow"@[2] == 'a' && "shadow"@[3] == 'd' && "shadow"@[4] == 'o' && "shadow"@[5] == 'w');
    assert("alignment"@.len() == 9 && "alignment"@[0] == 'a' && "alignment"@[1] == 'l' && "alignment"@[2] == 'i' && "alignment"@[3] == 'g' && "alignment"@[4] == 'n' && "alignment"@[5] == 'm' && "alignment"@[6] == 'e' && "alignment"@[7] == 'n' && "alignment"@[8] == 't');
    assert("marginl"@.len() == 7 && "marginl"@[0] == 'm' && "marginl"@[1] == 'a' && "marginl"@[2] == 'r' && "marginl"@[3] == 'g' && "marginl"@[4] == 'i' && "marginl"@[5] == 'n' && "marginl"@[6] == 'l');
    assert("marginr"@.len() == 7 && "marginr"@[0] == 'm' && "marginr"@[1] == 'a' && "marginr"@[2] == 'r' && "marginr"@[3] == 'g' && "marginr"@[4] == 'i' && "marginr"@[5] == 'n' && "marginr"@[6] == 'r');
    assert("marginv"@.len() == 7 && "marginv"@[0] == 'm' && "marginv"@[1] == 'a' && "marginv"@[2] == 'r' && "marginv"@[3] == 'g' && "marginv"@[4] == 'i' && "marginv"@[5] == 'n' && "marginv"@[6] == 'v');
    assert("encoding"@.len() == 8 && "encoding"@[0] == 'e' && "encoding"@[1] == 'n' && "encoding"@[2] == 'c' && "encoding"@[3] == 'o' && "encoding"@[4] == 'd' && "encoding"@[5] == 'i' && "encoding"@[6] == 'n' && "encoding"@[7] == 'g');
    assert("margint"@.len() == 7 && "margint"@[0] == 'm' && "margint"@[1] == 'a' && "margint"@[2] == 'r' && "margint"@[3] == 'g' && "margint"@[4] == 'i' && "margint"@[5] == 'n' && "margint"@[6] == 't');
    assert("marginb"@.len() == 7 && "marginb"@[0] == 'm' && "marginb"@[1] == 'a' && "marginb"@[2] == 'r' && "marginb"@[3] == 'g' && "marginb"@[4] == 'i' && "marginb"@[5] == 'n' && "marginb"@[6] == 'b');
    assert("relativeto"@.len() == 10 && "relativeto"@[0] == 'r' && "relativeto"@[1] == 'e' && "relativeto"@[2] == 'l' && "relativeto"@[3] == 'a' && "relativeto"@[4] == 't' && "relativeto"@[5] == 'i' && "relativeto"@[6] == 'v' && "relativeto"@[7] == 'e' && "relativeto"@[8] == 't' && "relativeto"@[9] == 'o');
    assert("tertiarycolour"@.len() == 14 && "tertiarycolour"@[0] == 't' && "tertiarycolour"@[1] == 'e' && "tertiarycolour"@[2] == 'r' && "tertiarycolour"@[3] == 't' && "tertiarycolour"@[4] == 'i' && "tertiarycolour"@[5] == 'a' && "tertiarycolour"@[6] == 'r' && "tertiarycolour"@[7] == 'y' && "tertiarycolour"@[8] == 'c' && "tertiarycolour"@[9] == 'o' && "tertiarycolour"@[10] == 'l' && "tertiarycolour"@[11] == 'o' && "tertiarycolour"@[12] == 'u' && "tertiarycolour"@[13] == 'r');
}
/// the standard columns say the fields in their order
proof fn standard_style() ensures forall|e: Sty, i: int| 0 <= i < 23 ==> #[trigger] sty_val(e, style_columns()[i]) == (if i == 0 { e.name } else if i == 1 { e.fontname } else if i == 2 { e.fontsize } else if i == 3 { e.primary_colour } else if i == 4 { e.secondary_colour } else if i == 5 { e.outline_colour } else if i == 6 { e.back_colour } else if i == 7 { e.bold } else if i == 8 { e.italic } else if i == 9 { e.underline } else if i == 10 { e.strikeout } else if i == 11 { e.scale_x } else if i == 12 { e.scale_y } else if i == 13 { e.spacing } else if i == 14 { e.angle } else if i == 15 { e.border_style } else if i == 16 { e.outline } else if i == 17 { e.shadow } else if i == 18 { e.alignment } else if i == 19 { e.margin_l } else if i == 20 { e.margin_r } else if i == 21 { e.margin_v } else if i == 22 { e.encoding } else { Seq::empty() })
{ names_of_sty(); }

pub struct EventsParser { pub k: u64 }
impl EventsParser {
//@@ fn crates/ass-core/parser/sections/events/static_parser.rs EventsParser::parse_event_line
//@ret r
//@sig-re pub fn parse_event_line\( => pub fn parse_event_line<'a>(
//@re-all line\.strip_prefix\( => strip(line, 
//@re data\.trim\(\) => trimmed(data)
//@spec
    requires true
    ensures match r { Ok(e) => ev_of(line@, texts(format@)) == Some(ev(e)), Err(_) => ev_of(line@, texts(format@)) is None }
//@start
    proof { reveal_strlit("Dialogue:"); assert("Dialogue:"@.len() == 9); reveal_strlit("Comment:"); assert("Comment:"@.len() == 8); reveal_strlit("Picture:"); assert("Picture:"@.len() == 8); reveal_strlit("Sound:"); assert("Sound:"@.len() == 6); reveal_strlit("Movie:"); assert("Movie:"@.len() == 6); reveal_strlit("Command:"); assert("Command:"@.len() == 8); }
//@@ end
//@@ fn crates/ass-core/parser/sections/events/static_parser.rs EventsParser::parse_event_data_static
//@ret r
//@sig-re fn parse_event_data_static\( => fn parse_event_data_static<'a>(
//@re (?s)let format = if format\.is_empty\(\) \{\s*&\[\s*("Layer",.*?)\s*\]\s*\} else \{\s*format\s*\}; => let ghost given = format@; let standard = vec![\1]; let format = if format.len() == 0 { standard.as_slice() } else { format }; let ghost fmt = texts(format@); proof { assert(texts(standard@) =~= event_columns()); }
//@re (?s)format\s*\.iter\(\)\s*\.any\(\|&field\| field\.eq_ignore_ascii_case\("(\w+)"\)\) => named(format, "\1")
//@re (?s)data\.splitn\(format\.len\(\), ','\)\.collect\(\) => pieces(data, format.len())
//@re (?s)data\.splitn\(10, ','\)\.collect\(\) => pieces(data, 10)
//@re (?s)let get_field = \|name: &str\| -\x3e &'a str \{.*?\n        \}; => 
//@re-all (?s)format\s*\.iter\(\)\s*\.any\(\|&f\| f\.eq_ignore_ascii_case\("(\w+)"\)\)\s*\.then\(\|\| get_field\("(\w+)"\)\) => opt_field(named(format, "\1"), get_field("\2"))
//@re-all get_field\(" => get_field(format, &parts, "
//@spec
    requires true
    ensures match r { Ok(e) => ev_data(event_type, data@, texts(format@)) == Some(ev(e)), Err(_) => ev_data(event_type, data@, texts(format@)) is None }
//@before "if parts.len()"
    proof { assert(texts(parts@) == ev_cut(data@, fmt)); assert(texts(parts@).len() == parts@.len()); }
//@@ end
}

/// an event written under a format and read under it again: the fields with a column come back, the others are empty
proof fn event_comes_back(e: Ev, fmt: Seq<Seq<char>>)
    requires fmt.len() > 0, has_column(fmt, "Text"@), column(fmt, "Text"@, 0) == fmt.len() - 1,
        forall|i: int| 0 <= i < fmt.len() ==> firm(#[trigger] ev_cells(e, fmt)[i]), forall|i: int| 0 <= i < fmt.len() - 1 ==> comma_free(#[trigger] ev_cells(e, fmt)[i]),
    ensures ({ let r = ev_of(ev_line(e, fmt), fmt); r is Some && r->Some_0.kind == e.kind
        && r->Some_0.layer == (if has_column(fmt, "Layer"@) { e.layer } else { Seq::empty() })
        && r->Some_0.start == (if has_column(fmt, "Start"@) { e.start } else { Seq::empty() })
        && r->Some_0.end == (if has_column(fmt, "End"@) { e.end } else { Seq::empty() })
        && r->Some_0.style == (if has_column(fmt, "Style"@) { e.style } else { Seq::empty() })
        && r->Some_0.name == (if has_column(fmt, "Name"@) { e.name } else { Seq::empty() })
        && r->Some_0.margin_l == (if has_column(fmt, "MarginL"@) { e.margin_l } else { Seq::empty() })
        && r->Some_0.margin_r == (if has_column(fmt, "MarginR"@) { e.margin_r } else { Seq::empty() })
        && r->Some_0.margin_v == (if has_column(fmt, "MarginV"@) { e.margin_v } else { Seq::empty() })
        && r->Some_0.effect == (if has_column(fmt, "Effect"@) { e.effect } else { Seq::empty() })
        && r->Some_0.text == (if has_column(fmt, "Text"@) { e.text } else { Seq::empty() })
        && r->Some_0.margin_t == (if has_column(fmt, "MarginT"@) { Some(or_nil(e.margin_t)) } else { None })
        && r->Some_0.margin_b == (if has_column(fmt, "MarginB"@) { Some(or_nil(e.margin_b)) } else { None }) })
{
    plain_is(); names_of_ev(); kinds_differ(e.kind, joined(ev_cells(e, fmt)));
    let v = ev_cells(e, fmt); let d = joined(v);
    firm_joined(v); tight_firm(d); cut_joined(v, fmt.len() as int);
    assert(ev_line(e, fmt).skip(kind_name(e.kind).len() as int + 1) =~= seq![' '] + d);
    { let c = column(fmt, "Layer"@, 0); column_is(fmt, "Layer"@, 0); if c < fmt.len() { assert(firm(v[c])); tight_firm(v[c]); assert(low(fmt[c]) == "layer"@); assert(v[c] == e.layer); } }
    { let c = column(fmt, "Start"@, 0); column_is(fmt, "Start"@, 0); if c < fmt.len() { assert(firm(v[c])); tight_firm(v[c]); assert(low(fmt[c]) == "start"@); assert(v[c] == e.start); } }
    { let c = column(fmt, "End"@, 0); column_is(fmt, "End"@, 0); if c < fmt.len() { assert(firm(v[c])); tight_firm(v[c]); assert(low(fmt[c]) == "end"@); assert(v[c] == e.end); } }
    { let c = column(fmt, "Style"@, 0); column_is(fmt, "Style"@, 0); if c < fmt.len() { assert(firm(v[c])); tight_firm(v[c]); assert(low(fmt[c]) == "style"@); assert(v[c] == e.style); } }
    { let c = column(fmt, "Name"@, 0); column_is(fmt, "Name"@, 0); if c < fmt.len() { assert(firm(v[c])); tight_firm(v[c]); assert(low(fmt[c]) == "name"@); assert(v[c] == e.name); } }
    { let c = column(fmt, "MarginL"@, 0); column_is(fmt, "MarginL"@, 0); if c < fmt.len() { assert(firm(v[c])); tight_firm(v[c]); assert(low(fmt[c]) == "marginl"@); assert(v[c] == e.margin_l); } }
    { let c = column(fmt, "MarginR"@, 0); column_is(fmt, "MarginR"@, 0); if c < fmt.len() { assert(firm(v[c])); tight_firm(v[c]); assert(low(fmt[c]) == "marginr"@); assert(v[c] == e.margin_r); } }
    { let c = column(fmt, "MarginV"@, 0); column_is(fmt, "MarginV"@, 0); if c < fmt.len() { assert(firm(v[c])); tight_firm(v[c]); assert(low(fmt[c]) == "marginv"@); assert(v[c] == e.margin_v); } }
    { let c = column(fmt, "Effect"@, 0); column_is(fmt, "Effect"@, 0); if c < fmt.len() { assert(firm(v[c])); tight_firm(v[c]); assert(low(fmt[c]) == "effect"@); assert(v[c] == e.effect); } }
    { let c = column(fmt, "Text"@, 0); column_is(fmt, "Text"@, 0); if c < fmt.len() { assert(firm(v[c])); tight_firm(v[c]); assert(low(fmt[c]) == "text"@); assert(v[c] == e.text); } }
    { let c = column(fmt, "MarginT"@, 0); column_is(fmt, "MarginT"@, 0); if c < fmt.len() { assert(firm(v[c])); tight_firm(v[c]); assert(low(fmt[c]) == "margint"@); assert(v[c] == or_nil(e.margin_t)); } }
    { let c = column(fmt, "MarginB"@, 0); column_is(fmt, "MarginB"@, 0); if c < fmt.len() { assert(firm(v[c])); tight_firm(v[c]); assert(low(fmt[c]) == "marginb"@); assert(v[c] == or_nil(e.margin_b)); } }
}
proof fn kinds_differ(k: EventType, d: Seq<char>)
    ensures kind_of(kind_name(k) + seq![':', ' '] + d) == Some((k, (kind_name(k) + seq![':', ' '] + d).skip(kind_name(k).len() as int + 1)))
{
    let s = kind_name(k) + seq![':', ' '] + d;
    reveal_strlit("Dialogue"); reveal_strlit("Dialogue:"); assert("Dialogue"@ =~= seq!['D', 'i', 'a', 'l', 'o', 'g', 'u', 'e']); assert("Dialogue:"@ =~= seq!['D', 'i', 'a', 'l', 'o', 'g', 'u', 'e', ':']);
    reveal_strlit("Comment"); reveal_strlit("Comment:"); assert("Comment"@ =~= seq!['C', 'o', 'm', 'm', 'e', 'n', 't']); assert("Comment:"@ =~= seq!['C', 'o', 'm', 'm', 'e', 'n', 't', ':']);
    reveal_strlit("Picture"); reveal_strlit("Picture:"); assert("Picture"@ =~= seq!['P', 'i', 'c', 't', 'u', 'r', 'e']); assert("Picture:"@ =~= seq!['P', 'i', 'c', 't', 'u', 'r', 'e', ':']);
    reveal_strlit("Sound"); reveal_strlit("Sound:"); assert("Sound"@ =~= seq!['S', 'o', 'u', 'n', 'd']); assert("Sound:"@ =~= seq!['S', 'o', 'u', 'n', 'd', ':']);
    reveal_strlit("Movie"); reveal_strlit("Movie:"); assert("Movie"@ =~= seq!['M', 'o', 'v', 'i', 'e']); assert("Movie:"@ =~= seq!['M', 'o', 'v', 'i', 'e', ':']);
    reveal_strlit("Command"); reveal_strlit("Command:"); assert("Command"@ =~= seq!['C', 'o', 'm', 'm', 'a', 'n', 'd']); assert("Command:"@ =~= seq!['C', 'o', 'm', 'm', 'a', 'n', 'd', ':']);
    match k { EventType::Dialogue => { assert(s.take(9) =~= "Dialogue:"@);  }, EventType::Comment => { assert(s.take(8) =~= "Comment:"@); if prefixed(s, "Dialogue:"@) { assert(s.take(9)[0] == 'D'); assert(s[0] == 'C'); } }, EventType::Picture => { assert(s.take(8) =~= "Picture:"@); if prefixed(s, "Dialogue:"@) { assert(s.take(9)[0] == 'D'); assert(s[0] == 'P'); } if prefixed(s, "Comment:"@) { assert(s.take(8)[0] == 'C'); assert(s[0] == 'P'); } }, EventType::Sound => { assert(s.take(6) =~= "Sound:"@); if prefixed(s, "Dialogue:"@) { assert(s.take(9)[0] == 'D'); assert(s[0] == 'S'); } if prefixed(s, "Comment:"@) { assert(s.take(8)[0] == 'C'); assert(s[0] == 'S'); } if prefixed(s, "Picture:"@) { assert(s.take(8)[0] == 'P'); assert(s[0] == 'S'); } }, EventType::Movie => { assert(s.take(6) =~= "Movie:"@); if prefixed(s, "Dialogue:"@) { assert(s.take(9)[0] == 'D'); assert(s[0] == 'M'); } if prefixed(s, "Comment:"@) { assert(s.take(8)[0] == 'C'); assert(s[0] == 'M'); } if prefixed(s, "Picture:"@) { assert(s.take(8)[0] == 'P'); assert(s[0] == 'M'); } if prefixed(s, "Sound:"@) { assert(s.take(6)[0] == 'S'); assert(s[0] == 'M'); } }, EventType::Command => { assert(s.take(8) =~= "Command:"@); if prefixed(s, "Dialogue:"@) { assert(s.take(9)[0] == 'D'); assert(s[0] == 'C'); } if prefixed(s, "Comment:"@) { assert(s.take(8)[4] == 'e'); assert(s[4] == 'a'); } if prefixed(s, "Picture:"@) { assert(s.take(8)[0] == 'P'); assert(s[0] == 'C'); } if prefixed(s, "Sound:"@) { assert(s.take(6)[0] == 'S'); assert(s[0] == 'C'); } if prefixed(s, "Movie:"@) { assert(s.take(6)[0] == 'M'); assert(s[0] == 'C'); } } }
}
// ---- styles: reading and writing ----------------------------------------------------------------------------------
pub uninterp spec fn byte_off(s: Seq<char>, i: int) -> int;
#[verifier::external_body]
fn find_comma(s: &str) -> (r: Option<usize>) ensures match r { Some(i) => comma(s@) < s@.len() && i == byte_off(s@, comma(s@)) && i < usize::MAX, None => comma(s@) >= s@.len() } { s.find(',') }
#[verifier::external_body]
fn upto(s: &str, i: usize) -> (r: &str) requires comma(s@) < s@.len(), i == byte_off(s@, comma(s@)) ensures r@ == s@.take(comma(s@)) { &s[..i] }
#[verifier::external_body]
fn past(s: &str, i: usize) -> (r: &str) requires comma(s@) < s@.len(), i == byte_off(s@, comma(s@)) + 1 ensures r@ == s@.skip(comma(s@) + 1) { &s[i..] }
pub open spec fn starred(s: Seq<char>) -> bool { s.len() > 0 && s[0] == '*' }
#[verifier::external_body]
fn is_starred(s: &str) -> (r: bool) ensures r == starred(s@) { s.starts_with('*') }
pub open spec fn unstar(s: Seq<char>) -> Seq<char> decreases s.len() { if starred(s) { unstar(s.skip(1)) } else { s } }
#[verifier::external_body]
fn unstarred(s: &str) -> (r: &str) ensures r@ == unstar(s@) { s.trim_start_matches('*') }
/// a style may name a parent before its own columns
pub open spec fn has_parent(s: Seq<char>) -> bool { starred(ltrim(s)) && comma(s) < s.len() }
pub open spec fn parent_of(s: Seq<char>) -> Option<Seq<char>> { if has_parent(s) { Some(tight(unstar(ltrim(s.take(comma(s)))))) } else { None } }
pub open spec fn own_part(s: Seq<char>) -> Seq<char> { if has_parent(s) { s.skip(comma(s) + 1) } else { s } }
/// what the data of a style line says
pub open spec fn sty_data(s: Seq<char>, format: Seq<Seq<char>>) -> Option<Sty> { let fmt = if format.len() == 0 { style_columns() } else { format }; let p = cut(own_part(s), own_part(s).len() as int + 1); if p.len() < fmt.len() { None } else { Some(sty_read(parent_of(s), fmt, p)) } }
pub open spec fn pre(p: Option<Seq<char>>) -> Seq<char> { match p { Some(x) => seq!['*'] + x + seq![','], None => Seq::empty() } }
pub open spec fn sty_line(e: Sty, fmt: Seq<Seq<char>>) -> Seq<char> { "Style:"@ + (seq![' '] + (pre(e.parent) + joined(sty_cells(e, fmt)))) }
#[verifier::external_body]
fn starred_name(p: &str) -> (r: String) ensures r@ == seq!['*'] + p@ + seq![','] { format!("*{p},") }
#[verifier::external_body]
fn style_text(p: String, v: String) -> (r: String) ensures r@ == "Style:"@ + (seq![' '] + (p@ + v@)) { format!("Style: {p}{v}") }
impl Style<'_> {
//@@ fn crates/ass-core/parser/ast/style/conversion.rs Style::parent_prefix
//@ret r
//@re (?s)self\.parent\s*\.map_or_else\(alloc::string::String::new, \|parent\| format!\("\*\{parent\},"\)\) => match self.parent { None => String::new(), Some(parent) => starred_name(parent) }
//@spec
    requires true
    ensures r@ == pre(seen(self.parent))
//@@ end
//@@ fn crates/ass-core/parser/ast/style/conversion.rs Style::to_ass_string_with_format
//@ret r
//@re (?s)for field in format \{\s*let value = match field\.to_ascii_lowercase\(\)\.as_str\(\) \{ => let mut at: usize = 0;\n while at < format.len() {\n let field = format[at]; let lower = lowered(field); let column = lower.as_str(); at += 1;\n let value = match column {
//@re-all self\.(\w+)\.unwrap_or\("0"\) => or(self.\1, "0")
//@strmatch column
//@re Vec::with_capacity\(format\.len\(\)\) => Vec::<&str>::new()
//@re (?s)let joined = field_values\.join\(","\) => proof { assert(texts(field_values@) =~= sty_cells(sty(*self), texts(format@))); } let all = join(&field_values)
//@re format!\("Style: \{parent\}\{joined\}"\) => style_text(parent, all)
//@spec
    requires true
    ensures r@ == sty_line(sty(*self), texts(format@))
//@start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); reveal_strlit("0"); assert("0"@ =~= seq!['0']); }
//@loop 0
    invariant at <= format@.len(), field_values@.len() == at, ""@ == Seq::<char>::empty(), "0"@ == seq!['0'], forall|i: int| 0 <= i < at ==> (#[trigger] field_values@[i])@ == sty_val(sty(*self), format@[i]@),
    decreases format@.len() - at
//@loopend 0
    proof { names_of_sty(); assert(lower@ == low(field@)); assert(column@ == low(field@)); assert(seen(self.margin_t) == sty(*self).margin_t); assert(value@ == sty_val(sty(*self), field@)); assert(field_values@[at - 1]@ == sty_val(sty(*self), format@[at - 1]@)); }
//@@ end
//@@ fn crates/ass-core/parser/ast/style/conversion.rs Style::to_ass_string
//@ret r
//@re (?s)format!\(\s*"Style: (?:\{\}){2}(?:,\{\}){22}",\s*self\.parent_prefix\(\),\s*(.*?)\s*\) => let parent = self.parent_prefix(); let cells = vec![\1]; proof { standard_style(); assert(texts(cells@) =~= sty_cells(sty(*self), style_columns())); } style_text(parent, join(&cells))
//@spec
    requires true
    ensures r@ == sty_line(sty(*self), style_columns())
//@@ end
}
pub struct StylesParser<'a> { pub tracker: Tracker<'a>, pub issues: Vec<Issue>, pub format: Option<Vec<&'a str>> }

impl<'a> StylesParser<'a> {
//@@ fn crates/ass-core/parser/sections/styles/parse_line.rs StylesParser::parse_style_line
//@ret r
//@re line\.trim_start\(\)\.starts_with\('\*'\) => is_starred(ltrimmed(line))
//@re (?s)line\.find\(','\)\.map_or\(\(line, None\), \|first_comma\| \{(.*?)\}\)\n => match find_comma(line) { None => (line, None), Some(first_comma) => {\1} }\n
//@re &line\[0\.\.first_comma\] => upto(line, first_comma)
//@re &line\[first_comma \+ 1\.\.\] => past(line, first_comma + 1)
//@re parent_part\.trim_start\(\)\.trim_start_matches\('\*'\)\.trim\(\) => trimmed(unstarred(ltrimmed(parent_part)))
//@re adjusted_line\.split\(','\)\.collect\(\) => all_pieces(adjusted_line)
//@re (?s)let format = if format\.is_empty\(\) \{\s*&\[\s*("Name",.*?),?\s*\]\s*\} else \{\s*format\s*\}; => let ghost given = format@; let standard = vec![\1]; let format = if format.len() == 0 { standard.as_slice() } else { format }; let ghost fmt = texts(format@); proof { assert(texts(standard@) =~= style_columns()); assert(texts(parts@).len() == parts@.len()); }
//@re (?s)let get_field = \|name: &str\| -\x3e &'a str \{.*?\n        \}; => 
//@re-all (?s)format\s*\.iter\(\)\s*\.any\(\|&f\| f\.eq_ignore_ascii_case\("(\w+)"\)\)\s*\.then\(\|\| get_field\("(\w+)"\)\) => opt_field(named(format, "\1"), get_field("\2"))
//@re-all get_field\(" => get_field(format, &parts, "
//@spec
    requires true
    ensures match r { Ok(e) => sty_data(line@, texts(format@)) == Some(sty(e)), Err(_) => sty_data(line@, texts(format@)) is None }
//@@ end
//@@ fn crates/ass-core/parser/sections/styles/parse_internal.rs StylesParser::parse_style_line_internal
//@ret r
//@sig-re PositionTracker => Tracker
//@re line\.trim_start\(\)\.starts_with\('\*'\) => is_starred(ltrimmed(line))
//@re (?s)line\.find\(','\)\.map_or\(\(line, None\), \|first_comma\| \{(.*?)\}\)\n => match find_comma(line) { None => (line, None), Some(first_comma) => {\1} }\n
//@re &line\[0\.\.first_comma\] => upto(line, first_comma)
//@re &line\[first_comma \+ 1\.\.\] => past(line, first_comma + 1)
//@re parent_part\.trim_start\(\)\.trim_start_matches\('\*'\)\.trim\(\) => trimmed(unstarred(ltrimmed(parent_part)))
//@re adjusted_line\.split\(','\)\.collect\(\) => all_pieces(adjusted_line)
//@re (?s)let format = self\.format\.as_deref\(\)\.unwrap_or\(&\[\s*("Name",.*?),?\s*\]\); => let standard = vec![\1]; let format = match &self.format { Some(f) => f.as_slice(), None => standard.as_slice() }; let ghost fmt = texts(format@); proof { assert(texts(standard@) =~= style_columns()); assert(texts(parts@).len() == parts@.len()); }
//@re (?s)ParseIssue::new\(.*?line_start\.line\(\) as usize,\s*\) => an_issue()
//@re full_line\.len\(\) => blen(full_line)
//@re (?s)let get_field = \|name: &str\| -\x3e &'a str \{.*?\n        \}; => 
//@re-all (?s)format\s*\.iter\(\)\s*\.any\(\|&f\| f\.eq_ignore_ascii_case\("(\w+)"\)\)\s*\.then\(\|\| get_field\("(\w+)"\)\) => opt_field(named(format, "\1"), get_field("\2"))
//@re-all get_field\(" => get_field(format, &parts, "
//@spec
    requires true
    ensures final(self).tracker == old(self).tracker, final(self).format == old(self).format, r is None ==> final(self).issues@.len() == old(self).issues@.len() + 1,
        match r { Some(e) => sty_row(line@, old(self).format) == Some(sty(e)), None => sty_row(line@, old(self).format) is None }
//@@ end
}

pub open spec fn columns_or(f: Option<Vec<&str>>, d: Seq<Seq<char>>) -> Seq<Seq<char>> { match f { Some(v) => texts(v@), None => d } }
/// what a line says in a section: here an empty format has no columns at all
pub open spec fn sty_row(s: Seq<char>, f: Option<Vec<&str>>) -> Option<Sty> { let fmt = columns_or(f, style_columns()); let p = cut(own_part(s), own_part(s).len() as int + 1); if p.len() < fmt.len() { None } else { Some(sty_read(parent_of(s), fmt, p)) } }
pub open spec fn ev_row(kind: EventType, data: Seq<char>, f: Option<Vec<&str>>) -> Option<Ev> { let fmt = columns_or(f, event_columns()); let p = ev_cut(data, fmt); if p.len() < fmt.len() { None } else { Some(ev_read(kind, fmt, p)) } }
pub struct Issue { pub k: u64 }
#[verifier::external_body]
fn an_issue() -> Issue { unimplemented!() }
#[verifier::external_body]
fn blen(s: &str) -> usize { s.len() }
pub struct Tracker<'a> { pub source: &'a str, pub k: u64 }
impl<'a> Tracker<'a> {
    #[verifier::external_body]
    fn span_for(&self, n: usize) -> Span { unimplemented!() }
}
impl<'a> StylesParser<'a> { #[verifier::external_body]
    fn current_line(&self) -> &'a str { unimplemented!() } }
pub struct EventParser<'a> { pub tracker: Tracker<'a>, pub issues: Vec<Issue>, pub format: Option<Vec<&'a str>> }
impl<'a> EventParser<'a> { #[verifier::external_body]
    fn current_line(&self) -> &'a str { unimplemented!() }
//@@ fn crates/ass-core/parser/sections/events/event_data.rs EventsParser::parse_event_line_internal
//@ret r
//@sig-re PositionTracker => Tracker
//@re-all line\.strip_prefix\( => strip(line, 
//@re data\.trim\(\) => trimmed(data)
//@spec
    requires true
    ensures final(self).tracker == old(self).tracker, final(self).format == old(self).format, kind_of(line@) is None ==> final(self).issues == old(self).issues,
        match r { Some(e) => kind_of(line@) is Some && ev_row(kind_of(line@)->Some_0.0, tight(kind_of(line@)->Some_0.1), old(self).format) == Some(ev(e)), None => kind_of(line@) is None || ev_row(kind_of(line@)->Some_0.0, tight(kind_of(line@)->Some_0.1), old(self).format) is None }
//@start
    proof { reveal_strlit("Dialogue:"); assert("Dialogue:"@.len() == 9); reveal_strlit("Comment:"); assert("Comment:"@.len() == 8); reveal_strlit("Picture:"); assert("Picture:"@.len() == 8); reveal_strlit("Sound:"); assert("Sound:"@.len() == 6); reveal_strlit("Movie:"); assert("Movie:"@.len() == 6); reveal_strlit("Command:"); assert("Command:"@.len() == 8); }
//@@ end
//@@ fn crates/ass-core/parser/sections/events/event_data.rs EventsParser::parse_event_data
//@ret r
//@sig-re PositionTracker => Tracker
//@re (?s)let format = self\.format\.as_deref\(\)\.unwrap_or\(&\[\s*("Layer",.*?),?\s*\]\); => let standard = vec![\1]; let format = match &self.format { Some(f) => f.as_slice(), None => standard.as_slice() }; let ghost fmt = texts(format@); proof { assert(texts(standard@) =~= event_columns()); }
//@re (?s)format\s*\.iter\(\)\s*\.any\(\|&field\| field\.eq_ignore_ascii_case\("(\w+)"\)\) => named(format, "\1")
//@re (?s)data\.splitn\(format\.len\(\), ','\)\.collect\(\) => pieces(data, format.len())
//@re (?s)data\.splitn\(10, ','\)\.collect\(\) => pieces(data, 10)
//@re (?s)ParseIssue::new\(.*?line_start\.line\(\) as usize,\s*\) => an_issue()
//@re full_line\.len\(\) => blen(full_line)
//@re (?s)let get_field = \|name: &str\| -\x3e &'a str \{.*?\n        \}; => 
//@re-all (?s)format\s*\.iter\(\)\s*\.any\(\|&f\| f\.eq_ignore_ascii_case\("(\w+)"\)\)\s*\.then\(\|\| get_field\("(\w+)"\)\) => opt_field(named(format, "\1"), get_field("\2"))
//@re-all get_field\(" => get_field(format, &parts, "
//@spec
    requires true
    ensures final(self).tracker == old(self).tracker, final(self).format == old(self).format, final(self).issues@.len() == old(self).issues@.len() + (if r is None { 1int } else { 0 }),
        match r { Some(e) => ev_row(event_type, data@, old(self).format) == Some(ev(e)), None => ev_row(event_type, data@, old(self).format) is None }
//@before "if parts.len()"
    proof { assert(texts(parts@) == ev_cut(data@, fmt)); assert(texts(parts@).len() == parts@.len()); }
//@@ end
}

/// a style written under a format and read under it again
proof fn style_comes_back(e: Sty, fmt: Seq<Seq<char>>)
    requires fmt.len() > 0, forall|i: int| 0 <= i < fmt.len() ==> firm(#[trigger] sty_cells(e, fmt)[i]) && comma_free(sty_cells(e, fmt)[i]),
        match e.parent { Some(p) => firm(p) && comma_free(p) && !starred(p), None => !starred(joined(sty_cells(e, fmt))) },
    ensures prefixed(sty_line(e, fmt), "Style:"@), ({ let r = sty_data(tight(sty_line(e, fmt).skip(6)), fmt); r is Some && r->Some_0.parent == e.parent
        && r->Some_0.name == (if has_column(fmt, "Name"@) { e.name } else { Seq::empty() })
        && r->Some_0.fontname == (if has_column(fmt, "Fontname"@) { e.fontname } else { Seq::empty() })
        && r->Some_0.fontsize == (if has_column(fmt, "Fontsize"@) { e.fontsize } else { Seq::empty() })
        && r->Some_0.primary_colour == (if has_column(fmt, "PrimaryColour"@) { e.primary_colour } else { Seq::empty() })
        && r->Some_0.secondary_colour == (if has_column(fmt, "SecondaryColour"@) { e.secondary_colour } else { Seq::empty() })
        && r->Some_0.outline_colour == (if has_column(fmt, "OutlineColour"@) { e.outline_colour } else { Seq::empty() })
        && r->Some_0.back_colour == (if has_column(fmt, "BackColour"@) { e.back_colour } else { Seq::empty() })
        && r->Some_0.bold == (if has_column(fmt, "Bold"@) { e.bold } else { Seq::empty() })
        && r->Some_0.italic == (if has_column(fmt, "Italic"@) { e.italic } else { Seq::empty() })
        && r->Some_0.underline == (if has_column(fmt, "Underline"@) { e.underline } else { Seq::empty() })
        && r->Some_0.strikeout == (if has_column(fmt, "StrikeOut"@) { e.strikeout } else { Seq::empty() })
        && r->Some_0.scale_x == (if has_column(fmt, "ScaleX"@) { e.scale_x } else { Seq::empty() })
        && r->Some_0.scale_y == (if has_column(fmt, "ScaleY"@) { e.scale_y } else { Seq::empty() })
        && r->Some_0.spacing == (if has_column(fmt, "Spacing"@) { e.spacing } else { Seq::empty() })
        && r->Some_0.angle == (if has_column(fmt, "Angle"@) { e.angle } else { Seq::empty() })
        && r->Some_0.border_style == (if has_column(fmt, "BorderStyle"@) { e.border_style } else { Seq::empty() })
        && r->Some_0.outline == (if has_column(fmt, "Outline"@) { e.outline } else { Seq::empty() })
        && r->Some_0.shadow == (if has_column(fmt, "Shadow"@) { e.shadow } else { Seq::empty() })
        && r->Some_0.alignment == (if has_column(fmt, "Alignment"@) { e.alignment } else { Seq::empty() })
        && r->Some_0.margin_l == (if has_column(fmt, "MarginL"@) { e.margin_l } else { Seq::empty() })
        && r->Some_0.margin_r == (if has_column(fmt, "MarginR"@) { e.margin_r } else { Seq::empty() })
        && r->Some_0.margin_v == (if has_column(fmt, "MarginV"@) { e.margin_v } else { Seq::empty() })
        && r->Some_0.encoding == (if has_column(fmt, "Encoding"@) { e.encoding } else { Seq::empty() })
        && r->Some_0.margin_t == (if has_column(fmt, "MarginT"@) { Some(or_nil(e.margin_t)) } else { None })
        && r->Some_0.margin_b == (if has_column(fmt, "MarginB"@) { Some(or_nil(e.margin_b)) } else { None })
        && r->Some_0.relative_to == (if has_column(fmt, "RelativeTo"@) { Some(or_nil(e.relative_to)) } else { None }) })
{
    plain_is(); names_of_sty(); reveal_strlit("Style:"); assert("Style:"@.len() == 6);
    let v = sty_cells(e, fmt); let own = joined(v); let d = pre(e.parent) + own; let line = sty_line(e, fmt);
    assert(line.take(6) =~= "Style:"@); assert(line.skip(6) =~= seq![' '] + d);
    firm_joined(v);
    match e.parent {
        Some(p) => { assert(d[0] == '*'); assert(d.last() == if own.len() > 0 { own.last() } else { ',' }); assert(d =~= (seq!['*'] + p) + seq![','] + own);
            let sp = seq!['*'] + p; assert(comma_free(sp)); comma_of(sp, own); assert(d.take(comma(d)) =~= sp); assert(d.skip(comma(d) + 1) =~= own); assert(sp[0] == '*'); assert(sp.skip(1) =~= p); assert(unstar(sp) == unstar(p)); tight_firm(p); }
        None => { assert(d =~= own); }
    }
    tight_firm(d);
    cells_short(v, own.len() as int + 1); cut_joined(v, own.len() as int + 1);
    { let c = column(fmt, "Name"@, 0); column_is(fmt, "Name"@, 0); if c < fmt.len() { assert(firm(v[c])); tight_firm(v[c]); assert(low(fmt[c]) == "name"@); assert(v[c] == e.name); } }
    { let c = column(fmt, "Fontname"@, 0); column_is(fmt, "Fontname"@, 0); if c < fmt.len() { assert(firm(v[c])); tight_firm(v[c]); assert(low(fmt[c]) == "fontname"@); assert(v[c] == e.fontname); } }
    { let c = column(fmt, "Fontsize"@, 0); column_is(fmt, "Fontsize"@, 0); if c < fmt.len() { assert(firm(v[c])); tight_firm(v[c]); assert(low(fmt[c]) == "fontsize"@); assert(v[c] == e.fontsize); } }
    { let c = column(fmt, "PrimaryColour"@, 0); column_is(fmt, "PrimaryColour"@, 0); if c < fmt.len() { assert(firm(v[c])); tight_firm(v[c]); assert(low(fmt[c]) == "primarycolour"@); assert(v[c] == e.primary_colour); } }
    { let c = column(fmt, "SecondaryColour"@, 0); column_is(fmt, "SecondaryColour"@, 0); if c < fmt.len() { assert(firm(v[c])); tight_firm(v[c]); assert(low(fmt[c]) == "secondarycolour"@); assert(v[c] == e.secondary_colour); } }
    { let c = column(fmt, "OutlineColour"@, 0); column_is(fmt, "OutlineColour"@, 0); if c < fmt.len() { assert(firm(v[c])); tight_firm(v[c]); assert(low(fmt[c]) == "outlinecolour"@); assert(v[c] == e.outline_colour); } }
    { let c = column(fmt, "BackColour"@, 0); column_is(fmt, "BackColour"@, 0); if c < fmt.len() { assert(firm(v[c])); tight_firm(v[c]); assert(low(fmt[c]) == "backcolour"@); assert(v[c] == e.back_colour); } }
    { let c = column(fmt, "Bold"@, 0); column_is(fmt, "Bold"@, 0); if c < fmt.len() { assert(firm(v[c])); tight_firm(v[c]); assert(low(fmt[c]) == "bold"@); assert(v[c] == e.bold); } }
    { let c = column(fmt, "Italic"@, 0); column_is(fmt, "Italic"@, 0); if c < fmt.len() { assert(firm(v[c])); tight_firm(v[c]); assert(low(fmt[c]) == "italic"@); assert(v[c] == e.italic); } }
    { let c = column(fmt, "Underline"@, 0); column_is(fmt, "Underline"@, 0); if c < fmt.len() { assert(firm(v[c])); tight_firm(v[c]); assert(low(fmt[c]) == "underline"@); assert(v[c] == e.underline); } }
    { let c = column(fmt, "StrikeOut"@, 0); column_is(fmt, "StrikeOut"@, 0); if c < fmt.len() { assert(firm(v[c])); tight_firm(v[c]); assert(low(fmt[c]) == "strikeout"@); assert(v[c] == e.strikeout); } }
    { let c = column(fmt, "ScaleX"@, 0); column_is(fmt, "ScaleX"@, 0); if c < fmt.len() { assert(firm(v[c])); tight_firm(v[c]); assert(low(fmt[c]) == "scalex"@); assert(v[c] == e.scale_x); } }
    { let c = column(fmt, "ScaleY"@, 0); column_is(fmt, "ScaleY"@, 0); if c < fmt.len() { assert(firm(v[c])); tight_firm(v[c]); assert(low(fmt[c]) == "scaley"@); assert(v[c] == e.scale_y); } }
    { let c = column(fmt, "Spacing"@, 0); column_is(fmt, "Spacing"@, 0); if c < fmt.len() { assert(firm(v[c])); tight_firm(v[c]); assert(low(fmt[c]) == "spacing"@); assert(v[c] == e.spacing); } }
    { let c = column(fmt, "Angle"@, 0); column_is(fmt, "Angle"@, 0); if c < fmt.len() { assert(firm(v[c])); tight_firm(v[c]); assert(low(fmt[c]) == "angle"@); assert(v[c] == e.angle); } }
    { let c = column(fmt, "BorderStyle"@, 0); column_is(fmt, "BorderStyle"@, 0); if c < fmt.len() { assert(firm(v[c])); tight_firm(v[c]); assert(low(fmt[c]) == "borderstyle"@); assert(v[c] == e.border_style); } }
    { let c = column(fmt, "Outline"@, 0); column_is(fmt, "Outline"@, 0); if c < fmt.len() { assert(firm(v[c])); tight_firm(v[c]); assert(low(fmt[c]) == "outline"@); assert(v[c] == e.outline); } }
    { let c = column(fmt, "Shadow"@, 0); column_is(fmt, "Shadow"@, 0); if c < fmt.len() { assert(firm(v[c])); tight_firm(v[c]); assert(low(fmt[c]) == "shadow"@); assert(v[c] == e.shadow); } }
    { let c = column(fmt, "Alignment"@, 0); column_is(fmt, "Alignment"@, 0); if c < fmt.len() { assert(firm(v[c])); tight_firm(v[c]); assert(low(fmt[c]) == "alignment"@); assert(v[c] == e.alignment); } }
    { let c = column(fmt, "MarginL"@, 0); column_is(fmt, "MarginL"@, 0); if c < fmt.len() { assert(firm(v[c])); tight_firm(v[c]); assert(low(fmt[c]) == "marginl"@); assert(v[c] == e.margin_l); } }
    { let c = column(fmt, "MarginR"@, 0); column_is(fmt, "MarginR"@, 0); if c < fmt.len() { assert(firm(v[c])); tight_firm(v[c]); assert(low(fmt[c]) == "marginr"@); assert(v[c] == e.margin_r); } }
    { let c = column(fmt, "MarginV"@, 0); column_is(fmt, "MarginV"@, 0); if c < fmt.len() { assert(firm(v[c])); tight_firm(v[c]); assert(low(fmt[c]) == "marginv"@); assert(v[c] == e.margin_v); } }
    { let c = column(fmt, "Encoding"@, 0); column_is(fmt, "Encoding"@, 0); if c < fmt.len() { assert(firm(v[c])); tight_firm(v[c]); assert(low(fmt[c]) == "encoding"@); assert(v[c] == e.encoding); } }
    { let c = column(fmt, "MarginT"@, 0); column_is(fmt, "MarginT"@, 0); if c < fmt.len() { assert(firm(v[c])); tight_firm(v[c]); assert(low(fmt[c]) == "margint"@); assert(v[c] == or_nil(e.margin_t)); } }
    { let c = column(fmt, "MarginB"@, 0); column_is(fmt, "MarginB"@, 0); if c < fmt.len() { assert(firm(v[c])); tight_firm(v[c]); assert(low(fmt[c]) == "marginb"@); assert(v[c] == or_nil(e.margin_b)); } }
    { let c = column(fmt, "RelativeTo"@, 0); column_is(fmt, "RelativeTo"@, 0); if c < fmt.len() { assert(firm(v[c])); tight_firm(v[c]); assert(low(fmt[c]) == "relativeto"@); assert(v[c] == or_nil(e.relative_to)); } }
}
/// there are no more pieces than characters and one
proof fn cells_short(v: Seq<Seq<char>>, n: int) requires v.len() > 0, n == joined(v).len() + 1 ensures v.len() <= n decreases v.len() { if v.len() > 1 { cells_short(v.skip(1), joined(v.skip(1)).len() as int + 1); } }
fn main() {}
}
