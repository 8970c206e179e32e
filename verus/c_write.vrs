use vstd::prelude::*;
use vstd::string::*;
extern crate alloc;
verus! {
//@@ struct crates/ass-core/parser/ast/span.rs Span derive(Clone, Copy)
pub struct Event { pub k: u64 }
pub struct Style { pub k: u64 }
//@@ struct crates/ass-core/parser/ast/script_info/info.rs ScriptInfo
//@@ struct crates/ass-core/parser/ast/media/font.rs Font
//@@ struct crates/ass-core/parser/ast/media/graphic.rs Graphic
pub enum Section<'a> { ScriptInfo(ScriptInfo<'a>), Styles(Vec<Style>), Events(Vec<Event>), Fonts(Vec<Font<'a>>), Graphics(Vec<Graphic<'a>>) }
pub struct Script<'a> { pub sections: Vec<Section<'a>>, pub styles_format: Option<Vec<&'a str>>, pub events_format: Option<Vec<&'a str>> }
pub open spec fn texts(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
/// what unit c_entries proves the lines of styles and events to be
pub uninterp spec fn style_line(e: Style, f: Option<Seq<Seq<char>>>) -> Seq<char>;
pub uninterp spec fn event_line(e: Event, f: Option<Seq<Seq<char>>>) -> Seq<char>;
impl Style {
    #[verifier::external_body]
    fn to_ass_string(&self) -> (r: String) ensures r@ == style_line(*self, None) { unimplemented!() }
    #[verifier::external_body]
    fn to_ass_string_with_format(&self, f: &Vec<&str>) -> (r: String) ensures r@ == style_line(*self, Some(texts(f@))) { unimplemented!() }
}
impl Event {
    #[verifier::external_body]
    fn to_ass_string(&self) -> (r: String) ensures r@ == event_line(*self, None) { unimplemented!() }
    #[verifier::external_body]
    fn to_ass_string_with_format(&self, f: &Vec<&str>) -> (r: String) ensures r@ == event_line(*self, Some(texts(f@))) { unimplemented!() }
}
pub open spec fn listed(v: Seq<Seq<char>>, n: int) -> Seq<char> decreases n { if n <= 0 { Seq::empty() } else if n == 1 { v[0] } else { listed(v, n - 1) + seq![',', ' '] + v[n - 1] } }
#[verifier::external_body]
fn listing(v: &Vec<&str>) -> (r: String) ensures r@ == listed(texts(v@), v@.len() as int) { v.join(", ") }
#[verifier::external_body]
fn add(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { s.push_str(t) }
#[verifier::external_body]
fn add_s(s: &mut String, t: String) ensures final(s)@ == old(s)@ + t@ { s.push_str(&t) }
#[verifier::external_body]
fn add_c(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { s.push(c) }
#[verifier::external_body]
fn line_of(a: &str, b: &str) -> (r: String) ensures r@ == a@ + b@ + seq!['\n'] { format!("{a}{b}\n") }
#[verifier::external_body]
fn put_field(s: &mut String, k: &str, v: &str) ensures final(s)@ == old(s)@ + field_line((k@, v@)) { use core::fmt::Write; let _ = writeln!(s, "{k}: {v}"); }
#[verifier::external_body]
fn text(s: &str) -> (r: String) ensures r@ == s@ { String::from(s) }
pub open spec fn field_line(f: (Seq<char>, Seq<char>)) -> Seq<char> { f.0 + seq![':', ' '] + f.1 + seq!['\n'] }
pub open spec fn field_lines(v: Seq<(&str, &str)>, n: int) -> Seq<char> decreases n { if n <= 0 { Seq::empty() } else { field_lines(v, n - 1) + field_line((v[n - 1].0@, v[n - 1].1@)) } }
pub open spec fn data_lines(v: Seq<Seq<char>>, n: int) -> Seq<char> decreases n { if n <= 0 { Seq::empty() } else { data_lines(v, n - 1) + v[n - 1].push('\n') } }
pub open spec fn info_text(i: ScriptInfo) -> Seq<char> { "[Script Info]\n"@ + field_lines(i.fields@, i.fields@.len() as int) }
pub open spec fn font_text(f: Font) -> Seq<char> { "fontname: "@ + f.filename@ + seq!['\n'] + data_lines(texts(f.data_lines@), f.data_lines@.len() as int) }
pub open spec fn graphic_text(f: Graphic) -> Seq<char> { "filename: "@ + f.filename@ + seq!['\n'] + data_lines(texts(f.data_lines@), f.data_lines@.len() as int) }
pub open spec fn fmt_of(f: Option<Vec<&str>>) -> Option<Seq<Seq<char>>> { match f { Some(v) => Some(texts(v@)), None => None } }
pub open spec fn format_line(f: Option<Vec<&str>>) -> Seq<char> { match f { Some(v) => "Format: "@ + listed(texts(v@), v@.len() as int) + seq!['\n'], None => Seq::empty() } }
pub open spec fn style_lines(v: Seq<Style>, f: Option<Seq<Seq<char>>>, n: int) -> Seq<char> decreases n { if n <= 0 { Seq::empty() } else { style_lines(v, f, n - 1) + style_line(v[n - 1], f).push('\n') } }
pub open spec fn event_lines(v: Seq<Event>, f: Option<Seq<Seq<char>>>, n: int) -> Seq<char> decreases n { if n <= 0 { Seq::empty() } else { event_lines(v, f, n - 1) + event_line(v[n - 1], f).push('\n') } }
pub open spec fn font_texts(v: Seq<Font>, n: int) -> Seq<char> decreases n { if n <= 0 { Seq::empty() } else { font_texts(v, n - 1) + font_text(v[n - 1]) } }
pub open spec fn graphic_texts(v: Seq<Graphic>, n: int) -> Seq<char> decreases n { if n <= 0 { Seq::empty() } else { graphic_texts(v, n - 1) + graphic_text(v[n - 1]) } }
pub open spec fn section_text(s: Script, x: Section) -> Seq<char> {
    match x {
        Section::ScriptInfo(i) => info_text(i),
        Section::Styles(v) => "[V4+ Styles]\n"@ + format_line(s.styles_format) + style_lines(v@, fmt_of(s.styles_format), v@.len() as int),
        Section::Events(v) => "[Events]\n"@ + format_line(s.events_format) + event_lines(v@, fmt_of(s.events_format), v@.len() as int),
        Section::Fonts(v) => "[Fonts]\n"@ + font_texts(v@, v@.len() as int),
        Section::Graphics(v) => "[Graphics]\n"@ + graphic_texts(v@, v@.len() as int),
    }
}
/// every section in order, a blank line between two
pub open spec fn script_text(s: Script, n: int) -> Seq<char> decreases n { if n <= 0 { Seq::empty() } else { (if n > 1 { script_text(s, n - 1).push('\n') } else { script_text(s, n - 1) }) + section_text(s, s.sections@[n - 1]) } }
impl ScriptInfo<'_> {
//@@ fn crates/ass-core/parser/ast/script_info/info.rs ScriptInfo::to_ass_string
//@ret r
//@opt-re use core::fmt::Write; => 
//@re alloc::string::String::from\( => text(
//@re for \(key, value\) in &self\.fields \{ => let mut at: usize = 0;\n while at < self.fields.len() {\n let (key, value) = self.fields[at]; at += 1;
//@re let _ = writeln!\(result, "\{key\}: \{value\}"\) => put_field(&mut result, key, value)
//@loop 0
    invariant at <= self.fields@.len(), result@ == "[Script Info]\n"@ + field_lines(self.fields@, at as int),
    decreases self.fields@.len() - at
//@loopend 0
    proof { assert(result@ =~= "[Script Info]\n"@ + field_lines(self.fields@, at as int)); }
//@before "let mut at"
    proof { assert(result@ =~= "[Script Info]\n"@ + field_lines(self.fields@, 0)); }
//@spec
    requires true
    ensures r@ == info_text(*self)
//@@ end
}
impl Font<'_> {
//@@ fn crates/ass-core/parser/ast/media/font.rs Font::to_ass_string
//@ret r
//@re format!\("(\w+: )\{\}\\n", self\.filename\) => line_of("\1", self.filename)
//@re for line in &self\.data_lines \{ => let mut at: usize = 0;\n while at < self.data_lines.len() {\n let line = self.data_lines[at]; at += 1;
//@re result\.push_str\(line\) => add(&mut result, line)
//@re result\.push\( => add_c(&mut result, 
//@loop 0
    invariant at <= self.data_lines@.len(), result@ == "fontname: "@ + self.filename@ + seq!['\n'] + data_lines(texts(self.data_lines@), at as int),
    decreases self.data_lines@.len() - at
//@loopend 0
    proof { assert(texts(self.data_lines@)[at - 1] == line@); assert(result@ =~= "fontname: "@ + self.filename@ + seq!['\n'] + data_lines(texts(self.data_lines@), at as int)); }
//@before "let mut at"
    proof { assert(result@ =~= "fontname: "@ + self.filename@ + seq!['\n'] + data_lines(texts(self.data_lines@), 0)); }
//@spec
    requires true
    ensures r@ == font_text(*self)
//@@ end
}
impl Graphic<'_> {
//@@ fn crates/ass-core/parser/ast/media/graphic.rs Graphic::to_ass_string
//@ret r
//@re format!\("(\w+: )\{\}\\n", self\.filename\) => line_of("\1", self.filename)
//@re for line in &self\.data_lines \{ => let mut at: usize = 0;\n while at < self.data_lines.len() {\n let line = self.data_lines[at]; at += 1;
//@re result\.push_str\(line\) => add(&mut result, line)
//@re result\.push\( => add_c(&mut result, 
//@loop 0
    invariant at <= self.data_lines@.len(), result@ == "filename: "@ + self.filename@ + seq!['\n'] + data_lines(texts(self.data_lines@), at as int),
    decreases self.data_lines@.len() - at
//@loopend 0
    proof { assert(texts(self.data_lines@)[at - 1] == line@); assert(result@ =~= "filename: "@ + self.filename@ + seq!['\n'] + data_lines(texts(self.data_lines@), at as int)); }
//@before "let mut at"
    proof { assert(result@ =~= "filename: "@ + self.filename@ + seq!['\n'] + data_lines(texts(self.data_lines@), 0)); }
//@spec
    requires true
    ensures r@ == graphic_text(*self)
//@@ end
}
impl<'a> Script<'a> {
#[verifier::rlimit(100)] #[verifier::spinoff_prover]
//@@ fn crates/ass-core/parser/script/serialize.rs Script::to_ass_string
//@ret r
//@re (?s)for \(idx, section\) in self\.sections\.iter\(\)\.enumerate\(\) \{ => let mut at: usize = 0;\n while at < self.sections.len() {\n let idx = at; let section = &self.sections[at]; at += 1;
//@re (?s)(if idx \x3e 0 \{.*?\n            \}) => \1 let ghost r0 = result@;
//@re-all result\.push_str\(&(.*?)\);\n => add_s(&mut result, \1);\n
//@re-all result\.push_str\( => add(&mut result, 
//@re-all result\.push\( => add_c(&mut result, 
//@re-all format\.join\(", "\) => listing(format)
//@re for style in styles \{ => let mut i1: usize = 0; proof { assert(result@ =~= r0 + "[V4+ Styles]\\n"@ + format_line(self.styles_format) + style_lines(styles@, fmt_of(self.styles_format), 0)); }\n while i1 < styles.len() {\n let style = &styles[i1]; i1 += 1;
//@re for event in events \{ => let mut i2: usize = 0; proof { assert(result@ =~= r0 + "[Events]\\n"@ + format_line(self.events_format) + event_lines(events@, fmt_of(self.events_format), 0)); }\n while i2 < events.len() {\n let event = &events[i2]; i2 += 1;
//@re for font in fonts \{ => let mut i3: usize = 0; proof { assert(result@ =~= r0 + "[Fonts]\\n"@ + font_texts(fonts@, 0)); }\n while i3 < fonts.len() {\n let font = &fonts[i3]; i3 += 1;
//@re for graphic in graphics \{ => let mut i4: usize = 0; proof { assert(result@ =~= r0 + "[Graphics]\\n"@ + graphic_texts(graphics@, 0)); }\n while i4 < graphics.len() {\n let graphic = &graphics[i4]; i4 += 1;
//@loop 0
    invariant at <= self.sections@.len(), result@ == script_text(*self, at as int),
    decreases self.sections@.len() - at
//@loopend 0
    proof { assert(section_text(*self, *section) == section_text(*self, self.sections@[at - 1])); }
//@loop 1
    invariant at <= self.sections@.len(), result@ == r0 + "[V4+ Styles]\n"@ + format_line(self.styles_format) + style_lines(styles@, fmt_of(self.styles_format), i1 as int), i1 <= styles@.len(),
    decreases styles@.len() - i1
//@loopend 1
    proof { assert(result@ =~= r0 + "[V4+ Styles]\n"@ + format_line(self.styles_format) + style_lines(styles@, fmt_of(self.styles_format), i1 as int)); }
//@loop 2
    invariant at <= self.sections@.len(), result@ == r0 + "[Events]\n"@ + format_line(self.events_format) + event_lines(events@, fmt_of(self.events_format), i2 as int), i2 <= events@.len(),
    decreases events@.len() - i2
//@loopend 2
    proof { assert(result@ =~= r0 + "[Events]\n"@ + format_line(self.events_format) + event_lines(events@, fmt_of(self.events_format), i2 as int)); }
//@loop 3
    invariant at <= self.sections@.len(), result@ == r0 + "[Fonts]\n"@ + font_texts(fonts@, i3 as int), i3 <= fonts@.len(),
    decreases fonts@.len() - i3
//@loopend 3
    proof { assert(result@ =~= r0 + "[Fonts]\n"@ + font_texts(fonts@, i3 as int)); }
//@loop 4
    invariant at <= self.sections@.len(), result@ == r0 + "[Graphics]\n"@ + graphic_texts(graphics@, i4 as int), i4 <= graphics@.len(),
    decreases graphics@.len() - i4
//@loopend 4
    proof { assert(result@ =~= r0 + "[Graphics]\n"@ + graphic_texts(graphics@, i4 as int)); }
//@spec
    requires true
    ensures r@ == script_text(*self, self.sections@.len() as int)
//@@ end
}
fn main() {}
}
