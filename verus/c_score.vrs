use vstd::prelude::*;
use core::cmp::Ordering;
use vstd::string::*;
verus! {
//@@ struct crates/ass-core/parser/ast/span.rs Span derive(Clone, Copy)
//@@ struct crates/ass-core/parser/ast/event/event_type.rs EventType derive(Clone, Copy)
//@@ struct crates/ass-core/parser/ast/event/event_struct.rs Event
//@@ struct crates/ass-core/analysis/events/tags/types.rs OverrideTag pubfields
//@@ struct crates/ass-core/analysis/events/tags/types.rs TagDiagnostic
//@@ struct crates/ass-core/analysis/events/tags/types.rs DiagnosticKind
//@@ struct crates/ass-core/analysis/events/text_analysis/analysis.rs TextAnalysis pubfields
//@@ struct crates/ass-core/analysis/events/dialogue_info/mod.rs DialogueInfo pubfields
//@@ struct crates/ass-core/analysis/events/dialogue_info/mod.rs TimingRelation derive(Clone, Copy, PartialEq, Eq)
//@@ struct crates/ass-core/analysis/events/scoring/impact.rs PerformanceImpact derive(Clone, Copy, PartialEq, Eq)
pub struct CoreError { pub kind: u8 }
impl CoreError { #[verifier::external_body] pub fn parse(s: &str) -> CoreError { CoreError { kind: 0 } } }
/// the registry of extensions: opaque here
pub struct ExtensionRegistry { pub id: u8 }

// ---- specification -----------------------------------------------------------------------------------
pub open spec fn one(n: Seq<char>) -> bool {
    n == "b"@ || n == "i"@ || n == "u"@ || n == "s"@ || n == "c"@ || n == "1c"@ || n == "2c"@ || n == "3c"@ || n == "4c"@ || n == "alpha"@
    || n == "1a"@ || n == "2a"@ || n == "3a"@ || n == "4a"@
}
pub open spec fn three(n: Seq<char>) -> bool {
    n == "frx"@ || n == "fry"@ || n == "frz"@ || n == "fscx"@ || n == "fscy"@ || n == "fsp"@ || n == "fad"@ || n == "fade"@ || n == "clip"@ || n == "iclip"@
}
/// points of a tag
pub open spec fn points(n: Seq<char>) -> int {
    if one(n) { 1 } else if three(n) { 3 } else if n == "move"@ { 4 } else if n == "t"@ || n == "pbo"@ { 5 } else if n == "p"@ { 8 } else { 2 }
}
pub open spec fn total(tags: Seq<OverrideTag>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { total(tags, n - 1) + points(tags[n - 1].name@) } }
pub open spec fn cap(v: int, c: int) -> int { if v < c { v } else { c } }
pub proof fn total_grows(tags: Seq<OverrideTag>, a: int, b: int)
    requires 0 <= a <= b
    ensures total(tags, a) <= total(tags, b), b - a <= total(tags, b) - total(tags, a), 0 <= total(tags, a)
    decreases b
{ if a < b { total_grows(tags, a, b - 1); } else if a > 0 { total_grows(tags, a - 1, a - 1); } }
/// adding a tag never lowers the animation score
pub proof fn animation_grows(tags: Seq<OverrideTag>, t: OverrideTag)
    ensures cap(total(tags, tags.len() as int), 10) <= cap(total(tags.push(t), tags.len() as int + 1), 10)
{ prefix(tags, t, tags.len() as int); }
proof fn prefix(tags: Seq<OverrideTag>, t: OverrideTag, n: int)
    requires 0 <= n <= tags.len()
    ensures total(tags, n) == total(tags.push(t), n)
    decreases n
{ if n > 0 { prefix(tags, t, n - 1); } }

pub open spec fn char_points(c: int) -> int { if c <= 50 { 0 } else if c <= 200 { 5 } else if c <= 500 { 15 } else if c <= 1000 { 30 } else { 50 } }
pub open spec fn tag_points(c: int) -> int { if c == 0 { 0 } else if c <= 5 { 5 } else if c <= 15 { 15 } else if c <= 30 { 25 } else { 35 } }
pub open spec fn complexity(a: int, chars: int, tags: int) -> int { cap(5 * a + char_points(chars) + tag_points(tags), 100) }
/// the score never falls when animation, length or tags grow
pub proof fn monotone(a: int, b: int, c: int, d: int, e: int, f: int)
    requires 0 <= a <= b, 0 <= c <= d, 0 <= e <= f
    ensures complexity(a, c, e) <= complexity(b, d, f), 0 <= complexity(a, c, e) <= 100
{}
fn umin8(a: u8, b: u8) -> (r: u8) ensures r as int == cap(a as int, b as int) { if a < b { a } else { b } }
fn umin32(a: u32, b: u32) -> (r: u32) ensures r as int == cap(a as int, b as int) { if a < b { a } else { b } }
pub open spec fn band(s: int) -> PerformanceImpact {
    if s <= 20 { PerformanceImpact::Minimal } else if s <= 40 { PerformanceImpact::Low } else if s <= 60 { PerformanceImpact::Medium }
    else if s <= 80 { PerformanceImpact::High } else { PerformanceImpact::Critical }
}
impl<'a> OverrideTag<'a> {
//@@ fn crates/ass-core/analysis/events/tags/types.rs OverrideTag::name
//@ret r
//@spec
    ensures r == self.name
//@@ end
}
//@@ fn crates/ass-core/analysis/events/scoring/calculators.rs calculate_animation_score
//@ret r
//@strmatch tag.name()
//@re (?s)tags\.iter\(\)\s*\.map\(\|tag\| (\{.*?\})\)\s*\.fold\(0, \|score: u8, points\| (.*?)\)\s*\.min\(10\) => let mut score: u8 = 0; let mut ti: usize = 0; while ti < tags.len() { let tag = &tags[ti]; ti += 1; let points: u8 = \1; score = \2; } umin8(score, 10)
//@spec
    ensures r as int == cap(total(tags@, tags@.len() as int), 10)
//@loop 0
    invariant ti <= tags@.len(), score as int == cap(total(tags@, ti as int), 255)
    decreases tags@.len() - ti
//@after "let tag = &tags[ti]"
//@@ end
//@@ fn crates/ass-core/analysis/events/scoring/calculators.rs calculate_complexity_score
//@ret r
//@re \(score\.min\(255\) as u8\)\.min\(100\) => umin8(umin32(score, 255) as u8, 100)
//@spec
    ensures r as int == complexity(animation_score as int, char_count as int, override_count as int)
//@@ end
//@@ fn crates/ass-core/analysis/events/scoring/impact.rs get_performance_impact
//@ret r
//@spec
    ensures r == band(complexity_score as int)
//@@ end
impl<'a> DialogueInfo<'a> {
    /// analysed events have a positive duration
    pub open spec fn wf(&self) -> bool { self.start_cs < self.end_cs }
}
/// what a time text denotes (proved of the real parser in c_time)
pub uninterp spec fn time_of(s: Seq<char>) -> Option<u32>;
#[verifier::external_body]
fn parse_ass_time(s: &str) -> (r: Result<u32, CoreError>) ensures match r { Ok(v) => time_of(s@) == Some(v), Err(_) => time_of(s@) is None } { unimplemented!() }
impl<'a> TextAnalysis<'a> {
    /// the text was refused (proved of the real analysis in c_tags)
    pub uninterp spec fn refused(text: Seq<char>) -> bool;
    #[verifier::external_body]
    fn analyze(text: &'a str) -> (r: Result<TextAnalysis<'a>, CoreError>) ensures r is Err == TextAnalysis::refused(text@) { unimplemented!() }
    #[verifier::external_body]
    fn analyze_with_registry(text: &'a str, registry: Option<&ExtensionRegistry>) -> (r: Result<TextAnalysis<'a>, CoreError>) ensures r is Err == TextAnalysis::refused(text@) { unimplemented!() }
//@@ fn crates/ass-core/analysis/events/text_analysis/helpers.rs TextAnalysis::char_count
//@ret r
//@spec
    ensures r == self.char_count
//@@ end
//@@ fn crates/ass-core/analysis/events/text_analysis/helpers.rs TextAnalysis::override_tags
//@ret r
//@spec
    ensures r@ == self.override_tags@
//@@ end
}
impl<'a> DialogueInfo<'a> {
//@@ fn crates/ass-core/analysis/events/dialogue_info/analyze.rs DialogueInfo::analyze_impl_with_registry
//@ret r
//@sig-re Result<Self> => Result<Self, CoreError>
//@spec
    ensures match r {
        // analysed exactly when the times are readable and the duration is positive
        Ok(d) => d.wf() && time_of(event.start@) == Some(d.start_cs) && time_of(event.end@) == Some(d.end_cs)
            && d.animation_score as int == cap(total(d.text_info.override_tags@, d.text_info.override_tags@.len() as int), 10)
            && d.complexity_score as int == complexity(d.animation_score as int, d.text_info.char_count as int, d.text_info.override_tags@.len() as int),
        Err(_) => time_of(event.start@) is None || time_of(event.end@) is None || time_of(event.start@).unwrap() >= time_of(event.end@).unwrap() || TextAnalysis::refused(event.text@),
    }
//@@ end
}
//@@ include dialogue.inc
fn main() {}
}
