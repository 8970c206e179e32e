use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
verus! {
//@@ include str.inc
pub struct CoreError { pub kind: u8 }
//@@ struct crates/ass-core/analysis/linting/severity.rs IssueSeverity derive(Clone, Copy)
//@@ struct crates/ass-core/analysis/linting/category.rs IssueCategory derive(Clone, Copy)
//@@ struct crates/ass-core/analysis/linting/issue.rs IssueLocation
//@@ struct crates/ass-core/analysis/linting/issue.rs LintIssue pubfields
//@@ struct crates/ass-core/analysis/linting/config.rs LintConfig
pub struct Found { pub sev: IssueSeverity, pub cat: IssueCategory, pub rule: Seq<char>, pub msg: Seq<char> }
pub open spec fn shown(i: LintIssue) -> Found { Found { sev: i.severity, cat: i.category, rule: i.rule_id@, msg: i.message@ } }
pub open spec fn found(v: Seq<LintIssue>) -> Seq<Found> { v.map_values(|i: LintIssue| shown(i)) }
proof fn found_push(v: Seq<LintIssue>, i: LintIssue) ensures found(v.push(i)) == found(v) + seq![shown(i)] { assert(found(v.push(i)) =~= found(v) + seq![shown(i)]); }
/// as decimal digits
pub uninterp spec fn plain(n: int) -> Seq<char>;
#[verifier::external_body]
fn digits(n: usize) -> (r: String) ensures r@ == plain(n as int) { n.to_string() }
#[verifier::external_body]
fn digits64(n: u64) -> (r: String) ensures r@ == plain(n as int) { n.to_string() }
#[verifier::external_body]
fn owned(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body]
fn cat2(a: &str, b: &str) -> (r: String) ensures r@ == a@ + b@ { format!("{a}{b}") }
#[verifier::external_body]
fn cat3(a: &str, b: &str, c: &str) -> (r: String) ensures r@ == a@ + b@ + c@ { format!("{a}{b}{c}") }
#[verifier::external_body]
fn cat4(a: &str, b: &str, c: &str, d: &str) -> (r: String) ensures r@ == a@ + b@ + c@ + d@ { format!("{a}{b}{c}{d}") }
#[verifier::external_body]
fn cat5(a: &str, b: &str, c: &str, d: &str, e: &str) -> (r: String) ensures r@ == a@ + b@ + c@ + d@ + e@ { format!("{a}{b}{c}{d}{e}") }
/// `iter().any(|x| *x == s)`
#[verifier::external_body]
fn listed(v: &Vec<&str>, s: &str) -> (r: bool) ensures r == (exists|i: int| 0 <= i < v@.len() && (#[trigger] v@[i])@ == s@) { v.contains(&s) }
pub open spec fn names(v: Seq<&str>, s: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == s }
impl LintIssue {
//@@ fn crates/ass-core/analysis/linting/issue.rs LintIssue::new
//@spec
    requires true
    ensures shown(r) == (Found { sev: severity, cat: category, rule: rule_id@, msg: message@ })
//@ret r
//@@ end
//@@ fn crates/ass-core/analysis/linting/issue.rs LintIssue::severity
//@spec
    requires true
    ensures r == self.severity
//@ret r
//@@ end
    #[verifier::external_body]
    fn with_description(self, d: String) -> (r: Self) ensures shown(r) == shown(self) { unimplemented!() }
    #[verifier::external_body]
    fn with_suggested_fix(self, d: String) -> (r: Self) ensures shown(r) == shown(self) { unimplemented!() }
}
// ---- a script as the rules see it: the first section of events, the styles in force, what is known of each event ---
pub struct Event<'a> { pub start: &'a str, pub end: &'a str, pub text: &'a str, pub style: &'a str }
pub struct Style<'a> { pub primary_colour: &'a str, pub secondary_colour: &'a str, pub outline_colour: &'a str, pub back_colour: &'a str }
pub struct Script<'a> { pub events: Option<Vec<Event<'a>>>, pub styles: Option<Vec<Style<'a>>>, pub info: Option<Vec<(&'a str, &'a str)>> }
pub struct ScriptAnalysis<'a> { pub script: Script<'a>, pub lint_issues: Vec<LintIssue>, pub style_names: Vec<&'a str>, pub dialogue_info: Vec<DialogueInfo<'a>> }
pub open spec fn evs<'a>(a: ScriptAnalysis<'a>) -> Seq<Event<'a>> { match a.script.events { Some(v) => v@, None => Seq::empty() } }
/// `sections().iter().find(..)` for the kind of section
#[verifier::external_body]
fn events_of<'b, 'a>(a: &'b ScriptAnalysis<'a>) -> (r: Option<&'b Vec<Event<'a>>>) ensures match r { Some(v) => a.script.events is Some && v@ == evs(*a), None => a.script.events is None } { a.script.events.as_ref() }
/// centiseconds of a time (contract of unit c_time)
pub uninterp spec fn time(s: Seq<char>) -> Option<u32>;
#[verifier::external_body]
fn parse_ass_time(s: &str) -> (r: core::result::Result<u32, CoreError>) ensures match r { Ok(x) => time(s@) == Some(x), Err(_) => time(s@) is None } { unimplemented!() }
/// what the analysis of a text yields (contract of units c_tags and c_text)
pub uninterp spec fn analysable(s: Seq<char>) -> bool;
pub uninterp spec fn visible_chars(s: Seq<char>) -> nat;
pub uninterp spec fn tags_in(s: Seq<char>) -> Seq<(Seq<char>, Seq<char>)>;
pub uninterp spec fn faults_in(s: Seq<char>) -> Seq<Fault>;
pub enum Fault { Empty, Malformed, Unknown(Seq<char>) }
pub enum DiagnosticKind { EmptyOverride, MalformedTag, UnknownTag(String) }
pub struct TagDiagnostic { pub kind: DiagnosticKind }
pub open spec fn fault(d: TagDiagnostic) -> Fault { match d.kind { DiagnosticKind::EmptyOverride => Fault::Empty, DiagnosticKind::MalformedTag => Fault::Malformed, DiagnosticKind::UnknownTag(s) => Fault::Unknown(s@) } }
pub struct OverrideTag { pub k: u8 }
pub uninterp spec fn tag_of(t: OverrideTag) -> (Seq<char>, Seq<char>);
impl OverrideTag {
    #[verifier::external_body]
    fn name(&self) -> (r: &str) ensures r@ == tag_of(*self).0 { unimplemented!() }
    #[verifier::external_body]
    fn args(&self) -> (r: &str) ensures r@ == tag_of(*self).1 { unimplemented!() }
}
pub struct TextAnalysis { pub k: u8 }
pub uninterp spec fn source_of(t: TextAnalysis) -> Seq<char>;
impl TextAnalysis {
    #[verifier::external_body]
    fn analyze(s: &str) -> (r: core::result::Result<TextAnalysis, CoreError>) ensures match r { Ok(x) => analysable(s@) && source_of(x) == s@, Err(_) => !analysable(s@) } { unimplemented!() }
    #[verifier::external_body]
    fn char_count(&self) -> (r: usize) ensures r == visible_chars(source_of(*self)) { unimplemented!() }
    #[verifier::external_body]
    fn override_tags(&self) -> (r: &Vec<OverrideTag>) ensures r@.map_values(|t: OverrideTag| tag_of(t)) == tags_in(source_of(*self)) { unimplemented!() }
    #[verifier::external_body]
    fn diagnostics(&self) -> (r: &Vec<TagDiagnostic>) ensures r@.map_values(|d: TagDiagnostic| fault(d)) == faults_in(source_of(*self)) { unimplemented!() }
}
pub struct DialogueInfo<'a> { pub event: &'a Event<'a>, pub k: TextAnalysis }
impl<'a> DialogueInfo<'a> {
    #[verifier::external_body]
    fn text_analysis(&self) -> (r: &TextAnalysis) ensures *r == self.k { unimplemented!() }
}
// ---- what each rule finds ---------------------------------------------------------------------------------------
/// what a rule finds in the first k of the events, in order
pub open spec fn gather<T>(v: Seq<T>, f: spec_fn(T) -> Seq<Found>, k: int) -> Seq<Found> decreases k { if k <= 0 { Seq::empty() } else { gather(v, f, k - 1) + f(v[k - 1]) } }
pub open spec fn one(b: bool, sev: IssueSeverity, cat: IssueCategory, rule: Seq<char>, msg: Seq<char>) -> Seq<Found> { if b { seq![Found { sev, cat, rule, msg }] } else { Seq::empty() } }
/// start and end, if both can be read
pub open spec fn span(e: Event) -> Option<(int, int)> { if time(e.start@) is Some && time(e.end@) is Some { Some((time(e.start@)->Some_0 as int, time(e.end@)->Some_0 as int)) } else { None } }

pub struct NegativeDurationRule;
pub open spec fn no_duration(e: Event) -> Seq<Found> { one(span(e) is Some && span(e)->Some_0.0 >= span(e)->Some_0.1, IssueSeverity::Error, IssueCategory::Timing, "negative-duration"@, "Invalid duration: start "@ + e.start@ + " >= end "@ + e.end@) }
impl NegativeDurationRule {
//@@ fn crates/ass-core/analysis/linting/rules/negative_duration.rs NegativeDurationRule::id
//@spec
    requires true
    ensures r@ == "negative-duration"@
//@ret r
//@@ end
//@@ fn crates/ass-core/analysis/linting/rules/negative_duration.rs NegativeDurationRule::default_severity
//@spec
    requires true
    ensures r == IssueSeverity::Error
//@ret r
//@@ end
//@@ fn crates/ass-core/analysis/linting/rules/negative_duration.rs NegativeDurationRule::check_script
//@re (?s)if let Some\(Section::Events\(events\)\) = analysis.*?find\(\|s\| matches!\(s, Section::Events\(_\)\)\) => let ghost f = |e: Event| no_duration(e); if let Some(events) = events_of(analysis)
//@re for event in events \{ => let mut ix: usize = 0; while ix < events.len() { let event = &events[ix]; ix += 1;
//@re (?s)format!\(\s*"Invalid duration: start \{\} >= end \{\}",\s*event\.start, event\.end\s*\) => cat4("Invalid duration: start ", event.start, " >= end ", event.end)
//@re-all ("[^"]*")\.to_string\(\) => owned(\1)
//@re let mut issues = Vec::new\(\); => let mut issues: Vec<LintIssue> = Vec::new(); proof { assert(found(issues@) =~= Seq::<Found>::empty()); }
//@loop 0
    invariant ix <= events.len(), f == (|e: Event| no_duration(e)), found(issues@) == gather(events@, f, ix as int),
    decreases events.len() - ix
//@loopstart 0
            let ghost was = issues@;
//@loopend 0
            proof { assert(events@[ix - 1] == *event); assert(f(*event) == no_duration(*event)); if no_duration(*event).len() > 0 { found_push(was, issues@.last()); assert(issues@ =~= was.push(issues@.last())); } assert(gather(events@, f, ix as int) =~= gather(events@, f, ix - 1) + no_duration(*event)); assert(found(was) + Seq::<Found>::empty() =~= found(was)); }
//@spec
    requires true
    ensures found(r@) == gather(evs(*analysis), |e: Event| no_duration(e), evs(*analysis).len() as int)
//@ret r
//@@ end
}
//==REST
/// either one more finding, or none
proof fn added(was: Seq<LintIssue>, now: Seq<LintIssue>, f: Seq<Found>)
    requires (f.len() == 0 && now == was) || (f.len() == 1 && now.len() > 0 && now == was.push(now.last()) && shown(now.last()) == f[0])
    ensures found(now) == found(was) + f
{ if f.len() == 1 { found_push(was, now.last()); assert(seq![shown(now.last())] =~= f); } else { assert(found(was) + f =~= found(was)); } }
/// the overlapping pairs (contract of unit c_overlap); none can be given if a time cannot be read
pub uninterp spec fn pairs(v: Seq<Event>) -> Option<Seq<(usize, usize)>>;
#[verifier::external_body]
fn find_overlapping_events(v: &Vec<Event>) -> (r: core::result::Result<Vec<(usize, usize)>, CoreError>)
    ensures match r { Ok(x) => pairs(v@) == Some(x@) && (forall|k: int| 0 <= k < x@.len() ==> (#[trigger] x@[k]).0 < v@.len() && x@[k].1 < v@.len()), Err(_) => pairs(v@) is None }
{ unimplemented!() }
pub open spec fn overlapping(v: Seq<Event>, p: (usize, usize)) -> Seq<Found> { let a = v[p.0 as int]; let b = v[p.1 as int]; one(true, IssueSeverity::Warning, IssueCategory::Timing, "timing-overlap"@, "Event overlaps: "@ + a.start@ + " to "@ + a.end@ + " overlaps with "@ + b.start@ + " to "@ + b.end@) }
pub open spec fn overlaps<'a>(a: ScriptAnalysis<'a>) -> Seq<Found> {
    if a.script.events is None { Seq::empty() } else { match pairs(evs(a)) { Some(v) => gather(v, |p: (usize, usize)| overlapping(evs(a), p), v.len() as int),
        None => one(true, IssueSeverity::Warning, IssueCategory::Timing, "timing-overlap"@, "Could not analyze event overlaps due to timing parse errors"@) } }
}
pub struct TimingOverlapRule;
impl TimingOverlapRule {
//@@ fn crates/ass-core/analysis/linting/rules/timing_overlap.rs TimingOverlapRule::id
//@spec
    requires true
    ensures r@ == "timing-overlap"@
//@ret r
//@@ end
//@@ fn crates/ass-core/analysis/linting/rules/timing_overlap.rs TimingOverlapRule::default_severity
//@spec
    requires true
    ensures r == IssueSeverity::Warning
//@ret r
//@@ end
//@@ fn crates/ass-core/analysis/linting/rules/timing_overlap.rs TimingOverlapRule::check_script
//@re (?s)if let Some\(Section::Events\(events\)\) = analysis.*?find\(\|s\| matches!\(s, Section::Events\(_\)\)\) => let ghost f = |p: (usize, usize)| overlapping(evs(*analysis), p); if let Some(events) = events_of(analysis)
//@re for \(i, j\) in overlaps \{ => let mut ix: usize = 0; while ix < overlaps.len() { let (i, j) = overlaps[ix]; ix += 1;
//@re (?s)format!\(\s*"Event overlaps: \{\} to \{\} overlaps with \{\} to \{\}",\s*event1\.start, event1\.end, event2\.start, event2\.end\s*\) => cat4(cat5("Event overlaps: ", event1.start, " to ", event1.end, " overlaps with ").as_str(), event2.start, " to ", event2.end)
//@re-all ("[^"]*")\.to_string\(\) => owned(\1)
//@re let mut issues = Vec::new\(\); => let mut issues: Vec<LintIssue> = Vec::new(); proof { assert(found(issues@) =~= Seq::<Found>::empty()); }
//@loop 0
    invariant ix <= overlaps.len(), a0 == *analysis, events@ == evs(a0), forall|k: int| 0 <= k < overlaps@.len() ==> (#[trigger] overlaps@[k]).0 < events@.len() && overlaps@[k].1 < events@.len(), f == (|p: (usize, usize)| overlapping(evs(a0), p)), found(issues@) == gather(overlaps@, f, ix as int),
    decreases overlaps.len() - ix
//@loopstart 0
            let ghost was = issues@;
//@loopend 0
            proof { let p = overlaps@[ix - 1]; assert(p == (i, j)); assert(f(p) == overlapping(evs(a0), p)); added(was, issues@, overlapping(evs(a0), p)); }
//@after "let issue = LintIssue::new("
//@start
    let ghost a0 = *analysis;
//@re (?s)\n        issues\n => \n        proof { if a0.script.events is Some && pairs(evs(a0)) is None { added(Seq::<LintIssue>::empty(), issues@, overlaps(a0)); assert(found(Seq::<LintIssue>::empty()) + overlaps(a0) =~= overlaps(a0)); } } issues\n
//@spec
    requires true
    ensures found(r@) == overlaps(*analysis)
//@ret r
//@@ end
}
pub open spec fn no_style(styles: Seq<&str>, e: Event) -> Seq<Found> { one(!names(styles, e.style@), IssueSeverity::Error, IssueCategory::Styling, "missing-style"@, "Event references undefined style: "@ + e.style@) }
/// the names of the styles in force
#[verifier::external_body]
fn style_names_of<'b, 'a>(a: &'b ScriptAnalysis<'a>) -> (r: Vec<&'a str>) ensures r@ == a.style_names@ { unimplemented!() }
pub struct MissingStyleRule;
impl MissingStyleRule {
//@@ fn crates/ass-core/analysis/linting/rules/missing_style/rule.rs MissingStyleRule::id
//@spec
    requires true
    ensures r@ == "missing-style"@
//@ret r
//@@ end
//@@ fn crates/ass-core/analysis/linting/rules/missing_style/rule.rs MissingStyleRule::default_severity
//@spec
    requires true
    ensures r == IssueSeverity::Error
//@ret r
//@@ end
//@@ fn crates/ass-core/analysis/linting/rules/missing_style/rule.rs MissingStyleRule::check_script
//@re (?s)if let Some\(Section::Events\(events\)\) = analysis.*?find\(\|s\| matches!\(s, Section::Events\(_\)\)\) => let ghost sn = style_names@; let ghost f = |e: Event| no_style(sn, e); if let Some(events) = events_of(analysis)
//@re for event in events \{ => let mut ix: usize = 0; while ix < events.len() { let event = &events[ix]; ix += 1;
//@re (?s)let style_names: Vec<&str> = analysis\s*\.resolved_styles\(\)\s*\.iter\(\)\s*\.map\(\|style\| style\.name\)\s*\.collect\(\); => let style_names: Vec<&str> = style_names_of(analysis);
//@re style_names\.contains\(&event\.style\) => listed(&style_names, event.style)
//@re (?s)format!\("Event references undefined style: \{\}", event\.style\) => cat2("Event references undefined style: ", event.style)
//@re (?s)format!\(\s*"Define style '\{\}' or use an existing style",\s*event\.style\s*\) => cat3("Define style '", event.style, "' or use an existing style")
//@re let mut issues = Vec::new\(\); => let mut issues: Vec<LintIssue> = Vec::new(); proof { assert(found(issues@) =~= Seq::<Found>::empty()); }
//@loop 0
    invariant ix <= events.len(), sn == style_names@, f == (|e: Event| no_style(sn, e)), found(issues@) == gather(events@, f, ix as int),
    decreases events.len() - ix
//@loopstart 0
            let ghost was = issues@;
//@loopend 0
            proof { assert(events@[ix - 1] == *event); assert(f(*event) == no_style(sn, *event)); added(was, issues@, no_style(sn, *event)); }
//@spec
    requires true
    ensures found(r@) == gather(evs(*analysis), |e: Event| no_style(analysis.style_names@, e), evs(*analysis).len() as int)
//@ret r
//@@ end
}
pub open spec fn fault_text(f: Fault) -> Seq<char> { match f { Fault::Empty => "Empty override tag found"@, Fault::Malformed => "Malformed override tag syntax"@, Fault::Unknown(s) => "Unknown tag: "@ + s } }
pub open spec fn bad_tag(d: Fault) -> Seq<Found> { one(true, IssueSeverity::Warning, IssueCategory::Content, "invalid-tag"@, fault_text(d)) }
pub open spec fn bad_tags(e: Event) -> Seq<Found> { if analysable(e.text@) { gather(faults_in(e.text@), |d: Fault| bad_tag(d), faults_in(e.text@).len() as int) } else { Seq::empty() } }
pub struct InvalidTagRule;
impl InvalidTagRule {
//@@ fn crates/ass-core/analysis/linting/rules/invalid_tag/rule.rs InvalidTagRule::id
//@spec
    requires true
    ensures r@ == "invalid-tag"@
//@ret r
//@@ end
//@@ fn crates/ass-core/analysis/linting/rules/invalid_tag/rule.rs InvalidTagRule::default_severity
//@spec
    requires true
    ensures r == IssueSeverity::Warning
//@ret r
//@@ end
//@@ fn crates/ass-core/analysis/linting/rules/invalid_tag/rule.rs InvalidTagRule::check_script
//@re (?s)if let Some\(Section::Events\(events\)\) = analysis.*?find\(\|s\| matches!\(s, Section::Events\(_\)\)\) => let ghost f = |e: Event| bad_tags(e); let ghost g = |d: Fault| bad_tag(d); if let Some(events) = events_of(analysis)
//@re for event in events \{ => let mut ix: usize = 0; while ix < events.len() { let event = &events[ix]; ix += 1;
//@re (?s)let Ok\(text_analysis\) = TextAnalysis::analyze\(event\.text\) else \{\s*continue;\s*\}; => let text_analysis = match TextAnalysis::analyze(event.text) { Ok(x) => x, Err(_) => { proof { assert(events@[ix - 1] == *event); assert(f(*event) == bad_tags(*event)); assert(found(issues@) + Seq::<Found>::empty() =~= found(issues@)); } continue; } };
//@re for diagnostic in text_analysis\.diagnostics\(\) \{ => let ghost was = issues@; let ghost ds = faults_in(event.text@); let all = text_analysis.diagnostics(); let mut iy: usize = 0; proof { assert(all@.len() == ds.len()) by { assert(all@.map_values(|d: TagDiagnostic| fault(d)).len() == all@.len()); } assert(found(was) + Seq::<Found>::empty() =~= found(was)); } while iy < all.len() { let diagnostic = &all[iy]; iy += 1;
//@re match diagnostic\.kind => match &diagnostic.kind
//@re ref tag_name => tag_name
//@re (?s)format!\("Unknown tag: \{tag_name\}"\) => cat2("Unknown tag: ", tag_name.as_str())
//@re-all ("[^"]*")\.to_string\(\) => owned(\1)
//@re let mut issues = Vec::new\(\); => let mut issues: Vec<LintIssue> = Vec::new(); proof { assert(found(issues@) =~= Seq::<Found>::empty()); }
//@loop 0
    invariant ix <= events.len(), f == (|e: Event| bad_tags(e)), g == (|d: Fault| bad_tag(d)), found(issues@) == gather(events@, f, ix as int),
    decreases events.len() - ix
//@loop 1
    invariant iy <= all.len(), all@.len() == ds.len(), ds == all@.map_values(|d: TagDiagnostic| fault(d)), g == (|d: Fault| bad_tag(d)), found(issues@) == found(was) + gather(ds, g, iy as int),
    decreases all.len() - iy
//@loopstart 1
                    let ghost now = issues@;
//@loopend 1
                    proof { let d = fault(*diagnostic); assert(ds[iy - 1] == d); assert(g(d) == bad_tag(d)); added(now, issues@, bad_tag(d)); assert(found(issues@) =~= found(was) + (gather(ds, g, iy - 1) + bad_tag(d))); }
//@loopend 0
            proof { assert(events@[ix - 1] == *event); assert(f(*event) == bad_tags(*event)); }
//@spec
    requires true
    ensures found(r@) == gather(evs(*analysis), |e: Event| bad_tags(e), evs(*analysis).len() as int)
//@ret r
//@@ end
}
/// more than twenty characters a second, of at most ten thousand, as machine floats compute it
pub uninterp spec fn fast(chars: int, cs: int) -> bool;
pub uninterp spec fn speed_text(chars: int, cs: int) -> Seq<char>;
#[verifier::external_body]
fn too_fast(n: usize, cs: u32) -> (r: bool) requires n > 0, cs > 0 ensures r == fast(n as int, cs as int) { unimplemented!() }
#[verifier::external_body]
fn speed(n: usize, cs: u32) -> (r: String) ensures r@ == speed_text(n as int, cs as int) { unimplemented!() }
pub open spec fn too_short(e: Event) -> Seq<Found> { let s = span(e); one(s is Some && s->Some_0.1 >= s->Some_0.0 && (s->Some_0.1 - s->Some_0.0) * 10 < 500, IssueSeverity::Hint, IssueCategory::Accessibility, "accessibility"@, "Very short event duration: "@ + plain((s->Some_0.1 - s->Some_0.0) * 10) + "ms"@) }
pub open spec fn too_quick(e: Event) -> Seq<Found> { let s = span(e); let d = s->Some_0.1 - s->Some_0.0; let n = visible_chars(e.text@) as int;
    one(s is Some && d > 0 && analysable(e.text@) && n > 0 && fast(n, d), IssueSeverity::Hint, IssueCategory::Accessibility, "accessibility"@, speed_text(n, d)) }
pub open spec fn too_long(e: Event) -> Seq<Found> { one(analysable(e.text@) && visible_chars(e.text@) > 200, IssueSeverity::Hint, IssueCategory::Accessibility, "accessibility"@, "Very long text: "@ + plain(visible_chars(e.text@) as int) + " characters"@) }
pub open spec fn hard_to_read(e: Event) -> Seq<Found> { too_short(e) + too_quick(e) + too_long(e) }
pub struct AccessibilityRule;
impl AccessibilityRule {
//@@ fn crates/ass-core/analysis/linting/rules/accessibility/rule.rs AccessibilityRule::id
//@spec
    requires true
    ensures r@ == "accessibility"@
//@ret r
//@@ end
//@@ fn crates/ass-core/analysis/linting/rules/accessibility/rule.rs AccessibilityRule::default_severity
//@spec
    requires true
    ensures r == IssueSeverity::Hint
//@ret r
//@@ end
//@@ fn crates/ass-core/analysis/linting/rules/accessibility/rule.rs AccessibilityRule::check_script
//@re (?s)if let Some\(Section::Events\(events\)\) = analysis.*?find\(\|s\| matches!\(s, Section::Events\(_\)\)\) => let ghost f = |e: Event| hard_to_read(e); if let Some(events) = events_of(analysis)
//@re for event in events \{ => let mut ix: usize = 0; while ix < events.len() { let event = &events[ix]; ix += 1;
//@re let mut issues = Vec::new\(\); => let mut issues: Vec<LintIssue> = Vec::new(); proof { assert(found(issues@) =~= Seq::<Found>::empty()); }
//@loop 0
    invariant ix <= events.len(), f == (|e: Event| hard_to_read(e)), found(issues@) == gather(events@, f, ix as int),
    decreases events.len() - ix
//@loopstart 0
            let ghost was = issues@;
//@loopend 0
            proof { assert(events@[ix - 1] == *event); assert(f(*event) == hard_to_read(*event)); assert(found(issues@) =~= found(was) + hard_to_read(*event)); }
//@spec
    requires true
    ensures found(r@) == gather(evs(*analysis), |e: Event| hard_to_read(e), evs(*analysis).len() as int)
//@ret r
//@@ end
//@@ fn crates/ass-core/analysis/linting/rules/accessibility/rule.rs AccessibilityRule::check_event_duration
//@sig-re event: &crate::parser::Event => event: &Event
//@re (?s)format!\("Very short event duration: \{duration_ms\}ms"\) => cat3("Very short event duration: ", digits64(duration_ms).as_str(), "ms")
//@re u64::from\(end - start\) => ((end - start) as u64)
//@re-all ("[^"]*")\.to_string\(\) => owned(\1)
//@start
    let ghost was = issues@;
//@finish
    proof { added(was, issues@, too_short(*event)); }
//@spec
    requires true
    ensures found(final(issues)@) == found(old(issues)@) + too_short(*event)
//@@ end
//@@ fn crates/ass-core/analysis/linting/rules/accessibility/rule.rs AccessibilityRule::check_reading_speed
//@sig-re event: &crate::parser::Event => event: &Event
//@re (?s)let duration_seconds = f64::from\(duration_centiseconds\) / 100\.0;\s*let safe_length = u32::try_from\(clean_text_length\)\s*\.unwrap_or\(10_000\)\s*\.min\(10_000\);\s*let chars_per_second = f64::from\(safe_length\) / duration_seconds;\s*if chars_per_second > 20\.0 \{ => if too_fast(clean_text_length, duration_centiseconds) {
//@re (?s)format!\(\s*"Fast reading speed: \{chars_per_second:\.1\} characters/second"\s*\) => speed(clean_text_length, duration_centiseconds)
//@re-all ("[^"]*")\.to_string\(\) => owned(\1)
//@start
    let ghost was = issues@;
//@finish
    proof { added(was, issues@, too_quick(*event)); }
//@spec
    requires true
    ensures found(final(issues)@) == found(old(issues)@) + too_quick(*event)
//@@ end
//@@ fn crates/ass-core/analysis/linting/rules/accessibility/rule.rs AccessibilityRule::check_text_length
//@sig-re event: &crate::parser::Event => event: &Event
//@re (?s)format!\("Very long text: \{clean_text_length\} characters"\) => cat3("Very long text: ", digits(clean_text_length).as_str(), " characters")
//@re-all ("[^"]*")\.to_string\(\) => owned(\1)
//@start
    let ghost was = issues@;
//@finish
    proof { added(was, issues@, too_long(*event)); }
//@spec
    requires true
    ensures found(final(issues)@) == found(old(issues)@) + too_long(*event)
//@@ end
}
pub open spec fn crowded(n: int) -> Seq<Found> { one(n > 1000, IssueSeverity::Hint, IssueCategory::Performance, "performance"@, "Script has "@ + plain(n) + " events, consider optimization"@) }
pub open spec fn heavy(d: DialogueInfo) -> Seq<Found> { let s = source_of(d.k);
    one(visible_chars(s) > 500, IssueSeverity::Hint, IssueCategory::Performance, "performance"@, "Event has very long text ("@ + plain(visible_chars(s) as int) + " characters)"@)
    + one(tags_in(s).len() > 20, IssueSeverity::Hint, IssueCategory::Performance, "performance"@, "Event has many override tags ("@ + plain(tags_in(s).len() as int) + " blocks)"@) }
pub struct PerformanceRule;
impl PerformanceRule {
//@@ fn crates/ass-core/analysis/linting/rules/performance/rule.rs PerformanceRule::id
//@spec
    requires true
    ensures r@ == "performance"@
//@ret r
//@@ end
//@@ fn crates/ass-core/analysis/linting/rules/performance/rule.rs PerformanceRule::default_severity
//@spec
    requires true
    ensures r == IssueSeverity::Hint
//@ret r
//@@ end
//@@ fn crates/ass-core/analysis/linting/rules/performance/rule.rs PerformanceRule::check_script
//@re analysis\.dialogue_info\(\) => &analysis.dialogue_info
//@re let mut issues = Vec::new\(\); => let mut issues: Vec<LintIssue> = Vec::new(); proof { assert(found(issues@) =~= Seq::<Found>::empty()); }
//@spec
    requires true
    ensures found(r@) == crowded(analysis.dialogue_info@.len() as int) + gather(analysis.dialogue_info@, |d: DialogueInfo| heavy(d), analysis.dialogue_info@.len() as int)
//@ret r
//@re (?s)\n        issues\n => \n        proof { assert(found(issues@) =~= crowded(analysis.dialogue_info@.len() as int) + gather(analysis.dialogue_info@, |d: DialogueInfo| heavy(d), analysis.dialogue_info@.len() as int)); } issues\n
//@@ end
//@@ fn crates/ass-core/analysis/linting/rules/performance/rule.rs PerformanceRule::check_event_count
//@re (?s)format!\("Script has \{event_count\} events, consider optimization"\) => cat3("Script has ", digits(event_count).as_str(), " events, consider optimization")
//@re-all ("[^"]*")\.to_string\(\) => owned(\1)
//@start
    let ghost was = issues@;
//@finish
    proof { added(was, issues@, crowded(event_count as int)); }
//@spec
    requires true
    ensures found(final(issues)@) == found(old(issues)@) + crowded(event_count as int)
//@@ end
//@@ fn crates/ass-core/analysis/linting/rules/performance/rule.rs PerformanceRule::check_complex_events
//@sig-re (?s)dialogue_info: &\[crate::analysis::DialogueInfo\] => dialogue_info: &Vec<DialogueInfo>
//@re for info in dialogue_info \{ => let ghost w0 = found(issues@); let ghost f = |d: DialogueInfo| heavy(d); proof { assert(w0 + Seq::<Found>::empty() =~= w0); } let mut ix: usize = 0; while ix < dialogue_info.len() { let info = &dialogue_info[ix]; ix += 1;
//@re (?s)format!\("Event has very long text \(\{text_length\} characters\)"\) => cat3("Event has very long text (", digits(text_length).as_str(), " characters)")
//@re (?s)format!\("Event has many override tags \(\{override_count\} blocks\)"\) => cat3("Event has many override tags (", digits(override_count).as_str(), " blocks)")
//@re-all ("[^"]*")\.to_string\(\) => owned(\1)
//@loop 0
    invariant ix <= dialogue_info.len(), f == (|d: DialogueInfo| heavy(d)), found(issues@) == w0 + gather(dialogue_info@, f, ix as int),
    decreases dialogue_info.len() - ix
//@loopstart 0
            let ghost was = issues@;
//@before "let override_count"
            let ghost mid = issues@; let ghost src = source_of(info.k); let ghost h1 = one(visible_chars(src) > 500, IssueSeverity::Hint, IssueCategory::Performance, "performance"@, "Event has very long text ("@ + plain(visible_chars(src) as int) + " characters)"@);
            let ghost h2 = one(tags_in(src).len() > 20, IssueSeverity::Hint, IssueCategory::Performance, "performance"@, "Event has many override tags ("@ + plain(tags_in(src).len() as int) + " blocks)"@);
            proof { added(was, mid, h1); }
//@loopend 0
            proof { added(mid, issues@, h2); assert(dialogue_info@[ix - 1] == *info); assert(f(*info) == heavy(*info)); assert(heavy(*info) == h1 + h2); assert(found(issues@) =~= w0 + (gather(dialogue_info@, f, ix - 1) + heavy(*info))); }
//@spec
    requires true
    ensures found(final(issues)@) == found(old(issues)@) + gather(dialogue_info@, |d: DialogueInfo| heavy(d), dialogue_info@.len() as int)
//@@ end
}
/// control characters other than these line breaks and tabs
pub uninterp spec fn control(c: char) -> bool;
pub open spec fn has_control(s: Seq<char>, tab_too: bool) -> bool { exists|i: int| 0 <= i < s.len() && control(#[trigger] s[i]) && s[i] != '\n' && s[i] != '\r' && (tab_too || s[i] != '\t') }
#[verifier::external_body]
fn controls_but_tabs(s: &str) -> (r: bool) ensures r == has_control(s@, false) { s.chars().any(|c| c.is_control() && c != '\n' && c != '\r' && c != '\t') }
#[verifier::external_body]
fn controls(s: &str) -> (r: bool) ensures r == has_control(s@, true) { s.chars().any(|c| c.is_control() && c != '\n' && c != '\r') }
#[verifier::external_body]
fn contains_char(s: &str, c: char) -> (r: bool) ensures r == s@.contains(c) { s.contains(c) }
/// texts are shorter than 1 GiB
#[verifier::external_body]
fn counted(s: &str) -> (r: usize) ensures r == s@.len(), r <= 0x3fff_ffff { s.chars().count() }
pub open spec fn e1(s: Seq<char>) -> Seq<Found> { one(has_control(s, false), IssueSeverity::Warning, IssueCategory::Encoding, "encoding"@, "Event contains non-printable control characters"@) }
pub open spec fn e2(s: Seq<char>) -> Seq<Found> { one(s.contains('\u{FFFD}'), IssueSeverity::Warning, IssueCategory::Encoding, "encoding"@, "Event contains Unicode replacement character (�)"@) }
pub open spec fn e3(s: Seq<char>) -> Seq<Found> { one(s.len() > 0 && nbytes(s) > s.len() * 3, IssueSeverity::Hint, IssueCategory::Encoding, "encoding"@, "Event contains many multi-byte characters"@) }
pub open spec fn ill_encoded(e: Event) -> Seq<Found> { e1(e.text@) + e2(e.text@) + e3(e.text@) }
pub open spec fn ill_field(f: (&str, &str)) -> Seq<Found> { one(has_control(f.1@, true), IssueSeverity::Warning, IssueCategory::Encoding, "encoding"@, "Script info field '"@ + f.0@ + "' contains control characters"@) }
pub open spec fn ill_info(s: Script) -> Seq<Found> { match s.info { Some(v) => gather(v@, |f: (&str, &str)| ill_field(f), v@.len() as int), None => Seq::empty() } }
#[verifier::external_body]
fn info_of<'b, 'a>(s: &'b Script<'a>) -> (r: Option<&'b Vec<(&'a str, &'a str)>>) ensures match r { Some(v) => s.info is Some && v@ == s.info->Some_0@, None => s.info is None } { s.info.as_ref() }
pub struct EncodingRule;
impl EncodingRule {
//@@ fn crates/ass-core/analysis/linting/rules/encoding/rule.rs EncodingRule::id
//@spec
    requires true
    ensures r@ == "encoding"@
//@ret r
//@@ end
//@@ fn crates/ass-core/analysis/linting/rules/encoding/rule.rs EncodingRule::default_severity
//@spec
    requires true
    ensures r == IssueSeverity::Warning
//@ret r
//@@ end
//@@ fn crates/ass-core/analysis/linting/rules/encoding/rule.rs EncodingRule::check_script
//@re (?s)if let Some\(Section::Events\(events\)\) = analysis.*?find\(\|s\| matches!\(s, Section::Events\(_\)\)\) => let ghost f = |e: Event| ill_encoded(e); if let Some(events) = events_of(analysis)
//@re for event in events \{ => let mut ix: usize = 0; while ix < events.len() { let event = &events[ix]; ix += 1;
//@re analysis\.script\(\) => &analysis.script
//@before "self.check_script_info_encoding"
        let ghost found_events = found(issues@);
//@re let mut issues = Vec::new\(\); => let mut issues: Vec<LintIssue> = Vec::new(); proof { assert(found(issues@) =~= Seq::<Found>::empty()); }
//@loop 0
    invariant ix <= events.len(), f == (|e: Event| ill_encoded(e)), found(issues@) == gather(events@, f, ix as int),
    decreases events.len() - ix
//@loopend 0
            proof { assert(events@[ix - 1] == *event); assert(f(*event) == ill_encoded(*event)); }
//@spec
    requires true
    ensures found(r@) == gather(evs(*analysis), |e: Event| ill_encoded(e), evs(*analysis).len() as int) + ill_info(analysis.script)
//@ret r
//@@ end
//@@ fn crates/ass-core/analysis/linting/rules/encoding/rule.rs EncodingRule::check_event_encoding
//@sig-re event: &crate::parser::Event => event: &Event
//@re (?s)event\s*\.text\s*\.chars\(\)\s*\.any\(\|c\| c\.is_control\(\) && c != '\\n' && c != '\\r' && c != '\\t'\) => controls_but_tabs(event.text)
//@re event\.text\.contains\('\\u\{FFFD\}'\) => contains_char(event.text, '\\u{FFFD}')
//@re event\.text\.chars\(\)\.count\(\) => counted(event.text)
//@re event\.text\.len\(\) => blen(event.text)
//@re-all ("[^"]*")\.to_string\(\) => owned(\1)
//@start
    let ghost was = issues@;
//@before "if contains_char("
        let ghost mid = issues@; proof { added(was, mid, e1(event.text@)); }
//@before "let char_count"
        let ghost mid2 = issues@; proof { added(mid, mid2, e2(event.text@)); }
//@finish
    proof { added(mid2, issues@, e3(event.text@)); assert(found(issues@) =~= found(was) + ill_encoded(*event)); }
//@spec
    requires true
    ensures found(final(issues)@) == found(old(issues)@) + ill_encoded(*event)
//@@ end
//@@ fn crates/ass-core/analysis/linting/rules/encoding/rule.rs EncodingRule::check_script_info_encoding
//@sig-re script: &crate::parser::Script => script: &Script
//@re (?s)if let Some\(Section::ScriptInfo\(info\)\) = script.*?find\(\|s\| matches!\(s, Section::ScriptInfo\(_\)\)\) => let ghost w0 = found(issues@); let ghost f = |x: (&str, &str)| ill_field(x); proof { assert(w0 + Seq::<Found>::empty() =~= w0); } if let Some(fields) = info_of(script)
//@re for \(key, value\) in &info\.fields \{ => let mut ix: usize = 0; while ix < fields.len() { let (key, value) = fields[ix]; ix += 1;
//@re (?s)value\s*\.chars\(\)\s*\.any\(\|c\| c\.is_control\(\) && c != '\\n' && c != '\\r'\) => controls(value)
//@re (?s)format!\("Script info field '\{key\}' contains control characters"\) => cat3("Script info field '", key, "' contains control characters")
//@loop 0
    invariant ix <= fields.len(), f == (|x: (&str, &str)| ill_field(x)), found(issues@) == w0 + gather(fields@, f, ix as int),
    decreases fields.len() - ix
//@loopstart 0
                let ghost was = issues@;
//@loopend 0
                proof { let x = fields@[ix - 1]; assert(x == (key, value)); assert(f(x) == ill_field(x)); added(was, issues@, ill_field(x)); assert(found(issues@) =~= w0 + (gather(fields@, f, ix - 1) + ill_field(x))); }
//@spec
    requires true
    ensures found(final(issues)@) == found(old(issues)@) + ill_info(*script)
//@@ end
}
/// a colour that can be read (contract of unit c_color)
pub uninterp spec fn colour(s: Seq<char>) -> bool;
#[verifier::external_body]
fn parse_bgr_color(s: &str) -> (r: core::result::Result<[u8; 4], CoreError>) ensures r is Ok == colour(s@) { unimplemented!() }
/// the name of a colour tag and the value between &H and the next &
pub uninterp spec fn colour_tag(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)>;
pub uninterp spec fn parts_of(s: Seq<char>) -> Seq<Seq<char>>;
/// `split('\\').skip(1)`
#[verifier::external_body]
fn parts<'a>(s: &'a str) -> (r: Vec<&'a str>) ensures r@.map_values(|x: &str| x@) == parts_of(s@) { s.split('\\').skip(1).collect() }
#[verifier::external_body]
fn nothing(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
pub open spec fn bad_colour(field: Seq<char>, value: Seq<char>) -> Seq<Found> { one(!colour(value), IssueSeverity::Error, IssueCategory::Styling, "invalid-color"@, "Invalid "@ + field + " color: "@ + value) }
pub open spec fn bad_colours(s: Style) -> Seq<Found> { bad_colour("primary"@, s.primary_colour@) + bad_colour("secondary"@, s.secondary_colour@) + bad_colour("outline"@, s.outline_colour@) + bad_colour("back"@, s.back_colour@) }
pub open spec fn bad_part(p: Seq<char>) -> Seq<Found> { let c = colour_tag(p)->Some_0; one(p.len() > 0 && colour_tag(p) is Some && !colour("&H"@ + c.1 + "&"@), IssueSeverity::Error, IssueCategory::Styling, "invalid-color"@, "Invalid color override tag: \\"@ + c.0 + "&H"@ + c.1 + "&"@) }
pub open spec fn bad_parts(s: Seq<char>) -> Seq<Found> { gather(parts_of(s), |p: Seq<char>| bad_part(p), parts_of(s).len() as int) }
pub open spec fn bad_override(t: (Seq<char>, Seq<char>)) -> Seq<Found> { bad_parts("\\"@ + t.0 + t.1) }
pub open spec fn bad_overrides(e: Event) -> Seq<Found> { if analysable(e.text@) { gather(tags_in(e.text@), |t: (Seq<char>, Seq<char>)| bad_override(t), tags_in(e.text@).len() as int) } else { Seq::empty() } }
pub open spec fn bad_styles(s: Script) -> Seq<Found> { match s.styles { Some(v) => gather(v@, |x: Style| bad_colours(x), v@.len() as int), None => Seq::empty() } }
#[verifier::external_body]
fn styles_of<'b, 'a>(a: &'b ScriptAnalysis<'a>) -> (r: Option<&'b Vec<Style<'a>>>) ensures match r { Some(v) => a.script.styles is Some && v@ == a.script.styles->Some_0@, None => a.script.styles is None } { a.script.styles.as_ref() }
pub struct InvalidColorRule;
impl InvalidColorRule {
//@@ fn crates/ass-core/analysis/linting/rules/invalid_color/rule.rs InvalidColorRule::id
//@spec
    requires true
    ensures r@ == "invalid-color"@
//@ret r
//@@ end
//@@ fn crates/ass-core/analysis/linting/rules/invalid_color/rule.rs InvalidColorRule::default_severity
//@spec
    requires true
    ensures r == IssueSeverity::Error
//@ret r
//@@ end
    #[verifier::external_body]
    fn parse_color_tag(s: &str) -> (r: Option<(String, String)>) ensures match r { Some(x) => colour_tag(s@) == Some((x.0@, x.1@)), None => colour_tag(s@) is None } { unimplemented!() }
//@@ fn crates/ass-core/analysis/linting/rules/invalid_color/rule.rs InvalidColorRule::check_script
//@re (?s)if let Some\(Section::Styles\(styles\)\) = analysis.*?find\(\|s\| matches!\(s, Section::Styles\(_\)\)\) => let ghost fs = |x: Style| bad_colours(x); if let Some(styles) = styles_of(analysis)
//@re for style in styles \{ => let mut iz: usize = 0; while iz < styles.len() { let style = &styles[iz]; iz += 1;
//@re (?s)if let Some\(Section::Events\(events\)\) = analysis.*?find\(\|s\| matches!\(s, Section::Events\(_\)\)\) => let ghost w0 = found(issues@); let ghost f = |e: Event| bad_overrides(e); let ghost g = |t: (Seq<char>, Seq<char>)| bad_override(t); proof { assert(w0 == bad_styles(analysis.script)); assert(w0 + Seq::<Found>::empty() =~= w0); } if let Some(events) = events_of(analysis)
//@re for event in events \{ => let mut ix: usize = 0; while ix < events.len() { let event = &events[ix]; ix += 1;
//@re (?s)let Ok\(text_analysis\) = TextAnalysis::analyze\(event\.text\) else \{\s*continue;\s*\}; => let text_analysis = match TextAnalysis::analyze(event.text) { Ok(x) => x, Err(_) => { proof { assert(events@[ix - 1] == *event); assert(f(*event) == bad_overrides(*event)); assert(found(issues@) =~= w0 + (gather(events@, f, ix - 1) + Seq::<Found>::empty())); } continue; } };
//@re for tag in text_analysis\.override_tags\(\) \{ => let ghost was = found(issues@); let ghost ts = tags_in(event.text@); let all = text_analysis.override_tags(); let mut iy: usize = 0; proof { assert(all@.len() == ts.len()) by { assert(all@.map_values(|t: OverrideTag| tag_of(t)).len() == all@.len()); } assert(was + Seq::<Found>::empty() =~= was); } while iy < all.len() { let tag = &all[iy]; iy += 1;
//@re format!\("\\\\\{\}\{\}", tag\.name\(\), tag\.args\(\)\) => cat3("\\\\", tag.name(), tag.args())
//@re check_color_override_tags\(&mut issues, &tag_content\) => check_color_override_tags(&mut issues, tag_content.as_str())
//@re let mut issues = Vec::new\(\); => let mut issues: Vec<LintIssue> = Vec::new(); proof { assert(found(issues@) =~= Seq::<Found>::empty()); }
//@loop 0
    invariant iz <= styles.len(), fs == (|x: Style| bad_colours(x)), found(issues@) == gather(styles@, fs, iz as int),
    decreases styles.len() - iz
//@loopstart 0
                let ghost was = found(issues@);
//@loopend 0
                proof { assert(styles@[iz - 1] == *style); assert(fs(*style) == bad_colours(*style)); assert(found(issues@) =~= was + bad_colours(*style)); }
//@loop 1
    invariant ix <= events.len(), f == (|e: Event| bad_overrides(e)), g == (|t: (Seq<char>, Seq<char>)| bad_override(t)), found(issues@) == w0 + gather(events@, f, ix as int),
    decreases events.len() - ix
//@loop 2
    invariant iy <= all.len(), all@.len() == ts.len(), ts == all@.map_values(|t: OverrideTag| tag_of(t)), g == (|t: (Seq<char>, Seq<char>)| bad_override(t)), found(issues@) == was + gather(ts, g, iy as int),
    decreases all.len() - iy
//@loopstart 2
                    let ghost now = found(issues@);
//@loopend 2
                    proof { let x = tag_of(*tag); assert(ts[iy - 1] == x); assert(g(x) == bad_override(x)); assert(found(issues@) =~= was + (gather(ts, g, iy - 1) + bad_override(x))); }
//@loopend 1
            proof { assert(events@[ix - 1] == *event); assert(f(*event) == bad_overrides(*event)); assert(found(issues@) =~= w0 + (gather(events@, f, ix - 1) + bad_overrides(*event))); }
//@spec
    requires true
    ensures found(r@) == bad_styles(analysis.script) + gather(evs(*analysis), |e: Event| bad_overrides(e), evs(*analysis).len() as int)
//@ret r
//@@ end
//@@ fn crates/ass-core/analysis/linting/rules/invalid_color/rule.rs InvalidColorRule::check_style_color
//@re format!\("Invalid \{field_name\} color: \{color_value\}"\) => cat4("Invalid ", field_name, " color: ", color_value)
//@start
    let ghost was = issues@;
//@finish
    proof { added(was, issues@, bad_colour(field_name@, color_value@)); }
//@spec
    requires true
    ensures found(final(issues)@) == found(old(issues)@) + bad_colour(field_name@, color_value@)
//@@ end
//@@ fn crates/ass-core/analysis/linting/rules/invalid_color/rule.rs InvalidColorRule::check_color_override_tags
//@re for tag_part in span\.split\('\\\\'\)\.skip\(1\) \{ => let ghost w0 = found(issues@); let ghost f = |p: Seq<char>| bad_part(p); let ghost ps = parts_of(span@); let all = parts(span); proof { assert(all@.len() == ps.len()) by { assert(all@.map_values(|x: &str| x@).len() == all@.len()); } assert(w0 + Seq::<Found>::empty() =~= w0); } let mut ix: usize = 0; while ix < all.len() { let tag_part = all[ix]; ix += 1;
//@re (?s)if tag_part\.is_empty\(\) \{\s*continue;\s*\} => if nothing(tag_part) { proof { assert(ps[ix - 1] == tag_part@); assert(f(tag_part@) == bad_part(tag_part@)); assert(found(issues@) =~= w0 + (gather(ps, f, ix - 1) + bad_part(tag_part@))); } continue; }
//@re parse_bgr_color\(&format!\("&H\{color_value\}&"\)\) => parse_bgr_color(cat3("&H", color_value.as_str(), "&").as_str())
//@re (?s)format!\("Invalid color override tag: \\\\\{tag_name\}&H\{color_value\}&"\) => cat5("Invalid color override tag: \\\\", tag_name.as_str(), "&H", color_value.as_str(), "&")
//@loop 0
    invariant ix <= all.len(), all@.len() == ps.len(), ps == all@.map_values(|x: &str| x@), f == (|p: Seq<char>| bad_part(p)), found(issues@) == w0 + gather(ps, f, ix as int),
    decreases all.len() - ix
//@loopstart 0
            let ghost was = issues@;
//@loopend 0
            proof { let p = tag_part@; assert(ps[ix - 1] == p); assert(f(p) == bad_part(p)); added(was, issues@, bad_part(p)); assert(found(issues@) =~= w0 + (gather(ps, f, ix - 1) + bad_part(p))); }
//@spec
    requires true
    ensures found(final(issues)@) == found(old(issues)@) + bad_parts(span@)
//@@ end
}
// ---- the rules together: `Box<dyn LintRule>` as one type, its methods those of the rule in it ----------------------
pub enum Rule { TimingOverlapRule(TimingOverlapRule), NegativeDurationRule(NegativeDurationRule), InvalidColorRule(InvalidColorRule), MissingStyleRule(MissingStyleRule), InvalidTagRule(InvalidTagRule), PerformanceRule(PerformanceRule), EncodingRule(EncodingRule), AccessibilityRule(AccessibilityRule) }
pub open spec fn rule_id(r: Rule) -> Seq<char> { match r { Rule::TimingOverlapRule(_) => "timing-overlap"@, Rule::NegativeDurationRule(_) => "negative-duration"@, Rule::InvalidColorRule(_) => "invalid-color"@, Rule::MissingStyleRule(_) => "missing-style"@, Rule::InvalidTagRule(_) => "invalid-tag"@, Rule::PerformanceRule(_) => "performance"@, Rule::EncodingRule(_) => "encoding"@, Rule::AccessibilityRule(_) => "accessibility"@ } }
pub open spec fn finds(r: Rule, a: ScriptAnalysis) -> Seq<Found> { let n = evs(a).len() as int; match r { Rule::TimingOverlapRule(_) => overlaps(a), Rule::NegativeDurationRule(_) => gather(evs(a), |e: Event| no_duration(e), n), Rule::InvalidColorRule(_) => bad_styles(a.script) + gather(evs(a), |e: Event| bad_overrides(e), n), Rule::MissingStyleRule(_) => gather(evs(a), |e: Event| no_style(a.style_names@, e), n), Rule::InvalidTagRule(_) => gather(evs(a), |e: Event| bad_tags(e), n), Rule::PerformanceRule(_) => crowded(a.dialogue_info@.len() as int) + gather(a.dialogue_info@, |d: DialogueInfo| heavy(d), a.dialogue_info@.len() as int), Rule::EncodingRule(_) => gather(evs(a), |e: Event| ill_encoded(e), n) + ill_info(a.script), Rule::AccessibilityRule(_) => gather(evs(a), |e: Event| hard_to_read(e), n) } }
impl Rule {
    fn id(&self) -> (r: &'static str) ensures r@ == rule_id(*self) { match self { Rule::TimingOverlapRule(x) => x.id(), Rule::NegativeDurationRule(x) => x.id(), Rule::InvalidColorRule(x) => x.id(), Rule::MissingStyleRule(x) => x.id(), Rule::InvalidTagRule(x) => x.id(), Rule::PerformanceRule(x) => x.id(), Rule::EncodingRule(x) => x.id(), Rule::AccessibilityRule(x) => x.id() } }
    fn check_script(&self, a: &ScriptAnalysis) -> (r: Vec<LintIssue>) ensures found(r@) == finds(*self, *a) { match self { Rule::TimingOverlapRule(x) => x.check_script(a), Rule::NegativeDurationRule(x) => x.check_script(a), Rule::InvalidColorRule(x) => x.check_script(a), Rule::MissingStyleRule(x) => x.check_script(a), Rule::InvalidTagRule(x) => x.check_script(a), Rule::PerformanceRule(x) => x.check_script(a), Rule::EncodingRule(x) => x.check_script(a), Rule::AccessibilityRule(x) => x.check_script(a) } }
}
pub struct BuiltinRules;
pub open spec fn every() -> Seq<Rule> { seq![Rule::TimingOverlapRule(TimingOverlapRule), Rule::NegativeDurationRule(NegativeDurationRule), Rule::InvalidColorRule(InvalidColorRule), Rule::MissingStyleRule(MissingStyleRule), Rule::InvalidTagRule(InvalidTagRule), Rule::PerformanceRule(PerformanceRule), Rule::EncodingRule(EncodingRule), Rule::AccessibilityRule(AccessibilityRule)] }
impl BuiltinRules {
//@@ fn crates/ass-core/analysis/linting/rules/builtin.rs BuiltinRules::all_rules
//@sig-re Vec<Box<dyn LintRule>> => Vec<Rule>
//@re-all Box::new\((\w+)\) => Rule::\1(\1)
//@spec
    requires true
    ensures r@ == every()
//@ret r
//@re (?s)(vec!\[.*?\]) => let all = \1; proof { assert(all@ =~= every()); } all
//@@ end
}

pub open spec fn severe(c: LintConfig, s: IssueSeverity) -> bool { s as int >= c.min_severity as int }
pub open spec fn enabled(c: LintConfig, id: Seq<char>) -> bool { !names(c.disabled_rules@, id) && (c.enabled_rules@.len() == 0 || names(c.enabled_rules@, id)) }
impl LintConfig {
//@@ fn crates/ass-core/analysis/linting/config.rs LintConfig::is_rule_enabled
//@re self\.disabled_rules\.contains\(&rule_id\) => listed(&self.disabled_rules, rule_id)
//@re self\.enabled_rules\.is_empty\(\) => self.enabled_rules.len() == 0
//@re self\.enabled_rules\.contains\(&rule_id\) => listed(&self.enabled_rules, rule_id)
//@spec
    requires true
    ensures r == enabled(*self, rule_id@)
//@ret r
//@@ end
//@@ fn crates/ass-core/analysis/linting/config.rs LintConfig::should_report_severity
//@re severity >= self\.min_severity => severity as u8 >= self.min_severity as u8
//@spec
    requires true
    ensures r == severe(*self, severity)
//@ret r
//@@ end
//@@ fn crates/ass-core/analysis/linting/config.rs LintConfig::default
//@spec
    requires true
    ensures r.min_severity == IssueSeverity::Info, r.max_issues == 0, r.enabled_rules@.len() == 0, r.disabled_rules@.len() == 0
//@ret r
//@@ end
    #[verifier::external_body]
    fn with_strict_compliance(self, enabled: bool) -> (r: Self) ensures r.min_severity == self.min_severity, r.max_issues == self.max_issues, r.enabled_rules == self.enabled_rules, r.disabled_rules == self.disabled_rules { unimplemented!() }
}
/// `retain(|issue| config.should_report_severity(issue.severity()))`
#[verifier::external_body]
fn keep_severe(v: &mut Vec<LintIssue>, c: &LintConfig) ensures found(final(v)@) == found(old(v)@).filter(|f: Found| severe(*c, f.sev)) { unimplemented!() }
/// `truncate`
#[verifier::external_body]
fn cut_to(v: &mut Vec<LintIssue>, n: usize) ensures final(v)@ == (if n <= old(v)@.len() { old(v)@.take(n as int) } else { old(v)@ }) { v.truncate(n) }
/// what the enabled rules among the first k find that is severe enough
pub open spec fn upto(c: LintConfig, a: ScriptAnalysis, v: Seq<Rule>, k: int) -> Seq<Found> decreases k {
    if k <= 0 { Seq::empty() } else if enabled(c, rule_id(v[k - 1])) { upto(c, a, v, k - 1) + finds(v[k - 1], a).filter(|f: Found| severe(c, f.sev)) } else { upto(c, a, v, k - 1) }
}
/// and no more of it than asked for
pub open spec fn limited(c: LintConfig, v: Seq<Found>) -> Seq<Found> { if c.max_issues > 0 && v.len() > c.max_issues { v.take(c.max_issues as int) } else { v } }
pub open spec fn reported(c: LintConfig, a: ScriptAnalysis) -> Seq<Found> { limited(c, upto(c, a, every(), every().len() as int)) }
proof fn upto_grows(c: LintConfig, a: ScriptAnalysis, v: Seq<Rule>, k: int, l: int) requires 0 <= k <= l ensures upto(c, a, v, k).len() <= upto(c, a, v, l).len(), upto(c, a, v, l).take(upto(c, a, v, k).len() as int) == upto(c, a, v, k) decreases l
{ if k < l { upto_grows(c, a, v, k, l - 1); let p = upto(c, a, v, k); assert(upto(c, a, v, l).take(p.len() as int) =~= upto(c, a, v, l - 1).take(p.len() as int)); } else { assert(upto(c, a, v, l).take(upto(c, a, v, k).len() as int) =~= upto(c, a, v, k)); } }
proof fn limited_early(c: LintConfig, a: ScriptAnalysis, v: Seq<Rule>, k: int) requires 0 <= k <= v.len(), c.max_issues > 0, upto(c, a, v, k).len() >= c.max_issues ensures upto(c, a, v, k).take(c.max_issues as int) == limited(c, upto(c, a, v, v.len() as int))
{ upto_grows(c, a, v, k, v.len() as int); let p = upto(c, a, v, k); let q = upto(c, a, v, v.len() as int); assert(q.take(p.len() as int) == p); assert(p.take(c.max_issues as int) =~= q.take(c.max_issues as int)); if q.len() == c.max_issues { assert(q.take(c.max_issues as int) =~= q); } }
//@@ fn crates/ass-core/analysis/linting/runner.rs lint_script_with_analysis
//@sig-re Result<Vec<LintIssue>> => core::result::Result<Vec<LintIssue>, CoreError>
//@re for rule in rules \{ => let ghost a0 = *analysis; let ghost c0 = *config; let ghost mut over: bool = false; proof { assert(found(issues@) =~= Seq::<Found>::empty()); } let mut ix: usize = 0; while ix < rules.len() { let rule = &rules[ix]; ix += 1;
//@re (?s)rule_issues\.retain\(\|issue\| config\.should_report_severity\(issue\.severity\(\)\)\); => keep_severe(&mut rule_issues, config);
//@re issues\.extend\(rule_issues\); => let ghost got = rule_issues@; issues.append(&mut rule_issues); proof { assert(rules@[ix - 1] == *rule); assert(found(issues@) =~= found(was) + found(got)); assert(found(issues@) == upto(c0, a0, every(), ix as int)); }
//@re issues\.truncate\(config\.max_issues\); => let ghost full = issues@; cut_to(&mut issues, config.max_issues); proof { over = true; limited_early(c0, a0, every(), ix as int); assert(found(issues@) =~= found(full).take(c0.max_issues as int)); }
//@re let mut issues = Vec::new\(\); => let mut issues: Vec<LintIssue> = Vec::new();
//@loop 0
    invariant_except_break !over, ix <= rules.len(), found(issues@) == upto(c0, a0, every(), ix as int), c0.max_issues == 0 || issues@.len() < c0.max_issues || ix == 0,
    invariant rules@ == every(), c0 == *config, a0 == *analysis,
    ensures over ==> found(issues@) == reported(c0, a0), !over ==> found(issues@) == upto(c0, a0, every(), every().len() as int) && (c0.max_issues == 0 || issues@.len() < c0.max_issues),
    decreases rules.len() - ix
//@loopstart 0
            let ghost was = issues@;
//@spec
    requires true
    ensures r is Ok, found(r->Ok_0@) == reported(*config, *analysis)
//@ret r
//@@ end
impl<'a> ScriptAnalysis<'a> {
    #[verifier::external_body]
    fn strict(&self) -> bool { unimplemented!() }
//@@ fn crates/ass-core/analysis/construction.rs ScriptAnalysis::run_linting
//@re (?s)self\.config\s*\.options\s*\.contains\(ScriptAnalysisOptions::STRICT_COMPLIANCE\) => self.strict()
//@re linting::rules::BuiltinRules => BuiltinRules
//@re for rule in rules \{ => let ghost a0 = *old(self); let ghost c0 = lint_config; let ghost mut over: bool = false; proof { assert(found(issues@) =~= Seq::<Found>::empty()); } let mut ix: usize = 0; while ix < rules.len() { let rule = &rules[ix]; ix += 1;
//@re (?s)rule_issues\.retain\(\|issue\| lint_config\.should_report_severity\(issue\.severity\(\)\)\); => keep_severe(&mut rule_issues, &lint_config);
//@re issues\.extend\(rule_issues\); => let ghost got = rule_issues@; issues.append(&mut rule_issues); proof { assert(rules@[ix - 1] == *rule); assert(found(issues@) =~= found(was) + found(got)); assert(found(issues@) == upto(c0, a0, every(), ix as int)); }
//@re issues\.truncate\(lint_config\.max_issues\); => let ghost full = issues@; cut_to(&mut issues, lint_config.max_issues); proof { over = true; limited_early(c0, a0, every(), ix as int); assert(found(issues@) =~= found(full).take(c0.max_issues as int)); }
//@re let mut issues = Vec::new\(\); => let mut issues: Vec<LintIssue> = Vec::new();
//@loop 0
    invariant_except_break !over, ix <= rules.len(), found(issues@) == upto(c0, a0, every(), ix as int), c0.max_issues == 0 || issues@.len() < c0.max_issues || ix == 0,
    invariant rules@ == every(), c0 == lint_config, a0 == *old(self), *self == *old(self),
    ensures over ==> found(issues@) == reported(c0, a0), !over ==> found(issues@) == upto(c0, a0, every(), every().len() as int) && (c0.max_issues == 0 || issues@.len() < c0.max_issues),
    decreases rules.len() - ix
//@loopstart 0
            let ghost was = issues@;
//@spec
    requires true
    ensures exists|c: LintConfig| c.min_severity == IssueSeverity::Info && c.max_issues == 0 && c.enabled_rules@.len() == 0 && c.disabled_rules@.len() == 0 && found(final(self).lint_issues@) == #[trigger] reported(c, *old(self)),
        final(self).script == old(self).script, final(self).dialogue_info == old(self).dialogue_info, final(self).style_names == old(self).style_names
//@finish
    proof { assert(found(self.lint_issues@) == reported(lint_config, a0)); }
//@@ end
}
//==END
fn main() {}
}
