use vstd::prelude::*;
use vstd::string::*;
verus! {
//@@ struct crates/ass-core/parser/ast/span.rs Span derive(Clone, Copy)
//@@ struct crates/ass-core/parser/ast/section/section_type.rs SectionType derive(Clone, Copy)
/// the fields of an entry other than its span, as one value
#[derive(Clone, Copy)]
pub struct Rest { pub k: u64 }
#[derive(Clone, Copy)]
pub struct Style { pub span: Span, pub rest: Rest }
#[derive(Clone, Copy)]
pub struct Event { pub span: Span, pub rest: Rest }
pub struct Other { pub k: u64 }
pub struct ScriptInfo<'a> { pub fields: Vec<(&'a str, &'a str)>, pub span: Span }
pub enum Section<'a> { ScriptInfo(ScriptInfo<'a>), Styles(Vec<Style>), Events(Vec<Event>), Fonts(Other), Graphics(Other) }
pub enum LineContent<'a> { Style(Box<Style>), Event(Box<Event>), Field(&'a str, &'a str) }
pub enum ParseError { SectionNotFound, IndexOutOfBounds, InvalidFieldFormat { line: usize }, Refused(u8) }
pub enum Change<'a> { Added { offset: usize, content: LineContent<'a>, line_number: u32 }, Modified { offset: usize, old_content: LineContent<'a>, new_content: LineContent<'a>, line_number: u32 }, SectionAdded { section: Section<'a>, index: usize }, SectionRemoved { section_type: SectionType, index: usize } }
pub struct ChangeTracker { pub k: u64 }
impl ChangeTracker {
    #[verifier::external_body]
    fn record(&mut self, c: Change) { unimplemented!() }
}
pub struct Script<'a> { pub sections: Vec<Section<'a>>, pub styles_format: Option<Vec<&'a str>>, pub events_format: Option<Vec<&'a str>>, pub change_tracker: ChangeTracker }
//@@ struct crates/ass-core/parser/script/types.rs UpdateOperation
pub struct BatchUpdateResult<'a> { pub updated: Vec<(usize, LineContent<'a>)>, pub failed: Vec<(usize, ParseError)> }
pub struct StyleBatch { pub styles: Vec<Style> }
pub struct EventBatch { pub events: Vec<Event> }
// ---- a script as a value ------------------------------------------------------------------------------------------
pub type Pair = (Seq<char>, Seq<char>);
pub enum Sec { Info(Seq<Pair>, Span), Styles(Seq<Style>), Events(Seq<Event>), Fonts(Other), Graphics(Other) }
pub open spec fn pairs(v: Seq<(&str, &str)>) -> Seq<Pair> { v.map_values(|f: (&str, &str)| (f.0@, f.1@)) }
pub open spec fn look(s: Section) -> Sec { match s { Section::ScriptInfo(i) => Sec::Info(pairs(i.fields@), i.span), Section::Styles(v) => Sec::Styles(v@), Section::Events(v) => Sec::Events(v@), Section::Fonts(o) => Sec::Fonts(o), Section::Graphics(o) => Sec::Graphics(o) } }
pub open spec fn secs(s: Script) -> Seq<Sec> { s.sections@.map_values(|x: Section| look(x)) }
pub enum Content { Style(Style), Event(Event), Field(Seq<char>, Seq<char>) }
pub open spec fn content(c: LineContent) -> Content { match c { LineContent::Style(s) => Content::Style(*s), LineContent::Event(e) => Content::Event(*e), LineContent::Field(k, v) => Content::Field(k@, v@) } }
/// the part of the source a section covers
pub uninterp spec fn covered(s: Sec) -> Option<Span>;
pub open spec fn inside(p: Span, o: int) -> bool { p.start <= o < p.end }
pub open spec fn covers(s: Sec, o: int) -> bool { covered(s) is Some && inside(covered(s)->Some_0, o) }
impl<'a> Section<'a> {
    #[verifier::external_body]
    fn span(&self) -> (r: Option<Span>) ensures r == covered(look(*self)) { unimplemented!() }
    #[verifier::external_body]
    fn copy(&self) -> (r: Self) ensures look(r) == look(*self) { unimplemented!() }
    #[verifier::external_body]
    fn section_type(&self) -> (r: SectionType) ensures r == type_of(look(*self)) { unimplemented!() }
}
pub open spec fn type_of(s: Sec) -> SectionType { match s { Sec::Info(_, _) => SectionType::ScriptInfo, Sec::Styles(_) => SectionType::Styles, Sec::Events(_) => SectionType::Events, Sec::Fonts(_) => SectionType::Fonts, Sec::Graphics(_) => SectionType::Graphics } }
impl<'a> LineContent<'a> {
    #[verifier::external_body]
    fn copy(&self) -> (r: Self) ensures content(r) == content(*self) { unimplemented!() }
}
/// what a line says, read with these format lines
pub uninterp spec fn read_line(sf: Option<Vec<&str>>, ef: Option<Vec<&str>>, line: Seq<char>, n: u32) -> Option<Content>;
pub open spec fn said(s: Script, line: Seq<char>, n: u32) -> Option<Content> { read_line(s.styles_format, s.events_format, line, n) }
// ---- the first of a list that ... ---------------------------------------------------------------------------------
pub open spec fn first<T>(v: Seq<T>, f: spec_fn(T) -> bool, i: int) -> int decreases v.len() - i { if i < 0 || i >= v.len() { v.len() as int } else if f(v[i]) { i } else { first(v, f, i + 1) } }
proof fn first_is<T>(v: Seq<T>, f: spec_fn(T) -> bool, i: int) requires 0 <= i <= v.len() ensures i <= first(v, f, i) <= v.len(), first(v, f, i) < v.len() ==> f(v[first(v, f, i)]), forall|j: int| i <= j < first(v, f, i) ==> !f(#[trigger] v[j]) decreases v.len() - i { if i < v.len() && !f(v[i]) { first_is(v, f, i + 1); } }
proof fn first_at<T>(v: Seq<T>, f: spec_fn(T) -> bool, i: int, n: int) requires 0 <= i <= n < v.len(), f(v[n]), forall|j: int| i <= j < n ==> !f(#[trigger] v[j]) ensures first(v, f, i) == n decreases n - i { if i < n { first_at(v, f, i + 1, n); } }
proof fn first_none<T>(v: Seq<T>, f: spec_fn(T) -> bool, i: int) requires 0 <= i <= v.len(), forall|j: int| i <= j < v.len() ==> !f(#[trigger] v[j]) ensures first(v, f, i) == v.len() decreases v.len() - i { if i < v.len() { first_none(v, f, i + 1); } }
/// `iter().position(..)` for these conditions
fn section_at(v: &Vec<Section>, offset: usize) -> (r: Option<usize>)
    ensures match r { Some(i) => i < v@.len() && i == first(v@.map_values(|x: Section| look(x)), |s: Sec| covers(s, offset as int), 0), None => first(v@.map_values(|x: Section| look(x)), |s: Sec| covers(s, offset as int), 0) == v@.len() }
{
    let ghost ss = v@.map_values(|x: Section| look(x)); let ghost f = |s: Sec| covers(s, offset as int);
    let mut i: usize = 0;
    while i < v.len() invariant i <= v@.len(), ss == v@.map_values(|x: Section| look(x)), f == (|s: Sec| covers(s, offset as int)), forall|j: int| 0 <= j < i ==> !f(#[trigger] ss[j]), decreases v.len() - i
    {
        proof { assert(ss[i as int] == look(v@[i as int])); }
        if let Some(span) = v[i].span() { if span.start <= offset && offset < span.end { proof { assert(f(ss[i as int])); first_at(ss, f, 0, i as int); } return Some(i); } }
        i += 1;
    }
    proof { first_none(ss, f, 0); }
    None
}
fn style_at(v: &Vec<Style>, offset: usize) -> (r: Option<usize>)
    ensures match r { Some(i) => i < v@.len() && i == first(v@, |s: Style| inside(s.span, offset as int), 0), None => first(v@, |s: Style| inside(s.span, offset as int), 0) == v@.len() }
{
    let ghost f = |s: Style| inside(s.span, offset as int);
    let mut i: usize = 0;
    while i < v.len() invariant i <= v@.len(), f == (|s: Style| inside(s.span, offset as int)), forall|j: int| 0 <= j < i ==> !f(#[trigger] v@[j]), decreases v.len() - i
    { if v[i].span.start <= offset && offset < v[i].span.end { proof { assert(f(v@[i as int])); first_at(v@, f, 0, i as int); } return Some(i); } i += 1; }
    proof { first_none(v@, f, 0); }
    None
}
fn event_at(v: &Vec<Event>, offset: usize) -> (r: Option<usize>)
    ensures match r { Some(i) => i < v@.len() && i == first(v@, |s: Event| inside(s.span, offset as int), 0), None => first(v@, |s: Event| inside(s.span, offset as int), 0) == v@.len() }
{
    let ghost f = |s: Event| inside(s.span, offset as int);
    let mut i: usize = 0;
    while i < v.len() invariant i <= v@.len(), f == (|s: Event| inside(s.span, offset as int)), forall|j: int| 0 <= j < i ==> !f(#[trigger] v@[j]), decreases v.len() - i
    { if v[i].span.start <= offset && offset < v[i].span.end { proof { assert(f(v@[i as int])); first_at(v@, f, 0, i as int); } return Some(i); } i += 1; }
    proof { first_none(v@, f, 0); }
    None
}
pub open spec fn keyed(k: Seq<char>) -> spec_fn(Pair) -> bool { |f: Pair| f.0 == k }
#[verifier::external_body]
fn same(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
fn field_at(v: &Vec<(&str, &str)>, key: &str) -> (r: Option<usize>)
    ensures match r { Some(i) => i < v@.len() && i == first(pairs(v@), keyed(key@), 0), None => first(pairs(v@), keyed(key@), 0) == v@.len() }
{
    let ghost ss = pairs(v@); let ghost f = keyed(key@);
    let mut i: usize = 0;
    while i < v.len() invariant i <= v@.len(), ss == pairs(v@), f == keyed(key@), forall|j: int| 0 <= j < i ==> !f(#[trigger] ss[j]), decreases v.len() - i
    { proof { assert(ss[i as int] == (v@[i as int].0@, v@[i as int].1@)); } if same(v[i].0, key) { proof { assert(f(ss[i as int])); first_at(ss, f, 0, i as int); } return Some(i); } i += 1; }
    proof { first_none(ss, f, 0); }
    None
}
// ---- replacing one line -------------------------------------------------------------------------------------------
/// the section with the entry at the offset replaced, and what it was before
pub open spec fn replaced(s: Sec, o: int, c: Content) -> Option<(Sec, Content)> {
    match (s, c) {
        (Sec::Styles(v), Content::Style(n)) => { let i = first(v, |s: Style| inside(s.span, o), 0); if i >= v.len() { None } else { Some((Sec::Styles(v.update(i, Style { span: v[i].span, rest: n.rest })), Content::Style(v[i]))) } }
        (Sec::Events(v), Content::Event(n)) => { let i = first(v, |s: Event| inside(s.span, o), 0); if i >= v.len() { None } else { Some((Sec::Events(v.update(i, Event { span: v[i].span, rest: n.rest })), Content::Event(v[i]))) } }
        (Sec::Info(v, p), Content::Field(k, x)) => { let i = first(v, keyed(k), 0); if i >= v.len() { Some((Sec::Info(v.push((k, x)), p), Content::Field(k, Seq::empty()))) } else { Some((Sec::Info(v.update(i, (k, x)), p), Content::Field(k, v[i].1))) } }
        _ => None,
    }
}
pub open spec fn stepped(v: Seq<Sec>, o: int, c: Option<Content>) -> Option<(Seq<Sec>, Content)> {
    let i = first(v, |s: Sec| covers(s, o), 0);
    if i >= v.len() || c is None { None } else { match replaced(v[i], o, c->Some_0) { Some(x) => Some((v.update(i, x.0), x.1)), None => None } }
}
/// a style or event is put back by the reverse update
proof fn reversed(v: Seq<Sec>, o: int, c: Content)
    requires stepped(v, o, Some(c)) is Some, !(c is Field),
        // the section still covers the place: its entries keep their spans
        forall|s: Sec, t: Sec| same_spans(s, t) ==> #[trigger] covered(s) == #[trigger] covered(t),
    ensures ({ let x = stepped(v, o, Some(c))->Some_0; stepped(x.0, o, Some(x.1)) is Some && stepped(x.0, o, Some(x.1))->Some_0.0 == v && (x.1 is Style == c is Style) })
{
    let f = |s: Sec| covers(s, o); let i = first(v, f, 0); let x = stepped(v, o, Some(c))->Some_0;
    first_is(v, f, 0);
    match (v[i], c) {
        (Sec::Styles(w), Content::Style(n)) => { let g = |s: Style| inside(s.span, o); let k = first(w, g, 0); first_is(w, g, 0); let w2 = w.update(k, Style { span: w[k].span, rest: n.rest });
            assert(same_spans(Sec::Styles(w), Sec::Styles(w2))); assert(covered(v[i]) == covered(Sec::Styles(w2))); first_at(x.0, f, 0, i); first_at(w2, g, 0, k); assert(w2.update(k, Style { span: w2[k].span, rest: w[k].rest }) =~= w); assert(x.0.update(i, Sec::Styles(w)) =~= v); }
        (Sec::Events(w), Content::Event(n)) => { let g = |s: Event| inside(s.span, o); let k = first(w, g, 0); first_is(w, g, 0); let w2 = w.update(k, Event { span: w[k].span, rest: n.rest });
            assert(same_spans(Sec::Events(w), Sec::Events(w2))); assert(covered(v[i]) == covered(Sec::Events(w2))); first_at(x.0, f, 0, i); first_at(w2, g, 0, k); assert(w2.update(k, Event { span: w2[k].span, rest: w[k].rest }) =~= w); assert(x.0.update(i, Sec::Events(w)) =~= v); }
        _ => {}
    }
}
pub open spec fn same_spans(s: Sec, t: Sec) -> bool {
    match (s, t) { (Sec::Styles(a), Sec::Styles(b)) => a.len() == b.len() && (forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).span == b[i].span), (Sec::Events(a), Sec::Events(b)) => a.len() == b.len() && (forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).span == b[i].span), _ => false }
}
pub open spec fn kept(a: Script, b: Script) -> bool { a.styles_format == b.styles_format && a.events_format == b.events_format }
impl<'a> Script<'a> {
    #[verifier::external_body]
    fn parse_line_auto(&self, line: &'a str, n: u32) -> (r: core::result::Result<(SectionType, LineContent<'a>), ParseError>) ensures match r { Ok(x) => said(*self, line@, n) == Some(content(x.1)), Err(_) => said(*self, line@, n) is None } { unimplemented!() }
//@@ fn crates/ass-core/parser/script/update.rs Script::update_line_at_offset
//@re (?s)self\s*\.sections\s*\.iter\(\)\s*\.position\(\|s\| \{\s*s\.span\(\)\s*\.is_some_and\(\|span\| span\.start <= offset && offset < span\.end\)\s*\}\)\s*\.ok_or\(ParseError::SectionNotFound\)\? => match section_at(&self.sections, offset) { Some(i) => i, None => { return Err(ParseError::SectionNotFound); } }
//@re-all new_content\.clone\(\) => new_content.copy()
//@re-all old_content\.clone\(\) => old_content.copy()
//@re (?s)styles\s*\.iter\(\)\s*\.position\(\|s\| s\.span\.start <= offset && offset < s\.span\.end\)\s*\.map_or\(Err\(ParseError::IndexOutOfBounds\), \|style_index\| \{(.*?)\n                    \}\) => match style_at(&*styles, offset) { None => Err(ParseError::IndexOutOfBounds), Some(style_index) => {\1 } }
//@re (?s)events\s*\.iter\(\)\s*\.position\(\|e\| e\.span\.start <= offset && offset < e\.span\.end\)\s*\.map_or\(Err\(ParseError::IndexOutOfBounds\), \|event_index\| \{(.*?)\n                    \}\) => match event_at(&*events, offset) { None => Err(ParseError::IndexOutOfBounds), Some(event_index) => {\1 } }
//@re styles\[style_index\]\.clone\(\) => styles[style_index]
//@re events\[event_index\]\.clone\(\) => events[event_index]
//@re info\.fields\.iter\(\)\.position\(\|\(k, _\)\| \*k == key\) => field_at(&info.fields, key)
//@re (?s)if !matches!\(old_content, LineContent::Field\(_, ""\)\) \{ => if recorded_yet(old_content) {
//@before "let result = match"
        let ghost v0 = secs(*old(self)); let ghost o = offset as int; let ghost i0 = section_index as int; proof { assert(v0[i0] == look(old(self).sections@[i0])); assert(secs(*self) == v0); } let ghost c0 = content(new_content); proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@before "if let Ok(old_content) = &result"
        let ghost after = *self;
        proof { assert(secs(after) =~= v0.update(i0, look(after.sections@[i0])));
            match result { Ok(_) => {
                match (old(self).sections@[i0], after.sections@[i0], c0) {
                    (Section::ScriptInfo(a), Section::ScriptInfo(b), Content::Field(k, x)) => { let n = first(pairs(a.fields@), keyed(k), 0); if n < a.fields@.len() { first_is(pairs(a.fields@), keyed(k), 0); assert(pairs(b.fields@) =~= pairs(a.fields@).update(n, (k, x))); } else { assert(pairs(b.fields@) =~= pairs(a.fields@).push((k, x))); } }
                    _ => {} }
                assert(replaced(v0[i0], o, c0) is Some); assert(look(after.sections@[i0]) == replaced(v0[i0], o, c0)->Some_0.0); }
              Err(_) => { assert(v0.update(i0, v0[i0]) =~= v0); assert(look(after.sections@[i0]) == v0[i0]); } } }
//@spec
    requires true
    ensures kept(*final(self), *old(self)),
        match r { Ok(x) => stepped(secs(*old(self)), offset as int, said(*old(self), new_line@, line_number)) == Some((secs(*final(self)), content(x))),
            Err(_) => stepped(secs(*old(self)), offset as int, said(*old(self), new_line@, line_number)) is None && secs(*final(self)) == secs(*old(self)) }
//@ret r
//@@ end
//@@ fn crates/ass-core/parser/script/mutate.rs Script::add_section
//@re section: section\.clone\(\) => section: section.copy()
//@ret r
//@spec
    requires true
    ensures secs(*final(self)) == secs(*old(self)).push(look(section)), r == secs(*old(self)).len(), kept(*final(self), *old(self))
//@before "index\n    }"
        proof { assert(secs(*self) =~= secs(*old(self)).push(look(section))); }
//@@ end
//@@ fn crates/ass-core/parser/script/mutate.rs Script::remove_section
//@ret r
//@spec
    requires true
    ensures kept(*final(self), *old(self)), match r { Ok(x) => index < secs(*old(self)).len() && look(x) == secs(*old(self))[index as int] && secs(*final(self)) == secs(*old(self)).remove(index as int),
        Err(_) => index >= secs(*old(self)).len() && secs(*final(self)) == secs(*old(self)) }
//@before "Ok(section)"
            proof { assert(secs(*self) =~= secs(*old(self)).remove(index as int)); }
//@@ end
//@@ fn crates/ass-core/parser/script/mutate.rs Script::add_style
//@sig-re Style<'a> => Style
//@re (?s)self\s*\.sections\s*\.iter\(\)\s*\.position\(\|s\| matches!\(s, Section::Styles\(_\)\)\) => styles_in(&self.sections)
//@re unreachable!\("Section type mismatch"\); => never()
//@ret r
//@spec
    requires true
    ensures kept(*final(self), *old(self)), secs(*final(self)) == with_styles(secs(*old(self)), seq![style]), r == styles_of(secs(*old(self))).len()
//@re styles\.len\(\) - 1 => { let last = styles.len() - 1; proof { assert(self.sections@[index as int] is Styles); assert(self.sections@[index as int]->Styles_0@ =~= (old(self).sections@[index as int]->Styles_0@ + seq![style])); assert(secs(*self) =~= with_styles(secs(*old(self)), seq![style])); } last }
//@re vec!\[style\]\)\);\n            0 => vec![style]));\n            proof { assert(self.sections@.last()->Styles_0@ =~= seq![style]); assert(look(self.sections@.last()) == Sec::Styles(seq![style])); assert(secs(*self) =~= with_styles(secs(*old(self)), seq![style])); } 0
//@@ end
//@@ fn crates/ass-core/parser/script/mutate.rs Script::add_event
//@sig-re Event<'a> => Event
//@re (?s)self\s*\.sections\s*\.iter\(\)\s*\.position\(\|s\| matches!\(s, Section::Events\(_\)\)\) => events_in(&self.sections)
//@re unreachable!\("Section type mismatch"\); => never()
//@ret r
//@spec
    requires true
    ensures kept(*final(self), *old(self)), secs(*final(self)) == with_events(secs(*old(self)), seq![event]), r == events_of(secs(*old(self))).len()
//@re events\.len\(\) - 1 => { let last = events.len() - 1; proof { assert(self.sections@[index as int] is Events); assert(self.sections@[index as int]->Events_0@ =~= (old(self).sections@[index as int]->Events_0@ + seq![event])); assert(secs(*self) =~= with_events(secs(*old(self)), seq![event])); } last }
//@re vec!\[event\]\)\);\n            0 => vec![event]));\n            proof { assert(self.sections@.last()->Events_0@ =~= seq![event]); assert(look(self.sections@.last()) == Sec::Events(seq![event])); assert(secs(*self) =~= with_events(secs(*old(self)), seq![event])); } 0
//@@ end
//@@ fn crates/ass-core/parser/script/batch.rs Script::batch_add_styles
//@sig-re StyleBatch<'a> => StyleBatch
//@re (?s)self\s*\.sections\s*\.iter\(\)\s*\.position\(\|s\| matches!\(s, Section::Styles\(_\)\)\) => styles_in(&self.sections)
//@re styles\.extend\(batch\.styles\); => let mut more = batch.styles; styles.append(&mut more); proof { assert(styles@ =~= old(self).sections@[index as int]->Styles_0@ + batch.styles@); }
//@re indices\.extend\(start_index\.\.styles\.len\(\)\); => count_up(&mut indices, start_index, styles.len());
//@re indices\.extend\(0\.\.count\); => count_up(&mut indices, 0, count);
//@re Vec::with_capacity\(batch\.styles\.len\(\)\) => Vec::<usize>::new()
//@ret r
//@spec
    requires true
    ensures kept(*final(self), *old(self)), secs(*final(self)) == with_styles(secs(*old(self)), batch.styles@), counted(r@, styles_of(secs(*old(self))).len() as int, batch.styles@.len() as int)
//@before "indices\n    }"
        proof { assert(secs(*self) =~= with_styles(secs(*old(self)), batch.styles@)); }
//@@ end
//@@ fn crates/ass-core/parser/script/batch.rs Script::batch_add_events
//@sig-re EventBatch<'a> => EventBatch
//@re (?s)self\s*\.sections\s*\.iter\(\)\s*\.position\(\|s\| matches!\(s, Section::Events\(_\)\)\) => events_in(&self.sections)
//@re events\.extend\(batch\.events\); => let mut more = batch.events; events.append(&mut more); proof { assert(events@ =~= old(self).sections@[index as int]->Events_0@ + batch.events@); }
//@re indices\.extend\(start_index\.\.events\.len\(\)\); => count_up(&mut indices, start_index, events.len());
//@re indices\.extend\(0\.\.count\); => count_up(&mut indices, 0, count);
//@re Vec::with_capacity\(batch\.events\.len\(\)\) => Vec::<usize>::new()
//@ret r
//@spec
    requires true
    ensures kept(*final(self), *old(self)), secs(*final(self)) == with_events(secs(*old(self)), batch.events@), counted(r@, events_of(secs(*old(self))).len() as int, batch.events@.len() as int)
//@before "indices\n    }"
        proof { assert(secs(*self) =~= with_events(secs(*old(self)), batch.events@)); }
//@@ end
//@@ fn crates/ass-core/parser/script/batch.rs Script::batch_update_lines
//@re (?s)Vec::with_capacity\(operations\.len\(\)\) => Vec::<(usize, LineContent<'a>)>::new()
//@re failed: Vec::new\(\) => failed: Vec::<(usize, ParseError)>::new()
//@re (?s)let mut sorted_ops = operations;\s*sorted_ops\.sort_by_key\(\|op\| op\.offset\);\s*for op in sorted_ops \{ => let mut sorted_ops = operations; sort_ops(&mut sorted_ops); let ghost ops = sorted_ops@; let mut at: usize = 0;\n while at < sorted_ops.len() {\n let op = copy_op(&sorted_ops[at]); let ghost s0 = *self; at += 1;
//@ret r
//@spec
    requires true
    ensures kept(*final(self), *old(self)), ({ let x = applied(secs(*old(self)), *old(self), in_order(operations@), in_order(operations@).len() as int); secs(*final(self)) == x.0 && done(r.updated@) == x.1 && lost(r.failed@) == x.2 })
//@loop 0
    invariant at <= sorted_ops@.len(), sorted_ops@ == ops, kept(*self, *old(self)), ({ let x = applied(secs(*old(self)), *old(self), ops, at as int); secs(*self) == x.0 && done(result.updated@) == x.1 && lost(result.failed@) == x.2 }),
    decreases sorted_ops@.len() - at
//@loopend 0
    proof { let x = applied(secs(*old(self)), *old(self), ops, at as int); assert(said(s0, op.new_line@, op.line_number) == said(*old(self), op.new_line@, op.line_number)); assert(done(result.updated@) =~= x.1); assert(lost(result.failed@) =~= x.2); }
//@@ end
//@@ fn crates/ass-core/parser/script/batch.rs Script::atomic_batch_update
//@sig-re StyleBatch<'a> => StyleBatch
//@sig-re EventBatch<'a> => EventBatch
//@re (?s)for op in &updates \{\s*let section_found = self\.sections\.iter\(\)\.any\(.*?\n            \}\); => let mut at: usize = 0;\n while at < updates.len() {\n let op = &updates[at]; at += 1; let section_found = section_at(&self.sections, op.offset).is_some();
//@re self\.clone\(\) => self.copy()
//@re (?s)for op in updates \{ => let mut at: usize = 0;\n while at < updates.len() {\n let op = copy_op(&updates[at]); let ghost s0 = temp_script; at += 1;
//@ret r
//@spec
    requires true
    ensures match r { Ok(_) => all_applied(secs(*old(self)), *old(self), updates@, updates@.len() as int) is Some && kept(*final(self), *old(self)) && secs(*final(self)) == added(all_applied(secs(*old(self)), *old(self), updates@, updates@.len() as int)->Some_0, style_additions, event_additions), Err(_) => *final(self) == *old(self) }
//@loop 0
    invariant at <= updates@.len(), *self == *old(self),
    decreases updates@.len() - at
//@loop 1
    invariant at <= updates@.len(), *self == *old(self), kept(temp_script, *old(self)), all_applied(secs(*old(self)), *old(self), updates@, at as int) == Some(secs(temp_script)),
    decreases updates@.len() - at
//@loopend 1
    proof { assert(said(s0, op.new_line@, op.line_number) == said(*old(self), op.new_line@, op.line_number)); }
//@@ end
    #[verifier::external_body]
    fn copy(&self) -> (r: Self) ensures secs(r) == secs(*self), kept(r, *self) { unimplemented!() }
}
// ---- adding entries -----------------------------------------------------------------------------------------------
pub open spec fn is_styles() -> spec_fn(Sec) -> bool { |s: Sec| s is Styles }
pub open spec fn is_events() -> spec_fn(Sec) -> bool { |s: Sec| s is Events }
pub open spec fn styles_of(v: Seq<Sec>) -> Seq<Style> { let i = first(v, is_styles(), 0); if i >= v.len() { Seq::empty() } else { v[i]->Styles_0 } }
pub open spec fn events_of(v: Seq<Sec>) -> Seq<Event> { let i = first(v, is_events(), 0); if i >= v.len() { Seq::empty() } else { v[i]->Events_0 } }
pub open spec fn with_styles(v: Seq<Sec>, n: Seq<Style>) -> Seq<Sec> { let i = first(v, is_styles(), 0); if i >= v.len() { v.push(Sec::Styles(n)) } else { v.update(i, Sec::Styles(v[i]->Styles_0 + n)) } }
pub open spec fn with_events(v: Seq<Sec>, n: Seq<Event>) -> Seq<Sec> { let i = first(v, is_events(), 0); if i >= v.len() { v.push(Sec::Events(n)) } else { v.update(i, Sec::Events(v[i]->Events_0 + n)) } }
pub open spec fn counted(r: Seq<usize>, from: int, n: int) -> bool { r.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] r[i] == from + i }
pub open spec fn added(v: Seq<Sec>, s: Option<StyleBatch>, e: Option<EventBatch>) -> Seq<Sec> { let w = match s { Some(b) => with_styles(v, b.styles@), None => v }; match e { Some(b) => with_events(w, b.events@), None => w } }
fn styles_in(v: &Vec<Section>) -> (r: Option<usize>)
    ensures match r { Some(i) => i < v@.len() && v@[i as int] is Styles && i == first(v@.map_values(|x: Section| look(x)), is_styles(), 0), None => first(v@.map_values(|x: Section| look(x)), is_styles(), 0) == v@.len() }
{
    let ghost ss = v@.map_values(|x: Section| look(x)); let ghost f = is_styles();
    let mut i: usize = 0;
    while i < v.len() invariant i <= v@.len(), ss == v@.map_values(|x: Section| look(x)), f == is_styles(), forall|j: int| 0 <= j < i ==> !f(#[trigger] ss[j]), decreases v.len() - i
    { proof { assert(ss[i as int] == look(v@[i as int])); } if matches!(v[i], Section::Styles(_)) { proof { assert(f(ss[i as int])); first_at(ss, f, 0, i as int); } return Some(i); } i += 1; }
    proof { first_none(ss, f, 0); }
    None
}
fn events_in(v: &Vec<Section>) -> (r: Option<usize>)
    ensures match r { Some(i) => i < v@.len() && v@[i as int] is Events && i == first(v@.map_values(|x: Section| look(x)), is_events(), 0), None => first(v@.map_values(|x: Section| look(x)), is_events(), 0) == v@.len() }
{
    let ghost ss = v@.map_values(|x: Section| look(x)); let ghost f = is_events();
    let mut i: usize = 0;
    while i < v.len() invariant i <= v@.len(), ss == v@.map_values(|x: Section| look(x)), f == is_events(), forall|j: int| 0 <= j < i ==> !f(#[trigger] ss[j]), decreases v.len() - i
    { proof { assert(ss[i as int] == look(v@[i as int])); } if matches!(v[i], Section::Events(_)) { proof { assert(f(ss[i as int])); first_at(ss, f, 0, i as int); } return Some(i); } i += 1; }
    proof { first_none(ss, f, 0); }
    None
}
fn count_up(v: &mut Vec<usize>, from: usize, to: usize) requires old(v)@.len() == 0, from <= to ensures counted(final(v)@, from as int, to - from)
{
    let mut i = from;
    while i < to invariant from <= i <= to, counted(v@, from as int, i - from), decreases to - i { v.push(i); i += 1; }
}
#[verifier::external_body]
fn never<T>() -> T requires false { unreachable!() }
// ---- many updates -------------------------------------------------------------------------------------------------
/// the updates by offset, equal offsets in the order given (the standard library's stable sort)
pub open spec fn in_order<'a>(v: Seq<UpdateOperation<'a>>) -> Seq<UpdateOperation<'a>> decreases v.len() { if v.len() == 0 { v } else { put(in_order(v.drop_last()), v.last()) } }
pub open spec fn put<'a>(v: Seq<UpdateOperation<'a>>, x: UpdateOperation<'a>) -> Seq<UpdateOperation<'a>> decreases v.len() { if v.len() == 0 || v.last().offset <= x.offset { v.push(x) } else { put(v.drop_last(), x).push(v.last()) } }
#[verifier::external_body]
fn sort_ops(v: &mut Vec<UpdateOperation>) ensures final(v)@ == in_order(old(v)@) { v.sort_by_key(|op| op.offset); }
#[verifier::external_body]
fn copy_op<'a>(o: &UpdateOperation<'a>) -> (r: UpdateOperation<'a>) ensures r == *o { unimplemented!() }
pub open spec fn done(v: Seq<(usize, LineContent)>) -> Seq<(usize, Content)> { v.map_values(|x: (usize, LineContent)| (x.0, content(x.1))) }
pub open spec fn lost(v: Seq<(usize, ParseError)>) -> Seq<usize> { v.map_values(|x: (usize, ParseError)| x.0) }
/// what the first n updates make of the script, the old content of those that apply, and the places of those that do not
pub open spec fn applied(v: Seq<Sec>, s: Script, ops: Seq<UpdateOperation>, n: int) -> (Seq<Sec>, Seq<(usize, Content)>, Seq<usize>) decreases n {
    if n <= 0 { (v, Seq::empty(), Seq::empty()) } else {
        let x = applied(v, s, ops, n - 1); let o = ops[n - 1];
        match stepped(x.0, o.offset as int, said(s, o.new_line@, o.line_number)) { Some(y) => (y.0, x.1.push((o.offset, y.1)), x.2), None => (x.0, x.1, x.2.push(o.offset)) }
    }
}
/// the same when every one of them must apply
pub open spec fn all_applied(v: Seq<Sec>, s: Script, ops: Seq<UpdateOperation>, n: int) -> Option<Seq<Sec>> decreases n {
    if n <= 0 { Some(v) } else { match all_applied(v, s, ops, n - 1) { None => None, Some(w) => { let o = ops[n - 1]; match stepped(w, o.offset as int, said(s, o.new_line@, o.line_number)) { Some(y) => Some(y.0), None => None } } } }
}
/// whether the change of the line is still to be noted (an added field was noted already)
#[verifier::external_body]
fn recorded_yet(c: &LineContent) -> bool { !matches!(c, LineContent::Field(_, "")) }
// ---- what changed between two scripts -----------------------------------------------------------------------------
pub struct ParseIssue { pub k: u64 }
impl<'a> Script<'a> {
    fn sections(&self) -> (r: &Vec<Section<'a>>) ensures *r == self.sections { &self.sections }
    pub uninterp spec fn noted(self) -> Seq<ParseIssue>;
    #[verifier::external_body]
    fn issues_copied(&self) -> (r: Vec<ParseIssue>) ensures r@ == self.noted() { unimplemented!() }
}
pub struct ScriptDelta<'a> { pub added: Vec<Section<'a>>, pub modified: Vec<(usize, Section<'a>)>, pub removed: Vec<usize>, pub new_issues: Vec<ParseIssue> }
pub open spec fn look_all(v: Seq<Section>) -> Seq<Sec> { v.map_values(|x: Section| look(x)) }
pub open spec fn look_at(v: Seq<(usize, Section)>) -> Seq<(usize, Sec)> { v.map_values(|x: (usize, Section)| (x.0, look(x.1))) }
/// whether two sections say the same apart from where they are
pub uninterp spec fn alike(a: Sec, b: Sec) -> bool;
#[verifier::external_body]
fn sections_equal_ignoring_spans(a: &Section, b: &Section) -> (r: bool) ensures r == alike(look(*a), look(*b)) { unimplemented!() }
pub open spec fn of_type(t: SectionType) -> spec_fn(Sec) -> bool { |s: Sec| type_of(s) == t }
fn same_type(a: SectionType, b: SectionType) -> (r: bool) ensures r == (a == b) {
    match (a, b) { (SectionType::ScriptInfo, SectionType::ScriptInfo) => true, (SectionType::Styles, SectionType::Styles) => true, (SectionType::Events, SectionType::Events) => true, (SectionType::Fonts, SectionType::Fonts) => true, (SectionType::Graphics, SectionType::Graphics) => true, _ => false }
}
fn type_at(v: &Vec<Section>, t: SectionType) -> (r: Option<usize>)
    ensures match r { Some(i) => i < v@.len() && i == first(look_all(v@), of_type(t), 0), None => first(look_all(v@), of_type(t), 0) == v@.len() }
{
    let ghost ss = look_all(v@); let ghost f = of_type(t);
    let mut i: usize = 0;
    while i < v.len() invariant i <= v@.len(), ss == look_all(v@), f == of_type(t), forall|j: int| 0 <= j < i ==> !f(#[trigger] ss[j]), decreases v.len() - i
    { proof { assert(ss[i as int] == look(v@[i as int])); } if same_type(v[i].section_type(), t) { proof { assert(f(ss[i as int])); first_at(ss, f, 0, i as int); } return Some(i); } i += 1; }
    proof { first_none(ss, f, 0); }
    None
}
/// of the first k sections before: those whose kind is gone
pub open spec fn gone(o: Seq<Sec>, n: Seq<Sec>, k: int) -> Seq<usize> decreases k { if k <= 0 { Seq::empty() } else { let r = gone(o, n, k - 1); if first(n, of_type(type_of(o[k - 1])), 0) >= n.len() { r.push((k - 1) as usize) } else { r } } }
/// those whose kind now says something else, with what it says
pub open spec fn altered(o: Seq<Sec>, n: Seq<Sec>, k: int) -> Seq<(usize, Sec)> decreases k { if k <= 0 { Seq::empty() } else { let r = altered(o, n, k - 1); let i = first(n, of_type(type_of(o[k - 1])), 0); if i < n.len() && !alike(o[k - 1], n[i]) { r.push(((k - 1) as usize, n[i])) } else { r } } }
/// of the first k sections now: those of a kind that was not there
pub open spec fn fresh(o: Seq<Sec>, n: Seq<Sec>, k: int) -> Seq<Sec> decreases k { if k <= 0 { Seq::empty() } else { let r = fresh(o, n, k - 1); if first(o, of_type(type_of(n[k - 1])), 0) >= o.len() { r.push(n[k - 1]) } else { r } } }
//@@ fn crates/ass-core/parser/script/delta.rs calculate_delta
//@re let mut added = Vec::new\(\) => let mut added: Vec<Section<'a>> = Vec::new()
//@re let mut modified = Vec::new\(\) => let mut modified: Vec<(usize, Section<'a>)> = Vec::new()
//@re let mut removed = Vec::new\(\) => let mut removed: Vec<usize> = Vec::new()
//@re (?s)let old_sections: Vec<_> = old_script\.sections\(\)\.iter\(\)\.collect\(\) => let old_sections = old_script.sections()
//@re (?s)let new_sections: Vec<_> = new_script\.sections\(\)\.iter\(\)\.collect\(\) => let new_sections = new_script.sections(); let ghost o = secs(*old_script); let ghost n = secs(*new_script)
//@re for \(idx, old_section\) in old_sections\.iter\(\)\.enumerate\(\) \{ => let mut at: usize = 0; proof { assert(look_at(modified@) =~= altered(o, n, 0)); }\n while at < old_sections.len() {\n let idx = at; let old_section = &old_sections[at]; at += 1; proof { assert(o[idx as int] == look(*old_section)); }
//@re (?s)if let Some\(\(_new_idx, new_section\)\) = new_sections\s*\.iter\(\)\s*\.enumerate\(\)\s*\.find\(\|\(_, s\)\| s\.section_type\(\) == old_type\)\s*\{ => if let Some(found) = type_at(new_sections, old_type) {\n let new_section = &new_sections[found]; proof { assert(n[found as int] == look(*new_section)); }
//@re \(\*new_section\)\.clone\(\)\)\); => new_section.copy()));
//@re (?s)for new_section in &new_sections \{ => let mut at: usize = 0; proof { assert(look_all(added@) =~= fresh(o, n, 0)); }\n while at < new_sections.len() {\n let new_section = &new_sections[at]; at += 1; proof { assert(n[at as int - 1] == look(*new_section)); }
//@re !old_sections\.iter\(\)\.any\(\|s\| s\.section_type\(\) == new_type\) => type_at(old_sections, new_type).is_none()
//@re added\.push\(\(\*new_section\)\.clone\(\)\) => added.push(new_section.copy())
//@re (?s)let new_issues: Vec<_> = new_script\.issues\(\)\.to_vec\(\) => let new_issues = new_script.issues_copied()
//@ret r
//@spec
    requires true
    ensures r.removed@ == gone(secs(*old_script), secs(*new_script), secs(*old_script).len() as int),
        look_at(r.modified@) == altered(secs(*old_script), secs(*new_script), secs(*old_script).len() as int),
        look_all(r.added@) == fresh(secs(*old_script), secs(*new_script), secs(*new_script).len() as int),
        r.new_issues@ == new_script.noted(),
//@loop 0
    invariant at <= old_sections@.len(), o == look_all(old_sections@), n == look_all(new_sections@), removed@ == gone(o, n, at as int), look_at(modified@) == altered(o, n, at as int),
    decreases old_sections@.len() - at
//@loopend 0
    proof { assert(removed@ =~= gone(o, n, at as int)); assert(look_at(modified@) =~= altered(o, n, at as int)); }
//@loop 1
    invariant at <= new_sections@.len(), o == look_all(old_sections@), n == look_all(new_sections@), look_all(added@) == fresh(o, n, at as int),
    decreases new_sections@.len() - at
//@loopend 1
    proof { assert(look_all(added@) =~= fresh(o, n, at as int)); }
//@@ end
impl ScriptDelta<'_> {
//@@ fn crates/ass-core/parser/script/delta.rs ScriptDelta::is_empty
//@ret r
//@spec
    requires true
    ensures r == (self.added@.len() == 0 && self.modified@.len() == 0 && self.removed@.len() == 0 && self.new_issues@.len() == 0)
//@@ end
}
/// nothing changed and no complaint: the two scripts have the same kinds of sections and each says the same
proof fn empty_means_alike(o: Seq<Sec>, n: Seq<Sec>, k: int, i: int)
    requires 0 <= i < k <= o.len(), gone(o, n, k).len() == 0, altered(o, n, k).len() == 0
    ensures ({ let j = first(n, of_type(type_of(o[i])), 0); j < n.len() && alike(o[i], n[j]) })
    decreases k
{ if i < k - 1 { empty_means_alike(o, n, k - 1, i); } }
fn main() {}
}
