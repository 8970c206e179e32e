use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
verus! {
//@@ include str.inc
//@@ include doc.inc
//@@ include lines.inc
//@@ include sections.inc
//@@ include fields.inc
//@@ include styles.inc

// ---- adding and editing lines of a document -----------------------------------------------------------------
proof fn off_sub(c: Seq<char>, a: int, b: int, i: int)
    requires 0 <= a <= b <= c.len(), 0 <= i <= b - a
    ensures off(c, a) + off(c.subrange(a, b), i) == off(c, a + i)
{ off_skip(c, a, i); assert(c.subrange(a, b).take(i) =~= c.skip(a).take(i)); }
proof fn line_to(t: Seq<char>, a: int)
    requires 0 <= a <= t.len()
    ensures ({ let x = ch_at(t.skip(a), 0, '\n'); let e = eol(t, a); a <= e <= t.len() && brk(t, a) <= t.len() && off(t, a) <= off(t, e) <= nbytes(t) && t.subrange(a, t.len() as int) == t.skip(a) && off(t, t.len() as int) == nbytes(t)
        && (brk(t, a) == t.len() <==> x == t.skip(a).len()) && (x == t.skip(a).len() ==> e == t.len()) && (x < t.skip(a).len() ==> off(t, e) == off(t, a) + off(t.skip(a), x) + 1) })
{
    off_end(t); brk_ch(t, a); brk_in(t, a); assert(t.subrange(a, t.len() as int) =~= t.skip(a));
    let x = ch_at(t.skip(a), 0, '\n'); ch_in(t.skip(a), 0, '\n'); off_skip(t, a, x);
    off_mono(t, a, eol(t, a));
    if a + x < t.len() { off_step(t, a + x); w_ascii('\n'); }
}
/// `.into_iter().find(|(_, line)| line.trim_start().starts_with("Format:"))`
pub open spec fn fmt_row(c: Seq<char>, r: Seq<(int, int)>, k: int) -> Option<int>
    decreases r.len() - k
{ if k < 0 || k >= r.len() { None } else { let s = c.subrange(r[k].0, r[k].1); if prefixed(s.skip(blanks(s)), "Format:"@) { Some(k) } else { fmt_row(c, r, k + 1) } } }
fn find_format<'a>(c: Ghost<Seq<char>>, v: &Vec<(usize, &'a str)>, r: Ghost<Seq<(int, int)>>) -> (f: Option<(usize, &'a str)>)
    requires at_rows(c@, v@, r@)
    ensures match f { None => fmt_row(c@, r@, 0) is None, Some(x) => fmt_row(c@, r@, 0) is Some && ({ let k = fmt_row(c@, r@, 0)->Some_0; 0 <= k < r@.len() && at_row(c@, x, r@[k]) }) }
{
    let mut ix: usize = 0;
    while ix < v.len()
        invariant ix <= v.len(), at_rows(c@, v@, r@), fmt_row(c@, r@, 0) == fmt_row(c@, r@, ix as int),
        decreases v.len() - ix
    {
        assert(at_row(c@, v@[ix as int], r@[ix as int]));
        if begins(ltrimmed(v[ix].1), "Format:") { return Some(v[ix]); }
        ix += 1;
    }
    None
}
/// the line below which a new line of a section goes: its format line, or its header
pub open spec fn above(t: Seq<char>, h: (int, int), hs: Seq<Seq<char>>) -> int {
    let c = t.skip(h.0); let r = all_rows(c, hs); match fmt_row(c, r, 0) { Some(k) => h.0 + r[k].0, None => h.0 }
}
/// the document with a line added to a section
pub open spec fn line_added(t: Seq<char>, h: (int, int), hs: Seq<Seq<char>>, x: Seq<char>) -> Seq<char> {
    let a = above(t, h, hs);
    if brk(t, a) < t.len() { t.take(eol(t, a)) + (""@ + x + "\n"@) + t.skip(eol(t, a)) } else { t + ("\n"@ + x + "\n"@) }
}
pub open spec fn new_events() -> Seq<char> { "\n[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n"@ }
pub open spec fn new_styles() -> Seq<char> { "\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, SecondaryColour, OutlineColour, BackColour, Bold, Italic, Underline, StrikeOut, ScaleX, ScaleY, Spacing, Angle, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV, Encoding\n"@ }
pub open spec fn event_added(t: Seq<char>, x: Seq<char>) -> Seq<char> {
    match header_from(t, 0, EVENTS_is()) { Some(h) => line_added(t, h, EVENTS_is(), x), None => t + (new_events() + x + "\n"@) }
}
pub open spec fn style_added(t: Seq<char>, x: Seq<char>) -> Seq<char> {
    match header_from(t, 0, STYLES_is()) {
        Some(h) => line_added(t, h, STYLES_is(), x),
        None => { let p = match header_from(t, 0, EVENTS_is()) { Some(h) => h.0, None => t.len() as int }; t.take(p) + (new_styles() + x + "\n"@) + t.skip(p) }
    }
}
pub open spec fn style_put(t: Seq<char>, nm: Seq<char>, x: Seq<char>) -> Seq<char> {
    match the_style(t, nm) { Some(y) => { let r = srows(t)[y.row]; t.take(r.0) + x + t.skip(r.1) } None => style_added(t, x) }
}
pub open spec fn props(t: Seq<char>) -> Seq<(int, int)> { all_rows(t, SCRIPT_INFO_is()) }
pub open spec fn prop_put(t: Seq<char>, key: Seq<char>, v: Seq<char>) -> Seq<char> {
    let r = props(t); match key_row(t, r, 0, key) { Some(k) => t.take(r[k].0) + (""@ + key + ": "@ + v + ""@) + t.skip(r[k].1), None => t }
}
/// `.into_iter().find(|(_, line)| key_value(line).is_some_and(|(name, _)| name == key))`
fn find_row<'a>(c: Ghost<Seq<char>>, v: &Vec<(usize, &'a str)>, key: &str, r: Ghost<Seq<(int, int)>>) -> (f: Option<(usize, &'a str)>)
    requires at_rows(c@, v@, r@)
    ensures match f { None => key_row(c@, r@, 0, key@) is None, Some(x) => key_row(c@, r@, 0, key@) is Some && ({ let k = key_row(c@, r@, 0, key@)->Some_0; 0 <= k < r@.len() && at_row(c@, x, r@[k]) }) }
{
    let mut ix: usize = 0;
    while ix < v.len()
        invariant ix <= v.len(), at_rows(c@, v@, r@), key_row(c@, r@, 0, key@) == key_row(c@, r@, ix as int, key@),
        decreases v.len() - ix
    {
        let (start, text) = v[ix];
        assert(at_row(c@, v@[ix as int], r@[ix as int]));
        if let Some((name, _)) = key_value(text) { if same(name, key) { return Some((start, text)); } }
        ix += 1;
    }
    None
}
// ---- searching the text of events ---------------------------------------------------------------------------
/// the first occurrence of p at or after character i
pub open spec fn occurs(s: Seq<char>, p: Seq<char>, i: int) -> Option<int>
    decreases s.len() + 1 - i
{ if i < 0 || i > s.len() { None } else if prefixed(s.skip(i), p) { Some(i) } else { occurs(s, p, i + 1) } }
proof fn occurs_in(s: Seq<char>, p: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures occurs(s, p, i) is Some ==> ({ let x = occurs(s, p, i)->Some_0; i <= x && x + p.len() <= s.len() && s.subrange(x, x + p.len()) == p })
    decreases s.len() - i
{ if prefixed(s.skip(i), p) { assert(s.subrange(i, i + p.len()) =~= s.skip(i).take(p.len() as int)); } else if i < s.len() { occurs_in(s, p, i + 1); } }
#[verifier::external_body]
fn find_str(s: &str, p: &str) -> (r: Option<usize>) ensures match r { None => occurs(s@, p@, 0) is None, Some(x) => occurs(s@, p@, 0) is Some && off(s@, occurs(s@, p@, 0)->Some_0) == x } { s.find(p) }
pub open spec fn evf(s: Seq<char>) -> Option<Seq<(int, int)>> { match flds(s, "Dialogue"@, 10) { Some(f) => Some(f), None => flds(s, "Comment"@, 10) } }
/// `line_fields(line, "Dialogue", 10).or_else(|| line_fields(line, "Comment", 10))`
fn event_fields(line: &str) -> (r: Option<Vec<Bytes>>)
    requires nbytes(line@) < 0x7fff_ffff
    ensures match r { None => evf(line@) is None, Some(v) => evf(line@) is Some && at_flds(line@, v@, evf(line@)->Some_0) }
{ match line_fields(line, "Dialogue", 10) { Some(v) => Some(v), None => line_fields(line, "Comment", 10) } }
/// where an event line says it, by character of the document
pub open spec fn said(c: Seq<char>, r: (int, int), p: Seq<char>) -> Option<(int, int)> {
    let s = c.subrange(r.0, r.1);
    match evf(s) { None => None, Some(f) => if f.len() <= 9 { None } else { match occurs(s.skip(f[9].0), p, 0) { None => None, Some(i) => Some((r.0 + f[9].0 + i, r.0 + f[9].0 + i + p.len())) } } }
}
pub open spec fn first_said(c: Seq<char>, r: Seq<(int, int)>, k: int, p: Seq<char>) -> Option<(int, int)>
    decreases r.len() - k
{ if k < 0 || k >= r.len() { None } else { match said(c, r[k], p) { Some(x) => Some(x), None => first_said(c, r, k + 1, p) } } }
pub open spec fn erows(c: Seq<char>) -> Seq<(int, int)> { all_rows(c, EVENTS_is()) }
//@@ fn crates/ass-editor/core/section_text.rs find_event_text
//@ret r
//@sig-re Range<usize> => Bytes
//@re (?s)section_lines\(content, EVENTS\)\s*\.into_iter\(\)\s*\.find_map\(\|\(start, line\)\| \{ => let all = section_lines(content, EVENTS()); let mut ix: usize = 0; while ix < all.len() { let (start, line) = all[ix]; ix += 1;
//@re (?s)let fields =\s*line_fields\(line, "Dialogue", 10\)\.or_else\(\|\| line_fields\(line, "Comment", 10\)\)\?; => let fields = match event_fields(line) { Some(v) => v, None => continue };
//@re start \+ fields\.get\(9\)\?\.start => start + (match get_at(&fields, 9) { Some(v) => v, None => continue }).start
//@re content\[text\.\.start \+ line\.len\(\)\]\.find\(pattern\)\? => (match find_str(bslice(content, text, start + blen(line)), pattern) { Some(v) => v, None => continue })
//@re (?s)Some\(found\.\.found \+ pattern\.len\(\)\)\s*\}\) => return Some(found..found + slen(pattern)); } None
//@spec
    requires nbytes(content@) < 0x7fff_ffff
    ensures match r { None => first_said(content@, erows(content@), 0, pattern@) is None, Some(x) => ({ let y = first_said(content@, erows(content@), 0, pattern@); y is Some && at_field(content@, x, y->Some_0) }) }
//@start
    let ghost c = content@; let ghost p = pattern@; let ghost rs = erows(c);
//@loop 0
    invariant c == content@, p == pattern@, rs == erows(c), nbytes(c) < 0x7fff_ffff, at_rows(c, all@, rs), ix <= all.len(), first_said(c, rs, 0, p) == first_said(c, rs, ix as int, p),
    decreases all.len() - ix
//@loopstart 0
        let ghost k = ix as int; let ghost (a, b) = rs[k]; let ghost s = c.subrange(a, b);
        proof { assert(at_row(c, all@[k], rs[k])); }
//@before "let text = start"
            let ghost f = evf(s)->Some_0;
            proof { if f.len() > 9 { field_at(s, fields@, f, 9); off_sub(c, a, b, f[9].0); } }
//@before "let found = text"
            let ghost z = a + f[9].0; let ghost u = c.subrange(z, b);
            proof {
                assert(off(c, z) == text && off(c, b) == start + nbytes(line@)); off_mono(c, z, b); assert(s.skip(f[9].0) =~= u);
                occurs_in(u, p, 0);
                if occurs(u, p, 0) is Some { let i = occurs(u, p, 0)->Some_0; off_sub(c, z, b, i); off_sub(c, z, b, i + p.len()); off_mono(c, z + i, z + i + p.len()); assert(c.subrange(z + i, z + i + p.len()) =~= u.subrange(i, i + p.len())); sub_bytes(c, z + i, z + i + p.len()); off_mono(c, z + i + p.len(), c.len() as int); }
            }
//@@ end
impl EditorDocument {
//@@ fn crates/ass-editor/core/document/ass_api.rs EditorDocument::edit_event_text
//@ret r
//@re find_event_text\(&content, old_text\) => find_event_text(content.as_str(), old_text)
//@start
    proof { text_fits(self); }
    let ghost t = self.t();
//@before "self.replace(range, new_text)?;"
            let ghost y = first_said(t, erows(t), 0, old_text@)->Some_0;
            proof { assert(at_field(t, found, y)); off_mono(t, y.0, y.1); assert(spans(t, range, y.0, y.1)); }
//@after "self.replace(range, new_text)?;"
            proof { let (i, j) = choose|i: int, j: int| #[trigger] spans(t, range, i, j) && self.t() == t.take(i) + new_text@ + t.skip(j); spans_one(t, range, i, j, y.0, y.1); }
//@spec
    ensures r is Ok, ({ let t = old(self).t(); final(self).t() == (match first_said(t, erows(t), 0, old_text@) { Some(y) => t.take(y.0) + new_text@ + t.skip(y.1), None => t }) })
//@@ end
//@@ fn crates/ass-editor/core/document/ass_api.rs EditorDocument::set_script_info_field
//@ret r
//@re (?s)let field_line = section_lines\(&content, SCRIPT_INFO\)\s*\.into_iter\(\)\s*\.find\(\|\(_, line\)\| key_value\(line\)\.is_some_and\(\|\(name, _\)\| name == key\)\); => let all = section_lines(content.as_str(), SCRIPT_INFO()); let field_line = find_row(Ghost(content@), &all, key, Ghost(props(content@)));
//@re format!\("\{key\}: \{value\}"\) => pair("", key, value, "")
//@re line\.len\(\) => blen(line)
//@re &new_line\b => new_line.as_str()
//@start
    proof { text_fits(self); }
    let ghost t = self.t(); let ghost rs = props(t);
//@before "self.replace(range, new_line.as_str())?;"
            let ghost k = key_row(t, rs, 0, key@)->Some_0;
            proof { assert(at_row(t, (line_start, line), rs[k])); off_mono(t, rs[k].0, rs[k].1); assert(spans(t, range, rs[k].0, rs[k].1)); }
//@after "self.replace(range, new_line.as_str())?;"
            proof { let (i, j) = choose|i: int, j: int| #[trigger] spans(t, range, i, j) && self.t() == t.take(i) + new_line@ + t.skip(j); spans_one(t, range, i, j, rs[k].0, rs[k].1); }
//@spec
    ensures r is Ok, final(self).t() == prop_put(old(self).t(), key@, value@)
//@@ end
    #[verifier::external_body]
    pub fn len_bytes(&self) -> (r: usize) ensures r == nbytes(self.t()) { unimplemented!() }
//@@ fn crates/ass-editor/core/document/section_lines.rs EditorDocument::insert_after_format_line
//@ret r
//@sig-re Range<usize> => Bytes
//@re (?s)section_lines\(&content\[header\.start\.\.\], headers\)\s*\.into_iter\(\)\s*\.find\(\|\(_, line\)\| line\.trim_start\(\)\.starts_with\("Format:"\)\)\s*\.map_or\(header\.start, \|\(start, _\)\| (header\.start \+ start)\); => { let part = bslice(content, header.start, blen(content)); let all = section_lines(part, headers); match find_format(Ghost(part@), &all, Ghost(all_rows(part@, texts(headers@)))) { Some(f) => { let (start, _) = f; proof { let k = fmt_row(c, rs, 0)->Some_0; assert(at_row(c, f, rs[k])); off_skip(t, h.0, rs[k].0); off_mono(c, rs[k].0, c.len() as int); } \1 } None => header.start } };
//@re (?s)match content\[format_start\.\.\]\.find\('\\n'\) (\{.*\n        \})\s*\}$ => let found = find_char(bslice(content, format_start, blen(content)), '\\n'); proof { assert(at_boundary(t, off(t, eol(t, a)))); assert(at_boundary(t, nbytes(t))); } let res = match found \1;\n let ghost _done = true;\n res }
//@re &format!\("\{line\}\\n"\) => around("", line, "\\n").as_str()
//@re &format!\("\\n\{line\}\\n"\) => around("\\n", line, "\\n").as_str()
//@re-all content\.len\(\) => blen(content)
//@spec
    requires content@ == old(self).t(), exists|h: (int, int)| 0 <= h.0 <= h.1 <= content@.len() && #[trigger] at_field(content@, header, h)
    ensures r is Ok, forall|h: (int, int)| 0 <= h.0 <= h.1 <= content@.len() && #[trigger] at_field(content@, header, h) ==> final(self).t() == line_added(old(self).t(), h, texts(headers@), line@)
//@start
    proof { text_fits(self); }
    let ghost t = self.t(); let ghost hs = texts(headers@);
    let ghost h = choose|h: (int, int)| 0 <= h.0 <= h.1 <= content@.len() && #[trigger] at_field(content@, header, h); let ghost c = t.skip(h.0); let ghost rs = all_rows(c, hs);
    proof {
        off_end(t); off_mono(t, h.0, t.len() as int); assert(off(t, h.0) == header.start && off(t, t.len() as int) == nbytes(t)); assert(t.subrange(h.0, t.len() as int) =~= c); sub_bytes(t, h.0, t.len() as int);
        assert forall|g: (int, int)| 0 <= g.0 <= g.1 <= t.len() && #[trigger] at_field(t, header, g) implies g == h by { off_inj(t, g.0, h.0); off_inj(t, g.1, h.1); }
    }
//@before "let found = find_char"
        let ghost a = above(t, h, hs);
        proof { line_to(t, a); assert(off(t, a) == format_start); }
//@before "let ghost _done"
        proof {
            if brk(t, a) < t.len() { let i = choose|i: int| 0 <= i <= t.len() && #[trigger] off(t, i) == off(t, eol(t, a)) && self.t() == t.take(i) + (""@ + line@ + "\n"@) + t.skip(i); off_inj(t, i, eol(t, a)); }
            else { assert(ch_at(t.skip(a), 0, '\n') == t.skip(a).len()); assert(t.subrange(a, t.len() as int) == t.skip(a)); assert(found is None); assert(exists|i: int| 0 <= i <= t.len() && #[trigger] off(t, i) == nbytes(t) && self.t() == t.take(i) + ("\n"@ + line@ + "\n"@) + t.skip(i)); let i = choose|i: int| 0 <= i <= t.len() && #[trigger] off(t, i) == nbytes(t) && self.t() == t.take(i) + ("\n"@ + line@ + "\n"@) + t.skip(i); off_inj(t, i, t.len() as int); assert(t.take(t.len() as int) =~= t); assert(t.skip(t.len() as int) =~= Seq::<char>::empty()); assert(self.t() =~= t + ("\n"@ + line@ + "\n"@)); }
        }
//@@ end
//@@ fn crates/ass-editor/core/document/section_lines.rs EditorDocument::add_event_line
//@ret r
//@re section_header\(&content, EVENTS\) => section_header(content.as_str(), EVENTS())
//@re self\.insert_after_format_line\(&content, header, EVENTS, event_line\) => proof { let h = header_from(t, 0, EVENTS_is())->Some_0; assert(at_field(content@, header, h)); } self.insert_after_format_line(content.as_str(), header, EVENTS(), event_line)
//@re format!\(("\\n\[Events\].*)\{event_line\}\\n"\) => around(\1", event_line, "\\n")
//@re self\.insert\(Position::new\(content_len\), &events_section\) => proof { off_end(t); assert(at_boundary(t, nbytes(t))); } let res = self.insert(Position::new(content_len), events_section.as_str()); proof { let x = new_events() + event_line@ + "\\n"@; let i = choose|i: int| 0 <= i <= t.len() && #[trigger] off(t, i) == nbytes(t) && self.t() == t.take(i) + x + t.skip(i); off_inj(t, i, t.len() as int); assert(t.take(t.len() as int) =~= t); assert(self.t() =~= t + x); } res
//@start
    proof { text_fits(self); }
    let ghost t = self.t();
//@spec
    ensures r is Ok, final(self).t() == event_added(old(self).t(), event_line@)
//@@ end
//@@ fn crates/ass-editor/core/document/section_lines.rs EditorDocument::add_style_line
//@ret r
//@re section_header\(&content, STYLES\) => section_header(content.as_str(), STYLES())
//@re self\.insert_after_format_line\(&content, header, STYLES, style_line\) => proof { let h = header_from(t, 0, STYLES_is())->Some_0; assert(at_field(content@, header, h)); } self.insert_after_format_line(content.as_str(), header, STYLES(), style_line)
//@re section_header\(&content, EVENTS\)\.map_or\(content\.len\(\), \|header\| header\.start\); => match section_header(content.as_str(), EVENTS()) { Some(header) => { proof { let h = header_from(t, 0, EVENTS_is())->Some_0; assert(at_field(content@, header, h)); } header.start } None => blen(content.as_str()) };
//@re format!\(("\\n\[V4\+ Styles\].*)\{style_line\}\\n"\) => around(\1", style_line, "\\n")
//@re self\.insert\(Position::new\(script_info_end\), &styles_section\) => let ghost p = match header_from(t, 0, EVENTS_is()) { Some(h) => h.0, None => t.len() as int }; proof { off_end(t); assert(off(t, p) == script_info_end); } let res = self.insert(Position::new(script_info_end), styles_section.as_str()); proof { let x = new_styles() + style_line@ + "\\n"@; let i = choose|i: int| 0 <= i <= t.len() && #[trigger] off(t, i) == off(t, p) && self.t() == t.take(i) + x + t.skip(i); off_inj(t, i, p); } res
//@start
    proof { text_fits(self); }
    let ghost t = self.t();
//@spec
    ensures r is Ok, final(self).t() == style_added(old(self).t(), style_line@)
//@@ end
//@@ fn crates/ass-editor/core/document/section_lines.rs EditorDocument::edit_style_line
//@ret r
//@re find_style\(&content, style_name\) => find_style(content.as_str(), style_name)
//@re style\.line\.len\(\) => blen(style.line)
//@re TextRange::new => Range::new
//@start
    proof { text_fits(self); }
    let ghost t = self.t();
//@re self\.replace\(range, new_style_line\) => let ghost y = srows(t)[the_style(t, style_name@)->Some_0.row]; proof { off_mono(t, y.0, y.1); assert(spans(t, range, y.0, y.1)); } let res = self.replace(range, new_style_line); proof { let (i, j) = choose|i: int, j: int| #[trigger] spans(t, range, i, j) && self.t() == t.take(i) + new_style_line@ + t.skip(j); spans_one(t, range, i, j, y.0, y.1); } res
//@spec
    ensures r is Ok, final(self).t() == style_put(old(self).t(), style_name@, new_style_line@)
//@@ end
}
fn main() {}
}
