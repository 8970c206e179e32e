use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
verus! {
//@@ include str.inc
//@@ include doc.inc
//@@ include lines.inc
//@@ include sections.inc
// ---- the iterator chains of the commands, as loops over the real functions above ---------------------------
/// `.into_iter().find(|(_, line)| key_value(line).is_some_and(|(key, _)| key == K))`
fn find_row<'a>(c: Ghost<Seq<char>>, v: &Vec<(usize, &'a str)>, key: &str, r: Ghost<Seq<(int, int)>>) -> (f: Option<(usize, &'a str)>)
    requires at_rows(c@, v@, r@)
    ensures match f { None => key_row(c@, r@, 0, key@) is None, Some(x) => key_row(c@, r@, 0, key@) is Some && ({ let k = key_row(c@, r@, 0, key@)->Some_0; 0 <= k < r@.len() && at_row(c@, x, r@[k]) }) }
{
    let mut ix: usize = 0;
    while ix < v.len()
        invariant ix <= v.len(), at_rows(c@, v@, r@), key_row(c@, r@, 0, key@) == key_row(c@, r@, ix as int, key@),
        decreases v.len() - ix
    {
        let (start, text) = v[ix];
        assert(at_row(c@, v@[ix as int], r@[ix as int]));
        if let Some((name, _)) = key_value(text) { if same(name, key) { return Some((start, text)); } }
        ix += 1;
    }
    None
}
/// `.into_iter().filter_map(|(_, line)| key_value(line)).find(|(key, _)| *key == K).map(|(_, value)| value.to_string())`
fn value_in(c: Ghost<Seq<char>>, v: &Vec<(usize, &str)>, key: &str, r: Ghost<Seq<(int, int)>>) -> (f: Option<String>)
    requires at_rows(c@, v@, r@)
    ensures match f { None => key_row(c@, r@, 0, key@) is None, Some(x) => key_row(c@, r@, 0, key@) is Some && ({ let k = key_row(c@, r@, 0, key@)->Some_0; 0 <= k < r@.len() && x@ == keyed(c@.subrange(r@[k].0, r@[k].1))->Some_0.1 }) }
{
    let mut ix: usize = 0;
    while ix < v.len()
        invariant ix <= v.len(), at_rows(c@, v@, r@), key_row(c@, r@, 0, key@) == key_row(c@, r@, ix as int, key@),
        decreases v.len() - ix
    {
        let (start, text) = v[ix];
        assert(at_row(c@, v@[ix as int], r@[ix as int]));
        if let Some((name, value)) = key_value(text) { if same(name, key) { return Some(owned(value)); } }
        ix += 1;
    }
    None
}
/// all keys and values of the rows, in order
pub open spec fn listing(c: Seq<char>, r: Seq<(int, int)>, k: int) -> Seq<(Seq<char>, Seq<char>)> decreases k {
    if k <= 0 { Seq::empty() } else { match keyed(c.subrange(r[k - 1].0, r[k - 1].1)) { Some(x) => listing(c, r, k - 1).push(x), None => listing(c, r, k - 1) } }
}
pub open spec fn as_listed(v: Seq<(String, String)>, l: Seq<(Seq<char>, Seq<char>)>) -> bool { v.len() == l.len() && forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).0@ == l[k].0 && v[k].1@ == l[k].1 }
/// `.into_iter().filter_map(|(_, line)| key_value(line)).map(|(key, value)| (key.to_string(), value.to_string())).collect()`
fn values_in(c: Ghost<Seq<char>>, v: &Vec<(usize, &str)>, r: Ghost<Seq<(int, int)>>) -> (f: Vec<(String, String)>)
    requires at_rows(c@, v@, r@)
    ensures as_listed(f@, listing(c@, r@, r@.len() as int))
{
    let mut ix: usize = 0; let mut out: Vec<(String, String)> = Vec::new();
    while ix < v.len()
        invariant ix <= v.len(), at_rows(c@, v@, r@), as_listed(out@, listing(c@, r@, ix as int)),
        decreases v.len() - ix
    {
        let (start, text) = v[ix];
        assert(at_row(c@, v@[ix as int], r@[ix as int]));
        if let Some((name, value)) = key_value(text) { out.push((owned(name), owned(value))); }
        ix += 1;
    }
    out
}

// ---- script properties -------------------------------------------------------------------------------------
//@@ struct crates/ass-editor/commands/script_info_commands/set.rs SetScriptInfoCommand
//@@ struct crates/ass-editor/commands/script_info_commands/get.rs GetScriptInfoCommand
//@@ struct crates/ass-editor/commands/script_info_commands/get.rs GetAllScriptInfoCommand
//@@ struct crates/ass-editor/commands/script_info_commands/delete.rs DeleteScriptInfoCommand
pub open spec fn props(t: Seq<char>) -> Seq<(int, int)> { all_rows(t, SCRIPT_INFO_is()) }
pub open spec fn info_header(t: Seq<char>) -> Option<(int, int)> { header_from(t, 0, SCRIPT_INFO_is()) }
/// the text with the line of a property rewritten, or added behind the header
pub open spec fn info_set(t: Seq<char>, key: Seq<char>, v: Seq<char>) -> Seq<char> {
    let r = props(t); let h = info_header(t)->Some_0;
    match key_row(t, r, 0, key) {
        Some(k) => t.take(r[k].0) + (""@ + key + ": "@ + v + ""@) + t.skip(r[k].1),
        None => t.take(h.1) + ((if t[h.1 - 1] == '\n' { ""@ } else { "\n"@ }) + key + ": "@ + v + "\n"@) + t.skip(h.1),
    }
}
pub open spec fn info_deleted(t: Seq<char>, key: Seq<char>) -> Seq<char> {
    let r = props(t);
    match key_row(t, r, 0, key) { Some(k) => t.take(r[k].0) + t.skip(eol(t, r[k].0)), None => t }
}
impl GetScriptInfoCommand {
//@@ fn crates/ass-editor/commands/script_info_commands/get.rs GetScriptInfoCommand::get_value
//@ret r
//@re-all &content, SCRIPT_INFO\b => content.as_str(), SCRIPT_INFO()
//@re (?s)EditorError::command_failed\(.*?\)\) => refused())
//@re (?s)Ok\((section_lines\(.*?\)\))\s*\.into_iter\(\)\s*\.filter_map\(\|\(_, line\)\| key_value\(line\)\)\s*\.find\(\|\(key, _\)\| \*key == self\.property\)\s*\.map\(\|\(_, value\)\| value\.to_string\(\)\)\) => let all = \1; Ok(value_in(Ghost(content@), &all, self.property.as_str(), Ghost(props(content@))))
//@start
    proof { text_fits(document); }
//@spec
    ensures r is Ok <==> info_header(document.t()) is Some,
        r is Ok ==> match r->Ok_0 { None => key_row(document.t(), props(document.t()), 0, self.property@) is None,
            Some(x) => ({ let t = document.t(); let k = key_row(t, props(t), 0, self.property@); k is Some && x@ == keyed(t.subrange(props(t)[k->Some_0].0, props(t)[k->Some_0].1))->Some_0.1 }) }
//@@ end
}
impl GetAllScriptInfoCommand {
//@@ fn crates/ass-editor/commands/script_info_commands/get.rs GetAllScriptInfoCommand::get_all
//@ret r
//@re-all &content, SCRIPT_INFO\b => content.as_str(), SCRIPT_INFO()
//@re (?s)EditorError::command_failed\(.*?\)\) => refused())
//@re (?s)Ok\((section_lines\(.*?\)\))\s*\.into_iter\(\)\s*\.filter_map\(\|\(_, line\)\| key_value\(line\)\)\s*\.map\(\|\(key, value\)\| \(key\.to_string\(\), value\.to_string\(\)\)\)\s*\.collect\(\)\) => let all = \1; Ok(values_in(Ghost(content@), &all, Ghost(props(content@))))
//@start
    proof { text_fits(document); }
//@spec
    ensures r is Ok <==> info_header(document.t()) is Some, r is Ok ==> as_listed(r->Ok_0@, listing(document.t(), props(document.t()), props(document.t()).len() as int))
//@@ end
}
impl SetScriptInfoCommand {
//@@ fn crates/ass-editor/commands/script_info_commands/set.rs SetScriptInfoCommand::execute
//@ret r
//@re document\.text\(\)\.to_string\(\) => document.text()
//@re-all &content, SCRIPT_INFO\b => content.as_str(), SCRIPT_INFO()
//@re (?s)let header = (section_header\(.*?\)\))\s*\.ok_or_else\(.*?\)\)\?; => let header = \1; if header.is_none() { return Err(refused()); } let header = header.unwrap();
//@re (?s)let found = (section_lines\(.*?\)\))\s*\.into_iter\(\)\s*\.find\(\|\(_, line\)\| key_value\(line\)\.is_some_and\(\|\(key, _\)\| key == self\.property\)\); => let all = \1; let found = find_row(Ghost(content@), &all, self.property.as_str(), Ghost(props(content@)));
//@re format!\("\{\}: \{\}", self\.property, self\.value\) => pair("", self.property.as_str(), self.value.as_str(), "")
//@re format!\("\{\}: \{\}\\n", self\.property, self\.value\) => pair("", self.property.as_str(), self.value.as_str(), "\\n")
//@re format!\("\\n\{\}: \{\}\\n", self\.property, self\.value\) => pair("\\n", self.property.as_str(), self.value.as_str(), "\\n")
//@re content\[header\]\.ends_with\( => ends_with_char(bslice(content.as_str(), header.start, header.end), 
//@re-all &new_line\b => new_line.as_str()
//@re-all new_line\.len\(\) => slen(new_line.as_str())
//@re line\.len\(\) => blen(line)
//@start
    proof { text_fits(document); }
    let ghost t = document.t(); let ghost rs = props(t);
//@before "let new_line = pair(\"\", self.property.as_str(), self.value.as_str(), \"\");"
            let ghost k = key_row(t, rs, 0, self.property@)->Some_0;
            proof { assert(at_row(t, (line_start, line), rs[k])); off_mono(t, rs[k].0, rs[k].1); }
//@before "document.replace(range, new_line.as_str())?;"
            proof { assert(spans(t, range, rs[k].0, rs[k].1)); }
//@after "document.replace(range, new_line.as_str())?;"
            proof { let (i, j) = choose|i: int, j: int| #[trigger] spans(t, range, i, j) && document.t() == t.take(i) + new_line@ + t.skip(j); spans_one(t, range, i, j, rs[k].0, rs[k].1); }
//@before "let insert_pos = header.end;"
            let ghost h = info_header(t)->Some_0;
            proof { off_mono(t, h.0, h.1); off_mono(t, h.1, t.len() as int); assert(off(t, h.0) == header.start && off(t, h.1) == header.end); assert(t.subrange(h.0, h.1).last() == t[h.1 - 1]); assert(at_boundary(t, header.end as int)); }
//@after "document.insert(Position::new(insert_pos), new_line.as_str())?;"
            proof { let i = choose|i: int| 0 <= i <= t.len() && #[trigger] off(t, i) == insert_pos && document.t() == t.take(i) + new_line@ + t.skip(i); off_inj(t, i, h.1); }
//@spec
    ensures r is Ok <==> info_header(old(document).t()) is Some, r is Err ==> final(document).t() == old(document).t(),
        r is Ok ==> final(document).t() == info_set(old(document).t(), self.property@, self.value@),
//@@ end
}
impl DeleteScriptInfoCommand {
//@@ fn crates/ass-editor/commands/script_info_commands/delete.rs DeleteScriptInfoCommand::execute
//@ret r
//@re document\.text\(\)\.to_string\(\) => document.text()
//@re-all &content, SCRIPT_INFO\b => content.as_str(), SCRIPT_INFO()
//@re (?s)EditorError::command_failed\(.*?\)\) => refused())
//@re (?s)let found = (section_lines\(.*?\)\))\s*\.into_iter\(\)\s*\.find\(\|\(_, line\)\| key_value\(line\)\.is_some_and\(\|\(key, _\)\| key == self\.property\)\); => let all = \1; let found = find_row(Ghost(content@), &all, self.property.as_str(), Ghost(props(content@)));
//@re (?s)content\[absolute_pos\.\.\]\s*\.find\('\\n'\)\s*\.map\(\|pos\| (absolute_pos \+ pos \+ 1)\)\s*\.unwrap_or\(content\.len\(\)\) => match find_char(bslice(content.as_str(), absolute_pos, blen(content.as_str())), '\\n') { Some(pos) => \1, None => blen(content.as_str()) }
//@start
    proof { text_fits(document); }
    let ghost t = document.t(); let ghost rs = props(t);
//@before "let line_end = match"
            let ghost k = key_row(t, rs, 0, self.property@)->Some_0; let ghost a = rs[k].0;
            proof {
                off_mono(t, a, t.len() as int); off_end(t); assert(off(t, a) == absolute_pos && off(t, t.len() as int) == nbytes(t)); brk_ch(t, a); brk_in(t, a); assert(t.subrange(a, t.len() as int) =~= t.skip(a));
                let x = ch_at(t.skip(a), 0, '\n'); ch_in(t.skip(a), 0, '\n'); off_skip(t, a, x);
                if a + x < t.len() { off_step(t, a + x); w_ascii('\n'); off_mono(t, a + x + 1, t.len() as int); }
            }
//@before "document.delete(range)?;"
            proof { assert(off(t, eol(t, a)) == line_end); off_mono(t, a, eol(t, a)); assert(spans(t, range, a, eol(t, a))); }
//@after "document.delete(range)?;"
            proof { let (i, j) = choose|i: int, j: int| #[trigger] spans(t, range, i, j) && document.t() == t.take(i) + t.skip(j); spans_one(t, range, i, j, a, eol(t, a)); }
//@spec
    ensures r is Ok <==> info_header(old(document).t()) is Some, r is Err ==> final(document).t() == old(document).t(),
        r is Ok ==> final(document).t() == info_deleted(old(document).t(), self.property@),
//@@ end
}
fn main() {}
}
