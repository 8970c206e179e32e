use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use std::collections::HashMap;
verus! {
//@@ include str.inc
//@@ include doc.inc
//@@ include lines.inc
//@@ include sections.inc
//@@ include fields.inc
//@@ include styles.inc
// ---- style commands -----------------------------------------------------------------------------------------
proof fn off_sub(c: Seq<char>, a: int, b: int, i: int)
    requires 0 <= a <= b <= c.len(), 0 <= i <= b - a
    ensures off(c, a) + off(c.subrange(a, b), i) == off(c, a + i)
{ off_skip(c, a, i); assert(c.subrange(a, b).take(i) =~= c.skip(a).take(i)); }
//@@ struct crates/ass-editor/commands/style_commands/delete.rs DeleteStyleCommand
//@@ struct crates/ass-editor/commands/style_commands/clone.rs CloneStyleCommand
//@@ struct crates/ass-editor/commands/style_commands/edit.rs EditStyleCommand
//@@ struct crates/ass-editor/commands/style_commands/apply.rs ApplyStyleCommand
pub open spec fn without_line(t: Seq<char>, a: int) -> Seq<char> { t.take(a) + t.skip(eol(t, a)) }
proof fn line_to(t: Seq<char>, a: int)
    requires 0 <= a <= t.len()
    ensures ({ let x = ch_at(t.skip(a), 0, '\n'); let e = eol(t, a); a <= e <= t.len() && off(t, a) <= off(t, e) <= nbytes(t) && t.subrange(a, t.len() as int) == t.skip(a) && off(t, t.len() as int) == nbytes(t)
        && (x == t.skip(a).len() ==> e == t.len()) && (x < t.skip(a).len() ==> off(t, e) == off(t, a) + off(t.skip(a), x) + 1) })
{
    off_end(t); brk_ch(t, a); brk_in(t, a); assert(t.subrange(a, t.len() as int) =~= t.skip(a));
    let x = ch_at(t.skip(a), 0, '\n'); ch_in(t.skip(a), 0, '\n'); off_skip(t, a, x);
    off_mono(t, a, eol(t, a));
    if a + x < t.len() { off_step(t, a + x); w_ascii('\n'); }
}
impl DeleteStyleCommand {
//@@ fn crates/ass-editor/commands/style_commands/delete.rs DeleteStyleCommand::execute
//@ret r
//@re (?s)let Some\((\w+)\) = (find_style\([^;]*?\)) else \{(.*?)\n\s*\}; => let found = \2; if found.is_none() {\3 } let \1 = found.unwrap();
//@re-all (?s)EditorError::command_failed\([^;]*?\)\); => refused());
//@re (?s)\.with_message\(format!\([^;]*\)\)\) => )
//@re find_style\(&content, &self\.style_name\) => find_style(content.as_str(), self.style_name.as_str())
//@re (?s)content\[line_start\.\.\]\s*\.find\('\\n'\)\s*\.map_or\(content\.len\(\), \|pos\| (line_start \+ pos \+ 1)\) => match find_char(bslice(content.as_str(), line_start, blen(content.as_str())), '\\n') { Some(pos) => \1, None => blen(content.as_str()) }
//@start
    proof { text_fits(document); }
    let ghost t = document.t();
//@before "let line_end = match"
        let ghost a = srows(t)[the_style(t, self.style_name@)->Some_0.row].0;
        proof { assert(at_style(t, style, the_style(t, self.style_name@)->Some_0)); line_to(t, a); assert(off(t, a) == line_start); }
//@before "document.delete(range)?;"
        proof { assert(spans(t, range, a, eol(t, a))); }
//@after "document.delete(range)?;"
        proof { let (i, j) = choose|i: int, j: int| #[trigger] spans(t, range, i, j) && document.t() == t.take(i) + t.skip(j); spans_one(t, range, i, j, a, eol(t, a)); }
//@spec
    ensures ({ let t = old(document).t(); let y = the_style(t, self.style_name@); (r is Ok <==> y is Some) && (r is Err ==> final(document).t() == t) && (r is Ok ==> final(document).t() == without_line(t, srows(t)[y->Some_0.row].0)) })
//@@ end
}
/// String::replace_range
#[verifier::external_body]
fn splice(s: &mut String, x: &Bytes, w: &str)
    requires exists|f: (int, int)| #[trigger] at_field(old(s)@, *x, f)
    ensures forall|f: (int, int)| #[trigger] at_field(old(s)@, *x, f) ==> final(s)@ == old(s)@.take(f.0) + w@ + old(s)@.skip(f.1)
{ s.replace_range(x.clone(), w) }
/// a style line under another name
pub open spec fn renamed(x: Seq<char>, y: Sty, w: Seq<char>) -> Seq<char> { let f = y.vals[or_zero(col(y.cols, "Name"@, 0))]; x.take(f.0) + w + x.skip(f.1) }
pub open spec fn with_clone(t: Seq<char>, y: Sty, w: Seq<char>) -> Seq<char> { let r = srows(t)[y.row]; t.take(r.1) + ("\n"@ + renamed(t.subrange(r.0, r.1), y, w) + ""@) + t.skip(r.1) }
impl CloneStyleCommand {
//@@ fn crates/ass-editor/commands/style_commands/clone.rs CloneStyleCommand::execute
//@ret r
//@re (?s)let Some\((\w+)\) = (find_style\([^;]*?\)) else \{(.*?)\n\s*\}; => let found = \2; if found.is_none() {\3 } let \1 = found.unwrap();
//@re-all (?s)EditorError::command_failed\([^;]*?\)\); => refused());
//@re (?s)\.with_message\(format!\([^;]*\)\)\) => )
//@re-all find_style\(&content, &self\.(\w+)\) => find_style(content.as_str(), self.\1.as_str())
//@re source\.line\.to_string\(\) => owned(source.line)
//@re source\.column\("Name"\)\.unwrap_or\(0\) => match source.column("Name") { Some(i) => i, None => 0 }
//@re cloned_line\.replace_range\(source\.values\[name_column\]\.clone\(\), &self\.target_style\) => splice(&mut cloned_line, &source.values[name_column], self.target_style.as_str())
//@re source\.line\.len\(\) => blen(source.line)
//@re format!\("\\n\{cloned_line\}"\) => around("\\n", cloned_line.as_str(), "")
//@re &insert_text => insert_text.as_str()
//@re-all insert_text\.len\(\) => slen(insert_text.as_str())
//@start
    proof { text_fits(document); }
    let ghost t = document.t(); let ghost y = the_style(t, self.source_style@)->Some_0; let ghost e = srows(t)[y.row].1;
//@before "splice(&mut cloned_line"
        proof { assert(at_style(t, source, y)); field_at(source.line@, source.values@, y.vals, name_column as int); }
//@before "let insert_text"
        proof { assert(cloned_line@ == renamed(source.line@, y, self.target_style@)); assert(off(t, e) == insert_pos); assert(at_boundary(t, insert_pos as int)); off_mono(t, e, t.len() as int); }
//@after "document.insert(Position::new(insert_pos), insert_text.as_str())?;"
        proof { let i = choose|i: int| 0 <= i <= t.len() && #[trigger] off(t, i) == insert_pos && document.t() == t.take(i) + insert_text@ + t.skip(i); off_inj(t, i, e); }
//@spec
    ensures ({ let t = old(document).t(); let y = the_style(t, self.source_style@); (r is Ok <==> y is Some && the_style(t, self.target_style@) is None) && (r is Err ==> final(document).t() == t) && (r is Ok ==> final(document).t() == with_clone(t, y->Some_0, self.target_style@)) })
//@@ end
}
// ---- editing a style ----------------------------------------------------------------------------------------
pub uninterp spec fn upd(m: HashMap<String, String>, n: Seq<char>) -> Option<Seq<char>>;
/// HashMap::get
#[verifier::external_body]
fn given<'a>(m: &'a HashMap<String, String>, n: &str) -> (r: Option<&'a String>) ensures match r { None => upd(*m, n@) is None, Some(x) => upd(*m, n@) == Some(x@) } { m.get(n) }
/// a style line with the values of the first n columns updated, up to a character
pub open spec fn upto(x: Seq<char>, y: Sty, m: HashMap<String, String>, n: int) -> (Seq<char>, int)
    decreases n
{
    if n <= 0 { (Seq::empty(), 0) } else {
        let (g, l) = upto(x, y, m, n - 1); let f = y.vals[n - 1];
        match upd(m, y.cols[n - 1]) { Some(w) => (g + x.subrange(l, f.0) + w, f.1), None => (g, l) }
    }
}
pub open spec fn least(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn updated(x: Seq<char>, y: Sty, m: HashMap<String, String>) -> Seq<char> { let (g, l) = upto(x, y, m, least(y.cols.len() as int, y.vals.len() as int)); g + x.skip(l) }
proof fn upto_in(x: Seq<char>, y: Sty, m: HashMap<String, String>, n: int, v: Seq<Bytes>)
    requires at_flds(x, v, y.vals), 0 <= n <= y.vals.len()
    ensures 0 <= upto(x, y, m, n).1 <= x.len(), n < y.vals.len() ==> upto(x, y, m, n).1 <= y.vals[n].0, n > 0 ==> upto(x, y, m, n).1 <= y.vals[n - 1].1
    decreases n
{ if n > 0 { upto_in(x, y, m, n - 1, v); field_at(x, v, y.vals, n - 1); if n < y.vals.len() { follow_at(y.vals, n); field_at(x, v, y.vals, n); } } else if n < y.vals.len() { field_at(x, v, y.vals, 0); } }
pub open spec fn with_line(t: Seq<char>, r: (int, int), w: Seq<char>) -> Seq<char> { t.take(r.0) + w + t.skip(r.1) }
impl EditStyleCommand {
//@@ fn crates/ass-editor/commands/style_commands/edit.rs EditStyleCommand::execute
//@ret r
//@re (?s)let Some\((\w+)\) = (find_style\([^;]*?\)) else \{(.*?)\n\s*\}; => let found = \2; if found.is_none() {\3 } let \1 = found.unwrap();
//@re-all (?s)EditorError::command_failed\([^;]*?\)\); => refused());
//@re (?s)\.with_message\(format!\([^;]*\)\)\) => )
//@re find_style\(&content, &self\.style_name\) => find_style(content.as_str(), self.style_name.as_str())
//@re style\.columns\.is_empty\(\) => style.columns.len() == 0
//@re String::new\(\) => snew()
//@re let mut kept = 0; => let mut kept: usize = 0; let mut ix: usize = 0;
//@re for \(column, value\) in style\.columns\.iter\(\)\.zip\(&style\.values\) \{ => while ix < style.columns.len() && ix < style.values.len() { let column = style.columns[ix]; let value = &style.values[ix]; ix += 1;
//@re self\.field_updates\.get\(\*column\) => given(&self.field_updates, column)
//@re &style\.line\[kept\.\.value\.start\] => bslice(style.line, kept, value.start)
//@re &style\.line\[kept\.\.\] => bslice(style.line, kept, blen(style.line))
//@re push_str\(new_value\) => push_str(new_value.as_str())
//@re-all new_style_line\.push_str\( => sadd(&mut new_style_line, 
//@re style\.line\.len\(\) => blen(style.line)
//@re &new_style_line\) => new_style_line.as_str())
//@re-all new_style_line\.len\(\) => slen(new_style_line.as_str())
//@start
    proof { text_fits(document); }
    let ghost t = document.t(); let ghost y = the_style(t, self.style_name@)->Some_0; let ghost rw = srows(t)[y.row]; let ghost x = t.subrange(rw.0, rw.1); let ghost m = self.field_updates;
//@before "let mut new_style_line"
        proof { assert(at_style(t, style, y)); off_zero(x); off_end(x); assert(texts(style.columns@).len() == style.columns@.len()); }
//@loop 0
    invariant ix <= style.columns.len(), ix <= style.values.len(), at_style(t, style, y), style.line@ == x, m == self.field_updates, texts(style.columns@).len() == style.columns@.len(), nbytes(x) < 0x7fff_ffff,
        new_style_line@ == upto(x, y, m, ix as int).0, kept == off(x, upto(x, y, m, ix as int).1),
    decreases style.values.len() - ix
//@loopstart 0
            let ghost k = ix as int; let ghost l = upto(x, y, m, k).1;
            proof { upto_in(x, y, m, k, style.values@); field_at(x, style.values@, y.vals, k); off_mono(x, l, y.vals[k].0); assert(off(x, l) == kept); assert(texts(style.columns@)[k] == style.columns@[k]@); }
//@before "sadd(&mut new_style_line, bslice(style.line, kept, blen(style.line)));"
        proof { let n = least(y.cols.len() as int, y.vals.len() as int); assert(ix == n); upto_in(x, y, m, n, style.values@); let l = upto(x, y, m, n).1; off_mono(x, l, x.len() as int); assert(off(x, l) == kept && off(x, x.len() as int) == nbytes(x)); assert(x.subrange(l, x.len() as int) =~= x.skip(l)); }
//@before "document.replace(range"
        proof { off_mono(t, rw.0, rw.1); assert(spans(t, range, rw.0, rw.1)); }
//@after "document.replace(range, new_style_line.as_str())?;"
        proof { let (i, j) = choose|i: int, j: int| #[trigger] spans(t, range, i, j) && document.t() == t.take(i) + new_style_line@ + t.skip(j); spans_one(t, range, i, j, rw.0, rw.1); }
//@spec
    ensures ({ let t = old(document).t(); let y = the_style(t, self.style_name@); (r is Ok <==> y is Some && y->Some_0.vals.len() >= 2 && y->Some_0.cols.len() > 0) && (r is Err ==> final(document).t() == t)
        && (r is Ok ==> ({ let rw = srows(t)[y->Some_0.row]; final(document).t() == with_line(t, rw, updated(t.subrange(rw.0, rw.1), y->Some_0, self.field_updates)) })) })
//@@ end
}
fn main() {}
}
