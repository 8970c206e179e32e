use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
verus! {
//@@ include str.inc
//@@ include doc.inc
//@@ include lines.inc
//@@ include sections.inc
//@@ include fields.inc
//@@ include event.inc
//@@ fn crates/ass-editor/commands/event_commands/helpers.rs parse_event_line
//@ret r
//@re (?s)let colon_pos = line\s*\.find\(':'\)\s*\.ok_or_else\(\|\| EditorError::command_failed\("[^"]*"\)\)\?; => let colon_pos = match find_char(line, ':') { Some(p) => p, None => { return Err(refused()); } };
//@re-all (?s)return Err\(EditorError::command_failed\(\s*"[^"]*",?\s*\)\) => return Err(refused())
//@re &line\[\.\.colon_pos\] => bslice(line, 0, colon_pos)
//@re line\[colon_pos \+ 1\.\.\]\.trim\(\) => trimmed(bslice(line, colon_pos + 1, blen(line)))
//@strmatch event_type_str
//@re fields_part\.splitn\(10, ','\)\.collect\(\) => comma_pieces(fields_part, 10)
//@re-all parts\[(\d)\]\.trim\(\) => trimmed(parts[\1])
//@re parts\[0\.\.(\d)\]\.iter\(\)\.map\(\|s\| s\.len\(\)\)\.sum::<usize>\(\) => lens(&parts, \1, Ghost(rest), Ghost(v))
//@re &fields_part\[prefix_len\.\.\] => bslice(fields_part, prefix_len, blen(fields_part))
//@re (?s)(let mut split_point) = None;\s*let mut paren_depth = 0usize; => let cs: Vec<char> = chars_of(remaining); let mut ci: usize = 0; let mut next: usize = 0; \1: Option<usize> = None; let mut paren_depth = 0usize;
//@re for \(i, ch\) in remaining\.char_indices\(\) \{ => while ci < cs.len() { let ch = cs[ci]; let i = next; proof { off_step(u, ci as int); off_mono(u, ci as int + 1, u.len() as int); } next += ch.len_utf8(); ci += 1;
//@re let \(effect, text\) = if let Some\(split\) = split_point\.or_else\(\|\| remaining\.find\(','\)\) => let parted = match split_point { Some(x) => Some(x), None => find_char(remaining, ',') };\nproof { parted_at(u); } let (effect, text) = if let Some(split) = parted
//@re remaining\[\.\.split\]\.trim\(\) => trimmed(bslice(remaining, 0, split))
//@re remaining\[split \+ 1\.\.\]\.trim\(\) => trimmed(bslice(remaining, split + 1, blen(remaining)))
//@re remaining\.trim\(\) => trimmed(remaining)
//@re line\.len\(\) => blen(line)
//@start
    let ghost s = line@; let ghost c = ch_at(s, 0, ':'); let ghost rest = core_of(s.skip(c + 1)); let ghost v = cps(rest, 0, 10); let ghost u = rest.skip(v[8].0);
    proof { off_zero(s); off_end(s); ch_in(s, 0, ':'); off_mono(s, 0, c); off_mono(s, c, s.len() as int); if c < s.len() { off_step(s, c); w_ascii(':'); off_mono(s, c + 1, s.len() as int); assert(s.subrange(c + 1, s.len() as int) =~= s.skip(c + 1)); sub_bytes(s, c + 1, s.len() as int); let w = s.skip(c + 1); core_in(w); sub_bytes(w, blanks(w), blanks(w) + rest.len()); off_mono(w, 0, blanks(w)); off_mono(w, blanks(w) + rest.len(), w.len() as int); off_zero(w); off_end(w); } assert(s.subrange(0, c) =~= s.take(c)); reveal_strlit(""); reveal_strlit("Comment"); reveal_strlit("Dialogue"); assert("Comment"@.len() == 7 && "Dialogue"@.len() == 8); assert(""@ =~= Seq::<char>::empty()); }
//@before "let layer"
    proof { cps_at(rest, 0, 10, 8); off_end(rest); off_mono(rest, v[8].0, rest.len() as int); assert(rest.subrange(v[8].0, rest.len() as int) =~= u); sub_bytes(rest, v[8].0, rest.len() as int); off_zero(u); off_end(u); assert forall|k: int| 0 <= k < 10 implies (#[trigger] parts@[k])@ == rest.subrange(v[k].0, v[k].1) by { } cps_len(rest, 0, 10); }
//@loop 0
    invariant_except_break cs@ == u, remaining@ == u, u.len() <= nbytes(u), nbytes(u) < 0x7fff_ffff, off(u, u.len() as int) == nbytes(u), ci <= u.len(), next == off(u, ci as int), paren_depth <= ci, split_point is None, outer(u, ci as int, paren_depth as int) == outer(u, 0, 0),
    ensures match split_point { Some(x) => outer(u, 0, 0) is Some && off(u, outer(u, 0, 0)->Some_0) == x, None => outer(u, 0, 0) is None }
    decreases u.len() - ci
//@spec
    requires nbytes(line@) < 0x7fff_ffff
    ensures match r { Ok(e) => event_of(line@) is Some && is_ev(e, event_of(line@)->Some_0), Err(_) => event_of(line@) is None }
//@@ end
proof fn cps_len(s: Seq<char>, p: int, n: int) requires n >= 0 ensures cps(s, p, n).len() <= n decreases n { if n > 0 && p >= 0 && p <= s.len() { let q = if n == 1 { s.len() as int } else { ch_at(s, p, ',') }; if !(q >= s.len() || q < p) { cps_len(s, q + 1, n - 1); } } }
proof fn parted_at(u: Seq<char>)
    ensures off(u, 0) == 0, off(u, u.len() as int) == nbytes(u), ({ let x = parting(u); 0 <= x <= u.len() && u.subrange(0, x) == u.take(x) && 0 <= off(u, x) <= nbytes(u) && (x < u.len() ==> off(u, x + 1) == off(u, x) + 1 && off(u, x + 1) <= nbytes(u) && u.subrange(x + 1, u.len() as int) == u.skip(x + 1)) && (x == u.len() <==> outer(u, 0, 0) is None && ch_at(u, 0, ',') == u.len()) && (x == u.len() ==> u.take(x) == u) })
{
    off_zero(u); off_end(u); outer_in(u, 0, 0); ch_in(u, 0, ','); let x = parting(u); assert(u.subrange(0, x) =~= u.take(x)); off_mono(u, 0, x); off_mono(u, x, u.len() as int);
    if x < u.len() { off_step(u, x); w_ascii(','); off_mono(u, x + 1, u.len() as int); assert(u.subrange(x + 1, u.len() as int) =~= u.skip(x + 1)); } else { assert(u.take(x) =~= u); }
}
#[verifier::external_body]
fn chars_of(s: &str) -> (r: Vec<char>) ensures r@ == s@ { s.chars().collect() }
fn main() {}
}
