use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
verus! {
//@@ include str.inc
//@@ include doc.inc
//@@ include lines.inc
//@@ include sections.inc
//@@ include fields.inc
//@@ include walk.inc

// ---- specification: event number k of a document ------------------------------------------------------------
#[verifier::opaque]
pub open spec fn nth(t: Seq<char>, p: int, n: int, k: int) -> Option<int>
    decreases t.len() - p
{
    if p < 0 || p >= t.len() || eol(t, p) <= p { None } else {
        let s = t.subrange(p, brk(t, p)); let e = eol(t, p);
        if is_event(s) { if n == k { Some(p) } else { nth(t, e, n + 1, k) } } else if new_section(s) { None } else { nth(t, e, n, k) }
    }
}
pub open spec fn target(t: Seq<char>, k: int) -> Option<int> { match first_line(t) { None => None, Some(p) => nth(t, p, 0, k) } }
proof fn nth_next(t: Seq<char>, p: int, n: int, k: int)
    requires 0 <= p < t.len()
    ensures ({ let s = t.subrange(p, brk(t, p)); let e = eol(t, p); nth(t, p, n, k) == if is_event(s) { if n == k { Some(p) } else { nth(t, e, n + 1, k) } } else if new_section(s) { None } else { nth(t, e, n, k) } })
{ reveal(nth); brk_in(t, p); }
proof fn nth_end(t: Seq<char>, n: int, k: int) ensures nth(t, t.len() as int, n, k) is None { reveal(nth); }
/// it is a line of the text at or below p
proof fn nth_in(t: Seq<char>, p: int, n: int, k: int)
    requires 0 <= p <= t.len(), p == 0 || p == t.len() || t[p - 1] == '\n'
    ensures nth(t, p, n, k) is Some ==> ({ let x = nth(t, p, n, k)->Some_0; p <= x < t.len() && (x == 0 || t[x - 1] == '\n') && is_event(t.subrange(x, brk(t, x))) })
    decreases t.len() - p
{ reveal(nth); if p < t.len() { brk_in(t, p); nth_in(t, eol(t, p), n + 1, k); nth_in(t, eol(t, p), n, k); } }
/// the line at p in bytes
pub open spec fn line_at(t: Seq<char>, p: int) -> bool {
    let z = brk(t, p); let e = eol(t, p);
    p <= z <= e <= t.len() && p < e && ch_at(t.skip(p), 0, '\n') == z - p && t.subrange(p, t.len() as int) == t.skip(p) && t.skip(p).len() == t.len() - p && off(t, t.len() as int) == nbytes(t)
        && off(t, z) == off(t, p) + off(t.skip(p), z - p) && off(t, e) == off(t, z) + (e - z) && off(t, e) <= nbytes(t) && off(t, p) < off(t, e) && 0 <= off(t, p) && (z < t.len() ==> e == z + 1 && t[z] == '\n') && (z == t.len() ==> e == z)
        && nbytes(t.subrange(p, z)) == off(t, z) - off(t, p) && nbytes(t.subrange(p, e)) == off(t, e) - off(t, p)
}
proof fn line_is(t: Seq<char>, p: int)
    requires 0 <= p < t.len()
    ensures line_at(t, p)
{
    brk_in(t, p); brk_ch(t, p); let z = brk(t, p); let e = eol(t, p); off_end(t); off_skip(t, p, z - p); off_mono(t, 0, p); off_mono(t, p, z); off_mono(t, z, e); off_mono(t, e, t.len() as int); off_mono(t, p, e); off_zero(t);
    assert(t.subrange(p, t.len() as int) =~= t.skip(p)); sub_bytes(t, p, z); sub_bytes(t, p, e);
    if z < t.len() { off_step(t, z); w_ascii('\n'); }
}
/// with or without its line break, a line begins alike
proof fn begins_alike(t: Seq<char>, p: int)
    requires 0 <= p < t.len()
    ensures ({ let a = t.subrange(p, brk(t, p)); let b = t.subrange(p, eol(t, p)); (prefixed(a, "Dialogue:"@) <==> prefixed(b, "Dialogue:"@)) && (prefixed(a, "Comment:"@) <==> prefixed(b, "Comment:"@)) && (new_section(a) <==> new_section(b)) })
{
    brk_in(t, p); let z = brk(t, p); let a = t.subrange(p, z); let b = t.subrange(p, eol(t, p));
    reveal_strlit("Dialogue:"); reveal_strlit("Comment:"); let d = "Dialogue:"@; let c = "Comment:"@;
    assert(d.len() == 9 && c.len() == 8); assert(d[0] == 'D' && d[1] == 'i' && d[2] == 'a' && d[3] == 'l' && d[4] == 'o' && d[5] == 'g' && d[6] == 'u' && d[7] == 'e' && d[8] == ':');
    assert(c[0] == 'C' && c[1] == 'o' && c[2] == 'm' && c[3] == 'm' && c[4] == 'e' && c[5] == 'n' && c[6] == 't' && c[7] == ':');
    if z < t.len() { assert(b =~= a.push('\n')); } else { assert(b =~= a); }
    prefix_alike(a, b, d); prefix_alike(a, b, c);
    if a.len() == 0 && b.len() > 0 { assert(b[0] == '\n'); } if a.len() > 0 { assert(a[0] == b[0]); }
}
proof fn prefix_alike(a: Seq<char>, b: Seq<char>, d: Seq<char>)
    requires b == a || b == a.push('\n'), forall|i: int| 0 <= i < d.len() ==> d[i] != '\n'
    ensures prefixed(a, d) <==> prefixed(b, d)
{
    if prefixed(a, d) { assert(b.take(d.len() as int) =~= a.take(d.len() as int)); }
    if prefixed(b, d) { if b.len() > a.len() && d.len() == b.len() { assert(b[a.len() as int] == '\n'); assert(b.take(d.len() as int)[a.len() as int] == d[a.len() as int]); } else { assert(b.take(d.len() as int) =~= a.take(d.len() as int)); } }
}
proof fn first_is(t: Seq<char>)
    requires first_line(t) is Some, 0 <= header_from(t, 0, EVENTS_is())->Some_0.0 <= t.len()
    ensures ({ let p = first_line(t)->Some_0; 0 < p <= t.len() && t[p - 1] == '\n' && p <= off(t, p) <= nbytes(t) && t.len() <= nbytes(t) && off(t, t.len() as int) == nbytes(t) })
{ let h = header_from(t, 0, EVENTS_is())->Some_0.0; occurs_in(t.skip(h), "Format:"@, 0); let i = occurs(t.skip(h), "Format:"@, 0)->Some_0; brk_in(t, h + i); off_mono(t, 0, first_line(t)->Some_0); off_mono(t, first_line(t)->Some_0, t.len() as int); off_zero(t); off_end(t); off_mono(t, 0, t.len() as int); }

// ---- deleting several ---------------------------------------------------------------------------------------
//@@ struct crates/ass-editor/commands/event_commands/batch_delete.rs BatchDeleteEventsCommand
pub type Pick = spec_fn(int) -> bool;
pub open spec fn in_list(v: Seq<usize>, k: int) -> bool { exists|i: int| 0 <= i < v.len() && #[trigger] v[i] == k }
/// the text from p on without the events picked
#[verifier::opaque]
pub open spec fn rest(t: Seq<char>, p: int, n: int, f: Pick) -> Seq<char>
    decreases t.len() - p
{
    if p < 0 || p >= t.len() { t.skip(p) } else if eol(t, p) <= p { Seq::empty() } else {
        let s = t.subrange(p, brk(t, p)); let e = eol(t, p);
        if is_event(s) { (if f(n) { Seq::empty() } else { t.subrange(p, e) }) + rest(t, e, n + 1, f) } else if new_section(s) { t.skip(p) } else { t.subrange(p, e) + rest(t, e, n, f) }
    }
}
pub open spec fn without(t: Seq<char>, f: Pick) -> Seq<char> { match first_line(t) { None => t, Some(p) => t.take(p) + rest(t, p, 0, f) } }
proof fn nth_from(t: Seq<char>, p: int, n: int, k: int) ensures nth(t, p, n, k) is Some ==> k >= n decreases t.len() - p { reveal(nth); if !(p < 0 || p >= t.len() || eol(t, p) <= p) { nth_from(t, eol(t, p), n + 1, k); nth_from(t, eol(t, p), n, k); } }
/// picks that agree on the events there are
proof fn rest_alike(t: Seq<char>, p: int, n: int, f: Pick, g: Pick)
    requires 0 <= p <= t.len(), forall|k: int| #[trigger] nth(t, p, n, k) is Some ==> f(k) == g(k)
    ensures rest(t, p, n, f) == rest(t, p, n, g)
    decreases t.len() - p
{
    reveal(rest);
    if p < t.len() {
        let s = t.subrange(p, brk(t, p)); let e = eol(t, p); brk_in(t, p);
        if is_event(s) {
            nth_next(t, p, n, n); assert(f(n) == g(n));
            assert forall|k: int| #[trigger] nth(t, e, n + 1, k) is Some implies f(k) == g(k) by { nth_next(t, p, n, k); nth_from(t, e, n + 1, k); let w = nth(t, p, n, k); }
            rest_alike(t, e, n + 1, f, g);
        } else if !new_section(s) { assert forall|k: int| #[trigger] nth(t, e, n, k) is Some implies f(k) == g(k) by { nth_next(t, p, n, k); let w = nth(t, p, n, k); } rest_alike(t, e, n, f, g); }
    }
}
proof fn rest_none(t: Seq<char>, p: int, n: int, f: Pick)
    requires 0 <= p <= t.len(), forall|k: int| !#[trigger] f(k)
    ensures rest(t, p, n, f) == t.skip(p)
    decreases t.len() - p
{ reveal(rest); if p < t.len() { let e = eol(t, p); brk_in(t, p); rest_none(t, e, n + 1, f); rest_none(t, e, n, f); assert(t.subrange(p, e) + t.skip(e) =~= t.skip(p)); assert(!f(n)); } }
/// nothing picked above event k: copied up to it
proof fn rest_upto(t: Seq<char>, p: int, n: int, f: Pick, k: int)
    requires 0 <= p <= t.len(), nth(t, p, n, k) is Some, forall|i: int| n <= i < k ==> !#[trigger] f(i)
    ensures ({ let x = nth(t, p, n, k)->Some_0; p <= x < t.len() && rest(t, p, n, f) == t.subrange(p, x) + rest(t, x, k, f) && is_event(t.subrange(x, brk(t, x))) })
    decreases t.len() - p
{
    reveal(nth); let s = t.subrange(p, brk(t, p)); let e = eol(t, p); brk_in(t, p); let x = nth(t, p, n, k)->Some_0;
    if is_event(s) && n == k { assert(t.subrange(p, p) =~= Seq::<char>::empty()); assert(Seq::<char>::empty() + rest(t, p, n, f) =~= rest(t, p, n, f)); }
    else {
        nth_from(t, p, n, k); reveal(rest);
        if is_event(s) { assert(!f(n)); rest_upto(t, e, n + 1, f, k); } else { rest_upto(t, e, n, f, k); }
        assert(t.subrange(p, e) + (t.subrange(e, x) + rest(t, x, k, f)) =~= t.subrange(p, x) + rest(t, x, k, f));
    }
}
/// one more event taken out, above all those taken out before
proof fn one_more(t: Seq<char>, k: int, f: Pick, g: Pick)
    requires target(t, k) is Some, 0 < first_line(t)->Some_0 <= t.len(), t[first_line(t)->Some_0 - 1] == '\n', forall|i: int| 0 <= i <= k ==> !#[trigger] f(i), forall|i: int| 0 <= i < k ==> !#[trigger] g(i), g(k), forall|i: int| i > k ==> #[trigger] g(i) == f(i)
    ensures ({ let x = target(t, k)->Some_0; let e = eol(t, x); let d = without(t, f); 0 <= x < e <= t.len() && e <= d.len() && off(d, x) == off(t, x) && off(d, e) == off(t, e) && off(t, x) <= off(t, e) && without(t, g) == d.take(x) + d.skip(e) })
{
    let p = first_line(t)->Some_0; let x = target(t, k)->Some_0; let e = eol(t, x); let d = without(t, f);
    nth_from(t, p, 0, k); rest_upto(t, p, 0, f, k); rest_upto(t, p, 0, g, k); brk_in(t, x); reveal(rest);
    let a = rest(t, e, k + 1, f); let b = rest(t, e, k + 1, g);
    assert forall|i: int| #[trigger] nth(t, e, k + 1, i) is Some implies f(i) == g(i) by { nth_from(t, e, k + 1, i); assert(g(i) == f(i)); }
    assert(!f(k)); rest_alike(t, e, k + 1, f, g);
    assert(rest(t, x, k, f) == t.subrange(x, e) + a); assert(rest(t, x, k, g) == Seq::<char>::empty() + b);
    assert(d =~= t.take(e) + a); assert(without(t, g) =~= t.take(x) + a);
    assert(d.take(x) =~= t.take(x)); assert(d.take(e) =~= t.take(e)); assert(d.skip(e) =~= a); off_mono(t, x, e);
}
/// sorted from the last to the first, each once
#[verifier::external_body]
fn from_last(v: &Vec<usize>) -> (r: Vec<usize>)
    ensures forall|i: int, j: int| 0 <= i < j < r@.len() ==> #[trigger] r@[i] > #[trigger] r@[j], forall|k: int| in_list(r@, k) <==> in_list(v@, k)
{ let mut r = v.clone(); r.sort_unstable_by(|a, b| b.cmp(a)); r.dedup(); r }
pub type Row = (usize, usize, usize);
pub open spec fn erow(t: Seq<char>, e: Row, k: int) -> bool { e.0 == k && target(t, k) is Some && ({ let x = target(t, k)->Some_0; 0 <= x < t.len() && eol(t, x) <= t.len() && e.1 == off(t, x) && e.2 == off(t, eol(t, x)) }) }
#[verifier::opaque]
pub open spec fn erows(t: Seq<char>, p: int, n: int, v: Seq<Row>) -> bool { v.len() == n && (forall|k: int| 0 <= k < n ==> erow(t, #[trigger] v[k], k)) && (forall|k: int| k >= n ==> nth(t, p, n, k) == #[trigger] target(t, k)) }
proof fn rows_from(t: Seq<char>, v: Seq<Row>) requires first_line(t) is Some, v.len() == 0 ensures erows(t, first_line(t)->Some_0, 0, v) { reveal(erows); }
proof fn rows_next(t: Seq<char>, p: int, n: int, v: Seq<Row>, w: Seq<Row>)
    requires erows(t, p, n, v), 0 <= p < t.len(), n >= 0, ({ let s = t.subrange(p, brk(t, p)); if is_event(s) { w.len() == v.len() + 1 && w.drop_last() == v && w.last().0 == n && w.last().1 == off(t, p) && w.last().2 == off(t, eol(t, p)) } else { w == v && !new_section(s) } })
    ensures erows(t, eol(t, p), if is_event(t.subrange(p, brk(t, p))) { n + 1 } else { n }, w)
{
    reveal(erows); brk_in(t, p); let s = t.subrange(p, brk(t, p)); let m = if is_event(s) { n + 1 } else { n };
    assert forall|k: int| k >= m implies nth(t, eol(t, p), m, k) == #[trigger] target(t, k) by { nth_next(t, p, n, k); }
    if is_event(s) { nth_next(t, p, n, n); let x = target(t, n); assert forall|k: int| 0 <= k < m implies erow(t, #[trigger] w[k], k) by { if k < n { assert(w[k] == w.drop_last()[k]); let y = v[k]; } } }
}
proof fn rows_end(t: Seq<char>, p: int, n: int, v: Seq<Row>)
    requires erows(t, p, n, v), 0 <= p <= t.len(), n >= 0, p == t.len() || ({ let s = t.subrange(p, brk(t, p)); new_section(s) && !is_event(s) })
    ensures v.len() == n, forall|k: int| 0 <= k < n ==> erow(t, #[trigger] v[k], k), forall|k: int| k >= n ==> #[trigger] target(t, k) is None
{ reveal(erows); assert forall|k: int| k >= n implies #[trigger] target(t, k) is None by { if p == t.len() { nth_end(t, n, k); } else { nth_next(t, p, n, k); } } }
/// `event_positions.iter().find(|(idx, _, _)| idx == index)`
fn row_for(v: &Vec<Row>, k: usize, Ghost(t): Ghost<Seq<char>>) -> (r: Option<Row>)
    requires forall|i: int| 0 <= i < v@.len() ==> erow(t, #[trigger] v@[i], i)
    ensures match r { None => k >= v@.len(), Some(e) => k < v@.len() && e == v@[k as int] }
{
    let mut ix: usize = 0;
    while ix < v.len() invariant ix <= v.len(), forall|i: int| 0 <= i < v@.len() ==> erow(t, #[trigger] v@[i], i), k >= ix, decreases v.len() - ix
    { let e = v[ix]; proof { assert(erow(t, v@[ix as int], ix as int)); } if e.0 == k { return Some(e); } ix += 1; }
    None
}
/// the events picked among those from number m on
pub open spec fn picked(v: Seq<usize>, m: int) -> Pick { |k: int| k >= m && in_list(v, k) }
impl BatchDeleteEventsCommand {
#[verifier::rlimit(40)] #[verifier::spinoff_prover]
//@@ fn crates/ass-editor/commands/event_commands/batch_delete.rs BatchDeleteEventsCommand::execute
//@ret r
//@re self\.event_indices\.is_empty\(\) => self.event_indices.len() == 0
//@re (?s)let mut sorted_indices = self\.event_indices\.clone\(\);\s*sorted_indices\.sort_unstable_by\(\|a, b\| b\.cmp\(a\)\);\s*sorted_indices\.dedup\(\); => let sorted_indices = from_last(&self.event_indices);
//@re let mut event_positions = Vec::new\(\); => let mut event_positions: Vec<Row> = Vec::new();
//@re Position::new\(content\.len\(\)\) => Position::new(slen(content.as_str()))
//@re let mut total_deleted = 0; => let mut total_deleted: i32 = 0; let mut ix: usize = 0;
//@re for index in &sorted_indices \{ => while ix < sorted_indices.len() { let index = sorted_indices[ix]; ix += 1;
//@re event_positions\.iter\(\)\.find\(\|\(idx, _, _\)\| idx == index\) => row_for(&event_positions, index, Ghost(t))
//@re Position::new\(\*start\) => Position::new(start)
//@re Position::new\(\*end\) => Position::new(end)
//@re document\.delete\(range\)\?; => proof { assert(spans(d, range, x, eol(t, x))); } document.delete(range)?; proof { let (a, b) = choose|a: int, b: int| #[trigger] spans(d, range, a, b) && document.t() == d.take(a) + d.skip(b); spans_one(d, range, a, b, x, eol(t, x)); }
//@re (?s)section_header\(&content, EVENTS\)\s*\.map\(\|header\| header\.start\)\s*\.ok_or_else\(\|\| EditorError::command_failed\("[^"]*"\)\)\?; => match section_header(content.as_str(), EVENTS()) { Some(header) => header.start, None => { return Err(refused()); } };
//@after "let events_start ="
    let ghost h = header_from(t, 0, EVENTS_is())->Some_0.0; proof { off_mono(t, h, t.len() as int); off_end(t); assert(off(t, h) == events_start && off(t, t.len() as int) == nbytes(t)); } let ghost sub = t.skip(h); proof { assert(t.subrange(h, t.len() as int) =~= sub); }
//@before "let mut current_index"
    proof { p = first_line(t)->Some_0; first_is(t); }
//@re let mut current_index = 0; => let mut current_index: usize = 0;
//@re-all line\.starts_with\("(Dialogue|Comment):"\) => begins(line, "\1:")
//@re line\.starts_with\('\['\) => begins_with(line, '[')
//@re while event_start < content\.len\(\) => while event_start < slen(content.as_str())
//@opt-re (?s)Err\(EditorError::command_failed\((?:format!\([^;]*?\)|\s*"[^"]*",?\s*)\)\) => Err(refused())
//@re document\.text\(\)\.to_string\(\) => document.text()
//@re (?s)content\[events_start\.\.\]\s*\.find\("Format:"\)\s*\.and_then\(\|format_pos\| \{\s*content\[events_start \+ format_pos\.\.\]\s*\.find\('\\n'\)\s*\.map\(\|newline_pos\| (events_start [^)]*)\)\s*\}\)\s*\.ok_or_else\(\|\| EditorError::command_failed\("[^"]*"\)\)\?; => { let at = find_str(bslice(content.as_str(), events_start, blen(content.as_str())), "Format:"); proof { start_here(t, h, sub); } match at { None => { return Err(refused()); } Some(format_pos) => { proof { start_there(t, h, sub); let i = occurs(sub, "Format:"@, 0)->Some_0; off_skip(t, h, i); assert(t.subrange(h + i, t.len() as int) =~= sub.skip(i)); } match find_char(bslice(content.as_str(), events_start + format_pos, blen(content.as_str())), '\\n') { None => { return Err(refused()); } Some(newline_pos) => \1 } } } };
//@re (?s)content\[event_start\.\.\]\s*\.find\('\\n'\)\s*\.map\(\|pos\| event_start \+ pos \+ 1\)\s*\.unwrap_or\(content\.len\(\)\); => match find_char(bslice(content.as_str(), event_start, blen(content.as_str())), '\\n') { Some(pos) => event_start + pos + 1, None => blen(content.as_str()) };
//@re let line = &content\[event_start\.\.line_end\]; => proof { begins_alike(t, p); } let line = bslice(content.as_str(), event_start, line_end);
//@before "while event_start <"
    proof { if p < t.len() { line_is(t, p); } rows_from(t, event_positions@); }
//@start
    proof { text_fits(document); }
    let ghost t = document.t(); let ghost mut p: int = 0; let ghost mut n: int = 0;
    let ghost v = self.event_indices@; let ghost mut m: int = usize::MAX + 1;
//@loop 0
    invariant v == self.event_indices@, v.len() > 0, first_line(t) is Some, forall|k: int| in_list(sorted_indices@, k) <==> in_list(v, k), forall|i: int, j: int| 0 <= i < j < sorted_indices@.len() ==> #[trigger] sorted_indices@[i] > #[trigger] sorted_indices@[j],
        content@ == t, document.t() == t, t == old(document).t(), nbytes(t) < 0x7fff_ffff, t.len() <= nbytes(t), off(t, t.len() as int) == nbytes(t), 0 <= p <= t.len(), current_index <= p, n == current_index, p < t.len() ==> event_start == off(t, p) && off(t, p) < nbytes(t), p == t.len() ==> event_start >= nbytes(t), p > 0 && t[p - 1] == '\n' || p == t.len(), erows(t, p, n, event_positions@),
    ensures p == t.len() || new_section(t.subrange(p, brk(t, p))) && !is_event(t.subrange(p, brk(t, p)))
    decreases t.len() - p
//@loopstart 0
        let ghost z = brk(t, p); let ghost e = eol(t, p); let ghost s = t.subrange(p, z); let ghost ev = event_positions@; proof { line_is(t, p); }
//@loopend 0
            proof { if event_positions@.len() > ev.len() { assert(event_positions@.drop_last() =~= ev); } rows_next(t, p, n, ev, event_positions@); p = e; n = current_index as int; if p < t.len() { line_is(t, p); } }
//@before "let mut total_deleted"
    proof { rows_end(t, p, n, event_positions@); let f = picked(v, m); assert forall|k: int| !#[trigger] f(k) by { } rest_none(t, first_line(t)->Some_0, 0, f); start_at(t, first_line(t)->Some_0); }
//@loop 1
    invariant v == self.event_indices@, v.len() > 0, t == old(document).t(), first_line(t) is Some, 0 < first_line(t)->Some_0 <= t.len(), t[first_line(t)->Some_0 - 1] == '\n', nbytes(t) < 0x7fff_ffff,
        forall|k: int| in_list(sorted_indices@, k) <==> in_list(v, k), forall|i: int, j: int| 0 <= i < j < sorted_indices@.len() ==> #[trigger] sorted_indices@[i] > #[trigger] sorted_indices@[j],
        n == event_positions@.len(), n <= t.len(), t.len() <= nbytes(t), forall|k: int| 0 <= k < n ==> erow(t, #[trigger] event_positions@[k], k), forall|k: int| k >= n ==> #[trigger] target(t, k) is None,
        0 <= ix <= sorted_indices@.len(), m == if ix == 0 { usize::MAX + 1 } else { sorted_indices@[ix - 1] as int },
        document.t() == without(t, picked(v, m)), 0 <= total_deleted, total_deleted <= (if m < n { n - m } else { 0 }), total_deleted > 0 <==> exists|k: int| k >= m && in_list(v, k) && #[trigger] target(t, k) is Some,
    decreases sorted_indices@.len() - ix
//@loopstart 1
        let ghost d = document.t(); let ghost f = picked(v, m); let ghost k0 = sorted_indices@[ix as int] as int; let ghost g = picked(v, k0); let ghost x = target(t, k0)->Some_0;
        proof {
            assert(in_list(sorted_indices@, k0));
            assert forall|k: int| k0 < k < m implies !in_list(v, k) by { if in_list(v, k) { assert(in_list(sorted_indices@, k)); let i = choose|i: int| 0 <= i < sorted_indices@.len() && #[trigger] sorted_indices@[i] == k; if i < ix { if i < ix - 1 { assert(sorted_indices@[i] > sorted_indices@[ix - 1]); } } else if i > ix { assert(sorted_indices@[ix as int] > sorted_indices@[i]); } } }
            if ix > 0 { assert(sorted_indices@[ix - 1] > sorted_indices@[ix as int]); }
            if k0 < n { assert(erow(t, event_positions@[k0], k0)); one_more(t, k0, f, g); }
            else { assert(target(t, k0) is None); assert forall|k: int| #[trigger] nth(t, first_line(t)->Some_0, 0, k) is Some implies f(k) == g(k) by { let w = target(t, k); } rest_alike(t, first_line(t)->Some_0, 0, f, g); }
        }
//@loopend 1
            proof { let old_m = m; m = k0; if k0 < n { assert(target(t, k0) is Some); } if exists|k: int| k >= old_m && in_list(v, k) && #[trigger] target(t, k) is Some { let k = choose|k: int| k >= old_m && in_list(v, k) && #[trigger] target(t, k) is Some; assert(k >= m && in_list(v, k) && target(t, k) is Some); } }
//@before "if total_deleted > 0"
    proof {
        let f = picked(v, m); let g: Pick = |k: int| in_list(v, k);
        assert(in_list(v, v[0] as int)); assert(in_list(sorted_indices@, v[0] as int));
        assert forall|k: int| in_list(v, k) implies k >= m by { assert(in_list(sorted_indices@, k)); let i = choose|i: int| 0 <= i < sorted_indices@.len() && #[trigger] sorted_indices@[i] == k; if i < ix - 1 { assert(sorted_indices@[i] > sorted_indices@[ix - 1]); } }
        assert forall|k: int| #[trigger] nth(t, first_line(t)->Some_0, 0, k) is Some implies f(k) == g(k) by { } rest_alike(t, first_line(t)->Some_0, 0, f, g);
    }
//@spec
    ensures ({ let t = old(document).t(); let v = self.event_indices@; let u = final(document).t();
        if v.len() == 0 { r is Ok && u == t && !r->Ok_0.content_changed } else if first_line(t) is None { r is Err && u == t }
        else { r is Ok && r->Ok_0.success && u == without(t, |k: int| in_list(v, k)) && (r->Ok_0.content_changed <==> exists|k: int| in_list(v, k) && #[trigger] target(t, k) is Some) } })
//@@ end
}
fn main() {}
}
