
impl Range {
    #[verifier::external_body]
    pub fn union(&self, other: &Range) -> (r: Range) { unimplemented!() }
}
/// `self.event_indices.is_empty() || self.event_indices.contains(&index)`
pub open spec fn meant(v: Seq<usize>, n: int) -> bool { v.len() == 0 || exists|i: int| 0 <= i < v.len() && #[trigger] v[i] == n }
fn listed_index(v: &Vec<usize>, n: usize) -> (r: bool) ensures r == (exists|i: int| 0 <= i < v@.len() && #[trigger] v@[i] == n)
{
    let mut ix: usize = 0;
    while ix < v.len() invariant ix <= v.len(), forall|i: int| 0 <= i < ix ==> #[trigger] v@[i] != n, decreases v.len() - ix
    { if v[ix] == n { return true; } ix += 1; }
    false
}
/// the first occurrence of p at or after character i
pub open spec fn occurs(s: Seq<char>, p: Seq<char>, i: int) -> Option<int>
    decreases s.len() + 1 - i
{ if i < 0 || i > s.len() { None } else if prefixed(s.skip(i), p) { Some(i) } else { occurs(s, p, i + 1) } }
proof fn occurs_in(s: Seq<char>, p: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures occurs(s, p, i) is Some ==> ({ let x = occurs(s, p, i)->Some_0; i <= x && x + p.len() <= s.len() && s.subrange(x, x + p.len()) == p })
    decreases s.len() - i
{ if prefixed(s.skip(i), p) { assert(s.subrange(i, i + p.len()) =~= s.skip(i).take(p.len() as int)); } else if i < s.len() { occurs_in(s, p, i + 1); } }
#[verifier::external_body]
fn find_str(s: &str, p: &str) -> (r: Option<usize>) ensures match r { None => occurs(s@, p@, 0) is None, Some(x) => occurs(s@, p@, 0) is Some && off(s@, occurs(s@, p@, 0)->Some_0) == x } { s.find(p) }

// ---- specification: the event lines of a document, from the line below the format line ----------------------
pub open spec fn first_line(t: Seq<char>) -> Option<int> {
    match header_from(t, 0, EVENTS_is()) {
        None => None,
        Some(h) => match occurs(t.skip(h.0), "Format:"@, 0) { None => None, Some(i) => if brk(t, h.0 + i) < t.len() { Some(brk(t, h.0 + i) + 1) } else { None } },
    }
}
pub open spec fn is_event(s: Seq<char>) -> bool { prefixed(s, "Dialogue:"@) || prefixed(s, "Comment:"@) }
pub open spec fn new_section(s: Seq<char>) -> bool { s.len() > 0 && s[0] == '[' }
pub type Change = spec_fn(Seq<char>) -> Option<Seq<char>>;
/// event line number n after the change
pub open spec fn changed(s: Seq<char>, n: int, v: Seq<usize>, f: Change) -> Option<Seq<char>> { if meant(v, n) { f(s) } else { None } }
/// the text from p on, where event n is the next one: the chosen events changed, everything else copied
#[verifier::opaque]
pub open spec fn walk(t: Seq<char>, p: int, n: int, v: Seq<usize>, f: Change) -> Seq<char>
    decreases t.len() - p
{
    if p < 0 || p >= t.len() { t.skip(p) } else {
        let z = brk(t, p); let e = eol(t, p); let s = t.subrange(p, z);
        if e <= p { Seq::empty() }
        else if is_event(s) { (match changed(s, n, v, f) { Some(x) => x, None => s }) + t.subrange(z, e) + walk(t, e, n + 1, v, f) }
        else if new_section(s) { t.skip(p) }
        else { s + t.subrange(z, e) + walk(t, e, n, v, f) }
    }
}
/// how many of them change
#[verifier::opaque]
pub open spec fn tally(t: Seq<char>, p: int, n: int, v: Seq<usize>, f: Change) -> int
    decreases t.len() - p
{
    if p < 0 || p >= t.len() { 0 } else {
        let z = brk(t, p); let e = eol(t, p); let s = t.subrange(p, z);
        if e <= p { 0 } else if is_event(s) { (if changed(s, n, v, f) is Some { 1int } else { 0 }) + tally(t, e, n + 1, v, f) } else if new_section(s) { 0 } else { tally(t, e, n, v, f) }
    }
}
proof fn tally_pos(t: Seq<char>, p: int, n: int, v: Seq<usize>, f: Change)
    ensures tally(t, p, n, v, f) >= 0
    decreases t.len() - p
{ reveal(tally); if !(p < 0 || p >= t.len()) { if eol(t, p) > p { tally_pos(t, eol(t, p), n + 1, v, f); tally_pos(t, eol(t, p), n, v, f); } } }
/// what a command leaves
pub open spec fn walked(t: Seq<char>, v: Seq<usize>, f: Change) -> Seq<char> { match first_line(t) { None => t, Some(p) => t.take(p) + walk(t, p, 0, v, f) } }
pub open spec fn told(t: Seq<char>, r: Result<CommandResult>, v: Seq<usize>, f: Change) -> bool {
    match first_line(t) { None => r is Err, Some(p) => r is Ok && r->Ok_0.success && (r->Ok_0.content_changed <==> tally(t, p, 0, v, f) > 0) }
}
/// where the next line stands in the text
pub open spec fn here(t: Seq<char>, done: Seq<char>, p: int) -> bool {
    let z = brk(t, p); let e = eol(t, p); let c = done + t.skip(p); let q = done.len() as int; let x = z - p;
    p <= z <= t.len() && p < e <= t.len() && z <= e && ch_at(t.skip(p), 0, '\n') == x && c.subrange(q, c.len() as int) == t.skip(p) && c.subrange(q, q + x) == t.subrange(p, z) && 0 <= x && q + x <= c.len()
        && off(c, q) == nbytes(done) && off(c, q + x) == nbytes(done) + off(t.skip(p), x) && off(c, c.len() as int) == nbytes(c) && off(c, q) <= off(c, q + x) <= nbytes(c)
        && (z == t.len() ==> off(c, q + x) == nbytes(c)) && (z < t.len() <==> x < t.skip(p).len())
}
proof fn line_here(t: Seq<char>, done: Seq<char>, p: int)
    requires 0 <= p < t.len()
    ensures here(t, done, p)
{
    brk_in(t, p); brk_ch(t, p); let z = brk(t, p); let e = eol(t, p); let c = done + t.skip(p); let q = done.len() as int; let x = z - p;
    assert(c.skip(q) =~= t.skip(p)); assert(c.take(q) =~= done); assert(c.subrange(q, c.len() as int) =~= t.skip(p)); assert(c.subrange(q, q + x) =~= t.subrange(p, z));
    off_skip(c, q, x); off_end(c); off_mono(c, q, q + x); off_mono(c, q + x, c.len() as int);
    if z == t.len() { assert(q + x == c.len()); }
}
/// the line is replaced by y, or copied
pub open spec fn put(t: Seq<char>, done: Seq<char>, p: int, y: Seq<char>) -> Seq<char> { done + y + t.subrange(brk(t, p), eol(t, p)) }
proof fn line_put(t: Seq<char>, done: Seq<char>, p: int, y: Seq<char>)
    requires 0 <= p < t.len()
    ensures ({ let z = brk(t, p); let e = eol(t, p); let c = done + t.skip(p); let q = done.len() as int; let d2 = put(t, done, p, y);
        c.take(q) + y + c.skip(q + (z - p)) == d2 + t.skip(e) && nbytes(d2) == nbytes(done) + nbytes(y) + (e - z) && e - z <= 1 && (e == z ==> e == t.len()) && nbytes(d2) <= nbytes(d2 + t.skip(e)) }),
        nbytes(t.subrange(p, brk(t, p))) == off(t.skip(p), brk(t, p) - p), put(t, done, p, t.subrange(p, brk(t, p))) + t.skip(eol(t, p)) == done + t.skip(p)
{
    brk_in(t, p); let z = brk(t, p); let e = eol(t, p); let c = done + t.skip(p); let q = done.len() as int; let d2 = put(t, done, p, y);
    assert(c.take(q) + y + c.skip(q + (z - p)) =~= d2 + t.skip(e)); assert(t.skip(p).take(z - p) =~= t.subrange(p, z));
    encode_utf8_concat(done + y, t.subrange(z, e)); encode_utf8_concat(done, y); encode_utf8_concat(d2, t.skip(e));
    if e > z { encode_utf8_push(Seq::<char>::empty(), '\n'); w_ascii('\n'); assert(t.subrange(z, e) =~= Seq::<char>::empty().push('\n')); }
    else { assert(t.subrange(z, e) =~= Seq::<char>::empty()); }
    assert(encode_utf8(Seq::<char>::empty()).len() == 0) by { reveal_with_fuel(encode_utf8, 2); }
    assert(put(t, done, p, t.subrange(p, z)) + t.skip(e) =~= done + t.skip(p));
}
proof fn more(t: Seq<char>, done: Seq<char>, p: int)
    requires 0 <= p < t.len()
    ensures nbytes(done) < nbytes(done + t.skip(p))
{ line_here(t, done, p); let c = done + t.skip(p); off_step(c, done.len() as int); off_mono(c, done.len() as int + 1, c.len() as int); }
proof fn walk_end(t: Seq<char>, p: int, n: int, v: Seq<usize>, f: Change)
    requires 0 <= p <= t.len(), p == t.len() || ({ let s = t.subrange(p, brk(t, p)); new_section(s) && !is_event(s) })
    ensures walk(t, p, n, v, f) == t.skip(p), tally(t, p, n, v, f) == 0
{ reveal(walk); reveal(tally); if p < t.len() { brk_in(t, p); } }
proof fn walk_next(t: Seq<char>, done: Seq<char>, p: int, n: int, v: Seq<usize>, f: Change, y: Seq<char>)
    requires 0 <= p < t.len(), ({ let s = t.subrange(p, brk(t, p)); if is_event(s) { y == match changed(s, n, v, f) { Some(x) => x, None => s } } else { !new_section(s) && y == s } })
    ensures ({ let s = t.subrange(p, brk(t, p)); let m = if is_event(s) { n + 1 } else { n }; let e = eol(t, p); done + walk(t, p, n, v, f) == put(t, done, p, y) + walk(t, e, m, v, f)
        && tally(t, p, n, v, f) == (if is_event(s) && changed(s, n, v, f) is Some { 1int } else { 0 }) + tally(t, e, m, v, f) && tally(t, e, m, v, f) >= 0 })
{
    reveal(walk); reveal(tally); brk_in(t, p); let s = t.subrange(p, brk(t, p)); let m = if is_event(s) { n + 1 } else { n }; let e = eol(t, p); tally_pos(t, e, m, v, f);
    let w = walk(t, e, m, v, f); assert(done + (y + t.subrange(brk(t, p), e) + w) =~= put(t, done, p, y) + w);
}
proof fn start_at(t: Seq<char>, p: int)
    requires 0 <= p <= t.len()
    ensures t.take(p) + t.skip(p) == t, nbytes(t.take(p)) == off(t, p)
{ assert(t.take(p) + t.skip(p) =~= t); }
proof fn start_here(t: Seq<char>, h: int, s: Seq<char>)
    requires 0 <= h <= t.len(), s == t.skip(h)
    ensures occurs(s, "Format:"@, 0) is Some ==> 0 <= occurs(s, "Format:"@, 0)->Some_0 <= s.len()
{ occurs_in(s, "Format:"@, 0); }
proof fn start_there(t: Seq<char>, h: int, s: Seq<char>)
    requires 0 <= h <= t.len(), s == t.skip(h), occurs(s, "Format:"@, 0) is Some
    ensures ({ let i = occurs(s, "Format:"@, 0)->Some_0; let u = s.skip(i); let x = ch_at(u, 0, '\n'); 0 <= i <= s.len() && s.subrange(i, s.len() as int) == u && off(s, s.len() as int) == nbytes(s) && off(s, i) <= nbytes(s) && (brk(t, h + i) == t.len() <==> x == u.len()) && h + i <= brk(t, h + i) <= t.len()
        && (x < u.len() ==> brk(t, h + i) == h + i + x && off(t, h + i + x + 1) == off(t, h) + off(s, i) + off(u, x) + 1 && off(t, h + i + x + 1) <= nbytes(t)) })
{
    occurs_in(s, "Format:"@, 0); let i = occurs(s, "Format:"@, 0)->Some_0; let u = s.skip(i); assert(t.skip(h + i) =~= u); assert(s.subrange(i, s.len() as int) =~= u); off_end(s); off_mono(s, i, s.len() as int);
    brk_ch(t, h + i); brk_in(t, h + i); ch_in(u, 0, '\n'); let x = ch_at(u, 0, '\n'); off_skip(t, h, i); off_skip(t, h + i, x);
    if x < u.len() { off_step(t, h + i + x); w_ascii('\n'); off_mono(t, h + i + x + 1, t.len() as int); }
}
