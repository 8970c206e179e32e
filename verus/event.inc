
// ---- the fields of an event line ----------------------------------------------------------------------------
//@@ struct crates/ass-core/parser/ast/event/event_type.rs EventType derive(Clone, Copy)
#[verifier::external_body]
pub struct Span { x: u8 }
impl Span { #[verifier::external_body] pub fn new(a: usize, b: usize, c: u32, d: u32) -> Span { unimplemented!() } }
//@@ struct crates/ass-core/parser/ast/event/event_struct.rs Event
pub struct Ev { pub dialogue: bool, pub f: Seq<Seq<char>> }
/// the first comma outside parentheses at or after character i, where d are open
pub open spec fn outer(s: Seq<char>, i: int, d: int) -> Option<int>
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { None }
    else if s[i] == '(' { outer(s, i + 1, d + 1) }
    else if s[i] == ')' { outer(s, i + 1, if d > 0 { d - 1 } else { 0 }) }
    else if s[i] == ',' && d == 0 { Some(i) }
    else { outer(s, i + 1, d) }
}
proof fn outer_in(s: Seq<char>, i: int, d: int)
    requires 0 <= i <= s.len()
    ensures outer(s, i, d) is Some ==> ({ let x = outer(s, i, d)->Some_0; i <= x < s.len() && s[x] == ',' })
    decreases s.len() - i
{ if i < s.len() { outer_in(s, i + 1, d + 1); outer_in(s, i + 1, if d > 0 { d - 1 } else { 0 }); outer_in(s, i + 1, d); } }
/// the comma between effect and text
pub open spec fn parting(s: Seq<char>) -> int { match outer(s, 0, 0) { Some(x) => x, None => ch_at(s, 0, ',') } }
pub open spec fn event_of(s: Seq<char>) -> Option<Ev> {
    let i = ch_at(s, 0, ':'); let k = s.take(i); let rest = core_of(s.skip(i + 1)); let v = cps(rest, 0, 10);
    if i == s.len() || !(k == "Dialogue"@ || k == "Comment"@) || v.len() < 10 { None } else {
        let u = rest.skip(v[8].0); let x = parting(u);
        Some(Ev { dialogue: k == "Dialogue"@, f: Seq::new(10, |n: int| if n < 8 { core_of(rest.subrange(v[n].0, v[n].1)) } else if n == 8 { core_of(u.take(x)) } else if x < u.len() { core_of(u.skip(x + 1)) } else { Seq::empty() }) })
    }
}
pub open spec fn is_ev(e: Event, x: Ev) -> bool {
    (if x.dialogue { e.event_type == EventType::Dialogue } else { e.event_type == EventType::Comment }) && e.layer@ == x.f[0] && e.start@ == x.f[1] && e.end@ == x.f[2] && e.style@ == x.f[3] && e.name@ == x.f[4]
        && e.margin_l@ == x.f[5] && e.margin_r@ == x.f[6] && e.margin_v@ == x.f[7] && e.effect@ == x.f[8] && e.text@ == x.f[9]
}
/// `parts[0..n].iter().map(|s| s.len()).sum::<usize>()`
pub open spec fn widths(v: Seq<(int, int)>, s: Seq<char>, n: int) -> int decreases n { if n <= 0 { 0 } else { widths(v, s, n - 1) + nbytes(s.subrange(v[n - 1].0, v[n - 1].1)) } }
fn lens(parts: &Vec<&str>, n: usize, Ghost(s): Ghost<Seq<char>>, Ghost(v): Ghost<Seq<(int, int)>>) -> (r: usize)
    requires n < parts.len(), parts.len() == v.len(), v == cps(s, 0, 10), forall|k: int| 0 <= k < v.len() ==> (#[trigger] parts@[k])@ == s.subrange(v[k].0, v[k].1), nbytes(s) < 0x7fff_ffff
    ensures r + n == off(s, v[n as int].0)
{
    let mut sum: usize = 0; let mut ix: usize = 0;
    proof { off_zero(s); cps_at(s, 0, 10, 0); }
    while ix < n
        invariant ix <= n, n < parts.len(), parts.len() == v.len(), v == cps(s, 0, 10), forall|k: int| 0 <= k < v.len() ==> (#[trigger] parts@[k])@ == s.subrange(v[k].0, v[k].1), nbytes(s) < 0x7fff_ffff, sum + ix == off(s, v[ix as int].0)
        decreases n - ix
    {
        proof { let k = ix as int; cps_at(s, 0, 10, k); cps_at(s, 0, 10, k + 1); sub_bytes(s, v[k].0, v[k].1); off_step(s, v[k].1); w_ascii(','); off_mono(s, v[k].1 + 1, s.len() as int); let w = parts@[k]; }
        sum += blen(parts[ix]); ix += 1;
    }
    sum
}
/// an event line
pub open spec fn ev_line(k: Seq<char>, f: Seq<Seq<char>>) -> Seq<char> { k + ": "@ + f[0] + ","@ + f[1] + ","@ + f[2] + ","@ + f[3] + ","@ + f[4] + ","@ + f[5] + ","@ + f[6] + ","@ + f[7] + ","@ + f[8] + ","@ + f[9] }
#[verifier::external_body]
fn event_line(k: &str, a: &str, b: &str, c: &str, d: &str, e: &str, f: &str, g: &str, h: &str, i: &str, j: &str) -> (r: String)
    ensures r@ == ev_line(k@, seq![a@, b@, c@, d@, e@, f@, g@, h@, i@, j@])
{ format!("{}: {},{},{},{},{},{},{},{},{},{}", k, a, b, c, d, e, f, g, h, i, j) }
pub open spec fn kind_of(x: Ev) -> Seq<char> { if x.dialogue { "Dialogue"@ } else { "Comment"@ } }

