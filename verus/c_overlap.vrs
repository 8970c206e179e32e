use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
pub struct CoreError { pub kind: u8 }
//@@ struct crates/ass-core/analysis/events/overlap/sweep.rs SweepEventType derive(Clone, Copy)
//@@ struct crates/ass-core/analysis/events/overlap/sweep.rs SweepEvent derive(Clone, Copy)
pub type Times = Seq<Option<(u32, u32)>>;

// ---- specification -----------------------------------------------------------------------------------
pub open spec fn readable(t: Times) -> bool { forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] is Some }
pub open spec fn lo(t: Times, i: int) -> int { t[i].unwrap().0 as int }
pub open spec fn hi(t: Times, i: int) -> int { t[i].unwrap().1 as int }
/// the event takes part: positive duration
pub open spec fn lives(t: Times, i: int) -> bool { 0 <= i < t.len() && t[i] is Some && lo(t, i) < hi(t, i) }
pub open spec fn within(a: int, x: int, b: int) -> bool { a <= x < b }
/// the half-open intervals share an instant
pub open spec fn overlap(t: Times, i: int, j: int) -> bool { exists|x: int| #[trigger] within(lo(t, i), x, hi(t, i)) && within(lo(t, j), x, hi(t, j)) }
pub proof fn overlap_is(t: Times, i: int, j: int)
    requires lives(t, i), lives(t, j)
    ensures overlap(t, i, j) == (lo(t, i) < hi(t, j) && lo(t, j) < hi(t, i))
{ if lo(t, i) < hi(t, j) && lo(t, j) < hi(t, i) { let x = if lo(t, i) < lo(t, j) { lo(t, j) } else { lo(t, i) }; assert(within(lo(t, i), x, hi(t, i)) && within(lo(t, j), x, hi(t, j))); } }
pub open spec fn named(r: Seq<(usize, usize)>, i: int, j: int) -> bool { exists|k: int| 0 <= k < r.len() && #[trigger] r[k] == (i as usize, j as usize) }
/// exactly the overlapping pairs, each once, the earlier start first
pub open spec fn exact(t: Times, r: Seq<(usize, usize)>) -> bool {
    &&& forall|k: int| 0 <= k < r.len() ==> ({ let (a, b) = (#[trigger] r[k]); a != b && lives(t, a as int) && lives(t, b as int) && overlap(t, a as int, b as int) && lo(t, a as int) <= lo(t, b as int) })
    &&& forall|k: int, l: int| 0 <= k < l < r.len() ==> #[trigger] r[k] != #[trigger] r[l] && r[k] != (r[l].1, r[l].0)
    &&& forall|i: int, j: int| lives(t, i) && lives(t, j) && i != j && #[trigger] overlap(t, i, j) ==> named(r, i, j) || named(r, j, i)
}

// ---- the order of the sweep --------------------------------------------------------------------------
pub open spec fn rank(e: SweepEvent) -> int { match e.event_type { SweepEventType::End => 0, SweepEventType::Start => 1 } }
pub open spec fn before(a: SweepEvent, b: SweepEvent) -> Ordering {
    if a.time < b.time { Ordering::Less } else if a.time > b.time { Ordering::Greater }
    else if rank(a) < rank(b) { Ordering::Less } else if rank(a) > rank(b) { Ordering::Greater } else { Ordering::Equal }
}
pub open spec fn not_after(a: SweepEvent, b: SweepEvent) -> bool { a.time < b.time || (a.time == b.time && rank(a) <= rank(b)) }
impl SweepEvent {
//@@ fn crates/ass-core/analysis/events/overlap/sweep.rs SweepEvent::cmp
//@ret r
//@spec
    ensures r == before(*self, *other), (r != Ordering::Greater) == not_after(*self, *other)
//@@ end
}
/// std's sort: an ordered rearrangement
#[verifier::external_body]
fn sort(v: &mut Vec<SweepEvent>)
    ensures exists|p: Seq<int>, q: Seq<int>| rearranged(old(v)@, final(v)@, p, q),
        forall|i: int, j: int| 0 <= i <= j < final(v)@.len() ==> not_after(#[trigger] final(v)@[i], #[trigger] final(v)@[j])
{ unimplemented!() }
pub open spec fn rearranged(a: Seq<SweepEvent>, b: Seq<SweepEvent>, p: Seq<int>, q: Seq<int>) -> bool {
    &&& a.len() == b.len() == p.len() == q.len()
    &&& forall|k: int| 0 <= k < a.len() ==> 0 <= #[trigger] p[k] < a.len() && q[p[k]] == k && b[k] == a[p[k]]
    &&& forall|k: int| 0 <= k < a.len() ==> 0 <= #[trigger] q[k] < a.len() && p[q[k]] == k
}
fn position(v: &Vec<usize>, x: usize) -> (r: Option<usize>)
    ensures match r { Some(p) => p < v@.len() && v@[p as int] == x, None => !v@.contains(x) }
{
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), forall|k: int| 0 <= k < i ==> v@[k] != x
        decreases v@.len() - i
    { if v[i] == x { return Some(i); } i += 1; }
    None
}
/// the sweep list holds exactly one start and one end of every live event before n
pub open spec fn list(t: Times, s: Seq<SweepEvent>, n: int) -> bool {
    &&& forall|k: int| 0 <= k < s.len() ==> ({ let e = #[trigger] s[k]; lives(t, e.event_index as int) && e.event_index < n
            && (e.event_type is Start ==> e.time == lo(t, e.event_index as int)) && (e.event_type is End ==> e.time == hi(t, e.event_index as int)) })
    &&& forall|a: int, b: int| 0 <= a < s.len() && 0 <= b < s.len() && (#[trigger] s[a]).event_index == (#[trigger] s[b]).event_index && s[a].event_type == s[b].event_type ==> a == b
    &&& forall|i: int| 0 <= i < n && #[trigger] lives(t, i) ==> starts(s, i, s.len() as int) && ends(s, i, s.len() as int)
}
/// the start (end) of event i is among the first m
pub open spec fn starts(s: Seq<SweepEvent>, i: int, m: int) -> bool { exists|k: int| 0 <= k < m && (#[trigger] s[k]).event_index == i && s[k].event_type is Start }
pub open spec fn ends(s: Seq<SweepEvent>, i: int, m: int) -> bool { exists|k: int| 0 <= k < m && (#[trigger] s[k]).event_index == i && s[k].event_type is End }
proof fn kept(t: Times, a: Seq<SweepEvent>, b: Seq<SweepEvent>, n: int, p: Seq<int>, q: Seq<int>)
    requires list(t, a, n), rearranged(a, b, p, q)
    ensures list(t, b, n)
{
    assert forall|k: int| 0 <= k < b.len() implies ({ let e = #[trigger] b[k]; lives(t, e.event_index as int) && e.event_index < n
            && (e.event_type is Start ==> e.time == lo(t, e.event_index as int)) && (e.event_type is End ==> e.time == hi(t, e.event_index as int)) }) by { assert(b[k] == a[p[k]]); }
    assert forall|x: int, y: int| 0 <= x < b.len() && 0 <= y < b.len() && (#[trigger] b[x]).event_index == (#[trigger] b[y]).event_index && b[x].event_type == b[y].event_type implies x == y by {
        assert(b[x] == a[p[x]] && b[y] == a[p[y]]); assert(p[x] == p[y]); assert(q[p[x]] == x && q[p[y]] == y);
    }
    assert forall|i: int| 0 <= i < n && #[trigger] lives(t, i) implies starts(b, i, b.len() as int) && ends(b, i, b.len() as int) by {
        let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).event_index == i && a[k].event_type is Start;
        assert(p[q[k]] == k); assert(b[q[k]] == a[p[q[k]]]);
        let l = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).event_index == i && a[k].event_type is End;
        assert(p[q[l]] == l); assert(b[q[l]] == a[p[q[l]]]);
    }
}
/// what has been named when the first m sweep events are done: the pairs whose second start met the first still open
pub open spec fn open_at(s: Seq<SweepEvent>, a: int, k: int) -> bool { starts(s, a, k) && !ends(s, a, k) }
pub open spec fn due(s: Seq<SweepEvent>, a: int, b: int, m: int) -> bool {
    exists|k: int| 0 <= k < m && (#[trigger] s[k]).event_index == b && s[k].event_type is Start && open_at(s, a, k)
}
proof fn step(s: Seq<SweepEvent>, i: int, m: int)
    requires 0 <= m < s.len()
    ensures starts(s, i, m + 1) == (starts(s, i, m) || (s[m].event_index == i && s[m].event_type is Start)),
        ends(s, i, m + 1) == (ends(s, i, m) || (s[m].event_index == i && s[m].event_type is End)),
{
    if s[m].event_index == i && s[m].event_type is Start { assert(0 <= m < m + 1); }
    if s[m].event_index == i && s[m].event_type is End { assert(0 <= m < m + 1); }
}
/// what the sweep names is what overlaps
proof fn due_is(t: Times, s: Seq<SweepEvent>, a: int, b: int)
    requires list(t, s, t.len() as int), lives(t, a), lives(t, b), a != b,
        forall|i: int, j: int| 0 <= i <= j < s.len() ==> not_after(#[trigger] s[i], #[trigger] s[j])
    ensures
        due(s, a, b, s.len() as int) ==> overlap(t, a, b) && lo(t, a) <= lo(t, b) && !due(s, b, a, s.len() as int),
        overlap(t, a, b) ==> due(s, a, b, s.len() as int) || due(s, b, a, s.len() as int),
{
    overlap_is(t, a, b); overlap_is(t, b, a);
    let n = s.len() as int;
    assert(starts(s, a, n) && ends(s, a, n) && starts(s, b, n) && ends(s, b, n));
    let sa = choose|k: int| 0 <= k < n && (#[trigger] s[k]).event_index == a && s[k].event_type is Start;
    let sb = choose|k: int| 0 <= k < n && (#[trigger] s[k]).event_index == b && s[k].event_type is Start;
    let ea = choose|k: int| 0 <= k < n && (#[trigger] s[k]).event_index == a && s[k].event_type is End;
    let eb = choose|k: int| 0 <= k < n && (#[trigger] s[k]).event_index == b && s[k].event_type is End;
    assert(sa != sb);
    due_at(s, a, b, sa, ea, sb); due_at(s, b, a, sb, eb, sa);
    if sa < sb { assert(not_after(s[sa], s[sb])); } else { assert(not_after(s[sb], s[sa])); }
    if sb < ea { assert(not_after(s[sb], s[ea])); } else { assert(not_after(s[ea], s[sb])); }
    if sa < eb { assert(not_after(s[sa], s[eb])); } else { assert(not_after(s[eb], s[sa])); }
    assert(ea != sb && eb != sa);
}
proof fn due_at(s: Seq<SweepEvent>, a: int, b: int, sa: int, ea: int, sb: int)
    requires 0 <= sa < s.len(), 0 <= ea < s.len(), 0 <= sb < s.len(), s[sa].event_index == a, s[ea].event_index == a, s[sb].event_index == b,
        s[sa].event_type is Start, s[ea].event_type is End, s[sb].event_type is Start,
        forall|a: int, b: int| 0 <= a < s.len() && 0 <= b < s.len() && (#[trigger] s[a]).event_index == (#[trigger] s[b]).event_index && s[a].event_type == s[b].event_type ==> a == b
    ensures due(s, a, b, s.len() as int) == (sa < sb && sb <= ea)
{
    if due(s, a, b, s.len() as int) {
        let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).event_index == b && s[k].event_type is Start && open_at(s, a, k);
        assert(k == sb);
        let l = choose|l: int| 0 <= l < k && (#[trigger] s[l]).event_index == a && s[l].event_type is Start;
        assert(l == sa);
        if ea < sb { assert(ends(s, a, sb)); }
    }
    if sa < sb && sb <= ea {
        assert(starts(s, a, sb));
        if ends(s, a, sb) { let l = choose|l: int| 0 <= l < sb && (#[trigger] s[l]).event_index == a && s[l].event_type is End; assert(l == ea); }
        assert(open_at(s, a, sb));
    }
}
/// state of the sweep after m events
pub open spec fn swept(s: Seq<SweepEvent>, m: int, active: Seq<usize>, r: Seq<(usize, usize)>) -> bool {
    &&& active.no_duplicates()
    &&& forall|i: int| 0 <= i <= usize::MAX ==> (#[trigger] active.contains(i as usize) <==> open_at(s, i, m))
    &&& forall|a: int, b: int| 0 <= a <= usize::MAX && 0 <= b <= usize::MAX ==> (#[trigger] named(r, a, b) <==> due(s, a, b, m))
    &&& r.no_duplicates()
}
proof fn due_step(s: Seq<SweepEvent>, a: int, b: int, m: int)
    requires 0 <= m < s.len()
    ensures due(s, a, b, m + 1) == (due(s, a, b, m) || (s[m].event_index == b && s[m].event_type is Start && open_at(s, a, m)))
{ if s[m].event_index == b && s[m].event_type is Start && open_at(s, a, m) { assert(0 <= m < m + 1); } }
proof fn list_skip(t: Times, s: Seq<SweepEvent>, n: int)
    requires list(t, s, n), 0 <= n, !lives(t, n)
    ensures list(t, s, n + 1)
{}
proof fn list_two(t: Times, s: Seq<SweepEvent>, n: int, x: SweepEvent, y: SweepEvent)
    requires list(t, s, n), lives(t, n), x.event_index == n, y.event_index == n, x.event_type is Start, y.event_type is End, x.time == lo(t, n), y.time == hi(t, n)
    ensures list(t, s.push(x).push(y), n + 1)
{
    let z = s.push(x).push(y);
    let m = s.len() as int;
    assert forall|i: int| 0 <= i < n + 1 && #[trigger] lives(t, i) implies starts(z, i, z.len() as int) && ends(z, i, z.len() as int) by {
        if i == n { assert(z[m] == x); assert(z[m + 1] == y); }
        else {
            let k = choose|k: int| 0 <= k < m && (#[trigger] s[k]).event_index == i && s[k].event_type is Start; assert(z[k] == s[k]);
            let l = choose|k: int| 0 <= k < m && (#[trigger] s[k]).event_index == i && s[k].event_type is End; assert(z[l] == s[l]);
        }
    }
    assert forall|a: int, b: int| 0 <= a < z.len() && 0 <= b < z.len() && (#[trigger] z[a]).event_index == (#[trigger] z[b]).event_index && z[a].event_type == z[b].event_type implies a == b by {
        if a < m { assert(z[a] == s[a]); } if b < m { assert(z[b] == s[b]); }
    }
}
pub open spec fn in_order(s: Seq<SweepEvent>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> not_after(#[trigger] s[i], #[trigger] s[j]) }
spec fn unique(s: Seq<SweepEvent>) -> bool {
    forall|a: int, b: int| 0 <= a < s.len() && 0 <= b < s.len() && (#[trigger] s[a]).event_index == (#[trigger] s[b]).event_index && s[a].event_type == s[b].event_type ==> a == b
}
proof fn sweep_end(s: Seq<SweepEvent>, m: int, active: Seq<usize>, r: Seq<(usize, usize)>, after: Seq<usize>)
    requires 0 <= m < s.len(), swept(s, m, active, r), s[m].event_type is End, unique(s),
        (after == active && !active.contains(s[m].event_index)) || exists|p: int| 0 <= p < active.len() && active[p] == s[m].event_index && after == #[trigger] active.remove(p)
    ensures swept(s, m + 1, after, r)
{
    let x = s[m].event_index;
    if after != active {
        let p = choose|p: int| 0 <= p < active.len() && active[p] == x && after == #[trigger] active.remove(p);
        assert forall|i: int| 0 <= i < after.len() implies after[i] == active[if i < p { i } else { i + 1 }] by {}
        assert(after.no_duplicates());
        assert forall|y: usize| #[trigger] after.contains(y) == (active.contains(y) && y != x) by {
            if active.contains(y) && y != x { let k = choose|k: int| 0 <= k < active.len() && active[k] == y; if k < p { assert(after[k] == y); } else { assert(after[k - 1] == y); } }
            if after.contains(y) { let k = choose|k: int| 0 <= k < after.len() && after[k] == y; assert(active[if k < p { k } else { k + 1 }] == y); }
        }
    }
    assert forall|i: int| 0 <= i <= usize::MAX implies (#[trigger] after.contains(i as usize) <==> open_at(s, i, m + 1)) by { step(s, i, m); assert(active.contains(i as usize) <==> open_at(s, i, m)); }
    assert forall|a: int, b: int| 0 <= a <= usize::MAX && 0 <= b <= usize::MAX implies (#[trigger] named(r, a, b) <==> due(s, a, b, m + 1)) by { due_step(s, a, b, m); }
}
proof fn sweep_start(t: Times, s: Seq<SweepEvent>, m: int, active: Seq<usize>, r: Seq<(usize, usize)>, after: Seq<usize>, z: Seq<(usize, usize)>)
    requires 0 <= m < s.len(), swept(s, m, active, r), s[m].event_type is Start, list(t, s, t.len() as int), in_order(s), after == active.push(s[m].event_index),
        z.len() == r.len() + active.len(), forall|k: int| 0 <= k < r.len() ==> #[trigger] z[k] == r[k],
        forall|k: int| 0 <= k < active.len() ==> #[trigger] z[r.len() + k] == (active[k], s[m].event_index),
    ensures swept(s, m + 1, after, z)
{
    let x = s[m].event_index;
    assert(unique(s));
    assert(!starts(s, x as int, m));
    if ends(s, x as int, m) { let e = choose|k: int| 0 <= k < m && (#[trigger] s[k]).event_index == x && s[k].event_type is End; assert(not_after(s[e], s[m])); assert(false); }
    assert(active.contains(x as int as usize) <==> open_at(s, x as int, m));
    assert(!active.contains(x));
    assert(forall|k: int| 0 <= k < active.len() ==> active.contains(#[trigger] active[k]));
    assert(after.no_duplicates());
    assert(!ends(s, x as int, m + 1) || ends(s, x as int, m)) by { step(s, x as int, m); }
    assert forall|i: int| 0 <= i <= usize::MAX implies (#[trigger] after.contains(i as usize) <==> open_at(s, i, m + 1)) by {
        step(s, i, m); assert(active.contains(i as usize) <==> open_at(s, i, m));
        if after.contains(i as usize) { let k = choose|k: int| 0 <= k < after.len() && after[k] == i as usize; if k < active.len() { assert(active[k] == i as usize); } }
        if active.contains(i as usize) { let k = choose|k: int| 0 <= k < active.len() && active[k] == i as usize; assert(after[k] == i as usize); }
        if i == x { assert(after[active.len() as int] == x); }
    }
    assert forall|a: int, b: int| 0 <= a <= usize::MAX && 0 <= b <= usize::MAX implies (#[trigger] named(z, a, b) <==> due(s, a, b, m + 1)) by {
        due_step(s, a, b, m);
        assert(named(r, a, b) <==> due(s, a, b, m));
        assert(active.contains(a as usize) <==> open_at(s, a, m));
        if named(r, a, b) { let k = choose|k: int| 0 <= k < r.len() && #[trigger] r[k] == (a as usize, b as usize); assert(z[k] == (a as usize, b as usize)); }
        if b == x && active.contains(a as usize) { let k = choose|k: int| 0 <= k < active.len() && active[k] == a as usize; assert(z[r.len() + k] == (a as usize, b as usize)); }
        if named(z, a, b) {
            let k = choose|k: int| 0 <= k < z.len() && #[trigger] z[k] == (a as usize, b as usize);
            if k < r.len() { assert(r[k] == z[k]); } else { let j = k - r.len(); assert(z[r.len() + j] == (active[j], x)); assert(active.contains(active[j])); }
        }
    }
    assert forall|k: int, l: int| 0 <= k < z.len() && 0 <= l < z.len() && k != l implies z[k] != z[l] by {
        differ(s, m, active, r, z, k, l); differ(s, m, active, r, z, l, k);
    }
}
proof fn differ(s: Seq<SweepEvent>, m: int, active: Seq<usize>, r: Seq<(usize, usize)>, z: Seq<(usize, usize)>, k: int, l: int)
    requires 0 <= m < s.len(), swept(s, m, active, r), s[m].event_type is Start, unique(s),
        z.len() == r.len() + active.len(), forall|k: int| 0 <= k < r.len() ==> #[trigger] z[k] == r[k],
        forall|k: int| 0 <= k < active.len() ==> #[trigger] z[r.len() + k] == (active[k], s[m].event_index),
        0 <= k < z.len(), 0 <= l < z.len(), k != l
    ensures k < l ==> z[k] != z[l]
{
    let n = r.len() as int;
    if k < l && z[k] == z[l] {
        if l < n { assert(z[k] == r[k] && z[l] == r[l]); }
        else {
            assert(z[n + (l - n)] == (active[l - n], s[m].event_index));
            if k >= n { assert(z[n + (k - n)] == (active[k - n], s[m].event_index)); }
            else {
                assert(r[k] == z[k]); let (a, b) = r[k];
                assert(named(r, a as int, b as int)); assert(due(s, a as int, b as int, m));
                let j = choose|j: int| 0 <= j < m && (#[trigger] s[j]).event_index == b && s[j].event_type is Start && open_at(s, a as int, j);
                assert(s[j].event_index == s[m].event_index);
            }
        }
    }
}
proof fn finished(t: Times, s: Seq<SweepEvent>, active: Seq<usize>, r: Seq<(usize, usize)>)
    requires list(t, s, t.len() as int), swept(s, s.len() as int, active, r), t.len() <= usize::MAX,
        forall|i: int, j: int| 0 <= i <= j < s.len() ==> not_after(#[trigger] s[i], #[trigger] s[j])
    ensures exact(t, r)
{
    let n = s.len() as int;
    assert forall|k: int| 0 <= k < r.len() implies ({ let (a, b) = (#[trigger] r[k]); a != b && lives(t, a as int) && lives(t, b as int) && overlap(t, a as int, b as int) && lo(t, a as int) <= lo(t, b as int) && !due(s, b as int, a as int, n) }) by {
        entry(t, s, active, r, k);
    }
    assert forall|k: int, l: int| 0 <= k < l < r.len() implies #[trigger] r[k] != #[trigger] r[l] && r[k] != (r[l].1, r[l].0) by {
        if r[k] == (r[l].1, r[l].0) { assert(named(r, r[k].0 as int, r[k].1 as int)); assert(named(r, r[l].0 as int, r[l].1 as int)); assert(due(s, r[k].1 as int, r[k].0 as int, n)); }
    }
    assert forall|i: int, j: int| lives(t, i) && lives(t, j) && i != j && #[trigger] overlap(t, i, j) implies named(r, i, j) || named(r, j, i) by {
        due_is(t, s, i, j);
        assert(named(r, i, j) <==> due(s, i, j, n)); assert(named(r, j, i) <==> due(s, j, i, n));
    }
}
proof fn entry(t: Times, s: Seq<SweepEvent>, active: Seq<usize>, r: Seq<(usize, usize)>, k: int)
    requires list(t, s, t.len() as int), swept(s, s.len() as int, active, r), t.len() <= usize::MAX, 0 <= k < r.len(),
        forall|i: int, j: int| 0 <= i <= j < s.len() ==> not_after(#[trigger] s[i], #[trigger] s[j])
    ensures ({ let (a, b) = r[k]; a != b && lives(t, a as int) && lives(t, b as int) && overlap(t, a as int, b as int) && lo(t, a as int) <= lo(t, b as int) && !due(s, b as int, a as int, s.len() as int) })
{
    let n = s.len() as int;
    let (a, b) = r[k];
    assert(named(r, a as int, b as int)); assert(due(s, a as int, b as int, n));
    let j = choose|j: int| 0 <= j < n && (#[trigger] s[j]).event_index == b && s[j].event_type is Start && open_at(s, a as int, j);
    let l = choose|l: int| 0 <= l < j && (#[trigger] s[l]).event_index == a && s[l].event_type is Start;
    assert(lives(t, b as int) && lives(t, a as int));
    assert(l != j); assert(a != b);
    due_is(t, s, a as int, b as int);
}

//@@ fn crates/ass-core/analysis/events/overlap/detection.rs find_overlaps_generic
//@ret r
//@sig-re (?s)find_overlaps_generic<I, F>\(events: I, get_times: F\) => find_overlaps_generic(events: &[Option<(u32, u32)>])
//@sig-re (?s)Result<Vec<\(usize, usize\)>> => Result<Vec<(usize, usize)>, CoreError>
//@sig-re (?s)\s*where\s+I: ExactSizeIterator,\s+F: .*$ => 
//@re Vec::with_capacity\(events\.len\(\) \* 2\) => Vec::<SweepEvent>::new()
//@re for \(index, event\) in events\.enumerate\(\) \{ => let mut ix: usize = 0; while ix < events.len() { let index = ix; ix += 1;
//@re get_times\(index, event\)\?; => (match events[index] { Some(t) => t, None => { return Err(CoreError { kind: 0 }); } });
//@re sweep_events\.sort\(\); => sort(&mut sweep_events);
//@re (?s)for sweep_event in sweep_events \{(\s*match) => let mut mi: usize = 0; while mi < sweep_events.len() { let sweep_event = sweep_events[mi]; mi += 1;\1
//@re for &active_index in &active_events \{ => let mut ai: usize = 0; while ai < active_events.len() { let active_index = active_events[ai]; ai += 1;
//@re (?s)active_events\s*\.iter\(\)\s*\.position\(\|&x\| x == ([\w.]+)\) => position(&active_events, \1)
//@re let mut active_events = Vec::new\(\); => let mut active_events: Vec<usize> = Vec::new();
//@re let mut overlaps = Vec::new\(\); => let mut overlaps: Vec<(usize, usize)> = Vec::new();
//@spec
    requires events@.len() <= usize::MAX
    ensures
        r is Ok && events@.len() >= 2 ==> readable(events@),
        r is Ok ==> exact(events@, r->Ok_0@) || events@.len() < 2 && r->Ok_0@.len() == 0,
        r is Err ==> !readable(events@),
//@loop 0
    invariant ix <= events@.len(), list(events@, sweep_events@, ix as int), forall|i: int| 0 <= i < ix ==> #[trigger] events@[i] is Some
    decreases events@.len() - ix
//@before "let (start_time"
    let ghost l0 = sweep_events@;
//@before "if end_time <= start_time"
    proof { assert(index == ix - 1); if !lives(events@, index as int) { list_skip(events@, l0, index as int); } }
//@loopend 0
    proof { list_two(events@, l0, index as int, sweep_events@[l0.len() as int], sweep_events@[l0.len() as int + 1]); assert(sweep_events@ =~= l0.push(sweep_events@[l0.len() as int]).push(sweep_events@[l0.len() as int + 1])); }
//@before "sort(&mut"
    let ghost l1 = sweep_events@;
//@after "sort(&mut"
    let ghost s = sweep_events@;
    proof {
        let (p, q) = choose|p: Seq<int>, q: Seq<int>| rearranged(l1, s, p, q);
        kept(events@, l1, s, events@.len() as int, p, q);
    }
//@loop 1
    invariant mi <= sweep_events@.len(), sweep_events@ == s, list(events@, s, events@.len() as int), in_order(s), swept(s, mi as int, active_events@, overlaps@)
    decreases sweep_events@.len() - mi
//@after "let sweep_event = sweep_events"
    let ghost m = mi - 1; let ghost act0 = active_events@; let ghost r0 = overlaps@;
//@loop 2
    invariant 0 <= m < s.len(), sweep_event == s[m], s[m].event_type is Start, ai <= active_events@.len(), active_events@ == act0, swept(s, m, act0, r0),
        list(events@, s, events@.len() as int), in_order(s),
        overlaps@.len() == r0.len() + ai, forall|k: int| 0 <= k < r0.len() ==> overlaps@[k] == r0[k],
        forall|k: int| 0 <= k < ai ==> #[trigger] overlaps@[r0.len() + k] == (act0[k], s[m].event_index),
    decreases active_events@.len() - ai
//@loopend 1
    proof {
        if s[m].event_type is Start { sweep_start(events@, s, m, act0, r0, active_events@, overlaps@); } else { sweep_end(s, m, act0, r0, active_events@); }
    }
//@before "Ok(overlaps)"
    proof { finished(events@, s, active_events@, overlaps@); }
//@@ end
fn main() {}
}
