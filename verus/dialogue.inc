pub open spec fn meets(a: int, b: int, c: int, d: int) -> bool { exists|t: int| #[trigger] within(a, t, b) && within(c, t, d) }
pub open spec fn within(a: int, t: int, b: int) -> bool { a <= t < b }
pub proof fn meets_is(a: int, b: int, c: int, d: int) requires a < b, c < d ensures meets(a, b, c, d) == (c < b && a < d)
{ if c < b && a < d { let t = if a < c { c } else { a }; assert(within(a, t, b) && within(c, t, d)); } }
impl<'a> DialogueInfo<'a> {
//@@ fn crates/ass-core/analysis/events/dialogue_info/accessors.rs DialogueInfo::duration_ms
//@ret r
//@spec
    requires self.wf()
    ensures r as int == cap(10 * (self.end_cs - self.start_cs), u32::MAX as int)
//@@ end
//@@ fn crates/ass-core/analysis/events/dialogue_info/accessors.rs DialogueInfo::duration_cs
//@ret r
//@spec
    requires self.wf()
    ensures r == self.end_cs - self.start_cs, r > 0
//@@ end
//@@ fn crates/ass-core/analysis/events/dialogue_info/accessors.rs DialogueInfo::start_time_cs
//@ret r
//@spec
    ensures r == self.start_cs
//@@ end
//@@ fn crates/ass-core/analysis/events/dialogue_info/accessors.rs DialogueInfo::end_time_cs
//@ret r
//@spec
    ensures r == self.end_cs
//@@ end
//@@ fn crates/ass-core/analysis/events/dialogue_info/accessors.rs DialogueInfo::performance_impact
//@ret r
//@spec
    ensures r == band(self.complexity_score as int)
//@@ end
//@@ fn crates/ass-core/analysis/events/dialogue_info/accessors.rs DialogueInfo::timing_relation
//@ret r
//@spec
    requires self.wf(), other.wf()
    ensures
        r == TimingRelation::Identical <==> (self.start_cs == other.start_cs && self.end_cs == other.end_cs),
        r == TimingRelation::NoOverlap <==> !meets(self.start_cs as int, self.end_cs as int, other.start_cs as int, other.end_cs as int),
        r == TimingRelation::FullOverlap <==> !(self.start_cs == other.start_cs && self.end_cs == other.end_cs)
            && ((self.start_cs <= other.start_cs && other.end_cs <= self.end_cs) || (other.start_cs <= self.start_cs && self.end_cs <= other.end_cs)),
//@start
    proof { meets_is(self.start_cs as int, self.end_cs as int, other.start_cs as int, other.end_cs as int); }
//@@ end
//@@ fn crates/ass-core/analysis/events/dialogue_info/accessors.rs DialogueInfo::overlaps_time_range
//@ret r
//@spec
    requires self.wf()
    ensures start_cs < end_cs ==> r == meets(self.start_cs as int, self.end_cs as int, start_cs as int, end_cs as int),
        r == (start_cs < self.end_cs && self.start_cs < end_cs)
//@start
    proof { if start_cs < end_cs { meets_is(self.start_cs as int, self.end_cs as int, start_cs as int, end_cs as int); } }
//@@ end
}
// ---- duration and range queries -----------------------------------------------------------------------
pub open spec fn all_wf(e: Seq<DialogueInfo>) -> bool { forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).wf() }
pub open spec fn least(e: Seq<DialogueInfo>, v: int) -> bool { (exists|i: int| 0 <= i < e.len() && #[trigger] e[i].start_cs == v) && forall|i: int| 0 <= i < e.len() ==> v <= #[trigger] e[i].start_cs }
pub open spec fn greatest(e: Seq<DialogueInfo>, v: int) -> bool { (exists|i: int| 0 <= i < e.len() && #[trigger] e[i].end_cs == v) && forall|i: int| 0 <= i < e.len() ==> #[trigger] e[i].end_cs <= v }
fn least_start(e: &[DialogueInfo<'_>]) -> (r: Option<u32>)
    ensures match r { None => e@.len() == 0, Some(v) => least(e@, v as int) }
{
    if e.len() == 0 { return None; }
    let mut v = e[0].start_time_cs(); let mut i: usize = 1;
    while i < e.len()
        invariant 1 <= i <= e@.len(), exists|k: int| 0 <= k < i && #[trigger] e@[k].start_cs == v, forall|k: int| 0 <= k < i ==> v <= #[trigger] e@[k].start_cs
        decreases e@.len() - i
    { if e[i].start_time_cs() < v { v = e[i].start_time_cs(); } i += 1; }
    Some(v)
}
fn greatest_end(e: &[DialogueInfo<'_>]) -> (r: Option<u32>)
    ensures match r { None => e@.len() == 0, Some(v) => greatest(e@, v as int) }
{
    if e.len() == 0 { return None; }
    let mut v = e[0].end_time_cs(); let mut i: usize = 1;
    while i < e.len()
        invariant 1 <= i <= e@.len(), exists|k: int| 0 <= k < i && #[trigger] e@[k].end_cs == v, forall|k: int| 0 <= k < i ==> #[trigger] e@[k].end_cs <= v
        decreases e@.len() - i
    { if e[i].end_time_cs() > v { v = e[i].end_time_cs(); } i += 1; }
    Some(v)
}
//@@ fn crates/ass-core/analysis/events/utils/duration.rs calculate_total_duration
//@ret r
//@re events\.is_empty\(\) => events.len() == 0
//@re events\.iter\(\)\.map\(DialogueInfo::start_time_cs\)\.min\(\) => least_start(events)
//@re events\.iter\(\)\.map\(DialogueInfo::end_time_cs\)\.max\(\) => greatest_end(events)
//@spec
    requires all_wf(events@)
    ensures match r {
        None => events@.len() == 0,
        Some(d) => exists|a: int, b: int| #[trigger] least(events@, a) && #[trigger] greatest(events@, b) && d == b - a,
    }
//@@ end
pub open spec fn sum(e: Seq<DialogueInfo>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { sum(e, n - 1) + (e[n - 1].end_cs - e[n - 1].start_cs) } }
proof fn sum_bound(e: Seq<DialogueInfo>, n: int)
    requires 0 <= n <= e.len(), all_wf(e)
    ensures n <= sum(e, n) <= n * 0xffff_ffff
    decreases n
{ if n > 0 { sum_bound(e, n - 1); assert(e[n - 1].wf()); assert(n * 0xffff_ffff == (n - 1) * 0xffff_ffff + 0xffff_ffff) by (nonlinear_arith); } }
//@@ fn crates/ass-core/analysis/events/utils/duration.rs calculate_average_duration
//@ret r
//@re events\.is_empty\(\) => events.len() == 0
//@re (?s)let total_duration: u64 = events\.iter\(\)\.map\(\|e\| (.*?)\)\.sum\(\); => let mut total_duration: u64 = 0; let mut ei: usize = 0; while ei < events.len() { let e = &events[ei]; ei += 1; proof { sum_bound(events@, ei as int); sum_bound(events@, ei - 1); } total_duration = total_duration + (\1); }
//@re u32::try_from\((.*)\)\.ok\(\) => let q = \1; proof { avg(total_duration as int, events@.len() as int); sum_bound(events@, events@.len() as int); } if q <= 0xffff_ffff { Some(q as u32) } else { None }
//@spec
    requires all_wf(events@), events@.len() < 0xffff_ffff
    ensures match r { None => events@.len() == 0, Some(d) => events@.len() > 0 && d as int == sum(events@, events@.len() as int) / events@.len() as int }
//@loop 0
    invariant ei <= events@.len() < 0xffff_ffff, all_wf(events@), total_duration as int == sum(events@, ei as int), total_duration as int <= ei * 0xffff_ffff
    decreases events@.len() - ei
//@@ end
proof fn avg(t: int, n: int) requires 0 < n, 0 <= t <= n * 0xffff_ffff ensures 0 <= t / n <= 0xffff_ffff
{ assert(t / n <= 0xffff_ffff) by (nonlinear_arith) requires 0 < n, 0 <= t <= n * 0xffff_ffff; assert(t / n >= 0) by (nonlinear_arith) requires 0 < n, 0 <= t; }
/// by start, then by end
pub open spec fn comes(a: DialogueInfo, b: DialogueInfo) -> Ordering { if a.start_cs < b.start_cs { Ordering::Less } else if a.start_cs > b.start_cs { Ordering::Greater } else if a.end_cs < b.end_cs { Ordering::Less } else if a.end_cs > b.end_cs { Ordering::Greater } else { Ordering::Equal } }
/// any two elements a sort may compare
#[verifier::external_body]
fn any_two<'a, 'b>(e: &'a [DialogueInfo<'b>]) -> (&'a DialogueInfo<'b>, &'a DialogueInfo<'b>) { unimplemented!() }
/// std's sort by that comparison: an ordered rearrangement
#[verifier::external_body]
fn sort_by_comes(e: &mut [DialogueInfo<'_>]) ensures final(e)@.to_multiset() == old(e)@.to_multiset(), forall|i: int, j: int| 0 <= i < j < final(e)@.len() ==> comes(#[trigger] final(e)@[i], #[trigger] final(e)@[j]) != Ordering::Greater { unimplemented!() }
#[verifier::external_body]
fn compared(a: u32, b: u32) -> (r: Ordering) ensures r == (if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal }) { a.cmp(&b) }
//@@ fn crates/ass-core/analysis/events/utils/ordering.rs sort_events_by_time
//@re (?s)events\.sort_by\(\|a, b\| (.*)\);\s*\}$ => let two = any_two(events); let a = two.0; let b = two.1; let order = \1; assert(order == comes(*a, *b)); sort_by_comes(events); }
//@re-all (\w+\.\w+\(\))\.cmp\(&(\w+\.\w+\(\))\) => compared(\1, \2)
//@spec
    ensures
        // the same events
        final(events)@.to_multiset() == old(events)@.to_multiset(),
        // by start, and among equal starts by end
        forall|i: int, j: int| 0 <= i < j < final(events)@.len() ==> (#[trigger] final(events)@[i]).start_cs <= (#[trigger] final(events)@[j]).start_cs && (final(events)@[i].start_cs == final(events)@[j].start_cs ==> final(events)@[i].end_cs <= final(events)@[j].end_cs),
//@@ end
//@@ fn crates/ass-core/analysis/events/utils/ordering.rs find_events_in_range
//@ret r
//@re (?s)events\s*\.iter\(\)\s*\.enumerate\(\)\s*\.filter_map\(\|\(idx, event\)\| (\{.*?\n        \})\)\s*\.collect\(\) => let mut out: Vec<usize> = Vec::new(); let mut idx: usize = 0; while idx < events.len() { let event = &events[idx];\n let hit = \1; if let Some(h) = hit { out.push(h); }\n idx += 1; } out
//@spec
    requires all_wf(events@)
    ensures
        // exactly the events in the range, in order, each once
        forall|i: int| 0 <= i < events@.len() ==> (r@.contains(i as usize) <==> start_cs < (#[trigger] events@[i]).end_cs && events@[i].start_cs < end_cs),
        forall|i: int, j: int| 0 <= i < j < r@.len() ==> r@[i] < r@[j],
        forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] < events@.len(),
//@loop 0
    invariant idx <= events@.len(), all_wf(events@),
        forall|i: int| 0 <= i < idx ==> (out@.contains(i as usize) <==> start_cs < (#[trigger] events@[i]).end_cs && events@[i].start_cs < end_cs),
        forall|i: int, j: int| 0 <= i < j < out@.len() ==> out@[i] < out@[j],
        forall|i: int| 0 <= i < out@.len() ==> #[trigger] out@[i] < idx,
    decreases events@.len() - idx
//@after "let event = &events"
    let ghost before = out@;
//@before "idx += 1"
    proof { assert forall|i: int| 0 <= i < idx implies out@.contains(i as usize) == #[trigger] before.contains(i as usize) by {
        if before.contains(i as usize) { let k = choose|k: int| 0 <= k < before.len() && before[k] == i as usize; assert(out@[k] == i as usize); }
        if out@.contains(i as usize) { let k = choose|k: int| 0 <= k < out@.len() && out@[k] == i as usize; assert(k < before.len()); assert(before[k] == i as usize); }
    }
    if out@.len() > before.len() { assert(out@[before.len() as int] == idx); } else { assert(!before.contains(idx)); } }
//@@ end
