// probe rlimit 4
use vstd::prelude::*;
use vstd::string::*;
verus! {
//@@ struct crates/ass-core/parser/ast/span.rs Span derive(Clone, Copy)
//@@ struct crates/ass-core/parser/ast/style/definition.rs Style
pub type Name = Seq<char>;
pub type Graph = Map<Name, Set<Name>>;
// ---- the graph of a list of styles ------------------------------------------------------------------------------
pub open spec fn named(st: Seq<Style>, k: Name) -> bool { exists|i: int| 0 <= i < st.len() && #[trigger] st[i].name@ == k }
/// the parents, among the styles there are, of the first n styles of a name
pub open spec fn par(st: Seq<Style>, n: int, k: Name) -> Set<Name> decreases n {
    if n <= 0 { Set::empty() } else { let s = st[n - 1]; if s.name@ == k && s.parent is Some && named(st, s.parent->Some_0@) { par(st, n - 1, k).insert(s.parent->Some_0@) } else { par(st, n - 1, k) } }
}
proof fn par_in(st: Seq<Style>, n: int, k: Name, p: Name) requires 0 <= n <= st.len(), par(st, n, k).contains(p) ensures named(st, p), exists|i: int| 0 <= i < n && #[trigger] is_parent(st, i, k, p) decreases n
{ if n > 0 { let s = st[n - 1]; if s.name@ == k && s.parent is Some && named(st, s.parent->Some_0@) && p == s.parent->Some_0@ { assert(is_parent(st, n - 1, k, p)); } else { par_in(st, n - 1, k, p); } } }
proof fn par_has(st: Seq<Style>, n: int, i: int) requires 0 <= i < n <= st.len(), st[i].parent is Some, named(st, st[i].parent->Some_0@) ensures par(st, n, st[i].name@).contains(st[i].parent->Some_0@) decreases n
{ if i < n - 1 { par_has(st, n - 1, i); } }
proof fn par_few(st: Seq<Style>, n: int, k: Name) requires 0 <= n ensures par(st, n, k).len() <= n decreases n { if n > 0 { par_few(st, n - 1, k); } }
pub open spec fn is_parent(st: Seq<Style>, i: int, k: Name, p: Name) -> bool { st[i].name@ == k && st[i].parent is Some && st[i].parent->Some_0@ == p }
/// no style descends from itself: every style can be ranked above its parent
pub open spec fn acyclic(st: Seq<Style>) -> bool { exists|f: spec_fn(Name) -> nat| #[trigger] ranks(st, f) }
pub open spec fn ranks(st: Seq<Style>, f: spec_fn(Name) -> nat) -> bool { forall|i: int| 0 <= i < st.len() && (#[trigger] st[i]).parent is Some && named(st, st[i].parent->Some_0@) ==> f(st[i].parent->Some_0@) < f(st[i].name@) }
pub open spec fn closed(d: Graph) -> bool { forall|k: Name, p: Name| d.contains_key(k) && #[trigger] d[k].contains(p) ==> d.contains_key(p) }
pub open spec fn levels(d: Graph, f: spec_fn(Name) -> nat) -> bool { forall|k: Name, p: Name| d.contains_key(k) && #[trigger] d[k].contains(p) ==> f(p) < f(k) }
/// the graph belongs to the styles
pub open spec fn graph(st: Seq<Style>, n: int, d: Graph) -> bool { forall|k: Name| (#[trigger] d.contains_key(k) == named(st, k)) && (named(st, k) ==> d[k] == par(st, n, k)) }
proof fn graph_is(st: Seq<Style>, d: Graph) requires graph(st, st.len() as int, d) ensures closed(d), forall|f: spec_fn(Name) -> nat| #[trigger] ranks(st, f) ==> levels(d, f), forall|f: spec_fn(Name) -> nat| #[trigger] levels(d, f) ==> ranks(st, f)
{
    let n = st.len() as int;
    assert forall|k: Name, p: Name| d.contains_key(k) && #[trigger] d[k].contains(p) implies d.contains_key(p) by { par_in(st, n, k, p); }
    assert forall|f: spec_fn(Name) -> nat| #[trigger] ranks(st, f) implies levels(d, f) by { assert forall|k: Name, p: Name| d.contains_key(k) && #[trigger] d[k].contains(p) implies f(p) < f(k) by { par_in(st, n, k, p); let i = choose|i: int| 0 <= i < n && #[trigger] is_parent(st, i, k, p); assert(st[i].name@ == k); } }
    assert forall|f: spec_fn(Name) -> nat| #[trigger] levels(d, f) implies ranks(st, f) by { assert forall|i: int| 0 <= i < st.len() && (#[trigger] st[i]).parent is Some && named(st, st[i].parent->Some_0@) implies f(st[i].parent->Some_0@) < f(st[i].name@) by { par_has(st, n, i); assert(named(st, st[i].name@)); assert(d.contains_key(st[i].name@)); } }
}
// ---- ordered maps and sets of the standard library: assumed contracts ---------------------------------------------
pub struct Names<'a> { pub id: Option<&'a u8> }
impl<'a> Names<'a> {
    pub uninterp spec fn view(&self) -> Set<Name>;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r@ == Set::<Name>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn contains(&self, k: &str) -> (r: bool) ensures r == self@.contains(k@) { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: &'a str) -> (r: bool) ensures r == !old(self)@.contains(k@), final(self)@ == old(self)@.insert(k@) { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, k: &str) -> (r: bool) ensures r == old(self)@.contains(k@), final(self)@ == old(self)@.remove(k@) { unimplemented!() }
    /// every member, once
    #[verifier::external_body]
    fn list(&self) -> (r: Vec<&'a str>) ensures each(r@, self@) { unimplemented!() }
}
pub open spec fn each(v: Seq<&str>, s: Set<Name>) -> bool { &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] v[i]@ != #[trigger] v[j]@ &&& forall|i: int| 0 <= i < v.len() ==> s.contains(#[trigger] v[i]@) &&& forall|k: Name| #[trigger] s.contains(k) ==> exists|i: int| 0 <= i < v.len() && #[trigger] v[i]@ == k }
pub struct Deps<'a> { pub id: Option<&'a u8> }
impl<'a> Deps<'a> {
    pub uninterp spec fn view(&self) -> Graph;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r@ == Graph::empty() { unimplemented!() }
    #[verifier::external_body]
    fn put(&mut self, k: &'a str, v: Names<'a>) ensures final(self)@ == old(self)@.insert(k@, v@) { unimplemented!() }
    /// get_mut, unwrap and insert
    #[verifier::external_body]
    fn link(&mut self, k: &str, p: &'a str) -> (r: bool) requires old(self)@.contains_key(k@) ensures r == !old(self)@[k@].contains(p@), final(self)@ == old(self)@.insert(k@, old(self)@[k@].insert(p@)) { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, k: &str) -> (r: Option<&Names<'a>>) ensures match r { Some(v) => self@.contains_key(k@) && v@ == self@[k@], None => !self@.contains_key(k@) } { unimplemented!() }
    #[verifier::external_body]
    fn at(&self, k: &str) -> (r: &Names<'a>) requires self@.contains_key(k@) ensures r@ == self@[k@] { unimplemented!() }
    #[verifier::external_body]
    fn list(&self) -> (r: Vec<&'a str>) ensures each(r@, self@.dom()) { unimplemented!() }
}
pub struct Degrees<'a> { pub id: Option<&'a u8> }
impl<'a> Degrees<'a> {
    pub uninterp spec fn view(&self) -> Map<Name, usize>;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r@ == Map::<Name, usize>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn put(&mut self, k: &'a str, v: usize) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    /// get_mut, unwrap and +=
    #[verifier::external_body]
    fn raise(&mut self, k: &str, n: usize) requires old(self)@.contains_key(k@), old(self)@[k@] + n <= usize::MAX ensures final(self)@ == old(self)@.insert(k@, (old(self)@[k@] + n) as usize) { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, k: &str) -> (r: Option<usize>) ensures match r { Some(v) => self@.contains_key(k@) && v == self@[k@], None => !self@.contains_key(k@) } { unimplemented!() }
    #[verifier::external_body]
    fn at(&self, k: &str) -> (r: usize) requires self@.contains_key(k@) ensures r == self@[k@] { unimplemented!() }
    #[verifier::external_body]
    fn list(&self) -> (r: Vec<&'a str>) ensures each(r@, self@.dom()) { unimplemented!() }
}
pub struct ByName<'a> { pub id: Option<&'a u8> }
impl<'a> ByName<'a> {
    pub uninterp spec fn view(&self) -> Map<Name, &'a Style<'a>>;
    #[verifier::external_body]
    fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, k: &str) -> (r: Option<&&'a Style<'a>>) ensures match r { Some(v) => self@.contains_key(k@) && *v == self@[k@], None => !self@.contains_key(k@) } { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
}
/// collect: the last style of every name
#[verifier::external_body]
fn by_name<'a>(st: &'a [Style<'a>]) -> (r: ByName<'a>) ensures forall|k: Name| #[trigger] r@.contains_key(k) == named(st@, k), forall|k: Name| #[trigger] r@.contains_key(k) ==> r@[k].name@ == k && exists|i: int| 0 <= i < st@.len() && #[trigger] st@[i] == *r@[k] { unimplemented!() }
pub struct StyleConflict { pub k: u64 }
#[verifier::external_body]
fn a_conflict() -> StyleConflict { unimplemented!() }
pub struct StyleAnalyzer<'a> { pub conflicts: Vec<StyleConflict>, pub id: Option<&'a u8> }
// ---- taking the styles whose parents are all taken ----------------------------------------------------------------
pub open spec fn waits(d: Set<Name>, done: Set<Name>) -> nat { d.difference(done).len() }
proof fn waits_less(d: Set<Name>, done: Set<Name>, c: Name) requires !done.contains(c) ensures waits(d, done.insert(c)) == (if d.contains(c) { waits(d, done) - 1 } else { waits(d, done) as int }), d.contains(c) ==> waits(d, done) > 0
{ if d.contains(c) { assert(d.difference(done).contains(c)); assert(d.difference(done.insert(c)) =~= d.difference(done).remove(c)); } else { assert(d.difference(done.insert(c)) =~= d.difference(done)); } }
proof fn waits_none(d: Set<Name>, done: Set<Name>) ensures (waits(d, done) == 0) == d.subset_of(done)
{ if waits(d, done) == 0 { assert forall|x: Name| d.contains(x) implies done.contains(x) by { if !done.contains(x) { assert(d.difference(done).contains(x)); } } } if d.subset_of(done) { assert(d.difference(done) =~= Set::empty()); } }
pub open spec fn degrees(d: Graph, g: Map<Name, usize>, done: Set<Name>) -> bool { g.dom() == d.dom() && forall|k: Name| #[trigger] d.contains_key(k) ==> g[k] == waits(d[k], done) }
/// the taken styles by name
pub open spec fn taken(v: Seq<&Style>) -> Set<Name> decreases v.len() { if v.len() == 0 { Set::empty() } else { taken(v.drop_last()).insert(v.last().name@) } }
proof fn taken_is(v: Seq<&Style>, k: Name) ensures taken(v).contains(k) == exists|i: int| 0 <= i < v.len() && #[trigger] v[i].name@ == k decreases v.len()
{ if v.len() > 0 { let u = v.drop_last(); taken_is(u, k); if taken(u).contains(k) { let i = choose|i: int| 0 <= i < u.len() && #[trigger] u[i].name@ == k; assert(v[i].name@ == k); } if v.last().name@ == k { assert(v[v.len() - 1].name@ == k); } if exists|i: int| 0 <= i < v.len() && #[trigger] v[i].name@ == k { let i = choose|i: int| 0 <= i < v.len() && #[trigger] v[i].name@ == k; if i < u.len() { assert(u[i].name@ == k); } } } }
pub open spec fn distinct(v: Seq<&Style>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] v[i].name@ != #[trigger] v[j].name@ }
proof fn taken_len(v: Seq<&Style>) requires distinct(v) ensures taken(v).len() == v.len() decreases v.len()
{ if v.len() > 0 { let u = v.drop_last(); assert(distinct(u)); taken_len(u); taken_is(u, v.last().name@); if taken(u).contains(v.last().name@) { let i = choose|i: int| 0 <= i < u.len() && #[trigger] u[i].name@ == v.last().name@; assert(v[i].name@ != v[v.len() - 1].name@); } } }
/// every style comes after its parents
pub open spec fn after_parents(d: Graph, v: Seq<&Style>) -> bool { forall|i: int| 0 <= i < v.len() ==> d.contains_key(#[trigger] v[i].name@) && d[v[i].name@].subset_of(taken(v.take(i))) }
/// the waiting styles: exactly the free ones that are not taken, each once
pub open spec fn waiting(q: Seq<&str>, g: Map<Name, usize>, done: Set<Name>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < q.len() ==> #[trigger] q[i]@ != #[trigger] q[j]@
    &&& forall|i: int| 0 <= i < q.len() ==> g.contains_key(#[trigger] q[i]@) && g[q[i]@] == 0 && !done.contains(q[i]@)
    &&& forall|k: Name| #[trigger] g.contains_key(k) && g[k] == 0 && !done.contains(k) ==> exists|i: int| 0 <= i < q.len() && #[trigger] q[i]@ == k
}
pub open spec fn texts(q: Seq<&str>) -> Seq<Name> { Seq::new(q.len(), |i: int| q[i]@) }
/// the first names that wait for nothing
pub open spec fn zeros(names: Seq<&str>, g: Map<Name, usize>, n: int) -> Seq<Name> decreases n { if n <= 0 { Seq::empty() } else if g[names[n - 1]@] == 0 { zeros(names, g, n - 1).push(names[n - 1]@) } else { zeros(names, g, n - 1) } }
proof fn zeros_are(names: Seq<&str>, g: Map<Name, usize>, n: int) requires 0 <= n <= names.len(), each(names, g.dom())
    ensures forall|i: int| 0 <= i < zeros(names, g, n).len() ==> g[#[trigger] zeros(names, g, n)[i]] == 0 && exists|m: int| 0 <= m < n && #[trigger] names[m]@ == zeros(names, g, n)[i], forall|m: int| 0 <= m < n && g[#[trigger] names[m]@] == 0 ==> zeros(names, g, n).contains(names[m]@), forall|i: int, j: int| 0 <= i < j < zeros(names, g, n).len() ==> #[trigger] zeros(names, g, n)[i] != #[trigger] zeros(names, g, n)[j]
    decreases n
{
    if n > 0 {
        zeros_are(names, g, n - 1); let z = zeros(names, g, n - 1); let y = zeros(names, g, n);
        assert forall|i: int| 0 <= i < y.len() implies g[#[trigger] y[i]] == 0 && exists|m: int| 0 <= m < n && #[trigger] names[m]@ == y[i] by { if i < z.len() { assert(z[i] == y[i]); let m = choose|m: int| 0 <= m < n - 1 && #[trigger] names[m]@ == z[i]; assert(names[m]@ == y[i]); } else { assert(names[n - 1]@ == y[i]); } }
        assert forall|m: int| 0 <= m < n && g[#[trigger] names[m]@] == 0 implies y.contains(names[m]@) by { if m < n - 1 { let i = choose|i: int| 0 <= i < z.len() && z[i] == names[m]@; assert(y[i] == names[m]@); } else { assert(y[z.len() as int] == names[m]@); } }
        assert forall|i: int, j: int| 0 <= i < j < y.len() implies #[trigger] y[i] != #[trigger] y[j] by { if j == z.len() { assert(z[i] == y[i]); let m = choose|m: int| 0 <= m < n - 1 && #[trigger] names[m]@ == z[i]; assert(names[m]@ != names[n - 1]@); } else { assert(z[i] != z[j]); } }
    }
}
proof fn first_waiting(names: Seq<&str>, q: Seq<&str>, g: Map<Name, usize>) requires each(names, g.dom()), texts(q) == zeros(names, g, names.len() as int) ensures waiting(q, g, Set::empty())
{
    let n = names.len() as int; let z = zeros(names, g, n); zeros_are(names, g, n); assert(q.len() == texts(q).len());
    assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i]@ == z[i] by { assert(texts(q)[i] == q[i]@); }
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies #[trigger] q[i]@ != #[trigger] q[j]@ by { assert(z[i] != z[j]); }
    assert forall|i: int| 0 <= i < q.len() implies g.contains_key(#[trigger] q[i]@) && g[q[i]@] == 0 by { assert(g[z[i]] == 0); let m = choose|m: int| 0 <= m < n && #[trigger] names[m]@ == z[i]; assert(g.dom().contains(names[m]@)); }
    assert forall|k: Name| #[trigger] g.contains_key(k) && g[k] == 0 implies exists|i: int| 0 <= i < q.len() && #[trigger] q[i]@ == k by { assert(g.dom().contains(k)); let m = choose|m: int| 0 <= m < n && #[trigger] names[m]@ == k; assert(z.contains(names[m]@)); let i = choose|i: int| 0 <= i < z.len() && z[i] == names[m]@; assert(q[i]@ == k); }
}
/// on the way through the styles that wait for the one just taken
pub open spec fn midway(d: Graph, kids: Seq<&str>, n: int, g: Map<Name, usize>, q: Seq<&str>, t0: Set<Name>, t1: Set<Name>) -> bool {
    &&& g.dom() == d.dom() && waiting(q, g, t1)
    &&& forall|m: int| 0 <= m < n ==> g[(#[trigger] kids[m])@] == waits(d[kids[m]@], t1)
    &&& forall|m: int| n <= m < kids.len() ==> g[(#[trigger] kids[m])@] == waits(d[kids[m]@], t0)
}
proof fn step(d: Graph, kids: Seq<&str>, n: int, g: Map<Name, usize>, q: Seq<&str>, h: Map<Name, usize>, u: Seq<&str>, t0: Set<Name>, t1: Set<Name>)
    requires each(kids, d.dom()), 0 <= n < kids.len(), midway(d, kids, n, g, q, t0, t1), ({ let k = kids[n]@; let w = waits(d[k], t1); (h == g.insert(k, w as usize) || h == g && g[k] == w) && w <= usize::MAX && (w == waits(d[k], t0) && u == q && h == g || g[k] > 0 && !t1.contains(k) && texts(u) == (if w == 0 { texts(q).push(k) } else { texts(q) })) })
    ensures midway(d, kids, n + 1, h, u, t0, t1)
{
    let k = kids[n]@; assert(d.dom().contains(k)); assert(h.dom() =~= d.dom());
    let qs = texts(q); let us = texts(u); assert(us.len() == u.len() && qs.len() == q.len());
    assert forall|m: int| 0 <= m < n + 1 implies h[(#[trigger] kids[m])@] == waits(d[kids[m]@], t1) by { if m < n { assert(kids[m]@ != kids[n]@); } }
    assert forall|m: int| n + 1 <= m < kids.len() implies h[(#[trigger] kids[m])@] == waits(d[kids[m]@], t0) by { assert(kids[n]@ != kids[m]@); }
    if !(u == q && h == g) {
        assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i]@ != k && us[i] == q[i]@ by { assert(qs[i] == q[i]@); }
        assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i]@ == us[i] by {}
        assert forall|i: int, j: int| 0 <= i < j < u.len() implies #[trigger] u[i]@ != #[trigger] u[j]@ by { if j < q.len() { assert(q[i]@ != q[j]@); } else { assert(q[i]@ != k); } }
        assert forall|i: int| 0 <= i < u.len() implies h.contains_key(#[trigger] u[i]@) && h[u[i]@] == 0 && !t1.contains(u[i]@) by { if i < q.len() { assert(q[i]@ != k); assert(g.contains_key(q[i]@)); } }
        assert forall|x: Name| #[trigger] h.contains_key(x) && h[x] == 0 && !t1.contains(x) implies exists|i: int| 0 <= i < u.len() && #[trigger] u[i]@ == x by { if x == k { assert(u[q.len() as int]@ == x); } else { assert(g.contains_key(x)); let i = choose|i: int| 0 <= i < q.len() && #[trigger] q[i]@ == x; assert(u[i]@ == x); } }
    }
}
proof fn popped(q: Seq<&str>, c: &str, g: Map<Name, usize>, t0: Set<Name>)
    ensures waiting(q.push(c), g, t0) ==> waiting(q, g, t0.insert(c@)) && g.contains_key(c@) && g[c@] == 0 && !t0.contains(c@)
{
    let q9 = q.push(c);
    if waiting(q9, g, t0) {
        assert(q9[q.len() as int]@ == c@);
        assert forall|i: int, j: int| 0 <= i < j < q.len() implies #[trigger] q[i]@ != #[trigger] q[j]@ by { assert(q9[i]@ != q9[j]@); }
        assert forall|i: int| 0 <= i < q.len() implies g.contains_key(#[trigger] q[i]@) && g[q[i]@] == 0 && !t0.insert(c@).contains(q[i]@) by { assert(q9[i]@ != q9[q.len() as int]@); }
        assert forall|k: Name| #[trigger] g.contains_key(k) && g[k] == 0 && !t0.insert(c@).contains(k) implies exists|i: int| 0 <= i < q.len() && #[trigger] q[i]@ == k by { let i = choose|i: int| 0 <= i < q9.len() && #[trigger] q9[i]@ == k; assert(q[i]@ == k); }
    }
}
proof fn extend(d: Graph, v: Seq<&Style>, s: &Style) requires distinct(v), after_parents(d, v), !taken(v).contains(s.name@), d.contains_key(s.name@), d[s.name@].subset_of(taken(v)) ensures distinct(v.push(s)), after_parents(d, v.push(s)), taken(v.push(s)) == taken(v).insert(s.name@)
{
    let u = v.push(s); assert(u.drop_last() =~= v);
    assert forall|i: int| 0 <= i < u.len() implies d.contains_key(#[trigger] u[i].name@) && d[u[i].name@].subset_of(taken(u.take(i))) by { if i < v.len() { assert(v[i] == u[i]); assert(d.contains_key(v[i].name@)); assert(u.take(i) =~= v.take(i)); } else { assert(u.take(i) =~= v); } }
    assert forall|i: int, j: int| 0 <= i < j < u.len() implies #[trigger] u[i].name@ != #[trigger] u[j].name@ by { if j == v.len() { taken_is(v, s.name@); assert(v[i].name@ != s.name@); } else { assert(v[i].name@ != v[j].name@); } }
}
/// what is taken waits for nothing
proof fn done_free(d: Graph, v: Seq<&Style>) requires after_parents(d, v) ensures forall|x: Name| #[trigger] taken(v).contains(x) ==> d[x].subset_of(taken(v))
{
    assert forall|x: Name| #[trigger] taken(v).contains(x) implies d[x].subset_of(taken(v)) by { taken_is(v, x); let i = choose|i: int| 0 <= i < v.len() && #[trigger] v[i].name@ == x; assert(d[v[i].name@].subset_of(taken(v.take(i))));
        assert forall|y: Name| d[x].contains(y) implies taken(v).contains(y) by { let u = v.take(i); assert(taken(u).contains(y)); taken_is(u, y); let j = choose|j: int| 0 <= j < u.len() && #[trigger] u[j].name@ == y; assert(v[j].name@ == y); taken_is(v, y); } }
}
/// nothing waits: everything is taken, or nothing can be ranked
proof fn stuck(d: Graph, g: Map<Name, usize>, done: Set<Name>, f: spec_fn(Name) -> nat, k: Name) requires closed(d), levels(d, f), degrees(d, g, done), forall|x: Name| #[trigger] g.contains_key(x) && g[x] == 0 ==> done.contains(x), d.contains_key(k) ensures done.contains(k) decreases f(k)
{ if !done.contains(k) { assert(g.contains_key(k)); waits_none(d[k], done); let p = choose|p: Name| d[k].contains(p) && !done.contains(p); assert(d[k].contains(p)); stuck(d, g, done, f, p); } }
pub open spec fn ordered(v: Seq<&Style>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] v[i].name@ != #[trigger] v[j].name@
    &&& forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && v[i].parent is Some && #[trigger] v[j].name@ == (#[trigger] v[i]).parent->Some_0@ ==> j < i
}
/// an order is a ranking
proof fn order_ranks(d: Graph, v: Seq<&Style>) requires distinct(v), after_parents(d, v), taken(v) == d.dom() ensures exists|f: spec_fn(Name) -> nat| #[trigger] levels(d, f)
{
    let f = |k: Name| place(v, k);
    assert forall|k: Name, p: Name| d.contains_key(k) && #[trigger] d[k].contains(p) implies f(p) < f(k) by {
        assert(taken(v).contains(k)); taken_is(v, k); place_is(v, k); let i = place(v, k) as int; let u = v.take(i); assert(u =~= v.take(i)); assert(taken(u).contains(p)); taken_is(u, p); let j = choose|j: int| 0 <= j < u.len() && #[trigger] u[j].name@ == p; assert(v[j].name@ == p); place_is(v, p); 
        let jj = place(v, p) as int; if j < jj { assert(v[j].name@ != v[jj].name@); } if jj < j { assert(v[jj].name@ != v[j].name@); }
    }
    assert(levels(d, f));
}
pub open spec fn place(v: Seq<&Style>, k: Name) -> nat { (choose|i: int| 0 <= i < v.len() && #[trigger] v[i].name@ == k) as nat }
proof fn place_is(v: Seq<&Style>, k: Name) requires exists|i: int| 0 <= i < v.len() && #[trigger] v[i].name@ == k ensures place(v, k) < v.len(), v[place(v, k) as int].name@ == k {}
proof fn order_is(st: Seq<Style>, d: Graph, v: Seq<&Style>) requires graph(st, st.len() as int, d), distinct(v), after_parents(d, v), forall|i: int| 0 <= i < v.len() ==> exists|m: int| 0 <= m < st.len() && #[trigger] st[m] == *#[trigger] v[i] ensures ordered(v)
{
    assert forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && v[i].parent is Some && #[trigger] v[j].name@ == (#[trigger] v[i]).parent->Some_0@ implies j < i by {
        let p = v[j].name@; let m = choose|m: int| 0 <= m < st.len() && #[trigger] st[m] == *v[i]; let mj = choose|m: int| 0 <= m < st.len() && #[trigger] st[m] == *v[j]; assert(st[mj].name@ == p); assert(named(st, p)); assert(st[m].name@ == v[i].name@); par_has(st, st.len() as int, m); assert(named(st, v[i].name@)); assert(d.contains_key(v[i].name@)); assert(d[v[i].name@].contains(p)); let u = v.take(i); assert(taken(u).contains(p)); taken_is(u, p); let q = choose|q: int| 0 <= q < u.len() && #[trigger] u[q].name@ == p; assert(v[q].name@ == p); if q < j { assert(v[q].name@ != v[j].name@); } if j < q { assert(v[j].name@ != v[q].name@); }
    }
}
/// every one on the way here ranks above
pub open spec fn above(s: Set<Name>, f: spec_fn(Name) -> nat, k: Name) -> bool { forall|x: Name| #[trigger] s.contains(x) ==> f(k) < f(x) }
pub proof fn fewer(d: Set<Name>, v: Set<Name>, w: Set<Name>, k: Name) requires d.contains(k), !v.contains(k), v.insert(k).subset_of(w) ensures d.difference(w).len() < d.difference(v).len()
{ let a = d.difference(v).remove(k); assert(d.difference(v).contains(k)); assert(d.difference(w).subset_of(a)); vstd::set_lib::lemma_len_subset(d.difference(w), a); }
impl<'a> StyleAnalyzer<'a> {

//@@ fn crates/ass-core/analysis/styles/analyzer/dependency.rs StyleAnalyzer::build_dependency_order
//@ret r
//@re let style_map: BTreeMap<&str, &Style> = styles\.iter\(\)\.map\(\|s\| \(s\.name, s\)\)\.collect\(\); => let style_map = by_name(styles);
//@re let mut dependencies: [^;]*?BTreeMap::new\(\); => let mut dependencies: Deps = Deps::new();
//@re let mut in_degree: [^;]*?BTreeMap::new\(\); => let mut in_degree: Degrees = Degrees::new();
//@re dependencies\.insert\(style\.name, BTreeSet::new\(\)\) => dependencies.put(style.name, Names::new())
//@re in_degree\.insert\(style\.name, (\w+)\) => in_degree.put(style.name, \1)
//@re (?s)dependencies\s*\.get_mut\(style\.name\)\s*\.unwrap\(\)\s*\.insert\(parent_name\) => dependencies.link(style.name, parent_name)
//@re \*in_degree\.get_mut\(style\.name\)\.unwrap\(\) \+= (\w+) => in_degree.raise(style.name, \1)
//@re (?s)if self\.config\.options\.contains\(AnalysisOptions::INHERITANCE\) \{\s*if let.*?\n                    \}\n =>
//@re (?s) else if self\.config\.options\.contains\(AnalysisOptions::INHERITANCE\) \{.*?\n            \} =>
//@re (?s)StyleConflict::missing_parent\(style\.name, parent_name\) => a_conflict()
//@re (?s)StyleConflict::circular_inheritance\(\s*dependencies\.keys\(\)\.copied\(\)\.collect\(\),\s*\) => a_conflict()
//@re for style in styles \{(?=\s*dependencies) => let mut si: usize = 0; while si < styles.len() { let style = &styles[si]; si += 1;
//@re for style in styles \{(?=\s*if let) => proof { assert(si == styles@.len()); assert forall|k: Name| (#[trigger] dependencies@.contains_key(k) == named(styles@, k)) && (named(styles@, k) ==> dependencies@[k] == par(styles@, 0, k)) by { if named(styles@, k) { let i = choose|i: int| 0 <= i < styles@.len() && #[trigger] styles@[i].name@ == k; assert(styles@[i].name@ == k); assert(dependencies@.contains_key(k)); assert(dependencies@[k] == Set::<Name>::empty()); assert(par(styles@, 0, k) == Set::<Name>::empty()); } } assert(graph(styles@, 0, dependencies@)); } let mut si: usize = 0; while si < styles.len() { let style = &styles[si]; si += 1;
//@re while let Some\(current\) = queue\.pop\(\) \{ => while queue.len() > 0 { let ghost q9 = queue@; let current = queue.pop().unwrap();
//@re for \(name, degree\) in &in_degree \{ => let names = in_degree.list(); let mut ni: usize = 0; while ni < names.len() { let name = names[ni]; let degree = &in_degree.at(name); ni += 1;
//@re for \(child, parents\) in &dependencies \{ => let kids = dependencies.list();\n let mut ki: usize = 0; while ki < kids.len() { let child = kids[ki]; let parents = dependencies.at(child); ki += 1;
//@re (?s)if let Some\(degree\) = in_degree\.get_mut\(child\) \{\s*\*degree = (.*?); => if let Some(degree) = in_degree.get(child) { let less = \1; in_degree.put(child, less); let degree = &less;
//@spec
    ensures r is Some == acyclic(styles@), r is Some ==> ordered(r->Some_0@) && (forall|i: int| 0 <= i < r->Some_0@.len() ==> exists|m: int| 0 <= m < styles@.len() && #[trigger] styles@[m] == *#[trigger] r->Some_0@[i]) && forall|m: int| 0 <= m < styles@.len() ==> exists|i: int| 0 <= i < r->Some_0@.len() && #[trigger] r->Some_0@[i].name@ == (#[trigger] styles@[m]).name@
//@loop 0
    invariant si <= styles@.len(), dependencies@.dom() == in_degree@.dom(), forall|k: Name| #[trigger] dependencies@.contains_key(k) == (exists|i: int| 0 <= i < si && #[trigger] styles@[i].name@ == k), forall|k: Name| #[trigger] dependencies@.contains_key(k) ==> dependencies@[k] == Set::<Name>::empty() && in_degree@[k] == 0
    decreases styles@.len() - si
//@loopend 0
    proof { assert(dependencies@.dom() =~= in_degree@.dom()); assert forall|k: Name| #[trigger] dependencies@.contains_key(k) == (exists|i: int| 0 <= i < si && #[trigger] styles@[i].name@ == k) by { if k == style.name@ { assert(styles@[si - 1].name@ == k); } } }
//@loop 1
    invariant si <= styles@.len(), graph(styles@, si as int, dependencies@), dependencies@.dom() == in_degree@.dom(), forall|k: Name| #[trigger] dependencies@.contains_key(k) ==> in_degree@[k] == dependencies@[k].len(), forall|k: Name| #[trigger] style_map@.contains_key(k) == named(styles@, k)
    decreases styles@.len() - si
//@loopstart 1
    let ghost d0 = dependencies@; let ghost g0 = in_degree@; proof { let k = styles@[si as int].name@; par_few(styles@, si as int, k); assert(named(styles@, k)); assert(d0.contains_key(k)); }
//@loopend 1
    proof { assert(dependencies@.dom() =~= in_degree@.dom()); assert(graph(styles@, si as int, dependencies@)) by { assert forall|k: Name| (#[trigger] dependencies@.contains_key(k) == named(styles@, k)) && (named(styles@, k) ==> dependencies@[k] == par(styles@, si as int, k)) by { assert(d0.contains_key(k) == named(styles@, k)); } } assert forall|k: Name| #[trigger] dependencies@.contains_key(k) implies in_degree@[k] == dependencies@[k].len() by { assert(d0.contains_key(k)); } }
//@loop 2
    invariant ni <= names@.len(), each(names@, in_degree@.dom()), texts(queue@) == zeros(names@, in_degree@, ni as int)
    decreases names@.len() - ni
//@loopstart 2
    let ghost q0 = queue@; proof { assert(in_degree@.dom().contains(names@[ni as int]@)); }
//@loopend 2
    proof { if queue@ != q0 { assert(texts(queue@) =~= texts(q0).push(names@[ni - 1]@)); } assert(texts(queue@) == zeros(names@, in_degree@, ni as int)); }
//@before "if Self::has_circular"
    proof { graph_is(styles@, dependencies@); }
//@before "while queue.len()"
    let ghost d = dependencies@; proof { assert(taken(result@) =~= Set::<Name>::empty()); assert forall|k: Name| #[trigger] d.contains_key(k) implies in_degree@[k] == waits(d[k], taken(result@)) by { assert(d[k].difference(Set::<Name>::empty()) =~= d[k]); } first_waiting(names@, queue@, in_degree@); assert(taken(result@) == Set::<Name>::empty()); assert(waiting(queue@, in_degree@, taken(result@))); assert(style_map@.dom() =~= d.dom()); }
//@loop 3
    invariant d == dependencies@, closed(d), graph(styles@, styles@.len() as int, d), degrees(d, in_degree@, taken(result@)), waiting(queue@, in_degree@, taken(result@)), distinct(result@), after_parents(d, result@), style_map@.dom() == d.dom(), forall|i: int| 0 <= i < result@.len() ==> exists|m: int| 0 <= m < styles@.len() && #[trigger] styles@[m] == *#[trigger] result@[i], forall|k: Name| #[trigger] style_map@.contains_key(k) ==> style_map@[k].name@ == k && exists|i: int| 0 <= i < styles@.len() && #[trigger] styles@[i] == *style_map@[k]
    decreases waits(d.dom(), taken(result@))
//@after "let current ="
    let ghost r0 = result@; let ghost g0 = in_degree@; let ghost t0 = taken(r0); let ghost c = current@; proof { popped(queue@, current, g0, t0); assert(queue@.push(current) =~= q9); assert(d.contains_key(c)); waits_none(d[c], t0); assert(style_map@.contains_key(c)); }
//@before "let kids"
    let ghost t1 = taken(result@); proof { assert(result@ =~= r0.push(style_map@[c])); extend(d, r0, style_map@[c]); done_free(d, r0); assert forall|x: Name| #[trigger] t1.contains(x) implies d[x].subset_of(t0) by { if x != c { assert(t0.contains(x)); } } waits_less(d.dom(), t0, c); }
//@after "let kids"
    proof { assert forall|m: int| 0 <= m < kids@.len() implies in_degree@[(#[trigger] kids@[m])@] == waits(d[kids@[m]@], t0) by { assert(each(kids@, d.dom())); assert(d.dom().contains(kids@[m]@)); assert(d.contains_key(kids@[m]@)); assert(in_degree@ == g0); assert(degrees(d, g0, t0)); } assert(midway(d, kids@, 0, in_degree@, queue@, t0, t1)); }
//@loop 4
    invariant ki <= kids@.len(), each(kids@, d.dom()), d == dependencies@, midway(d, kids@, ki as int, in_degree@, queue@, t0, t1), t1 == t0.insert(c), !t0.contains(c), c == current@, forall|x: Name| #[trigger] t1.contains(x) ==> d[x].subset_of(t0)
    decreases kids@.len() - ki
//@loopstart 4
    let ghost g1 = in_degree@; let ghost q1 = queue@; let ghost k = kids@[ki as int]@; proof { assert(d.contains_key(k)); waits_less(d[k], t0, c); waits_none(d[k], t0); if t1.contains(k) { assert(d[k].subset_of(t0)); } assert(g1[k] == waits(d[k], t0)); }
//@loopend 4
    proof { assert(midway(d, kids@, ki as int, in_degree@, queue@, t0, t1)) by { assert(texts(queue@) =~= (if waits(d[k], t1) == 0 && d[k].contains(c) { texts(q1).push(k) } else { texts(q1) })); step(d, kids@, ki - 1, g1, q1, in_degree@, queue@, t0, t1); } }
//@loopend 3
    proof { assert(degrees(d, in_degree@, t1)) by { assert forall|k: Name| #[trigger] d.contains_key(k) implies in_degree@[k] == waits(d[k], t1) by { assert(d.dom().contains(k)); let i = choose|i: int| 0 <= i < kids@.len() && #[trigger] kids@[i]@ == k; assert(in_degree@[kids@[i]@] == waits(d[kids@[i]@], t1)); } } }
//@before "if result.len()"
    proof { taken_len(result@); let t = taken(result@); assert(t.subset_of(d.dom())) by { assert forall|x: Name| t.contains(x) implies d.dom().contains(x) by { taken_is(result@, x); let i = choose|i: int| 0 <= i < result@.len() && #[trigger] result@[i].name@ == x; assert(d.contains_key(result@[i].name@)); } }
        assert forall|f: spec_fn(Name) -> nat| #[trigger] levels(d, f) implies result@.len() == d.dom().len() by { assert forall|x: Name| d.dom().contains(x) implies t.contains(x) by { stuck(d, in_degree@, t, f, x); } assert(t =~= d.dom()); }
        if result@.len() == d.dom().len() { vstd::set_lib::lemma_subset_equality(t, d.dom()); order_ranks(d, result@); order_is(styles@, d, result@); assert forall|m: int| 0 <= m < styles@.len() implies exists|i: int| 0 <= i < result@.len() && #[trigger] result@[i].name@ == (#[trigger] styles@[m]).name@ by { assert(named(styles@, styles@[m].name@)); assert(d.contains_key(styles@[m].name@)); taken_is(result@, styles@[m].name@); } } }
//@@ end
//@@ fn crates/ass-core/analysis/styles/analyzer/dependency.rs StyleAnalyzer::has_circular_dependency
//@ret r
//@sig-re &BTreeMap<&str, BTreeSet<&str>> => &Deps<'_>
//@re-all BTreeSet::new\(\) => Names::new()
//@re for node in dependencies\.keys\(\) \{ => let nodes = dependencies.list(); let mut vi: usize = 0; while vi < nodes.len() { let node = nodes[vi]; vi += 1;
//@spec
    requires closed(dependencies@)
    ensures forall|f: spec_fn(Name) -> nat| #[trigger] levels(dependencies@, f) ==> !r
//@loop 0
    invariant vi <= nodes@.len(), each(nodes@, dependencies@.dom()), closed(dependencies@), rec_stack@ == Set::<Name>::empty()
    decreases nodes@.len() - vi
//@@ end
//@@ fn crates/ass-core/analysis/styles/analyzer/dependency.rs StyleAnalyzer::dfs_has_cycle
//@ret r
//@sig-re &BTreeMap<&'b str, BTreeSet<&'b str>> => &Deps<'b>
//@sig-re visited: &mut BTreeSet<&'b str> => visited: &mut Names<'b>
//@sig-re rec_stack: &mut BTreeSet<&'b str> => rec_stack: &mut Names<'b>
//@re for neighbor in neighbors \{ => let list = neighbors.list(); let mut li: usize = 0; while li < list.len() { let neighbor = list[li]; li += 1;
//@spec
    requires closed(dependencies@), dependencies@.contains_key(node@), !old(visited)@.contains(node@), old(rec_stack)@.subset_of(old(visited)@)
    ensures old(visited)@.subset_of(final(visited)@), !r ==> final(rec_stack)@ == old(rec_stack)@, forall|f: spec_fn(Name) -> nat| #[trigger] levels(dependencies@, f) && above(old(rec_stack)@, f, node@) ==> !r
    decreases dependencies@.dom().difference(old(visited)@).len()
//@loop 0
    invariant li <= list@.len(), each(list@, neighbors@), dependencies@.contains_key(node@), neighbors@ == dependencies@[node@], closed(dependencies@), rec_stack@ == old(rec_stack)@.insert(node@), rec_stack@.subset_of(visited@), old(visited)@.insert(node@).subset_of(visited@), !old(visited)@.contains(node@)
    decreases list@.len() - li
//@loopstart 0
    proof { let p = list@[li as int]@; assert(neighbors@.contains(p)); assert(dependencies@[node@].contains(p)); fewer(dependencies@.dom(), old(visited)@, visited@, node@);
        assert forall|f: spec_fn(Name) -> nat| #[trigger] levels(dependencies@, f) && above(old(rec_stack)@, f, node@) implies above(rec_stack@, f, p) by { assert(f(p) < f(node@)); assert forall|x: Name| #[trigger] rec_stack@.contains(x) implies f(p) < f(x) by { if x != node@ { assert(old(rec_stack)@.contains(x)); } } } }
//@before "rec_stack.remove"
    proof { assert(rec_stack@.remove(node@) =~= old(rec_stack)@); }
//@@ end
}
fn main() {}
}
