/// the chain `m.keys().next()` in the code, named so it can carry a contract (verified here)
fn first_key<'a, K, V>(m: &'a HashMap<K, V>) -> (r: Option<&'a K>)
    requires obeys_key_model::<K>(), builds_valid_hashers::<std::hash::RandomState>(),
    ensures m@.len() > 0 ==> r is Some, r is Some ==> m@.contains_key(*r->Some_0),
{
    let mut ks = m.keys();
    let ghost g = ks.remaining();
    assert(m@.len() > 0 ==> g.len() > 0) by {
        if m@.len() > 0 { let kk = m@.dom().choose(); assert(m@.contains_key(kk)); assert(g.unref().to_set().contains(kk)); }
    }
    assert(g.len() > 0 ==> m@.contains_key(*g[0])) by {
        if g.len() > 0 { assert(g.unref()[0] == *g[0]); assert(g.unref().contains(*g[0])); assert(g.unref().to_set().contains(*g[0])); }
    }
    let o = ks.next();
    o
}
