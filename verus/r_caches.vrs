use vstd::prelude::*;
use vstd::std_specs::hash::*;
use std::collections::HashMap;
use vstd::std_specs::iter::IteratorSpec;
use std::sync::Arc;
verus! {
broadcast use vstd::std_specs::hash::group_hash_axioms;

// stated: ahash::AHashMap is std HashMap with another hasher; its contract is assumed the same
pub type AHashMap<K, V> = HashMap<K, V>;
//@@ struct crates/ass-renderer/src/utils/caches.rs GlyphKey derive(PartialEq,Eq,Hash) pubfields
//@@ struct crates/ass-renderer/src/utils/caches.rs CachedGlyph pubfields
//@@ struct crates/ass-renderer/src/utils/caches.rs GlyphCache pubfields

impl Clone for GlyphKey {
    // trusted: derived Clone copies every field
    #[verifier::external_body]
    fn clone(&self) -> (r: GlyphKey) ensures r == *self { unimplemented!() }
}
//@@ include first_key.inc
impl GlyphCache {
    /// the bound the user set is respected
    pub open spec fn wf(self) -> bool { self.cache@.len() <= self.max_entries && obeys_key_model::<GlyphKey>() && builds_valid_hashers::<std::hash::RandomState>() }

//@@ fn crates/ass-renderer/src/utils/caches.rs GlyphCache::get
//@ret r
//@spec
    requires self.wf(),
    ensures match r { Some(g) => self.cache@.contains_key(*key) && *g == self.cache@[*key], None => !self.cache@.contains_key(*key) },
//@@ end

//@@ fn crates/ass-renderer/src/utils/caches.rs GlyphCache::insert
//@opt-replace "self.cache.keys().next().cloned()" => "first_key(&self.cache).cloned()"
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).max_entries == old(self).max_entries,
        // no entry is invented or altered; the new one is stored (unless the limit is zero)
        forall|k: GlyphKey| #[trigger] final(self).cache@.contains_key(k) && k != key ==> old(self).cache@.contains_key(k) && final(self).cache@[k] == old(self).cache@[k],
        old(self).max_entries > 0 ==> final(self).cache@.contains_key(key) && final(self).cache@[key] == glyph,
        // nothing is evicted when there is room or the key is overwritten; otherwise at most one entry
        old(self).cache@.len() < old(self).max_entries || old(self).cache@.contains_key(key) ==>
            forall|k: GlyphKey| old(self).cache@.contains_key(k) ==> #[trigger] final(self).cache@.contains_key(k),
        final(self).cache@.len() >= old(self).cache@.len(),
//@@ end

//@@ fn crates/ass-renderer/src/utils/caches.rs GlyphCache::clear
//@spec
    ensures final(self).cache@.len() == 0, final(self).max_entries == old(self).max_entries,
//@@ end

//@@ fn crates/ass-renderer/src/utils/caches.rs GlyphCache::len
//@ret r
//@spec
    requires self.wf(),
    ensures r == self.cache@.len(),
//@@ end
}
}
fn main() {}
