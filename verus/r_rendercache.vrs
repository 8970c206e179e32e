use vstd::prelude::*;
use vstd::std_specs::hash::*;
use vstd::std_specs::iter::IteratorSpec;
use std::collections::HashMap;
use std::sync::Arc;
verus! {
broadcast use vstd::std_specs::hash::group_hash_axioms;

// opaque stand-ins for the cached values: nothing in the cache looks inside them
pub struct ShapedText { pub id: u64 }
pub struct Path { pub id: u64 }
impl Clone for Path {
    // trusted: Clone of tiny_skia::Path is a copy
    fn clone(&self) -> (r: Path) ensures r == *self { Path { id: self.id } }
}
//@@ struct crates/ass-renderer/src/cache/mod.rs TextCacheKey derive(PartialEq,Eq,Hash)
//@@ struct crates/ass-renderer/src/cache/mod.rs DrawingCacheKey derive(PartialEq,Eq,Hash)
//@@ struct crates/ass-renderer/src/cache/mod.rs CacheStats
//@@ struct crates/ass-renderer/src/cache/mod.rs RenderCache pubfields
impl Default for CacheStats {
    // trusted: derived Default is all zeros
    fn default() -> (r: CacheStats) ensures r.text_hits == 0 && r.text_misses == 0 && r.drawing_hits == 0 && r.drawing_misses == 0 && r.evictions == 0
    { CacheStats { text_hits: 0, text_misses: 0, drawing_hits: 0, drawing_misses: 0, evictions: 0 } }
}
impl Clone for TextCacheKey {
    // trusted: derived Clone copies every field
    #[verifier::external_body]
    fn clone(&self) -> (r: TextCacheKey) ensures r == *self { unimplemented!() }
}
impl Clone for DrawingCacheKey {
    // trusted: derived Clone copies every field
    #[verifier::external_body]
    fn clone(&self) -> (r: DrawingCacheKey) ensures r == *self { unimplemented!() }
}
//@@ include first_key.inc
pub open spec fn small(s: CacheStats) -> bool {
    s.text_hits < usize::MAX && s.text_misses < usize::MAX && s.drawing_hits < usize::MAX && s.drawing_misses < usize::MAX && s.evictions < usize::MAX
}
impl RenderCache {
    /// both limits are respected
    pub open spec fn wf(self) -> bool {
        &&& self.shaped_text_cache@.len() <= self.max_shaped_entries && self.drawing_path_cache@.len() <= self.max_drawing_entries
        &&& obeys_key_model::<TextCacheKey>() && obeys_key_model::<DrawingCacheKey>() && builds_valid_hashers::<std::hash::RandomState>()
    }
    pub open spec fn same_limits(self, o: RenderCache) -> bool { self.max_shaped_entries == o.max_shaped_entries && self.max_drawing_entries == o.max_drawing_entries }

//@@ fn crates/ass-renderer/src/cache/mod.rs RenderCache::with_limits
//@ret r
//@spec
    ensures r.max_shaped_entries == max_shaped, r.max_drawing_entries == max_drawing, r.shaped_text_cache@.len() == 0, r.drawing_path_cache@.len() == 0,
        r.stats.text_hits == 0, r.stats.text_misses == 0, r.stats.drawing_hits == 0, r.stats.drawing_misses == 0, r.stats.evictions == 0,
//@@ end
//@@ fn crates/ass-renderer/src/cache/mod.rs RenderCache::get_shaped_text
//@ret r
//@spec
    requires old(self).wf(), small(old(self).stats),
    ensures final(self).wf(), final(self).same_limits(*old(self)),
        final(self).shaped_text_cache@ == old(self).shaped_text_cache@, final(self).drawing_path_cache@ == old(self).drawing_path_cache@,
        match r { Some(v) => old(self).shaped_text_cache@.contains_key(*key) && v == old(self).shaped_text_cache@[*key], None => !old(self).shaped_text_cache@.contains_key(*key) },
        final(self).stats == (CacheStats { text_hits: (old(self).stats.text_hits + (if r is Some { 1int } else { 0 })) as usize,
            text_misses: (old(self).stats.text_misses + (if r is Some { 0int } else { 1 })) as usize, ..old(self).stats }),
//@@ end
//@@ fn crates/ass-renderer/src/cache/mod.rs RenderCache::get_drawing_path
//@ret r
//@spec
    requires old(self).wf(), small(old(self).stats),
    ensures final(self).wf(), final(self).same_limits(*old(self)),
        final(self).shaped_text_cache@ == old(self).shaped_text_cache@, final(self).drawing_path_cache@ == old(self).drawing_path_cache@,
        match r { Some(v) => old(self).drawing_path_cache@.contains_key(*key) && v == old(self).drawing_path_cache@[*key], None => !old(self).drawing_path_cache@.contains_key(*key) },
        final(self).stats == (CacheStats { drawing_hits: (old(self).stats.drawing_hits + (if r is Some { 1int } else { 0 })) as usize,
            drawing_misses: (old(self).stats.drawing_misses + (if r is Some { 0int } else { 1 })) as usize, ..old(self).stats }),
//@@ end
//@@ fn crates/ass-renderer/src/cache/mod.rs RenderCache::store_shaped_text
//@ret r
//@opt-replace "self.shaped_text_cache.keys().next().cloned()" => "first_key(&self.shaped_text_cache).cloned()"
//@spec
    requires old(self).wf(), small(old(self).stats),
    ensures final(self).wf(), final(self).same_limits(*old(self)), *r == shaped,
        final(self).drawing_path_cache@ == old(self).drawing_path_cache@,
        forall|k: TextCacheKey| #[trigger] final(self).shaped_text_cache@.contains_key(k) && k != key ==>
            old(self).shaped_text_cache@.contains_key(k) && final(self).shaped_text_cache@[k] == old(self).shaped_text_cache@[k],
        old(self).max_shaped_entries > 0 ==> final(self).shaped_text_cache@.contains_key(key) && final(self).shaped_text_cache@[key] == r,
        old(self).shaped_text_cache@.len() < old(self).max_shaped_entries || old(self).shaped_text_cache@.contains_key(key) ==>
            (forall|k: TextCacheKey| old(self).shaped_text_cache@.contains_key(k) ==> #[trigger] final(self).shaped_text_cache@.contains_key(k)),
        final(self).shaped_text_cache@.len() >= old(self).shaped_text_cache@.len(),
        // an entry is evicted exactly when a new key meets a full cache
        final(self).stats == (CacheStats { evictions: (old(self).stats.evictions + (if old(self).max_shaped_entries > 0
            && old(self).shaped_text_cache@.len() == old(self).max_shaped_entries && !old(self).shaped_text_cache@.contains_key(key) { 1int } else { 0 })) as usize, ..old(self).stats }),
//@@ end
//@@ fn crates/ass-renderer/src/cache/mod.rs RenderCache::store_drawing_path
//@opt-replace "self.drawing_path_cache.keys().next().cloned()" => "first_key(&self.drawing_path_cache).cloned()"
//@spec
    requires old(self).wf(), small(old(self).stats),
    ensures final(self).wf(), final(self).same_limits(*old(self)),
        final(self).shaped_text_cache@ == old(self).shaped_text_cache@,
        forall|k: DrawingCacheKey| #[trigger] final(self).drawing_path_cache@.contains_key(k) && k != key ==>
            old(self).drawing_path_cache@.contains_key(k) && final(self).drawing_path_cache@[k] == old(self).drawing_path_cache@[k],
        old(self).max_drawing_entries > 0 ==> final(self).drawing_path_cache@.contains_key(key) && final(self).drawing_path_cache@[key] == path,
        old(self).drawing_path_cache@.len() < old(self).max_drawing_entries || old(self).drawing_path_cache@.contains_key(key) ==>
            (forall|k: DrawingCacheKey| old(self).drawing_path_cache@.contains_key(k) ==> #[trigger] final(self).drawing_path_cache@.contains_key(k)),
        final(self).drawing_path_cache@.len() >= old(self).drawing_path_cache@.len(),
        final(self).stats == (CacheStats { evictions: (old(self).stats.evictions + (if old(self).max_drawing_entries > 0
            && old(self).drawing_path_cache@.len() == old(self).max_drawing_entries && !old(self).drawing_path_cache@.contains_key(key) { 1int } else { 0 })) as usize, ..old(self).stats }),
//@@ end
//@@ fn crates/ass-renderer/src/cache/mod.rs RenderCache::clear
//@spec
    ensures final(self).shaped_text_cache@.len() == 0, final(self).drawing_path_cache@.len() == 0, final(self).same_limits(*old(self)),
        final(self).stats.text_hits == 0, final(self).stats.text_misses == 0, final(self).stats.drawing_hits == 0, final(self).stats.drawing_misses == 0, final(self).stats.evictions == 0,
//@@ end
}
}
fn main() {}
