use vstd::prelude::*;
use vstd::string::*;
verus! {
// ---- trusted: strings, the clock, the table of the standard library, the document --------------------
#[verifier::external_body]
pub fn owned(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body]
pub fn same(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body]
pub struct Instant { x: u8 }
#[verifier::external_body]
pub fn now() -> Instant { unimplemented!() }
#[verifier::external_body]
pub struct EditorDocument { x: u8 }
#[verifier::external_body]
pub struct Strings { x: u8 }
#[verifier::external_body]
pub fn no_strings() -> Strings { unimplemented!() }
#[verifier::external_body]
pub struct Bump { x: u8 }
impl Bump {
    #[verifier::external_body]
    pub fn new() -> Bump { unimplemented!() }
    #[verifier::external_body]
    pub fn reset(&mut self) { unimplemented!() }
}
#[verifier::external_body]
pub struct Registry { x: u8 }
#[verifier::external_body]
pub struct Outcome { x: u8 }
/// a caller's closure over a document, of which nothing is known
#[verifier::external_body]
pub struct Edit { x: u8 }
impl Edit {
    #[verifier::external_body]
    pub fn call(self, d: &mut EditorDocument) -> Result<Outcome> { unimplemented!() }
}
/// a caller's look at a document: a function of it
#[verifier::external_body]
pub struct Look { x: u8 }
impl Look {
    pub uninterp spec fn seen(&self, d: EditorDocument) -> Result<Outcome>;
    #[verifier::external_body]
    pub fn call(self, d: &EditorDocument) -> (r: Result<Outcome>) ensures r == self.seen(*d) { unimplemented!() }
}
#[verifier::external_body]
pub fn name_copy(a: &Option<String>) -> (r: Option<String>) ensures r is Some == a is Some, r is Some ==> r->0@ == a->0@ { a.clone() }
#[verifier::external_body]
pub fn stats_copy(a: &SessionStats) -> (r: SessionStats) ensures r == *a { unimplemented!() }
pub enum EditorError { DocumentNotFound { id: String }, SessionLimitExceeded { current: usize, limit: usize } }
pub type Result<T> = core::result::Result<T, EditorError>;
type Name = Seq<char>;
/// HashMap<String, EditorSession>
#[verifier::external_body]
pub struct Table { x: u8 }
impl Table {
    pub uninterp spec fn view(&self) -> Map<Name, EditorSession>;
    #[verifier::external_body]
    pub fn new() -> (r: Table) ensures r@ == Map::<Name, EditorSession>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: EditorSession) -> (r: Option<EditorSession>)
        ensures final(self)@ == old(self)@.insert(k@, v), r == (if old(self)@.contains_key(k@) { Some(old(self)@[k@]) } else { None::<EditorSession> })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &str) -> (r: Option<EditorSession>)
        ensures final(self)@ == old(self)@.remove(k@), r == (if old(self)@.contains_key(k@) { Some(old(self)@[k@]) } else { None::<EditorSession> })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&EditorSession>)
        ensures r is Some == self@.contains_key(k@), r is Some ==> *r->0 == self@[k@]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &str) -> (r: Option<&mut EditorSession>)
        ensures
            r is Some == old(self)@.contains_key(k@),
            r is None ==> final(self)@ == old(self)@,
            r is Some ==> *r->0 == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, *final(r->0)),
    { unimplemented!() }
}

//@@ struct crates/ass-editor/sessions/config.rs SessionConfig
//@@ struct crates/ass-editor/sessions/config.rs SessionStats
//@@ struct crates/ass-editor/sessions/session.rs EditorSession "std::time::Instant" "Instant" "HashMap<String, String>" "Strings"
//@@ struct crates/ass-editor/sessions/manager.rs EditorSessionManagerInner "HashMap<String, EditorSession>" "Table" "Arc<ass_core::plugin::ExtensionRegistry>" "Registry"
/// the lock and its sharing are left out: it is exclusive access to one value
pub struct EditorSessionManager { pub inner: EditorSessionManagerInner }

impl EditorSessionManagerInner {
    pub open spec fn wf(&self) -> bool {
        // the count reported is the number that exist, and it is within the limit
        &&& self.stats.active_sessions == self.sessions@.dom().len()
        &&& self.sessions@.dom().len() <= self.config.max_sessions
        // the active session exists
        &&& (self.active_session_id is Some ==> self.sessions@.contains_key(self.active_session_id->0@))
        // no session has been charged any memory
        &&& forall|n: Name| self.sessions@.contains_key(n) ==> (#[trigger] self.sessions@[n]).memory_usage == 0
    }
}
pub open spec fn active(m: EditorSessionManagerInner) -> Option<Name> { if m.active_session_id is Some { Some(m.active_session_id->0@) } else { None } }

impl EditorSession {
//@@ fn crates/ass-editor/sessions/session.rs EditorSession::new
//@re std::time::Instant::now\(\) => now()
//@re HashMap::new\(\) => no_strings()
//@ret r
//@spec
    ensures r.document == document, r.id == id, r.memory_usage == 0, r.operation_count == 0
//@@ end
//@@ fn crates/ass-editor/sessions/session.rs EditorSession::touch
//@re std::time::Instant::now\(\) => now()
//@spec
    ensures final(self).document == old(self).document, final(self).id == old(self).id, final(self).memory_usage == old(self).memory_usage, final(self).operation_count == old(self).operation_count
//@@ end
//@@ fn crates/ass-editor/sessions/session.rs EditorSession::increment_operations
//@spec
    requires old(self).operation_count < usize::MAX
    ensures final(self).document == old(self).document, final(self).id == old(self).id, final(self).memory_usage == old(self).memory_usage, final(self).operation_count == old(self).operation_count + 1
//@@ end
}
impl EditorSessionManagerInner {
//@@ fn crates/ass-editor/sessions/manager.rs EditorSessionManagerInner::new
//@re HashMap::new\(\) => Table::new()
//@ret r
//@spec
    ensures r.wf(), r.config == config, r.sessions@.dom().len() == 0, r.active_session_id is None
//@@ end
}
impl EditorSessionManager {
//@@ fn crates/ass-editor/sessions/lifecycle.rs EditorSessionManager::create_session_with_document
//@re self\.with_inner_mut\(\|inner\| \{ => { let inner = &mut self.inner;
//@re \}\)\s*\}\s*$ => } }
//@re \.contains_key\(&session_id\) => .contains_key(session_id.as_str())
//@ret r
//@spec
    requires old(self).inner.wf()
    ensures
        final(self).inner.wf(), final(self).inner.config == old(self).inner.config,
        // refused exactly when it would be one more than the limit, and then nothing changes
        r is Err <==> !old(self).inner.sessions@.contains_key(session_id@) && old(self).inner.sessions@.dom().len() >= old(self).inner.config.max_sessions,
        r is Err ==> final(self).inner == old(self).inner,
        // that session holds the document, and every other one is as it was
        r is Ok ==> final(self).inner.sessions@.contains_key(session_id@) && final(self).inner.sessions@[session_id@].document == document
            && final(self).inner.sessions@ == old(self).inner.sessions@.insert(session_id@, final(self).inner.sessions@[session_id@]),
        // the first created while there was none becomes the active one
        r is Ok ==> active(final(self).inner) == (if old(self).inner.active_session_id is None { Some(session_id@) } else { active(old(self).inner) }),
//@@ end
//@@ fn crates/ass-editor/sessions/lifecycle.rs EditorSessionManager::switch_session
//@re self\.with_inner_mut\(\|inner\| \{ => { let inner = &mut self.inner;
//@re \}\)\s*\}\s*$ => } }
//@re-all session_id\.to_string\(\) => owned(session_id)
//@ret r
//@spec
    requires old(self).inner.wf()
    ensures
        final(self).inner.wf(), final(self).inner.config == old(self).inner.config,
        r is Ok <==> old(self).inner.sessions@.contains_key(session_id@),
        r is Ok ==> active(final(self).inner) == Some(session_id@),
        r is Err ==> final(self).inner == old(self).inner,
        // no document is touched
        final(self).inner.sessions@.dom() == old(self).inner.sessions@.dom(),
        forall|n: Name| old(self).inner.sessions@.contains_key(n) ==> (#[trigger] final(self).inner.sessions@[n]).document == old(self).inner.sessions@[n].document,
//@@ end
//@@ fn crates/ass-editor/sessions/lifecycle.rs EditorSessionManager::remove_session
//@re self\.with_inner_mut\(\|inner\| \{ => { let inner = &mut self.inner;
//@re \}\)\s*\}\s*$ => } }
//@re inner\s*\.sessions\s*\.remove\(session_id\)\s*\.ok_or_else\(\|\| (EditorError::DocumentNotFound \{[^}]*\})\)\?; => match inner.sessions.remove(session_id) { Some(found) => found, None => return Err(\1), };
//@re inner\.active_session_id\.as_ref\(\) == Some\(&session_id\.to_string\(\)\) => (match &inner.active_session_id { Some(a) => same(a, session_id), None => false })
//@re-all session_id\.to_string\(\) => owned(session_id)
//@ret r
//@spec
    requires old(self).inner.wf()
    ensures
        final(self).inner.wf(), final(self).inner.config == old(self).inner.config,
        r is Ok <==> old(self).inner.sessions@.contains_key(session_id@),
        r is Ok ==> r->Ok_0 == old(self).inner.sessions@[session_id@],
        final(self).inner.sessions@ =~= old(self).inner.sessions@.remove(session_id@),
        active(final(self).inner) == (if active(old(self).inner) == Some(session_id@) { None } else { active(old(self).inner) }),
//@@ end
//@@ fn crates/ass-editor/sessions/access.rs EditorSessionManager::with_document_mut
//@sig-re <F, R> =>
//@sig-re where\s*F: FnOnce\(&mut EditorDocument\) -> Result<R>, =>
//@sig-re Result<R> => Result<Outcome>
//@sig-re f: F => f: Edit
//@re self\.with_inner_mut\(\|inner\| \{ => { let inner = &mut self.inner;
//@re \}\)\s*\}\s*$ => } }
//@re inner\.sessions\.get_mut\(session_id\)\.ok_or_else\(\|\| \{\s*(EditorError::DocumentNotFound \{[^}]*\})\s*\}\)\?; => match inner.sessions.get_mut(session_id) { Some(found) => found, None => return Err(\1), };
//@re f\(&mut session\.document\)\? => f.call(&mut session.document)?
//@re-all session_id\.to_string\(\) => owned(session_id)
//@ret r
//@spec
    requires old(self).inner.wf(), forall|n: Name| old(self).inner.sessions@.contains_key(n) ==> (#[trigger] old(self).inner.sessions@[n]).operation_count < usize::MAX
    ensures
        final(self).inner.wf(), final(self).inner.config == old(self).inner.config,
        active(final(self).inner) == active(old(self).inner),
        !old(self).inner.sessions@.contains_key(session_id@) ==> r is Err && final(self).inner.sessions@ =~= old(self).inner.sessions@,
        // whatever the edit does, it does it to that session's document only
        old(self).inner.sessions@.contains_key(session_id@) ==> final(self).inner.sessions@.contains_key(session_id@)
            && final(self).inner.sessions@ =~= old(self).inner.sessions@.insert(session_id@, final(self).inner.sessions@[session_id@]),
//@@ end
//@@ fn crates/ass-editor/sessions/lifecycle.rs EditorSessionManager::active_session
//@re self\.with_inner\(\|inner\| (.*)\)\) => { let inner = &self.inner; \1 })
//@re inner\.active_session_id\.clone\(\) => name_copy(&inner.active_session_id)
//@ret r
//@spec
    ensures r is Ok, r->Ok_0 is Some == self.inner.active_session_id is Some, r->Ok_0 is Some ==> Some(r->Ok_0->0@) == active(self.inner)
//@@ end
//@@ fn crates/ass-editor/sessions/access.rs EditorSessionManager::stats
//@re self\.with_inner\(\|inner\| (.*)\) => { let inner = &self.inner; \1 }
//@re inner\.stats\.clone\(\) => stats_copy(&inner.stats)
//@ret r
//@spec
    ensures r == self.inner.stats
//@@ end
//@@ fn crates/ass-editor/sessions/access.rs EditorSessionManager::with_document
//@sig-re <F, R> =>
//@sig-re where\s*F: FnOnce\(&EditorDocument\) -> Result<R>, =>
//@sig-re Result<R> => Result<Outcome>
//@sig-re f: F => f: Look
//@re self\.with_inner\(\|inner\| \{ => { let inner = &self.inner;
//@re \}\)\s*\}\s*$ => } }
//@re inner\s*\.sessions\s*\.get\(session_id\)\s*\.ok_or_else\(\|\| (EditorError::DocumentNotFound \{[^}]*\})\)\s*\.and_then\(\|session\| f\(&session\.document\)\) => match inner.sessions.get(session_id) { None => Err(\1), Some(session) => f.call(&session.document) }
//@re-all session_id\.to_string\(\) => owned(session_id)
//@ret r
//@spec
    ensures
        !self.inner.sessions@.contains_key(session_id@) ==> r is Err,
        // it is shown that session's document
        self.inner.sessions@.contains_key(session_id@) ==> r == f.seen(self.inner.sessions@[session_id@].document),
//@@ end
//@@ fn crates/ass-editor/sessions/access.rs EditorSessionManager::reset_shared_arena
//@re self\.with_inner_mut\(\|inner\| \{ => { let inner = &mut self.inner;
//@re \}\);\s*\}\s*$ => } }
//@spec
    requires old(self).inner.wf(), old(self).inner.stats.arena_resets < usize::MAX
    ensures final(self).inner.wf(), final(self).inner.sessions == old(self).inner.sessions, final(self).inner.active_session_id == old(self).inner.active_session_id
//@@ end
}
fn main() {}
}
