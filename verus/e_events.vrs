use vstd::prelude::*;
use vstd::string::*;
verus! {
// ---- trusted: strings, the clock, the lock, and what a handler does with an event ---------------------
#[verifier::external_body]
pub fn owned(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
pub fn copy_of(s: &String) -> (r: String) ensures r@ == s@ { s.clone() }
/// `list.contains(&s)`
pub fn in_list(list: &Vec<String>, s: &String) -> (r: bool)
    ensures r == names(*list, s@)
{
    let mut i = 0;
    while i < list.len()
        invariant i <= list@.len(), forall|k: int| 0 <= k < i ==> list@[k]@ != s@
        decreases list@.len() - i
    {
        if same(&list[i], s) { assert(list@[i as int]@ == s@); return true; }
        i += 1;
    }
    false
}
#[verifier::external_body]
pub fn same(a: &String, b: &String) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body]
pub struct Instant { x: u8 }
#[verifier::external_body]
pub fn now() -> Instant { unimplemented!() }
/// microseconds since then: a process does not run for 2^62 of them
#[verifier::external_body]
pub fn micros_since(t: &Instant) -> (r: u64) ensures r < 0x4000_0000_0000_0000 { unimplemented!() }
#[verifier::external_body]
pub fn limit_message(n: usize) -> (r: EditorError) { unimplemented!() }
pub enum EditorError { CommandFailed { message: String }, ThreadSafetyError { message: String }, FeatureNotEnabled { feature: String, required_feature: String } }
pub type Result<T> = core::result::Result<T, EditorError>;
pub struct Position { pub offset: usize }
pub struct Range { pub start: Position, pub end: Position }
#[verifier::external_body]
pub struct Data { x: u8 }

//@@ struct crates/ass-editor/events/event.rs DocumentEvent "HashMap<String, String>" "Data"
//@@ struct crates/ass-editor/events/filter.rs EventFilter pubfields
//@@ struct crates/ass-editor/events/handler.rs EventStats
//@@ struct crates/ass-editor/events/handler.rs EventChannelConfig
//@@ struct crates/ass-editor/events/channel.rs HandlerInfo "Box<dyn EventHandler>" "Handler"
//@@ struct crates/ass-editor/events/channel.rs EventChannel "Arc<RwLock<Vec<HandlerInfo>>>" "Vec<HandlerInfo>" "mpsc::UnboundedSender<DocumentEvent>" "Sender"

/// any implementation of the handler trait: all that is known of it is what it was given, in order
#[verifier::external_body]
pub struct Handler { x: u8 }
impl Handler {
    /// the events it was asked to handle so far
    pub uninterp spec fn given(&self) -> Seq<DocumentEvent>;
    pub uninterp spec fn wants(&self) -> EventFilter;
    pub uninterp spec fn prio(&self) -> i32;
    #[verifier::external_body]
    pub fn handle_event(&mut self, event: &DocumentEvent) -> (r: Result<()>)
        ensures final(self).given() == old(self).given().push(*event)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn event_filter(&self) -> (r: EventFilter) ensures r == self.wants() { unimplemented!() }
    #[verifier::external_body]
    pub fn priority(&self) -> (r: i32) ensures r == self.prio() { unimplemented!() }
}
#[verifier::external_body]
pub struct Sender { x: u8 }

// ---- what a filter accepts ----------------------------------------------------------------------------
pub open spec fn names(list: Vec<String>, t: Seq<char>) -> bool { exists|k: int| 0 <= k < list@.len() && #[trigger] list@[k]@ == t }
pub open spec fn type_of(e: DocumentEvent) -> Seq<char> {
    match e {
        DocumentEvent::TextInserted { .. } => "TextInserted"@, DocumentEvent::TextDeleted { .. } => "TextDeleted"@,
        DocumentEvent::TextReplaced { .. } => "TextReplaced"@, DocumentEvent::SelectionChanged { .. } => "SelectionChanged"@,
        DocumentEvent::CursorMoved { .. } => "CursorMoved"@, DocumentEvent::DocumentSaved { .. } => "DocumentSaved"@,
        DocumentEvent::DocumentLoaded { .. } => "DocumentLoaded"@, DocumentEvent::UndoPerformed { .. } => "UndoPerformed"@,
        DocumentEvent::RedoPerformed { .. } => "RedoPerformed"@, DocumentEvent::ValidationCompleted { .. } => "ValidationCompleted"@,
        DocumentEvent::SearchCompleted { .. } => "SearchCompleted"@, DocumentEvent::ParsingCompleted { .. } => "ParsingCompleted"@,
        DocumentEvent::ExtensionChanged { .. } => "ExtensionChanged"@, DocumentEvent::ConfigChanged { .. } => "ConfigChanged"@,
        DocumentEvent::CustomEvent { event_type, .. } => event_type@,
    }
}
/// it changes the text
pub open spec fn modifies(e: DocumentEvent) -> bool {
    e is TextInserted || e is TextDeleted || e is TextReplaced || e is UndoPerformed || e is RedoPerformed
}
pub open spec fn of_cursor(e: DocumentEvent) -> bool { e is CursorMoved || e is SelectionChanged }
pub open spec fn accepts(f: EventFilter, e: DocumentEvent) -> bool {
    !names(f.exclude_types, type_of(e))
    && (f.include_types@.len() == 0 || names(f.include_types, type_of(e)))
    && (f.include_modifications is Some ==> f.include_modifications->0 == modifies(e))
    && (f.include_cursor_events is Some ==> f.include_cursor_events->0 == of_cursor(e))
}

impl DocumentEvent {
//@@ fn crates/ass-editor/events/event_query.rs DocumentEvent::event_type_name
//@re-all ("\w+")\.to_string\(\) => owned(\1)
//@re event_type\.clone\(\) => copy_of(event_type)
//@ret r
//@spec
    ensures r@ == type_of(*self)
//@@ end
//@@ fn crates/ass-editor/events/event_query.rs DocumentEvent::is_modification
//@ret r
//@spec
    ensures r == modifies(*self)
//@@ end
}
impl EventFilter {
//@@ fn crates/ass-editor/events/filter.rs EventFilter::new
//@ret r
//@spec
    ensures forall|e: DocumentEvent| accepts(r, e)
//@@ end
//@@ fn crates/ass-editor/events/filter.rs EventFilter::matches
//@re self\.exclude_types\.contains\(&event_type\) => in_list(&self.exclude_types, &event_type)
//@re self\.include_types\.contains\(&event_type\) => in_list(&self.include_types, &event_type)
//@re self\.include_types\.is_empty\(\) => (self.include_types.len() == 0)
//@ret r
//@spec
    ensures r == accepts(*self, *event)
//@@ end
}
// ---- the channel ---------------------------------------------------------------------------------------
/// registered once each under ids already given out, in descending priority, in order of registration within one
pub open spec fn ordered(h: Seq<HandlerInfo>) -> bool {
    forall|i: int, j: int| 0 <= i < j < h.len() ==> #[trigger] h[i].priority >= #[trigger] h[j].priority
        && (h[i].priority == h[j].priority ==> h[i].id < h[j].id)
}
pub open spec fn fresh(h: Seq<HandlerInfo>, next: usize) -> bool { forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i]).id < next }
pub open spec fn distinct(h: Seq<HandlerInfo>) -> bool { forall|i: int, j: int| 0 <= i < j < h.len() ==> (#[trigger] h[i]).id != (#[trigger] h[j]).id }
impl EventChannel {
    pub open spec fn wf(&self) -> bool {
        &&& ordered(self.handlers@) && fresh(self.handlers@, self.next_handler_id) && distinct(self.handlers@)
        &&& self.stats.handlers_count == self.handlers@.len()
        &&& self.handlers@.len() <= self.config.max_handlers
        &&& self.stats.avg_processing_time_us < 0x4000_0000_0000_0000
    }
}
/// a stable sort by descending priority: every entry once, greater priority first, equal ones in the order they had
pub open spec fn sorted_from(a: Seq<HandlerInfo>, b: Seq<HandlerInfo>, m: Seq<int>) -> bool {
    &&& b.len() == a.len() && m.len() == a.len()
    &&& forall|i: int| 0 <= i < m.len() ==> 0 <= #[trigger] m[i] < a.len() && b[i] == a[m[i]]
    &&& forall|i: int, j: int| 0 <= i < j < m.len() ==> #[trigger] m[i] != #[trigger] m[j] && b[i].priority >= b[j].priority && (b[i].priority == b[j].priority ==> m[i] < m[j])
    &&& forall|k: int| 0 <= k < a.len() ==> b.contains(#[trigger] a[k])
}
/// `sort_by_key(|h| Reverse(key))` of the standard library, which is stable; the key is checked to be the priority
#[verifier::external_body]
pub fn sort_desc(v: &mut Vec<HandlerInfo>)
    ensures exists|m: Seq<int>| sorted_from(old(v)@, final(v)@, m)
{ unimplemented!() }
/// what the handlers are after an event: those that accept it have been given it once more, the others nothing
pub open spec fn same_entry(a: HandlerInfo, b: HandlerInfo) -> bool { a.id == b.id && a.priority == b.priority && a.filter == b.filter }
pub open spec fn served(a: HandlerInfo, b: HandlerInfo, e: DocumentEvent) -> bool {
    same_entry(a, b) && (if accepts(a.filter, e) { b.handler.given() == a.handler.given().push(e) && b.events_processed == a.events_processed + 1 } else { b == a })
}
pub open spec fn refusing(h: Seq<HandlerInfo>, e: DocumentEvent) -> nat decreases h.len() {
    if h.len() == 0 { 0 } else { refusing(h.drop_last(), e) + (if accepts(h.last().filter, e) { 0nat } else { 1nat }) }
}
proof fn refusing_bound(h: Seq<HandlerInfo>, e: DocumentEvent) ensures refusing(h, e) <= h.len() decreases h.len()
{ if h.len() > 0 { refusing_bound(h.drop_last(), e); } }
/// the events of a list a filter accepts, in order
pub open spec fn taken(f: EventFilter, es: Seq<DocumentEvent>) -> Seq<DocumentEvent> decreases es.len() {
    if es.len() == 0 { Seq::empty() } else { let t = taken(f, es.drop_last()); if accepts(f, es.last()) { t.push(es.last()) } else { t } }
}
pub open spec fn all_served(a: HandlerInfo, b: HandlerInfo, es: Seq<DocumentEvent>) -> bool {
    same_entry(a, b) && b.handler.given() == a.handler.given() + taken(a.filter, es) && b.events_processed == a.events_processed + taken(a.filter, es).len()
}
proof fn taken_bound(f: EventFilter, es: Seq<DocumentEvent>) ensures taken(f, es).len() <= es.len() decreases es.len()
{ if es.len() > 0 { taken_bound(f, es.drop_last()); } }
/// the n-th value of a list that is being consumed in order
#[verifier::external_body]
pub fn nth(v: &Vec<DocumentEvent>, n: usize) -> (r: DocumentEvent) requires n < v@.len() ensures r == v@[n as int] { unimplemented!() }

impl EventChannel {
//@@ fn crates/ass-editor/events/channel.rs EventChannel::with_config
//@re Arc::new\(RwLock::new\(Vec::new\(\)\)\) => Vec::new()
//@ret r
//@spec
    ensures r.wf(), r.handlers@.len() == 0, r.config == config, r.stats.events_dispatched == 0, r.stats.events_filtered == 0
//@@ end
//@@ fn crates/ass-editor/events/registry.rs EventChannel::register_handler
//@sig-re Box<dyn EventHandler> => Handler
//@re let mut handlers =\s*self\s*\.handlers\s*\.write\(\)[^;]*; => let handlers = &mut self.handlers;
//@re crate::core::EditorError::CommandFailed \{[^}]*\{\}[^}]*\} => limit_message(0)
//@re handlers\.sort_by_key\(\|h\| core::cmp::Reverse\(h\.priority\)\); => sort_desc(handlers);
//@ret r
//@spec
    requires old(self).wf(), old(self).next_handler_id < usize::MAX
    ensures
        final(self).wf(), final(self).config == old(self).config,
        final(self).stats.events_dispatched == old(self).stats.events_dispatched, final(self).stats.events_filtered == old(self).stats.events_filtered,
        // the limit decides, and a refusal changes no handler
        r is Ok <==> old(self).handlers@.len() < old(self).config.max_handlers,
        r is Err ==> final(self).handlers@ == old(self).handlers@,
        // the identifier is one never given before and never given again
        r is Ok ==> fresh(old(self).handlers@, r->Ok_0) && r->Ok_0 == old(self).next_handler_id,
        final(self).next_handler_id == old(self).next_handler_id + 1,
        // exactly the handlers there were, and the new one under its own filter and priority
        r is Ok ==> final(self).handlers@.len() == old(self).handlers@.len() + 1
            && (forall|i: int| 0 <= i < old(self).handlers@.len() ==> final(self).handlers@.contains(#[trigger] old(self).handlers@[i]))
            && exists|k: int| 0 <= k < final(self).handlers@.len() && (#[trigger] final(self).handlers@[k]).id == r->Ok_0
                && final(self).handlers@[k].handler == handler && final(self).handlers@[k].filter == handler.wants() && final(self).handlers@[k].priority == handler.prio(),
//@before "sort_desc(handlers);"
            let ghost before = handlers@;
            proof { assert(before.len() == old(self).handlers@.len() + 1); assert(before == old(self).handlers@.push(handler_info)); }
//@after "sort_desc(handlers);"
            proof {
                let m = choose|m: Seq<int>| sorted_from(before, handlers@, m);
                let h = handlers@;
                assert forall|i: int, j: int| 0 <= i < j < h.len() implies #[trigger] h[i].priority >= #[trigger] h[j].priority
                    && (h[i].priority == h[j].priority ==> h[i].id < h[j].id) && h[i].id != h[j].id by { assert(m[i] != m[j]); assert(h[i] == before[m[i]]); assert(h[j] == before[m[j]]); }
                assert forall|i: int| 0 <= i < h.len() implies (#[trigger] h[i]).id < self.next_handler_id by { assert(h[i] == before[m[i]]); }
                assert forall|i: int| 0 <= i < old(self).handlers@.len() implies h.contains(#[trigger] old(self).handlers@[i]) by { assert(before[i] == old(self).handlers@[i]); assert(h.contains(before[i])); }
                assert forall|i: int, j: int| 0 <= i < j < h.len() implies (#[trigger] h[i]).id != (#[trigger] h[j]).id by { assert(m[i] != m[j]); assert(h[i] == before[m[i]]); assert(h[j] == before[m[j]]); }
                assert(ordered(h)); assert(fresh(h, self.next_handler_id)); assert(distinct(h));
                assert(h.contains(before[before.len() - 1]));
                let k = choose|k: int| 0 <= k < h.len() && h[k] == before[before.len() - 1];
                assert(h[k].id == handler_id && h[k].handler == handler);
            }
//@@ end
//@@ fn crates/ass-editor/events/registry.rs EventChannel::unregister_handler
//@re let mut handlers =\s*self\s*\.handlers\s*\.write\(\)[^;]*; => let handlers = &mut self.handlers;
//@re handlers\.iter\(\)\.position\(\|h\| (.*?)\) \{ => { let mut found_: Option<usize> = None; let mut i_: usize = 0; while i_ < handlers.len() { let h = &handlers[i_]; if \1 { found_ = Some(i_); break; } i_ += 1; } found_ } {
//@ret r
//@spec
    requires old(self).wf()
    ensures
        final(self).wf(), r is Ok, final(self).config == old(self).config, final(self).next_handler_id == old(self).next_handler_id,
        final(self).stats.events_dispatched == old(self).stats.events_dispatched, final(self).stats.events_filtered == old(self).stats.events_filtered,
        // it says whether there was such a handler, and only that one goes
        r->Ok_0 == (exists|k: int| 0 <= k < old(self).handlers@.len() && (#[trigger] old(self).handlers@[k]).id == handler_id),
        !r->Ok_0 ==> final(self).handlers@ == old(self).handlers@,
        r->Ok_0 ==> exists|k: int| 0 <= k < old(self).handlers@.len() && (#[trigger] old(self).handlers@[k]).id == handler_id && final(self).handlers@ == old(self).handlers@.remove(k),
//@loop 0
    invariant_except_break
        forall|k: int| 0 <= k < i_ ==> (#[trigger] handlers@[k]).id != handler_id, found_ is None,
    invariant
        i_ <= handlers@.len(),
        handlers@ == old(self).handlers@,
    ensures
        found_ is Some ==> found_->0 < handlers@.len() && handlers@[found_->0 as int].id == handler_id,
        found_ is None ==> forall|k: int| 0 <= k < handlers@.len() ==> (#[trigger] handlers@[k]).id != handler_id,
    decreases handlers@.len() - i_
//@after "handlers.remove(pos)"
            proof {
                assert(handlers@ == old(self).handlers@.remove(pos as int));
            }
//@@ end
//@@ fn crates/ass-editor/events/channel.rs EventChannel::clear_handlers
//@re let mut handlers =\s*self\s*\.handlers\s*\.write\(\)[^;]*; => let handlers = &mut self.handlers;
//@ret r
//@spec
    requires old(self).wf()
    ensures r is Ok, final(self).wf(), final(self).handlers@.len() == 0, final(self).next_handler_id == old(self).next_handler_id, final(self).config == old(self).config,
        final(self).stats.events_dispatched == old(self).stats.events_dispatched, final(self).stats.events_filtered == old(self).stats.events_filtered
//@@ end
#[verifier::loop_isolation(false)]
//@@ fn crates/ass-editor/events/dispatch.rs EventChannel::dispatch
//@re std::time::Instant::now\(\) => now()
//@re let mut handlers =\s*self\s*\.handlers\s*\.write\(\)[^;]*; => let handlers = &mut self.handlers;
//@re for handler_info in handlers\.iter_mut\(\) \{ => let mut k_: usize = 0; while k_ < handlers.len() { let handler_info = &mut handlers[k_]; k_ += 1;
//@re start_time\.elapsed\(\)\.as_micros\(\) as u64 => micros_since(&start_time)
//@re eprintln!\([^;]*\); => let _ = processed_count;
//@re let mut processed_count = 0; => let mut processed_count: usize = 0;
//@re let mut filtered_count = 0; => let mut filtered_count: usize = 0;
//@ret r
//@spec
    requires
        old(self).wf(), old(self).stats.events_dispatched < usize::MAX, old(self).stats.events_filtered + old(self).handlers@.len() < usize::MAX,
        forall|k: int| 0 <= k < old(self).handlers@.len() ==> (#[trigger] old(self).handlers@[k]).events_processed < usize::MAX,
    ensures
        final(self).wf(), final(self).config == old(self).config, final(self).next_handler_id == old(self).next_handler_id,
        final(self).handlers@.len() == old(self).handlers@.len(),
        final(self).stats.events_dispatched == old(self).stats.events_dispatched + 1,
        // every handler whose filter accepts it, and no other, is given the event, once
        r is Ok ==> forall|k: int| 0 <= k < old(self).handlers@.len() ==> served(#[trigger] old(self).handlers@[k], final(self).handlers@[k], event),
        r is Ok ==> final(self).stats.events_filtered == old(self).stats.events_filtered + refusing(old(self).handlers@, event),
        // a handler that fails stops it: those before it have been served, those after it given nothing
        r is Err ==> exists|f: int| 0 <= f < old(self).handlers@.len() && #[trigger] accepts(old(self).handlers@[f].filter, event)
            && (forall|k: int| 0 <= k < f ==> served(#[trigger] old(self).handlers@[k], final(self).handlers@[k], event))
            && (forall|k: int| f < k < old(self).handlers@.len() ==> final(self).handlers@[k] == #[trigger] old(self).handlers@[k]),
//@loop 0
    invariant
        k_ <= handlers@.len(), handlers@.len() == old(self).handlers@.len(), filtered_count <= k_, processed_count <= k_,
        ordered(handlers@), distinct(handlers@), fresh(handlers@, old(self).next_handler_id),
        forall|k: int| 0 <= k < k_ ==> served(#[trigger] old(self).handlers@[k], handlers@[k], event),
        forall|k: int| k_ <= k < handlers@.len() ==> handlers@[k] == #[trigger] old(self).handlers@[k],
        filtered_count == refusing(old(self).handlers@.take(k_ as int), event),
        forall|k: int| 0 <= k < old(self).handlers@.len() ==> (#[trigger] old(self).handlers@[k]).events_processed < usize::MAX,
    decreases handlers@.len() - k_
//@loopstart 0
    proof { assert(old(self).handlers@[k_ as int].events_processed < usize::MAX); assert(old(self).handlers@.take(k_ + 1).drop_last() =~= old(self).handlers@.take(k_ as int)); }
//@after "self.stats.events_filtered"
        proof { assert(old(self).handlers@.take(old(self).handlers@.len() as int) =~= old(self).handlers@); }
//@@ end
//@@ fn crates/ass-editor/events/dispatch.rs EventChannel::dispatch_batch
//@re-all for event in events \{ => let ghost es_ = events@; let mut n_: usize = 0; while n_ < events.len() { let event = nth(&events, n_); n_ += 1;
//@ret r
//@spec
    requires
        old(self).wf(), old(self).stats.events_dispatched + events@.len() < usize::MAX,
        old(self).stats.events_filtered + (events@.len() + 1) * (old(self).handlers@.len() + 1) < usize::MAX,
        forall|k: int| 0 <= k < old(self).handlers@.len() ==> (#[trigger] old(self).handlers@[k]).events_processed + events@.len() < usize::MAX,
    ensures
        final(self).wf(), final(self).handlers@.len() == old(self).handlers@.len(),
        // each handler is given the events it accepts, all of them, in their order
        r is Ok ==> forall|k: int| 0 <= k < old(self).handlers@.len() ==> all_served(#[trigger] old(self).handlers@[k], final(self).handlers@[k], events@),
        r is Ok ==> final(self).stats.events_dispatched == old(self).stats.events_dispatched + events@.len(),
//@start
    proof {
        assert forall|k: int| 0 <= k < self.handlers@.len() implies all_served(#[trigger] old(self).handlers@[k], self.handlers@[k], events@.take(0)) by {
            assert(events@.take(0) =~= Seq::empty());
            assert(self.handlers@[k].handler.given() =~= old(self).handlers@[k].handler.given() + taken(old(self).handlers@[k].filter, events@.take(0))); }
        assert(events@.take(events@.len() as int) =~= events@);
    }
//@loop 0
    invariant
        es_ == events@, n_ <= es_.len(), self.wf(), self.config == old(self).config, self.next_handler_id == old(self).next_handler_id,
        self.handlers@.len() == old(self).handlers@.len(), self.stats.events_dispatched == old(self).stats.events_dispatched + n_,
        self.stats.events_filtered <= old(self).stats.events_filtered + n_ * self.handlers@.len(),
        old(self).stats.events_filtered + (events@.len() + 1) * (old(self).handlers@.len() + 1) < usize::MAX,
        old(self).stats.events_dispatched + events@.len() < usize::MAX,
        forall|k: int| 0 <= k < self.handlers@.len() ==> (#[trigger] old(self).handlers@[k]).events_processed + events@.len() < usize::MAX,
        forall|k: int| 0 <= k < self.handlers@.len() ==> all_served(#[trigger] old(self).handlers@[k], self.handlers@[k], es_.take(n_ as int)),
    decreases es_.len() - n_
//@loopstart 0
    let ghost h0 = self.handlers@; let ghost s0 = self.stats;
    proof {
        assert(n_ * self.handlers@.len() + self.handlers@.len() == (n_ + 1) * self.handlers@.len()) by (nonlinear_arith);
        assert((n_ + 1) * self.handlers@.len() <= events@.len() * self.handlers@.len()) by (nonlinear_arith) requires n_ + 1 <= events@.len();
        assert((events@.len() + 1) * (self.handlers@.len() + 1) >= events@.len() * self.handlers@.len()) by (nonlinear_arith);
        assert forall|k: int| 0 <= k < self.handlers@.len() implies (#[trigger] self.handlers@[k]).events_processed < usize::MAX by { taken_bound(old(self).handlers@[k].filter, es_.take(n_ as int)); assert(all_served(old(self).handlers@[k], self.handlers@[k], es_.take(n_ as int))); }
    }
//@loopend 0
    proof {
        refusing_bound(h0, es_[n_ - 1]);
        assert forall|k: int| 0 <= k < self.handlers@.len() implies all_served(#[trigger] old(self).handlers@[k], self.handlers@[k], es_.take(n_ as int)) by {
            assert(served(h0[k], self.handlers@[k], es_[n_ - 1]));
            assert(all_served(old(self).handlers@[k], h0[k], es_.take(n_ - 1)));
            assert(es_.take(n_ as int).drop_last() =~= es_.take(n_ - 1));
            assert(es_.take(n_ as int).last() == es_[n_ - 1]);
            assert(self.handlers@[k].handler.given() =~= old(self).handlers@[k].handler.given() + taken(old(self).handlers@[k].filter, es_.take(n_ as int)));
        }
    }
//@loop 1
    invariant
        es_ == events@, n_ <= es_.len(), self.wf(), self.config == old(self).config, self.next_handler_id == old(self).next_handler_id,
        self.handlers@.len() == old(self).handlers@.len(), self.stats.events_dispatched == old(self).stats.events_dispatched + n_,
        self.stats.events_filtered <= old(self).stats.events_filtered + n_ * self.handlers@.len(),
        old(self).stats.events_filtered + (events@.len() + 1) * (old(self).handlers@.len() + 1) < usize::MAX,
        old(self).stats.events_dispatched + events@.len() < usize::MAX,
        forall|k: int| 0 <= k < self.handlers@.len() ==> (#[trigger] old(self).handlers@[k]).events_processed + events@.len() < usize::MAX,
        forall|k: int| 0 <= k < self.handlers@.len() ==> all_served(#[trigger] old(self).handlers@[k], self.handlers@[k], es_.take(n_ as int)),
    decreases es_.len() - n_
//@loopstart 1
    let ghost h0 = self.handlers@; let ghost s0 = self.stats;
    proof {
        assert(n_ * self.handlers@.len() + self.handlers@.len() == (n_ + 1) * self.handlers@.len()) by (nonlinear_arith);
        assert((n_ + 1) * self.handlers@.len() <= events@.len() * self.handlers@.len()) by (nonlinear_arith) requires n_ + 1 <= events@.len();
        assert((events@.len() + 1) * (self.handlers@.len() + 1) >= events@.len() * self.handlers@.len()) by (nonlinear_arith);
        assert forall|k: int| 0 <= k < self.handlers@.len() implies (#[trigger] self.handlers@[k]).events_processed < usize::MAX by { taken_bound(old(self).handlers@[k].filter, es_.take(n_ as int)); assert(all_served(old(self).handlers@[k], self.handlers@[k], es_.take(n_ as int))); }
    }
//@loopend 1
    proof {
        refusing_bound(h0, es_[n_ - 1]);
        assert forall|k: int| 0 <= k < self.handlers@.len() implies all_served(#[trigger] old(self).handlers@[k], self.handlers@[k], es_.take(n_ as int)) by {
            assert(served(h0[k], self.handlers@[k], es_[n_ - 1]));
            assert(all_served(old(self).handlers@[k], h0[k], es_.take(n_ - 1)));
            assert(es_.take(n_ as int).drop_last() =~= es_.take(n_ - 1));
            assert(es_.take(n_ as int).last() == es_[n_ - 1]);
            assert(self.handlers@[k].handler.given() =~= old(self).handlers@[k].handler.given() + taken(old(self).handlers@[k].filter, es_.take(n_ as int)));
        }
    }
//@@ end
}
fn main() {}
}
