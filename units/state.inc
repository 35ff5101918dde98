// ---- the state of the server -----------------------------------------------------
/// `HashSet<TtlValue<u32>>`: values are identified by the id only (unit ttl), so a
/// set of them is a map from ids
#[verifier::external_body]
pub struct TtlSet { _p: () }
pub type Lives = Map<u32, TtlValue<u32>>;
impl TtlSet {
    pub uninterp spec fn view(&self) -> Lives;
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Lives::empty() { unimplemented!() }
    /// `HashSet::replace`
    #[verifier::external_body]
    pub fn replace(&mut self, v: TtlValue<u32>) -> (r: Option<TtlValue<u32>>)
        ensures final(self)@ == old(self)@.insert(v.value, v)
    { unimplemented!() }
    /// `HashSet::insert`: what is there already stays
    #[verifier::external_body]
    pub fn insert(&mut self, v: TtlValue<u32>) -> (r: bool)
        ensures
            r == !old(self)@.contains_key(v.value),
            final(self)@ == if old(self)@.contains_key(v.value) { old(self)@ } else { old(self)@.insert(v.value, v) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, v: &TtlValue<u32>) -> (r: bool)
        ensures
            r == old(self)@.contains_key(v.value),
            final(self)@ == old(self)@.remove(v.value),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, v: &TtlValue<u32>) -> (r: bool) ensures r == self@.contains_key(v.value) { unimplemented!() }
}
/// what is left to go through
#[verifier::external_body]
pub struct TtlRest { _p: () }
impl TtlRest {
    pub uninterp spec fn view(&self) -> Lives;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
}
#[verifier::external_body]
pub fn take_all(s: &mut TtlSet) -> (r: TtlRest) ensures final(s)@ == Lives::empty(), r@ == old(s)@ { unimplemented!() }
#[verifier::external_body]
pub fn next_of(s: &mut TtlRest) -> (r: TtlValue<u32>)
    requires old(s)@.dom().len() > 0
    ensures old(s)@.contains_key(r.value), r == old(s)@[r.value], final(s)@ == old(s)@.remove(r.value)
{ unimplemented!() }
/// a boxed error of the application's own
#[verifier::external_body]
pub struct BoxError { _p: () }
/// a call of the application's handler for custom requests
pub uninterp spec fn custom_did(args: request::CustomArgs, r: Result<reply::CustomArgs, BoxError>) -> bool;
#[verifier::external_body]
pub struct CustomHandler { _p: () }
impl Clone for CustomHandler {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl CustomHandler {
    #[verifier::external_body]
    pub fn invoke(&self, args: request::CustomArgs) -> (r: Result<reply::CustomArgs, BoxError>)
        ensures custom_did(args, r)
    { unimplemented!() }
}
/// the server was told to stop
pub uninterp spec fn told_to_stop() -> bool;
#[verifier::external_body]
pub struct AtomicBool { _p: () }
pub enum Ordering { Relaxed, SeqCst, Acquire, Release }
impl AtomicBool {
    #[verifier::external_body]
    pub fn new(b: bool) -> Self { unimplemented!() }
    /// false once it was set to false, and no sooner
    #[verifier::external_body]
    pub fn load(&self, o: Ordering) -> (r: bool) ensures !r ==> told_to_stop() { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, b: bool, o: Ordering) ensures !b ==> told_to_stop() { unimplemented!() }
}
/// `HashMap<SocketAddr, Instant>`
#[verifier::external_body]
pub struct Conns { _p: () }
impl Conns {
    #[verifier::external_body]
    pub fn default() -> Self { unimplemented!() }
}
pub open spec fn expired_then(v: TtlValue<u32>) -> bool { exists|now: Instant| #[trigger] clock_reads(now) && expired_at(v, now) }
pub open spec fn alive_then(v: TtlValue<u32>) -> bool { exists|now: Instant| #[trigger] clock_reads(now) && !expired_at(v, now) }
//@ shared ServerState
//@ presubst HashMap<SocketAddr, Instant> => Conns
//@ presubst HashSet<TtlValue<u32>> => TtlSet
//@ presubst HashSet::default() => TtlSet::default()
//@ presubst conns: Mutex::new(HashMap::default()) => conns: Mutex::new(Conns::default())
//@ presubst procs: Mutex::new(HashMap::default()) => procs: Mutex::new(HashMap::new())
//@ presubst FileSystemManager::default() => FileSystemManager::new()
//@ keep
//@ src src/core/server/state.rs
//@ item ServerState
/// all the parts but the named ones are as they were
impl ServerState {
    pub open spec fn config_same(&self, o: &Self) -> bool {
        self.file_ttl == o.file_ttl && self.proc_ttl == o.proc_ttl && self.dead_proc_ttl == o.dead_proc_ttl
            && self.custom_handler == o.custom_handler
    }
    pub open spec fn files_same(&self, o: &Self) -> bool { self.fs_manager == o.fs_manager && self.file_ids == o.file_ids }
    pub open spec fn procs_same(&self, o: &Self) -> bool { self.procs == o.procs && self.proc_ids == o.proc_ids }
    pub open spec fn files(&self) -> Files { self.fs_manager@ }
    /// what holds whenever no operation is under way
    pub open spec fn wf(&self) -> bool {
        &&& filed(self.fs_manager@)
        &&& forall|k: u32| #[trigger] self.procs@.contains_key(k) ==> self.procs@[k].wf() && self.procs@[k].id == k
    }
}
/// `id` counts as used just now, with this lifetime; the others as before
pub open spec fn touched(a: Lives, b: Lives, id: u32, ttl: Duration) -> bool {
    b =~= a.insert(id, b[id]) && b[id].value == id && b[id].spec_ttl() == ttl && clock_reads(b[id].spec_touched())
}
/// the ids tracked afterwards are those whose lifetime had not passed
pub open spec fn evicted(a: Lives, b: Lives) -> bool {
    &&& forall|k: u32| #[trigger] b.contains_key(k) ==> a.contains_key(k) && b[k] == a[k] && alive_then(a[k])
    &&& forall|k: u32| #[trigger] a.contains_key(k) && !b.contains_key(k) ==> expired_then(a[k])
}
pub open spec fn minus<V>(m: Map<u32, V>, a: Lives, b: Lives) -> Map<u32, V> { m.remove_keys(a.dom().difference(b.dom())) }
pub open spec fn files_evicted(s: ServerState, t: ServerState) -> bool {
    &&& evicted(s.file_ids@, t.file_ids@)
    &&& t.fs_manager@ == minus(s.fs_manager@, s.file_ids@, t.file_ids@)
}
pub open spec fn procs_evicted(s: ServerState, t: ServerState) -> bool {
    &&& evicted(s.proc_ids@, t.proc_ids@)
    &&& t.procs@ == minus(s.procs@, s.proc_ids@, t.proc_ids@)
    &&& forall|k: u32| #[trigger] s.procs@.contains_key(k) && !t.procs@.contains_key(k) ==> was_killed(s.procs@[k])
}
pub open spec fn was_killed(p: LocalProc) -> bool { exists|r: io::Result<()>| #[trigger] killed(p.inner.no(), r) }
//@ impl ServerState
//@ fn new
//@ ret r
    ensures
        r.wf(), // [C11]
        r.files() == Files::empty() && r.procs@ == Map::<u32, LocalProc>::empty(), // [C11]
        r.file_ids@ == Lives::empty() && r.proc_ids@ == Lives::empty(), // [C11]
        r.file_ttl == file_ttl && r.proc_ttl == proc_ttl && r.dead_proc_ttl == dead_proc_ttl, // [C11]
        r.custom_handler is None, // [C12]
//@ end
//@ fn touch_file_id
    ensures
        final(self).config_same(old(self)) && final(self).procs_same(old(self)) && final(self).fs_manager == old(self).fs_manager, // [C11]
        touched(old(self).file_ids@, final(self).file_ids@, id, old(self).file_ttl), // [C11]
//@ end
//@ fn touch_file_id_with_ttl
    ensures
        final(self).config_same(old(self)) && final(self).procs_same(old(self)) && final(self).fs_manager == old(self).fs_manager, // [C11]
        touched(old(self).file_ids@, final(self).file_ids@, id, ttl), // [C11]
//@ end
//@ fn remove_file_id
    ensures
        final(self).config_same(old(self)) && final(self).procs_same(old(self)) && final(self).fs_manager == old(self).fs_manager, // [C11]
        final(self).file_ids@ == old(self).file_ids@.remove(id), // [C11]
//@ end
//@ fn evict_files
    requires old(self).wf(),
    ensures
        final(self).config_same(old(self)) && final(self).procs_same(old(self)), // [C11]
        files_evicted(*old(self), *final(self)), // [C11]
        final(self).wf(), // [C11]
//@ closure 0 (__r: LocalFileHandle)
    ensures __r == f.spec_handle()
//@ loop 0 before
    let ghost ids = __old@;
    let ghost files = fsm@;
    proof { assert(files =~= files.remove_keys(ids.dom().difference(ids.dom()))); }
//@ loop 0
    invariant
        filed(fsm@),
        forall|k: u32| #[trigger] __old@.contains_key(k) ==> ids.contains_key(k) && __old@[k] == ids[k] && !__set@.contains_key(k),
        forall|k: u32| #[trigger] __set@.contains_key(k) ==> ids.contains_key(k) && __set@[k] == ids[k] && alive_then(ids[k]), // [C11]
        forall|k: u32| #[trigger] ids.contains_key(k) && !__old@.contains_key(k) && !__set@.contains_key(k) ==> expired_then(ids[k]), // [C11]
        forall|k: u32| #[trigger] fsm@.contains_key(k) ==> files.contains_key(k) && fsm@[k] == files[k], // [C11]
        forall|k: u32| #[trigger] files.contains_key(k) ==> fsm@.contains_key(k) == !(ids.contains_key(k) && !__old@.contains_key(k) && !__set@.contains_key(k)), // [C11]
    decreases __old@.dom().len()
//@ loop 0 after
    proof { assert(fsm@ =~= files.remove_keys(ids.dom().difference(__set@.dom()))); }
//@ end
//@ fn touch_proc_id
    ensures
        final(self).config_same(old(self)) && final(self).files_same(old(self)) && final(self).procs == old(self).procs, // [C11]
        touched(old(self).proc_ids@, final(self).proc_ids@, id, old(self).proc_ttl), // [C11]
//@ end
//@ fn touch_proc_id_with_ttl
    ensures
        final(self).config_same(old(self)) && final(self).files_same(old(self)) && final(self).procs == old(self).procs, // [C11]
        touched(old(self).proc_ids@, final(self).proc_ids@, id, ttl), // [C11]
//@ end
//@ fn remove_proc_id
    ensures
        final(self).config_same(old(self)) && final(self).files_same(old(self)) && final(self).procs == old(self).procs, // [C11]
        final(self).proc_ids@ == old(self).proc_ids@.remove(id), // [C11]
//@ end
//@ fn evict_procs
    requires
        old(self).wf(),
        forall|k: u32| #[trigger] old(self).proc_ids@.contains_key(k) && expired_then(old(self).proc_ids@[k]) && old(self).procs@.contains_key(k)
            ==> may_kill(old(self).procs@[k].inner.no()),
    ensures
        final(self).config_same(old(self)) && final(self).files_same(old(self)), // [C11]
        procs_evicted(*old(self), *final(self)), // [C11]
        final(self).wf(), // [C11]
//@ loop 0 before
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    let ghost ids = __old@;
    let ghost procs = proc_map@;
//@ loop 0
    invariant
        forall|k: u32| #[trigger] ids.contains_key(k) && expired_then(ids[k]) && procs.contains_key(k) ==> may_kill(procs[k].inner.no()),
        forall|k: u32| #[trigger] __old@.contains_key(k) ==> ids.contains_key(k) && __old@[k] == ids[k] && !__set@.contains_key(k),
        forall|k: u32| #[trigger] __set@.contains_key(k) ==> ids.contains_key(k) && __set@[k] == ids[k] && alive_then(ids[k]), // [C11]
        forall|k: u32| #[trigger] ids.contains_key(k) && !__old@.contains_key(k) && !__set@.contains_key(k) ==> expired_then(ids[k]), // [C11]
        forall|k: u32| #[trigger] proc_map@.contains_key(k) ==> procs.contains_key(k) && proc_map@[k] == procs[k], // [C11]
        forall|k: u32| #[trigger] procs.contains_key(k) ==> proc_map@.contains_key(k) == !(ids.contains_key(k) && !__old@.contains_key(k) && !__set@.contains_key(k)), // [C11]
        forall|k: u32| #[trigger] procs.contains_key(k) && !proc_map@.contains_key(k) ==> was_killed(procs[k]), // [C11]
    decreases __old@.dom().len()
//@ loop 0 after
    proof { assert(proc_map@ =~= procs.remove_keys(ids.dom().difference(__set@.dom()))); }
//@ end
//@ fn set_custom_handler
//@ ret r
    ensures
        r.custom_handler == Some(custom_handler) && final(self).custom_handler == final(r).custom_handler, // [C12]
        final(self).files_same(final(r)) && final(self).procs_same(final(r)) && r.files_same(old(self)) && r.procs_same(old(self)), // [C11]
        final(self).file_ttl == final(r).file_ttl && final(self).proc_ttl == final(r).proc_ttl && final(self).dead_proc_ttl == final(r).dead_proc_ttl, // [C11]
        r.file_ttl == old(self).file_ttl && r.proc_ttl == old(self).proc_ttl && r.dead_proc_ttl == old(self).dead_proc_ttl, // [C11]
//@ end
//@ fn is_running
//@ ret r
    ensures
        !r ==> told_to_stop(), // [C11]
        *final(self) == *old(self), // [C11]
//@ end
//@ fn shutdown
    ensures
        told_to_stop(), // [C11]
        *final(self) == *old(self), // [C11]
//@ end
//@ fn internal_debug
    ensures final(self).config_same(old(self)) && final(self).files_same(old(self)) && final(self).procs_same(old(self)), // [C12 C11]
        old(self).wf() ==> final(self).wf(), // [C12 C11]
//@ end
//@ endimpl
//@ endsrc
