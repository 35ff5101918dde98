// ---- the server's tasks ----------------------------------------------------------------
pub mod custom { pub use super::CustomHandler; }
pub mod state { pub use super::ServerState; }
pub mod server {
use super::*;
verus! {
pub mod time {
    use super::super::*;
    verus! {
    pub uninterp spec fn waited(d: Duration) -> bool;
    #[verifier::external_body]
    pub fn delay_for(d: Duration) ensures waited(d) { unimplemented!() }
    }
}
/// between two steps of one task of the server the others run: the state is what
/// they leave behind
#[verifier::external_body]
pub fn others_run(state: &mut ServerState)
    requires old(state).wf()
    ensures final(state).wf(), final(state).config_same(old(state))
{ }
/// processes whose lifetime has passed may be killed
pub open spec fn may_evict() -> bool {
    forall|s: ServerState, k: u32| #[trigger] s.proc_ids@.contains_key(k) && expired_then(s.proc_ids@[k]) && s.procs@.contains_key(k)
        ==> may_kill(s.procs@[k].inner.no())
}
/// how deep operations may be nested
pub open spec fn depth() -> nat { action::Executor::<Vec<u8>>::DEFAULT_MAX_DEPTH as nat }
/// what a message that came in entitles the server to: to run what it asks for and
/// to answer once
pub open spec fn entitles<T>(msg: Msg, tx: mpsc::Sender<T>, to: spec_fn(Vec<u8>) -> T) -> bool {
    &&& tx.uses() == 1
    &&& msg.content is Request ==> may_run(msg.content->Request_0, depth())
    &&& may_answer(msg, depth(), tx.chan(), to)
}
pub open spec fn tcp_incoming(chan: int) -> bool {
    forall|x: (Msg, SocketAddr, mpsc::Sender<Vec<u8>>)| #[trigger] mpsc::got(chan, x) ==> entitles(x.0, x.2, just_data())
}
pub open spec fn udp_incoming(chan: int) -> bool {
    forall|x: (Msg, SocketAddr, mpsc::Sender<(Vec<u8>, SocketAddr)>)| #[trigger] mpsc::got(chan, x) ==> entitles(x.0, x.2, data_to(x.1))
}
/// the message was dealt with
pub open spec fn served<T>(msg: Msg, s: ServerState, t: ServerState, chan: int, to: spec_fn(Vec<u8>) -> T) -> bool {
    exists|r: Result<(), action::ActionError>| #[trigger] executed(msg, depth(), s, t, chan, to, r)
}
/// a round of cleaning up: everything whose lifetime has passed is gone
pub open spec fn cleaned_up(s: ServerState, t: ServerState) -> bool {
    (exists|m: ServerState| #[trigger] files_evicted(s, m) && procs_evicted(m, t) && m.procs_same(&s) && t.files_same(&m) && t.config_same(&s))
        || (exists|m: ServerState| #[trigger] procs_evicted(s, m) && files_evicted(m, t) && m.files_same(&s) && t.procs_same(&m) && t.config_same(&s))
}
pub use std::sync::Arc;
pub trait Authenticator {}
pub trait Bicrypter {}
//@ keep
//@ src src/core/mod.rs
//@ item Transport
impl Transport {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// handle of the runtime; in the sequential reading a spawned task has run
#[verifier::external_body]
pub struct Handle { _p: () }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct JoinHandle<T> { _p: core::marker::PhantomData<T> }
impl Handle {
    #[verifier::external_body]
    pub fn current() -> Handle { unimplemented!() }
    #[verifier::external_body]
    pub fn spawn<T>(&self, out: T) -> JoinHandle<T> { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> Handle { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(B)]
pub struct Wire<A, B> { _p: core::marker::PhantomData<(A, B)> }
impl<A, B> Wire<A, B> {
    #[verifier::external_body]
    pub fn new(size: usize, ttl: Duration, authenticator: A, bicrypter: B) -> (r: Self) { unimplemented!() }
}
/// packet sizes (proved in unit cli)
#[verifier::external_body]
pub struct NetTransmission { _p: () }
impl NetTransmission {
    #[verifier::external_body]
    pub fn tcp_ethernet() -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn udp_from_addr(addr: SocketAddr) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn into(self) -> usize { unimplemented!() }
}
/// `sock` was bound to one of these addresses and has the address `at`
#[verifier::external_body]
pub struct TcpListener { _p: () }
#[verifier::external_body]
pub struct UdpSocket { _p: () }
impl TcpListener {
    pub uninterp spec fn at(&self) -> SocketAddr;
    #[verifier::external_body]
    pub fn bind(addr: &SocketAddr) -> (r: io::Result<TcpListener>) { unimplemented!() }
    #[verifier::external_body]
    pub fn local_addr(&self) -> (r: io::Result<SocketAddr>) ensures r is Ok ==> r->Ok_0 == self.at() { unimplemented!() }
}
impl UdpSocket {
    pub uninterp spec fn at(&self) -> SocketAddr;
    #[verifier::external_body]
    pub fn bind(addr: &SocketAddr) -> (r: io::Result<UdpSocket>) { unimplemented!() }
    #[verifier::external_body]
    pub fn local_addr(&self) -> (r: io::Result<SocketAddr>) ensures r is Ok ==> r->Ok_0 == self.at() { unimplemented!() }
}
/// an event manager (proved in unit cli): where what comes in goes, and which address it serves
#[verifier::external_body]
pub struct AddrEventManager { _p: () }
impl AddrEventManager {
    pub uninterp spec fn into_chan(&self) -> int;
    pub uninterp spec fn at(&self) -> SocketAddr;
    #[verifier::external_body]
    pub fn for_tcp_listener<A, B>(handle: Handle, buffer: usize, listener: TcpListener, wire: Wire<A, B>, on_inbound_tx: mpsc::Sender<(Msg, SocketAddr, mpsc::Sender<Vec<u8>>)>) -> (r: Self)
        requires on_inbound_tx.uses() < 0
        ensures r.into_chan() == on_inbound_tx.chan(), r.at() == listener.at()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn for_udp_socket<A, B>(handle: Handle, buffer: usize, socket: UdpSocket, wire: Wire<A, B>, on_inbound_tx: mpsc::Sender<(Msg, SocketAddr, mpsc::Sender<(Vec<u8>, SocketAddr)>)>) -> (r: Self)
        requires on_inbound_tx.uses() < 0
        ensures r.into_chan() == on_inbound_tx.chan(), r.at() == socket.at()
    { unimplemented!() }
}
/// this is what entitles the server to anything: that a message came in on such a channel
#[verifier::external_body]
pub proof fn tcp_incoming_entitles(chan: int) ensures tcp_incoming(chan) { }
#[verifier::external_body]
pub proof fn udp_incoming_entitles(chan: int) ensures udp_incoming(chan) { }
/// what comes in on the channel is carried out and answered (what the loops show of every round)
pub uninterp spec fn served_on(chan: int) -> bool;
#[verifier::external_body]
pub proof fn means_served_on(chan: int) ensures served_on(chan) { }
/// what has outlived its lifetime is looked for after every such pause
pub uninterp spec fn cleans_every(d: Duration) -> bool;
#[verifier::external_body]
pub proof fn means_cleans_every(d: Duration) ensures cleans_every(d) { }
#[verifier::external_body]
pub fn same_state(s: &mut ServerState) -> (r: ServerState)
    ensures r == *old(s), *final(s) == *old(s)
{ unimplemented!() }
/// a server that listens: what comes in at its address is served
pub open spec fn listening(l: ListeningServer) -> bool {
    &&& l.addr == l.addr_event_manager.at()
    &&& served_on(l.addr_event_manager.into_chan())
    &&& l.state.wf()
}
//@ subst Arc<state::ServerState> => ServerState
//@ subst state::ServerState => ServerState
//@ subst Arc<ServerState> => ServerState
//@ src src/core/server/listening.rs
//@ item ListeningServer
//@ impl ListeningServer
//@ fn addr_event_manager
//@ ret r
    ensures r == self.addr_event_manager, // [C12]
//@ end
//@ fn addr
//@ ret r
    ensures r == self.addr, // [C12]
//@ end
//@ endimpl
//@ presubst let state = self.make_state(); => let state = &mut self.make_state();
//@ presubst state, event_handle, } => state: same_state(state), event_handle, }
//@ subst NetTransmission::TcpEthernet => NetTransmission::tcp_ethernet()
//@ src src/core/server/mod.rs
//@ item Server #[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(B)]
//@ impl Server<A, B>
//@ fn make_state
//@ ret r
    ensures
        r.wf() && r.files() == Files::empty() && r.procs@ == Map::<u32, LocalProc>::empty(), // [C11]
        r.file_ids@ == Lives::empty() && r.proc_ids@ == Lives::empty(), // [C11]
        r.file_ttl == self.file_ttl && r.proc_ttl == self.proc_ttl && r.dead_proc_ttl == self.dead_proc_ttl, // [C11]
        r.custom_handler == self.custom_handler, // [C12]
//@ end
//@ endimpl
//@ fn tcp_event_loop
    requires
        old(state).wf(),
        tcp_incoming(rx.chan()),
    ensures
        mpsc::closed(rx.chan()), // [C12,C18]
        served_on(rx.chan()), // [C12,C18]
        final(state).wf(),
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ start
    let ghost chan = rx.chan();
    proof { means_served_on(chan); }
//@ loop 0
    invariant
        state.wf(), // [C12]
        chan == rx.chan(),
        tcp_incoming(chan),
    ensures mpsc::closed(chan),
//@ loop 0 start
    others_run(&mut *state);
    let ghost s0 = *state;
    let ghost m0 = msg;
    let ghost c0 = tx.chan();
//@ loop 0 end
    proof { assert(served(m0, s0, *state, c0, just_data())); } // [C12,C18]
//@ end
//@ fn udp_event_loop
    requires
        old(state).wf(),
        udp_incoming(rx.chan()),
    ensures
        mpsc::closed(rx.chan()), // [C12,C18]
        served_on(rx.chan()), // [C12,C18]
        final(state).wf(),
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ start
    let ghost chan = rx.chan();
    proof { means_served_on(chan); }
//@ loop 0
    invariant
        state.wf(), // [C12]
        chan == rx.chan(),
        udp_incoming(chan),
    ensures mpsc::closed(chan),
//@ loop 0 start
    others_run(&mut *state);
    let ghost s0 = *state;
    let ghost m0 = msg;
    let ghost c0 = tx.chan();
    let ghost a0 = addr;
//@ loop 0 end
    proof { assert(served(m0, s0, *state, c0, data_to(a0))); } // [C12,C18]
//@ end
//@ fn cleanup_loop
    requires
        old(state).wf(),
        may_evict(),
    ensures
        told_to_stop(), // [C11]
        cleans_every(period), // [C11]
        final(state).wf(),
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ start
    proof { means_cleans_every(period); }
//@ loop 0
    invariant state.wf(), may_evict(),
    ensures told_to_stop(), // [C11]
//@ loop 0 start
    others_run(&mut *state);
    let ghost s0 = *state;
//@ loop 0 end
    proof { assert(cleaned_up(s0, *state) && time::waited(period)); } // [C11]
//@ end
//@ fn build_and_listen_tcp_server
//@ ret r
    requires old(state).wf(),
    ensures r is Ok ==> listening(r->Ok_0), // [C12]
//@ loop 0
    invariant true,
//@ after channel 0
    proof { tcp_incoming_entitles(tx.chan()); }
//@ end
//@ fn build_and_listen_udp_server
//@ ret r
    requires old(state).wf(),
    ensures r is Ok ==> listening(r->Ok_0), // [C12]
//@ loop 0
    invariant true,
//@ after channel 0
    proof { udp_incoming_entitles(tx.chan()); }
//@ end
//@ impl Server<A, B>
//@ fn listen
//@ ret r
    requires may_evict(),
    ensures
        r is Ok ==> listening(r->Ok_0), // [C12]
        cleans_every(self.cleanup_interval), // [C11]
//@ end
//@ endimpl
//@ impl Server<A, B>
//@ fn cloneable_listen
//@ ret r
    requires may_evict(),
    ensures
        r is Ok ==> listening(r->Ok_0), // [C12]
        cleans_every(self.cleanup_interval), // [C11]
//@ end
//@ endimpl
//@ endsrc
//@ unsubst
}
}
