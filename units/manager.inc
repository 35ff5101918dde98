// ---- the event managers: which loop runs on which channel and connection -----------
pub trait Authenticator {}
pub trait Bicrypter {}
/// handle of the runtime; in the sequential reading a spawned task has run
#[verifier::external_body]
pub struct Handle { _p: () }
impl Handle {
    #[verifier::external_body]
    pub fn current() -> Handle { unimplemented!() }
    #[verifier::external_body]
    pub fn spawn<T>(&self, out: T) -> JoinHandle<T> { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> Handle { unimplemented!() }
    #[verifier::external_body]
    pub fn enter<R, F: FnOnce() -> R>(&self, f: F) -> (r: R)
        requires f.requires(())
        ensures f.ensures((), r)
    { unimplemented!() }
}
/// a wire and its halves (proved in unit wire; here what they are attached to)
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(B)]
pub struct Wire<A, B> { _p: core::marker::PhantomData<(A, B)> }
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct VerifierHalf<A> { _p: core::marker::PhantomData<A> }
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct SignerHalf<A> { _p: core::marker::PhantomData<A> }
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct EncrypterHalf<A> { _p: core::marker::PhantomData<A> }
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct DecrypterHalf<A> { _p: core::marker::PhantomData<A> }
impl<A> Verifier for VerifierHalf<A> {}
impl<A> Signer for SignerHalf<A> {}
impl<A> Encrypter for EncrypterHalf<A> {}
impl<A> Decrypter for DecrypterHalf<A> {}
impl PartialEq for SocketAddr {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> (r: bool) ensures r == (*self == *o) { unimplemented!() }
}
impl Eq for SocketAddr {}
impl std::hash::Hash for SocketAddr {
    #[verifier::external_body]
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) { unimplemented!() }
}
/// `HashMap::get_mut`
pub trait MapShim<K, V> {
    spec fn the_map(&self) -> Map<K, V>;
    fn at_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures match r {
            Some(x) => old(self).the_map().contains_key(*k) && *x == old(self).the_map()[*k]
                && final(self).the_map() == old(self).the_map().insert(*k, *final(x)),
            None => !old(self).the_map().contains_key(*k) && final(self).the_map() == old(self).the_map(),
        };
}
impl<V> MapShim<SocketAddr, V> for HashMap<SocketAddr, V> {
    open spec fn the_map(&self) -> Map<SocketAddr, V> { self@ }
    #[verifier::external_body]
    fn at_mut(&mut self, k: &SocketAddr) -> (r: Option<&mut V>) { unimplemented!() }
}
#[verifier::external_body]
pub struct TcpListener { _p: () }
impl TcpListener {
    #[verifier::external_body]
    pub fn accept(&mut self) -> (r: io::Result<(TcpStream, SocketAddr)>)
        ensures r is Ok ==> r->Ok_0.0.peer() == r->Ok_0.1
    { unimplemented!() }
}
impl TcpStream { pub uninterp spec fn peer(&self) -> SocketAddr; }
#[verifier::external_body]
pub struct UdpSocket { _p: () }
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(B)]
pub struct TcpStreamWire<A, B> { _p: core::marker::PhantomData<(A, B)> }
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(B)]
pub struct UdpSocketWire<A, B> { _p: core::marker::PhantomData<(A, B)> }
impl<A: Authenticator, B: Bicrypter> TcpStreamWire<A, B> {
    pub uninterp spec fn stream(&self) -> TcpStream;
    pub uninterp spec fn addr(&self) -> SocketAddr;
    #[verifier::external_body]
    pub fn arc_split(self) -> (r: (TcpStreamInboundWire<VerifierHalf<A>, DecrypterHalf<B>>, TcpStreamOutboundWire<SignerHalf<A>, EncrypterHalf<B>>))
        ensures r.0.stream.peer() == self.stream().peer(), r.1.stream.peer() == self.stream().peer(), r.0.remote_addr == self.addr(), !r.0.stream.over()
    { unimplemented!() }
}
impl<A: Authenticator, B: Bicrypter> UdpSocketWire<A, B> {
    #[verifier::external_body]
    pub fn arc_split(self) -> (r: (UdpSocketInboundWire<VerifierHalf<A>, DecrypterHalf<B>>, UdpSocketOutboundWire<SignerHalf<A>, EncrypterHalf<B>>))
        ensures !r.0.socket.over()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clone_split(self) -> (r: (UdpSocketInboundWire<VerifierHalf<A>, DecrypterHalf<B>>, UdpSocketOutboundWire<SignerHalf<A>, EncrypterHalf<B>>))
        ensures !r.0.socket.over()
    { unimplemented!() }
}
impl<A: Authenticator, B: Bicrypter> Wire<A, B> {
    #[verifier::external_body]
    pub fn new(size: usize, ttl: Duration, authenticator: A, bicrypter: B) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn with_tcp_stream(self, stream: TcpStream, remote_addr: SocketAddr) -> (r: TcpStreamWire<A, B>)
        ensures r.stream() == stream, r.addr() == remote_addr
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_udp_socket(self, socket: UdpSocket) -> (r: UdpSocketWire<A, B>) { unimplemented!() }
}
/// a channel that takes everything
pub open spec fn open_to<T>(chan: int) -> bool { forall|d: T| #[trigger] mpsc::may_put(chan, d) }
/// a channel that takes everything and whose values go to the stream from `a`
pub open spec fn out_to(chan: int, a: SocketAddr) -> bool {
    written_on(chan, a) && open_to::<Vec<u8>>(chan)
}
/// a channel that takes everything and whose values go to the address they carry
pub open spec fn out_any(chan: int) -> bool {
    sent_on(chan) && open_to::<(Vec<u8>, SocketAddr)>(chan)
}
//@ src src/core/event/udp.rs
//@ impl AddrEventManager
//@ fn for_udp_socket
//@ ret r
    requires
        on_inbound_tx.uses() < 0,
        forall|replies: int| #[trigger] open_to::<(Vec<u8>, SocketAddr)>(replies) ==> may_hand_all::<(Vec<u8>, SocketAddr)>(on_inbound_tx.chan(), replies),
    ensures
        r.tx.uses() < 0 && out_any(r.tx.chan()), // [C12 C14]
        answered_via(None, on_inbound_tx.chan(), r.tx.chan()), // [C12 C14]
//@ needs another
//@ after channel 0
    proof {
        mpsc::decide(tx.chan(), |d: (Vec<u8>, SocketAddr)| true);
        assert(open_to::<(Vec<u8>, SocketAddr)>(tx.chan()));
    }
//@ end
//@ fn for_udp_socket_with_cloneable_wire
//@ ret r
    requires
        on_inbound_tx.uses() < 0,
        forall|replies: int| #[trigger] open_to::<(Vec<u8>, SocketAddr)>(replies) ==> may_hand_all::<(Vec<u8>, SocketAddr)>(on_inbound_tx.chan(), replies),
    ensures
        r.tx.uses() < 0 && out_any(r.tx.chan()), // [C12 C14]
        answered_via(None, on_inbound_tx.chan(), r.tx.chan()), // [C12 C14]
//@ needs another
//@ after channel 0
    proof {
        mpsc::decide(tx.chan(), |d: (Vec<u8>, SocketAddr)| true);
        assert(open_to::<(Vec<u8>, SocketAddr)>(tx.chan()));
    }
//@ end
//@ endimpl
//@ src src/core/event/mod.rs
//@ impl EventManager
//@ fn wait external
//@ end
//@ endimpl
//@ src src/core/event/tcp.rs
//@ impl EventManager
//@ fn for_tcp_stream
//@ ret r
    requires
        on_inbound_tx.uses() < 0,
        stream.peer() == remote_addr,
        forall|replies: int| #[trigger] open_to::<Vec<u8>>(replies) ==> may_hand_all::<Vec<u8>>(on_inbound_tx.chan(), replies),
    ensures
        r.tx.uses() < 0 && out_to(r.tx.chan(), remote_addr), // [C12 C14]
        answered_via(Some(remote_addr), on_inbound_tx.chan(), r.tx.chan()), // [C12 C14]
//@ needs another
//@ after channel 0
    proof {
        mpsc::decide(tx.chan(), |d: Vec<u8>| true);
        assert(open_to::<Vec<u8>>(tx.chan()));
    }
//@ end
//@ endimpl
/// socket addresses are used as keys by value
pub broadcast axiom fn axiom_addr_key()
    ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<SocketAddr>()
;
/// every connection of the listener is reached through the channel kept for its address
pub open spec fn conns_ok(m: HashMap<SocketAddr, mpsc::Sender<Vec<u8>>>) -> bool {
    forall|a: SocketAddr| #[trigger] m@.contains_key(a) ==> m@[a].uses() < 0 && out_to(m@[a].chan(), a)
}
pub open spec fn serves_all(chan: int) -> bool {
    forall|replies: int| #[trigger] open_to::<Vec<u8>>(replies) ==> may_hand_all::<Vec<u8>>(chan, replies)
}
/// what goes to an address goes into the channel kept for it
pub open spec fn forwarded(m: Map<SocketAddr, mpsc::Sender<Vec<u8>>>, a: SocketAddr, d: Vec<u8>) -> bool {
    m.contains_key(a) ==> mpsc::put(m[a].chan(), d) || mpsc::closed(m[a].chan())
}
//@ fn tcp_listener_outbound_loop
    requires conns_ok(*old(connections)),
    ensures
        conns_ok(*final(connections)),
        mpsc::closed(rx.chan()), // [C12 C14]
        sent_on(rx.chan()), // [C12 C14]
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ start
    broadcast use {vstd::std_specs::hash::group_hash_axioms, axiom_addr_key};
    let ghost chan = rx.chan();
    proof { means_sent_on(chan); }
//@ loop 0
    invariant chan == rx.chan(), conns_ok(*connections),
    ensures mpsc::closed(chan),
//@ loop 0 start
    broadcast use {vstd::std_specs::hash::group_hash_axioms, axiom_addr_key};
    let ghost m0 = msg;
    let ghost a0 = addr;
    let ghost c0 = connections@;
//@ loop 0 end
    proof { assert(forwarded(c0, a0, m0)); } // [C12,C14]
//@ end
//@ fn tcp_listener_spawn_stream
    requires
        conns_ok(*old(connections)),
        stream.peer() == addr,
        on_inbound_tx.uses() < 0,
        serves_all(on_inbound_tx.chan()),
    ensures
        conns_ok(*final(connections)), // [C12 C14]
        final(connections)@ == old(connections)@.remove(addr), // [C12 C14]
//@ start
    broadcast use {vstd::std_specs::hash::group_hash_axioms, axiom_addr_key};
//@ needs another
//@ after insert 0
    proof { assert(connections@.contains_key(addr) && conns_ok(*connections)); } // [C12,C14]
//@ end
//@ fn tcp_listener_inbound_loop
    requires
        conns_ok(*old(connections)),
        on_inbound_tx.uses() < 0,
        serves_all(on_inbound_tx.chan()),
//@ needs another
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ loop 0
    invariant
        conns_ok(*connections),
        on_inbound_tx.uses() < 0,
        serves_all(on_inbound_tx.chan()),
//@ end
//@ impl AddrEventManager
//@ fn for_tcp_listener
//@ ret r
    requires
        on_inbound_tx.uses() < 0,
        serves_all(on_inbound_tx.chan()),
    ensures r.tx.uses() < 0 && out_any(r.tx.chan()), // [C12 C14]
//@ start
    broadcast use {vstd::std_specs::hash::group_hash_axioms, axiom_addr_key};
//@ after channel 0
    proof { mpsc::decide(tx.chan(), |d: (Vec<u8>, SocketAddr)| true); }
//@ end
//@ endimpl
//@ endsrc
