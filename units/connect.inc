// ---- connecting: what a new client is attached to -------------------------------------
/// `ConnectedClient::DEFAULT_TIMEOUT`
#[verifier::external_body]
pub fn default_timeout() -> Duration { unimplemented!() }
pub open spec fn one_of_these(s: Option<TcpStream>, addrs: Seq<SocketAddr>) -> bool {
    s is Some ==> addrs.contains(s->Some_0.peer())
}
pub open spec fn one_of_those(s: Option<(StdUdpSocket, SocketAddr)>, addrs: Seq<SocketAddr>) -> bool {
    s is Some ==> addrs.contains(s->Some_0.1)
}
impl TcpStream {
    #[verifier::external_body]
    pub fn connect(addr: &SocketAddr) -> (r: io::Result<TcpStream>)
        ensures r is Ok ==> r->Ok_0.peer() == *addr
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peer_addr(&self) -> (r: io::Result<SocketAddr>)
        ensures r is Ok ==> r->Ok_0 == self.peer()
    { unimplemented!() }
}
/// `std::net::UdpSocket`
#[verifier::external_body]
pub struct StdUdpSocket { _p: () }
impl UdpSocket {
    #[verifier::external_body]
    pub fn from_std(s: StdUdpSocket) -> io::Result<UdpSocket> { unimplemented!() }
    #[verifier::external_body]
    pub fn local_addr(&self) -> io::Result<SocketAddr> { unimplemented!() }
}
pub mod wire { pub mod net { pub mod udp {
    use super::super::super::*;
    verus! {
    /// a socket that receives from nobody else
    #[verifier::external_body]
    pub fn connect(addr: SocketAddr) -> io::Result<StdUdpSocket> { unimplemented!() }
    }
}}}
#[verifier::external_body]
pub fn same_state(s: &mut ClientState) -> (r: ClientState)
    ensures r == *old(s), *final(s) == *old(s)
{ unimplemented!() }
//@ keep Copy Clone
//@ src src/core/transport/net/tcp.rs
//@ item MTU_ETHERNET_SIZE
//@ item MTU_DIALUP_SIZE
//@ src src/core/transport/net/udp.rs
//@ item MAX_IPV4_DATAGRAM_SIZE
//@ item MAX_IPV6_DATAGRAM_SIZE
//@ subst tcp::MTU_ETHERNET_SIZE => MTU_ETHERNET_SIZE
//@ subst tcp::MTU_DIALUP_SIZE => MTU_DIALUP_SIZE
//@ subst udp::MAX_IPV4_DATAGRAM_SIZE => MAX_IPV4_DATAGRAM_SIZE
//@ subst udp::MAX_IPV6_DATAGRAM_SIZE => MAX_IPV6_DATAGRAM_SIZE
//@ src src/core/transport/net/mod.rs
//@ item NetTransmission
//@ impl NetTransmission
//@ fn udp_from_addr external
//@ end
//@ fn size
//@ ret r
    ensures r >= ROOM, // [C14]
//@ end
//@ endimpl
//@ impl Into<usize> for NetTransmission as impl NetTransmission
//@ fn into
//@ ret r
    ensures r >= ROOM, // [C14]
//@ end
//@ endimpl
//@ unsubst
//@ src src/core/mod.rs
//@ keep
//@ item Transport
impl Transport {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
//@ subst Receiver<(Msg, SocketAddr, T)> => mpsc::Receiver<(Msg, SocketAddr, T)>
//@ src src/core/client/inbound.rs
//@ impl InboundMsgReader<T>
//@ fn new
//@ ret r
    ensures r.rx == rx, // [C14]
//@ end
//@ endimpl
//@ unsubst
//@ src src/utils/callback.rs
//@ impl Default for CallbackManager<T> as impl<T> CallbackManager<T>
//@ fn default
//@ ret r
    ensures r.callbacks@ == Map::<u32, Callback<T>>::empty(), // [C14]
//@ end
//@ endimpl
//@ src src/core/client/state.rs
//@ impl Default for ClientState as impl ClientState
//@ fn default
//@ ret r
    ensures r.callback_manager.callbacks@ == Map::<u32, Callback<Reply>>::empty(), // [C14]
//@ end
//@ endimpl
/// a new client: nothing waits for an answer yet, and what it sends goes to the address
/// it says it is connected to, which is one of those asked for
pub open spec fn connected(c: ConnectedClient, addrs: Seq<SocketAddr>) -> bool {
    &&& wf(c)
    &&& addrs.contains(c.remote_addr)
    &&& match c.event_manager {
        Either::Left(m) => out_to(m.tx.chan(), c.remote_addr),
        Either::Right(m) => out_any(m.tx.chan()),
    }
}
/// the channel takes exactly what comes in, from whichever step
pub proof fn came_in_by<T>(chan: int)
    ensures
        forall|replies: int| #[trigger] may_hand_all::<T>(chan, replies),
        forall|m: Msg| got_msg::<mpsc::Sender<T>>(chan, m) ==> #[trigger] came_in(m),
{
    mpsc::decide(chan, |x: (Msg, SocketAddr, mpsc::Sender<T>)| came_in(x.0));
    broadcast use mpsc::taken_was_permitted;
    assert forall|r: StepResult, s: mpsc::Sender<T>| #[trigger] stepped(r) implies #[trigger] may_hand_on(chan, r, s) by {
        assert forall|x: (Msg, SocketAddr, mpsc::Sender<T>)| handed_on(r, s) == Some(x) implies #[trigger] mpsc::may_put(chan, x) by {
            assert(brings(r, x.0));
        };
    };
    assert forall|replies: int| #[trigger] may_hand_all::<T>(chan, replies) by { };
    assert forall|m: Msg| got_msg::<mpsc::Sender<T>>(chan, m) implies #[trigger] came_in(m) by {
        let x = choose|x: (Msg, SocketAddr, mpsc::Sender<T>)| #[trigger] mpsc::got(chan, x) && x.0 == m;
        assert(mpsc::may_put(chan, x));
    };
}
//@ subst state::ClientState => ClientState
//@ subst ConnectedClient::DEFAULT_TIMEOUT => default_timeout()
//@ subst inbound::InboundMsgReader => InboundMsgReader
//@ src src/core/client/mod.rs
//@ item Client #[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(B)]
//@ fn build_and_connect_tcp_client
//@ ret r
    requires ready(old(state).callback_manager),
    ensures r is Ok ==> connected(r->Ok_0, addrs@) && r->Ok_0.event_manager is Left, // [C14]
//@ loop 0 iter it
//@ loop 0
    invariant
        it.seq().len() == addrs@.len(),
        forall|i: int| 0 <= i < addrs@.len() ==> *#[trigger] it.seq()[i] == addrs@[i],
        one_of_these(stream, addrs@),
    ensures
        one_of_these(stream, addrs@),
//@ after channel 0
    proof { came_in_by::<Vec<u8>>(tx.chan()); }
//@ end
//@ fn build_and_connect_udp_client
//@ ret r
    requires ready(old(state).callback_manager),
    ensures r is Ok ==> connected(r->Ok_0, addrs@) && r->Ok_0.event_manager is Right, // [C14]
//@ loop 0 iter it
//@ loop 0
    invariant
        it.seq().len() == addrs@.len(),
        forall|i: int| 0 <= i < addrs@.len() ==> *#[trigger] it.seq()[i] == addrs@[i],
        one_of_those(socket_and_addr, addrs@),
    ensures
        one_of_those(socket_and_addr, addrs@),
//@ after channel 0
    proof { came_in_by::<(Vec<u8>, SocketAddr)>(tx.chan()); }
//@ closure 2 (q: io::Result<(UdpSocket, SocketAddr)>)
    ensures q is Ok ==> q->Ok_0.1 == __p0.1
//@ closure 0 (q: io::Result<(UdpSocket, SocketAddr)>)
    ensures q is Ok ==> one_of_those(socket_and_addr, addrs@) ==> addrs@.contains(q->Ok_0.1)
//@ end
//@ impl Client<A, B>
//@ fn connect
//@ ret r
    ensures r is Ok ==> match self.transport {
        Transport::Tcp(addrs) => connected(r->Ok_0, addrs@) && r->Ok_0.event_manager is Left,
        Transport::Udp(addrs) => connected(r->Ok_0, addrs@) && r->Ok_0.event_manager is Right,
    }, // [C14]
//@ end
//@ endimpl
//@ src src/core/client/connected.rs
//@ impl ConnectedClient
//@ fn remote_addr
//@ ret r
    ensures r == self.remote_addr, // [C14]
//@ end
//@ endimpl
//@ endsrc
//@ unsubst
