// ---- receive loops -------------------------------------------------------------------
pub trait Verifier {}
pub trait Decrypter {}
pub trait Signer {}
pub trait Encrypter {}
#[verifier::external_body]
pub struct InputProcessorError { _p: () }
#[verifier::external_body]
pub struct OutputProcessorError { _p: () }
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(D)]
pub struct InboundWire<V, D> { _p: core::marker::PhantomData<(V, D)> }
#[verifier::external_body]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(E)]
pub struct OutboundWire<S, E> { _p: core::marker::PhantomData<(S, E)> }
/// the outcome of handing the bytes to the reassembly (units wire and crypto)
pub uninterp spec fn processed(bytes: Seq<u8>, r: Result<Option<Vec<u8>>, InputProcessorError>) -> bool;
/// the packets the bytes are split into (units wire and crypto)
pub uninterp spec fn split_into(bytes: Seq<u8>, r: Seq<Vec<u8>>) -> bool;
/// the bytes cannot be sent: splitting them fails
pub uninterp spec fn unsendable(bytes: Seq<u8>) -> bool;
impl<V: Verifier, D: Decrypter> InboundWire<V, D> {
    #[verifier::external_body]
    pub fn transmission_size(&self) -> usize { unimplemented!() }
    #[verifier::external_body]
    pub fn process(&mut self, data: &[u8]) -> (r: Result<Option<Vec<u8>>, InputProcessorError>)
        ensures processed(data@, r)
    { unimplemented!() }
}
impl<S: Signer, E: Encrypter> OutboundWire<S, E> {
    #[verifier::external_body]
    pub fn process(&mut self, data: &[u8]) -> (r: Result<Vec<Vec<u8>>, OutputProcessorError>)
        ensures match r { Ok(ps) => split_into(data@, ps@), Err(_) => unsendable(data@) }
    { unimplemented!() }
}
#[verifier::external_body]
pub fn zeroed(n: usize) -> (r: Vec<u8>) ensures r@.len() == n { unimplemented!() }
/// `v[..n]`
#[verifier::external_body]
pub fn first_of(v: &Vec<u8>, n: usize) -> (r: &[u8]) requires n <= v@.len() ensures r@ == v@.take(n as int) { unimplemented!() }
/// a receive step brought these bytes from there
pub uninterp spec fn arrived(bytes: Seq<u8>, from: SocketAddr) -> bool;
pub uninterp spec fn io_failed(e: io::Error) -> bool;
/// of these bytes the transport took the first `n`
pub uninterp spec fn took(bytes: Seq<u8>, n: int) -> bool;
/// the other side has closed the stream: a read into a buffer that is not empty brought no bytes
pub uninterp spec fn stream_over() -> bool;
pub mod udp {
    use super::*;
    verus! {
    #[verifier::external_body]
    pub struct RecvHalf { _p: () }
    #[verifier::external_body]
    pub struct SendHalf { _p: () }
    impl RecvHalf {
        /// receiving has failed
        pub uninterp spec fn over(&self) -> bool;
        #[verifier::external_body]
        pub fn recv_from(&mut self, buf: &mut Vec<u8>) -> (r: io::Result<(usize, SocketAddr)>)
            requires !old(self).over(), // [C18]
            ensures
                final(self).over() == (r is Err),
                final(buf)@.len() == old(buf)@.len(),
                match r {
                    Ok(x) => x.0 <= old(buf)@.len() && arrived(final(buf)@.take(x.0 as int), x.1),
                    Err(e) => io_failed(e),
                }
        { unimplemented!() }
    }
    impl SendHalf {
        /// every attempt to send, in order
        pub uninterp spec fn log(&self) -> Seq<(Seq<u8>, SocketAddr)>;
        #[verifier::external_body]
        pub fn send_to(&mut self, buf: &Vec<u8>, addr: &SocketAddr) -> (r: io::Result<usize>)
            ensures
                final(self).log() == old(self).log().push((buf@, *addr)),
                match r { Ok(n) => took(buf@, n as int) && n <= buf@.len(), Err(e) => io_failed(e) },
        { unimplemented!() }
    }
    }
}
pub use udp::{RecvHalf, SendHalf};
#[verifier::external_body]
pub struct TcpStream { _p: () }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ReadHalf<T> { _p: core::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct WriteHalf<T> { _p: core::marker::PhantomData<T> }
impl<T> ReadHalf<T> {
    pub uninterp spec fn peer(&self) -> SocketAddr;
    /// reading has failed, or the other side has closed the stream
    pub uninterp spec fn over(&self) -> bool;
    #[verifier::external_body]
    pub fn read(&mut self, buf: &mut Vec<u8>) -> (r: io::Result<usize>)
        requires !old(self).over(), // [C18]
        ensures
            final(self).peer() == old(self).peer(),
            final(self).over() == (r is Err || r->Ok_0 == 0),
            final(buf)@.len() == old(buf)@.len(),
            match r {
                Ok(n) => n <= old(buf)@.len() && (n > 0 ==> arrived(final(buf)@.take(n as int), old(self).peer())) && (n == 0 ==> stream_over()),
                Err(e) => io_failed(e),
            }
    { unimplemented!() }
}
impl<T> WriteHalf<T> {
    pub uninterp spec fn log(&self) -> Seq<Seq<u8>>;
    pub uninterp spec fn peer(&self) -> SocketAddr;
    #[verifier::external_body]
    pub fn write(&mut self, buf: &Vec<u8>) -> (r: io::Result<usize>)
        ensures
            final(self).log() == old(self).log().push(buf@), final(self).peer() == old(self).peer(),
            match r { Ok(n) => took(buf@, n as int) && n <= buf@.len(), Err(e) => io_failed(e) },
    { unimplemented!() }
}
//@ presubst vec![0; self.inbound_wire.transmission_size()].into_boxed_slice() => zeroed(self.inbound_wire.transmission_size())
//@ presubst &buf[..size] => first_of(&buf, size)
//@ src src/core/transport/wire/udp.rs
//@ keep
//@ src src/core/transport/wire/mod.rs
//@ subst output::OutputProcessorError => OutputProcessorError
//@ item InboundWireError
//@ item OutboundWireError
//@ unsubst
impl vstd::std_specs::convert::FromSpecImpl<InputProcessorError> for InboundWireError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: InputProcessorError) -> Self { InboundWireError::InputProcessor(v) }
}
/// generated by derive_more
impl From<InputProcessorError> for InboundWireError {
    #[verifier::external_body]
    fn from(e: InputProcessorError) -> (r: Self) { unimplemented!() }
}
impl vstd::std_specs::convert::FromSpecImpl<OutputProcessorError> for OutboundWireError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: OutputProcessorError) -> Self { OutboundWireError::OutputProcessor(v) }
}
impl From<OutputProcessorError> for OutboundWireError {
    #[verifier::external_body]
    fn from(e: OutputProcessorError) -> (r: Self) { unimplemented!() }
}
pub type StepResult = Result<(Option<Vec<u8>>, SocketAddr), InboundWireError>;
pub open spec fn brought(p: Result<Option<Vec<u8>>, InputProcessorError>, a: SocketAddr) -> bool {
    exists|b: Seq<u8>| #[trigger] arrived(b, a) && processed(b, p)
}
/// what arrived from there could not be put together
pub open spec fn spoilt(e: InputProcessorError, a: SocketAddr) -> bool { brought(Err(e), a) }
/// `r` is the outcome of a receive step: a failure of the transport, or what the
/// reassembly makes of the bytes that arrived, with the address they came from
pub open spec fn stepped(r: StepResult) -> bool {
    match r {
        Ok(x) => brought(Ok(x.0), x.1),
        Err(InboundWireError::IO(e)) => io_failed(e) || stream_over(),
        Err(InboundWireError::InputProcessor(e)) => exists|a: SocketAddr| #[trigger] spoilt(e, a),
    }
}
pub open spec fn as_step(p: Result<Option<Vec<u8>>, InputProcessorError>, a: SocketAddr) -> StepResult {
    match p {
        Ok(d) => Ok((d, a)),
        Err(e) => Err(InboundWireError::InputProcessor(e)),
    }
}
pub proof fn step_of(b: Seq<u8>, a: SocketAddr, p: Result<Option<Vec<u8>>, InputProcessorError>)
    requires arrived(b, a), processed(b, p)
    ensures stepped(as_step(p, a))
{
    assert(brought(p, a));
    match p {
        Ok(d) => { assert(brought(Ok(d), a)); }
        Err(e) => { assert(spoilt(e, a)); assert(as_step(p,a)->Err_0->InputProcessor_0 == e); assert(exists|a: SocketAddr| #[trigger] spoilt(e, a)); assert(exists|a: SocketAddr| #[trigger] spoilt(as_step(p,a)->Err_0->InputProcessor_0, a));}
    }
}
/// some error of the transport ended it
pub open spec fn transport_failed() -> bool { (exists|e: io::Error| #[trigger] io_failed(e)) || stream_over() }
pub open spec fn addressed(ps: Seq<Vec<u8>>, a: SocketAddr) -> Seq<(Seq<u8>, SocketAddr)> {
    Seq::new(ps.len(), |i: int| (ps[i]@, a))
}
/// the transport took all of these bytes
pub open spec fn took_all(bytes: Seq<u8>) -> bool { exists|n: int| #[trigger] took(bytes, n) && n >= bytes.len() }
/// the transport took less than one of these packets
pub open spec fn cut_short(ps: Seq<Vec<u8>>) -> bool {
    exists|i: int, n: int| 0 <= i < ps.len() && #[trigger] took(ps[i]@, n) && n < ps[i]@.len()
}
/// sending `bytes` failed, and why
pub open spec fn send_failed(bytes: Seq<u8>, e: OutboundWireError) -> bool {
    match e {
        OutboundWireError::IO(x) => io_failed(x),
        OutboundWireError::OutputProcessor(_) => unsendable(bytes),
        OutboundWireError::IncompleteSend => exists|ps: Seq<Vec<u8>>| #[trigger] split_into(bytes, ps) && cut_short(ps),
    }
}
pub open spec fn contents(ps: Seq<Vec<u8>>) -> Seq<Seq<u8>> { Seq::new(ps.len(), |i: int| ps[i]@) }
/// all packets of one splitting of `bytes` were sent to `a`, in order
pub open spec fn sent_all(a0: Seq<(Seq<u8>, SocketAddr)>, a1: Seq<(Seq<u8>, SocketAddr)>, bytes: Seq<u8>, a: SocketAddr) -> bool {
    exists|ps: Seq<Vec<u8>>| #[trigger] split_into(bytes, ps) && a1 == a0 + addressed(ps, a) && forall|i: int| 0 <= i < ps.len() ==> took_all(#[trigger] ps[i]@)
}
/// as many packets of one splitting of `bytes` as the transport took were sent to `a`, in
/// order and at least the first; nothing if the bytes cannot be split
pub open spec fn send_tried(a0: Seq<(Seq<u8>, SocketAddr)>, a1: Seq<(Seq<u8>, SocketAddr)>, bytes: Seq<u8>, a: SocketAddr) -> bool {
    (unsendable(bytes) && a1 == a0)
        || exists|ps: Seq<Vec<u8>>, k: int| #[trigger] split_into(bytes, ps) && 0 <= k <= ps.len() && (ps.len() > 0 ==> k > 0) && a1 == a0 + #[trigger] addressed(ps.take(k), a)
}
pub open spec fn write_tried(a0: Seq<Seq<u8>>, a1: Seq<Seq<u8>>, bytes: Seq<u8>) -> bool {
    (unsendable(bytes) && a1 == a0)
        || exists|ps: Seq<Vec<u8>>, k: int| #[trigger] split_into(bytes, ps) && 0 <= k <= ps.len() && (ps.len() > 0 ==> k > 0) && a1 == a0 + #[trigger] contents(ps.take(k))
}
pub open spec fn written_all(a0: Seq<Seq<u8>>, a1: Seq<Seq<u8>>, bytes: Seq<u8>) -> bool {
    exists|ps: Seq<Vec<u8>>| #[trigger] split_into(bytes, ps) && a1 == a0 + contents(ps) && forall|i: int| 0 <= i < ps.len() ==> took_all(#[trigger] ps[i]@)
}
//@ src src/core/transport/wire/udp.rs
//@ item UdpSocketInboundWire #[verifier::reject_recursive_types(V)] #[verifier::reject_recursive_types(D)]
//@ item UdpSocketOutboundWire #[verifier::reject_recursive_types(S)] #[verifier::reject_recursive_types(E)]
//@ impl UdpSocketInboundWire<V, D>
//@ fn read
//@ ret r
    requires !old(self).socket.over(),
    ensures
        stepped(r), // [C18]
        final(self).socket.over() == (r is Err && r->Err_0 is IO), // [C18]
//@ before process 0
        proof {
            let b = buf@.take(size as int);
            assert forall|p: Result<Option<Vec<u8>>, InputProcessorError>| #[trigger] processed(b, p) implies stepped(as_step(p, addr)) by { step_of(b, addr, p); };
        }
//@ end
//@ endimpl
//@ impl UdpSocketOutboundWire<S, E>
//@ fn write_to
//@ ret r
    ensures
        r is Err ==> send_failed(buf@, r->Err_0), // [C01,C12]
        r is Ok ==> sent_all(old(self).socket.log(), final(self).socket.log(), buf@, addr), // [C01,C12]
        send_tried(old(self).socket.log(), final(self).socket.log(), buf@, addr), // [C12]
//@ loop 0 iter it
//@ loop 0
    invariant
        it.seq().len() == data@.len(),
        forall|i: int| 0 <= i < data@.len() ==> *#[trigger] it.seq()[i] == data@[i],
        split_into(buf@, data@),
        forall|i: int| 0 <= i < it.index@ ==> took_all(#[trigger] data@[i]@),
        self.socket.log() == old(self).socket.log() + addressed(data@.take(it.index@ as int), addr),
//@ loop 0 start
    proof {
        assert(addressed(data@.take(it.index@ as int), addr).push((packet_bytes@, addr)) =~= addressed(data@.take(it.index@ as int + 1), addr));
        assert(self.socket.log().push((packet_bytes@, addr)) =~= old(self).socket.log() + addressed(data@.take(it.index@ as int + 1), addr));
    }
//@ loop 0 end
    proof {
        assert(addressed(data@.take(it.index@ as int), addr).push((packet_bytes@, addr)) =~= addressed(data@.take(it.index@ as int + 1), addr));
        assert(self.socket.log() =~= old(self).socket.log() + addressed(data@.take(it.index@ as int + 1), addr));
    }
//@ tail
    proof { assert(data@.take(data@.len() as int) =~= data@); }
//@ end
//@ endimpl
//@ presubst vec![0; self.inbound_wire.transmission_size()].into_boxed_slice() => zeroed(self.inbound_wire.transmission_size())
//@ presubst &buf[..size] => first_of(&buf, size)
//@ src src/core/transport/wire/tcp.rs
//@ item TcpStreamInboundWire #[verifier::reject_recursive_types(V)] #[verifier::reject_recursive_types(D)]
//@ item TcpStreamOutboundWire #[verifier::reject_recursive_types(S)] #[verifier::reject_recursive_types(E)]
//@ impl TcpStreamInboundWire<V, D>
//@ fn read
//@ ret r
    requires
        old(self).stream.peer() == old(self).remote_addr,
        !old(self).stream.over(),
    ensures
        stepped(r), // [C18]
        final(self).stream.over() == (r is Err && r->Err_0 is IO), // [C18]
        final(self).stream.peer() == final(self).remote_addr && final(self).remote_addr == old(self).remote_addr,
//@ before process 0
        proof {
            let b = buf@.take(size as int);
            assert forall|p: Result<Option<Vec<u8>>, InputProcessorError>| #[trigger] processed(b, p) implies stepped(as_step(p, self.remote_addr)) by { step_of(b, self.remote_addr, p); };
        }
//@ end
//@ endimpl
//@ impl TcpStreamOutboundWire<S, E>
//@ fn write
//@ ret r
    ensures
        r is Err ==> send_failed(buf@, r->Err_0), // [C01,C12]
        r is Ok ==> written_all(old(self).stream.log(), final(self).stream.log(), buf@), // [C01,C12]
        write_tried(old(self).stream.log(), final(self).stream.log(), buf@), // [C12]
        final(self).stream.peer() == old(self).stream.peer(),
//@ loop 0 iter it
//@ loop 0
    invariant
        it.seq().len() == data@.len(),
        forall|i: int| 0 <= i < data@.len() ==> *#[trigger] it.seq()[i] == data@[i],
        split_into(buf@, data@),
        forall|i: int| 0 <= i < it.index@ ==> took_all(#[trigger] data@[i]@),
        self.stream.peer() == old(self).stream.peer(),
        self.stream.log() == old(self).stream.log() + contents(data@.take(it.index@ as int)),
//@ loop 0 start
    proof {
        assert(contents(data@.take(it.index@ as int)).push(packet_bytes@) =~= contents(data@.take(it.index@ as int + 1)));
        assert(self.stream.log().push(packet_bytes@) =~= old(self).stream.log() + contents(data@.take(it.index@ as int + 1)));
    }
//@ loop 0 end
    proof {
        assert(contents(data@.take(it.index@ as int)).push(packet_bytes@) =~= contents(data@.take(it.index@ as int + 1)));
        assert(self.stream.log() =~= old(self).stream.log() + contents(data@.take(it.index@ as int + 1)));
    }
//@ tail
    proof { assert(data@.take(data@.len() as int) =~= data@); }
//@ end
//@ endimpl
/// what a receive step gives the application, if anything
pub open spec fn handed_on<T>(r: StepResult, sender: mpsc::Sender<T>) -> Option<(Msg, SocketAddr, mpsc::Sender<T>)> {
    match r {
        Ok((Some(data), addr)) => match serde_cbor::decoded(data@) {
            Some(m) => Some((m, addr, sender)),
            None => None,
        },
        _ => None,
    }
}
pub open spec fn may_hand_on<T>(chan: int, r: StepResult, sender: mpsc::Sender<T>) -> bool {
    forall|x: (Msg, SocketAddr, mpsc::Sender<T>)| handed_on(r, sender) == Some(x) ==> #[trigger] mpsc::may_put(chan, x)
}
//@ src src/core/event/mod.rs
//@ subst where T: Send + 'static, =>
//@ fn process_inbound
//@ ret r
    requires
        on_inbound_tx.uses() == 1,
        may_hand_on(on_inbound_tx.chan(), result, sender),
    ensures
        r == !(result is Err && result->Err_0 is IO), // [C18]
        handed_on(result, sender) is Some ==> mpsc::put(on_inbound_tx.chan(), handed_on(result, sender)->0) || mpsc::closed(on_inbound_tx.chan()), // [C18]
//@ end
//@ unsubst
//@ presubst tx.clone(), reader => tx.another(), reader
//@ src src/core/event/udp.rs
/// all steps may hand on what they bring
pub open spec fn may_hand_all<T>(chan: int, replies: int) -> bool {
    forall|r: StepResult, s: mpsc::Sender<T>| #[trigger] stepped(r) && s.chan() == replies ==> #[trigger] may_hand_on(chan, r, s)
}
/// each `(bytes, address)` put on the channel is sent on, to that address
pub uninterp spec fn sent_on(chan: int) -> bool;
/// `bytes` put on the channel are written to the stream from `a`
pub uninterp spec fn written_on(chan: int, a: SocketAddr) -> bool;
/// what comes in from `a` (from anywhere, for `None`) is handed on through `on`, to be
/// answered through `replies`
pub uninterp spec fn answered_via(a: Option<SocketAddr>, on: int, replies: int) -> bool;
#[verifier::external_body]
pub proof fn means_answered_via(a: Option<SocketAddr>, on: int, replies: int) ensures answered_via(a, on, replies) { }
/// what these say is what the loops' own assertions have shown of every round
#[verifier::external_body]
pub proof fn means_sent_on(chan: int) ensures sent_on(chan) { }
#[verifier::external_body]
pub proof fn means_written_on(chan: int, a: SocketAddr) ensures written_on(chan, a) { }
//@ subst super::process_inbound => process_inbound
//@ fn udp_socket_inbound_loop
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ ret r
    requires
        tx.uses() < 0,
        on_inbound_tx.uses() < 0,
        may_hand_all::<(Vec<u8>, SocketAddr)>(on_inbound_tx.chan(), tx.chan()),
        !reader.socket.over(),
    ensures
        transport_failed(), // [C18]
        answered_via(None, on_inbound_tx.chan(), tx.chan()), // [C12,C14]
//@ start
    let ghost (on0, out0) = (on_inbound_tx.chan(), tx.chan());
    proof { means_answered_via(None, on0, out0); }
//@ loop 0
    invariant_except_break !reader.socket.over(), // [C18]
    invariant
        tx.uses() < 0,
        on_inbound_tx.uses() < 0,
        on0 == on_inbound_tx.chan() && out0 == tx.chan(), // [C12,C14]
        may_hand_all::<(Vec<u8>, SocketAddr)>(on_inbound_tx.chan(), tx.chan()),
    ensures transport_failed(), // [C18]
//@ end
//@ fn udp_socket_outbound_loop
    ensures
        mpsc::closed(rx.chan()), // [C12,C14]
        sent_on(rx.chan()), // [C12,C14]
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ start
    let ghost chan = rx.chan();
    proof { means_sent_on(chan); }
//@ loop 0
    invariant chan == rx.chan(),
    ensures mpsc::closed(chan),
//@ loop 0 start
    let ghost sent_before = writer.socket.log();
    let ghost m0 = msg@;
    let ghost a0 = addr;
//@ loop 0 end
    proof { assert(send_tried(sent_before, writer.socket.log(), m0, a0)); } // [C12,C14]
//@ end
//@ endsrc
//@ presubst tx.clone(), reader => tx.another(), reader
//@ presubst event_manager.tx.clone() => event_manager.tx.another()
//@ presubst on_inbound_tx.clone(), max_outbound_queue => on_inbound_tx.another(), max_outbound_queue
//@ presubst Arc::new(Mutex::new(HashMap::new())) => &mut HashMap::new()
//@ presubst Arc<Mutex<HashMap<SocketAddr, mpsc::Sender<Vec<u8>>>>,> = => &mut HashMap<SocketAddr, mpsc::Sender<Vec<u8>>> =
//@ presubst .get_mut(&addr) => .at_mut(&addr)
//@ src src/core/event/tcp.rs
//@ fn tcp_stream_outbound_loop
    ensures
        mpsc::closed(rx.chan()), // [C12,C14]
        written_on(rx.chan(), writer.stream.peer()), // [C12,C14]
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ start
    let ghost chan = rx.chan();
    let ghost peer = writer.stream.peer();
    proof { means_written_on(chan, peer); }
//@ loop 0
    invariant chan == rx.chan(), peer == writer.stream.peer(),
    ensures mpsc::closed(chan),
//@ loop 0 start
    let ghost sent_before = writer.stream.log();
    let ghost m0 = msg@;
//@ loop 0 end
    proof { assert(write_tried(sent_before, writer.stream.log(), m0)); } // [C12,C14]
//@ end
//@ fn tcp_stream_inbound_loop
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ ret r
    requires
        tx.uses() < 0,
        on_inbound_tx.uses() < 0,
        reader.stream.peer() == reader.remote_addr,
        may_hand_all::<Vec<u8>>(on_inbound_tx.chan(), tx.chan()),
        !reader.stream.over(), // [C18]
    ensures
        transport_failed(), // [C18]
        answered_via(Some(reader.remote_addr), on_inbound_tx.chan(), tx.chan()), // [C12,C14]
//@ start
    let ghost (a0, on0, out0) = (reader.remote_addr, on_inbound_tx.chan(), tx.chan());
    proof { means_answered_via(Some(a0), on0, out0); }
//@ loop 0
    invariant_except_break !reader.stream.over(), // [C18]
    invariant
        tx.uses() < 0,
        on_inbound_tx.uses() < 0,
        on0 == on_inbound_tx.chan() && out0 == tx.chan() && a0 == reader.remote_addr, // [C12,C14]
        reader.stream.peer() == reader.remote_addr,
        may_hand_all::<Vec<u8>>(on_inbound_tx.chan(), tx.chan()),
    ensures transport_failed(), // [C18]
//@ end
//@ endsrc
//@ unsubst
