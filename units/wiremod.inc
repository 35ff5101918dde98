// ---- the wires: one configuration, split into the receiving and the sending side ----
//@ src src/core/transport/auth/impls.rs
//@ keep
//@ item Authenticator
//@ src src/core/transport/crypto/mod.rs
//@ item Bicrypter
//@ include auth_split.inc
//@ include crypt_split.inc
pub mod net {
    use super::*;
    verus! {
    /// a socket is known by a number; the halves of it keep that number
    #[verifier::external_body]
    pub struct TcpStream { _p: () }
    impl TcpStream { pub uninterp spec fn no(&self) -> int; }
    #[verifier::external_body]
    pub struct UdpSocket { _p: () }
    #[verifier::external_body]
    pub struct RecvHalf { _p: () }
    #[verifier::external_body]
    pub struct SendHalf { _p: () }
    impl RecvHalf { pub uninterp spec fn no(&self) -> int; }
    impl SendHalf { pub uninterp spec fn no(&self) -> int; }
    impl UdpSocket {
        pub uninterp spec fn no(&self) -> int;
        #[verifier::external_body]
        pub fn split(self) -> (r: (RecvHalf, SendHalf))
            ensures r.0.no() == self.no(), r.1.no() == self.no()
        { unimplemented!() }
    }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct ReadHalf<T> { _p: core::marker::PhantomData<T> }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct WriteHalf<T> { _p: core::marker::PhantomData<T> }
    impl<T> ReadHalf<T> { pub uninterp spec fn of(&self) -> T; }
    impl<T> WriteHalf<T> { pub uninterp spec fn of(&self) -> T; }
    #[verifier::external_body]
    pub struct SocketAddr { _p: () }
    }
}
pub use net::*;
pub mod io {
    use super::*;
    verus! {
    #[verifier::external_body]
    pub struct Error { _p: () }
    #[verifier::external_body]
    pub fn split<T>(s: T) -> (r: (ReadHalf<T>, WriteHalf<T>))
        ensures r.0.of() == s, r.1.of() == s
    { unimplemented!() }
    pub use super::net::{ReadHalf, WriteHalf};
    }
}
//@ src src/core/transport/wire/mod.rs
//@ keep
//@ subst output::OutputProcessorError => OutputProcessorError
//@ subst auth::split::split => auth_split::split
//@ subst auth::split::clone_split => auth_split::clone_split
//@ subst crypto::split::split => split
//@ subst crypto::split::clone_split => clone_split
//@ subst auth::split:: =>
//@ subst crypto::split:: =>
//@ subst tokio::io:: => io::
//@ subst tcp:: =>
//@ subst udp::UdpSocketWire => UdpSocketWire
//@ subst udp::UdpSocketInboundWire => UdpSocketInboundWire
//@ subst udp::UdpSocketOutboundWire => UdpSocketOutboundWire
//@ subst tokio::net::udp:: => net::
//@ item Wire #[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(B)]
//@ item InboundWireError
//@ item OutboundWireError
//@ item InboundWire #[verifier::reject_recursive_types(V)] #[verifier::reject_recursive_types(D)]
//@ item OutboundWire #[verifier::reject_recursive_types(S)] #[verifier::reject_recursive_types(E)]
/// the receiving side holds nothing yet, expects what the sending side may send, and
/// forgets after the configured time
pub open spec fn fresh_in<V: Verifier, D: Decrypter>(w: InboundWire<V, D>, size: usize, ttl: Duration) -> bool {
    &&& w.transmission_size == size
    &&& w.input_processor.decoder.ttl == ttl
    &&& w.input_processor.decoder.packet_groups@ == Map::<u32, (TtlValue<u32>, PacketGroup)>::empty()
}
pub open spec fn fresh_out<S: Signer, E: Encrypter>(w: OutboundWire<S, E>, size: usize) -> bool {
    w.output_processor.transmission_size == size && wf_encoder(w.output_processor.encoder)
}
pub open spec fn arc_halves<A: Authenticator, B: Bicrypter>(w: Wire<A, B>,
    i: InboundWire<VerifierHalf<A>, DecrypterHalf<B>>, o: OutboundWire<SignerHalf<A>, EncrypterHalf<B>>) -> bool {
    &&& fresh_in(i, w.transmission_size, w.packet_ttl)
    &&& fresh_out(o, w.transmission_size)
    &&& *i.input_processor.verifier.verifier == w.authenticator
    &&& *o.output_processor.signer.signer == w.authenticator
    &&& *i.input_processor.decrypter.decrypter == w.bicrypter
    &&& *o.output_processor.encrypter.encrypter == w.bicrypter
}
pub open spec fn clone_of<T: Clone>(x: T, y: T) -> bool { x == y || cloned(x, y) }
pub open spec fn clone_halves<A: Authenticator + Clone, B: Bicrypter + Clone>(w: Wire<A, B>,
    i: InboundWire<A, B>, o: OutboundWire<A, B>) -> bool {
    &&& fresh_in(i, w.transmission_size, w.packet_ttl)
    &&& fresh_out(o, w.transmission_size)
    &&& clone_of(w.authenticator, i.input_processor.verifier)
    &&& clone_of(w.authenticator, o.output_processor.signer)
    &&& clone_of(w.bicrypter, i.input_processor.decrypter)
    &&& clone_of(w.bicrypter, o.output_processor.encrypter)
}
/// one received datagram: what `InputProcessor::process` answers and keeps
pub open spec fn input_step<V: Verifier, D: Decrypter>(a: InputProcessor<V, D>, b: InputProcessor<V, D>, data: Seq<u8>, r: Result<Option<Vec<u8>>, InputProcessorError>) -> bool {
    let q = uncbor::<Packet>(data);
    let trusted = data.len() > 0 && q.is_some() && a.verifier.accepts(content(q.unwrap()), q.unwrap().signature);
    &&& b.decoder.ttl == a.decoder.ttl && b.verifier == a.verifier && b.decrypter == a.decrypter
    &&& data.len() == 0 ==> r == Ok::<Option<Vec<u8>>, InputProcessorError>(None)
    &&& !trusted ==> b.decoder.packet_groups@ == a.decoder.packet_groups@ && (data.len() > 0 ==> r is Err)
    &&& trusted ==> (r is Err && r->Err_0 is UnableToVerifySignature && b.decoder.packet_groups@ == a.decoder.packet_groups@)
            || exists|gp: Groups| #[trigger] purged(a.decoder.packet_groups@, gp)
                && takes_packet(gp, q.unwrap(), a.decrypter, b.decoder.packet_groups@, r)
}
/// the wire passes the answer on
pub open spec fn wire_in(r: Result<Option<Vec<u8>>, InboundWireError>) -> Result<Option<Vec<u8>>, InputProcessorError> {
    match r {
        Ok(x) => Ok(x),
        Err(InboundWireError::InputProcessor(e)) => Err(e),
        Err(_) => arbitrary(),
    }
}
//@ src src/core/transport/wire/tcp.rs
//@ item TcpStreamWire #[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(B)]
//@ item TcpStreamInboundWire #[verifier::reject_recursive_types(V)] #[verifier::reject_recursive_types(D)]
//@ item TcpStreamOutboundWire #[verifier::reject_recursive_types(S)] #[verifier::reject_recursive_types(E)]
//@ impl TcpStreamWire<A, B>
//@ fn new
//@ ret r
    ensures r.wire == wire && r.stream == stream && r.remote_addr == remote_addr, // [C01 C18]
//@ end
//@ fn arc_split
//@ ret r
    ensures
        r.0.stream.of() == self.stream && r.1.stream.of() == self.stream, // [C01]
        r.0.remote_addr == self.remote_addr, // [C18]
        arc_halves(self.wire, r.0.inbound_wire, r.1.outbound_wire), // [C01 C02 C04 C07]
//@ end
//@ endimpl
//@ impl TcpStreamWire<A, B>
//@ fn clone_split
//@ ret r
    ensures
        r.0.stream.of() == self.stream && r.1.stream.of() == self.stream, // [C01]
        r.0.remote_addr == self.remote_addr, // [C18]
        clone_halves(self.wire, r.0.inbound_wire, r.1.outbound_wire), // [C01 C02 C04 C07]
//@ end
//@ endimpl
//@ impl TcpStreamInboundWire<V, D>
//@ fn new
//@ ret r
    ensures r.inbound_wire == inbound_wire && r.stream == stream && r.remote_addr == remote_addr, // [C01 C18]
//@ end
//@ endimpl
//@ impl TcpStreamOutboundWire<S, E>
//@ fn new
//@ ret r
    ensures r.outbound_wire == outbound_wire && r.stream == stream, // [C01]
//@ end
//@ endimpl
//@ src src/core/transport/wire/udp.rs
//@ item UdpSocketWire #[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(B)]
//@ item UdpSocketInboundWire #[verifier::reject_recursive_types(V)] #[verifier::reject_recursive_types(D)]
//@ item UdpSocketOutboundWire #[verifier::reject_recursive_types(S)] #[verifier::reject_recursive_types(E)]
//@ impl UdpSocketWire<A, B>
//@ fn new
//@ ret r
    ensures r.wire == wire && r.socket == socket, // [C01]
//@ end
//@ fn arc_split
//@ ret r
    ensures
        r.0.socket.no() == self.socket.no() && r.1.socket.no() == self.socket.no(), // [C01]
        arc_halves(self.wire, r.0.inbound_wire, r.1.outbound_wire), // [C01 C02 C04 C07]
//@ end
//@ endimpl
//@ impl UdpSocketWire<A, B>
//@ fn clone_split
//@ ret r
    ensures
        r.0.socket.no() == self.socket.no() && r.1.socket.no() == self.socket.no(), // [C01]
        clone_halves(self.wire, r.0.inbound_wire, r.1.outbound_wire), // [C01 C02 C04 C07]
//@ end
//@ endimpl
//@ impl UdpSocketInboundWire<V, D>
//@ fn new
//@ ret r
    ensures r.inbound_wire == inbound_wire && r.socket == socket, // [C01]
//@ end
//@ endimpl
//@ impl UdpSocketOutboundWire<S, E>
//@ fn new
//@ ret r
    ensures r.outbound_wire == outbound_wire && r.socket == socket, // [C01]
//@ end
//@ endimpl
//@ src src/core/transport/wire/mod.rs
//@ impl Wire<A, B>
//@ fn new
//@ ret r
    ensures
        r.transmission_size == transmission_size, // [C02]
        r.packet_ttl == packet_ttl, // [C07]
        r.authenticator == authenticator, // [C04]
        r.bicrypter == bicrypter, // [C01]
//@ end
//@ fn transmission_size
//@ ret r
    ensures r == self.transmission_size, // [C02]
//@ end
//@ fn packet_ttl
//@ ret r
    ensures r == self.packet_ttl, // [C07]
//@ end
//@ fn with_tcp_stream
//@ ret r
    ensures r.wire == self && r.stream == stream && r.remote_addr == remote_addr, // [C01 C18]
//@ end
//@ fn with_udp_socket
//@ ret r
    ensures r.wire == self && r.socket == socket, // [C01]
//@ end
//@ fn arc_split
//@ ret r
    ensures arc_halves(self, r.0, r.1), // [C01 C02 C04 C07]
//@ end
//@ endimpl
//@ impl Wire<A, B>
//@ fn clone_split
//@ ret r
    ensures clone_halves(self, r.0, r.1), // [C01 C02 C04 C07]
//@ end
//@ endimpl
//@ impl InboundWire<V, D>
//@ fn new
//@ ret r
    ensures
        fresh_in(r, transmission_size, packet_ttl), // [C01 C02 C07]
        r.input_processor.verifier == verifier, // [C04]
        r.input_processor.decrypter == decrypter, // [C01]
//@ end
//@ fn transmission_size
//@ ret r
    ensures r == self.transmission_size, // [C02]
//@ end
//@ fn with_tcp_stream
//@ ret r
    ensures r.inbound_wire == self && r.stream == stream && r.remote_addr == remote_addr, // [C01 C18]
//@ end
//@ fn with_udp_socket
//@ ret r
    ensures r.inbound_wire == self && r.socket == socket, // [C01]
//@ end
//@ fn process
//@ ret r
    requires wf_groups(old(self).input_processor.decoder.packet_groups@),
    ensures
        wf_groups(final(self).input_processor.decoder.packet_groups@), // [C01 C03]
        final(self).transmission_size == old(self).transmission_size, // [C02]
        r is Err ==> r->Err_0 is InputProcessor, // [C03 C18]
        input_step(old(self).input_processor, final(self).input_processor, buf@, wire_in(r)), // [C01 C03 C04 C07]
//@ end
//@ endimpl
//@ impl OutboundWire<S, E>
//@ fn new
//@ ret r
    ensures
        fresh_out(r, transmission_size), // [C01 C02]
        r.output_processor.signer == signer, // [C04]
        r.output_processor.encrypter == encrypter, // [C01]
//@ end
//@ fn with_tcp_stream
//@ ret r
    ensures r.outbound_wire == self && r.stream == stream, // [C01]
//@ end
//@ fn with_udp_socket
//@ ret r
    ensures r.outbound_wire == self && r.socket == socket, // [C01]
//@ end
//@ fn process
//@ ret r
    requires
        wf_encoder(old(self).output_processor.encoder),
        forall|ad: AssociatedData, c: Seq<u8>| #[trigger] old(self).output_processor.encrypter.encrypts(buf@, ad, c) ==> c.len() < u32::MAX,
    ensures
        wf_encoder(final(self).output_processor.encoder), // [C01]
        final(self).output_processor.transmission_size == old(self).output_processor.transmission_size, // [C02]
        final(self).output_processor.signer == old(self).output_processor.signer, // [C04]
        final(self).output_processor.encrypter == old(self).output_processor.encrypter, // [C01]
        r.is_ok() ==> forall|i: int| 0 <= i < r->Ok_0@.len() ==> (#[trigger] r->Ok_0@[i])@.len() <= old(self).output_processor.transmission_size, // [C02]
        r.is_ok() ==> sent(r->Ok_0@, buf@, old(self).output_processor.signer, old(self).output_processor.encrypter), // [C01 C04]
//@ end
//@ endimpl
//@ fn new_inbound_outbound_wires
//@ ret r
    ensures
        fresh_in(r.0, transmission_size, packet_ttl), // [C01 C02 C07]
        fresh_out(r.1, transmission_size), // [C01 C02]
        r.0.input_processor.verifier == verifier && r.1.output_processor.signer == signer, // [C04]
        r.0.input_processor.decrypter == decrypter && r.1.output_processor.encrypter == encrypter, // [C01]
//@ end
//@ unsubst
/// C01/C02/C04: between two wires of the same size whose authenticators agree, every
/// datagram the one sends fits what the other reads at once, parses there and is
/// accepted by its verifier; and both use the cipher they were built with
pub proof fn theorem_wires<A: Authenticator, B: Bicrypter, A2: Authenticator, B2: Bicrypter>( // [C01 C02 C04]
    w: Wire<A, B>, i: InboundWire<VerifierHalf<A>, DecrypterHalf<B>>, o: OutboundWire<SignerHalf<A>, EncrypterHalf<B>>,
    w2: Wire<A2, B2>, i2: InboundWire<VerifierHalf<A2>, DecrypterHalf<B2>>, o2: OutboundWire<SignerHalf<A2>, EncrypterHalf<B2>>,
    out: Seq<Vec<u8>>, data: Seq<u8>, s: Seq<Packet>, cipher: Seq<u8>, id: u32, e: PacketEncryption, ad: AssociatedData, k: int)
    requires
        arc_halves(w, i, o), arc_halves(w2, i2, o2), w.transmission_size == w2.transmission_size,
        forall|m: Seq<u8>, d: Digest| #[trigger] w.authenticator.signs(m, d) ==> w2.authenticator.accepts(m, d),
        forall|p: Seq<u8>, a: AssociatedData, c: Seq<u8>| #[trigger] w.bicrypter.encrypts(p, a, c) ==> w2.bicrypter.decrypts(c, a, p),
        sends(out, s, data, cipher, id, e, ad, o.output_processor.signer, o.output_processor.encrypter),
        forall|j: int| 0 <= j < out.len() ==> (#[trigger] out[j])@.len() <= o.output_processor.transmission_size,
        0 <= k < out.len(),
    ensures
        0 < out[k]@.len() <= i2.transmission_size,
        uncbor::<Packet>(out[k]@) == Some(s[k]),
        i2.input_processor.verifier.accepts(content(s[k]), s[k].signature),
        i2.input_processor.decrypter.decrypts(cipher, ad_of(enc_nonce(e)), data),
{
    theorem_wire(out, s, cipher, id, e, o.output_processor.signer, i2.input_processor.verifier, k);
    assert(ad_of(ad_nonce(ad)) == ad);
}
