//@ src src/core/transport/wire/packet.rs
//@ keep Clone, Copy
//@ item PacketEncryption
//@ item PacketType
//@ item Metadata
//@ keep
//@ item Packet

/// serde_cbor decodes what it encoded (assumed; the wire harness exercises it)
pub broadcast proof fn axiom_packet_cbor_round_trip(p: Packet)
    ensures uncbor::<Packet>(#[trigger] cbor::<Packet>(p)) == Some(p)
{ admit(); }
/// the encoding of a packet is never the empty string (assumed)
pub broadcast proof fn axiom_packet_cbor_nonempty(p: Packet)
    ensures (#[trigger] cbor::<Packet>(p)).len() > 0
{ admit(); }

pub open spec fn enc_nonce(e: PacketEncryption) -> Option<Nonce> {
    match e { PacketEncryption::EncryptedWithNonce { nonce } => Some(nonce), _ => None }
}
pub open spec fn type_nonce(t: PacketType) -> Option<Nonce> {
    match t { PacketType::Final { encryption } => enc_nonce(encryption), _ => None }
}
pub open spec fn is_final(p: Packet) -> bool { p.metadata.r#type is Final }
pub open spec fn opt_deref<T>(o: Option<&T>) -> Option<T> {
    match o { Some(x) => Some(*x), None => None }
}
/// what a packet's signature is computed over
pub open spec fn content(p: Packet) -> Seq<u8> { cbor::<Metadata>(p.metadata) + p.data@ }

//@ impl PacketEncryption
//@ fn nonce
//@ ret r
    ensures opt_deref(r) == enc_nonce(*self), // [C01]
//@ end
//@ endimpl
impl vstd::std_specs::convert::FromSpecImpl<AssociatedData> for PacketEncryption {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: AssociatedData) -> Self { arbitrary() }
}
impl vstd::std_specs::convert::FromSpecImpl<Nonce> for PacketEncryption {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: Nonce) -> Self { arbitrary() }
}
//@ impl From<AssociatedData> for PacketEncryption
//@ fn from
//@ ret r
    ensures enc_nonce(r) == ad_nonce(associated_data), // [C01]
//@ end
//@ endimpl
//@ impl From<Nonce> for PacketEncryption
//@ fn from
//@ ret r
    ensures enc_nonce(r) == Some(nonce), // [C01]
//@ end
//@ endimpl
//@ impl PacketType
//@ fn nonce
//@ ret r
    ensures opt_deref(r) == type_nonce(*self), // [C01]
//@ end
//@ fn is_final
//@ ret r
    ensures r == (*self is Final), // [C01 C03]
//@ end
//@ endimpl
//@ impl Metadata
//@ fn to_vec
//@ ret r
    ensures r.is_ok() ==> r->Ok_0@ == cbor::<Metadata>(*self), // [C04]
//@ start
    broadcast use axiom_cbor_ref;
//@ end
//@ endimpl
//@ impl Packet
//@ fn new
//@ ret r
    ensures
        r.metadata == metadata, // [C01]
        r.signature == signature, // [C04]
        r.data == data, // [C01]
//@ end
//@ fn id
//@ ret r
    ensures r == self.metadata.id, // [C01 C03]
//@ end
//@ fn index
//@ ret r
    ensures r == self.metadata.index, // [C01 C03]
//@ end
//@ fn is_final
//@ ret r
    ensures r == is_final(*self), // [C01 C03]
//@ end
//@ fn signature
//@ ret r
    ensures *r == self.signature, // [C04]
//@ end
//@ fn content_for_signature
//@ ret r
    ensures r.is_ok() ==> r->Ok_0@ == content(*self), // [C04]
//@ end
//@ fn nonce
//@ ret r
    ensures opt_deref(r) == type_nonce(self.metadata.r#type), // [C01]
//@ end
//@ fn data
//@ ret r
    ensures *r == self.data, // [C01]
//@ end
//@ fn to_vec
//@ ret r
    ensures r.is_ok() ==> r->Ok_0@ == cbor::<Packet>(*self), // [C01 C02]
//@ start
    broadcast use axiom_cbor_ref;
//@ end
//@ fn from_slice
//@ ret r
    ensures
        r.is_ok() == uncbor::<Packet>(slice@).is_some(), // [C03 C04]
        r.is_ok() ==> r->Ok_0 == uncbor::<Packet>(slice@).unwrap(), // [C01 C03 C04]
//@ end
//@ endimpl
