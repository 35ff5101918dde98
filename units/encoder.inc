//@ src src/core/transport/wire/output/encoder.rs
//@ keep
//@ subst format!("{}{:?}", max_packet_size, r#type) => fmt_key(max_packet_size, r#type)
//@ subst format!("{}{:?}", data_size, r#type) => fmt_key(data_size, r#type)
//@ subst (0..data_size).map(|_| rand::random::<u8>()).collect() => random_bytes(data_size)
//@ subst (0..data_size).map(|_p0| rand::random::<u8>()).collect() => random_bytes(data_size)
//@ item EncodeArgs
//@ item EncoderError
//@ item Encoder

/// cache keys and filler bytes: nothing is assumed about their content
#[verifier::external_body]
pub fn fmt_key(n: usize, t: PacketType) -> (r: String) { unimplemented!() }
#[verifier::external_body]
pub fn random_bytes(n: usize) -> (r: Vec<u8>)
    ensures r@.len() == n
{ unimplemented!() }

/// the concatenated payloads of `s`
pub open spec fn cat(s: Seq<Packet>) -> Seq<u8>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { cat(s.drop_last()) + s.last().data@ } }

/// packet `i` of `n`, as sent under `id`
pub open spec fn proper<S: Signer>(p: Packet, i: int, last: bool, id: u32, e: PacketEncryption, signer: S) -> bool {
    &&& p.metadata.id == id
    &&& p.metadata.index == i
    &&& p.metadata.r#type == (if last { PacketType::Final { encryption: e } } else { PacketType::NotFinal })
    &&& signer.signs(content(p), p.signature)
}

/// `s` is a faithful split of `data`
pub open spec fn encodes<S: Signer>(s: Seq<Packet>, data: Seq<u8>, id: u32, e: PacketEncryption, signer: S) -> bool {
    &&& s.len() >= 1
    &&& forall|i: int| 0 <= i < s.len() ==> proper(#[trigger] s[i], i, i == s.len() - 1, id, e, signer)
    &&& cat(s) == data
}
pub open spec fn fits(s: Seq<Packet>, max: usize) -> bool {
    forall|i: int| 0 <= i < s.len() ==> cbor::<Packet>(#[trigger] s[i]).len() <= max
}

/// every cached data size came from the search below, which starts at half the
/// packet size
pub open spec fn wf_encoder(e: Encoder) -> bool {
    forall|k: String| #[trigger] e.max_data_size_cache@.dom().contains(k) ==> e.max_data_size_cache@[k] <= usize::MAX / 2 + 1
}
//@ impl Encoder
//@ fn encode
//@ ret r
    requires
        wf_encoder(*old(self)),
        info.data@.len() < u32::MAX, // a message of 4 GiB or more is out of scope (index is a u32)
    ensures
        r.is_ok() ==> encodes(r->Ok_0@, info.data@, info.id, info.encryption, *info.signer), // [C01 C04]
        r.is_ok() ==> fits(r->Ok_0@, info.max_packet_size), // [C02]
        wf_encoder(*final(self)), // [C01]
//@ loop 0
    invariant
        data@.len() < u32::MAX,
        not_final_max_data_size > 0,
        final_max_data_size > 0,
        i <= data@.len(),
        packets@.len() <= i || (data@.len() == 0 && packets@.len() <= 1),
        forall|k: int| 0 <= k < packets@.len() ==>
            proper(#[trigger] packets@[k], k, i == data@.len() && k == packets@.len() - 1, id, encryption, *signer),
        cat(packets@) == data@.subrange(0, i as int),
        fits(packets@, max_packet_size),
        wf_encoder(*self),
        final_max_data_size <= usize::MAX / 2 + 1,
        not_final_max_data_size <= usize::MAX / 2 + 1,
    decreases data@.len() - i, 1 - packets@.len(),
//@ loop 1
    invariant
        data@.len() < u32::MAX,
        i <= data@.len(),
        remaining_data_size == data@.len() - i,
        data_size <= remaining_data_size,
        remaining_data_size > 0 ==> data_size > 0,
        packets@.len() < u32::MAX,
        wf_encoder(*self),
    ensures
        wf_encoder(*self),
        data_size <= remaining_data_size,
        remaining_data_size > 0 ==> data_size > 0,
        proper(brk_packet, packets@.len() as int, data_size == remaining_data_size, id, encryption, *signer),
        brk_packet.data@ == data@.subrange(i as int, i + data_size),
        cbor::<Packet>(brk_packet).len() <= max_packet_size,
    decreases data_size,
//@ after push 0
    proof {
        assert(packets@.drop_last() =~= old_packets);
        assert(data@.subrange(0, i as int) + data@.subrange(i as int, i + data_size)
            =~= data@.subrange(0, i + data_size));
    }
//@ before push 0
    let ghost old_packets = packets@;
//@ tail
    proof { assert(data@.subrange(0, data@.len() as int) =~= data@); }
//@ end
//@ fn make_new_packet
//@ ret r
    ensures
        r.is_ok() ==> r->Ok_0.metadata == (Metadata { id, index, r#type }), // [C01]
        r.is_ok() ==> r->Ok_0.data@ == data@, // [C01]
        r.is_ok() ==> signer.signs(content(r->Ok_0), r->Ok_0.signature), // [C04]
//@ start
    broadcast use lemma_bytes_cloned;
//@ closure 0 (p: Packet)
    requires md@ == cbor::<Metadata>(metadata)
    ensures p.metadata == metadata, p.data@ == data@, signer.signs(content(p), p.signature)
//@ end
//@ fn find_optimal_max_data_size
//@ ret r
    requires wf_encoder(*old(self)),
    ensures
        r.is_ok() ==> r->Ok_0 <= usize::MAX / 2 + 1, // [C01]
        wf_encoder(*final(self)), // [C01]
//@ start
    broadcast use axiom_string_key;
//@ loop 0
    invariant
        data_size <= (max_packet_size / 2) + 1,
        best_data_size <= (max_packet_size / 2) + 1,
        wf_encoder(*self),
    decreases data_size, (if data_size > best_data_size { 1int } else { 0 }),
//@ end
//@ fn estimate_packet_size
//@ ret r
    requires wf_encoder(*old(self)),
    ensures wf_encoder(*final(self)), // [C01]
//@ end
//@ endimpl
//@ impl Default for Encoder
//@ fn default
//@ ret r
    ensures wf_encoder(r), // [C01]
//@ end
//@ endimpl
//@ unsubst
