//@ src src/core/transport/wire/input/mod.rs
//@ keep
//@ subst decoder::DecoderError => DecoderError
//@ item InputProcessorError
//@ item InputProcessor

/// what `process` does with a packet `p` that parsed and carries a signature
/// the verifier accepts, when the groups still alive are `gp`
pub open spec fn takes_packet<D: Decrypter>(
    gp: Groups, p: Packet, decrypter: D, g2: Groups, r: Result<Option<Vec<u8>>, InputProcessorError>,
) -> bool {
    let id = p.metadata.id;
    match refusal(gp, p) {
        Some(e) => r == Err::<Option<Vec<u8>>, InputProcessorError>(InputProcessorError::DecodeData(e)) && g2 == gp,
        None => exists|ga: Groups| {
            &&& #[trigger] added(gp, ga, p)
            &&& if !complete(ga, id) {
                    r == Ok::<Option<Vec<u8>>, InputProcessorError>(None) && g2 == ga
                } else {
                    delivers(ga, id, decrypter, g2, r)
                }
        },
    }
}
/// the complete group `id` is handed out decrypted and forgotten, unless it
/// does not decrypt
pub open spec fn delivers<D: Decrypter>(
    ga: Groups, id: u32, decrypter: D, g2: Groups, r: Result<Option<Vec<u8>>, InputProcessorError>,
) -> bool {
    let last = held(ga, id)[last_of(ga, id).unwrap()];
    match r {
        Ok(out) => {
            &&& out.is_some()
            &&& decrypter.decrypts(message(ga, id), ad_of(type_nonce(last.metadata.r#type)), out.unwrap()@)
            &&& g2 == ga.remove(id)
        },
        Err(e) => e is DecryptData && g2 == ga,
    }
}

//@ impl InputProcessor
//@ fn new
//@ ret r
    ensures
        r.decoder.packet_groups@ == Map::<u32, (TtlValue<u32>, PacketGroup)>::empty(), // [C01 C03]
        r.decoder.ttl == packet_ttl, // [C07]
        r.verifier == verifier, // [C04]
        r.decrypter == decrypter, // [C01]
//@ end
//@ fn process
//@ ret r
    requires wf_groups(old(self).decoder.packet_groups@),
    ensures
        wf_groups(final(self).decoder.packet_groups@), // [C01 C03]
        final(self).decoder.ttl == old(self).decoder.ttl, // [C07]
        final(self).verifier == old(self).verifier, // [C04]
        final(self).decrypter == old(self).decrypter, // [C01]
        data@.len() == 0 ==> r == Ok::<Option<Vec<u8>>, InputProcessorError>(None), // [C03]
        data@.len() > 0 && uncbor::<Packet>(data@).is_none() ==> r.is_err() && r->Err_0 is EncodePacket, // [C03 C04]
        // nothing is kept or delivered unless it parsed and its signature is accepted
        (data@.len() == 0 || uncbor::<Packet>(data@).is_none() || !old(self).verifier.accepts(content(uncbor::<Packet>(data@).unwrap()), uncbor::<Packet>(data@).unwrap().signature))
            ==> final(self).decoder.packet_groups@ == old(self).decoder.packet_groups@, // [C03 C04]
        (data@.len() > 0 && uncbor::<Packet>(data@).is_some() && !old(self).verifier.accepts(content(uncbor::<Packet>(data@).unwrap()), uncbor::<Packet>(data@).unwrap().signature))
            ==> r.is_err() && (r->Err_0 is InvalidPacketSignature || r->Err_0 is UnableToVerifySignature), // [C04]
        (data@.len() > 0 && uncbor::<Packet>(data@).is_some() && old(self).verifier.accepts(content(uncbor::<Packet>(data@).unwrap()), uncbor::<Packet>(data@).unwrap().signature))
            ==> (r.is_err() && r->Err_0 is UnableToVerifySignature && final(self).decoder.packet_groups@ == old(self).decoder.packet_groups@)
                || exists|gp: Groups| #[trigger] purged(old(self).decoder.packet_groups@, gp)
                    && takes_packet(gp, uncbor::<Packet>(data@).unwrap(), old(self).decrypter, final(self).decoder.packet_groups@, r), // [C01 C03 C07]
//@ end
//@ endimpl
//@ fn verify_packet
//@ ret r
    ensures
        r.is_ok() ==> r->Ok_0 == verifier.accepts(content(*packet), packet.signature), // [C04]
        r.is_err() ==> r->Err_0 is UnableToVerifySignature, // [C04]
//@ end
//@ fn add_packet_and_verify
//@ ret r
    requires wf_groups(old(decoder).packet_groups@),
    ensures
        wf_groups(final(decoder).packet_groups@), // [C01 C03]
        final(decoder).ttl == old(decoder).ttl, // [C07]
        r.is_err() == refusal(old(decoder).packet_groups@, packet).is_some(), // [C01 C03]
        r.is_err() ==> r->Err_0 == InputProcessorError::DecodeData(refusal(old(decoder).packet_groups@, packet).unwrap()), // [C03]
        r.is_err() ==> final(decoder).packet_groups@ == old(decoder).packet_groups@, // [C01 C03]
        r.is_ok() ==> added(old(decoder).packet_groups@, final(decoder).packet_groups@, packet), // [C01 C03 C07]
        r.is_ok() ==> r->Ok_0 == complete(final(decoder).packet_groups@, packet.metadata.id), // [C01 C03]
//@ end
//@ fn decode_and_decrypt
//@ ret r
    requires wf_groups(decoder.packet_groups@),
    ensures
        r.is_ok() ==> complete(decoder.packet_groups@, group_id), // [C01 C03]
        r.is_ok() ==> decrypter.decrypts(message(decoder.packet_groups@, group_id), ad_of(nonce), r->Ok_0@), // [C01 C05]
        r.is_err() && complete(decoder.packet_groups@, group_id) ==> r->Err_0 is DecryptData, // [C01]
//@ end
