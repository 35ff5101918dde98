//@ src src/core/transport/wire/output/mod.rs
//@ keep
//@ subst encoder::EncoderError => EncoderError
//@ item OutputProcessorError
//@ item OutputProcessor
/// the group id is chosen at random: nothing is assumed about it
#[verifier::external_body]
pub fn random_u32() -> (r: u32) { unimplemented!() }
//@ subst rand::random() => random_u32()
pub open spec fn encoded(out: Seq<Vec<u8>>, s: Seq<Packet>, n: int) -> bool {
    out.len() == n && forall|i: int| 0 <= i < out.len() ==> (#[trigger] out[i])@ == cbor::<Packet>(s[i])
}
/// what is put on the wire for `data`
pub open spec fn sends<S: Signer, E: Encrypter>(out: Seq<Vec<u8>>, s: Seq<Packet>, data: Seq<u8>, cipher: Seq<u8>, id: u32, e: PacketEncryption, ad: AssociatedData, signer: S, encrypter: E) -> bool {
    &&& encrypter.encrypts(data, ad, cipher)
    &&& enc_nonce(e) == ad_nonce(ad)
    &&& encodes(s, cipher, id, e, signer)
    &&& encoded(out, s, s.len() as int)
}
pub open spec fn sent<S: Signer, E: Encrypter>(out: Seq<Vec<u8>>, data: Seq<u8>, signer: S, encrypter: E) -> bool {
    exists|s: Seq<Packet>, cipher: Seq<u8>, id: u32, e: PacketEncryption, ad: AssociatedData|
        #[trigger] sends(out, s, data, cipher, id, e, ad, signer, encrypter)
}
//@ impl OutputProcessor
//@ fn new
//@ ret r
    ensures
        wf_encoder(r.encoder), // [C01]
        r.transmission_size == transmission_size, // [C02]
        r.signer == signer, // [C04]
        r.encrypter == encrypter, // [C01]
//@ end
//@ fn process
//@ ret r
    requires
        wf_encoder(old(self).encoder),
        // a ciphertext of 4 GiB or more is out of scope (packet positions are u32)
        forall|ad: AssociatedData, c: Seq<u8>| #[trigger] old(self).encrypter.encrypts(data@, ad, c) ==> c.len() < u32::MAX,
    ensures
        wf_encoder(final(self).encoder), // [C01]
        final(self).transmission_size == old(self).transmission_size, // [C02]
        final(self).signer == old(self).signer, // [C04]
        final(self).encrypter == old(self).encrypter, // [C01]
        r.is_ok() ==> forall|i: int| 0 <= i < r->Ok_0@.len() ==> (#[trigger] r->Ok_0@[i])@.len() <= old(self).transmission_size, // [C02]
        r.is_ok() ==> sent(r->Ok_0@, data@, old(self).signer, old(self).encrypter), // [C01 C04]
//@ start
    let ghost plain = data@;
//@ tail
    proof {
        assert(sends(output@, packets@, plain, data@, id, encryption, associated_data, self.signer, self.encrypter));
    }
//@ loop 0 iter it
//@ loop 0
    invariant
        wf_encoder(self.encoder),
        self.transmission_size == old(self).transmission_size,
        self.signer == old(self).signer,
        self.encrypter == old(self).encrypter,
        it.seq().len() == packets@.len(),
        encoded(output@, packets@, it.index@),
//@ end
//@ fn new_id
//@ end
//@ endimpl
//@ unsubst
