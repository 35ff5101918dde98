//@ src src/core/transport/crypto/nonce/mod.rs
//@ keep Clone, Copy
//@ item Nonce96Bits
//@ item Nonce128Bits
//@ item Nonce
//@ src src/core/transport/auth/digest.rs
//@ keep Clone
//@ item Digest256Bits
//@ item Digest512Bits
//@ item Digest
//@ src src/core/transport/crypto/mod.rs
//@ keep
//@ item AssociatedData
// the derived Clone (assumed): an equal value
impl Clone for AssociatedData {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
//@ item CryptError
impl vstd::std_specs::convert::FromSpecImpl<Option<Nonce>> for AssociatedData {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: Option<Nonce>) -> Self { arbitrary() }
}
//@ impl From<Option<Nonce>> for AssociatedData
//@ fn from
//@ ret r
    ensures r == ad_of(nonce), // [C01 C05]
//@ end
//@ endimpl
pub open spec fn ad_of(n: Option<Nonce>) -> AssociatedData {
    match n { None => AssociatedData::None, Some(x) => AssociatedData::Nonce(x) }
}
pub open spec fn ad_nonce(a: AssociatedData) -> Option<Nonce> {
    match a { AssociatedData::None => None, AssociatedData::Nonce(x) => Some(x) }
}

