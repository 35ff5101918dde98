//@ src src/core/transport/crypto/nonce/mod.rs
//@ keep Clone, Copy
//@ subst slice.try_into() => try_into_array(slice)
//@ subst use std::convert::TryInto; =>
//@ subst rand::thread_rng().gen::<Nonce96Bits>() => random_array()
//@ subst rand::thread_rng().gen::<Nonce128Bits>() => random_array()
#[verifier::external_body]
pub fn random_array<const N: usize>() -> (r: [u8; N]) { unimplemented!() }
//@ item NonceSize
pub open spec fn size_of_nonce(s: NonceSize) -> nat {
    match s { NonceSize::Nonce96Bits => 12, NonceSize::Nonce128Bits => 16 }
}
pub open spec fn nonce_bytes(n: Nonce) -> Seq<u8> {
    match n { Nonce::Nonce96Bits(b) => b@, Nonce::Nonce128Bits(b) => b@ }
}
//@ impl Nonce
//@ fn from_slice
//@ ret r
    ensures
        r.is_some() == (slice@.len() == 12 || slice@.len() == 16), // [C19]
        r matches Some(n) ==> nonce_bytes(n) == slice@, // [C19]
//@ end
//@ fn as_slice
//@ ret r
    ensures r@ == nonce_bytes(*self), // [C05 C06 C19]
//@ end
//@ endimpl
impl vstd::std_specs::convert::FromSpecImpl<Nonce96Bits> for Nonce {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: Nonce96Bits) -> Self { arbitrary() }
}
impl vstd::std_specs::convert::FromSpecImpl<Nonce128Bits> for Nonce {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: Nonce128Bits) -> Self { arbitrary() }
}
impl vstd::std_specs::convert::FromSpecImpl<NonceSize> for Nonce {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: NonceSize) -> Self { arbitrary() }
}
impl vstd::std_specs::convert::FromSpecImpl<Nonce> for NonceSize {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: Nonce) -> Self { arbitrary() }
}
//@ impl From<Nonce96Bits> for Nonce
//@ fn from
//@ ret r
    ensures r == Nonce::Nonce96Bits(buffer), // [C19]
//@ end
//@ endimpl
//@ impl From<Nonce128Bits> for Nonce
//@ fn from
//@ ret r
    ensures r == Nonce::Nonce128Bits(buffer), // [C19]
//@ end
//@ endimpl
//@ impl NonceSize
//@ fn size_in_bytes
//@ ret r
    ensures r == size_of_nonce(self), // [C05 C19]
//@ end
//@ endimpl
//@ impl From<Nonce> for NonceSize
//@ fn from
//@ ret r
    ensures size_of_nonce(r) == nonce_bytes(nonce).len(), // [C19]
//@ end
//@ endimpl
//@ impl From<NonceSize> for Nonce
//@ fn from
//@ ret r
    ensures nonce_bytes(r).len() == size_of_nonce(nonce_size), // [C05 C19]
//@ end
//@ endimpl
//@ fn validate_nonce_size
//@ ret r
    ensures
        r.is_ok() == (desired_size == size_of_nonce(nonce_size)), // [C05]
        r.is_err() ==> r->Err_0 == (CryptError::NonceWrongSize { provided_size: desired_size }), // [C05]
//@ end
//@ fn new_96bit_nonce
//@ end
//@ fn new_128bit_nonce
//@ end
//@ unsubst
//@ src src/core/transport/crypto/mod.rs
//@ impl AssociatedData
//@ fn nonce
//@ ret r
    ensures match r { Some(n) => ad_nonce(*self) == Some(*n), None => ad_nonce(*self) is None }, // [C05 C06]
//@ end
//@ fn nonce_slice
//@ ret r
    ensures match r { Some(s) => ad_nonce(*self) matches Some(n) && s@ == nonce_bytes(n), None => ad_nonce(*self) is None }, // [C05 C06]
//@ closure 0 (s: &[u8])
    ensures s@ == nonce_bytes(*n)
//@ end
//@ endimpl
//@ unsubst
impl vstd::std_specs::convert::FromSpecImpl<Nonce> for AssociatedData {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: Nonce) -> Self { arbitrary() }
}
impl vstd::std_specs::convert::FromSpecImpl<NonceSize> for AssociatedData {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: NonceSize) -> Self { arbitrary() }
}
//@ impl From<Nonce> for AssociatedData
//@ fn from
//@ ret r
    ensures r == AssociatedData::Nonce(nonce), // [C05]
//@ end
//@ endimpl
//@ impl From<NonceSize> for AssociatedData
//@ fn from
//@ ret r
    ensures r matches AssociatedData::Nonce(n) && nonce_bytes(n).len() == size_of_nonce(nonce_size), // [C05]
//@ end
//@ endimpl
