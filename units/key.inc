//@ src src/core/transport/crypto/key.rs
//@ keep Clone, Copy
//@ subst slice.try_into() => try_into_array(slice)
//@ subst use std::convert::TryInto; =>
//@ subst rand::thread_rng().fill(&mut buffer); => let buffer = fill_random(buffer);
#[verifier::external_body]
pub fn fill_random<const N: usize>(b: [u8; N]) -> (r: [u8; N]) { unimplemented!() }
//@ item Key128Bits
//@ item Key256Bits
//@ item Key512Bits
//@ item Key
//@ item KeySize
pub open spec fn key_bytes(k: Key) -> Seq<u8> {
    match k { Key::Key128Bits(b) => b@, Key::Key256Bits(b) => b@, Key::Key512Bits(b) => b@ }
}
pub open spec fn size_of_key(s: KeySize) -> nat {
    match s { KeySize::Key128Bits => 16, KeySize::Key256Bits => 32, KeySize::Key512Bits => 64 }
}
//@ impl Key
//@ fn from_slice
//@ ret r
    ensures
        r.is_some() == (slice@.len() == 16 || slice@.len() == 32 || slice@.len() == 64), // [C19]
        r matches Some(k) ==> key_bytes(k) == slice@, // [C19]
//@ end
//@ fn as_slice
//@ ret r
    ensures r@ == key_bytes(*self), // [C19]
//@ end
//@ fn key_size
//@ ret r
    ensures size_of_key(r) == key_bytes(*self).len(), // [C19]
//@ end
//@ endimpl
impl vstd::std_specs::convert::FromSpecImpl<Key128Bits> for Key {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: Key128Bits) -> Self { arbitrary() }
}
impl vstd::std_specs::convert::FromSpecImpl<Key256Bits> for Key {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: Key256Bits) -> Self { arbitrary() }
}
impl vstd::std_specs::convert::FromSpecImpl<Key512Bits> for Key {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: Key512Bits) -> Self { arbitrary() }
}
impl vstd::std_specs::convert::FromSpecImpl<KeySize> for usize {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: KeySize) -> Self { arbitrary() }
}
impl vstd::std_specs::convert::FromSpecImpl<KeySize> for Vec<u8> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: KeySize) -> Self { arbitrary() }
}
//@ impl From<Key128Bits> for Key
//@ fn from
//@ ret r
    ensures r == Key::Key128Bits(buffer), // [C19]
//@ end
//@ endimpl
//@ impl From<Key256Bits> for Key
//@ fn from
//@ ret r
    ensures r == Key::Key256Bits(buffer), // [C19]
//@ end
//@ endimpl
//@ impl From<Key512Bits> for Key
//@ fn from
//@ ret r
    ensures r == Key::Key512Bits(buffer), // [C19]
//@ end
//@ endimpl
//@ impl KeySize
//@ fn size_in_bytes
//@ ret r
    ensures r == size_of_key(self), // [C19]
//@ end
//@ endimpl
//@ impl From<KeySize> for usize
//@ fn from
//@ ret r
    ensures r == size_of_key(key_size), // [C19]
//@ end
//@ endimpl
//@ impl From<KeySize> for Vec<u8>
//@ fn from
//@ ret r
    ensures r@.len() == size_of_key(key_size), // [C19]
//@ end
//@ endimpl
//@ fn new_128bit_key
//@ end
//@ fn new_256bit_key
//@ end
//@ fn new_512bit_key
//@ end
//@ unsubst
