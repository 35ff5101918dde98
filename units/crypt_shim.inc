// ---- dependencies of the ciphers, as assumed contracts -------------------------
// The aead crates are modelled by an uninterpreted pair of partial functions per
// algorithm, keyed by key and nonce; their only law is that decryption inverts
// encryption.  A GenericArray of the wrong length panics, hence `requires`.
pub trait ArrayLen { spec fn len() -> nat; }
pub struct U12; pub struct U16; pub struct U32; pub struct U64;
impl ArrayLen for U12 { open spec fn len() -> nat { 12 } }
impl ArrayLen for U16 { open spec fn len() -> nat { 16 } }
impl ArrayLen for U32 { open spec fn len() -> nat { 32 } }
impl ArrayLen for U64 { open spec fn len() -> nat { 64 } }
#[verifier::external_body]
#[verifier::reject_recursive_types(N)]
pub struct GenericArray<N> { _p: core::marker::PhantomData<N> }
impl<N: ArrayLen> GenericArray<N> {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn clone_from_slice(s: &[u8]) -> (r: Self)
        requires s@.len() == N::len()
        ensures r@ == s@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_slice(s: &[u8]) -> (r: &Self)
        requires s@.len() == N::len()
        ensures r@ == s@
    { unimplemented!() }
}
pub mod aead {
    use super::*;
    verus! {
    #[verifier::external_body]
    pub struct Error { _p: () }
    }
}
pub enum Alg { Gcm128, Gcm256, GcmSiv128, GcmSiv256, Siv128, Siv256 }
/// the ciphertext of `plain` (None: the operation fails)
pub uninterp spec fn seal(a: Alg, key: Seq<u8>, nonce: Seq<u8>, plain: Seq<u8>) -> Option<Seq<u8>>;
/// the plaintext behind `cipher` (None: not authentic)
pub uninterp spec fn unseal(a: Alg, key: Seq<u8>, nonce: Seq<u8>, cipher: Seq<u8>) -> Option<Seq<u8>>;
/// what an AEAD is: decryption inverts encryption (assumed; exercised by the harness)
pub axiom fn axiom_aead(a: Alg, key: Seq<u8>, nonce: Seq<u8>, plain: Seq<u8>)
    ensures seal(a, key, nonce, plain) matches Some(c) ==> unseal(a, key, nonce, c) == Some(plain);
pub open spec fn seal_result(r: Result<Vec<u8>, aead::Error>, want: Option<Seq<u8>>) -> bool {
    match r { Ok(v) => want == Some(v@), Err(_) => want is None }
}
macro_rules! cipher_shim { ($name:ident, $alg:ident, $k:ident, $n:ident) => { verus! {
    #[verifier::external_body]
    pub struct $name { _p: () }
    impl $name {
        pub uninterp spec fn key(&self) -> Seq<u8>;
        #[verifier::external_body]
        pub fn new(key: GenericArray<$k>) -> (r: Self)
            ensures r.key() == key@
        { unimplemented!() }
        #[verifier::external_body]
        pub fn encrypt(&self, nonce: &GenericArray<$n>, buffer: &[u8]) -> (r: Result<Vec<u8>, aead::Error>)
            ensures seal_result(r, seal(Alg::$alg, self.key(), nonce@, buffer@))
        { unimplemented!() }
        #[verifier::external_body]
        pub fn decrypt(&self, nonce: &GenericArray<$n>, buffer: &[u8]) -> (r: Result<Vec<u8>, aead::Error>)
            ensures seal_result(r, unseal(Alg::$alg, self.key(), nonce@, buffer@))
        { unimplemented!() }
    }
} } }
cipher_shim!(Aes128Gcm, Gcm128, U16, U12);
cipher_shim!(Aes256Gcm, Gcm256, U32, U12);
cipher_shim!(Aes128GcmSiv, GcmSiv128, U16, U12);
cipher_shim!(Aes256GcmSiv, GcmSiv256, U32, U12);
cipher_shim!(Aes128SivAead, Siv128, U32, U16);
cipher_shim!(Aes256SivAead, Siv256, U64, U16);

pub struct TryFromSliceError;
/// `slice.try_into()` for `&[u8]` into an array
#[verifier::external_body]
pub fn try_into_array<const N: usize>(s: &[u8]) -> (r: Result<[u8; N], TryFromSliceError>)
    ensures
        r.is_ok() == (s@.len() == N),
        r.is_ok() ==> r->Ok_0@ == s@,
{ unimplemented!() }
