// ---- serde / serde_cbor: an assumed pair of total functions; `cbor` is the
// byte encoding chosen by serde_cbor for a value, `uncbor` its partial inverse
pub mod serde_cbor {
    use super::*;
    verus! {
    #[verifier::external_body]
    pub struct Error { _p: () }
    #[verifier::external_body]
    pub fn from_slice<T>(s: &[u8]) -> (r: Result<T, Error>)
        ensures
            r.is_ok() == uncbor::<T>(s@).is_some(),
            r.is_ok() ==> r->Ok_0 == uncbor::<T>(s@).unwrap(),
    { unimplemented!() }
    pub mod ser {
        use super::super::*;
        verus! {
        #[verifier::external_body]
        pub fn to_vec_packed<T>(v: &T) -> (r: Result<Vec<u8>, super::Error>)
            ensures r.is_ok() ==> r->Ok_0@ == cbor::<T>(*v)
        { unimplemented!() }
        }
    }
    }
}
verus! {
pub uninterp spec fn cbor<T>(v: T) -> Seq<u8>;
pub uninterp spec fn uncbor<T>(s: Seq<u8>) -> Option<T>;
/// references encode as what they refer to (serde's `impl Serialize for &T`)
pub broadcast proof fn axiom_cbor_ref<T>(v: &T)
    ensures #[trigger] cbor::<&T>(v) == cbor::<T>(*v)
{ admit(); }
}
