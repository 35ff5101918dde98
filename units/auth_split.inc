// ---- the two halves of an authenticator
//@ src src/core/transport/auth/split.rs
//@ item SignerHalf
//@ item VerifierHalf
//@ impl Signer for SignerHalf<S>
    open spec fn signs(&self, message: Seq<u8>, d: Digest) -> bool { self.signer.signs(message, d) }
//@ fn sign
//@ ret r
    ensures self.signer.signs(message@, r), // [C04]
//@ end
//@ endimpl
//@ impl Verifier for VerifierHalf<V>
    open spec fn accepts(&self, message: Seq<u8>, d: Digest) -> bool { self.verifier.accepts(message, d) }
//@ fn verify
//@ ret r
    ensures r == self.verifier.accepts(message@, *signature), // [C04]
//@ end
//@ endimpl
pub mod auth_split {
    use super::*;
    verus! {
//@ fn split
//@ ret r
    ensures *r.0.signer == authenticator, *r.1.verifier == authenticator, // [C04]
//@ end
//@ fn clone_split
//@ ret r
    ensures r.0 == original, cloned(original, r.1), // [C04]
//@ end
    }
}
