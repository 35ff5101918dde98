// ---- HMAC, as an assumed contract (crate hmac): a function of key and content ----
pub struct Sha256; pub struct Sha512;
pub trait HashFn { spec fn out() -> nat; }
impl HashFn for Sha256 { open spec fn out() -> nat { 32 } }
impl HashFn for Sha512 { open spec fn out() -> nat { 64 } }
pub uninterp spec fn hmac<D>(key: Seq<u8>, content: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
#[verifier::reject_recursive_types(D)]
pub struct Hmac<D> { _p: core::marker::PhantomData<D> }
#[verifier::external_body]
#[derive(Debug)]
pub struct MacKeyError { _p: () }
#[verifier::external_body]
pub struct MacError { _p: () }
#[verifier::reject_recursive_types(D)]
pub struct MacResult<D> { pub bytes: MacCode<D> }
#[verifier::external_body]
#[verifier::reject_recursive_types(D)]
pub struct MacCode<D> { _p: core::marker::PhantomData<D> }
impl<D> MacCode<D> {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
impl<D> MacResult<D> {
    #[verifier::external_body]
    pub fn code(self) -> (r: MacCode<D>) ensures r@ == self.bytes@ { unimplemented!() }
}
impl<D: HashFn> Hmac<D> {
    pub uninterp spec fn key(&self) -> Seq<u8>;
    pub uninterp spec fn fed(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new_varkey(key: &[u8]) -> (r: Result<Self, MacKeyError>)
        ensures r.is_ok(), r->Ok_0.key() == key@, r->Ok_0.fed().len() == 0
    { unimplemented!() }
    #[verifier::external_body]
    pub fn input(&mut self, content: &[u8])
        ensures final(self).key() == old(self).key(), final(self).fed() == old(self).fed() + content@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn result(self) -> (r: MacResult<D>)
        ensures r.bytes@ == hmac::<D>(self.key(), self.fed()), r.bytes@.len() == D::out()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn verify(self, code: &[u8]) -> (r: Result<(), MacError>)
        ensures r.is_ok() == (code@ == hmac::<D>(self.key(), self.fed()))
    { unimplemented!() }
}
pub open spec fn digest_bytes(d: Digest) -> Seq<u8> {
    match d { Digest::Digest256Bits(b) => b@, Digest::Digest512Bits(b) => b@ }
}
/// `d` is an HMAC of `content` under `key`
pub open spec fn is_mac(d: Digest, key: Seq<u8>, content: Seq<u8>) -> bool {
    match d {
        Digest::Digest256Bits(b) => b@ == hmac::<Sha256>(key, content),
        Digest::Digest512Bits(b) => b@ == hmac::<Sha512>(key, content),
    }
}
//@ src src/core/transport/auth/mod.rs
//@ subst buffer.clone_from_slice( => buffer.copy_from_slice(
//@ fn sign_sha256
//@ ret r
    ensures r@ == hmac::<Sha256>(key@, content@), // [C04]
//@ tail
    proof { assert(Seq::<u8>::empty() + content@ =~= content@); }
//@ end
//@ fn verify_sha256
//@ ret r
    ensures r == (code@ == hmac::<Sha256>(key@, content@)), // [C04]
//@ tail
    proof { assert(Seq::<u8>::empty() + content@ =~= content@); }
//@ end
//@ fn sign_sha512
//@ ret r
    ensures r@ == hmac::<Sha512>(key@, content@), // [C04]
//@ tail
    proof { assert(Seq::<u8>::empty() + content@ =~= content@); }
//@ end
//@ fn verify_sha512
//@ ret r
    ensures r == (code@ == hmac::<Sha512>(key@, content@)), // [C04]
//@ tail
    proof { assert(Seq::<u8>::empty() + content@ =~= content@); }
//@ end
//@ unsubst
//@ src src/core/transport/auth/digest.rs
//@ subst super:: =>
//@ impl Digest
//@ fn digest
//@ ret r
    ensures r@ == digest_bytes(*self), // [C04 C19]
//@ end
//@ fn verify
//@ ret r
    ensures r == is_mac(*self, key@, content@), // [C04]
//@ end
//@ endimpl
//@ impl Default for Digest
//@ fn default
//@ ret r
    ensures digest_bytes(r).len() == 32, // [C19]
//@ end
//@ endimpl
impl vstd::std_specs::convert::FromSpecImpl<Digest256Bits> for Digest {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Digest256Bits) -> Self { Digest::Digest256Bits(v) }
}
impl vstd::std_specs::convert::FromSpecImpl<Digest512Bits> for Digest {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Digest512Bits) -> Self { Digest::Digest512Bits(v) }
}
//@ impl From<Digest256Bits> for Digest
//@ fn from
//@ ret r
    ensures r == Digest::Digest256Bits(digest), // [C04 C19]
//@ end
//@ endimpl
//@ impl From<Digest512Bits> for Digest
//@ fn from
//@ ret r
    ensures r == Digest::Digest512Bits(digest), // [C04 C19]
//@ end
//@ endimpl
//@ impl TryFrom<&[u8]> for Digest as impl Digest
//@ subst Self::Error => &'static str
//@ fn try_from
//@ ret r
    ensures
        r.is_ok() == (value@.len() == 32 || value@.len() == 64), // [C19]
        r matches Ok(d) ==> digest_bytes(d) == value@, // [C19]
//@ end
//@ endimpl
//@ unsubst
//@ src src/core/transport/auth/impls.rs
//@ keep
//@ subst super:: =>
//@ item Authenticator
//@ item NoopAuthenticator
//@ item ClosureSigner
//@ item ClosureVerifier
//@ item Sha256Authenticator
//@ item Sha512Authenticator
//@ impl Default for NoopAuthenticator
//@ fn default
//@ end
//@ endimpl
//@ impl Default for Sha256Authenticator
//@ fn default
//@ ret r
    ensures r.key@.len() == 0, // [C04]
//@ end
//@ endimpl
//@ impl Default for Sha512Authenticator
//@ fn default
//@ ret r
    ensures r.key@.len() == 0, // [C04]
//@ end
//@ endimpl
//@ impl ClosureSigner<F>
//@ fn new
//@ ret r
    ensures r.f == f, // [C04]
//@ end
//@ endimpl
//@ impl ClosureVerifier<F>
//@ fn new
//@ ret r
    ensures r.f == f, // [C04]
//@ end
//@ endimpl
//@ impl Clone for ClosureSigner<F>
//@ fn clone
//@ ret r
    ensures cloned(self.f, r.f), // [C04]
//@ end
//@ endimpl
//@ impl Clone for ClosureVerifier<F>
//@ fn clone
//@ ret r
    ensures cloned(self.f, r.f), // [C04]
//@ end
//@ endimpl
/// assumed: a closure of the user's may be called on anything (safe Rust gives it no precondition)
#[verifier::external_body]
pub proof fn axiom_signs_anything<F: Fn(&[u8]) -> Digest>(f: F, m: &[u8])
    ensures f.requires((m,))
{}
//@ impl Signer for ClosureSigner<F>
    open spec fn signs(&self, message: Seq<u8>, d: Digest) -> bool { exists|b: &[u8]| b@ == message && #[trigger] self.f.ensures((b,), d) }
//@ fn sign
//@ ret r
    ensures self.f.ensures((message,), r), // [C04]
//@ start
    proof { axiom_signs_anything(self.f, message); }
//@ end
//@ endimpl
//@ impl Signer for NoopAuthenticator
    open spec fn signs(&self, message: Seq<u8>, d: Digest) -> bool { true }
//@ fn sign
//@ end
//@ endimpl
//@ impl Verifier for NoopAuthenticator
    open spec fn accepts(&self, message: Seq<u8>, d: Digest) -> bool { true }
//@ fn verify
//@ end
//@ endimpl
//@ impl Sha256Authenticator
//@ fn new
//@ ret r
    ensures r.key@ == key@, // [C04]
//@ start
    broadcast use lemma_bytes_cloned;
//@ end
//@ endimpl
//@ impl Sha512Authenticator
//@ fn new
//@ ret r
    ensures r.key@ == key@, // [C04]
//@ start
    broadcast use lemma_bytes_cloned;
//@ end
//@ endimpl
//@ impl Signer for Sha256Authenticator
    open spec fn signs(&self, message: Seq<u8>, d: Digest) -> bool { d is Digest256Bits && is_mac(d, self.key@, message) }
//@ fn sign
//@ ret r
    ensures r is Digest256Bits && is_mac(r, self.key@, message@), // [C04]
//@ end
//@ endimpl
//@ impl Verifier for Sha256Authenticator
    open spec fn accepts(&self, message: Seq<u8>, d: Digest) -> bool { is_mac(d, self.key@, message) }
//@ fn verify
//@ ret r
    ensures r == is_mac(*signature, self.key@, message@), // [C04]
//@ end
//@ endimpl
//@ impl Signer for Sha512Authenticator
    open spec fn signs(&self, message: Seq<u8>, d: Digest) -> bool { d is Digest512Bits && is_mac(d, self.key@, message) }
//@ fn sign
//@ ret r
    ensures r is Digest512Bits && is_mac(r, self.key@, message@), // [C04]
//@ end
//@ endimpl
//@ impl Verifier for Sha512Authenticator
    open spec fn accepts(&self, message: Seq<u8>, d: Digest) -> bool { is_mac(d, self.key@, message) }
//@ fn verify
//@ ret r
    ensures r == is_mac(*signature, self.key@, message@), // [C04]
//@ end
//@ endimpl
//@ unsubst
//@ include auth_split.inc
/// C04: what an authenticator signs, one with the same key accepts
pub proof fn theorem_sign_verify_256(a: Sha256Authenticator, b: Sha256Authenticator, m: Seq<u8>, d: Digest)
    requires a.key@ == b.key@, a.signs(m, d)
    ensures b.accepts(m, d)
{}
pub proof fn theorem_sign_verify_512(a: Sha512Authenticator, b: Sha512Authenticator, m: Seq<u8>, d: Digest)
    requires a.key@ == b.key@, a.signs(m, d)
    ensures b.accepts(m, d)
{}
/// C04: two accepted contents have the same HMAC: accepting an altered one means a collision
pub proof fn theorem_accept_means_collision(a: Sha256Authenticator, m: Seq<u8>, n: Seq<u8>, d: Digest)
    requires a.accepts(m, d), a.accepts(n, d)
    ensures
        d is Digest256Bits ==> hmac::<Sha256>(a.key@, m) == hmac::<Sha256>(a.key@, n),
        d is Digest512Bits ==> hmac::<Sha512>(a.key@, m) == hmac::<Sha512>(a.key@, n),
{}
