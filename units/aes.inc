// ---- the six AES ciphers (one block per file, same contract) --------------------
pub open spec fn ad_bytes(ad: AssociatedData) -> Option<Seq<u8>> {
    match ad { AssociatedData::None => None, AssociatedData::Nonce(n) => Some(nonce_bytes(n)) }
}
pub open spec fn nonce_len(ad: AssociatedData) -> Option<nat> {
    match ad_bytes(ad) { None => None, Some(b) => Some(b.len()) }
}
pub open spec fn seals(a: Alg, key: Seq<u8>, n: nat, plain: Seq<u8>, ad: AssociatedData, cipher: Seq<u8>) -> bool {
    ad_bytes(ad) matches Some(nonce) && nonce.len() == n && seal(a, key, nonce, plain) == Some(cipher)
}
pub open spec fn unseals(a: Alg, key: Seq<u8>, n: nat, cipher: Seq<u8>, ad: AssociatedData, plain: Seq<u8>) -> bool {
    ad_bytes(ad) matches Some(nonce) && nonce.len() == n && unseal(a, key, nonce, cipher) == Some(plain)
}
/// why an operation may fail, and which error says so
pub open spec fn seal_refused(a: Alg, key: Seq<u8>, n: nat, plain: Seq<u8>, ad: AssociatedData, e: CryptError) -> bool {
    match ad_bytes(ad) {
        None => e is MissingNonce,
        Some(nonce) => if nonce.len() != n { e == (CryptError::NonceWrongSize { provided_size: nonce.len() as usize }) }
            else { e is EncryptFailed && seal(a, key, nonce, plain) is None },
    }
}
pub open spec fn unseal_refused(a: Alg, key: Seq<u8>, n: nat, cipher: Seq<u8>, ad: AssociatedData, e: CryptError) -> bool {
    match ad_bytes(ad) {
        None => e is MissingNonce,
        Some(nonce) => if nonce.len() != n { e == (CryptError::NonceWrongSize { provided_size: nonce.len() as usize }) }
            else { e is DecryptFailed && unseal(a, key, nonce, cipher) is None },
    }
}
//@ src src/core/transport/crypto/aes/mod.rs
//@ fn make_error_string external
//@ end
pub mod aes_gcm_128 { use super::*;
//@ src src/core/transport/crypto/aes/aes_gcm_128.rs
//@ keep
//@ subst nonce:: =>
//@ subst key:: =>
//@ subst super:: =>
//@ item Aes128GcmBicrypter private
impl Aes128GcmBicrypter {
    /// the nonce size is the one the cipher needs, from construction on
    #[verifier::type_invariant]
    spec fn inv(self) -> bool { self.nonce_size == NonceSize::Nonce96Bits }
    pub closed spec fn key(&self) -> Seq<u8> { self.inner.key() }
}
//@ impl Default for Aes128GcmBicrypter
//@ fn default
//@ end
//@ endimpl
//@ impl Aes128GcmBicrypter
//@ fn new
//@ ret r
    ensures r.key() == key@, // [C05]
//@ end
//@ endimpl
//@ impl Encrypter for Aes128GcmBicrypter
    open spec fn encrypts(&self, plain: Seq<u8>, ad: AssociatedData, cipher: Seq<u8>) -> bool {
        seals(Alg::Gcm128, self.key(), 12, plain, ad, cipher)
    }
    open spec fn refuses_encrypt(&self, plain: Seq<u8>, ad: AssociatedData, e: CryptError) -> bool {
        seal_refused(Alg::Gcm128, self.key(), 12, plain, ad, e)
    }
    open spec fn provides(&self, ad: AssociatedData) -> bool { nonce_len(ad) == Some(12nat) }
//@ fn encrypt
//@ ret r
    ensures
        r.is_ok() ==> self.encrypts(buffer@, *associated_data, r->Ok_0@), // [C05]
        r.is_err() ==> self.refuses_encrypt(buffer@, *associated_data, r->Err_0), // [C05]
//@ start
    proof { use_type_invariant(self); }
//@ closure 0 (e: CryptError)
    ensures e is EncryptFailed
//@ end
//@ fn new_encrypt_associated_data
//@ ret r
    ensures self.provides(r), // [C05]
//@ start
    proof { use_type_invariant(self); }
//@ end
//@ endimpl
//@ impl Decrypter for Aes128GcmBicrypter
    open spec fn decrypts(&self, cipher: Seq<u8>, ad: AssociatedData, plain: Seq<u8>) -> bool {
        unseals(Alg::Gcm128, self.key(), 12, cipher, ad, plain)
    }
    open spec fn refuses_decrypt(&self, cipher: Seq<u8>, ad: AssociatedData, e: CryptError) -> bool {
        unseal_refused(Alg::Gcm128, self.key(), 12, cipher, ad, e)
    }
//@ fn decrypt
//@ ret r
    ensures
        r.is_ok() ==> self.decrypts(buffer@, *associated_data, r->Ok_0@), // [C05]
        r.is_err() ==> self.refuses_decrypt(buffer@, *associated_data, r->Err_0), // [C05]
//@ start
    proof { use_type_invariant(self); }
//@ closure 0 (e: CryptError)
    ensures e is DecryptFailed
//@ end
//@ endimpl
//@ unsubst
/// C05: what Aes128GcmBicrypter encrypts, one with the same key decrypts to the original, and
/// does so whenever it answers at all
pub proof fn theorem_round_trip_aes_gcm_128(a: Aes128GcmBicrypter, b: Aes128GcmBicrypter, plain: Seq<u8>, ad: AssociatedData, cipher: Seq<u8>)
    requires a.key() == b.key(), a.encrypts(plain, ad, cipher),
    ensures
        b.decrypts(cipher, ad, plain),
        forall|other: Seq<u8>| b.decrypts(cipher, ad, other) ==> other == plain,
        forall|e: CryptError| !b.refuses_decrypt(cipher, ad, e),
{ axiom_aead(Alg::Gcm128, a.key(), ad_bytes(ad).unwrap(), plain); }
}
pub use aes_gcm_128::Aes128GcmBicrypter;
pub mod aes_gcm_256 { use super::*;
//@ src src/core/transport/crypto/aes/aes_gcm_256.rs
//@ keep
//@ subst nonce:: =>
//@ subst key:: =>
//@ subst super:: =>
//@ item Aes256GcmBicrypter private
impl Aes256GcmBicrypter {
    /// the nonce size is the one the cipher needs, from construction on
    #[verifier::type_invariant]
    spec fn inv(self) -> bool { self.nonce_size == NonceSize::Nonce96Bits }
    pub closed spec fn key(&self) -> Seq<u8> { self.inner.key() }
}
//@ impl Default for Aes256GcmBicrypter
//@ fn default
//@ end
//@ endimpl
//@ impl Aes256GcmBicrypter
//@ fn new
//@ ret r
    ensures r.key() == key@, // [C05]
//@ end
//@ endimpl
//@ impl Encrypter for Aes256GcmBicrypter
    open spec fn encrypts(&self, plain: Seq<u8>, ad: AssociatedData, cipher: Seq<u8>) -> bool {
        seals(Alg::Gcm256, self.key(), 12, plain, ad, cipher)
    }
    open spec fn refuses_encrypt(&self, plain: Seq<u8>, ad: AssociatedData, e: CryptError) -> bool {
        seal_refused(Alg::Gcm256, self.key(), 12, plain, ad, e)
    }
    open spec fn provides(&self, ad: AssociatedData) -> bool { nonce_len(ad) == Some(12nat) }
//@ fn encrypt
//@ ret r
    ensures
        r.is_ok() ==> self.encrypts(buffer@, *associated_data, r->Ok_0@), // [C05]
        r.is_err() ==> self.refuses_encrypt(buffer@, *associated_data, r->Err_0), // [C05]
//@ start
    proof { use_type_invariant(self); }
//@ closure 0 (e: CryptError)
    ensures e is EncryptFailed
//@ end
//@ fn new_encrypt_associated_data
//@ ret r
    ensures self.provides(r), // [C05]
//@ start
    proof { use_type_invariant(self); }
//@ end
//@ endimpl
//@ impl Decrypter for Aes256GcmBicrypter
    open spec fn decrypts(&self, cipher: Seq<u8>, ad: AssociatedData, plain: Seq<u8>) -> bool {
        unseals(Alg::Gcm256, self.key(), 12, cipher, ad, plain)
    }
    open spec fn refuses_decrypt(&self, cipher: Seq<u8>, ad: AssociatedData, e: CryptError) -> bool {
        unseal_refused(Alg::Gcm256, self.key(), 12, cipher, ad, e)
    }
//@ fn decrypt
//@ ret r
    ensures
        r.is_ok() ==> self.decrypts(buffer@, *associated_data, r->Ok_0@), // [C05]
        r.is_err() ==> self.refuses_decrypt(buffer@, *associated_data, r->Err_0), // [C05]
//@ start
    proof { use_type_invariant(self); }
//@ closure 0 (e: CryptError)
    ensures e is DecryptFailed
//@ end
//@ endimpl
//@ unsubst
/// C05: what Aes256GcmBicrypter encrypts, one with the same key decrypts to the original, and
/// does so whenever it answers at all
pub proof fn theorem_round_trip_aes_gcm_256(a: Aes256GcmBicrypter, b: Aes256GcmBicrypter, plain: Seq<u8>, ad: AssociatedData, cipher: Seq<u8>)
    requires a.key() == b.key(), a.encrypts(plain, ad, cipher),
    ensures
        b.decrypts(cipher, ad, plain),
        forall|other: Seq<u8>| b.decrypts(cipher, ad, other) ==> other == plain,
        forall|e: CryptError| !b.refuses_decrypt(cipher, ad, e),
{ axiom_aead(Alg::Gcm256, a.key(), ad_bytes(ad).unwrap(), plain); }
}
pub use aes_gcm_256::Aes256GcmBicrypter;
pub mod aes_gcm_siv_128 { use super::*;
//@ src src/core/transport/crypto/aes/aes_gcm_siv_128.rs
//@ keep
//@ subst nonce:: =>
//@ subst key:: =>
//@ subst super:: =>
//@ item Aes128GcmSivBicrypter private
impl Aes128GcmSivBicrypter {
    /// the nonce size is the one the cipher needs, from construction on
    #[verifier::type_invariant]
    spec fn inv(self) -> bool { self.nonce_size == NonceSize::Nonce96Bits }
    pub closed spec fn key(&self) -> Seq<u8> { self.inner.key() }
}
//@ impl Default for Aes128GcmSivBicrypter
//@ fn default
//@ end
//@ endimpl
//@ impl Aes128GcmSivBicrypter
//@ fn new
//@ ret r
    ensures r.key() == key@, // [C05]
//@ end
//@ endimpl
//@ impl Encrypter for Aes128GcmSivBicrypter
    open spec fn encrypts(&self, plain: Seq<u8>, ad: AssociatedData, cipher: Seq<u8>) -> bool {
        seals(Alg::GcmSiv128, self.key(), 12, plain, ad, cipher)
    }
    open spec fn refuses_encrypt(&self, plain: Seq<u8>, ad: AssociatedData, e: CryptError) -> bool {
        seal_refused(Alg::GcmSiv128, self.key(), 12, plain, ad, e)
    }
    open spec fn provides(&self, ad: AssociatedData) -> bool { nonce_len(ad) == Some(12nat) }
//@ fn encrypt
//@ ret r
    ensures
        r.is_ok() ==> self.encrypts(buffer@, *associated_data, r->Ok_0@), // [C05]
        r.is_err() ==> self.refuses_encrypt(buffer@, *associated_data, r->Err_0), // [C05]
//@ start
    proof { use_type_invariant(self); }
//@ closure 0 (e: CryptError)
    ensures e is EncryptFailed
//@ end
//@ fn new_encrypt_associated_data
//@ ret r
    ensures self.provides(r), // [C05]
//@ start
    proof { use_type_invariant(self); }
//@ end
//@ endimpl
//@ impl Decrypter for Aes128GcmSivBicrypter
    open spec fn decrypts(&self, cipher: Seq<u8>, ad: AssociatedData, plain: Seq<u8>) -> bool {
        unseals(Alg::GcmSiv128, self.key(), 12, cipher, ad, plain)
    }
    open spec fn refuses_decrypt(&self, cipher: Seq<u8>, ad: AssociatedData, e: CryptError) -> bool {
        unseal_refused(Alg::GcmSiv128, self.key(), 12, cipher, ad, e)
    }
//@ fn decrypt
//@ ret r
    ensures
        r.is_ok() ==> self.decrypts(buffer@, *associated_data, r->Ok_0@), // [C05]
        r.is_err() ==> self.refuses_decrypt(buffer@, *associated_data, r->Err_0), // [C05]
//@ start
    proof { use_type_invariant(self); }
//@ closure 0 (e: CryptError)
    ensures e is DecryptFailed
//@ end
//@ endimpl
//@ unsubst
/// C05: what Aes128GcmSivBicrypter encrypts, one with the same key decrypts to the original, and
/// does so whenever it answers at all
pub proof fn theorem_round_trip_aes_gcm_siv_128(a: Aes128GcmSivBicrypter, b: Aes128GcmSivBicrypter, plain: Seq<u8>, ad: AssociatedData, cipher: Seq<u8>)
    requires a.key() == b.key(), a.encrypts(plain, ad, cipher),
    ensures
        b.decrypts(cipher, ad, plain),
        forall|other: Seq<u8>| b.decrypts(cipher, ad, other) ==> other == plain,
        forall|e: CryptError| !b.refuses_decrypt(cipher, ad, e),
{ axiom_aead(Alg::GcmSiv128, a.key(), ad_bytes(ad).unwrap(), plain); }
}
pub use aes_gcm_siv_128::Aes128GcmSivBicrypter;
pub mod aes_gcm_siv_256 { use super::*;
//@ src src/core/transport/crypto/aes/aes_gcm_siv_256.rs
//@ keep
//@ subst nonce:: =>
//@ subst key:: =>
//@ subst super:: =>
//@ item Aes256GcmSivBicrypter private
impl Aes256GcmSivBicrypter {
    /// the nonce size is the one the cipher needs, from construction on
    #[verifier::type_invariant]
    spec fn inv(self) -> bool { self.nonce_size == NonceSize::Nonce96Bits }
    pub closed spec fn key(&self) -> Seq<u8> { self.inner.key() }
}
//@ impl Default for Aes256GcmSivBicrypter
//@ fn default
//@ end
//@ endimpl
//@ impl Aes256GcmSivBicrypter
//@ fn new
//@ ret r
    ensures r.key() == key@, // [C05]
//@ end
//@ endimpl
//@ impl Encrypter for Aes256GcmSivBicrypter
    open spec fn encrypts(&self, plain: Seq<u8>, ad: AssociatedData, cipher: Seq<u8>) -> bool {
        seals(Alg::GcmSiv256, self.key(), 12, plain, ad, cipher)
    }
    open spec fn refuses_encrypt(&self, plain: Seq<u8>, ad: AssociatedData, e: CryptError) -> bool {
        seal_refused(Alg::GcmSiv256, self.key(), 12, plain, ad, e)
    }
    open spec fn provides(&self, ad: AssociatedData) -> bool { nonce_len(ad) == Some(12nat) }
//@ fn encrypt
//@ ret r
    ensures
        r.is_ok() ==> self.encrypts(buffer@, *associated_data, r->Ok_0@), // [C05]
        r.is_err() ==> self.refuses_encrypt(buffer@, *associated_data, r->Err_0), // [C05]
//@ start
    proof { use_type_invariant(self); }
//@ closure 0 (e: CryptError)
    ensures e is EncryptFailed
//@ end
//@ fn new_encrypt_associated_data
//@ ret r
    ensures self.provides(r), // [C05]
//@ start
    proof { use_type_invariant(self); }
//@ end
//@ endimpl
//@ impl Decrypter for Aes256GcmSivBicrypter
    open spec fn decrypts(&self, cipher: Seq<u8>, ad: AssociatedData, plain: Seq<u8>) -> bool {
        unseals(Alg::GcmSiv256, self.key(), 12, cipher, ad, plain)
    }
    open spec fn refuses_decrypt(&self, cipher: Seq<u8>, ad: AssociatedData, e: CryptError) -> bool {
        unseal_refused(Alg::GcmSiv256, self.key(), 12, cipher, ad, e)
    }
//@ fn decrypt
//@ ret r
    ensures
        r.is_ok() ==> self.decrypts(buffer@, *associated_data, r->Ok_0@), // [C05]
        r.is_err() ==> self.refuses_decrypt(buffer@, *associated_data, r->Err_0), // [C05]
//@ start
    proof { use_type_invariant(self); }
//@ closure 0 (e: CryptError)
    ensures e is DecryptFailed
//@ end
//@ endimpl
//@ unsubst
/// C05: what Aes256GcmSivBicrypter encrypts, one with the same key decrypts to the original, and
/// does so whenever it answers at all
pub proof fn theorem_round_trip_aes_gcm_siv_256(a: Aes256GcmSivBicrypter, b: Aes256GcmSivBicrypter, plain: Seq<u8>, ad: AssociatedData, cipher: Seq<u8>)
    requires a.key() == b.key(), a.encrypts(plain, ad, cipher),
    ensures
        b.decrypts(cipher, ad, plain),
        forall|other: Seq<u8>| b.decrypts(cipher, ad, other) ==> other == plain,
        forall|e: CryptError| !b.refuses_decrypt(cipher, ad, e),
{ axiom_aead(Alg::GcmSiv256, a.key(), ad_bytes(ad).unwrap(), plain); }
}
pub use aes_gcm_siv_256::Aes256GcmSivBicrypter;
pub mod aes_siv_128 { use super::*;
//@ src src/core/transport/crypto/aes/aes_siv_128.rs
//@ keep
//@ subst nonce:: =>
//@ subst key:: =>
//@ subst super:: =>
//@ item Aes128SivBicrypter private
impl Aes128SivBicrypter {
    /// the nonce size is the one the cipher needs, from construction on
    #[verifier::type_invariant]
    spec fn inv(self) -> bool { self.nonce_size == NonceSize::Nonce128Bits }
    pub closed spec fn key(&self) -> Seq<u8> { self.inner.key() }
}
//@ impl Default for Aes128SivBicrypter
//@ fn default
//@ end
//@ endimpl
//@ impl Aes128SivBicrypter
//@ fn new
//@ ret r
    ensures r.key() == key@, // [C05]
//@ end
//@ endimpl
//@ impl Encrypter for Aes128SivBicrypter
    open spec fn encrypts(&self, plain: Seq<u8>, ad: AssociatedData, cipher: Seq<u8>) -> bool {
        seals(Alg::Siv128, self.key(), 16, plain, ad, cipher)
    }
    open spec fn refuses_encrypt(&self, plain: Seq<u8>, ad: AssociatedData, e: CryptError) -> bool {
        seal_refused(Alg::Siv128, self.key(), 16, plain, ad, e)
    }
    open spec fn provides(&self, ad: AssociatedData) -> bool { nonce_len(ad) == Some(16nat) }
//@ fn encrypt
//@ ret r
    ensures
        r.is_ok() ==> self.encrypts(buffer@, *associated_data, r->Ok_0@), // [C05]
        r.is_err() ==> self.refuses_encrypt(buffer@, *associated_data, r->Err_0), // [C05]
//@ start
    proof { use_type_invariant(self); }
//@ closure 0 (e: CryptError)
    ensures e is EncryptFailed
//@ end
//@ fn new_encrypt_associated_data
//@ ret r
    ensures self.provides(r), // [C05]
//@ start
    proof { use_type_invariant(self); }
//@ end
//@ endimpl
//@ impl Decrypter for Aes128SivBicrypter
    open spec fn decrypts(&self, cipher: Seq<u8>, ad: AssociatedData, plain: Seq<u8>) -> bool {
        unseals(Alg::Siv128, self.key(), 16, cipher, ad, plain)
    }
    open spec fn refuses_decrypt(&self, cipher: Seq<u8>, ad: AssociatedData, e: CryptError) -> bool {
        unseal_refused(Alg::Siv128, self.key(), 16, cipher, ad, e)
    }
//@ fn decrypt
//@ ret r
    ensures
        r.is_ok() ==> self.decrypts(buffer@, *associated_data, r->Ok_0@), // [C05]
        r.is_err() ==> self.refuses_decrypt(buffer@, *associated_data, r->Err_0), // [C05]
//@ start
    proof { use_type_invariant(self); }
//@ closure 0 (e: CryptError)
    ensures e is DecryptFailed
//@ end
//@ endimpl
//@ unsubst
/// C05: what Aes128SivBicrypter encrypts, one with the same key decrypts to the original, and
/// does so whenever it answers at all
pub proof fn theorem_round_trip_aes_siv_128(a: Aes128SivBicrypter, b: Aes128SivBicrypter, plain: Seq<u8>, ad: AssociatedData, cipher: Seq<u8>)
    requires a.key() == b.key(), a.encrypts(plain, ad, cipher),
    ensures
        b.decrypts(cipher, ad, plain),
        forall|other: Seq<u8>| b.decrypts(cipher, ad, other) ==> other == plain,
        forall|e: CryptError| !b.refuses_decrypt(cipher, ad, e),
{ axiom_aead(Alg::Siv128, a.key(), ad_bytes(ad).unwrap(), plain); }
}
pub use aes_siv_128::Aes128SivBicrypter;
pub mod aes_siv_256 { use super::*;
//@ src src/core/transport/crypto/aes/aes_siv_256.rs
//@ keep
//@ subst nonce:: =>
//@ subst key:: =>
//@ subst super:: =>
//@ item Aes256SivBicrypter private
impl Aes256SivBicrypter {
    /// the nonce size is the one the cipher needs, from construction on
    #[verifier::type_invariant]
    spec fn inv(self) -> bool { self.nonce_size == NonceSize::Nonce128Bits }
    pub closed spec fn key(&self) -> Seq<u8> { self.inner.key() }
}
//@ impl Default for Aes256SivBicrypter
//@ fn default
//@ end
//@ endimpl
//@ impl Aes256SivBicrypter
//@ fn new
//@ ret r
    ensures r.key() == key@, // [C05]
//@ end
//@ endimpl
//@ impl Encrypter for Aes256SivBicrypter
    open spec fn encrypts(&self, plain: Seq<u8>, ad: AssociatedData, cipher: Seq<u8>) -> bool {
        seals(Alg::Siv256, self.key(), 16, plain, ad, cipher)
    }
    open spec fn refuses_encrypt(&self, plain: Seq<u8>, ad: AssociatedData, e: CryptError) -> bool {
        seal_refused(Alg::Siv256, self.key(), 16, plain, ad, e)
    }
    open spec fn provides(&self, ad: AssociatedData) -> bool { nonce_len(ad) == Some(16nat) }
//@ fn encrypt
//@ ret r
    ensures
        r.is_ok() ==> self.encrypts(buffer@, *associated_data, r->Ok_0@), // [C05]
        r.is_err() ==> self.refuses_encrypt(buffer@, *associated_data, r->Err_0), // [C05]
//@ start
    proof { use_type_invariant(self); }
//@ closure 0 (e: CryptError)
    ensures e is EncryptFailed
//@ end
//@ fn new_encrypt_associated_data
//@ ret r
    ensures self.provides(r), // [C05]
//@ start
    proof { use_type_invariant(self); }
//@ end
//@ endimpl
//@ impl Decrypter for Aes256SivBicrypter
    open spec fn decrypts(&self, cipher: Seq<u8>, ad: AssociatedData, plain: Seq<u8>) -> bool {
        unseals(Alg::Siv256, self.key(), 16, cipher, ad, plain)
    }
    open spec fn refuses_decrypt(&self, cipher: Seq<u8>, ad: AssociatedData, e: CryptError) -> bool {
        unseal_refused(Alg::Siv256, self.key(), 16, cipher, ad, e)
    }
//@ fn decrypt
//@ ret r
    ensures
        r.is_ok() ==> self.decrypts(buffer@, *associated_data, r->Ok_0@), // [C05]
        r.is_err() ==> self.refuses_decrypt(buffer@, *associated_data, r->Err_0), // [C05]
//@ start
    proof { use_type_invariant(self); }
//@ closure 0 (e: CryptError)
    ensures e is DecryptFailed
//@ end
//@ endimpl
//@ unsubst
/// C05: what Aes256SivBicrypter encrypts, one with the same key decrypts to the original, and
/// does so whenever it answers at all
pub proof fn theorem_round_trip_aes_siv_256(a: Aes256SivBicrypter, b: Aes256SivBicrypter, plain: Seq<u8>, ad: AssociatedData, cipher: Seq<u8>)
    requires a.key() == b.key(), a.encrypts(plain, ad, cipher),
    ensures
        b.decrypts(cipher, ad, plain),
        forall|other: Seq<u8>| b.decrypts(cipher, ad, other) ==> other == plain,
        forall|e: CryptError| !b.refuses_decrypt(cipher, ad, e),
{ axiom_aead(Alg::Siv256, a.key(), ad_bytes(ad).unwrap(), plain); }
}
pub use aes_siv_256::Aes256SivBicrypter;
