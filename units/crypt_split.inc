// ---- the two halves of a bicrypter
//@ src src/core/transport/crypto/split.rs
//@ keep
//@ item EncrypterHalf
//@ item DecrypterHalf
//@ fn split
//@ ret r
    ensures *r.0.encrypter == bicrypter, *r.1.decrypter == bicrypter, // [C05 C06]
//@ end
//@ fn clone_split
//@ ret r
    ensures r.0 == original, cloned(original, r.1), // [C05 C06]
//@ end
//@ impl Encrypter for EncrypterHalf<E>
    open spec fn encrypts(&self, plain: Seq<u8>, ad: AssociatedData, cipher: Seq<u8>) -> bool { self.encrypter.encrypts(plain, ad, cipher) }
    open spec fn refuses_encrypt(&self, plain: Seq<u8>, ad: AssociatedData, e: CryptError) -> bool { self.encrypter.refuses_encrypt(plain, ad, e) }
    open spec fn provides(&self, ad: AssociatedData) -> bool { self.encrypter.provides(ad) }
//@ fn encrypt
//@ ret r
    ensures
        r.is_ok() ==> self.encrypter.encrypts(buffer@, *associated_data, r->Ok_0@), // [C05]
        r.is_err() ==> self.encrypter.refuses_encrypt(buffer@, *associated_data, r->Err_0), // [C05]
//@ end
//@ fn new_encrypt_associated_data
//@ ret r
    ensures self.encrypter.provides(r), // [C05]
//@ end
//@ endimpl
//@ impl Decrypter for DecrypterHalf<D>
    open spec fn decrypts(&self, cipher: Seq<u8>, ad: AssociatedData, plain: Seq<u8>) -> bool { self.decrypter.decrypts(cipher, ad, plain) }
    open spec fn refuses_decrypt(&self, cipher: Seq<u8>, ad: AssociatedData, e: CryptError) -> bool { self.decrypter.refuses_decrypt(cipher, ad, e) }
//@ fn decrypt
//@ ret r
    ensures
        r.is_ok() ==> self.decrypter.decrypts(buffer@, *associated_data, r->Ok_0@), // [C05]
        r.is_err() ==> self.decrypter.refuses_decrypt(buffer@, *associated_data, r->Err_0), // [C05]
//@ end
//@ endimpl
