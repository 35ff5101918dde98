// ---- the traits as declared in /repo, with relational contracts: `signs` and
// `accepts` say which digests the implementation may produce / accept
pub trait Signer {
    spec fn signs(&self, message: Seq<u8>, d: Digest) -> bool;
    fn sign(&self, message: &[u8]) -> (r: Digest)
        ensures self.signs(message@, r);
}
pub trait Verifier {
    spec fn accepts(&self, message: Seq<u8>, d: Digest) -> bool;
    fn verify(&self, message: &[u8], signature: &Digest) -> (r: bool)
        ensures r == self.accepts(message@, *signature);
}
pub trait Encrypter {
    spec fn encrypts(&self, plain: Seq<u8>, ad: AssociatedData, cipher: Seq<u8>) -> bool;
    spec fn refuses_encrypt(&self, plain: Seq<u8>, ad: AssociatedData, e: CryptError) -> bool;
    fn encrypt(&self, buffer: &[u8], associated_data: &AssociatedData) -> (r: Result<Vec<u8>, CryptError>)
        ensures
            r.is_ok() ==> self.encrypts(buffer@, *associated_data, r->Ok_0@),
            r.is_err() ==> self.refuses_encrypt(buffer@, *associated_data, r->Err_0);
    /// which associated data may be generated
    spec fn provides(&self, ad: AssociatedData) -> bool;
    fn new_encrypt_associated_data(&self) -> (r: AssociatedData)
        ensures self.provides(r);
}
pub trait Decrypter {
    spec fn decrypts(&self, cipher: Seq<u8>, ad: AssociatedData, plain: Seq<u8>) -> bool;
    spec fn refuses_decrypt(&self, cipher: Seq<u8>, ad: AssociatedData, e: CryptError) -> bool;
    fn decrypt(&self, buffer: &[u8], associated_data: &AssociatedData) -> (r: Result<Vec<u8>, CryptError>)
        ensures
            r.is_ok() ==> self.decrypts(buffer@, *associated_data, r->Ok_0@),
            r.is_err() ==> self.refuses_decrypt(buffer@, *associated_data, r->Err_0);
}
