// ---- pass-through, closures, split halves, nonce cache --------------------------
//@ src src/core/transport/crypto/mod.rs
//@ item Bicrypter

pub assume_specification<'a, T: Clone> [ <Vec<T> as From<&'a [T]>>::from ](s: &[T]) -> (r: Vec<T>)
    ensures all_cloned(s@, r@);
//@ src src/core/transport/crypto/noop.rs
//@ keep Clone, Copy
//@ item NoopBicrypter
//@ impl Default for NoopBicrypter
//@ fn default
//@ end
//@ endimpl
//@ impl Encrypter for NoopBicrypter
    open spec fn encrypts(&self, plain: Seq<u8>, ad: AssociatedData, cipher: Seq<u8>) -> bool { cipher == plain }
    open spec fn refuses_encrypt(&self, plain: Seq<u8>, ad: AssociatedData, e: CryptError) -> bool { false }
    open spec fn provides(&self, ad: AssociatedData) -> bool { true }
//@ fn encrypt
//@ ret r
    ensures r.is_ok() && r->Ok_0@ == buffer@, // [C05]
//@ start
    broadcast use lemma_bytes_cloned;
//@ end
//@ fn new_encrypt_associated_data
//@ end
//@ endimpl
//@ impl Decrypter for NoopBicrypter
    open spec fn decrypts(&self, cipher: Seq<u8>, ad: AssociatedData, plain: Seq<u8>) -> bool { cipher == plain }
    open spec fn refuses_decrypt(&self, cipher: Seq<u8>, ad: AssociatedData, e: CryptError) -> bool { false }
//@ fn decrypt
//@ ret r
    ensures r.is_ok() && r->Ok_0@ == buffer@, // [C05]
//@ start
    broadcast use lemma_bytes_cloned;
//@ end
//@ endimpl

//@ include crypt_split.inc
//@ src src/core/transport/crypto/closure.rs
//@ keep
//@ item ClosureEncrypter #[verifier::reject_recursive_types(F)]
//@ item ClosureDecrypter #[verifier::reject_recursive_types(F)]
/// a call of `f` on these bytes and this associated data may give `r`
pub open spec fn may_give<F: Fn(&[u8], &AssociatedData) -> Result<Vec<u8>, CryptError>>(f: F, buf: Seq<u8>, ad: AssociatedData, r: Result<Vec<u8>, CryptError>) -> bool {
    exists|b: &[u8], a: &AssociatedData| b@ == buf && *a == ad && #[trigger] f.ensures((b, a), r)
}
/// bytes it may give
pub open spec fn may_give_bytes<F: Fn(&[u8], &AssociatedData) -> Result<Vec<u8>, CryptError>>(f: F, buf: Seq<u8>, ad: AssociatedData, out: Seq<u8>) -> bool {
    exists|b: &[u8], a: &AssociatedData, r: Result<Vec<u8>, CryptError>|
        b@ == buf && *a == ad && r is Ok && r->Ok_0@ == out && #[trigger] f.ensures((b, a), r)
}
/// assumed: a closure of the user's may be called on anything (safe Rust gives it no precondition)
#[verifier::external_body]
pub proof fn axiom_callable<F: Fn(&[u8], &AssociatedData) -> Result<Vec<u8>, CryptError>>(f: F, b: &[u8], a: &AssociatedData)
    ensures f.requires((b, a))
{}
//@ impl ClosureEncrypter<F>
//@ fn new
//@ ret r
    ensures r.f == f, // [C05]
//@ end
//@ endimpl
//@ impl Encrypter for ClosureEncrypter<F>
    open spec fn encrypts(&self, plain: Seq<u8>, ad: AssociatedData, cipher: Seq<u8>) -> bool { may_give_bytes(self.f, plain, ad, cipher) }
    open spec fn refuses_encrypt(&self, plain: Seq<u8>, ad: AssociatedData, e: CryptError) -> bool { may_give(self.f, plain, ad, Err(e)) }
    open spec fn provides(&self, ad: AssociatedData) -> bool { ad is None }
//@ fn encrypt
//@ ret r
    ensures may_give(self.f, buffer@, *associated_data, r), // [C05]
//@ start
    proof { axiom_callable(self.f, buffer, associated_data); }
//@ end
//@ fn new_encrypt_associated_data
//@ ret r
    ensures r is None, // [C05]
//@ end
//@ endimpl
//@ impl ClosureDecrypter<F>
//@ fn new
//@ ret r
    ensures r.f == f, // [C05]
//@ end
//@ endimpl
//@ impl Decrypter for ClosureDecrypter<F>
    open spec fn decrypts(&self, cipher: Seq<u8>, ad: AssociatedData, plain: Seq<u8>) -> bool { may_give_bytes(self.f, cipher, ad, plain) }
    open spec fn refuses_decrypt(&self, cipher: Seq<u8>, ad: AssociatedData, e: CryptError) -> bool { may_give(self.f, cipher, ad, Err(e)) }
//@ fn decrypt
//@ ret r
    ensures may_give(self.f, buffer@, *associated_data, r), // [C05]
//@ start
    proof { axiom_callable(self.f, buffer, associated_data); }
//@ end
//@ endimpl

// the lock, as an assumed contract: `session(l, pre, post)` reads "one exclusive
// critical section of `l` took its content from `pre` to `post`"
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RwLock<T> { _p: core::marker::PhantomData<T> }
#[verifier::external_body]
#[derive(Debug)]
pub struct PoisonError { _p: () }
pub uninterp spec fn session<T>(l: RwLock<T>, pre: T, post: T) -> bool;
pub uninterp spec fn initially<T>(l: RwLock<T>, v: T) -> bool;
impl<T> RwLock<T> {
    #[verifier::external_body]
    pub fn new(v: T) -> (r: Self)
        ensures initially(r, v)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write(&self) -> (r: Result<&mut T, PoisonError>)
        ensures r.is_ok(), session(*self, *(r->Ok_0), *final(r->Ok_0))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read(&self) -> (r: Result<&T, PoisonError>)
        ensures r.is_ok()
    { unimplemented!() }
}
// lru::LruCache, as an assumed contract: most recent first
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct LruCache<K, V> { _p: core::marker::PhantomData<(K, V)> }
impl<V> LruCache<Vec<u8>, V> {
    pub uninterp spec fn view(&self) -> Seq<Seq<u8>>;
    pub uninterp spec fn size(&self) -> nat;
    #[verifier::external_body]
    pub fn new(cap: usize) -> (r: Self)
        requires cap > 0
        ensures r@.len() == 0, r.size() == cap
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &Vec<u8>) -> (r: bool)
        ensures r == self@.contains(k@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn put(&mut self, k: Vec<u8>, v: V) -> (r: Option<V>)
        ensures final(self).size() == old(self).size(), final(self)@ == lru_put(old(self)@, old(self).size(), k@)
    { unimplemented!() }
}
pub open spec fn without(s: Seq<Seq<u8>>, k: Seq<u8>) -> Seq<Seq<u8>> { s.filter(|x: Seq<u8>| x != k) }
pub open spec fn lru_put(s: Seq<Seq<u8>>, cap: nat, k: Seq<u8>) -> Seq<Seq<u8>> {
    let rest = without(s, k);
    seq![k] + (if rest.len() >= cap { rest.take(cap - 1) } else { rest })
}
pub type Memory = LruCache<Vec<u8>, ()>;
pub open spec fn starts_empty(l: RwLock<Memory>, size: nat) -> bool {
    exists|m: Memory| #[trigger] initially(l, m) && m@.len() == 0 && m.size() == size
}
/// one critical section in which `nonce` was looked up and, if new, remembered
pub open spec fn registers(l: RwLock<Memory>, nonce: Seq<u8>, accepted: bool) -> bool {
    exists|pre: Memory, post: Memory| #[trigger] session(l, pre, post) && registered(pre, post, nonce, accepted)
}
pub open spec fn registered(pre: Memory, post: Memory, nonce: Seq<u8>, accepted: bool) -> bool {
    if pre@.contains(nonce) { !accepted && post == pre }
    else { accepted && post@ == lru_put(pre@, pre.size(), nonce) && post.size() == pre.size() }
}
pub open spec fn already_used(e: CryptError, nonce: Seq<u8>) -> bool {
    e matches CryptError::NonceAlreadyUsed { nonce: n } && n@ == nonce
}
//@ src src/core/transport/crypto/nonce/cache.rs
//@ keep
//@ item NonceCacheBicrypter
impl<T: Bicrypter> NonceCacheBicrypter<T> {
    /// how an operation carrying `ad` may go; `inner` is what the cipher answers
    pub open spec fn guarded(&self, ad: AssociatedData, r: Result<Vec<u8>, CryptError>, inner: bool) -> bool {
        match (self.cache, ad_bytes(ad)) {
            (Some(c), Some(n)) =>
                (registers(*c, n, true) && inner)
                || (registers(*c, n, false) && r.is_err() && already_used(r->Err_0, n)),
            _ => inner,
        }
    }
}
//@ impl NonceCacheBicrypter<T>
//@ fn new
//@ ret r
    ensures
        r.bicrypter == bicrypter, // [C06]
        r.cache.is_some() == (nonce_cache_size > 0), // [C06]
        r.cache matches Some(c) ==> starts_empty(*c, nonce_cache_size as nat), // [C06]
//@ end
//@ fn with_no_nonce_cache
//@ ret r
    ensures r.bicrypter == bicrypter, r.cache is None, // [C06]
//@ end
//@ fn register_nonce
//@ ret r
    ensures
        self.cache is None ==> r.is_ok(), // [C06]
        self.cache matches Some(c) ==> registers(*c, nonce@, r.is_ok()), // [C06]
        r.is_err() ==> already_used(r->Err_0, nonce@), // [C06]
        r.is_ok() ==> r->Ok_0@ == nonce@, // [C06]
//@ start
    broadcast use lemma_bytes_cloned;
//@ end
//@ endimpl
//@ impl Encrypter for NonceCacheBicrypter<T>
    open spec fn encrypts(&self, plain: Seq<u8>, ad: AssociatedData, cipher: Seq<u8>) -> bool { self.bicrypter.encrypts(plain, ad, cipher) }
    open spec fn refuses_encrypt(&self, plain: Seq<u8>, ad: AssociatedData, e: CryptError) -> bool {
        self.bicrypter.refuses_encrypt(plain, ad, e) || (ad_bytes(ad) matches Some(n) && self.cache is Some && already_used(e, n))
    }
    open spec fn provides(&self, ad: AssociatedData) -> bool { self.bicrypter.provides(ad) }
//@ fn encrypt
//@ ret r
    ensures
        self.guarded(*associated_data, r, match r { // [C06]
            Ok(v) => self.bicrypter.encrypts(buffer@, *associated_data, v@), // [C06]
            Err(e) => self.bicrypter.refuses_encrypt(buffer@, *associated_data, e), // [C06]
        }), // [C06]
//@ end
//@ fn new_encrypt_associated_data
//@ ret r
    ensures self.bicrypter.provides(r), // [C06]
//@ end
//@ endimpl
//@ impl Decrypter for NonceCacheBicrypter<T>
    open spec fn decrypts(&self, cipher: Seq<u8>, ad: AssociatedData, plain: Seq<u8>) -> bool { self.bicrypter.decrypts(cipher, ad, plain) }
    open spec fn refuses_decrypt(&self, cipher: Seq<u8>, ad: AssociatedData, e: CryptError) -> bool {
        self.bicrypter.refuses_decrypt(cipher, ad, e) || (ad_bytes(ad) matches Some(n) && self.cache is Some && already_used(e, n))
    }
//@ fn decrypt
//@ ret r
    ensures
        self.guarded(*associated_data, r, match r { // [C06]
            Ok(v) => self.bicrypter.decrypts(buffer@, *associated_data, v@), // [C06]
            Err(e) => self.bicrypter.refuses_decrypt(buffer@, *associated_data, e), // [C06]
        }), // [C06]
//@ end
//@ endimpl

// ---- C06: what the memory holds, over any history of critical sections ----------
/// the memory after `attempts`, each handled as `registered` says, and the accepted ones
pub open spec fn memory_after(attempts: Seq<Seq<u8>>, cap: nat) -> Seq<Seq<u8>>
    decreases attempts.len()
{
    if attempts.len() == 0 { Seq::empty() } else {
        let m = memory_after(attempts.drop_last(), cap);
        if m.contains(attempts.last()) { m } else { lru_put(m, cap, attempts.last()) }
    }
}
pub open spec fn accepted_of(attempts: Seq<Seq<u8>>, cap: nat) -> Seq<Seq<u8>>
    decreases attempts.len()
{
    if attempts.len() == 0 { Seq::empty() } else {
        let a = accepted_of(attempts.drop_last(), cap);
        if memory_after(attempts.drop_last(), cap).contains(attempts.last()) { a } else { a.push(attempts.last()) }
    }
}
proof fn lemma_filter_absent(s: Seq<Seq<u8>>, k: Seq<u8>)
    requires !s.contains(k)
    ensures without(s, k) == s
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies s.drop_last()[i] != k by { assert(s[i] != k); }
        lemma_filter_absent(s.drop_last(), k);
        assert(s.last() != k) by { assert(s[s.len() - 1] != k); }
        assert(s.drop_last().push(s.last()) =~= s);
    } else {
        assert(without(s, k) =~= s);
    }
}
/// the last `cap` entries of `a`, newest first
pub open spec fn newest(a: Seq<Seq<u8>>, cap: nat) -> Seq<Seq<u8>> {
    Seq::new(if a.len() < cap { a.len() } else { cap }, |i: int| a[a.len() - 1 - i])
}
/// C06: the memory is exactly the last `cap` accepted nonces, newest first, all distinct
pub proof fn theorem_memory(attempts: Seq<Seq<u8>>, cap: nat)
    requires cap > 0
    ensures
        memory_after(attempts, cap) == newest(accepted_of(attempts, cap), cap),
        memory_after(attempts, cap).no_duplicates(),
    decreases attempts.len()
{
    if attempts.len() > 0 {
        theorem_memory(attempts.drop_last(), cap);
        if !memory_after(attempts.drop_last(), cap).contains(attempts.last()) {
            lemma_put_newest(accepted_of(attempts.drop_last(), cap), cap, attempts.last());
        }
    } else {
        assert(memory_after(attempts, cap) =~= newest(accepted_of(attempts, cap), cap));
    }
}
proof fn lemma_put_newest(a: Seq<Seq<u8>>, cap: nat, k: Seq<u8>)
    requires cap > 0, !newest(a, cap).contains(k), newest(a, cap).no_duplicates()
    ensures
        lru_put(newest(a, cap), cap, k) == newest(a.push(k), cap),
        newest(a.push(k), cap).no_duplicates(),
{
    let m = newest(a, cap);
    lemma_filter_absent(m, k);
    let n = newest(a.push(k), cap);
    assert(lru_put(m, cap, k) =~= n);
    assert forall|i: int, j: int| 0 <= i < n.len() && 0 <= j < n.len() && i != j implies n[i] != n[j] by {
        if i > 0 { assert(n[i] == m[i - 1]); }
        if j > 0 { assert(n[j] == m[j - 1]); }
    }
}
