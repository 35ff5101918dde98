// ---- contracts assumed on the standard library (beyond vstd)
pub assume_specification<T: Clone> [ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
    ensures all_cloned(s@, r@);
pub open spec fn all_cloned<T: Clone>(s: Seq<T>, r: Seq<T>) -> bool {
    r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> cloned(#[trigger] s[i], r[i])
}
/// proved, not assumed: bytes are cloned to themselves
pub broadcast proof fn lemma_bytes_cloned(s: Seq<u8>, r: Seq<u8>)
    requires #[trigger] all_cloned(s, r)
    ensures s == r
{
    assert forall|i: int| 0 <= i < s.len() implies s[i] == r[i] by { assert(cloned(s[i], r[i])); }
    assert(s =~= r);
}
/// `String` is a lawful hash-map key (vstd says so for the primitive types only)
pub broadcast axiom fn axiom_string_key()
    ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<String>();
global size_of usize == 8;

pub assume_specification<T: Ord> [ std::cmp::min ](a: T, b: T) -> (r: T)
    ensures <T as OrdSpec>::obeys_cmp_spec() ==> r == if a.cmp_spec(&b) == std::cmp::Ordering::Greater { b } else { a };

/// `[Vec<u8>; 2]::concat` (slice concat)
pub trait ConcatShim { fn concat(&self) -> (r: Vec<u8>) ; }
impl ConcatShim for [Vec<u8>; 2] {
    #[verifier::external_body]
    fn concat(&self) -> (r: Vec<u8>)
        ensures r@ == self@[0]@ + self@[1]@
    { self.as_slice().concat() }
}

/// `slice::sort_unstable_by_key`: a permutation, ordered by the key
pub trait SortShim<T> {
    fn sort_unstable_by_key<F: Fn(&T) -> u32>(&mut self, f: F)
        requires forall|x: T| call_requires(f, (&x,));
}
impl<T> SortShim<T> for Vec<T> {
    #[verifier::external_body]
    fn sort_unstable_by_key<F: Fn(&T) -> u32>(&mut self, f: F)
        ensures
            exists|perm: Seq<int>| #[trigger] is_perm(perm, old(self)@.len() as int)
                && permuted(old(self)@, final(self)@, perm),
            sorted_by(final(self)@, f),
    { self.as_mut_slice().sort_unstable_by_key(f) }
}
pub open spec fn is_perm(perm: Seq<int>, n: int) -> bool {
    perm.len() == n && perm.no_duplicates() && forall|i: int| 0 <= i < n ==> 0 <= #[trigger] perm[i] < n
}
pub open spec fn permuted<T>(a: Seq<T>, b: Seq<T>, perm: Seq<int>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[perm[i]]
}
pub open spec fn sorted_by<T, F: Fn(&T) -> u32>(s: Seq<T>, f: F) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> ordered_by(#[trigger] s[i], #[trigger] s[j], f)
}
pub open spec fn ordered_by<T, F: Fn(&T) -> u32>(x: T, y: T, f: F) -> bool {
    exists|a: u32, b: u32| #[trigger] call_ensures(f, (&x,), a) && #[trigger] call_ensures(f, (&y,), b) && a <= b
}

/// `map.values().collect::<Vec<&V>>()`: every value once, in some order
pub trait ValuesShim<V> {
    fn values_vec(&self) -> (r: Vec<&V>);
}
impl<V> ValuesShim<V> for HashMap<u32, V> {
    #[verifier::external_body]
    fn values_vec(&self) -> (r: Vec<&V>)
        ensures enumerated(self@, r@)
    { self.values().collect() }
}
pub open spec fn enumerated<V>(m: Map<u32, V>, r: Seq<&V>) -> bool {
    (exists|ks: Seq<u32>| #[trigger] enumerates(ks, m, r)) && (forall|k: u32| #[trigger] m.contains_key(k) ==> some_is(r, m[k]))
}
pub open spec fn some_is<V>(r: Seq<&V>, v: V) -> bool { exists|i: int| 0 <= i < r.len() && *#[trigger] r[i] == v }
pub open spec fn enumerates<V>(ks: Seq<u32>, m: Map<u32, V>, r: Seq<&V>) -> bool {
    &&& ks.no_duplicates()
    &&& ks.len() == r.len()
    &&& ks.len() == m.dom().len()
    &&& forall|i: int| 0 <= i < ks.len() ==> m.dom().contains(#[trigger] ks[i]) && *r[i] == m[ks[i]]
}

/// `v.iter().flat_map(f).collect::<Vec<u8>>()`
#[verifier::external_body]
pub fn flat_map_concat<T, F: Fn(&T) -> Vec<u8>>(v: &Vec<T>, f: F) -> (r: Vec<u8>)
    requires forall|x: T| call_requires(f, (&x,))
    ensures exists|parts: Seq<Seq<u8>>| #[trigger] flat(parts) == r@ && parts.len() == v@.len()
        && forall|i: int| 0 <= i < parts.len() ==> part_of(f, v@[i], #[trigger] parts[i]),
{ v.iter().flat_map(f).collect() }
pub open spec fn part_of<T, F: Fn(&T) -> Vec<u8>>(f: F, x: T, part: Seq<u8>) -> bool {
    exists|o: Vec<u8>| #[trigger] call_ensures(f, (&x,), o) && o@ == part
}
pub open spec fn flat(parts: Seq<Seq<u8>>) -> Seq<u8>
    decreases parts.len()
{
    if parts.len() == 0 { Seq::empty() } else { flat(parts.drop_last()) + parts.last() }
}
/// `map.keys().any(f)` / `map.keys().all(f)`
pub trait KeysShim<K> {
    fn keys_any<F: Fn(&K) -> bool>(&self, f: F) -> (r: bool)
        requires forall|k: K| call_requires(f, (&k,));
    fn keys_all<F: Fn(&K) -> bool>(&self, f: F) -> (r: bool)
        requires forall|k: K| call_requires(f, (&k,));
}
impl<K, V> KeysShim<K> for HashMap<K, V> {
    #[verifier::external_body]
    fn keys_any<F: Fn(&K) -> bool>(&self, f: F) -> (r: bool)
        ensures
            r ==> exists|k: K| #[trigger] self@.dom().contains(k) && call_ensures(f, (&k,), true),
            !r ==> forall|k: K| #[trigger] self@.dom().contains(k) ==> call_ensures(f, (&k,), false),
    { self.keys().any(f) }
    #[verifier::external_body]
    fn keys_all<F: Fn(&K) -> bool>(&self, f: F) -> (r: bool)
        ensures
            r ==> forall|k: K| #[trigger] self@.dom().contains(k) ==> call_ensures(f, (&k,), true),
            !r ==> exists|k: K| #[trigger] self@.dom().contains(k) && call_ensures(f, (&k,), false),
    { self.keys().all(f) }
}
pub assume_specification [ u32::max_value ]() -> (r: u32) ensures r == u32::MAX;
pub assume_specification [ usize::max_value ]() -> (r: usize) ensures r == usize::MAX;
pub assume_specification<T, E, F: FnOnce(E) -> T> [ Result::<T, E>::unwrap_or_else ](x: Result<T, E>, f: F) -> (r: T)
    requires x is Err ==> call_requires(f, (x->Err_0,))
    ensures match x { Ok(t) => r == t, Err(e) => call_ensures(f, (e,), r) };
//@ include opt.inc
