// ---- `HashMap<TtlValue<u32>, V>`: an assumed map keyed by the identity of the
// key, i.e. by `key.value` (TtlValue's Eq/Ord contracts in unit `ttl` say that
// identity is the value; its Hash impl is exercised by the harness).  As in
// std, an entry that exists keeps the key it was created with.
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct TtlMap<V> { m: HashMap<TtlValue<u32>, V> }

#[verifier::reject_recursive_types(V)]
pub struct TtlEntry<'a, V> { pub map: &'a mut TtlMap<V>, pub key: TtlValue<u32> }

impl<V> View for TtlMap<V> {
    type V = Map<u32, (TtlValue<u32>, V)>;
    uninterp spec fn view(&self) -> Map<u32, (TtlValue<u32>, V)>;
}

impl<V> TtlMap<V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Map::<u32, (TtlValue<u32>, V)>::empty(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn entry<'a>(&'a mut self, key: TtlValue<u32>) -> (r: TtlEntry<'a, V>)
        ensures *r.map == *old(self), r.key == key, *final(self) == *final(r.map),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn get(&self, key: &TtlValue<u32>) -> (r: Option<&V>)
        ensures
            r.is_some() == self@.dom().contains(key.value),
            r.is_some() ==> *r.unwrap() == self@[key.value].1,
    { unimplemented!() }

    #[verifier::external_body]
    pub fn remove(&mut self, key: &TtlValue<u32>) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.remove(key.value),
            r.is_some() == old(self)@.dom().contains(key.value),
            r.is_some() ==> r.unwrap() == old(self)@[key.value].1,
    { unimplemented!() }

    #[verifier::external_body]
    pub fn contains_key(&self, key: &TtlValue<u32>) -> (r: bool)
        ensures r == self@.dom().contains(key.value),
    { unimplemented!() }

    /// for the predicates used here: they read the value but leave it alone
    #[verifier::external_body]
    pub fn retain<F: Fn(&TtlValue<u32>, &V) -> bool>(&mut self, f: F)
        requires forall|k: TtlValue<u32>, v: V| call_requires(f, (&k, &v)),
        ensures
            final(self)@.dom().subset_of(old(self)@.dom()),
            forall|i: u32| #[trigger] final(self)@.dom().contains(i) ==> final(self)@[i] == old(self)@[i],
            forall|i: u32| #[trigger] old(self)@.dom().contains(i) ==>
                call_ensures(f, (&old(self)@[i].0, &old(self)@[i].1), final(self)@.dom().contains(i)),
    { unimplemented!() }
}

pub open spec fn entry_value<V: Default>(m: Map<u32, (TtlValue<u32>, V)>, key: TtlValue<u32>, v: V) -> bool {
    if m.dom().contains(key.value) { m[key.value].1 == v } else { call_ensures(V::default, (), v) }
}

impl<'a, V: Default> TtlEntry<'a, V> {
    #[verifier::external_body]
    pub fn or_default(self) -> (r: &'a mut V)
        ensures
            entry_value((*old(self.map))@, self.key, *r),
            (*final(self.map))@ == old(self.map)@.insert(
                self.key.value,
                (if old(self.map)@.dom().contains(self.key.value) { old(self.map)@[self.key.value].0 } else { self.key },
                 *final(r))),
    { unimplemented!() }
}
