// ---- one-time callbacks -----------------------------------------------------------
/// a boxed `dyn FnOnce(&T)`
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Callback<T> { _p: core::marker::PhantomData<T> }
/// the callback may be called with `v`: nothing gives this but the closure's own precondition
pub uninterp spec fn cb_accepts<T>(c: Callback<T>, v: T) -> bool;
/// the callback was called with `v`
pub uninterp spec fn cb_ran<T>(c: Callback<T>, v: T) -> bool;
/// `Box::new(f)` as a `Box<dyn FnOnce(&T)>`
#[verifier::external_body]
pub fn boxed_callback<T, F: FnOnce(&T)>(f: F) -> (r: Callback<T>)
    ensures
        forall|v: T| call_requires(f, (&v,)) ==> #[trigger] cb_accepts(r, v),
{ unimplemented!() }
#[verifier::external_body]
pub fn run_callback<T>(c: Callback<T>, v: &T)
    requires cb_accepts(c, *v)
    ensures cb_ran(c, *v)
{ unimplemented!() }
//@ keep
//@ subst Box<Callback<T>> => Callback<T>
//@ subst Box::new(callback) => boxed_callback(callback)
//@ subst callback(input) => run_callback(callback, input)
//@ src src/utils/callback.rs
//@ item CallbackManager #[verifier::reject_recursive_types(T)]
/// handing `v` to id `id` is something its callback, if any, agreed to
pub open spec fn may_invoke<T>(m: CallbackManager<T>, id: u32, v: T) -> bool {
    m.callbacks@.contains_key(id) ==> cb_accepts(m.callbacks@[id], v)
}
//@ impl CallbackManager<T>
//@ fn add_callback
    ensures
        final(self).callbacks@.dom() == old(self).callbacks@.dom().insert(id), // [C14]
        forall|k: u32| k != id && old(self).callbacks@.contains_key(k) ==> #[trigger] final(self).callbacks@[k] == old(self).callbacks@[k], // [C14]
        forall|v: T| call_requires(callback, (&v,)) ==> #[trigger] cb_accepts(final(self).callbacks@[id], v), // [C14]
//@ start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
//@ end
//@ fn take_callback
//@ ret r
    ensures
        final(self).callbacks@ == old(self).callbacks@.remove(id), // [C14]
        r == (if old(self).callbacks@.contains_key(id) { Some(old(self).callbacks@[id]) } else { None }), // [C14]
//@ start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
//@ end
//@ fn invoke_callback
    requires may_invoke(*old(self), id, *input),
    ensures
        final(self).callbacks@ == old(self).callbacks@.remove(id), // [C14]
        old(self).callbacks@.contains_key(id) ==> cb_ran(old(self).callbacks@[id], *input), // [C14]
//@ end
//@ endimpl
//@ unsubst
