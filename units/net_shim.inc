// ---- channels, as assumed contracts ------------------------------------------------
pub mod mpsc {
    use super::*;
    verus! {
    /// permission to put `v` on a channel; nothing gives it but a precondition
    pub uninterp spec fn may_put<T>(chan: int, v: T) -> bool;
    /// `v` was put on the channel / taken from it
    pub uninterp spec fn put<T>(chan: int, v: T) -> bool;
    pub uninterp spec fn got<T>(chan: int, v: T) -> bool;
    /// nobody takes from the channel any more
    pub uninterp spec fn closed(chan: int) -> bool;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Sender<T> { _p: core::marker::PhantomData<T> }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Receiver<T> { _p: core::marker::PhantomData<T> }
    /// what is taken from a channel was put there, by permission
    pub broadcast axiom fn taken_was_permitted<T>(chan: int, v: T)
        requires #[trigger] got(chan, v)
        ensures may_put(chan, v)
    ;
    /// whoever makes a channel decides what may be put there (used once per `channel()`)
    #[verifier::external_body]
    pub proof fn decide<T>(chan: int, p: spec_fn(T) -> bool)
        ensures forall|v: T| #[trigger] may_put(chan, v) == p(v)
    { }
    #[verifier::external_body]
    pub fn channel<T>(n: usize) -> (r: (Sender<T>, Receiver<T>))
        ensures r.0.chan() == r.1.chan(), r.0.uses() < 0
    { unimplemented!() }
    pub struct SendError<T>(pub T);
    pub mod error { pub use super::SendError; }
    impl<T> Sender<T> {
        pub uninterp spec fn chan(&self) -> int;
        /// how many values may still be put through this end (negative: any number)
        pub uninterp spec fn uses(&self) -> int;
        #[verifier::external_body]
        pub fn send(&mut self, v: T) -> (r: Result<(), SendError<T>>)
            requires
                may_put(old(self).chan(), v),
                old(self).uses() != 0,
            ensures
                final(self).chan() == old(self).chan(),
                final(self).uses() == if old(self).uses() < 0 { old(self).uses() } else { old(self).uses() - 1 },
                match r { Ok(_) => put(old(self).chan(), v), Err(e) => e.0 == v && closed(old(self).chan()) },
        { unimplemented!() }
        /// another end that may be used once
        #[verifier::external_body]
        pub fn clone(&self) -> (r: Self)
            requires self.uses() < 0
            ensures r.chan() == self.chan(), r.uses() == 1
        { unimplemented!() }
        /// the same `clone`, where the new end is kept and used again and again
        #[verifier::external_body]
        pub fn another(&self) -> (r: Self)
            requires self.uses() < 0
            ensures r.chan() == self.chan(), r.uses() < 0
        { unimplemented!() }
    }
    impl<T> Receiver<T> {
        pub uninterp spec fn chan(&self) -> int;
        #[verifier::external_body]
        pub fn recv(&mut self) -> (r: Option<T>)
            ensures
                final(self).chan() == old(self).chan(),
                r is Some ==> got(old(self).chan(), r->Some_0),
                r is None ==> closed(old(self).chan()),
        { unimplemented!() }
    }
    }
}
