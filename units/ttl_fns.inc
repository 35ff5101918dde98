//@ src src/utils/ttl.rs
//@ keep Debug
//@ item TtlValue

impl<T> TtlValue<T> {
    pub closed spec fn spec_touched(self) -> Instant { self.last_touched }
    pub closed spec fn spec_ttl(self) -> Duration { self.ttl }
}

/// the lifetime of `v` has passed at time `now`
pub open spec fn expired_at<T>(v: TtlValue<T>, now: Instant) -> bool {
    elapsed_ns(v.spec_touched(), now) >= dur_ns(v.spec_ttl())
}

//@ impl TtlValue<T>
//@ fn new
//@ ret r
    ensures
        r.value == value, // [C07]
        r.spec_ttl() == ttl, // [C07 C11]
        clock_reads(r.spec_touched()), // [C07 C11]
//@ end
//@ fn touch
    ensures
        final(self).value == old(self).value, // [C07]
        final(self).spec_ttl() == old(self).spec_ttl(), // [C07 C11]
        clock_reads(final(self).spec_touched()), // [C07 C11]
//@ end
//@ fn last_touched
//@ ret r
    ensures *r == self.spec_touched(), // [C07]
//@ end
//@ fn ttl
//@ ret r
    ensures *r == self.spec_ttl(), // [C07]
//@ end
//@ fn has_expired
//@ ret r
    ensures exists|now: Instant| #[trigger] clock_reads(now) && r == expired_at(*self, now), // [C07 C11]
//@ end
//@ endimpl
impl<T> vstd::std_specs::convert::FromSpecImpl<T> for TtlValue<T> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: T) -> Self { arbitrary() }
}
//@ impl From<T> for TtlValue<T>
//@ fn from
//@ ret r
    ensures
        r.value == value, // [C07]
        dur_ns(r.spec_ttl()) == 0, // [C07]
//@ end
//@ endimpl
