// ---- time: std::time::{Instant, Duration} are external; read as mathematical
// nanosecond counts.  `clock_reads(t)`: t was returned by the system clock.
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExInstant(std::time::Instant);


pub uninterp spec fn inst_ns(i: Instant) -> nat;
pub uninterp spec fn dur_ns(d: Duration) -> nat;
pub uninterp spec fn clock_reads(i: Instant) -> bool;

pub open spec fn elapsed_ns(from: Instant, now: Instant) -> nat {
    if inst_ns(now) >= inst_ns(from) { (inst_ns(now) - inst_ns(from)) as nat } else { 0 }
}

pub assume_specification [ std::time::Instant::now ]() -> (r: Instant)
    ensures clock_reads(r),
    no_unwind;

pub assume_specification [ std::time::Instant::elapsed ](s: &Instant) -> (d: Duration)
    ensures exists|now: Instant| #[trigger] clock_reads(now) && dur_ns(d) == elapsed_ns(*s, now),
    no_unwind;

pub assume_specification [ std::time::Duration::checked_sub ](a: Duration, b: Duration) -> (r: Option<Duration>)
    ensures
        r.is_some() == (dur_ns(a) >= dur_ns(b)),
        r.is_some() ==> dur_ns(r.unwrap()) == dur_ns(a) - dur_ns(b),
    no_unwind;
pub assume_specification [ std::time::Duration::new ](secs: u64, nanos: u32) -> (r: Duration)
    requires nanos < 1_000_000_000
    ensures dur_ns(r) == secs as nat * 1_000_000_000 + nanos as nat;
/// durations compare as the numbers of nanoseconds they stand for
pub assume_specification [ <std::time::Duration as PartialEq>::eq ](a: &Duration, b: &Duration) -> (r: bool)
    ensures r == (dur_ns(*a) == dur_ns(*b));
pub assume_specification [ <std::time::Duration as PartialOrd>::partial_cmp ](a: &Duration, b: &Duration) -> (r: Option<std::cmp::Ordering>)
    ensures r == Some(if dur_ns(*a) < dur_ns(*b) { std::cmp::Ordering::Less } else if dur_ns(*a) == dur_ns(*b) { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater });
pub broadcast axiom fn axiom_duration_eq(a: Duration, b: Duration)
    ensures <Duration as PartialEqSpec>::obeys_eq_spec(), #[trigger] a.eq_spec(&b) == (dur_ns(a) == dur_ns(b));
pub broadcast axiom fn axiom_duration_cmp(a: Duration, b: Duration)
    ensures <Duration as PartialOrdSpec>::obeys_partial_cmp_spec(),
        #[trigger] a.partial_cmp_spec(&b) == Some(if dur_ns(a) < dur_ns(b) { std::cmp::Ordering::Less } else if dur_ns(a) == dur_ns(b) { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater });
