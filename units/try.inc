/// `?` converts the error with From::from
pub mod tryax {
    use super::*;
    verus! {
    pub broadcast axiom fn try_converts<T, S: vstd::std_specs::convert::FromSpec<T>>(t: T, s: S)
        requires
            #[trigger] vstd::std_specs::control_flow::spec_from::<S, T>(t, s),
            <S as vstd::std_specs::convert::FromSpec<T>>::obeys_from_spec(),
        ensures s == <S as vstd::std_specs::convert::FromSpec<T>>::from_spec(t),
    ;
    }
}
broadcast use tryax::try_converts;
