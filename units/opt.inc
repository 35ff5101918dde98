// ---- contracts assumed on std combinators that vstd does not specify
pub assume_specification<T, U, F: FnOnce(T) -> U> [ std::option::Option::<T>::map_or ](x: std::option::Option<T>, d: U, f: F) -> (r: U)
    requires x is Some ==> call_requires(f, (x->Some_0,))
    ensures match x { Some(t) => call_ensures(f, (t,), r), None => r == d };
pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U> [ std::option::Option::<T>::map_or_else ](x: std::option::Option<T>, d: D, f: F) -> (r: U)
    requires x is Some ==> call_requires(f, (x->Some_0,)), x is None ==> call_requires(d, ())
    ensures match x { Some(t) => call_ensures(f, (t,), r), None => call_ensures(d, (), r) };
pub assume_specification<T, F: FnOnce(&T) -> bool> [ std::option::Option::<T>::filter ](x: std::option::Option<T>, f: F) -> (r: std::option::Option<T>)
    requires x is Some ==> call_requires(f, (&x->Some_0,))
    ensures match x { Some(t) => (r is Some ==> r == x && call_ensures(f, (&t,), true)) && (r is None ==> call_ensures(f, (&t,), false)), None => r is None };
pub assume_specification<'a, T: Copy> [ std::option::Option::<&'a T>::copied ](x: std::option::Option<&'a T>) -> (r: std::option::Option<T>)
    ensures r == match x { Some(t) => Some(*t), None => None };
pub assume_specification<T> [ std::option::Option::<T>::or ](x: std::option::Option<T>, y: std::option::Option<T>) -> (r: std::option::Option<T>)
    ensures r == if x is Some { x } else { y };
pub assume_specification<T, F: FnOnce() -> std::option::Option<T>> [ std::option::Option::<T>::or_else ](x: std::option::Option<T>, f: F) -> (r: std::option::Option<T>)
    requires x is None ==> call_requires(f, ())
    ensures match x { Some(t) => r == x, None => call_ensures(f, (), r) };
pub assume_specification<T, F: FnOnce(T) -> bool> [ std::option::Option::<T>::is_some_and ](x: std::option::Option<T>, f: F) -> (r: bool)
    requires x is Some ==> call_requires(f, (x->Some_0,))
    ensures match x { Some(t) => call_ensures(f, (t,), r), None => !r };
pub assume_specification<T, F: FnOnce(T) -> bool> [ std::option::Option::<T>::is_none_or ](x: std::option::Option<T>, f: F) -> (r: bool)
    requires x is Some ==> call_requires(f, (x->Some_0,))
    ensures match x { Some(t) => call_ensures(f, (t,), r), None => r };
pub assume_specification<T> [ std::option::Option::<T>::replace ](x: &mut std::option::Option<T>, v: T) -> (r: std::option::Option<T>)
    ensures r == *old(x), *final(x) == Some(v);
pub assume_specification<T, E> [ std::option::Option::<std::result::Result<T, E>>::transpose ](x: std::option::Option<std::result::Result<T, E>>) -> (r: std::result::Result<std::option::Option<T>, E>)
    ensures r == match x { Some(Ok(t)) => Ok(Some(t)), Some(Err(e)) => Err(e), None => Ok(None) };
pub assume_specification<T, U> [ std::option::Option::<T>::and ](x: std::option::Option<T>, y: std::option::Option<U>) -> (r: std::option::Option<U>)
    ensures r == if x is Some { y } else { None };
pub assume_specification<T, U> [ std::option::Option::<T>::zip ](x: std::option::Option<T>, y: std::option::Option<U>) -> (r: std::option::Option<(T, U)>)
    ensures r == match (x, y) { (Some(a), Some(b)) => Some((a, b)), _ => None };
pub assume_specification<T> [ std::option::Option::<T>::xor ](x: std::option::Option<T>, y: std::option::Option<T>) -> (r: std::option::Option<T>)
    ensures r == match (x, y) { (Some(a), None) => x, (None, Some(b)) => y, _ => None };
pub assume_specification<T, E, U, F: FnOnce(T) -> U> [ std::result::Result::<T, E>::map_or ](x: std::result::Result<T, E>, d: U, f: F) -> (r: U)
    requires x is Ok ==> call_requires(f, (x->Ok_0,))
    ensures match x { Ok(t) => call_ensures(f, (t,), r), Err(_) => r == d };
pub assume_specification<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U> [ std::result::Result::<T, E>::map_or_else ](x: std::result::Result<T, E>, d: D, f: F) -> (r: U)
    requires x is Ok ==> call_requires(f, (x->Ok_0,)), x is Err ==> call_requires(d, (x->Err_0,))
    ensures match x { Ok(t) => call_ensures(f, (t,), r), Err(e) => call_ensures(d, (e,), r) };
pub assume_specification<T, E, U, F: FnOnce(T) -> std::result::Result<U, E>> [ std::result::Result::<T, E>::and_then ](x: std::result::Result<T, E>, f: F) -> (r: std::result::Result<U, E>)
    requires x is Ok ==> call_requires(f, (x->Ok_0,))
    ensures match x { Ok(t) => call_ensures(f, (t,), r), Err(e) => r == std::result::Result::<U, E>::Err(e) };
pub assume_specification<T, E, U, F: FnOnce(E) -> std::result::Result<T, U>> [ std::result::Result::<T, E>::or_else ](x: std::result::Result<T, E>, f: F) -> (r: std::result::Result<T, U>)
    requires x is Err ==> call_requires(f, (x->Err_0,))
    ensures match x { Ok(t) => r == std::result::Result::<T, U>::Ok(t), Err(e) => call_ensures(f, (e,), r) };
pub assume_specification<T, E> [ std::result::Result::<T, E>::unwrap_or ](x: std::result::Result<T, E>, d: T) -> (r: T)
    ensures r == match x { Ok(t) => t, Err(_) => d };
pub assume_specification<T, E, U> [ std::result::Result::<T, E>::and ](x: std::result::Result<T, E>, y: std::result::Result<U, E>) -> (r: std::result::Result<U, E>)
    ensures r == match x { Ok(_) => y, Err(e) => std::result::Result::<U, E>::Err(e) };
pub assume_specification<T, E, F: FnOnce(T) -> bool> [ std::result::Result::<T, E>::is_ok_and ](x: std::result::Result<T, E>, f: F) -> (r: bool)
    requires x is Ok ==> call_requires(f, (x->Ok_0,))
    ensures match x { Ok(t) => call_ensures(f, (t,), r), Err(_) => !r };
pub assume_specification<T> [ std::mem::replace ](x: &mut T, v: T) -> (r: T)
    ensures r == *old(x), *final(x) == v;
pub assume_specification<T: Ord> [ std::cmp::max ](a: T, b: T) -> (r: T)
    ensures <T as OrdSpec>::obeys_cmp_spec() ==> r == if a.cmp_spec(&b) == std::cmp::Ordering::Greater { a } else { b };
pub assume_specification<T: PartialEq> [ <[T]>::contains ](s: &[T], v: &T) -> (r: bool)
    ensures <T as PartialEqSpec>::obeys_eq_spec() ==> r == exists|i: int| 0 <= i < s@.len() && (#[trigger] s@[i]).eq_spec(v);
