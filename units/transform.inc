// ---- transformation of the requests of a sequence -------------------------------------
pub mod serde_json {
    use super::*;
    verus! {
    #[verifier::external_body]
    pub struct Value { _p: () }
    #[verifier::external_body]
    pub struct Error { _p: () }
    /// what serde makes of a value, and of what it made
    pub uninterp spec fn request_json(q: Request) -> Result<Value, Error>;
    pub uninterp spec fn reply_json(p: Reply) -> Result<Value, Error>;
    pub uninterp spec fn request_of(v: Value) -> Result<Request, Error>;
    pub trait ToJson: Sized {
        spec fn json(&self) -> Result<Value, Error>;
    }
    impl ToJson for Request { open spec fn json(&self) -> Result<Value, Error> { request_json(*self) } }
    impl ToJson for Reply { open spec fn json(&self) -> Result<Value, Error> { reply_json(*self) } }
    #[verifier::external_body]
    pub fn to_value<T: ToJson>(x: &T) -> (r: Result<Value, Error>) ensures r == x.json() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_value(v: Value) -> (r: Result<Request, Error>) ensures r == request_of(v) { unimplemented!() }
    }
}
pub mod jsonpath {
    use super::*;
    use super::serde_json::Value;
    verus! {
    #[verifier::external_body]
    pub struct JsonPathError { _p: () }
    /// the values at that path
    pub uninterp spec fn found(root: Value, path: Seq<char>) -> Result<Seq<Value>, JsonPathError>;
    /// the value with what is at that path replaced
    pub uninterp spec fn replaced(v: Value, path: Seq<char>, new: Value) -> Result<Value, JsonPathError>;
    #[verifier::external_body]
    pub fn select<'a>(root: &'a Value, path: &String) -> (r: Result<Vec<&'a Value>, JsonPathError>)
        ensures match r {
            Ok(xs) => found(*root, path@) is Ok && xs@.len() == found(*root, path@)->Ok_0.len()
                && forall|i: int| 0 <= i < xs@.len() ==> *#[trigger] xs@[i] == found(*root, path@)->Ok_0[i],
            Err(e) => found(*root, path@) == Err::<Seq<Value>, JsonPathError>(e),
        }
    { unimplemented!() }
    /// `replace_with(v, path, &mut |_| new.cloned())`
    #[verifier::external_body]
    pub fn replace_by(v: Value, path: &String, new: Option<&Value>) -> (r: Result<Value, JsonPathError>)
        ensures new is Some ==> r == replaced(v, path@, *new->Some_0)
    { unimplemented!() }
    /// `xs.drain(0..=0).last()`
    #[verifier::external_body]
    pub fn drained_first<'a>(xs: &mut Vec<&'a Value>) -> (r: Option<&'a Value>)
        requires old(xs)@.len() > 0
        ensures r == Some(old(xs)@[0])
    { unimplemented!() }
    }
}
//@ keep
//@ subst serde_json::Error => self::serde_json::Error
//@ src src/core/msg/content/request/transform.rs
//@ item TransformRequestError
pub open spec fn rule_applied(rule: TransformRule, v: serde_json::Value, p: serde_json::Value) -> Result<serde_json::Value, TransformRequestError> {
    match jsonpath::found(p, rule.value@) {
        Err(e) => Err(TransformRequestError::ExtractingReplyValueFailed(e)),
        Ok(xs) => if xs.len() == 0 {
            Err(TransformRequestError::ReplyValueMissing { path: rule.value })
        } else if xs.len() > 1 {
            Err(TransformRequestError::ReplyValueNotScalar { path: rule.value })
        } else {
            match jsonpath::replaced(v, rule.path@, xs[0]) {
                Err(e) => Err(TransformRequestError::ReplacementFailed(e)),
                Ok(w) => Ok(w),
            }
        },
    }
}
/// the rules one after the other, up to the first that fails
pub open spec fn rules_applied(rules: Seq<TransformRule>, v: serde_json::Value, p: serde_json::Value) -> Result<serde_json::Value, TransformRequestError>
    decreases rules.len()
{
    if rules.len() == 0 { Ok(v) } else {
        match rules_applied(rules.drop_last(), v, p) {
            Err(e) => Err(e),
            Ok(w) => rule_applied(rules.last(), w, p),
        }
    }
}
pub proof fn lemma_failed_stays(rules: Seq<TransformRule>, v: serde_json::Value, p: serde_json::Value, k: int)
    requires 0 <= k <= rules.len(), rules_applied(rules.take(k), v, p) is Err
    ensures rules_applied(rules, v, p) == rules_applied(rules.take(k), v, p)
    decreases rules.len()
{
    if k == rules.len() {
        assert(rules.take(k) =~= rules);
    } else {
        assert(rules.drop_last().take(k) =~= rules.take(k));
        lemma_failed_stays(rules.drop_last(), v, p, k);
    }
}
pub proof fn lemma_next_rule(rules: Seq<TransformRule>, v: serde_json::Value, p: serde_json::Value, k: int)
    requires 0 <= k < rules.len()
    ensures rules_applied(rules.take(k + 1), v, p) == (match rules_applied(rules.take(k), v, p) { Err(e) => Err(e), Ok(w) => rule_applied(rules[k], w, p) })
{
    assert(rules.take(k + 1).drop_last() =~= rules.take(k));
    assert(rules.take(k + 1).last() == rules[k]);
}
pub open spec fn ruled(op: LazilyTransformedRequest, v: serde_json::Value, w: serde_json::Value) -> Result<Request, TransformRequestError> {
    match rules_applied(op.rules@, v, w) {
        Err(e) => Err(e),
        Ok(x) => match serde_json::request_of(x) {
            Err(e) => Err(TransformRequestError::JsonToRequestFailed(e)),
            Ok(q) => Ok(q),
        },
    }
}
/// what the rules of `op` make of its request, given the previous reply
pub open spec fn transformed(op: LazilyTransformedRequest, p: Reply, r: Result<Request, TransformRequestError>) -> bool {
    match (serde_json::request_json(op.raw_request), serde_json::reply_json(p)) {
        (Ok(v), Ok(w)) => r == ruled(op, v, w),
        (Err(e), _) => r == Err::<Request, TransformRequestError>(TransformRequestError::RequestToJsonFailed(e)),
        (_, Err(e)) => r == Err::<Request, TransformRequestError>(TransformRequestError::RequestToJsonFailed(e)),
    }
}
//@ impl LazilyTransformedRequest
//@ fn new
//@ ret r
    ensures r.raw_request == raw_request, r.rules == rules, // [C13]
//@ end
//@ fn into_raw_request
//@ ret r
    ensures r == self.raw_request, // [C13]
//@ end
//@ fn transform_with_reply
//@ ret r
    ensures transformed(*self, *reply, r), // [C13]
//@ loop 0 iter it
//@ loop 0
    invariant
        it.seq().len() == self.rules@.len(),
        forall|i: int| 0 <= i < self.rules@.len() ==> *#[trigger] it.seq()[i] == self.rules@[i],
        serde_json::reply_json(*reply) == Ok::<serde_json::Value, serde_json::Error>(reply_value),
        serde_json::request_json(self.raw_request) == Ok::<serde_json::Value, serde_json::Error>(v0),
        rules_applied(self.rules@.take(it.index@ as int), v0, reply_value) == Ok::<serde_json::Value, TransformRequestError>(value),
//@ loop 0 before
    let ghost v0 = value;
//@ loop 0 start
    proof {
        lemma_next_rule(self.rules@, v0, reply_value, it.index@ as int);
        if rule_applied(*rule, value, reply_value) is Err {
            lemma_failed_stays(self.rules@, v0, reply_value, it.index@ as int + 1);
        }
    }
//@ tail
    proof { assert(self.rules@.take(self.rules@.len() as int) =~= self.rules@); }
//@ end
//@ endimpl
//@ endsrc
//@ unsubst
