// ---- messages ---------------------------------------------------------------------
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct SocketAddr { _p: () }
//@ keep
pub mod reply {
    use super::*;
    verus! {
//@ presubst Box<dyn std::error::Error> => BoxError
//@ presubst std::io::Error => io::Error
//@ src src/core/msg/content/reply/mod.rs
//@ item Reply #[verifier::ext_equal]
//@ item ReplyError #[verifier::ext_equal]
//@ presubst Box<dyn std::error::Error> => BoxError
//@ src src/core/msg/content/reply/generic_error.rs
//@ item GenericErrorArgs
//@ src src/core/msg/content/reply/batch.rs
//@ item BatchArgs
//@ src src/core/msg/content/reply/sequence.rs
//@ item SequenceArgs
//@ src src/core/msg/content/reply/forward.rs
//@ item ForwardArgs
//@ src src/core/msg/content/reply/custom.rs
//@ item CustomArgs
//@ src src/core/msg/content/reply/version.rs
//@ item VersionArgs
//@ src src/core/msg/content/reply/internal_debug.rs
//@ item InternalDebugArgs
//@ src src/core/msg/content/reply/capabilities.rs
//@ item Capability
//@ item CapabilitiesArgs
//@ src src/core/msg/content/reply/io/proc.rs
//@ item ProcStartedArgs
//@ item ProcStdinWrittenArgs
//@ item ProcStdoutContentsArgs
//@ item ProcStderrContentsArgs
//@ item ProcKilledArgs
//@ item ProcStatusArgs
//@ src src/core/msg/content/reply/io/fs.rs
//@ item DirCreatedArgs
//@ item DirRenamedArgs
//@ item DirRemovedArgs
//@ item DirContentsListArgs
//@ item DirEntry
//@ item FileOpenedArgs
//@ item FileClosedArgs
//@ item UnopenedFileRenamedArgs
//@ item FileRenamedArgs
//@ item UnopenedFileRemovedArgs
//@ item FileRemovedArgs
//@ item FileContentsArgs
//@ item FileWrittenArgs
//@ item FileSigChangedArgs
    }
}
pub mod request {
    use super::*;
    verus! {
//@ src src/core/msg/content/request/mod.rs
//@ item Request #[verifier::ext_equal]
//@ presubst new_values.drain(0..=0).last() => jsonpath::drained_first(&mut new_values)
//@ presubst jsonpath::replace_with(value, &rule.path, &mut |_| { new_value.cloned() }) => jsonpath::replace_by(value, &rule.path, new_value)
//@ src src/core/msg/content/request/transform.rs
//@ item LazilyTransformedRequest
//@ item TransformRule
//@ src src/core/msg/content/request/batch.rs
//@ item BatchArgs
//@ src src/core/msg/content/request/sequence.rs
//@ item SequenceArgs
//@ src src/core/msg/content/request/forward.rs
//@ item ForwardArgs
//@ src src/core/msg/content/request/custom.rs
//@ item CustomArgs
//@ src src/core/msg/content/request/internal_debug.rs
//@ item InternalDebugArgs
//@ src src/core/msg/content/request/io/proc.rs
//@ item ExecProcArgs
//@ item WriteProcStdinArgs
//@ item ReadProcStdoutArgs
//@ item ReadProcStderrArgs
//@ item KillProcArgs
//@ item ReadProcStatusArgs
//@ src src/core/msg/content/request/io/fs.rs
//@ item CreateDirArgs
//@ item RenameDirArgs
//@ item RemoveDirArgs
//@ item ListDirContentsArgs
//@ item OpenFileArgs
//@ item CloseFileArgs
//@ item RenameUnopenedFileArgs
//@ item RenameFileArgs
//@ item RemoveUnopenedFileArgs
//@ item RemoveFileArgs
//@ item ReadFileArgs
//@ item WriteFileArgs
    }
}
pub use reply::{Reply, ReplyError};
pub use request::{LazilyTransformedRequest, Request, TransformRule};
impl Clone for Reply {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for Header {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct CreationDate { _p: () }
pub mod Utc {
    use super::*;
    verus! {
    #[verifier::external_body]
    pub fn now() -> CreationDate { unimplemented!() }
    }
}
#[verifier::external_body]
pub fn random<T>() -> T { unimplemented!() }
/// the bytes a message is written as
pub uninterp spec fn cbor(m: Msg) -> Seq<u8>;
//@ src src/core/msg/content/mod.rs
//@ item Content #[verifier::ext_equal]
//@ impl Content
//@ fn into_request
//@ ret r
    ensures r == (match self { Content::Request(x) => Some(x), Content::Reply(_) => None }), // [C12,C18]
//@ end
//@ fn into_reply
//@ ret r
    ensures r == (match self { Content::Reply(x) => Some(x), Content::Request(_) => None }), // [C12,C15]
//@ end
//@ fn into_reply_error
//@ ret r
    ensures r == (match self { Content::Reply(Reply::Error(x)) => Some(x), _ => None }), // [C15]
//@ end
//@ endimpl
impl vstd::std_specs::convert::FromSpecImpl<Request> for Content {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Request) -> Self { Content::Request(v) }
}
impl vstd::std_specs::convert::FromSpecImpl<Reply> for Content {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Reply) -> Self { Content::Reply(v) }
}
//@ impl From<Request> for Content
//@ fn from
//@ end
//@ endimpl
//@ impl From<Reply> for Content
//@ fn from
//@ end
//@ endimpl
//@ subst DateTime<Utc> => CreationDate
//@ src src/core/msg/mod.rs
//@ item Header
//@ item Msg
/// nothing in it is marked as not to be written: `Ignore` is nowhere among the replies
pub open spec fn plain(r: Reply, n: nat) -> bool
    decreases n
{
    n > 0 && match r {
        Reply::Ignore => false,
        Reply::Sequence(a) => forall|i: int| 0 <= i < a.results@.len() ==> plain(#[trigger] a.results@[i], (n - 1) as nat),
        Reply::Batch(a) => forall|i: int| 0 <= i < a.results@.len() ==> plain(#[trigger] a.results@[i], (n - 1) as nat),
        _ => true,
    }
}
pub open spec fn sayable(c: Content) -> bool { c is Reply && exists|n: nat| #[trigger] plain(c->Reply_0, n) }
pub mod serde_cbor {
    use super::*;
    verus! {
    #[verifier::external_body]
    pub struct Error { _p: () }
    /// what the bytes say, if they are a message
    pub uninterp spec fn decoded(b: Seq<u8>) -> Option<Msg>;
    #[verifier::external_body]
    pub fn from_slice(b: &[u8]) -> (r: Result<Msg, Error>)
        ensures match r { Ok(m) => decoded(b@) == Some(m), Err(_) => decoded(b@) is None }
    { unimplemented!() }
    pub mod ser {
        use super::super::*;
        verus! {
        #[verifier::external_body]
        pub fn to_vec(m: &&Msg) -> (r: Result<Vec<u8>, super::Error>)
            ensures
                r is Ok ==> r->Ok_0@ == cbor(**m),
                sayable((**m).content) ==> r is Ok,
        { unimplemented!() }
        }
    }
    }
}
//@ item MsgError
pub open spec fn is_new_msg(m: Msg, content: Content, parent: Option<Header>) -> bool {
    m.content == content && m.parent_header == parent
}
//@ impl Default for Header as impl Header
//@ fn default
//@ end
//@ endimpl
//@ impl Header
//@ fn with_id
//@ ret r
    ensures r.id == id, // [C12]
//@ end
//@ endimpl
//@ impl Msg
//@ fn new
//@ ret r
    ensures is_new_msg(r, content, parent_header), // [C12]
//@ end
//@ fn to_vec
//@ ret r
    ensures
        r is Ok ==> r->Ok_0@ == cbor(*self), // [C12,C14]
        sayable(self.content) ==> r is Ok, // [C12,C13]
//@ end
//@ fn from_slice
//@ ret r
    ensures match r { Ok(m) => serde_cbor::decoded(slice@) == Some(m), Err(_) => serde_cbor::decoded(slice@) is None }, // [C18]
//@ end
//@ fn with_parent_header
//@ ret r
    ensures
        is_new_msg(*r, old(self).content, Some(header)) && r.header == old(self).header, // [C12]
        *final(self) == *final(r),
//@ end
//@ fn with_parent
//@ ret r
    ensures
        is_new_msg(*r, old(self).content, Some(parent.header)) && r.header == old(self).header, // [C12]
        *final(self) == *final(r),
//@ end
//@ endimpl
impl vstd::std_specs::convert::FromSpecImpl<Content> for Msg {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: Content) -> Self { arbitrary() }
}
impl vstd::std_specs::convert::FromSpecImpl<Request> for Msg {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: Request) -> Self { arbitrary() }
}
//@ impl From<Content> for Msg
//@ fn from
//@ ret r
    ensures is_new_msg(r, content, None), // [C14]
//@ end
//@ endimpl
//@ impl From<Request> for Msg
//@ fn from
//@ ret r
    ensures is_new_msg(r, Content::Request(request), None), // [C14]
//@ end
//@ endimpl
impl vstd::std_specs::convert::FromSpecImpl<Reply> for Msg {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: Reply) -> Self { arbitrary() }
}
//@ impl From<Reply> for Msg
//@ fn from
//@ ret r
    ensures is_new_msg(r, Content::Reply(reply), None), // [C12]
//@ end
//@ endimpl
//@ unsubst
