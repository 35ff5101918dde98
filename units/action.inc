// ---- what is done with a request ----------------------------------------------------
pub mod hmisc {
use super::*;
verus! {
pub assume_specification [ std::string::String::as_bytes ](s: &String) -> &[u8];
/// the version this was built as
pub uninterp spec fn built_version() -> Seq<char>;
#[verifier::external_body]
pub fn package_version() -> (r: String) ensures r@ == built_version() { unimplemented!() }
pub mod heartbeat {
use super::*;
verus! {
//@ src src/core/server/action/handler/heartbeat.rs
//@ fn heartbeat
//@ end
//@ endsrc
}
}
pub mod version {
use super::*;
use super::super::reply::VersionArgs;
verus! {
//@ subst env!("CARGO_PKG_VERSION").to_string() => package_version()
//@ src src/core/server/action/handler/version.rs
//@ fn version
//@ ret r
    ensures r.version@ == built_version(), // [C12]
//@ end
//@ endsrc
//@ unsubst
//@ subst state: Arc<ServerState> => state: &mut ServerState
}
}
pub mod capabilities {
use super::*;
use super::super::reply::{CapabilitiesArgs, Capability};
verus! {
//@ src src/core/server/action/handler/capabilities.rs
//@ fn capabilities
//@ ret r
    ensures
        r.capabilities@.contains(Capability::Custom) && r.capabilities@.contains(Capability::Exec)
            && r.capabilities@.contains(Capability::FileSystem) && r.capabilities@.contains(Capability::Forward), // [C12]
//@ end
//@ endsrc
}
}
pub mod internal_debug {
use super::*;
verus! {
//@ src src/core/server/action/handler/internal_debug.rs
//@ fn internal_debug
    ensures kept(*old(state), *final(state)), // [C12 C11]
//@ end
//@ endsrc
}
}
}
}
// ---- errors as replies ----
/// the reply that reports an I/O error
pub open spec fn io_reply(e: io::Error, r: Reply) -> bool { r is Error && r->Error_0 is Io && describes(r->Error_0->Io_0, e) }
pub open spec fn file_reply(e: handler::fs::FileIoError, r: Reply) -> bool { r is Error && handler::fs::file_err_reply(e, r->Error_0) }
impl vstd::std_specs::convert::FromSpecImpl<BoxError> for reply::GenericErrorArgs {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: BoxError) -> Self { arbitrary() }
}
impl vstd::std_specs::convert::FromSpecImpl<String> for reply::GenericErrorArgs {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: String) -> Self { reply::GenericErrorArgs { msg: v } }
}
impl vstd::std_specs::convert::FromSpecImpl<String> for ReplyError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: String) -> Self { ReplyError::Generic(reply::GenericErrorArgs { msg: v }) }
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a str> for ReplyError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'a str) -> Self { arbitrary() }
}
impl vstd::std_specs::convert::FromSpecImpl<BoxError> for ReplyError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: BoxError) -> Self { arbitrary() }
}
impl vstd::std_specs::convert::FromSpecImpl<io::Error> for ReplyError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: io::Error) -> Self { arbitrary() }
}
impl vstd::std_specs::convert::FromSpecImpl<io::Error> for Reply {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: io::Error) -> Self { arbitrary() }
}
impl vstd::std_specs::convert::FromSpecImpl<BoxError> for Reply {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: BoxError) -> Self { arbitrary() }
}
#[verifier::external_body]
pub fn string_from(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
pub use reply::GenericErrorArgs;
//@ unsubst
//@ subst String::from => string_from
//@ src src/core/msg/content/reply/generic_error.rs
//@ impl From<BoxError> for GenericErrorArgs
//@ fn from
//@ end
//@ endimpl
//@ impl From<String> for GenericErrorArgs
//@ fn from
//@ end
//@ endimpl
//@ src src/core/msg/content/reply/mod.rs
//@ impl From<String> for ReplyError
//@ fn from
//@ end
//@ endimpl
//@ impl From<&str> for ReplyError
//@ fn from
//@ ret r
    ensures r is Generic && r->Generic_0.msg@ == text@, // [C13]
//@ end
//@ endimpl
//@ impl From<BoxError> for ReplyError
//@ fn from
//@ ret r
    ensures r is Generic, // [C12]
//@ end
//@ endimpl
//@ impl From<io::Error> for ReplyError
//@ fn from
//@ ret r
    ensures r is Io && describes(r->Io_0, x), // [C12]
//@ end
//@ endimpl
//@ impl From<io::Error> for Reply
//@ fn from
//@ ret r
    ensures io_reply(x, r), // [C12]
//@ end
//@ endimpl
//@ impl From<BoxError> for Reply
//@ fn from
//@ ret r
    ensures r is Error && r->Error_0 is Generic, // [C12]
//@ end
//@ endimpl
//@ endsrc
//@ unsubst
//@ include transform.inc
// ---- the specification ----------------------------------------------------------------
pub open spec fn kept(s: ServerState, t: ServerState) -> bool { t.config_same(&s) && t.procs_same(&s) && t.files_same(&s) }
pub open spec fn replied<A>(o: io::Result<A>, r: Reply, ok: spec_fn(A) -> Reply) -> bool {
    match o { Ok(a) => r == ok(a), Err(e) => io_reply(e, r) }
}
pub open spec fn replied_file<A>(o: Result<A, handler::fs::FileIoError>, r: Reply, ok: spec_fn(A) -> Reply) -> bool {
    match o { Ok(a) => r == ok(a), Err(e) => file_reply(e, r) }
}
/// how the reply to an operation is reported among those of a sequence or batch
pub open spec fn reported(x: Reply, r: Reply) -> bool { if x is Ignore { r is Error } else { r == x } }
pub type Did = spec_fn(Request, ServerState, ServerState, Reply) -> bool;
/// `r` is the reply to `q`, and carrying it out took the server from `s` to `t`;
/// operations may be nested less than `d` deep
#[verifier::opaque]
pub open spec fn handled(q: Request, d: nat, s: ServerState, t: ServerState, r: Reply) -> bool
    decreases d, 0nat
{
    if d == 0 { r is Error && kept(s, t) } else { carried_out(q, nested((d - 1) as nat), s, t, r) }
}
#[verifier::opaque]
pub open spec fn nested(d: nat) -> Did
    decreases d, 1nat
{
    |q: Request, s: ServerState, t: ServerState, r: Reply| handled(q, d, s, t, r)
}
pub broadcast proof fn lemma_handled(q: Request, d: nat, s: ServerState, t: ServerState, r: Reply)
    ensures #[trigger] handled(q, d, s, t, r) == if d == 0 { r is Error && kept(s, t) } else { carried_out(q, nested((d - 1) as nat), s, t, r) }
{
    reveal(handled); reveal(nested);
}
pub broadcast proof fn lemma_nested(q: Request, d: nat, s: ServerState, t: ServerState, r: Reply)
    ensures #[trigger] handled(q, d, s, t, r) == nested(d)(q, s, t, r)
{
    reveal(handled); reveal(nested);
}
pub open spec fn carried_out(q: Request, sub: Did, s: ServerState, t: ServerState, r: Reply) -> bool {
    match q {
        Request::Heartbeat => kept(s, t) && r == Reply::Heartbeat,
        Request::Version => kept(s, t) && r is Version && r->Version_0.version@ == hmisc::built_version(),
        Request::Capabilities => kept(s, t) && r is Capabilities,
        Request::OpenFile(a) => exists|o: io::Result<reply::FileOpenedArgs>| #[trigger] handler::fs::open_done(s, t, a, o) && replied(o, r, |x| Reply::FileOpened(x)),
        Request::CloseFile(a) => exists|o: io::Result<reply::FileClosedArgs>| #[trigger] handler::fs::close_done(s, t, a, o) && replied(o, r, |x| Reply::FileClosed(x)),
        Request::RenameUnopenedFile(a) => exists|o: io::Result<reply::UnopenedFileRenamedArgs>| #[trigger] handler::fs::rename_unopened_done(s, t, a, o) && replied(o, r, |x| Reply::UnopenedFileRenamed(x)),
        Request::RenameFile(a) => exists|o: Result<reply::FileRenamedArgs, handler::fs::FileIoError>| #[trigger] handler::fs::rename_done(s, t, a, o) && replied_file(o, r, |x| Reply::FileRenamed(x)),
        Request::RemoveUnopenedFile(a) => exists|o: io::Result<reply::UnopenedFileRemovedArgs>| #[trigger] handler::fs::remove_unopened_done(s, t, a, o) && replied(o, r, |x| Reply::UnopenedFileRemoved(x)),
        Request::RemoveFile(a) => exists|o: Result<reply::FileRemovedArgs, handler::fs::FileIoError>| #[trigger] handler::fs::remove_done(s, t, a, o) && replied_file(o, r, |x| Reply::FileRemoved(x)),
        Request::ReadFile(a) => exists|o: Result<reply::FileContentsArgs, handler::fs::FileIoError>| #[trigger] handler::fs::read_done(s, t, a, o) && replied_file(o, r, |x| Reply::FileContents(x)),
        Request::WriteFile(a) => exists|o: Result<reply::FileWrittenArgs, handler::fs::FileIoError>| #[trigger] handler::fs::write_done(s, t, a, o) && replied_file(o, r, |x| Reply::FileWritten(x)),
        Request::CreateDir(a) => exists|o: io::Result<reply::DirCreatedArgs>| #[trigger] handler::fs::create_dir_done(s, t, a, o) && replied(o, r, |x| Reply::DirCreated(x)),
        Request::RenameDir(a) => exists|o: io::Result<reply::DirRenamedArgs>| #[trigger] handler::fs::rename_dir_done(s, t, a, o) && replied(o, r, |x| Reply::DirRenamed(x)),
        Request::RemoveDir(a) => exists|o: io::Result<reply::DirRemovedArgs>| #[trigger] handler::fs::remove_dir_done(s, t, a, o) && replied(o, r, |x| Reply::DirRemoved(x)),
        Request::ListDirContents(a) => exists|o: io::Result<reply::DirContentsListArgs>| #[trigger] handler::fs::list_done(s, t, a, o) && replied(o, r, |x| Reply::DirContentsList(x)),
        Request::ExecProc(a) => exists|o: io::Result<reply::ProcStartedArgs>| #[trigger] hproc::exec_done(s, t, a, o) && replied(o, r, |x| Reply::ProcStarted(x)),
        Request::WriteProcStdin(a) => exists|o: io::Result<reply::ProcStdinWrittenArgs>| #[trigger] hproc::stdin_done(s, t, a, o) && replied(o, r, |x| Reply::ProcStdinWritten(x)),
        Request::ReadProcStdout(a) => exists|o: io::Result<reply::ProcStdoutContentsArgs>| #[trigger] hproc::stdout_done(s, t, a, o) && replied(o, r, |x| Reply::ProcStdoutContents(x)),
        Request::ReadProcStderr(a) => exists|o: io::Result<reply::ProcStderrContentsArgs>| #[trigger] hproc::stderr_done(s, t, a, o) && replied(o, r, |x| Reply::ProcStderrContents(x)),
        Request::ReadProcStatus(a) => exists|o: io::Result<reply::ProcStatusArgs>| #[trigger] hproc::status_done(s, t, a, o) && replied(o, r, |x| Reply::ProcStatus(x)),
        Request::KillProc(a) => exists|o: io::Result<reply::ProcKilledArgs>| #[trigger] hproc::kill_done(s, t, a, o) && replied(o, r, |x| Reply::ProcKilled(x)),
        Request::InternalDebug(_) => kept(s, t) && r is InternalDebug,
        Request::Sequence(a) => r is Sequence && sequence_done(a.operations@, sub, s, t, r->Sequence_0.results@),
        Request::Batch(a) => r is Batch && batch_done(a.operations@, sub, s, t, r->Batch_0.results@),
        Request::Custom(a) => kept(s, t) && match s.custom_handler {
            None => r == Reply::Ignore,
            Some(_) => exists|o: Result<reply::CustomArgs, BoxError>| #[trigger] custom_did(a, o) && match o { Ok(x) => r == Reply::Custom(x), Err(_) => r is Error },
        },
        Request::Forward(_) => kept(s, t) && r == Reply::Ignore,
    }
}
/// one operation of a sequence, after the reply `p`
pub open spec fn seq_step(op: LazilyTransformedRequest, p: Option<Reply>, sub: Did, s: ServerState, t: ServerState, r: Reply) -> bool {
    match p {
        None => exists|x: Reply| #[trigger] sub(op.raw_request, s, t, x) && reported(x, r),
        // nothing runs after an error
        Some(Reply::Error(_)) => kept(s, t) && r is Error,
        Some(p) => exists|o: Result<Request, TransformRequestError>| #[trigger] transformed(op, p, o) && match o {
            Ok(q) => exists|x: Reply| #[trigger] sub(q, s, t, x) && reported(x, r),
            Err(_) => kept(s, t) && r is Error,
        },
    }
}
pub open spec fn before(rs: Seq<Reply>, i: int) -> Option<Reply> { if i == 0 { None } else { Some(rs[i - 1]) } }
/// one reply per operation, in order, one after the other
pub open spec fn in_sequence(ops: Seq<LazilyTransformedRequest>, sub: Did, ss: Seq<ServerState>, s: ServerState, t: ServerState, rs: Seq<Reply>) -> bool {
    &&& rs.len() == ops.len() && ss.len() == ops.len() + 1 && ss[0] == s && ss[ops.len() as int] == t
    &&& forall|i: int| 0 <= i < ops.len() ==> seq_step(ops[i], before(rs, i), sub, ss[i], ss[i + 1], #[trigger] rs[i])
}
pub open spec fn sequence_done(ops: Seq<LazilyTransformedRequest>, sub: Did, s: ServerState, t: ServerState, rs: Seq<Reply>) -> bool {
    exists|ss: Seq<ServerState>| #[trigger] in_sequence(ops, sub, ss, s, t, rs)
}
pub open spec fn batch_done(ops: Seq<Request>, sub: Did, s: ServerState, t: ServerState, rs: Seq<Reply>) -> bool {
    exists|ss: Seq<ServerState>| #[trigger] in_batch(ops, sub, ss, s, t, rs)
}
/// a task was lost (it panicked)
pub uninterp spec fn task_lost() -> bool;
/// one reply per operation, in order, whatever came of the others
pub open spec fn in_batch(ops: Seq<Request>, sub: Did, ss: Seq<ServerState>, s: ServerState, t: ServerState, rs: Seq<Reply>) -> bool {
    &&& rs.len() == ops.len() && ss.len() == ops.len() + 1 && ss[0] == s && ss[ops.len() as int] == t
    &&& forall|i: int| 0 <= i < ops.len() ==> batch_step(ops[i], sub, ss[i], ss[i + 1], #[trigger] rs[i])
}
pub open spec fn batch_step(q: Request, sub: Did, s: ServerState, t: ServerState, r: Reply) -> bool {
    exists|x: Reply| #[trigger] sub(q, s, t, x) && (reported(x, r) || (task_lost() && r is Error))
}
// ---- permissions: what a request entitles to ----
pub open spec fn entitled(q: Request, s: ServerState) -> bool {
    match q {
        Request::RenameUnopenedFile(a) => s.fs_manager.may_move(named(a.from), named(a.to)),
        Request::RenameFile(a) => s.files().contains_key(a.id) && a.sig == s.files()[a.id].sig ==> allowed(FsOp::Rename(s.files()[a.id].path.comps(), named(a.to))),
        Request::RemoveUnopenedFile(a) => forall|c: Comps| #[trigger] cleaned(named(a.path), c) && !busy(s.files(), c) ==> allowed(FsOp::RemoveFile(c)),
        Request::RemoveFile(a) => s.files().contains_key(a.id) && a.sig == s.files()[a.id].sig ==> allowed(FsOp::RemoveFile(s.files()[a.id].path.comps())),
        Request::CreateDir(a) => forall|c: Comps| #[trigger] cleaned(named(a.path), c) ==> allowed(FsOp::CreateDir(c, a.include_components)),
        Request::RenameDir(a) => s.fs_manager.may_move(named(a.from), named(a.to)),
        Request::RemoveDir(a) => forall|c: Comps| #[trigger] cleaned(named(a.path), c) && !busy(s.files(), c) ==> allowed(FsOp::RemoveDir(c, a.non_empty)),
        Request::ExecProc(a) => forall|p: Plan| hproc::is_plan(p, a) ==> #[trigger] may_start(p),
        Request::KillProc(a) => s.procs@.contains_key(a.id) ==> may_kill(s.procs@[a.id].inner.no()),
        _ => true,
    }
}
/// nothing beyond the operations of the request may be done
pub open spec fn may_run(q: Request, d: nat) -> bool
    decreases d
{
    d > 0 ==> match q {
        Request::Sequence(a) => forall|i: int, q2: Request| 0 <= i < a.operations@.len() && #[trigger] from_op(a.operations@[i], q2) ==> may_run(q2, (d - 1) as nat),
        Request::Batch(a) => forall|i: int| 0 <= i < a.operations@.len() ==> may_run(#[trigger] a.operations@[i], (d - 1) as nat),
        q => forall|s: ServerState| s.wf() ==> #[trigger] entitled(q, s),
    }
}
pub open spec fn from_op(op: LazilyTransformedRequest, q: Request) -> bool {
    q == op.raw_request || exists|p: Reply| #[trigger] transformed(op, p, Ok(q))
}
// ---- tasks ----
pub struct JoinError;
/// every task's result, in the order the tasks were given
#[verifier::external_body]
pub fn join_all(v: Vec<JoinHandle<Reply>>) -> (r: Vec<Result<Reply, JoinError>>)
    ensures
        r@.len() == v@.len(),
        forall|i: int| 0 <= i < r@.len() ==> joined(v@[i].out, #[trigger] r@[i]),
{ unimplemented!() }
pub open spec fn joined(x: Reply, r: Result<Reply, JoinError>) -> bool { match r { Ok(y) => y == x, Err(_) => task_lost() } }
/// what is reported for a task's result
pub open spec fn collected(x: Result<Reply, JoinError>, r: Reply) -> bool { match x { Ok(y) => reported(y, r), Err(_) => r is Error } }
pub open spec fn collected_all(xs: Seq<Result<Reply, JoinError>>, rs: Seq<Reply>, n: int) -> bool {
    rs.len() == n <= xs.len() && forall|i: int| 0 <= i < n ==> collected(xs[i], #[trigger] rs[i])
}
pub open spec fn ran(hs: Seq<JoinHandle<Reply>>, xs: Seq<Reply>) -> bool {
    hs.len() == xs.len() && forall|i: int| 0 <= i < xs.len() ==> (#[trigger] hs[i]).out == xs[i]
}
pub open spec fn last_out(hs: Seq<JoinHandle<Reply>>) -> Reply { hs.last().out }
pub mod futures {
    pub mod future {
        pub use super::super::join_all;
    }
}
// ---- connections ----
pub mod hash_map {
    use super::*;
    verus! {
    #[verifier::external_body]
    pub struct OccupiedEntry<'a> { _p: core::marker::PhantomData<&'a ()> }
    #[verifier::external_body]
    pub struct VacantEntry<'a> { _p: core::marker::PhantomData<&'a ()> }
    pub enum Entry<'a> { Occupied(OccupiedEntry<'a>), Vacant(VacantEntry<'a>) }
    impl<'a> OccupiedEntry<'a> {
        #[verifier::external_body]
        pub fn insert(&mut self, v: Instant) -> Instant { unimplemented!() }
    }
    impl<'a> VacantEntry<'a> {
        #[verifier::external_body]
        pub fn insert(self, v: Instant) { unimplemented!() }
    }
    }
}
impl Conns {
    #[verifier::external_body]
    pub fn entry(&mut self, k: SocketAddr) -> hash_map::Entry<'_> { unimplemented!() }
}
// ---- answers ----
/// how data is handed to the task that sends it
pub open spec fn just_data() -> spec_fn(Vec<u8>) -> Vec<u8> { |d: Vec<u8>| d }
pub open spec fn data_to(a: SocketAddr) -> spec_fn(Vec<u8>) -> (Vec<u8>, SocketAddr) { |d: Vec<u8>| (d, a) }
pub open spec fn sent<T>(chan: int, v: T, ok: bool) -> bool { if ok { mpsc::put(chan, v) } else { mpsc::closed(chan) } }
/// what a request does, once the time of the last message of its origin is noted
pub open spec fn processed(q: Request, d: nat, s: ServerState, t: ServerState, r: Reply) -> bool {
    exists|m: ServerState| kept(s, m) && m.wf() && #[trigger] handled(q, d, m, t, r)
}
/// `data` is a message that carries the reply to the message with this header
pub open spec fn carries(data: Seq<u8>, m: Msg, r: Reply, h: Header) -> bool { is_new_msg(m, Content::Reply(r), Some(h)) && data == cbor(m) }
pub open spec fn may_send<T>(r: Reply, h: Header, chan: int, to: spec_fn(Vec<u8>) -> T) -> bool {
    forall|v: Vec<u8>, m: Msg| #![trigger v@, cbor(m)] carries(v@, m, r, h) ==> mpsc::may_put(chan, to(v))
}
/// nothing but the reply to it is a permitted answer
pub open spec fn may_answer<T>(msg: Msg, d: nat, chan: int, to: spec_fn(Vec<u8>) -> T) -> bool {
    forall|s: ServerState, t: ServerState, r: Reply|
        msg.content is Request && s.wf() && #[trigger] processed(msg.content->Request_0, d, s, t, r) && !(r is Ignore) ==> may_send(r, msg.header, chan, to)
}
pub broadcast proof fn lemma_processed_plain(q: Request, d: nat, s: ServerState, t: ServerState, r: Reply)
    requires #[trigger] processed(q, d, s, t, r), !(r is Ignore)
    ensures sayable(Content::Reply(r))
{
    let m = choose|m: ServerState| kept(s, m) && m.wf() && #[trigger] handled(q, d, m, t, r);
    lemma_plain(q, d, m, t, r);
}
pub open spec fn responded<T>(reply: Reply, h: Header, chan: int, to: spec_fn(Vec<u8>) -> T, r: Result<(), action::ActionError>) -> bool {
    match r {
        Ok(_) => exists|v: Vec<u8>, m: Msg| #![trigger v@, cbor(m)] carries(v@, m, reply, h) && mpsc::put(chan, to(v)),
        Err(action::ActionError::RespondFailed) => mpsc::closed(chan),
        Err(action::ActionError::MsgError(_)) => !sayable(Content::Reply(reply)),
        Err(_) => false,
    }
}
/// a request is answered, unless it is to be ignored or nobody is there to send the answer;
/// anything else is left alone
pub open spec fn executed<T>(msg: Msg, d: nat, s: ServerState, t: ServerState, chan: int, to: spec_fn(Vec<u8>) -> T, r: Result<(), action::ActionError>) -> bool {
    match msg.content {
        Content::Request(q) => exists|x: Reply| #[trigger] processed(q, d, s, t, x) && if x is Ignore { r is Ok } else { responded(x, msg.header, chan, to, r) && (r is Err ==> r->Err_0 is RespondFailed) },
        Content::Reply(_) => r is Err && r->Err_0 is UnexpectedContent && s == t,
    }
}
/// whatever is done with a request, its reply can be written
pub proof fn lemma_plain(q: Request, d: nat, s: ServerState, t: ServerState, r: Reply)
    requires handled(q, d, s, t, r), !(r is Ignore)
    ensures plain(r, d + 1)
    decreases d
{
    broadcast use lemma_handled;
    broadcast use lemma_nested;
    if d > 0 {
        match q {
            Request::Sequence(a) => {
                let sub = nested((d - 1) as nat);
                let ss = choose|ss: Seq<ServerState>| #[trigger] in_sequence(a.operations@, sub, ss, s, t, r->Sequence_0.results@);
                let rs = r->Sequence_0.results@;
                assert forall|i: int| 0 <= i < rs.len() implies plain(#[trigger] rs[i], d) by {
                    assert(seq_step(a.operations@[i], before(rs, i), sub, ss[i], ss[i + 1], rs[i]));
                    if !(rs[i] is Error) {
                        let (q2, x) = choose|q2: Request, x: Reply| #[trigger] sub(q2, ss[i], ss[i + 1], x) && reported(x, rs[i]);
                        assert(handled(q2, (d - 1) as nat, ss[i], ss[i + 1], x));
                        lemma_plain(q2, (d - 1) as nat, ss[i], ss[i + 1], x);
                    }
                }
            }
            Request::Batch(a) => {
                let sub = nested((d - 1) as nat);
                let ss = choose|ss: Seq<ServerState>| #[trigger] in_batch(a.operations@, sub, ss, s, t, r->Batch_0.results@);
                let rs = r->Batch_0.results@;
                assert forall|i: int| 0 <= i < rs.len() implies plain(#[trigger] rs[i], d) by {
                    assert(batch_step(a.operations@[i], sub, ss[i], ss[i + 1], rs[i]));
                    if !(rs[i] is Error) {
                        let x = choose|x: Reply| #[trigger] sub(a.operations@[i], ss[i], ss[i + 1], x) && reported(x, rs[i]);
                        assert(handled(a.operations@[i], (d - 1) as nat, ss[i], ss[i + 1], x));
                        lemma_plain(a.operations@[i], (d - 1) as nat, ss[i], ss[i + 1], x);
                    }
                }
            }
            _ => {}
        }
    }
}
// ---- the code ---------------------------------------------------------------------------
pub mod action {
use super::*;
use super::hash_map::Entry;
verus! {
//@ subst state: Arc<ServerState> => state: &mut ServerState
//@ src src/core/server/action/mod.rs
//@ item SequenceError
//@ item ActionError
//@ fn update_origin_last_touched
    ensures
        kept(*old(state), *final(state)), // [C12]
        old(state).wf() ==> final(state).wf(), // [C12]
//@ end
//@ fn nested_reply
//@ ret r
    ensures reported(reply, r) && !(r is Ignore), // [C13]
//@ end
//@ fn try_transform_request
//@ ret r
    ensures
      r is Ok ==> from_op(op, r->Ok_0), // [C13]
      match previous_reply {
        None => r == Ok::<Request, SequenceError>(op.raw_request), // [C13]
        Some(Reply::Error(_)) => r is Err, // [C13]
        Some(p) => match r { Ok(q) => transformed(op, *p, Ok(q)), Err(e) => e is Transform && transformed(op, *p, Err(e->Transform_0)) }, // [C13]
      },
//@ end
//@ fn route_and_execute
//@ ret r
    requires
        old(state).wf(),
        may_run(request, max_depth as nat),
    ensures
        final(state).wf(), // [C12,C13]
        handled(request, max_depth as nat, *old(state), *final(state), r), // [C12,C13]
    decreases max_depth
//@ start
    broadcast use lemma_handled;
    broadcast use lemma_nested;
    let ghost s0 = *state;
    let ghost sub = nested((max_depth - 1) as nat);
    let ghost mut bops = Seq::<Request>::empty();
    let ghost mut bs = Seq::<ServerState>::empty();
    let ghost mut xs = Seq::<Reply>::empty();
    proof {
        if max_depth > 0 && !(request is Sequence) && !(request is Batch) { assert(entitled(request, *state)); }
    }
//@ loop 0 iter it
//@ loop 0 before
    let ghost ops = args.operations@;
    let ghost mut ss = seq![*state];
//@ loop 0
    invariant
        state.wf(),
        max_depth > 0, sub == nested((max_depth - 1) as nat),
        it.seq() == ops,
        results@.len() == it.index@,
        ss.len() == it.index@ + 1, ss[0] == s0, ss.last() == *state,
        forall|i: int| 0 <= i < it.index@ ==> seq_step(ops[i], before(results@, i), sub, ss[i], ss[i + 1], #[trigger] results@[i]), // [C13]
        forall|i: int, q2: Request| 0 <= i < ops.len() && #[trigger] from_op(ops[i], q2) ==> may_run(q2, (max_depth - 1) as nat),
//@ loop 0 start
    broadcast use lemma_nested;
    let ghost rs0 = results@;
//@ loop 0 end
    proof {
        ss = ss.push(*state);
        let k = it.index@;
        assert(results@ =~= rs0.push(results@[k]));
        assert(seq_step(ops[k], before(results@, k), sub, ss[k], ss[k + 1], results@[k]));
    }
//@ loop 0 after
    proof {
        assert(in_sequence(ops, sub, ss, s0, *state, results@));
        assert(sequence_done(ops, sub, s0, *state, results@));
    }
//@ loop 1 iter it
//@ loop 1 before
    proof { bops = __in@; bs = seq![*state]; }
//@ loop 1
    invariant
        state.wf(),
        max_depth > 0, sub == nested((max_depth - 1) as nat),
        it.seq() == bops,
        ran(__out@, xs), xs.len() == it.index@,
        bs.len() == it.index@ + 1, bs[0] == s0, bs.last() == *state,
        forall|i: int| 0 <= i < it.index@ ==> sub(bops[i], bs[i], bs[i + 1], #[trigger] xs[i]), // [C13]
        forall|i: int| 0 <= i < bops.len() ==> may_run(#[trigger] bops[i], (max_depth - 1) as nat),
//@ loop 1 start
    broadcast use lemma_nested;
//@ loop 1 end
    proof {
        bs = bs.push(*state);
        xs = xs.push(last_out(__out@));
    }
//@ loop 2 iter jt
//@ loop 2 before
    let ghost rs = __in@;
//@ loop 2
    invariant
        jt.seq() == rs,
        collected_all(rs, __out@, jt.index@ as int), // [C13]
//@ loop 2 after
    proof { assert(in_batch(bops, sub, bs, s0, *state, __out@)); assert(batch_done(bops, sub, s0, *state, __out@)); }
//@ end
//@ item OriginSender #[verifier::reject_recursive_types(T)]
//@ impl OriginSender<Vec<u8>>
//@ fn new
//@ ret r
    ensures r.tx == tx && r.addr == addr, // [C12]
//@ end
//@ fn send
//@ ret r
    requires
        mpsc::may_put(old(self).tx.chan(), data),
        old(self).tx.uses() != 0,
    ensures
        sent(old(self).tx.chan(), data, r is Ok), // [C12]
//@ end
//@ endimpl
//@ impl OriginSender<(Vec<u8>, SocketAddr)>
//@ fn new
//@ ret r
    ensures r.tx == tx && r.addr == addr, // [C12]
//@ end
//@ fn send
//@ ret r
    requires
        mpsc::may_put(old(self).tx.chan(), (data, old(self).addr)),
        old(self).tx.uses() != 0,
    ensures
        sent(old(self).tx.chan(), (data, old(self).addr), r is Ok), // [C12]
//@ end
//@ endimpl
//@ item Executor #[verifier::reject_recursive_types(T)]
//@ fn validate_route_and_execute
//@ ret r
    requires
        old(state).wf(),
        content is Request ==> may_run(content->Request_0, max_depth as nat),
    ensures
        final(state).wf(), // [C12]
        match r {
            Ok(x) => content is Request && processed(content->Request_0, max_depth as nat, *old(state), *final(state), x), // [C12]
            Err(e) => e is UnexpectedContent && content is Reply && *final(state) == *old(state), // [C18]
        },
//@ end
//@ impl Executor<T>
//@ endimpl
//@ impl Executor<Vec<u8>>
//@ fn new
//@ ret r
    ensures r.origin_sender.tx == tx && r.origin_sender.addr == origin_addr && r.max_depth == max_depth, // [C12]
//@ end
//@ fn execute
//@ ret r
    requires
        old(state).wf(),
        self.origin_sender.tx.uses() != 0,
        msg.content is Request ==> may_run(msg.content->Request_0, self.max_depth as nat),
        may_answer(msg, self.max_depth as nat, self.origin_sender.tx.chan(), just_data()),
    ensures
        final(state).wf(), // [C12]
        executed(msg, self.max_depth as nat, *old(state), *final(state), self.origin_sender.tx.chan(), just_data(), r), // [C12,C18]
//@ start
    broadcast use lemma_processed_plain;
//@ end
//@ fn respond
//@ ret r
    requires
        origin_sender.tx.uses() != 0,
        may_send(reply, parent_header, origin_sender.tx.chan(), just_data()),
    ensures
        responded(reply, parent_header, origin_sender.tx.chan(), just_data(), r), // [C12]
//@ end
//@ endimpl
//@ impl Executor<(Vec<u8>, SocketAddr)>
//@ fn new
//@ ret r
    ensures r.origin_sender.tx == tx && r.origin_sender.addr == origin_addr && r.max_depth == max_depth, // [C12]
//@ end
//@ fn execute
//@ ret r
    requires
        old(state).wf(),
        self.origin_sender.tx.uses() != 0,
        msg.content is Request ==> may_run(msg.content->Request_0, self.max_depth as nat),
        may_answer(msg, self.max_depth as nat, self.origin_sender.tx.chan(), data_to(self.origin_sender.addr)),
    ensures
        final(state).wf(), // [C12]
        executed(msg, self.max_depth as nat, *old(state), *final(state), self.origin_sender.tx.chan(), data_to(self.origin_sender.addr), r), // [C12,C18]
//@ start
    broadcast use lemma_processed_plain;
//@ end
//@ fn respond
//@ ret r
    requires
        origin_sender.tx.uses() != 0,
        may_send(reply, parent_header, origin_sender.tx.chan(), data_to(origin_sender.addr)),
    ensures
        responded(reply, parent_header, origin_sender.tx.chan(), data_to(origin_sender.addr), r), // [C12]
//@ end
//@ endimpl
//@ endsrc
}
}
pub use action::*;
