// ---- asking the server --------------------------------------------------------------
pub mod oneshot {
    use super::*;
    verus! {
    /// the message a channel was made for (fixed once, by `bind_channel`)
    pub uninterp spec fn key(chan: int) -> u32;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Sender<T> { _p: core::marker::PhantomData<T> }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Receiver<T> { _p: core::marker::PhantomData<T> }
    #[verifier::external_body]
    pub struct RecvError { _p: () }
    impl<T> Sender<T> { pub uninterp spec fn chan(&self) -> int; }
    impl<T> Receiver<T> { pub uninterp spec fn chan(&self) -> int; }
    /// what may go through the channel: the outcome of a reply to its message
    pub open spec fn outcome_of(chan: int, v: Result<Reply, AskError>) -> bool {
        exists|reply: Reply| #[trigger] answers(key(chan), reply) && is_outcome(reply, v)
    }
    #[verifier::external_body]
    pub fn channel<T>() -> (r: (Sender<T>, Receiver<T>))
        ensures r.0.chan() == r.1.chan()
    { unimplemented!() }
    #[verifier::external_body]
    pub proof fn bind_channel(chan: int, id: u32)
        ensures key(chan) == id
    { }
    impl Sender<Result<Reply, AskError>> {
        #[verifier::external_body]
        pub fn send(self, v: Result<Reply, AskError>) -> Result<(), Result<Reply, AskError>>
            requires outcome_of(self.chan(), v)
        { unimplemented!() }
    }
    }
}
pub mod tokio {
    pub mod time {
        use super::super::*;
        verus! {
        #[verifier::external_body]
        pub struct Elapsed { _p: () }
        /// nothing came through the channel for that long
        pub uninterp spec fn silent(d: Duration, chan: int) -> bool;
        /// what comes out of the channel went into it
        #[verifier::external_body]
        pub fn timeout(d: Duration, rx: oneshot::Receiver<Result<Reply, AskError>>)
            -> (r: Result<Result<Result<Reply, AskError>, oneshot::RecvError>, Elapsed>)
            ensures match r {
                Ok(Ok(v)) => oneshot::outcome_of(rx.chan(), v),
                Ok(Err(_)) => true,
                Err(_) => silent(d, rx.chan()),
            }
        { unimplemented!() }
        }
    }
}
/// a general error surfaces with its description, any other reply as it is
pub open spec fn is_outcome(reply: Reply, v: Result<Reply, AskError>) -> bool {
    match reply {
        Reply::Error(ReplyError::Generic(x)) => v == Err::<Reply, AskError>(AskError::Failure { msg: x.msg }),
        _ => v == Ok::<Reply, AskError>(reply),
    }
}
//@ keep
//@ src src/core/client/connected.rs
//@ item ConnectedClient
pub open spec fn em_ok(e: Either<EventManager, AddrEventManager>) -> bool {
    match e {
        Either::Left(m) => m.tx.uses() < 0 && forall|d: Vec<u8>| #[trigger] mpsc::may_put(m.tx.chan(), d),
        Either::Right(m) => m.tx.uses() < 0 && forall|d: (Vec<u8>, SocketAddr)| #[trigger] mpsc::may_put(m.tx.chan(), d),
    }
}
pub open spec fn wf(c: ConnectedClient) -> bool { em_ok(c.event_manager) && ready(c.state.callback_manager) }
/// the connection is the same
pub open spec fn same_line(a: ConnectedClient, b: ConnectedClient) -> bool {
    &&& a.remote_addr == b.remote_addr
    &&& a.timeout == b.timeout
    &&& match (a.event_manager, b.event_manager) {
        (Either::Left(x), Either::Left(y)) => x.tx.chan() == y.tx.chan(),
        (Either::Right(x), Either::Right(y)) => x.tx.chan() == y.tx.chan(),
        _ => false,
    }
}
/// the message was given to the transport, for the server
pub open spec fn sent(c: ConnectedClient, m: Msg) -> bool {
    match c.event_manager {
        Either::Left(e) => exists|d: Vec<u8>| #[trigger] mpsc::put(e.tx.chan(), d) && d@ == cbor(m),
        Either::Right(e) => exists|d: Vec<u8>| #[trigger] mpsc::put(e.tx.chan(), (d, c.remote_addr)) && d@ == cbor(m),
    }
}
pub open spec fn told(c: ConnectedClient, request: Request) -> bool {
    exists|m: Msg| #[trigger] is_new_msg(m, Content::Request(request), None) && sent(c, m)
}
/// `r` is the outcome of asking `request`: of the reply to that very message
pub open spec fn asked(c: ConnectedClient, request: Request, r: Result<Reply, AskError>) -> bool {
    match r {
        Ok(reply) => answered(c, request, reply, r),
        Err(AskError::Failure { msg }) => exists|reply: Reply| #[trigger] answered(c, request, reply, r),
        Err(AskError::InvalidResponse { reply }) => false,
        Err(AskError::Timeout) => exists|chan: int| #[trigger] tokio::time::silent(c.timeout, chan),
        _ => true,
    }
}
pub open spec fn answered(c: ConnectedClient, request: Request, reply: Reply, r: Result<Reply, AskError>) -> bool {
    exists|m: Msg| #[trigger] is_new_msg(m, Content::Request(request), None) && sent(c, m) && answers(m.header.id, reply) && is_outcome(reply, r)
}
pub proof fn outcome_is_answer(c: ConnectedClient, request: Request, m: Msg, chan: int, v: Result<Reply, AskError>)
    requires
        is_new_msg(m, Content::Request(request), None),
        sent(c, m),
        oneshot::key(chan) == m.header.id,
        oneshot::outcome_of(chan, v),
    ensures asked(c, request, v)
{
    let reply = choose|reply: Reply| #[trigger] answers(oneshot::key(chan), reply) && is_outcome(reply, v);
    assert(answered(c, request, reply, v));
    match v {
        Ok(x) => { assert(x == reply); }
        Err(AskError::Failure { msg }) => { assert(exists|reply: Reply| #[trigger] answered(c, request, reply, v)); }
        _ => {}
    }
}
/// the other outstanding requests
pub open spec fn others_kept(m0: CallbackManager<Reply>, m1: CallbackManager<Reply>) -> bool {
    exists|id: u32| #[trigger] kept_but(m0, m1, id)
}
pub open spec fn kept_but(m0: CallbackManager<Reply>, m1: CallbackManager<Reply>, id: u32) -> bool {
    forall|k: u32| k != id && m0.callbacks@.contains_key(k) ==> m1.callbacks@.contains_key(k) && #[trigger] m1.callbacks@[k] == m0.callbacks@[k]
}
/// what the caller may rely on after any call
pub open spec fn still(a: ConnectedClient, b: ConnectedClient) -> bool { wf(b) && same_line(a, b) }
/// what a typed call makes of the outcome
pub open spec fn ask_out<T>(r0: Result<Reply, AskError>, picked: Option<T>, r: Result<T, AskError>) -> bool {
    match r0 {
        Err(e) => r == Err::<T, AskError>(e),
        Ok(reply) => match picked {
            Some(t) => r == Ok::<T, AskError>(t),
            None => r == Err::<T, AskError>(AskError::InvalidResponse { reply }),
        },
    }
}
pub open spec fn is_file_error(reply: Reply, e: FileAskError) -> bool {
    match reply {
        Reply::Error(ReplyError::Io(args)) => e is IoError && described_by(e->IoError_0, args),
        Reply::Error(ReplyError::FileSigChanged(args)) => e == FileAskError::FileSignatureChanged { id: args.id },
        _ => e == FileAskError::GeneralAskFailed(AskError::InvalidResponse { reply }),
    }
}
pub open spec fn file_out<T>(r0: Result<Reply, AskError>, picked: Option<T>, r: Result<T, FileAskError>) -> bool {
    match r0 {
        Err(e) => r == Err::<T, FileAskError>(FileAskError::GeneralAskFailed(e)),
        Ok(reply) => match picked {
            Some(t) => r == Ok::<T, FileAskError>(t),
            None => r is Err && is_file_error(reply, r->Err_0),
        },
    }
}
pub open spec fn is_exec_error(reply: Reply, e: ExecAskError) -> bool {
    match reply {
        Reply::Error(ReplyError::Io(args)) => e is IoError && described_by(e->IoError_0, args),
        _ => e == ExecAskError::GeneralAskFailed(AskError::InvalidResponse { reply }),
    }
}
pub open spec fn exec_out<T>(r0: Result<Reply, AskError>, picked: Option<T>, r: Result<T, ExecAskError>) -> bool {
    match r0 {
        Err(e) => r == Err::<T, ExecAskError>(ExecAskError::GeneralAskFailed(e)),
        Ok(reply) => match picked {
            Some(t) => r == Ok::<T, ExecAskError>(t),
            None => r is Err && is_exec_error(reply, r->Err_0),
        },
    }
}
//@ fn make_file_ask_error
//@ ret r
    ensures is_file_error(x, r), // [C15]
//@ end
//@ fn make_exec_ask_error
//@ ret r
    ensures is_exec_error(x, r), // [C15]
//@ end
//@ fn make_ask_error
//@ ret r
    ensures r == (AskError::InvalidResponse { reply }), // [C15]
//@ end
//@ impl ConnectedClient
//@ fn send_msg
//@ ret r
    requires wf(*old(self)),
    ensures
        still(*old(self), *final(self)),
        final(self).state == old(self).state,
        r is Ok ==> sent(*old(self), msg), // [C14]
//@ end
//@ fn tell
//@ ret r
    requires wf(*old(self)),
    ensures
        still(*old(self), *final(self)),
        final(self).state == old(self).state, // [C14]
        r is Ok ==> told(*old(self), request), // [C14]
//@ end
//@ fn ask
//@ ret r
    requires wf(*old(self)),
    ensures
        still(*old(self), *final(self)),
        asked(*old(self), request, r), // [C14,C15]
        others_kept(old(self).state.callback_manager, final(self).state.callback_manager), // [C14]
//@ after from 0
    proof { oneshot::bind_channel(rx.chan(), msg.header.id); }
//@ before send_msg 0
    proof {
        assert(kept_but(old(self).state.callback_manager, self.state.callback_manager, msg.header.id));
        // the callback waits before the request leaves
        assert(self.state.callback_manager.callbacks@.contains_key(msg.header.id));
    }
//@ before timeout 0
    proof {
        assert forall|v: Result<Reply, AskError>| #[trigger] oneshot::outcome_of(rx.chan(), v) implies asked(*old(self), request, v) by {
            outcome_is_answer(*old(self), request, msg, rx.chan(), v);
        };
    }
//@ closure 0 (u: ())
    requires answers(oneshot::key(tx.chan()), *reply)
//@ end
//@ endimpl
//@ unsubst
