// ---- the client -------------------------------------------------------------------
pub mod task {
    use super::*;
    verus! {
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct JoinHandle<T> { _p: core::marker::PhantomData<T> }
    #[verifier::external_body]
    pub struct JoinError { _p: () }
    }
}
pub use task::JoinHandle;
//@ keep
//@ src src/utils/either.rs
//@ item Either
//@ src src/core/event/mod.rs
//@ item EventManager
//@ item AddrEventManager
//@ impl EventManager
//@ fn send
//@ ret r
    requires
        old(self).tx.uses() < 0,
        mpsc::may_put(old(self).tx.chan(), data),
    ensures
        final(self).tx.chan() == old(self).tx.chan(),
        final(self).tx.uses() == old(self).tx.uses(),
        r is Ok ==> mpsc::put(old(self).tx.chan(), data), // [C14]
//@ end
//@ endimpl
//@ impl AddrEventManager
//@ fn send_to
//@ ret r
    requires
        old(self).tx.uses() < 0,
        mpsc::may_put(old(self).tx.chan(), (data, addr)),
    ensures
        final(self).tx.chan() == old(self).tx.chan(),
        final(self).tx.uses() == old(self).tx.uses(),
        r is Ok ==> mpsc::put(old(self).tx.chan(), (data, addr)), // [C14]
//@ end
//@ endimpl
//@ src src/core/client/file.rs
//@ item RemoteFile
//@ src src/core/client/proc.rs
//@ item RemoteProc
//@ src src/core/client/state.rs
//@ item ClientState
//@ src src/core/client/error.rs
//@ item SendError
//@ item AskError
//@ item FileAskError
//@ item ExecAskError
impl vstd::std_specs::convert::FromSpecImpl<SendError> for AskError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: SendError) -> Self {
        match e { SendError::EncodingFailed => AskError::EncodingFailed, SendError::SendFailed => AskError::SendFailed }
    }
}
impl vstd::std_specs::convert::FromSpecImpl<AskError> for FileAskError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: AskError) -> Self { FileAskError::GeneralAskFailed(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<AskError> for ExecAskError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: AskError) -> Self { ExecAskError::GeneralAskFailed(e) }
}
//@ impl From<SendError> for AskError
//@ fn from
//@ ret r
    ensures r == (match error { SendError::EncodingFailed => AskError::EncodingFailed, SendError::SendFailed => AskError::SendFailed }), // [C15]
//@ end
//@ endimpl
//@ impl From<AskError> for FileAskError
//@ fn from
//@ ret r
    ensures r == FileAskError::GeneralAskFailed(error), // [C15]
//@ end
//@ endimpl
//@ impl From<AskError> for ExecAskError
//@ fn from
//@ ret r
    ensures r == ExecAskError::GeneralAskFailed(error), // [C15]
//@ end
//@ endimpl
impl core::fmt::Debug for AskError {
    #[verifier::external_body]
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() }
}
//@ src src/core/msg/content/reply/generic_error.rs
//@ impl ToString for GenericErrorArgs as impl reply::GenericErrorArgs
//@ fn to_string
//@ ret r
    ensures r == self.msg, // [C15]
//@ end
//@ endimpl
/// a message came in from the server
pub open spec fn came_in(m: Msg) -> bool { exists|r: StepResult| #[trigger] stepped(r) && brings(r, m) }
/// the step put a message together, and it is `m`
pub open spec fn brings(r: StepResult, m: Msg) -> bool {
    match r {
        Ok((Some(data), addr)) => serde_cbor::decoded(data@) == Some(m),
        _ => false,
    }
}
/// room for one packet with some content
pub spec const ROOM: usize = 500;
/// a message came in whose parent is the message `id` and which brings `reply`
pub open spec fn answers(id: u32, reply: Reply) -> bool {
    exists|m: Msg| #[trigger] came_in(m) && m.parent_header is Some && m.parent_header->Some_0.id == id && m.content == Content::Reply(reply)
}
/// every callback takes any reply to its own message
pub open spec fn ready(m: CallbackManager<Reply>) -> bool {
    forall|id: u32, reply: Reply| m.callbacks@.contains_key(id) && #[trigger] answers(id, reply) ==> #[trigger] cb_accepts(m.callbacks@[id], reply)
}
/// what handing on a message leaves: the callback of the message it answers has been
/// run with its reply and is gone; nothing else happens
pub open spec fn handed_to_callback(m0: CallbackManager<Reply>, m1: CallbackManager<Reply>, msg: Msg) -> bool {
    match (msg.parent_header, msg.content) {
        (Some(h), Content::Reply(reply)) => {
            &&& m1.callbacks@ == m0.callbacks@.remove(h.id)
            &&& m0.callbacks@.contains_key(h.id) ==> cb_ran(m0.callbacks@[h.id], reply)
        }
        _ => m1 == m0,
    }
}
/// between two steps of one task the others run: they keep what `ready` says, no more
#[verifier::external_body]
pub fn others_run(state: &mut ClientState)
    requires ready(old(state).callback_manager)
    ensures ready(final(state).callback_manager)
{ }
//@ src src/core/client/inbound.rs
//@ subst Receiver<(Msg, SocketAddr, T)> => mpsc::Receiver<(Msg, SocketAddr, T)>
//@ item InboundMsgReader #[verifier::reject_recursive_types(T)]
pub open spec fn got_msg<T>(chan: int, m: Msg) -> bool {
    exists|x: (Msg, SocketAddr, T)| #[trigger] mpsc::got(chan, x) && x.0 == m
}
//@ impl InboundMsgReader<T>
//@ fn next
//@ ret r
    ensures
        final(self).rx.chan() == old(self).rx.chan(),
        r is Some ==> got_msg::<T>(old(self).rx.chan(), r->Some_0), // [C14]
        r is None ==> mpsc::closed(old(self).rx.chan()),
//@ end
//@ endimpl
//@ unsubst
//@ presubst Arc::new(Mutex::new(state::ClientState::default())) => &mut ClientState::default()
//@ presubst state, event_manager: Either => state: same_state(state), event_manager: Either
//@ subst state::ClientState => ClientState
//@ subst inbound::InboundMsgReader => InboundMsgReader
//@ src src/core/client/mod.rs
//@ fn event_loop
    requires
        ready(old(state).callback_manager),
        forall|m: Msg| got_msg::<T>(r.rx.chan(), m) ==> #[trigger] came_in(m),
    ensures
        mpsc::closed(r.rx.chan()), // [C14]
        ready(final(state).callback_manager),
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ start
    let ghost chan = r.rx.chan();
//@ loop 0
    invariant
        chan == r.rx.chan(),
        ready(state.callback_manager),
        forall|m: Msg| got_msg::<T>(r.rx.chan(), m) ==> #[trigger] came_in(m),
    ensures mpsc::closed(chan),
//@ loop 0 start
    proof {
        assert(came_in(msg));
        if msg.parent_header is Some && msg.content is Reply {
            assert(answers(msg.parent_header->Some_0.id, msg.content->Reply_0));
        }
    }
    others_run(state);
    let ghost before = state.callback_manager;
//@ loop 0 end
    proof { assert(handed_to_callback(before, state.callback_manager, msg)); }
//@ end
//@ endsrc
//@ unsubst
