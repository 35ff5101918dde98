// ---- what the client keeps of a reply, and the errors of one kind as those of another ----
//@ keep
impl vstd::std_specs::convert::FromSpecImpl<io::Error> for FileAskError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: io::Error) -> Self { FileAskError::IoError(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<io::Error> for ExecAskError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: io::Error) -> Self { ExecAskError::IoError(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<AskError> for Option<SendError> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: AskError) -> Self {
        match e { AskError::EncodingFailed => Some(SendError::EncodingFailed), AskError::SendFailed => Some(SendError::SendFailed), _ => None }
    }
}
//@ src src/core/client/error.rs
//@ impl From<io::Error> for FileAskError
//@ fn from
//@ ret r
    ensures r == FileAskError::IoError(error), // [C15]
//@ end
//@ endimpl
//@ impl From<io::Error> for ExecAskError
//@ fn from
//@ ret r
    ensures r == ExecAskError::IoError(error), // [C15]
//@ end
//@ endimpl
//@ impl From<AskError> for Option<SendError>
//@ fn from
//@ ret r
    ensures r == (match error { AskError::EncodingFailed => Some(SendError::EncodingFailed), AskError::SendFailed => Some(SendError::SendFailed), _ => None }), // [C15]
//@ end
//@ endimpl
impl vstd::std_specs::convert::FromSpecImpl<reply::FileOpenedArgs> for RemoteFile {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: reply::FileOpenedArgs) -> Self { RemoteFile { id: a.id, sig: a.sig, path: a.path } }
}
//@ subst FileOpenedArgs => reply::FileOpenedArgs
//@ src src/core/client/file.rs
//@ impl From<FileOpenedArgs> for RemoteFile
//@ fn from
//@ ret r
    ensures r.id == args.id && r.sig == args.sig && r.path == args.path, // [C15]
//@ end
//@ endimpl
//@ impl RemoteFile
//@ fn id
//@ ret r
    ensures r == self.id, // [C15]
//@ end
//@ endimpl
//@ unsubst
impl vstd::std_specs::convert::FromSpecImpl<reply::ProcStartedArgs> for RemoteProc {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: reply::ProcStartedArgs) -> Self { RemoteProc { id: a.id } }
}
impl vstd::std_specs::convert::FromSpecImpl<reply::ProcStatusArgs> for RemoteProcStatus {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: reply::ProcStatusArgs) -> Self { RemoteProcStatus { id: a.id, is_alive: a.is_alive, exit_code: a.exit_code } }
}
//@ subst ProcStartedArgs => reply::ProcStartedArgs
//@ subst ProcStatusArgs => reply::ProcStatusArgs
//@ src src/core/client/proc.rs
//@ item RemoteProcStatus
//@ impl From<ProcStatusArgs> for RemoteProcStatus
//@ fn from
//@ ret r
    ensures r.id == status.id && r.is_alive == status.is_alive && r.exit_code == status.exit_code, // [C15]
//@ end
//@ endimpl
//@ impl From<ProcStartedArgs> for RemoteProc
//@ fn from
//@ ret r
    ensures r.id == args.id, // [C15]
//@ end
//@ endimpl
//@ impl RemoteProc
//@ fn shallow
//@ ret r
    ensures r.id == id, // [C15]
//@ end
//@ fn id
//@ ret r
    ensures r == self.id, // [C15]
//@ end
//@ endimpl
//@ unsubst
//@ endsrc
