// generated by tools/genask.py
use reply::*;
use request::*;
#[verifier::external_body]
pub fn string_from(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
//@ subst String::from => string_from
pub open spec fn only_Heartbeat(r: Result<Reply, AskError>) -> Option<()> { match r { Ok(Reply::Heartbeat) => Some(()), _ => None } }
pub open spec fn only_Version(r: Result<Reply, AskError>) -> Option<reply::VersionArgs> { match r { Ok(Reply::Version(a)) => Some(a), _ => None } }
pub open spec fn only_Capabilities(r: Result<Reply, AskError>) -> Option<reply::CapabilitiesArgs> { match r { Ok(Reply::Capabilities(a)) => Some(a), _ => None } }
pub open spec fn only_DirCreated(r: Result<Reply, AskError>) -> Option<reply::DirCreatedArgs> { match r { Ok(Reply::DirCreated(a)) => Some(a), _ => None } }
pub open spec fn only_DirRenamed(r: Result<Reply, AskError>) -> Option<reply::DirRenamedArgs> { match r { Ok(Reply::DirRenamed(a)) => Some(a), _ => None } }
pub open spec fn only_DirRemoved(r: Result<Reply, AskError>) -> Option<reply::DirRemovedArgs> { match r { Ok(Reply::DirRemoved(a)) => Some(a), _ => None } }
pub open spec fn only_DirContentsList(r: Result<Reply, AskError>) -> Option<reply::DirContentsListArgs> { match r { Ok(Reply::DirContentsList(a)) => Some(a), _ => None } }
pub open spec fn only_FileOpened(r: Result<Reply, AskError>) -> Option<reply::FileOpenedArgs> { match r { Ok(Reply::FileOpened(a)) => Some(a), _ => None } }
pub open spec fn only_FileClosed(r: Result<Reply, AskError>) -> Option<reply::FileClosedArgs> { match r { Ok(Reply::FileClosed(a)) => Some(a), _ => None } }
pub open spec fn only_FileRenamed(r: Result<Reply, AskError>) -> Option<reply::FileRenamedArgs> { match r { Ok(Reply::FileRenamed(a)) => Some(a), _ => None } }
pub open spec fn only_UnopenedFileRenamed(r: Result<Reply, AskError>) -> Option<reply::UnopenedFileRenamedArgs> { match r { Ok(Reply::UnopenedFileRenamed(a)) => Some(a), _ => None } }
pub open spec fn only_FileRemoved(r: Result<Reply, AskError>) -> Option<reply::FileRemovedArgs> { match r { Ok(Reply::FileRemoved(a)) => Some(a), _ => None } }
pub open spec fn only_UnopenedFileRemoved(r: Result<Reply, AskError>) -> Option<reply::UnopenedFileRemovedArgs> { match r { Ok(Reply::UnopenedFileRemoved(a)) => Some(a), _ => None } }
pub open spec fn only_FileContents(r: Result<Reply, AskError>) -> Option<reply::FileContentsArgs> { match r { Ok(Reply::FileContents(a)) => Some(a), _ => None } }
pub open spec fn only_FileWritten(r: Result<Reply, AskError>) -> Option<reply::FileWrittenArgs> { match r { Ok(Reply::FileWritten(a)) => Some(a), _ => None } }
pub open spec fn only_ProcStarted(r: Result<Reply, AskError>) -> Option<reply::ProcStartedArgs> { match r { Ok(Reply::ProcStarted(a)) => Some(a), _ => None } }
pub open spec fn only_ProcStdinWritten(r: Result<Reply, AskError>) -> Option<reply::ProcStdinWrittenArgs> { match r { Ok(Reply::ProcStdinWritten(a)) => Some(a), _ => None } }
pub open spec fn only_ProcStdoutContents(r: Result<Reply, AskError>) -> Option<reply::ProcStdoutContentsArgs> { match r { Ok(Reply::ProcStdoutContents(a)) => Some(a), _ => None } }
pub open spec fn only_ProcStderrContents(r: Result<Reply, AskError>) -> Option<reply::ProcStderrContentsArgs> { match r { Ok(Reply::ProcStderrContents(a)) => Some(a), _ => None } }
pub open spec fn only_ProcStatus(r: Result<Reply, AskError>) -> Option<reply::ProcStatusArgs> { match r { Ok(Reply::ProcStatus(a)) => Some(a), _ => None } }
pub open spec fn only_ProcKilled(r: Result<Reply, AskError>) -> Option<reply::ProcKilledArgs> { match r { Ok(Reply::ProcKilled(a)) => Some(a), _ => None } }
pub open spec fn only_InternalDebug(r: Result<Reply, AskError>) -> Option<reply::InternalDebugArgs> { match r { Ok(Reply::InternalDebug(a)) => Some(a), _ => None } }
//@ src src/core/client/connected.rs
//@ impl ConnectedClient
//@ fn ask_heartbeat
//@ ret r
    requires wf(*old(self)),
    ensures
        still(*old(self), *final(self)),
        exists|r0: Result<Reply, AskError>| #[trigger] asked(*old(self), Request::Heartbeat, r0) && ask_out(r0, only_Heartbeat(r0), r), // [C15]
        others_kept(old(self).state.callback_manager, final(self).state.callback_manager), // [C14]
//@ end
//@ fn ask_version
//@ ret r
    requires wf(*old(self)),
    ensures
        still(*old(self), *final(self)),
        exists|r0: Result<Reply, AskError>| #[trigger] asked(*old(self), Request::Version, r0) && ask_out(r0, only_Version(r0), r), // [C15]
        others_kept(old(self).state.callback_manager, final(self).state.callback_manager), // [C14]
//@ end
//@ fn ask_capabilities
//@ ret r
    requires wf(*old(self)),
    ensures
        still(*old(self), *final(self)),
        exists|r0: Result<Reply, AskError>| #[trigger] asked(*old(self), Request::Capabilities, r0) && ask_out(r0, only_Capabilities(r0), r), // [C15]
        others_kept(old(self).state.callback_manager, final(self).state.callback_manager), // [C14]
//@ end
//@ fn ask_create_dir
//@ ret r
    requires wf(*old(self)),
    ensures
        still(*old(self), *final(self)),
        exists|r0: Result<Reply, AskError>| #[trigger] asked(*old(self), Request::CreateDir(request::CreateDirArgs { path, include_components }), r0) && file_out(r0, only_DirCreated(r0), r), // [C15]
        others_kept(old(self).state.callback_manager, final(self).state.callback_manager), // [C14]
//@ end
//@ fn ask_rename_dir
//@ ret r
    requires wf(*old(self)),
    ensures
        still(*old(self), *final(self)),
        exists|r0: Result<Reply, AskError>| #[trigger] asked(*old(self), Request::RenameDir(request::RenameDirArgs { from, to }), r0) && file_out(r0, only_DirRenamed(r0), r), // [C15]
        others_kept(old(self).state.callback_manager, final(self).state.callback_manager), // [C14]
//@ end
//@ fn ask_remove_dir
//@ ret r
    requires wf(*old(self)),
    ensures
        still(*old(self), *final(self)),
        exists|r0: Result<Reply, AskError>| #[trigger] asked(*old(self), Request::RemoveDir(request::RemoveDirArgs { path, non_empty }), r0) && file_out(r0, only_DirRemoved(r0), r), // [C15]
        others_kept(old(self).state.callback_manager, final(self).state.callback_manager), // [C14]
//@ end
//@ fn ask_list_dir_contents
//@ ret r
    requires wf(*old(self)),
    ensures
        still(*old(self), *final(self)),
        exists|r0: Result<Reply, AskError>| #[trigger] asked(*old(self), Request::ListDirContents(request::ListDirContentsArgs { path }), r0) && file_out(r0, only_DirContentsList(r0), r), // [C15]
        others_kept(old(self).state.callback_manager, final(self).state.callback_manager), // [C14]
//@ end
//@ fn ask_list_root_dir_contents
//@ ret r
    requires wf(*old(self)),
    ensures
        still(*old(self), *final(self)),
        exists|PATH: String, r0: Result<Reply, AskError>| #[trigger] asked(*old(self), Request::ListDirContents(request::ListDirContentsArgs { path: PATH }), r0) && PATH@ == "."@ && file_out(r0, only_DirContentsList(r0), r), // [C15]
        others_kept(old(self).state.callback_manager, final(self).state.callback_manager), // [C14]
//@ end
//@ fn ask_open_file
//@ ret r
    requires wf(*old(self)),
    ensures
        still(*old(self), *final(self)),
        exists|r0: Result<Reply, AskError>| #[trigger] asked(*old(self), Request::OpenFile(request::OpenFileArgs { path, create_if_missing: true, write_access: true, read_access: true }), r0) && file_out(r0, only_FileOpened(r0), r), // [C15]
        others_kept(old(self).state.callback_manager, final(self).state.callback_manager), // [C14]
//@ end
//@ fn ask_open_file_with_options
//@ ret r
    requires wf(*old(self)),
    ensures
        still(*old(self), *final(self)),
        exists|r0: Result<Reply, AskError>| #[trigger] asked(*old(self), Request::OpenFile(request::OpenFileArgs { path, create_if_missing: create, write_access: write, read_access: read }), r0) && file_out(r0, only_FileOpened(r0), r), // [C15]
        others_kept(old(self).state.callback_manager, final(self).state.callback_manager), // [C14]
//@ end
//@ fn ask_close_file
//@ ret r
    requires wf(*old(self)),
    ensures
        still(*old(self), *final(self)),
        exists|r0: Result<Reply, AskError>| #[trigger] asked(*old(self), Request::CloseFile(request::CloseFileArgs { id: file.id, sig: file.sig }), r0) && file_out(r0, only_FileClosed(r0), r), // [C15]
        others_kept(old(self).state.callback_manager, final(self).state.callback_manager), // [C14]
//@ end
//@ fn ask_rename_file
//@ ret r
    requires wf(*old(self)),
    ensures
        still(*old(self), *final(self)),
        exists|r0: Result<Reply, AskError>| #[trigger] asked(*old(self), Request::RenameFile(request::RenameFileArgs { id: old(file).id, sig: old(file).sig, to }), r0) && file_out(r0, only_FileRenamed(r0), r), // [C15]
        others_kept(old(self).state.callback_manager, final(self).state.callback_manager), // [C14]
        final(file).id == old(file).id && final(file).path == old(file).path, // [C15]
        final(file).sig == (match r { Ok(a) => a.sig, Err(_) => old(file).sig }), // [C15]
//@ end
//@ fn ask_rename_unopened_file
//@ ret r
    requires wf(*old(self)),
    ensures
        still(*old(self), *final(self)),
        exists|r0: Result<Reply, AskError>| #[trigger] asked(*old(self), Request::RenameUnopenedFile(request::RenameUnopenedFileArgs { from, to }), r0) && file_out(r0, only_UnopenedFileRenamed(r0), r), // [C15]
        others_kept(old(self).state.callback_manager, final(self).state.callback_manager), // [C14]
//@ end
//@ fn ask_remove_file
//@ ret r
    requires wf(*old(self)),
    ensures
        still(*old(self), *final(self)),
        exists|r0: Result<Reply, AskError>| #[trigger] asked(*old(self), Request::RemoveFile(request::RemoveFileArgs { id: old(file).id, sig: old(file).sig }), r0) && file_out(r0, only_FileRemoved(r0), r), // [C15]
        others_kept(old(self).state.callback_manager, final(self).state.callback_manager), // [C14]
        final(file).id == old(file).id && final(file).path == old(file).path, // [C15]
        final(file).sig == (match r { Ok(a) => a.sig, Err(_) => old(file).sig }), // [C15]
//@ end
//@ fn ask_remove_unopened_file
//@ ret r
    requires wf(*old(self)),
    ensures
        still(*old(self), *final(self)),
        exists|r0: Result<Reply, AskError>| #[trigger] asked(*old(self), Request::RemoveUnopenedFile(request::RemoveUnopenedFileArgs { path }), r0) && file_out(r0, only_UnopenedFileRemoved(r0), r), // [C15]
        others_kept(old(self).state.callback_manager, final(self).state.callback_manager), // [C14]
//@ end
//@ fn ask_read_file
//@ ret r
    requires wf(*old(self)),
    ensures
        still(*old(self), *final(self)),
        exists|r0: Result<Reply, AskError>| #[trigger] asked(*old(self), Request::ReadFile(request::ReadFileArgs { id: file.id, sig: file.sig }), r0) && file_out(r0, only_FileContents(r0), r), // [C15]
        others_kept(old(self).state.callback_manager, final(self).state.callback_manager), // [C14]
//@ end
//@ fn ask_write_file
//@ ret r
    requires wf(*old(self)),
    ensures
        still(*old(self), *final(self)),
        exists|BYTES: Vec<u8>, r0: Result<Reply, AskError>| #[trigger] asked(*old(self), Request::WriteFile(request::WriteFileArgs { id: old(file).id, sig: old(file).sig, contents: BYTES }), r0) && BYTES@ == contents@ && file_out(r0, only_FileWritten(r0), r), // [C15]
        others_kept(old(self).state.callback_manager, final(self).state.callback_manager), // [C14]
        final(file).id == old(file).id && final(file).path == old(file).path, // [C15]
        final(file).sig == (match r { Ok(a) => a.sig, Err(_) => old(file).sig }), // [C15]
//@ start
    broadcast use lemma_bytes_cloned;
//@ end
//@ fn ask_exec_proc
//@ ret r
    requires wf(*old(self)),
    ensures
        still(*old(self), *final(self)),
        exists|r0: Result<Reply, AskError>| #[trigger] asked(*old(self), Request::ExecProc(request::ExecProcArgs { command, args, stdin: true, stdout: true, stderr: true, current_dir: None }), r0) && exec_out(r0, only_ProcStarted(r0), r), // [C15]
        others_kept(old(self).state.callback_manager, final(self).state.callback_manager), // [C14]
//@ end
//@ fn ask_exec_proc_with_current_dir
//@ ret r
    requires wf(*old(self)),
    ensures
        still(*old(self), *final(self)),
        exists|r0: Result<Reply, AskError>| #[trigger] asked(*old(self), Request::ExecProc(request::ExecProcArgs { command, args, stdin: true, stdout: true, stderr: true, current_dir: Some(current_dir) }), r0) && exec_out(r0, only_ProcStarted(r0), r), // [C15]
        others_kept(old(self).state.callback_manager, final(self).state.callback_manager), // [C14]
//@ end
//@ fn ask_exec_proc_with_options
//@ ret r
    requires wf(*old(self)),
    ensures
        still(*old(self), *final(self)),
        exists|r0: Result<Reply, AskError>| #[trigger] asked(*old(self), Request::ExecProc(request::ExecProcArgs { command, args, stdin, stdout, stderr, current_dir }), r0) && exec_out(r0, only_ProcStarted(r0), r), // [C15]
        others_kept(old(self).state.callback_manager, final(self).state.callback_manager), // [C14]
//@ end
//@ fn ask_write_proc_stdin
//@ ret r
    requires wf(*old(self)),
    ensures
        still(*old(self), *final(self)),
        exists|BYTES: Vec<u8>, r0: Result<Reply, AskError>| #[trigger] asked(*old(self), Request::WriteProcStdin(request::WriteProcStdinArgs { id: proc.id, input: BYTES }), r0) && BYTES@ == input@ && exec_out(r0, only_ProcStdinWritten(r0), r), // [C15]
        others_kept(old(self).state.callback_manager, final(self).state.callback_manager), // [C14]
//@ start
    broadcast use lemma_bytes_cloned;
//@ end
//@ fn ask_read_proc_stdout
//@ ret r
    requires wf(*old(self)),
    ensures
        still(*old(self), *final(self)),
        exists|r0: Result<Reply, AskError>| #[trigger] asked(*old(self), Request::ReadProcStdout(request::ReadProcStdoutArgs { id: proc.id }), r0) && exec_out(r0, only_ProcStdoutContents(r0), r), // [C15]
        others_kept(old(self).state.callback_manager, final(self).state.callback_manager), // [C14]
//@ end
//@ fn ask_read_proc_stderr
//@ ret r
    requires wf(*old(self)),
    ensures
        still(*old(self), *final(self)),
        exists|r0: Result<Reply, AskError>| #[trigger] asked(*old(self), Request::ReadProcStderr(request::ReadProcStderrArgs { id: proc.id }), r0) && exec_out(r0, only_ProcStderrContents(r0), r), // [C15]
        others_kept(old(self).state.callback_manager, final(self).state.callback_manager), // [C14]
//@ end
//@ fn ask_read_proc_status
//@ ret r
    requires wf(*old(self)),
    ensures
        still(*old(self), *final(self)),
        exists|r0: Result<Reply, AskError>| #[trigger] asked(*old(self), Request::ReadProcStatus(request::ReadProcStatusArgs { id: proc.id }), r0) && exec_out(r0, only_ProcStatus(r0), r), // [C15]
        others_kept(old(self).state.callback_manager, final(self).state.callback_manager), // [C14]
//@ end
//@ fn ask_proc_kill
//@ ret r
    requires wf(*old(self)),
    ensures
        still(*old(self), *final(self)),
        exists|r0: Result<Reply, AskError>| #[trigger] asked(*old(self), Request::KillProc(request::KillProcArgs { id: proc.id }), r0) && exec_out(r0, only_ProcKilled(r0), r), // [C15]
        others_kept(old(self).state.callback_manager, final(self).state.callback_manager), // [C14]
//@ end
//@ fn ask_internal_debug
//@ ret r
    requires wf(*old(self)),
    ensures
        still(*old(self), *final(self)),
        exists|BYTES: Vec<u8>, r0: Result<Reply, AskError>| #[trigger] asked(*old(self), Request::InternalDebug(request::InternalDebugArgs { input: BYTES }), r0) && BYTES@.len() == 0 && ask_out(r0, only_InternalDebug(r0), r), // [C15]
        others_kept(old(self).state.callback_manager, final(self).state.callback_manager), // [C14]
//@ end
//@ endimpl
//@ unsubst
