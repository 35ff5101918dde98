#!/usr/bin/env python3
"""writes the contracts of the typed client calls (units/asks.inc)"""
A="reply::"
calls=[
 # name, kind, request expression, reply variant, args type, file-sig?
 ("ask_heartbeat","ask","Request::Heartbeat","Heartbeat",None,None),
 ("ask_version","ask","Request::Version","Version","VersionArgs",None),
 ("ask_capabilities","ask","Request::Capabilities","Capabilities","CapabilitiesArgs",None),
 ("ask_create_dir","file","Request::CreateDir(request::CreateDirArgs { path, include_components })","DirCreated","DirCreatedArgs",None),
 ("ask_rename_dir","file","Request::RenameDir(request::RenameDirArgs { from, to })","DirRenamed","DirRenamedArgs",None),
 ("ask_remove_dir","file","Request::RemoveDir(request::RemoveDirArgs { path, non_empty })","DirRemoved","DirRemovedArgs",None),
 ("ask_list_dir_contents","file","Request::ListDirContents(request::ListDirContentsArgs { path })","DirContentsList","DirContentsListArgs",None),
 ("ask_list_root_dir_contents","file","Request::ListDirContents(request::ListDirContentsArgs { path: PATH })","DirContentsList","DirContentsListArgs",("PATH: String",'PATH@ == "."@')),
 ("ask_open_file","file","Request::OpenFile(request::OpenFileArgs { path, create_if_missing: true, write_access: true, read_access: true })","FileOpened","FileOpenedArgs",None),
 ("ask_open_file_with_options","file","Request::OpenFile(request::OpenFileArgs { path, create_if_missing: create, write_access: write, read_access: read })","FileOpened","FileOpenedArgs",None),
 ("ask_close_file","file","Request::CloseFile(request::CloseFileArgs { id: file.id, sig: file.sig })","FileClosed","FileClosedArgs",None),
 ("ask_rename_file","sigfile","Request::RenameFile(request::RenameFileArgs { id: old(file).id, sig: old(file).sig, to })","FileRenamed","FileRenamedArgs",None),
 ("ask_rename_unopened_file","file","Request::RenameUnopenedFile(request::RenameUnopenedFileArgs { from, to })","UnopenedFileRenamed","UnopenedFileRenamedArgs",None),
 ("ask_remove_file","sigfile","Request::RemoveFile(request::RemoveFileArgs { id: old(file).id, sig: old(file).sig })","FileRemoved","FileRemovedArgs",None),
 ("ask_remove_unopened_file","file","Request::RemoveUnopenedFile(request::RemoveUnopenedFileArgs { path })","UnopenedFileRemoved","UnopenedFileRemovedArgs",None),
 ("ask_read_file","file","Request::ReadFile(request::ReadFileArgs { id: file.id, sig: file.sig })","FileContents","FileContentsArgs",None),
 ("ask_write_file","sigfile","Request::WriteFile(request::WriteFileArgs { id: old(file).id, sig: old(file).sig, contents: BYTES })","FileWritten","FileWrittenArgs",("BYTES: Vec<u8>","BYTES@ == contents@")),
 ("ask_exec_proc","exec","Request::ExecProc(request::ExecProcArgs { command, args, stdin: true, stdout: true, stderr: true, current_dir: None })","ProcStarted","ProcStartedArgs",None),
 ("ask_exec_proc_with_current_dir","exec","Request::ExecProc(request::ExecProcArgs { command, args, stdin: true, stdout: true, stderr: true, current_dir: Some(current_dir) })","ProcStarted","ProcStartedArgs",None),
 ("ask_exec_proc_with_options","exec","Request::ExecProc(request::ExecProcArgs { command, args, stdin, stdout, stderr, current_dir })","ProcStarted","ProcStartedArgs",None),
 ("ask_write_proc_stdin","exec","Request::WriteProcStdin(request::WriteProcStdinArgs { id: proc.id, input: BYTES })","ProcStdinWritten","ProcStdinWrittenArgs",("BYTES: Vec<u8>","BYTES@ == input@")),
 ("ask_read_proc_stdout","exec","Request::ReadProcStdout(request::ReadProcStdoutArgs { id: proc.id })","ProcStdoutContents","ProcStdoutContentsArgs",None),
 ("ask_read_proc_stderr","exec","Request::ReadProcStderr(request::ReadProcStderrArgs { id: proc.id })","ProcStderrContents","ProcStderrContentsArgs",None),
 ("ask_read_proc_status","exec","Request::ReadProcStatus(request::ReadProcStatusArgs { id: proc.id })","ProcStatus","ProcStatusArgs",None),
 ("ask_proc_kill","exec","Request::KillProc(request::KillProcArgs { id: proc.id })","ProcKilled","ProcKilledArgs",None),
 ("ask_internal_debug","ask","Request::InternalDebug(request::InternalDebugArgs { input: BYTES })","InternalDebug","InternalDebugArgs",("BYTES: Vec<u8>","BYTES@.len() == 0")),
]
out=["// generated by tools/genask.py","use reply::*;","use request::*;",
 "#[verifier::external_body]",
 "pub fn string_from(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }",
 "//@ subst String::from => string_from"]
seen=set()
for name,kind,req,var,ty,ex in calls:
    if var in seen: continue
    seen.add(var)
    T="()" if ty is None else A+ty
    pat=f"Ok(Reply::{var}) => Some(())" if ty is None else f"Ok(Reply::{var}(a)) => Some(a)"
    out.append(f"pub open spec fn only_{var}(r: Result<Reply, AskError>) -> Option<{T}> {{ match r {{ {pat}, _ => None }} }}")
out.append("//@ src src/core/client/connected.rs")
out.append("//@ impl ConnectedClient")
for name,kind,req,var,ty,ex in calls:
    k={"sigfile":"file"}.get(kind,kind)
    q="r0: Result<Reply, AskError>"
    cond=""
    if ex:
        q=ex[0]+", "+q; cond=" && "+ex[1]
    out += [f"//@ fn {name}","//@ ret r","    requires wf(*old(self)),","    ensures","        still(*old(self), *final(self)),",
      f"        exists|{q}| #[trigger] asked(*old(self), {req}, r0){cond} && {k}_out(r0, only_{var}(r0), r), // [C15]",
      "        others_kept(old(self).state.callback_manager, final(self).state.callback_manager), // [C14]"]
    if kind=="sigfile":
        out += ["        final(file).id == old(file).id && final(file).path == old(file).path, // [C15]",
                "        final(file).sig == (match r { Ok(a) => a.sig, Err(_) => old(file).sig }), // [C15]"]
    if ex and "Vec" in ex[0] and "len()" not in ex[1]:
        out += ["//@ start","    broadcast use lemma_bytes_cloned;"]
    out.append("//@ end")
out += ["//@ endimpl","//@ unsubst"]
open("/verif/units/asks.inc","w").write("\n".join(out)+"\n")
