// ---- requests about files and directories -----------------------------------------
#[verifier::external_body]
pub struct OsString { _p: () }
impl PathBuf {
    #[verifier::external_body]
    pub fn into_os_string(self) -> (r: OsString) ensures r.names() == self.comps() { unimplemented!() }
}
impl OsString {
    pub uninterp spec fn names(&self) -> Comps;
    #[verifier::external_body]
    pub fn into_string(self) -> (r: Result<String, OsString>)
        ensures r is Ok ==> named_path(r->Ok_0@) == self.names()
    { unimplemented!() }
}
#[verifier::external_body]
pub fn drop<T>(t: T) { unimplemented!() }
pub open spec fn named(s: String) -> Comps { named_path(s@) }
pub open spec fn only_files(s: ServerState, t: ServerState) -> bool { t.config_same(&s) && t.procs_same(&s) }
pub open spec fn nothing_changed(s: ServerState, t: ServerState) -> bool { only_files(s, t) && t.files_same(&s) }
pub open spec fn sent_entry(e: LocalDirEntry, d: reply::DirEntry) -> bool {
    named(d.path) == e.path.comps() && d.is_file == e.is_file && d.is_dir == e.is_dir && d.is_symlink == e.is_symlink
}
/// the listing of the directory at `p`
pub open spec fn listing(p: Comps, ds: Seq<reply::DirEntry>) -> bool {
    exists|es: Seq<LocalDirEntry>, c: Comps| #[trigger] cleaned(p, c) && #[trigger] lists(c, es) && sent_entries(es, ds)
}
pub open spec fn sent_entries(es: Seq<LocalDirEntry>, ds: Seq<reply::DirEntry>) -> bool {
    es.len() == ds.len() && forall|i: int| 0 <= i < es.len() ==> sent_entry(es[i], #[trigger] ds[i])
}
/// `v.into_iter().map(DirEntry::try_from).collect()`
#[verifier::external_body]
pub fn converted(v: Vec<LocalDirEntry>) -> (r: io::Result<Vec<reply::DirEntry>>)
    ensures r is Ok ==> sent_entries(v@, r->Ok_0@)
{ unimplemented!() }
//@ keep
//@ subst format!("No file open with id {}", id) => fmt_opaque()
//@ subst format!("No process executed with id {}", id) => fmt_opaque()
//@ src src/core/msg/content/reply/io/mod.rs
//@ impl IoErrorArgs
//@ fn invalid_file_id
//@ ret r
    ensures r.error_kind == SerErrorKind::InvalidInput && r.os_code is None, // [C12]
//@ end
//@ fn invalid_proc_id
//@ ret r
    ensures r.error_kind == SerErrorKind::InvalidInput && r.os_code is None, // [C12]
//@ end
//@ endimpl
//@ endsrc
//@ unsubst
//@ subst state: Arc<ServerState> => state: &mut ServerState
//@ subst local_entries .into_iter() .map(DirEntry::try_from) .collect::<io::Result<Vec<DirEntry>>>() => converted(local_entries)
pub mod handler {
use super::*;
verus! {
pub use super::hproc as proc;
pub use super::hmisc::{heartbeat, version, capabilities, internal_debug};
pub mod fs {
use super::super::*;
use super::super::reply::*;
use super::super::request::*;
verus! {
//@ src src/core/server/action/handler/fs.rs
//@ item FileIoError
/// what comes of a request about the open file `id`; `sig` is the signature given
pub open spec fn on_file<T>(s: ServerState, t: ServerState, id: u32, sig: u32, r: Result<T, FileIoError>) -> bool {
    &&& only_files(s, t)
    &&& !s.files().contains_key(id) ==> r is Err && r->Err_0 is Io && t.files() == s.files()
        && r->Err_0->Io_0.spec_kind() == io::ErrorKind::InvalidInput
    &&& s.files().contains_key(id) && sig != s.files()[id].sig
        ==> r == Err::<T, FileIoError>(FileIoError::SigMismatch { id, sig: s.files()[id].sig }) && t.files().contains_key(id) && t.files()[id].same(&s.files()[id])
            && t.files() == s.files().insert(id, t.files()[id])
    &&& s.files().contains_key(id) && sig == s.files()[id].sig && r is Err ==> r->Err_0 is Io
    &&& r is Err ==> touched(s.file_ids@, t.file_ids@, id, s.file_ttl)
}
/// only that file may differ, and it is the same open file
pub open spec fn updated(s: ServerState, t: ServerState, id: u32) -> bool {
    &&& t.files().contains_key(id) && t.files() == s.files().insert(id, t.files()[id])
    &&& t.files()[id].meta_same(&s.files()[id])
}
pub open spec fn open_done(s: ServerState, t: ServerState, args: OpenFileArgs, r: io::Result<FileOpenedArgs>) -> bool {
    &&& only_files(s, t)
    &&& match r {
        Ok(a) => {
            &&& opening(s.files(), t.files(), named(args.path), args.create_if_missing, args.write_access, args.read_access, LocalFileHandle { id: a.id, sig: a.sig })
            &&& a.path == args.path && a.read == args.read_access && a.write == args.write_access
            &&& touched(s.file_ids@, t.file_ids@, a.id, s.file_ttl)
        },
        Err(_) => t.files() == s.files() && t.file_ids@ == s.file_ids@,
    }
}
pub open spec fn close_done(s: ServerState, t: ServerState, args: CloseFileArgs, r: io::Result<FileClosedArgs>) -> bool {
    let h = LocalFileHandle { id: args.id, sig: args.sig };
    &&& only_files(s, t)
    &&& is_current(s.files(), h) == (r is Ok)
    &&& match r {
        Ok(a) => a.id == args.id && t.files() =~= s.files().remove(args.id) && t.file_ids@ =~= s.file_ids@.remove(args.id),
        Err(_) => t.files() == s.files() && touched(s.file_ids@, t.file_ids@, args.id, s.file_ttl),
    }
}
pub open spec fn rename_done(s: ServerState, t: ServerState, args: RenameFileArgs, r: Result<FileRenamedArgs, FileIoError>) -> bool {
    &&& on_file(s, t, args.id, args.sig, r)
    &&& s.files().contains_key(args.id) ==> updated(s, t, args.id)
    &&& r is Err && s.files().contains_key(args.id) ==> t.files()[args.id] == s.files()[args.id]
    &&& match r {
        Ok(a) => {
            let f = t.files()[args.id];
            &&& a.id == args.id && a.sig == f.sig
            &&& f.file == s.files()[args.id].file
            &&& done(FsOp::Rename(s.files()[args.id].path.comps(), named(args.to)))
            &&& cleaned(named(args.to), f.path.comps())
            &&& touched(s.file_ids@, t.file_ids@, args.id, s.file_ttl)
        },
        Err(_) => true,
    }
}
pub open spec fn remove_done(s: ServerState, t: ServerState, args: RemoveFileArgs, r: Result<FileRemovedArgs, FileIoError>) -> bool {
    &&& on_file(s, t, args.id, args.sig, r)
    &&& match r {
        Ok(a) => {
            &&& a.id == args.id
            &&& done(FsOp::RemoveFile(s.files()[args.id].path.comps()))
            &&& t.files() =~= s.files().remove(args.id) && t.file_ids@ =~= s.file_ids@.remove(args.id)
        },
        Err(_) => t.files() =~= s.files(),
    }
}
pub open spec fn read_done(s: ServerState, t: ServerState, args: ReadFileArgs, r: Result<FileContentsArgs, FileIoError>) -> bool {
    &&& on_file(s, t, args.id, args.sig, r)
    &&& s.files().contains_key(args.id) ==> updated(s, t, args.id) && t.files()[args.id].same(&s.files()[args.id])
    &&& match r {
        Ok(a) => a.id == args.id && a.contents@ == s.files()[args.id].file@.contents && touched(s.file_ids@, t.file_ids@, args.id, s.file_ttl),
        Err(_) => true,
    }
}
pub open spec fn write_done(s: ServerState, t: ServerState, args: WriteFileArgs, r: Result<FileWrittenArgs, FileIoError>) -> bool {
    &&& on_file(s, t, args.id, args.sig, r)
    &&& s.files().contains_key(args.id) ==> updated(s, t, args.id) && t.files()[args.id].path == s.files()[args.id].path
        && (t.files()[args.id].same(&s.files()[args.id]) || drawn(t.files()[args.id].sig))
    &&& match r {
        Ok(a) => {
            let f = t.files()[args.id];
            &&& a.id == args.id && a.sig == f.sig
            &&& f.file@.contents == args.contents@ && !f.file@.in_flight
            &&& touched(s.file_ids@, t.file_ids@, args.id, s.file_ttl)
        },
        Err(_) => true,
    }
}
pub open spec fn create_dir_done(s: ServerState, t: ServerState, args: CreateDirArgs, r: io::Result<DirCreatedArgs>) -> bool {
    &&& nothing_changed(s, t)
    &&& exists|c: Comps, o: io::Result<()>| #[trigger] cleaned(named(args.path), c) && #[trigger] did(FsOp::CreateDir(c, args.include_components), o) && outcome(o, r)
    &&& r is Ok ==> r->Ok_0.path == args.path
}
/// the reply is the system's answer
pub open spec fn outcome<T>(o: io::Result<()>, r: io::Result<T>) -> bool {
    match o { Ok(_) => r is Ok, Err(e) => r is Err && r->Err_0 == e }
}
pub open spec fn rename_dir_done(s: ServerState, t: ServerState, args: RenameDirArgs, r: io::Result<DirRenamedArgs>) -> bool {
    &&& only_files(s, t) && t.file_ids == s.file_ids && t.files() == s.files()
    &&& exists|o: io::Result<()>| #[trigger] s.fs_manager.moved(named(args.from), named(args.to), true, o) && outcome(o, r)
    &&& r is Ok ==> r->Ok_0.from == args.from && r->Ok_0.to == args.to
}
pub open spec fn rename_unopened_done(s: ServerState, t: ServerState, args: RenameUnopenedFileArgs, r: io::Result<UnopenedFileRenamedArgs>) -> bool {
    &&& only_files(s, t) && t.file_ids == s.file_ids && t.files() == s.files()
    &&& exists|o: io::Result<()>| #[trigger] s.fs_manager.moved(named(args.from), named(args.to), false, o) && outcome(o, r)
    &&& r is Ok ==> r->Ok_0.from == args.from && r->Ok_0.to == args.to
}
pub open spec fn remove_dir_done(s: ServerState, t: ServerState, args: RemoveDirArgs, r: io::Result<DirRemovedArgs>) -> bool {
    &&& only_files(s, t) && t.file_ids == s.file_ids && t.files() == s.files()
    &&& exists|c: Comps, o: io::Result<()>| #[trigger] cleaned(named(args.path), c) && #[trigger] path_op(s.files(), c, FsOp::RemoveDir(c, args.non_empty), o, false) && outcome(o, r)
    &&& r is Ok ==> r->Ok_0.path == args.path
}
pub open spec fn remove_unopened_done(s: ServerState, t: ServerState, args: RemoveUnopenedFileArgs, r: io::Result<UnopenedFileRemovedArgs>) -> bool {
    &&& only_files(s, t) && t.file_ids == s.file_ids && t.files() == s.files()
    &&& exists|c: Comps, o: io::Result<()>| #[trigger] cleaned(named(args.path), c) && #[trigger] path_op(s.files(), c, FsOp::RemoveFile(c), o, false) && outcome(o, r)
    &&& r is Ok ==> r->Ok_0.path == args.path
}
pub open spec fn list_done(s: ServerState, t: ServerState, args: ListDirContentsArgs, r: io::Result<DirContentsListArgs>) -> bool {
    &&& nothing_changed(s, t)
    &&& r is Ok ==> r->Ok_0.path == args.path && listing(named(args.path), r->Ok_0.entries@)
}
impl vstd::std_specs::convert::FromSpecImpl<FileIoError> for ReplyError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: FileIoError) -> Self { arbitrary() }
}
impl vstd::std_specs::convert::FromSpecImpl<FileIoError> for Reply {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: FileIoError) -> Self { arbitrary() }
}
/// the reply that says so
pub open spec fn file_err_reply(e: FileIoError, x: ReplyError) -> bool {
    match e {
        FileIoError::Io(i) => x is Io && describes(x->Io_0, i),
        FileIoError::SigMismatch { id, sig } => x == ReplyError::FileSigChanged(FileSigChangedArgs { id, sig }),
    }
}
//@ impl From<FileIoError> for ReplyError
//@ fn from
//@ ret r
    ensures file_err_reply(fie, r), // [C08,C12,C17]
//@ end
//@ endimpl
//@ impl From<FileIoError> for Reply
//@ fn from
//@ ret r
    ensures r is Error && file_err_reply(x, r->Error_0), // [C08,C12,C17]
//@ end
//@ endimpl
//@ fn open_file
//@ ret r
    requires old(state).wf(),
    ensures
        final(state).wf(), // [C10,C12]
        open_done(*old(state), *final(state), *args, r), // [C10,C11,C12]
//@ end
//@ fn close_file
//@ ret r
    requires old(state).wf(),
    ensures
        final(state).wf(), // [C10,C12]
        close_done(*old(state), *final(state), *args, r), // [C10,C11,C12]
//@ end
//@ fn rename_unopened_file
//@ ret r
    requires
        old(state).wf(),
        old(state).fs_manager.may_move(named(args.from), named(args.to)),
    ensures
        final(state).wf(), // [C09,C12]
        rename_unopened_done(*old(state), *final(state), *args, r), // [C09,C12]
//@ end
//@ fn rename_file
//@ ret r
    requires
        old(state).wf(),
        old(state).files().contains_key(args.id) && args.sig == old(state).files()[args.id].sig
            ==> allowed(FsOp::Rename(old(state).files()[args.id].path.comps(), named(args.to))),
    ensures
        final(state).wf(), // [C08,C12]
        rename_done(*old(state), *final(state), *args, r), // [C08,C11,C12]
//@ end
//@ fn remove_unopened_file
//@ ret r
    requires
        old(state).wf(),
        forall|c: Comps| #[trigger] cleaned(named(args.path), c) && !busy(old(state).files(), c) ==> allowed(FsOp::RemoveFile(c)),
    ensures
        final(state).wf(), // [C09,C12]
        remove_unopened_done(*old(state), *final(state), *args, r), // [C09,C12]
//@ start
    proof { assert((&args.path).path_of() == named(args.path)); }
//@ end
//@ fn remove_file
//@ ret r
    requires
        old(state).wf(),
        old(state).files().contains_key(args.id) && args.sig == old(state).files()[args.id].sig
            ==> allowed(FsOp::RemoveFile(old(state).files()[args.id].path.comps())),
    ensures
        final(state).wf(), // [C08,C12]
        remove_done(*old(state), *final(state), *args, r), // [C08,C10,C11,C12]
//@ end
//@ fn read_file
//@ ret r
    requires old(state).wf(),
    ensures
        final(state).wf(), // [C08,C12]
        read_done(*old(state), *final(state), *args, r), // [C08,C11,C12]
//@ end
//@ fn write_file
//@ ret r
    requires old(state).wf(),
    ensures
        final(state).wf(), // [C08,C12]
        write_done(*old(state), *final(state), *args, r), // [C08,C11,C12]
//@ end
//@ fn create_dir
//@ ret r
    requires
        old(state).wf(),
        forall|c: Comps| #[trigger] cleaned(named(args.path), c) ==> allowed(FsOp::CreateDir(c, args.include_components)),
    ensures
        final(state).wf(), // [C12]
        create_dir_done(*old(state), *final(state), *args, r), // [C12]
//@ start
    proof { assert((&args.path).path_of() == named(args.path)); }
//@ end
//@ fn rename_dir
//@ ret r
    requires
        old(state).wf(),
        old(state).fs_manager.may_move(named(args.from), named(args.to)),
    ensures
        final(state).wf(), // [C09,C12]
        rename_dir_done(*old(state), *final(state), *args, r), // [C09,C12]
//@ end
//@ fn remove_dir
//@ ret r
    requires
        old(state).wf(),
        forall|c: Comps| #[trigger] cleaned(named(args.path), c) && !busy(old(state).files(), c) ==> allowed(FsOp::RemoveDir(c, args.non_empty)),
    ensures
        final(state).wf(), // [C09,C12]
        remove_dir_done(*old(state), *final(state), *args, r), // [C09,C12]
//@ start
    proof { assert((&args.path).path_of() == named(args.path)); }
//@ end
//@ fn list_dir_contents
//@ ret r
    requires old(state).wf(),
    ensures
        final(state).wf(), // [C12]
        list_done(*old(state), *final(state), *args, r), // [C12]
//@ end
//@ impl TryFrom<LocalDirEntry> for DirEntry as impl DirEntry
//@ subst Result<Self, Self::Error> => io::Result<Self>
//@ fn try_from
//@ ret r
    ensures r is Ok ==> sent_entry(local_dir_entry, r->Ok_0), // [C12]
//@ end
//@ endimpl
//@ endsrc
}
}
}
}
