//@ sequential
// ---- directories ---------------------------------------------------------------
pub mod dir {
use super::*;
verus! {
//@ src src/core/server/fs/dir.rs
//@ keep
//@ item LocalDirEntry
//@ fn entries
//@ ret r
    ensures
        r is Ok ==> lists(path.path_of(), r->Ok_0@), // [C12]
//@ before read_dir 0
    let ghost p = path.path_of();
//@ loop 0 before
    let ghost all = dir_stream.rest();
    let ghost mut n = 0int;
//@ loop 0
    invariant
        has_entries(p, all),
        0 <= n <= all.len(),
        dir_stream.rest() == all.skip(n),
        entries@.len() == n,
        forall|i: int| 0 <= i < n ==> is_entry(#[trigger] entries@[i], all[i]),
    ensures
        dir_stream.rest().len() == 0,
    decreases all.len() - n
//@ loop 0 end
    proof { n = n + 1; }
//@ end
pub open spec fn is_entry(e: LocalDirEntry, v: EntryV) -> bool {
    e.path.comps() == v.path && e.is_file == v.file && e.is_dir == v.dir && e.is_symlink == v.link
}
/// every entry of the directory, once, in the system's order
pub open spec fn lists(p: Comps, es: Seq<LocalDirEntry>) -> bool {
    exists|s: Seq<EntryV>| #[trigger] has_entries(p, s) && s.len() == es.len()
        && forall|i: int| 0 <= i < es.len() ==> is_entry(#[trigger] es[i], s[i])
}
//@ fn rename
//@ ret r
    requires allowed(FsOp::Rename(from.path_of(), to.path_of())),
    ensures
        r is Ok ==> dir_at(from.path_of()) && done(FsOp::Rename(from.path_of(), to.path_of())), // [C09 C12]
        r is Err ==> did(FsOp::Rename(from.path_of(), to.path_of()), r) || !dir_at(from.path_of()) || unreadable(from.path_of()), // [C09]
//@ end
//@ fn create
//@ ret r
    requires allowed(FsOp::CreateDir(path.path_of(), create_components)),
    ensures did(FsOp::CreateDir(path.path_of(), create_components), r), // [C12]
//@ end
//@ fn remove
//@ ret r
    requires allowed(FsOp::RemoveDir(path.path_of(), non_empty)),
    ensures did(FsOp::RemoveDir(path.path_of(), non_empty), r), // [C09 C12]
//@ end
}
}
pub use dir::{LocalDirEntry, lists, is_entry};
// ---- open files ----------------------------------------------------------------
pub mod file {
use super::*;
verus! {
//@ presubst .open(&path) => .open(&path)
//@ src src/core/server/fs/file.rs
//@ keep
//@ item LocalFileError
//@ item Result
//@ keep Clone, Copy
//@ item LocalFileHandle
//@ item LocalFilePermissions
//@ keep
//@ item LocalFile
impl LocalFile {
    /// nothing of the file changed
    pub open spec fn same(&self, o: &Self) -> bool {
        self.meta_same(o) && self.sig == o.sig && self.path.comps() == o.path.comps()
            && self.file@.contents == o.file@.contents && self.file@.in_flight == o.file@.in_flight
    }
    /// only signature, path and contents may differ
    pub open spec fn meta_same(&self, o: &Self) -> bool {
        self.id == o.id && self.permissions == o.permissions && self.file@.opened == o.file@.opened
    }
    pub open spec fn spec_handle(&self) -> LocalFileHandle { LocalFileHandle { id: self.id, sig: self.sig } }
}
//@ impl LocalFile
//@ fn new
//@ ret r
    ensures
        drawn(r.id) && drawn(r.sig), // [C08 C10]
        r.file == file && r.permissions == permissions && r.path.comps() == path.path_of(), // [C08 C10]
//@ end
//@ fn open
//@ ret r
    ensures
        r is Ok ==> opened_file(r->Ok_0, path.path_of(), create, write, read), // [C10]
//@ end
//@ fn id
//@ ret r
    ensures r == self.id, // [C10]
//@ end
//@ fn sig
//@ ret r
    ensures r == self.sig, // [C08]
//@ end
//@ fn handle
//@ ret r
    ensures r == self.spec_handle(), // [C10]
//@ end
//@ fn permissions
//@ ret r
    ensures r == self.permissions, // [C10]
//@ end
//@ fn path
//@ ret r
    ensures r.comps() == self.path.comps(), // [C09]
//@ end
//@ fn rename
//@ ret r
    requires
        sig == old(self).sig ==> allowed(FsOp::Rename(old(self).path.comps(), to.path_of())),
    ensures
        final(self).meta_same(old(self)), // [C08]
        final(self).file == old(self).file, // [C08]
        sig != old(self).sig ==> r == Err::<u32, LocalFileError>(LocalFileError::SigMismatch), // [C08]
        r is Err ==> *final(self) == *old(self), // [C08]
        r is Err && sig == old(self).sig ==> r->Err_0 is IoError, // [C08]
        r is Ok ==> done(FsOp::Rename(old(self).path.comps(), to.path_of())), // [C08]
        r is Ok ==> r->Ok_0 == final(self).sig && drawn(final(self).sig), // [C08]
        r is Ok ==> cleaned(to.path_of(), final(self).path.comps()), // [C08 C09]
//@ closure 0 (__r: PathBuf)
    ensures __r.comps() == to.path_of()
//@ end
//@ fn remove
//@ ret r
    requires
        sig == old(self).sig ==> allowed(FsOp::RemoveFile(old(self).path.comps())),
    ensures
        final(self).meta_same(old(self)), // [C08]
        final(self).file == old(self).file, // [C08]
        final(self).path == old(self).path, // [C08]
        sig != old(self).sig ==> r == Err::<(), LocalFileError>(LocalFileError::SigMismatch), // [C08]
        r is Err ==> *final(self) == *old(self), // [C08]
        r is Err && sig == old(self).sig ==> r->Err_0 is IoError, // [C08]
        r is Ok ==> done(FsOp::RemoveFile(old(self).path.comps())), // [C08]
        r is Ok ==> drawn(final(self).sig), // [C08]
//@ end
//@ fn read_all
//@ ret r
    ensures
        final(self).same(old(self)), // [C08]
        sig != old(self).sig ==> r == Err::<Vec<u8>, LocalFileError>(LocalFileError::SigMismatch), // [C08]
        r is Err && sig == old(self).sig ==> r->Err_0 is IoError, // [C08]
        r is Ok ==> r->Ok_0@ == old(self).file@.contents, // [C08]
//@ tail
    proof { assert(buf@ =~= self.file@.contents); }
//@ end
//@ fn write_all
//@ ret r
    ensures
        final(self).meta_same(old(self)), // [C08]
        final(self).path == old(self).path, // [C08]
        sig != old(self).sig ==> r == Err::<(), LocalFileError>(LocalFileError::SigMismatch) && final(self).same(old(self)), // [C08]
        r is Err && sig == old(self).sig ==> r->Err_0 is IoError, // [C08]
        r is Ok ==> final(self).file@.contents == buf@ && !final(self).file@.in_flight && drawn(final(self).sig), // [C08]
        // whatever became of a failed write: contents that changed have a new signature
        final(self).same(old(self)) || drawn(final(self).sig), // [C08]
//@ start
    proof { lemma_overwrite(self.file@.contents, buf@); }
//@ end
//@ endimpl
//@ fn rename
//@ ret r
    requires allowed(FsOp::Rename(from.path_of(), to.path_of())),
    ensures
        r is Ok ==> file_at(from.path_of()) && done(FsOp::Rename(from.path_of(), to.path_of())), // [C08 C09]
        r is Err ==> did(FsOp::Rename(from.path_of(), to.path_of()), r) || !file_at(from.path_of()) || unreadable(from.path_of()), // [C09]
//@ end
//@ fn remove
//@ ret r
    requires allowed(FsOp::RemoveFile(path.path_of())),
    ensures did(FsOp::RemoveFile(path.path_of()), r), // [C08 C09]
//@ end
}
}
pub use file::{LocalFile, LocalFileError, LocalFileHandle, LocalFilePermissions};
pub proof fn lemma_overwrite(c: Seq<u8>, b: Seq<u8>)
    ensures written_at(resized(c, 0), 0, b) == b
{
    assert(resized(c, 0) =~= Seq::empty());
    assert(written_at(resized(c, 0), 0, b) =~= b);
}
/// what a path is taken for: its resolved form, or itself if it cannot be resolved
pub open spec fn cleaned(p: Comps, c: Comps) -> bool {
    exists|r: Option<Comps>| #[trigger] resolved(p, r) && c == match r { Some(x) => x, None => p }
}
pub open spec fn opened_file(f: LocalFile, path: Comps, create: bool, write: bool, read: bool) -> bool {
    &&& f.file@.opened == (Opened { path, create, write, read })
    &&& f.permissions == (LocalFilePermissions { write, read })
    &&& resolved(path, Some(f.path.comps()))
    &&& drawn(f.id) && drawn(f.sig)
}
// ---- the manager of open files -------------------------------------------------
pub type Files = Map<u32, LocalFile>;
pub open spec fn busy(files: Files, p: Comps) -> bool {
    exists|k: u32| #[trigger] files.contains_key(k) && within(files[k].path.comps(), p)
}
pub open spec fn is_busy_err<T>(r: io::Result<T>) -> bool { r is Err && r->Err_0.spec_kind() == io::ErrorKind::InvalidData }
/// every file is filed under its own id
pub open spec fn filed(files: Files) -> bool { forall|k: u32| #[trigger] files.contains_key(k) ==> files[k].id == k }
/// at most one open file per path
pub open spec fn one_per_path(files: Files) -> bool {
    forall|a: u32, b: u32| #[trigger] files.contains_key(a) && #[trigger] files.contains_key(b) && files[a].path.comps() == files[b].path.comps() ==> a == b
}
pub open spec fn open_at(files: Files, c: Comps, k: u32) -> bool { files.contains_key(k) && files[k].path.comps() == c }
pub open spec fn none_at(files: Files, c: Comps) -> bool { forall|k: u32| !#[trigger] open_at(files, c, k) }
/// refused if something in `p` is open, else carried out or failed by the system
pub open spec fn path_op(files: Files, p: Comps, op: FsOp, r: io::Result<()>, no_target: bool) -> bool {
    &&& busy(files, p) ==> is_busy_err(r)
    &&& !busy(files, p) ==> if r is Ok { done(op) } else { did(op, r) || no_target }
}
//@ src src/core/server/fs/mod.rs
//@ subst self.files.get_mut( => self.files.at_mut(
//@ subst self.files.entry( => entry(&mut self.files,
//@ subst id: impl Into<u32> => id: u32
//@ subst &id.into() => &id
//@ item FileSystemManager
impl FileSystemManager {
    pub open spec fn view(&self) -> Files { self.files@ }
    pub open spec fn may_move(&self, from: Comps, to: Comps) -> bool {
        forall|a: Comps, b: Comps| #[trigger] cleaned(from, a) && #[trigger] cleaned(to, b) && !busy(self@, a) ==> allowed(FsOp::Rename(a, b))
    }
    pub open spec fn moved(&self, from: Comps, to: Comps, dir: bool, r: io::Result<()>) -> bool {
        exists|a: Comps, b: Comps| #[trigger] cleaned(from, a) && #[trigger] cleaned(to, b)
            && path_op(self@, a, FsOp::Rename(a, b), r, if dir { !dir_at(a) } else { !file_at(a) } || unreadable(a))
    }
}
//@ impl FileSystemManager
//@ fn new
//@ ret r
    ensures r@ == Map::<u32, LocalFile>::empty(), // [C10]
//@ end
//@ fn create_dir
//@ ret r
    requires forall|c: Comps| #[trigger] cleaned(path.path_of(), c) ==> allowed(FsOp::CreateDir(c, create_components)),
    ensures exists|c: Comps| #[trigger] cleaned(path.path_of(), c) && did(FsOp::CreateDir(c, create_components), r), // [C12]
//@ end
//@ fn rename_dir
//@ ret r
    requires old(self).may_move(from.path_of(), to.path_of()),
    ensures
        final(self)@ == old(self)@, // [C09]
        old(self).moved(from.path_of(), to.path_of(), true, r), // [C09]
//@ end
//@ fn remove_dir
//@ ret r
    requires forall|c: Comps| #[trigger] cleaned(path.path_of(), c) && !busy(old(self)@, c) ==> allowed(FsOp::RemoveDir(c, non_empty)),
    ensures
        final(self)@ == old(self)@, // [C09]
        exists|c: Comps| #[trigger] cleaned(path.path_of(), c) && path_op(old(self)@, c, FsOp::RemoveDir(c, non_empty), r, false), // [C09]
//@ end
//@ fn dir_entries
//@ ret r
    ensures r is Ok ==> exists|c: Comps| #[trigger] cleaned(path.path_of(), c) && lists(c, r->Ok_0@), // [C12]
//@ end
//@ fn open_file
//@ ret r
    requires filed(old(self)@),
    ensures
        filed(final(self)@), // [C10]
        r is Err ==> final(self)@ == old(self)@, // [C10]
        r is Ok ==> opening(old(self)@, final(self)@, path.path_of(), create, write, read, r->Ok_0), // [C10]
//@ closure 0 (__r: bool)
    ensures __r == (f.path.comps() == path.comps())
//@ before return 0
    proof {
        broadcast use vstd::std_specs::hash::group_hash_axioms;
        let k = file.id;
        assert(open_at(self@, path.comps(), k));
        assert(self@ =~= self@.insert(k, self@[k]));
        assert(opening_at(old(self)@, self@, path.comps(), create, write, read, file.spec_handle()));
    }
//@ tail
    proof {
        let c = path0;
        let k = handle.id;
        assert(self@ =~= old(self)@.insert(k, self@[k]));
        if maybe_id_and_sig is Some { assert(open_at(old(self)@, c, k)); }
        assert(opening_at(old(self)@, self@, c, create, write, read, handle));
    }
//@ before open 0
    let ghost path0 = path.comps();
//@ end
//@ fn close_file
//@ ret r
    ensures
        is_current(old(self)@, handle) ==> r is Ok && final(self)@ == old(self)@.remove(handle.id) && r->Ok_0 == old(self)@[handle.id], // [C10]
        !is_current(old(self)@, handle) ==> r is Err && final(self)@ == old(self)@, // [C10]
//@ end
//@ fn rename_file
//@ ret r
    requires old(self).may_move(from.path_of(), to.path_of()),
    ensures
        final(self)@ == old(self)@, // [C09]
        old(self).moved(from.path_of(), to.path_of(), false, r), // [C09]
//@ end
//@ fn remove_file
//@ ret r
    requires forall|c: Comps| #[trigger] cleaned(path.path_of(), c) && !busy(old(self)@, c) ==> allowed(FsOp::RemoveFile(c)),
    ensures
        final(self)@ == old(self)@, // [C09]
        exists|c: Comps| #[trigger] cleaned(path.path_of(), c) && path_op(old(self)@, c, FsOp::RemoveFile(c), r, false), // [C09]
//@ end
//@ fn file_cnt
//@ ret r
    ensures r == self@.dom().len(), // [C10]
//@ end
//@ fn get_mut
//@ ret r
    ensures match r {
        Some(x) => old(self)@.contains_key(id) && *x == old(self)@[id] && final(self)@ == old(self)@.insert(id, *final(x)), // [C08 C10]
        None => !old(self)@.contains_key(id) && final(self)@ == old(self)@, // [C08 C10]
    }
//@ end
//@ fn get
//@ ret r
    ensures match r {
        Some(x) => self@.contains_key(id) && *x == self@[id], // [C10 C11]
        None => !self@.contains_key(id), // [C10 C11]
    }
//@ end
//@ fn exists
//@ ret r
    ensures r == self@.contains_key(id), // [C10]
//@ end
//@ fn check_no_open_files
//@ ret r
    ensures
        busy(self@, path.path_of()) ==> is_busy_err(r), // [C09]
        !busy(self@, path.path_of()) ==> r is Ok, // [C09]
//@ loop 0 iter it
//@ loop 0
    invariant
        enumerated(self.files@, it.seq()),
        forall|i: int| 0 <= i < it.index@ ==> !within((#[trigger] it.seq()[i]).path.comps(), path.path_of()),
//@ before return 0
    proof {
        let ks = choose|ks: Seq<u32>| #[trigger] enumerates(ks, self.files@, it.seq());
        assert(self.files@.contains_key(ks[it.index@]));
    }
//@ end
//@ endimpl
//@ fn clean_path
//@ ret r
    ensures cleaned(path.path_of(), r.comps()), // [C09 C10]
//@ closure 0 (__r: PathBuf)
    ensures __r.comps() == path.path_of()
//@ end
//@ unsubst
pub open spec fn is_current(files: Files, h: LocalFileHandle) -> bool { files.contains_key(h.id) && files[h.id].sig == h.sig }
/// the file the handle names after opening `path`
pub open spec fn opening(old: Files, new: Files, path: Comps, create: bool, write: bool, read: bool, h: LocalFileHandle) -> bool {
    exists|c: Comps| #[trigger] cleaned(path, c) && opening_at(old, new, c, create, write, read, h)
}
pub open spec fn opening_at(old: Files, new: Files, c: Comps, create: bool, write: bool, read: bool, h: LocalFileHandle) -> bool {
    if none_at(old, c) {
        // a new one; the others are left alone
        &&& new == old.insert(h.id, new[h.id])
        &&& new[h.id].spec_handle() == h
        &&& opened_file(new[h.id], c, create, write, read)
    } else {
        // the one that is open already, with the access it had and the access asked for
        &&& open_at(old, c, h.id)
        &&& old[h.id].spec_handle() == h
        &&& new[h.id].spec_handle() == h
        &&& new == old.insert(h.id, new[h.id])
        &&& new[h.id] == old[h.id] || widened(old[h.id], new[h.id], c, create, write, read)
        &&& new[h.id].permissions.read == (old[h.id].permissions.read || read)
        &&& new[h.id].permissions.write == (old[h.id].permissions.write || write)
    }
}
pub open spec fn widened(old: LocalFile, new: LocalFile, c: Comps, create: bool, write: bool, read: bool) -> bool {
    let w = old.permissions.write || write;
    let r = old.permissions.read || read;
    new.file@.opened == (Opened { path: c, create, write: w, read: r }) && resolved(c, Some(new.path.comps()))
}
/// [C10] one open file per path: opening keeps it that way as long as the path
/// it resolved to is not already taken by another open file (the system
/// resolving the same path differently between the two look-ups)
pub proof fn theorem_one_per_path(old: Files, new: Files, c: Comps, create: bool, write: bool, read: bool, h: LocalFileHandle)
    requires
        one_per_path(old),
        filed(old),
        opening_at(old, new, c, create, write, read, h),
        new[h.id].path.comps() == c || none_at(old.remove(h.id), new[h.id].path.comps()),
        // the id drawn for a new file is not one in use
        none_at(old, c) ==> !old.contains_key(h.id),
    ensures
        one_per_path(new), // [C10]
        filed(new), // [C10]
        open_at(new, new[h.id].path.comps(), h.id), // [C10]
        forall|k: u32| k != h.id ==> old.contains_key(k) == new.contains_key(k) && (old.contains_key(k) ==> #[trigger] new[k] == old[k]), // [C10]
{
    let p = new[h.id].path.comps();
    assert forall|a: u32, b: u32| #[trigger] new.contains_key(a) && #[trigger] new.contains_key(b) && new[a].path.comps() == new[b].path.comps() implies a == b by {
        if a != b && (a == h.id || b == h.id) {
            let k = if a == h.id { b } else { a };
            assert(old.contains_key(k) && old[k].path.comps() == p);
            assert(open_at(old, p, k));
            assert(open_at(old.remove(h.id), p, k));
            assert(p == c);
            assert(!none_at(old, c));
            assert(open_at(old, c, h.id));
            assert(old.contains_key(h.id));
        }
    }
}
/// [C10] closing keeps it that way too, and the id is unknown afterwards
pub proof fn theorem_close(old: Files, h: LocalFileHandle)
    requires one_per_path(old), filed(old), is_current(old, h),
    ensures
        one_per_path(old.remove(h.id)), // [C10]
        filed(old.remove(h.id)), // [C10]
        !is_current(old.remove(h.id), h), // [C10]
{
}
