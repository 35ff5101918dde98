// ---- paths: a path is the list of its components ---------------------------------
pub type Comps = Seq<Seq<char>>;
pub trait PathSpec { spec fn comps(&self) -> Comps; }
/// what can be used as a path
pub trait AsRef<T: PathSpec> {
    spec fn path_of(&self) -> Comps;
    fn as_ref(&self) -> (r: &T) ensures r.comps() == self.path_of();
}
#[verifier::external_body]
pub struct Path { _p: () }
#[verifier::external_body]
pub struct PathBuf { _p: () }
pub uninterp spec fn path_comps(p: &Path) -> Comps;
pub uninterp spec fn pathbuf_comps(p: &PathBuf) -> Comps;
/// the path a text names
pub uninterp spec fn named_path(t: Seq<char>) -> Comps;
impl PathSpec for Path { open spec fn comps(&self) -> Comps { path_comps(self) } }
impl PathSpec for PathBuf { open spec fn comps(&self) -> Comps { pathbuf_comps(self) } }
pub open spec fn within(p: Comps, dir: Comps) -> bool { dir.is_prefix_of(p) }
impl Path {
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: PathBuf) ensures r.comps() == self.comps() { unimplemented!() }
    /// component-wise
    #[verifier::external_body]
    pub fn starts_with<P: AsRef<Path>>(&self, base: P) -> (r: bool)
        ensures r == within(self.comps(), base.path_of())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_same(&self, o: &Path) -> (r: bool) ensures r == (self.comps() == o.comps()) { unimplemented!() }
}
impl PathBuf {
    #[verifier::external_body]
    pub fn as_path(&self) -> (r: &Path) ensures r.comps() == self.comps() { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Path {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self.comps() == o.comps() }
}
impl PartialEq for Path {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
impl AsRef<Path> for Path {
    open spec fn path_of(&self) -> Comps { self.comps() }
    fn as_ref(&self) -> (r: &Path) { self }
}
impl AsRef<Path> for PathBuf {
    open spec fn path_of(&self) -> Comps { self.comps() }
    fn as_ref(&self) -> (r: &Path) { self.as_path() }
}
impl AsRef<Path> for String {
    open spec fn path_of(&self) -> Comps { named_path(self@) }
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &Path) { unimplemented!() }
}
impl<'a, A: AsRef<Path>> AsRef<Path> for &'a A {
    open spec fn path_of(&self) -> Comps { (**self).path_of() }
    fn as_ref(&self) -> (r: &Path) { (**self).as_ref() }
}
// ---- the operating system --------------------------------------------------------
/// what the code may ask of the file system
pub enum FsOp {
    Rename(Comps, Comps),
    RemoveFile(Comps),
    CreateDir(Comps, bool),
    RemoveDir(Comps, bool),
}
/// Permission to carry out an operation that changes the file system.  Nothing
/// gives it but a precondition of the function under proof: an operation that is
/// not permitted there cannot be reached.
pub uninterp spec fn allowed(op: FsOp) -> bool;
/// the operation was carried out, with this outcome
pub uninterp spec fn did(op: FsOp, r: io::Result<()>) -> bool;
pub open spec fn done(op: FsOp) -> bool { exists|r: io::Result<()>| #[trigger] did(op, r) && r is Ok }
/// `r` is the outcome of resolving `p` (links, relative parts)
pub uninterp spec fn resolved(p: Comps, r: Option<Comps>) -> bool;
/// what is at a path
pub uninterp spec fn file_at(p: Comps) -> bool;
pub uninterp spec fn dir_at(p: Comps) -> bool;
/// the system does not say what is there
pub uninterp spec fn unreadable(p: Comps) -> bool;
#[verifier::external_body]
pub struct Metadata { _p: () }
impl Metadata {
    pub uninterp spec fn of(&self) -> Comps;
    #[verifier::external_body]
    pub fn is_file(&self) -> (r: bool) ensures r == file_at(self.of()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_dir(&self) -> (r: bool) ensures r == dir_at(self.of()) { unimplemented!() }
}
pub open spec fn comps_of(r: io::Result<PathBuf>) -> Option<Comps> {
    match r { Ok(p) => Some(p.comps()), Err(_) => None }
}
pub mod fs {
    use super::*;
    verus! {
    #[verifier::external_body]
    pub fn metadata<P: AsRef<Path>>(p: P) -> (r: io::Result<Metadata>)
        ensures
            r is Ok ==> r->Ok_0.of() == p.path_of(),
            r is Err ==> unreadable(p.path_of()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_dir<P: AsRef<Path>>(p: P) -> (r: io::Result<ReadDir>)
        ensures r is Ok ==> has_entries(p.path_of(), r->Ok_0.rest())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn canonicalize<P: AsRef<Path>>(p: P) -> (r: io::Result<PathBuf>)
        ensures resolved(p.path_of(), comps_of(r))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rename<P: AsRef<Path>, Q: AsRef<Path>>(from: P, to: Q) -> (r: io::Result<()>)
        requires allowed(FsOp::Rename(from.path_of(), to.path_of()))
        ensures did(FsOp::Rename(from.path_of(), to.path_of()), r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_file<P: AsRef<Path>>(p: P) -> (r: io::Result<()>)
        requires allowed(FsOp::RemoveFile(p.path_of()))
        ensures did(FsOp::RemoveFile(p.path_of()), r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn create_dir<P: AsRef<Path>>(p: P) -> (r: io::Result<()>)
        requires allowed(FsOp::CreateDir(p.path_of(), false))
        ensures did(FsOp::CreateDir(p.path_of(), false), r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn create_dir_all<P: AsRef<Path>>(p: P) -> (r: io::Result<()>)
        requires allowed(FsOp::CreateDir(p.path_of(), true))
        ensures did(FsOp::CreateDir(p.path_of(), true), r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_dir<P: AsRef<Path>>(p: P) -> (r: io::Result<()>)
        requires allowed(FsOp::RemoveDir(p.path_of(), false))
        ensures did(FsOp::RemoveDir(p.path_of(), false), r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_dir_all<P: AsRef<Path>>(p: P) -> (r: io::Result<()>)
        requires allowed(FsOp::RemoveDir(p.path_of(), true))
        ensures did(FsOp::RemoveDir(p.path_of(), true), r)
    { unimplemented!() }
    }
}
pub mod tokio { pub use super::fs; }
/// the entries of a directory, as the system reports them
pub struct EntryV { pub path: Comps, pub file: bool, pub dir: bool, pub link: bool }
pub uninterp spec fn has_entries(p: Comps, s: Seq<EntryV>) -> bool;
#[verifier::external_body]
pub struct ReadDir { _p: () }
#[verifier::external_body]
pub struct DirEntryS { _p: () }
#[verifier::external_body]
pub struct FileType { _p: () }
impl ReadDir {
    pub uninterp spec fn rest(&self) -> Seq<EntryV>;
    #[verifier::external_body]
    pub fn next_entry(&mut self) -> (r: io::Result<Option<DirEntryS>>)
        ensures
            r is Ok && r->Ok_0 is None ==> old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
            r is Ok && r->Ok_0 is Some ==> old(self).rest().len() > 0 && r->Ok_0->Some_0.view() == old(self).rest()[0]
                && final(self).rest() == old(self).rest().skip(1),
    { unimplemented!() }
}
impl DirEntryS {
    pub uninterp spec fn view(&self) -> EntryV;
    #[verifier::external_body]
    pub fn file_type(&self) -> (r: io::Result<FileType>) ensures r is Ok ==> r->Ok_0.view() == self.view() { unimplemented!() }
    #[verifier::external_body]
    pub fn path(&self) -> (r: PathBuf) ensures r.comps() == self.view().path { unimplemented!() }
}
impl FileType {
    pub uninterp spec fn view(&self) -> EntryV;
    #[verifier::external_body]
    pub fn is_file(&self) -> (r: bool) ensures r == self.view().file { unimplemented!() }
    #[verifier::external_body]
    pub fn is_dir(&self) -> (r: bool) ensures r == self.view().dir { unimplemented!() }
    #[verifier::external_body]
    pub fn is_symlink(&self) -> (r: bool) ensures r == self.view().link { unimplemented!() }
}
/// how a file was opened
pub struct Opened { pub path: Comps, pub create: bool, pub write: bool, pub read: bool }
/// an open file: its contents, the position in it, whether writes may still be in
/// flight, and how it was opened
pub struct FileV { pub contents: Seq<u8>, pub pos: int, pub in_flight: bool, pub opened: Opened }
#[verifier::external_body]
pub struct File { _p: () }
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
/// `c` with its length made `n`
pub open spec fn resized(c: Seq<u8>, n: int) -> Seq<u8> { if n <= c.len() { c.take(n) } else { c + zeros(n - c.len()) } }
/// `c` after writing `b` at `pos`
pub open spec fn written_at(c: Seq<u8>, pos: int, b: Seq<u8>) -> Seq<u8> {
    let c0 = if pos <= c.len() { c.take(pos) } else { resized(c, pos) };
    c0 + b + (if pos + b.len() <= c.len() { c.skip(pos + b.len()) } else { Seq::empty() })
}
/// while an operation runs nobody else changes the file
impl File {
    pub uninterp spec fn view(&self) -> FileV;
    #[verifier::external_body]
    pub fn seek(&mut self, to: SeekFrom) -> (r: io::Result<u64>)
        ensures
            final(self)@.contents == old(self)@.contents,
            final(self)@.opened == old(self)@.opened,
            final(self)@.in_flight == old(self)@.in_flight,
            r is Ok && to is Start ==> final(self)@.pos == to->Start_0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: io::Result<usize>)
        ensures
            final(self)@.contents == old(self)@.contents,
            final(self)@.opened == old(self)@.opened,
            final(self)@.in_flight == old(self)@.in_flight,
            r is Ok && 0 <= old(self)@.pos <= old(self)@.contents.len()
                ==> final(buf)@ == old(buf)@ + old(self)@.contents.skip(old(self)@.pos),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_len(&mut self, n: u64) -> (r: io::Result<()>)
        ensures
            final(self)@.opened == old(self)@.opened,
            final(self)@.pos == old(self)@.pos,
            final(self)@.in_flight == old(self)@.in_flight,
            r is Ok ==> final(self)@.contents == resized(old(self)@.contents, n as int),
            r is Err ==> final(self)@.contents == old(self)@.contents,
    { unimplemented!() }
    /// accepted, but not necessarily carried out before a flush
    #[verifier::external_body]
    pub fn write_all(&mut self, buf: &[u8]) -> (r: io::Result<()>)
        ensures
            final(self)@.opened == old(self)@.opened,
            r is Ok && old(self)@.pos >= 0 ==> final(self)@.contents == written_at(old(self)@.contents, old(self)@.pos, buf@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: io::Result<()>)
        ensures
            final(self)@.opened == old(self)@.opened,
            final(self)@.contents == old(self)@.contents,
            r is Ok ==> !final(self)@.in_flight,
    { unimplemented!() }
}
#[verifier::external_body]
pub struct OpenOptions { _p: () }
impl OpenOptions {
    pub uninterp spec fn view(&self) -> Opened;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures !r@.create && !r@.write && !r@.read { unimplemented!() }
    #[verifier::external_body]
    pub fn create(self, b: bool) -> (r: Self) ensures r@ == (Opened { create: b, ..self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn write(self, b: bool) -> (r: Self) ensures r@ == (Opened { write: b, ..self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn read(self, b: bool) -> (r: Self) ensures r@ == (Opened { read: b, ..self@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn open<P: AsRef<Path>>(self, p: P) -> (r: io::Result<File>)
        ensures r is Ok ==> r->Ok_0@.opened == (Opened { path: p.path_of(), ..self@ })
    { unimplemented!() }
}
/// a number from the operating system's generator
pub uninterp spec fn drawn(x: u32) -> bool;
pub struct OsRng;
impl OsRng {
    #[verifier::external_body]
    pub fn next_u32(self) -> (r: u32) ensures drawn(r) { unimplemented!() }
}
/// a text whose wording is left open
#[verifier::external_body]
pub fn fmt_opaque() -> (r: String) { unimplemented!() }

/// `HashMap::get_mut`, `HashMap::entry`
pub trait MapShim<V> {
    spec fn the_map(&self) -> Map<u32, V>;
    fn at_mut(&mut self, k: &u32) -> (r: Option<&mut V>)
        ensures match r {
            Some(x) => old(self).the_map().contains_key(*k) && *x == old(self).the_map()[*k]
                && final(self).the_map() == old(self).the_map().insert(*k, *final(x)),
            None => !old(self).the_map().contains_key(*k) && final(self).the_map() == old(self).the_map(),
        };
}
impl<V> MapShim<V> for HashMap<u32, V> {
    open spec fn the_map(&self) -> Map<u32, V> { self@ }
    #[verifier::external_body]
    fn at_mut(&mut self, k: &u32) -> (r: Option<&mut V>) { self.get_mut(k) }
}
pub struct OccupiedEntry<'a, V> { pub m: &'a mut HashMap<u32, V>, pub k: u32 }
pub struct VacantEntry<'a, V> { pub m: &'a mut HashMap<u32, V>, pub k: u32 }
pub enum Entry<'a, V> { Occupied(OccupiedEntry<'a, V>), Vacant(VacantEntry<'a, V>) }
pub fn entry<'a, V>(m: &'a mut HashMap<u32, V>, k: u32) -> (r: Entry<'a, V>)
    ensures match r {
        Entry::Occupied(o) => o.k == k && *o.m == *old(m) && *final(o.m) == *final(m) && old(m)@.contains_key(k),
        Entry::Vacant(o) => o.k == k && *o.m == *old(m) && *final(o.m) == *final(m) && !old(m)@.contains_key(k),
    }
{
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    if m.contains_key(&k) { Entry::Occupied(OccupiedEntry { m, k }) } else { Entry::Vacant(VacantEntry { m, k }) }
}
impl<'a, V> OccupiedEntry<'a, V> {
    pub fn get(&self) -> (r: &V)
        requires old(self.m)@.contains_key(self.k)
        ensures *r == old(self.m)@[self.k]
    { broadcast use vstd::std_specs::hash::group_hash_axioms; self.m.get(&self.k).unwrap() }
    pub fn remove(self) -> (r: V)
        requires old(self.m)@.contains_key(self.k)
        ensures r == old(self.m)@[self.k], final(self.m)@ == old(self.m)@.remove(self.k)
    { broadcast use vstd::std_specs::hash::group_hash_axioms; self.m.remove(&self.k).unwrap() }
}

/// `X.values().find(f)`
pub trait FindShim<V> {
    fn values_find<F: Fn(&V) -> bool>(&self, f: F) -> (r: Option<&V>)
        requires forall|x: V| call_requires(f, (&x,));
}
pub open spec fn found_in<V>(m: Map<u32, V>, k: u32, x: V) -> bool { m.contains_key(k) && m[k] == x }
impl<V> FindShim<V> for HashMap<u32, V> {
    #[verifier::external_body]
    fn values_find<F: Fn(&V) -> bool>(&self, f: F) -> (r: Option<&V>)
        ensures match r {
            Some(x) => call_ensures(f, (x,), true) && exists|k: u32| #[trigger] found_in(self@, k, *x),
            None => forall|k: u32| #[trigger] self@.contains_key(k) ==> call_ensures(f, (&self@[k],), false),
        }
    { self.values().find(|x| f(*x)) }
}
