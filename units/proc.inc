// ---- child processes, as assumed contracts -----------------------------------------
/// everything the process with this child handle ever writes to an output (1 or 2)
pub uninterp spec fn written(child: int, fd: int) -> Seq<u8>;
/// the process has exited with this status / had not when it was asked
pub uninterp spec fn exited(child: int, s: process::ExitStatus) -> bool;
pub uninterp spec fn was_running(child: int) -> bool;
/// the system would not say
pub uninterp spec fn unwaitable(child: int) -> bool;
/// the process was told to stop
pub uninterp spec fn killed(child: int, r: io::Result<()>) -> bool;
/// the process stopped only for this reason
pub uninterp spec fn may_kill(child: int) -> bool;
pub mod process {
    use super::*;
    verus! {
    #[verifier::external_body]
    #[derive(Clone, Copy)]
    pub struct ExitStatus { _p: () }
    impl ExitStatus {
        pub uninterp spec fn ok(&self) -> bool;
        pub uninterp spec fn exit_code(&self) -> Option<i32>;
        #[verifier::external_body]
        pub fn success(&self) -> (r: bool) ensures r == self.ok() { unimplemented!() }
        #[verifier::external_body]
        pub fn code(&self) -> (r: Option<i32>) ensures r == self.exit_code() { unimplemented!() }
    }
    pub struct Output { pub status: ExitStatus, pub stdout: Vec<u8>, pub stderr: Vec<u8> }
    /// the reading end of an output
    #[verifier::external_body]
    pub struct ChildOut { _p: () }
    impl ChildOut {
        pub uninterp spec fn child(&self) -> int;
        pub uninterp spec fn fd(&self) -> int;
        /// what was taken from it so far
        pub uninterp spec fn taken(&self) -> Seq<u8>;
        /// nothing is left to take, ever
        pub uninterp spec fn at_end(&self) -> bool;
        #[verifier::external_body]
        pub fn read(&mut self, buf: &mut [u8; 1024]) -> (r: io::Result<usize>)
            ensures
                final(self).child() == old(self).child(),
                final(self).fd() == old(self).fd(),
                final(self).taken().is_prefix_of(written(old(self).child(), old(self).fd())),
                match r {
                    Ok(n) => n <= 1024
                        && final(self).taken() == old(self).taken() + final(buf)@.take(n as int)
                        && (n == 0 ==> final(self).at_end() && final(self).taken() == written(old(self).child(), old(self).fd())),
                    Err(e) => final(self).taken() == old(self).taken() && read_broke(old(self).child(), old(self).fd()),
                },
        { unimplemented!() }
    }
    /// an error ended the reading
    pub uninterp spec fn read_broke(child: int, fd: int) -> bool;
    /// the writing end of an input
    #[verifier::external_body]
    pub struct ChildIn { _p: () }
    impl ChildIn {
        /// what was handed to it so far, in order
        pub uninterp spec fn sent(&self) -> Seq<u8>;
        /// all of it reached the process
        pub uninterp spec fn reached(&self) -> bool;
        #[verifier::external_body]
        pub fn write_all(&mut self, buf: &[u8]) -> (r: io::Result<()>)
            ensures r is Ok ==> final(self).sent() == old(self).sent() + buf@
        { unimplemented!() }
        #[verifier::external_body]
        pub fn flush(&mut self) -> (r: io::Result<()>)
            ensures
                final(self).sent() == old(self).sent(),
                r is Ok ==> final(self).reached(),
        { unimplemented!() }
    }
    /// tokio's handle of a process
    pub struct Child {
        pub stdin: Option<ChildIn>,
        pub stdout: Option<ChildOut>,
        pub stderr: Option<ChildOut>,
        pub h: ChildHandle,
    }
    #[verifier::external_body]
    pub struct ChildHandle { _p: () }
    impl ChildHandle {
        pub uninterp spec fn no(&self) -> int;
        pub uninterp spec fn pid(&self) -> u32;
    }
    impl Child {
        /// which process of all there ever were
        pub open spec fn no(&self) -> int { self.h.no() }
        #[verifier::external_body]
        pub fn id(&self) -> (r: u32) ensures r == self.h.pid() { unimplemented!() }
        #[verifier::external_body]
        pub fn poll(&mut self, ctx: &mut Context) -> (r: Poll<io::Result<ExitStatus>>)
            ensures
                *final(self) == *old(self),
                match r {
                    Poll::Ready(Ok(s)) => exited(old(self).no(), s),
                    Poll::Ready(Err(e)) => unwaitable(old(self).no()),
                    Poll::Pending => was_running(old(self).no()),
                },
        { unimplemented!() }
        #[verifier::external_body]
        pub fn kill(&mut self) -> (r: io::Result<()>)
            requires may_kill(old(self).no()),
            ensures *final(self) == *old(self), killed(old(self).no(), r),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn wait_with_output(self) -> (r: io::Result<Output>)
            ensures match r { Ok(o) => exited(self.no(), o.status), Err(_) => unwaitable(self.no()) }
        { unimplemented!() }
    }
    }
}
pub use process::{Child, Output};
#[verifier::external_body]
pub struct Context { _p: () }
#[verifier::external_body]
pub fn poll_context() -> Context { unimplemented!() }
pub enum Poll<T> { Ready(T), Pending }
pub struct Pin;
impl Pin {
    pub fn new<T>(t: &mut T) -> (r: &mut T)
        ensures *r == *old(t), *final(t) == *final(r)
    { t }
}
/// the future of `poll_fn(|ctx| p)`: it must be ready at once, or the query
/// would wait for the process
#[verifier::external_body]
pub fn ready_now<T>(p: Poll<T>) -> (r: T)
    requires p is Ready
    ensures r == p->Ready_0
{ unimplemented!() }
// ---- the buffer shared with the task that reads an output ---------------------------
// `Arc<Mutex<Vec<u8>>>`.  One end appends (the reading task), one end takes (the
// calls).  A handle's log is all it appended, or all it took.  Assumed, from the
// lock: an end holding the lock sees what was appended and not taken yet, and the
// other end changes nothing meanwhile.
#[verifier::external_body]
pub struct Shared { _p: () }
pub uninterp spec fn appended(cell: int) -> Seq<u8>;
impl Shared {
    pub uninterp spec fn cell(&self) -> int;
    pub uninterp spec fn appends(&self) -> bool;
    pub uninterp spec fn was_split(&self) -> bool;
    pub uninterp spec fn log(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(v: Vec<u8>) -> (r: Self)
        requires v@.len() == 0
        ensures !r.was_split(), !r.appends(), r.log() == Seq::<u8>::empty()
    { unimplemented!() }
    /// `Arc::clone`: the end that appends; there is one
    #[verifier::external_body]
    pub fn split(&mut self) -> (r: Self)
        requires !old(self).was_split(), !old(self).appends()
        ensures
            final(self).was_split(), !final(self).appends(),
            final(self).cell() == old(self).cell(), final(self).log() == old(self).log(),
            r.was_split(), r.appends(), r.cell() == old(self).cell(), r.log() == Seq::<u8>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn hold(&mut self) -> (g: &mut Vec<u8>)
        ensures
            final(self).cell() == old(self).cell(),
            final(self).appends() == old(self).appends(),
            final(self).was_split() == old(self).was_split(),
            !old(self).appends() ==> (old(self).log() + g@).is_prefix_of(appended(old(self).cell())),
            final(self).log() == log_after(old(self).appends(), old(self).log(), g@, final(g)@),
    { unimplemented!() }
}
/// what an end's log becomes when it leaves `b` where it found `a`
pub open spec fn log_after(appends: bool, log: Seq<u8>, a: Seq<u8>, b: Seq<u8>) -> Seq<u8> {
    if appends {
        if a.is_prefix_of(b) { log + b.skip(a.len() as int) } else { arbitrary() }
    } else {
        let k = a.len() - b.len();
        if k >= 0 && b == a.skip(k) { log + a.take(k) } else { arbitrary() }
    }
}
/// `v.drain(..).collect()`
#[verifier::external_body]
pub fn drained<T>(v: &mut Vec<T>) -> (r: Vec<T>)
    ensures r@ == old(v)@, final(v)@ == Seq::<T>::empty()
{ unimplemented!() }
#[verifier::external_body]
pub fn first_bytes(v: &[u8; 1024], n: usize) -> (r: &[u8]) requires n <= 1024 ensures r@ == v@.take(n as int) { unimplemented!() }
pub broadcast proof fn lemma_log_append(log: Seq<u8>, a: Seq<u8>, x: Seq<u8>)
    ensures #[trigger] log_after(true, log, a, a + x) == log + x
{
    assert((a + x).skip(a.len() as int) =~= x);
    assert(a.is_prefix_of(a + x));
}
pub broadcast proof fn lemma_log_take(log: Seq<u8>, a: Seq<u8>)
    ensures #[trigger] log_after(false, log, a, Seq::<u8>::empty()) == log + a
{
    assert(a.skip(a.len() as int) =~= Seq::<u8>::empty());
    assert(a.take(a.len() as int) =~= a);
}
pub mod task {
    use super::*;
    verus! {
    /// handle of a task; in the sequential reading the task has run
    pub struct JoinHandle<T> { pub out: T }
    }
}
pub use task::JoinHandle;
#[verifier::external_body]
pub struct Handle { _p: () }
impl Handle {
    #[verifier::external_body]
    pub fn current() -> Handle { unimplemented!() }
    #[verifier::external_body]
    pub fn spawn<T>(&self, out: T) -> (r: JoinHandle<T>)
        ensures r.out == out
    { unimplemented!() }
}
// ---- a process of the server -------------------------------------------------------
//@ keep
//@ presubst Arc<Mutex<Vec<u8>>> => Shared
//@ presubst Arc::new(Mutex::new(Vec::new())) => Shared::new(Vec::new())
//@ presubst Arc::clone(&self.stdout_buf) => self.stdout_buf.split()
//@ presubst Arc::clone(&self.stderr_buf) => self.stderr_buf.split()
//@ presubst &buf[..size] => first_bytes(&buf, size)
//@ presubst .lock() => .hold()
//@ src src/core/server/proc.rs
//@ keep Clone, Copy
//@ item ExitStatus
//@ keep
//@ item LocalProc
/// the status recorded is the one the process exited with
pub open spec fn true_status(child: int, id: u32, s: ExitStatus) -> bool {
    s.id == id && ((exists|w: process::ExitStatus| #[trigger] exited(child, w) && s.is_success == w.ok() && s.exit_code == w.exit_code())
        || (unwaitable(child) && !s.is_success && s.exit_code is None))
}
impl LocalProc {
    pub open spec fn wf(&self) -> bool {
        &&& self.id == self.inner.h.pid()
        &&& self.exit_status is Some ==> true_status(self.inner.no(), self.id, self.exit_status->Some_0)
        &&& !self.stdout_buf.appends() && !self.stderr_buf.appends()
    }
    /// everything but what was taken, sent or found out
    pub open spec fn same_proc(&self, o: &Self) -> bool {
        &&& self.id == o.id && self.inner.h == o.inner.h && self.io_handle == o.io_handle
        &&& self.supports_stdin == o.supports_stdin && self.supports_stdout == o.supports_stdout && self.supports_stderr == o.supports_stderr
        &&& self.stdout_buf.cell() == o.stdout_buf.cell() && self.stderr_buf.cell() == o.stderr_buf.cell()
    }
}
//@ impl LocalProc
//@ fn new
//@ ret r
    ensures
        r.wf(), // [C16]
        r.inner == child && r.exit_status is None && r.io_handle is None, // [C16]
        r.supports_stdin == child.stdin is Some && r.supports_stdout == child.stdout is Some && r.supports_stderr == child.stderr is Some, // [C16]
        r.stdout_buf.log() == Seq::<u8>::empty() && r.stderr_buf.log() == Seq::<u8>::empty(), // [C16]
        !r.stdout_buf.was_split() && !r.stderr_buf.was_split(), // [C16]
//@ end
//@ fn id
//@ ret r
    ensures r == self.id, // [C16,C12]
//@ end
//@ fn exit_status
//@ ret r
    requires old(self).wf(),
    ensures
        final(self).wf(), // [C16]
        r is Some ==> true_status(old(self).inner.no(), old(self).id, r->Some_0), // [C16]
        r is None ==> was_running(old(self).inner.no()), // [C16]
        r == final(self).exit_status, // [C16]
        old(self).exit_status is Some ==> r == old(self).exit_status, // [C16]
        final(self).same_proc(old(self)) && final(self).inner == old(self).inner, // [C16]
        final(self).stdout_buf == old(self).stdout_buf && final(self).stderr_buf == old(self).stderr_buf, // [C16]
//@ closure 0 (__r: bool)
    ensures __r == s.ok()
//@ closure 1 (__r: Option<i32>)
    ensures __r == s.exit_code()
//@ end
//@ fn spawn
//@ ret r
    requires
        self.wf(),
        self.io_handle is None ==> !self.stdout_buf.was_split() && !self.stderr_buf.was_split(),
        self.inner.stdout is Some ==> self.inner.stdout->Some_0.child() == self.inner.no() && self.inner.stdout->Some_0.fd() == 1 && self.inner.stdout->Some_0.taken().len() == 0,
        self.inner.stderr is Some ==> self.inner.stderr->Some_0.child() == self.inner.no() && self.inner.stderr->Some_0.fd() == 2 && self.inner.stderr->Some_0.taken().len() == 0,
    ensures
        r.wf(), // [C16]
        r.id == self.id && r.inner.h == self.inner.h && r.inner.stdin == self.inner.stdin && r.exit_status == self.exit_status, // [C16]
        r.supports_stdin == self.supports_stdin && r.supports_stdout == self.supports_stdout && r.supports_stderr == self.supports_stderr, // [C16]
        r.stdout_buf.cell() == self.stdout_buf.cell() && r.stderr_buf.cell() == self.stderr_buf.cell(), // [C16]
        r.stdout_buf.log() == self.stdout_buf.log() && r.stderr_buf.log() == self.stderr_buf.log(), // [C16]
        r.io_handle is Some, // [C16]
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ start
    broadcast use lemma_log_append;
    let ghost child_no = self.inner.no();
    let ghost out_cell = self.stdout_buf.cell();
    let ghost err_cell = self.stderr_buf.cell();
//@ loop 0 before
    let ghost cell0 = stdout_buf.cell();
//@ loop 0
    invariant
        stdout_buf.appends(), // [C16]
        stdout_buf.cell() == cell0 && cell0 == out_cell, // [C16]
        stdout.taken().is_prefix_of(written(child_no, 1)), // [C16]
        stdout.child() == child_no && stdout.fd() == 1, // [C16]
        // what was handed on is what was read, in order, and nothing else
        stdout_buf.log() == stdout.taken(), // [C16]
    ensures
        (stdout.at_end() && stdout_buf.log() == written(child_no, 1)) || process::read_broke(child_no, 1), // [C16]
//@ loop 1 before
    let ghost cell1 = stderr_buf.cell();
//@ loop 1
    invariant
        stderr_buf.appends(), // [C16]
        stderr_buf.cell() == cell1 && cell1 == err_cell, // [C16]
        stderr.taken().is_prefix_of(written(child_no, 2)), // [C16]
        stderr.child() == child_no && stderr.fd() == 2, // [C16]
        // what was handed on is what was read, in order, and nothing else
        stderr_buf.log() == stderr.taken(), // [C16]
    ensures
        (stderr.at_end() && stderr_buf.log() == written(child_no, 2)) || process::read_broke(child_no, 2), // [C16]
//@ end
//@ fn write_stdin
//@ ret r
    requires old(self).wf(),
    ensures
        final(self).wf(), // [C16]
        final(self).same_proc(old(self)) && final(self).exit_status == old(self).exit_status, // [C16]
        final(self).stdout_buf == old(self).stdout_buf && final(self).stderr_buf == old(self).stderr_buf, // [C16]
        r is Ok ==> old(self).inner.stdin is Some && final(self).inner.stdin is Some
            && final(self).inner.stdin->Some_0.sent() == old(self).inner.stdin->Some_0.sent() + buf@ && final(self).inner.stdin->Some_0.reached(), // [C16]
        old(self).inner.stdin is None ==> r is Err && r->Err_0.spec_kind() == io::ErrorKind::BrokenPipe, // [C16]
//@ end
//@ fn read_stdout
//@ ret r
    requires old(self).wf(),
    ensures
        final(self).wf(), // [C16]
        final(self).same_proc(old(self)) && final(self).exit_status == old(self).exit_status && final(self).inner == old(self).inner, // [C16]
        final(self).stderr_buf == old(self).stderr_buf, // [C16]
        !old(self).supports_stdout ==> r is Err && r->Err_0.spec_kind() == io::ErrorKind::BrokenPipe && final(self).stdout_buf == old(self).stdout_buf, // [C16]
        old(self).supports_stdout ==> r is Ok && takes(old(self).stdout_buf, final(self).stdout_buf, r->Ok_0@), // [C16]
//@ start
    broadcast use lemma_log_take;
//@ end
//@ fn read_stderr
//@ ret r
    requires old(self).wf(),
    ensures
        final(self).wf(), // [C16]
        final(self).same_proc(old(self)) && final(self).exit_status == old(self).exit_status && final(self).inner == old(self).inner, // [C16]
        final(self).stdout_buf == old(self).stdout_buf, // [C16]
        !old(self).supports_stderr ==> r is Err && r->Err_0.spec_kind() == io::ErrorKind::BrokenPipe && final(self).stderr_buf == old(self).stderr_buf, // [C16]
        old(self).supports_stderr ==> r is Ok && takes(old(self).stderr_buf, final(self).stderr_buf, r->Ok_0@), // [C16]
//@ start
    broadcast use lemma_log_take;
//@ end
//@ fn kill
//@ ret r
    requires may_kill(old(self).inner.no()),
    ensures
        killed(old(self).inner.no(), r), // [C11,C16]
        *final(self) == *old(self), // [C16]
//@ end
//@ fn kill_and_wait
//@ ret r
    requires may_kill(self.inner.no()),
    ensures r is Ok ==> killed(self.inner.no(), Ok(())) && exited(self.inner.no(), r->Ok_0.status), // [C11,C16]
//@ end
//@ endimpl
//@ endsrc
//@ unsubst
/// one more read took these bytes
pub open spec fn takes(a: Shared, b: Shared, bytes: Seq<u8>) -> bool {
    &&& b.log() == a.log() + bytes
    &&& b.log().is_prefix_of(appended(a.cell()))
    &&& b.cell() == a.cell() && b.appends() == a.appends()
}
// ---- C16 -----------------------------------------------------------------------
// What the appending end of a buffer handed on is, at every moment, what the task
// took from the process (loop invariants of `spawn`); what the taking end took is
// a prefix of what was handed on (contract of the lock); every read adds exactly
// the bytes it returns (contracts of read_stdout/read_stderr).
pub proof fn theorem_output(child: int, fd: int, handed: Seq<u8>, reads: Seq<Seq<u8>>, log: Seq<u8>)
    requires
        handed.is_prefix_of(written(child, fd)),
        log == all_read(reads),
        log.is_prefix_of(handed),
    ensures
        // a prefix of what the process wrote, whatever the reads were
        all_read(reads).is_prefix_of(written(child, fd)), // [C16]
        // and all of it once the task has seen its end and nothing handed on is left
        handed == written(child, fd) && log.len() == handed.len() ==> all_read(reads) == written(child, fd), // [C16]
{
    if log.len() == handed.len() { assert(log =~= handed); }
}
pub open spec fn all_read(reads: Seq<Seq<u8>>) -> Seq<u8>
    decreases reads.len()
{
    if reads.len() == 0 { Seq::empty() } else { all_read(reads.drop_last()) + reads.last() }
}
/// one more read keeps `log` the concatenation of the reads
pub proof fn theorem_reads(a: Shared, b: Shared, bytes: Seq<u8>, reads: Seq<Seq<u8>>)
    requires takes(a, b, bytes), a.log() == all_read(reads)
    ensures b.log() == all_read(reads.push(bytes)) // [C16]
{
    assert(reads.push(bytes).drop_last() =~= reads);
}
