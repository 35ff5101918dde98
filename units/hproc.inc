// ---- requests about processes ------------------------------------------------------
/// how a process is to be started
pub struct Plan { pub program: Seq<char>, pub args: Seq<String>, pub stdin: bool, pub stdout: bool, pub stderr: bool, pub dir: Option<Comps>, pub dies_with_us: bool }
/// the system started this process so
pub uninterp spec fn started_as(child: int, p: Plan) -> bool;
/// only such processes may be started
pub uninterp spec fn may_start(p: Plan) -> bool;
#[verifier::external_body]
pub struct Stdio { _p: () }
impl Stdio {
    pub uninterp spec fn is_pipe(&self) -> bool;
    #[verifier::external_body]
    pub fn piped() -> (r: Stdio) ensures r.is_pipe() { unimplemented!() }
    #[verifier::external_body]
    pub fn null() -> (r: Stdio) ensures !r.is_pipe() { unimplemented!() }
}
#[verifier::external_body]
pub struct Command { _p: () }
impl Command {
    pub uninterp spec fn plan(&self) -> Plan;
    #[verifier::external_body]
    pub fn new(program: &String) -> (r: Self)
        ensures r.plan() == (Plan { program: program@, args: Seq::empty(), stdin: false, stdout: false, stderr: false, dir: None, dies_with_us: false })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn args(&mut self, a: &Vec<String>) -> (r: &mut Self)
        ensures r.plan() == (Plan { args: old(self).plan().args + a@, ..old(self).plan() }), *final(self) == *final(r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn stdin(&mut self, s: Stdio) -> (r: &mut Self)
        ensures r.plan() == (Plan { stdin: s.is_pipe(), ..old(self).plan() }), *final(self) == *final(r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn stdout(&mut self, s: Stdio) -> (r: &mut Self)
        ensures r.plan() == (Plan { stdout: s.is_pipe(), ..old(self).plan() }), *final(self) == *final(r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn stderr(&mut self, s: Stdio) -> (r: &mut Self)
        ensures r.plan() == (Plan { stderr: s.is_pipe(), ..old(self).plan() }), *final(self) == *final(r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn kill_on_drop(&mut self, b: bool) -> (r: &mut Self)
        ensures r.plan() == (Plan { dies_with_us: b, ..old(self).plan() }), *final(self) == *final(r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn current_dir<P: AsRef<Path>>(&mut self, d: P) -> (r: &mut Self)
        ensures r.plan() == (Plan { dir: Some(d.path_of()), ..old(self).plan() }), *final(self) == *final(r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn spawn(&mut self) -> (r: io::Result<Child>)
        requires may_start(old(self).plan())
        ensures final(self).plan() == old(self).plan(), r is Ok ==> {
            let c = r->Ok_0;
            &&& started_as(c.no(), old(self).plan())
            &&& c.stdin is Some == old(self).plan().stdin && c.stdout is Some == old(self).plan().stdout && c.stderr is Some == old(self).plan().stderr
            &&& c.stdin is Some ==> c.stdin->Some_0.sent() == Seq::<u8>::empty()
            &&& c.stdout is Some ==> c.stdout->Some_0.child() == c.no() && c.stdout->Some_0.fd() == 1 && c.stdout->Some_0.taken() == Seq::<u8>::empty()
            &&& c.stderr is Some ==> c.stderr->Some_0.child() == c.no() && c.stderr->Some_0.fd() == 2 && c.stderr->Some_0.taken() == Seq::<u8>::empty()
        }
    { unimplemented!() }
}
pub open spec fn only_procs(s: ServerState, t: ServerState) -> bool { t.config_same(&s) && t.files_same(&s) }
/// what comes of a request about the process `id`
pub open spec fn on_proc<T>(s: ServerState, t: ServerState, id: u32, r: io::Result<T>) -> bool {
    &&& only_procs(s, t)
    &&& !s.procs@.contains_key(id) ==> r is Err && r->Err_0.spec_kind() == io::ErrorKind::InvalidInput && t.procs@ =~= s.procs@
        && touched(s.proc_ids@, t.proc_ids@, id, s.proc_ttl)
}
/// only that process may differ, and it is the same process
pub open spec fn proc_updated(s: ServerState, t: ServerState, id: u32) -> bool {
    &&& t.procs@.contains_key(id) && t.procs@ =~= s.procs@.insert(id, t.procs@[id])
    &&& t.procs@[id].same_proc(&s.procs@[id])
}
pub mod hproc {
use super::*;
use super::reply::*;
use super::request::*;
verus! {
pub open spec fn is_plan(p: Plan, args: ExecProcArgs) -> bool {
    &&& p.program == args.command@ && p.args =~= args.args@
    &&& p.stdin == args.stdin && p.stdout == args.stdout && p.stderr == args.stderr && p.dies_with_us
    &&& match args.current_dir {
        None => p.dir is None,
        Some(d) => p.dir is Some && resolved(named(d), p.dir),
    }
}
pub open spec fn started_for(no: int, args: ExecProcArgs) -> bool { exists|plan: Plan| #[trigger] started_as(no, plan) && is_plan(plan, args) }
/// a new process, nothing read of it and nothing sent
pub open spec fn fresh(p: LocalProc, args: ExecProcArgs) -> bool {
    &&& p.supports_stdin == args.stdin && p.supports_stdout == args.stdout && p.supports_stderr == args.stderr
    &&& p.inner.stdin is Some == args.stdin && (args.stdin ==> p.inner.stdin->Some_0.sent() == Seq::<u8>::empty())
    &&& p.stdout_buf.log() == Seq::<u8>::empty() && p.stderr_buf.log() == Seq::<u8>::empty()
    &&& p.exit_status is None && p.io_handle is Some
    &&& started_for(p.inner.h.no(), args)
}
pub open spec fn exec_done(s: ServerState, t: ServerState, args: ExecProcArgs, r: io::Result<ProcStartedArgs>) -> bool {
    &&& only_procs(s, t)
    &&& match r {
        Ok(a) => t.procs@.contains_key(a.id) && fresh(t.procs@[a.id], args) && t.procs@ =~= s.procs@.insert(a.id, t.procs@[a.id])
            && touched(s.proc_ids@, t.proc_ids@, a.id, s.proc_ttl),
        Err(_) => t.procs_same(&s),
    }
}
pub open spec fn stdin_done(s: ServerState, t: ServerState, args: WriteProcStdinArgs, r: io::Result<ProcStdinWrittenArgs>) -> bool {
    &&& on_proc(s, t, args.id, r)
    &&& touched(s.proc_ids@, t.proc_ids@, args.id, s.proc_ttl)
    &&& s.procs@.contains_key(args.id) ==> {
        let a = s.procs@[args.id]; let b = t.procs@[args.id];
        &&& proc_updated(s, t, args.id)
        &&& b.exit_status == a.exit_status && b.stdout_buf == a.stdout_buf && b.stderr_buf == a.stderr_buf
        &&& match r {
            Ok(x) => x.id == args.id && a.inner.stdin is Some && b.inner.stdin is Some
                && b.inner.stdin->Some_0.sent() == a.inner.stdin->Some_0.sent() + args.input@ && b.inner.stdin->Some_0.reached(),
            Err(_) => true,
        }
        &&& a.inner.stdin is None ==> r is Err
    }
}
pub open spec fn stdout_done(s: ServerState, t: ServerState, args: ReadProcStdoutArgs, r: io::Result<ProcStdoutContentsArgs>) -> bool {
    &&& on_proc(s, t, args.id, r)
    &&& touched(s.proc_ids@, t.proc_ids@, args.id, s.proc_ttl)
    &&& s.procs@.contains_key(args.id) ==> {
        let a = s.procs@[args.id]; let b = t.procs@[args.id];
        &&& proc_updated(s, t, args.id)
        &&& b.exit_status == a.exit_status && b.inner == a.inner && b.stderr_buf == a.stderr_buf
        &&& a.supports_stdout ==> r is Ok && takes(a.stdout_buf, b.stdout_buf, r->Ok_0.output@) && r->Ok_0.id == args.id
        &&& !a.supports_stdout ==> r is Err && b.stdout_buf == a.stdout_buf
    }
}
pub open spec fn stderr_done(s: ServerState, t: ServerState, args: ReadProcStderrArgs, r: io::Result<ProcStderrContentsArgs>) -> bool {
    &&& on_proc(s, t, args.id, r)
    &&& touched(s.proc_ids@, t.proc_ids@, args.id, s.proc_ttl)
    &&& s.procs@.contains_key(args.id) ==> {
        let a = s.procs@[args.id]; let b = t.procs@[args.id];
        &&& proc_updated(s, t, args.id)
        &&& b.exit_status == a.exit_status && b.inner == a.inner && b.stdout_buf == a.stdout_buf
        &&& a.supports_stderr ==> r is Ok && takes(a.stderr_buf, b.stderr_buf, r->Ok_0.output@) && r->Ok_0.id == args.id
        &&& !a.supports_stderr ==> r is Err && b.stderr_buf == a.stderr_buf
    }
}
pub open spec fn status_done(s: ServerState, t: ServerState, args: ReadProcStatusArgs, r: io::Result<ProcStatusArgs>) -> bool {
    &&& on_proc(s, t, args.id, r)
    &&& s.procs@.contains_key(args.id) ==> {
        let a = s.procs@[args.id]; let b = t.procs@[args.id];
        &&& proc_updated(s, t, args.id)
        &&& b.inner == a.inner && b.stdout_buf == a.stdout_buf && b.stderr_buf == a.stderr_buf
        &&& r is Ok && r->Ok_0.id == args.id
        &&& a.exit_status is Some ==> b.exit_status == a.exit_status
        &&& r->Ok_0.is_alive == (b.exit_status is None)
        &&& r->Ok_0.is_alive ==> was_running(a.inner.no()) && r->Ok_0.exit_code is None
        &&& !r->Ok_0.is_alive ==> true_status(a.inner.no(), args.id, b.exit_status->Some_0) && r->Ok_0.exit_code == b.exit_status->Some_0.exit_code
        // a process known to be dead lives on for the other lifetime
        &&& touched(s.proc_ids@, t.proc_ids@, args.id, if r->Ok_0.is_alive { s.proc_ttl } else { s.dead_proc_ttl })
    }
}
pub open spec fn kill_done(s: ServerState, t: ServerState, args: KillProcArgs, r: io::Result<ProcKilledArgs>) -> bool {
    &&& on_proc(s, t, args.id, r)
    &&& s.procs@.contains_key(args.id) ==> {
        let no = s.procs@[args.id].inner.no();
        &&& t.procs@ =~= s.procs@.remove(args.id)
        &&& match r {
            Ok(a) => a.id == args.id && killed(no, Ok(())) && (exists|w: process::ExitStatus| #[trigger] exited(no, w) && a.exit_code == w.exit_code())
                && t.proc_ids@ =~= s.proc_ids@.remove(args.id),
            Err(_) => touched(s.proc_ids@, t.proc_ids@, args.id, s.proc_ttl),
        }
    }
}
//@ presubst .get_mut(&args.id) => .at_mut(&args.id)
//@ src src/core/server/action/handler/proc.rs
//@ fn exec_proc
//@ ret r
    requires
        old(state).wf(),
        forall|p: Plan| is_plan(p, *args) ==> #[trigger] may_start(p),
    ensures
        final(state).wf(), // [C12,C16]
        exec_done(*old(state), *final(state), *args, r), // [C11,C12,C16]
//@ start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
//@ closure 0 (__r: Stdio)
    ensures __r.is_pipe() == yes
//@ end
//@ fn write_proc_stdin
//@ ret r
    requires old(state).wf(),
    ensures
        final(state).wf(), // [C12,C16]
        stdin_done(*old(state), *final(state), *args, r), // [C11,C12,C16]
//@ start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
//@ end
//@ fn read_proc_stdout
//@ ret r
    requires old(state).wf(),
    ensures
        final(state).wf(), // [C12,C16]
        stdout_done(*old(state), *final(state), *args, r), // [C11,C12,C16]
//@ start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
//@ end
//@ fn read_proc_stderr
//@ ret r
    requires old(state).wf(),
    ensures
        final(state).wf(), // [C12,C16]
        stderr_done(*old(state), *final(state), *args, r), // [C11,C12,C16]
//@ start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
//@ end
//@ fn read_proc_status
//@ ret r
    requires old(state).wf(),
    ensures
        final(state).wf(), // [C12,C16]
        status_done(*old(state), *final(state), *args, r), // [C11,C12,C16]
//@ start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
//@ end
//@ fn kill_proc
//@ ret r
    requires
        old(state).wf(),
        old(state).procs@.contains_key(args.id) ==> may_kill(old(state).procs@[args.id].inner.no()),
    ensures
        final(state).wf(), // [C12,C16]
        kill_done(*old(state), *final(state), *args, r), // [C11,C12,C16]
//@ start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
//@ end
//@ endsrc
}
}
