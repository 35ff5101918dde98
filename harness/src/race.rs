//! Interleavings of requests that a real server handles at once. A gate is a request
//! that keeps the server's files (or processes) locked until it is let go: opening a
//! FIFO nobody has open for writing, or writing more than a pipe holds to a process that
//! does not read yet. What is sent together with it queues up behind it in a known order,
//! so the steps of two requests fall between each other the same way on every run.
use crate::ensure;
use crate::net::*;
use crate::srv::{answer_to, ask, has_open, knows, output, sh, start, status, HOUR, SOON};
use crate::util::{Ctx, Scratch};
use over_there::core::reply::{self, *};
use over_there::core::request::{self, *};
use over_there::core::transport::auth::NoopAuthenticator;
use over_there::core::transport::crypto::NoopBicrypter;
use over_there::core::{ListeningServer, Reply, Request, ServerBuilder, Transport};
use std::net::SocketAddr;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}

type Calls = Arc<Mutex<Vec<Vec<u8>>>>;

/// a server whose handler waits for as many ms as the first byte says
async fn server(file_ttl: Duration, proc_ttl: Duration, cleanup: Duration, calls: Calls) -> ListeningServer {
    let any: SocketAddr = "127.0.0.1:0".parse().unwrap();
    let mut b = ServerBuilder::default();
    b.authenticator(NoopAuthenticator)
        .bicrypter(NoopBicrypter)
        .transport(Transport::Udp(vec![any]))
        .cleanup_interval(cleanup)
        .file_ttl(file_ttl)
        .proc_ttl(proc_ttl)
        .dead_proc_ttl(HOUR)
        .custom_handler(From::from(move |a: request::CustomArgs| {
            let calls = calls.clone();
            async move {
                tokio::time::delay_for(ms(a.data[0] as u64)).await;
                calls.lock().unwrap().push(a.data.clone());
                Ok(reply::CustomArgs { data: a.data })
            }
        }));
    b.build().unwrap().listen().await.unwrap()
}

/// done in that turn of those of one request: the server has one call of its handler at a
/// time, in the order they came up, so that everybody's first is done before somebody's second
fn after(turn: usize, q: Request) -> Request {
    let mut ops = vec![Request::Custom(request::CustomArgs { data: vec![8] }); turn];
    ops.push(q);
    Request::Sequence(request::SequenceArgs { operations: ops.into_iter().map(|q| q.into_lazily_transformed(vec![])).collect() })
}
fn batch(v: Vec<Request>) -> Request {
    Request::Batch(request::BatchArgs { operations: v })
}

struct Gate {
    path: PathBuf,
    held: Option<std::fs::File>,
}
impl Gate {
    fn new(dir: &Path, name: &str) -> Gate {
        let path = dir.join(name);
        assert!(std::process::Command::new("mkfifo").arg(&path).status().unwrap().success());
        Gate { path, held: None }
    }
    fn request(&self) -> Request {
        opened(&self.path, false, true)
    }
    /// lets whoever waits to open it go on
    fn release(&mut self) {
        self.held = Some(std::fs::OpenOptions::new().read(true).write(true).open(&self.path).unwrap());
    }
}
impl Drop for Gate {
    fn drop(&mut self) {
        if self.held.is_none() && self.path.exists() {
            self.release();
        }
        // who has not come to open it yet must not wait either
        let _ = std::fs::remove_file(&self.path);
    }
}

fn opened(p: &Path, write: bool, read: bool) -> Request {
    Request::OpenFile(OpenFileArgs { path: p.to_str().unwrap().into(), create_if_missing: false, write_access: write, read_access: read })
}

/// what the operations (with the ms after which they come) are answered with when they all
/// queue up behind the gate
async fn behind(p: &mut Peer, g: &mut Gate, ops: Vec<(usize, Request)>, hold: Duration, to: SocketAddr) -> Result<(Reply, Vec<Reply>), String> {
    let mut v = vec![g.request()];
    let n = ops.len();
    v.extend(ops.into_iter().map(|(t, q)| after(t, q)));
    let m = p.request(batch(v), to).await;
    tokio::time::delay_for(hold).await;
    g.release();
    let (r, _) = p.next(SOON).await.ok_or_else(|| format!("no answer within {:?}", SOON))?;
    match answer_to(&m, r)? {
        Reply::Batch(a) if a.results.len() == n + 1 => {
            let mut rs = a.results.into_iter();
            let first = rs.next().unwrap();
            let mut v = vec![];
            for r in rs {
                match r {
                    Reply::Sequence(mut s) if s.results.len() > 1 => v.push(s.results.pop().unwrap()),
                    r => return Err(format!("part of the answer is {:?}", r)),
                }
            }
            Ok((first, v))
        }
        r => Err(format!("it was answered with {:?}", r)),
    }
}
async fn open(p: &mut Peer, path: &Path, to: SocketAddr) -> Result<(u32, u32), String> {
    handle(&ask(p, opened(path, true, true), to).await?)
}
fn handle(r: &Reply) -> Result<(u32, u32), String> {
    match r {
        Reply::FileOpened(x) => Ok((x.id, x.sig)),
        r => Err(format!("opening was answered with {:?}", r)),
    }
}
fn ok(r: &Reply) -> bool {
    !matches!(r, Reply::Error(_))
}
fn s(p: &Path) -> String {
    p.to_str().unwrap().into()
}

/// to be sent to a process that does not read yet: it waits until that reads
async fn fill(p: &mut Peer, id: u32, to: SocketAddr) -> Result<Request, String> {
    for _ in 0..7 {
        let r = ask(p, Request::WriteProcStdin(WriteProcStdinArgs { id, input: vec![1; 8192] }), to).await?;
        ensure!(ok(&r), "writing to a process was answered with {:?}", r);
    }
    Ok(Request::WriteProcStdin(WriteProcStdinArgs { id, input: vec![1; 8300] }))
}

/// one server for a property's interleavings
struct Stage {
    top: Scratch,
    srv: ListeningServer,
    p: Peer,
    n: u32,
}
impl Stage {
    async fn new() -> Stage {
        Stage { top: Scratch::new(), srv: server(HOUR, HOUR, HOUR, Calls::default()).await, p: Peer::new(), n: 0 }
    }
    fn dir(&mut self) -> PathBuf {
        self.n += 1;
        let d = self.top.0.join(format!("d{}", self.n));
        std::fs::create_dir(&d).unwrap();
        d
    }
    fn gate(&mut self) -> Gate {
        self.n += 1;
        Gate::new(&self.top.0, &format!("g{}", self.n))
    }
    async fn behind(&mut self, ops: Vec<(usize, Request)>) -> Result<Vec<Reply>, String> {
        let to = self.srv.addr();
        let mut g = self.gate();
        let (first, rs) = behind(&mut self.p, &mut g, ops, ms(90), to).await?;
        let (id, sig) = handle(&first)?;
        ask(&mut self.p, Request::CloseFile(CloseFileArgs { id, sig }), to).await?;
        Ok(rs)
    }
}

/// of two changes made with the same signature one is refused, and nothing of it is seen
pub async fn c08(ctx: &Ctx) -> Result<(), String> {
    let mut st = Stage::new().await;
    let to = st.srv.addr();
    for first in 0..4 {
        for second in 0..4 {
            let d = st.dir();
            let f = d.join("f");
            std::fs::write(&f, b"old").unwrap();
            let (id, sig) = open(&mut st.p, &f, to).await?;
            let op = |k: usize, name: &str| match k {
                0 => Request::WriteFile(WriteFileArgs { id, sig, contents: name.into() }),
                1 => Request::RenameFile(RenameFileArgs { id, sig, to: s(&d.join(name)) }),
                2 => Request::RemoveFile(RemoveFileArgs { id, sig }),
                _ => Request::ReadFile(ReadFileArgs { id, sig }),
            };
            let (a, b) = (op(first, "one"), op(second, "two"));
            let what = format!("{:?} and {:?} at once", a, b);
            ctx.case(what.clone());
            let rs = st.behind(vec![(1, a), (2, b)]).await?;
            let mut want = vec![];
            let mut left: Option<(&str, Vec<u8>)> = Some(("f", b"old".to_vec()));
            for (r, k, name) in vec![(&rs[0], first, "one"), (&rs[1], second, "two")] {
                if k == 3 {
                    if let Reply::FileContents(x) = r {
                        // either before or after the other
                        ensure!(x.contents == b"old", "{}: read {:?} with the signature of what was there before", what, x.contents);
                    }
                    continue;
                }
                match (k, r) {
                    (0, Reply::FileWritten(_)) => left = Some(("f", name.into())),
                    (1, Reply::FileRenamed(_)) => left = Some((name, b"old".to_vec())),
                    (2, Reply::FileRemoved(_)) => left = None,
                    (_, Reply::Error(_)) => continue,
                    _ => return Err(format!("{} were answered with {:?}", what, rs)),
                }
                want.push(name);
            }
            let changes = (first < 3) as usize + (second < 3) as usize;
            ensure!(want.len() == changes.min(1), "{}: {:?} of them were done: {:?}", what, want.len(), rs);
            let have: Vec<(String, Vec<u8>)> = std::fs::read_dir(&d)
                .unwrap()
                .map(|e| e.unwrap())
                .map(|e| (e.file_name().to_str().unwrap().into(), std::fs::read(e.path()).unwrap()))
                .collect();
            let expect: Vec<(String, Vec<u8>)> = left.into_iter().map(|(n, c)| (n.to_string(), c)).collect();
            ensure!(have == expect, "{}, answered with {:?}, left {:?}", what, rs, have);
        }
    }
    st.srv.shutdown();
    Ok(())
}

/// what was opened is not moved or removed at the same time by its path
pub async fn c09(ctx: &Ctx) -> Result<(), String> {
    let mut st = Stage::new().await;
    let to = st.srv.addr();
    for order in 0..2 {
        for k in 0..8 {
            // whether it is open before, or opened at the same time
            let top = st.dir();
            let (d, e) = (top.join("d"), top.join("e"));
            std::fs::create_dir(&d).unwrap();
            std::fs::create_dir(&e).unwrap();
            std::fs::write(d.join("f"), b"f").unwrap();
            std::fs::write(top.join("other"), b"o").unwrap();
            let f = d.join("f");
            let op = match k {
                0 => Request::RenameDir(RenameDirArgs { from: s(&d), to: s(&top.join("n")) }),
                1 => Request::RemoveDir(RemoveDirArgs { path: s(&d), non_empty: true }),
                2 => Request::RenameUnopenedFile(RenameUnopenedFileArgs { from: s(&f), to: s(&top.join("n")) }),
                3 => Request::RemoveUnopenedFile(RemoveUnopenedFileArgs { path: s(&f) }),
                4 => Request::RenameDir(RenameDirArgs { from: s(&top.join("d/../d")), to: s(&top.join("n")) }),
                5 => Request::RemoveUnopenedFile(RemoveUnopenedFileArgs { path: s(&top.join("e/../d/f")) }),
                6 => Request::RenameUnopenedFile(RenameUnopenedFileArgs { from: s(&f), to: s(&e.join("f")) }),
                _ => Request::RemoveDir(RemoveDirArgs { path: s(&e.join("../d")), non_empty: true }),
            };
            let what = format!("{:?} {} opening {:?}", op, if order == 0 { "before" } else { "after" }, f);
            ctx.case(what.clone());
            let ops = if order == 0 { vec![(1, op), (2, opened(&f, true, true))] } else { vec![(2, op), (1, opened(&f, true, true))] };
            let rs = st.behind(ops).await?;
            ensure!(!(ok(&rs[0]) && ok(&rs[1])), "{}: both were done: {:?}", what, rs);
            ensure!(ok(&rs[0]) || ok(&rs[1]), "{}: neither was done: {:?}", what, rs);
            if ok(&rs[1]) {
                let (id, sig) = handle(&rs[1])?;
                ensure!(std::fs::read(&f).ok() == Some(b"f".to_vec()), "{}: the open file is not there any more: {:?}", what, rs);
                let r = ask(&mut st.p, Request::WriteFile(WriteFileArgs { id, sig, contents: b"more".to_vec() }), to).await?;
                ensure!(ok(&r) && std::fs::read(&f).ok() == Some(b"more".to_vec()), "{}: writing to the open file was answered with {:?}", what, r);
            } else {
                ensure!(!f.exists(), "{}: it was answered as done and {:?} is still there", what, f);
            }
        }
    }
    st.srv.shutdown();
    Ok(())
}

/// one file has one handle, and a handle is closed once
pub async fn c10(ctx: &Ctx) -> Result<(), String> {
    let mut st = Stage::new().await;
    let to = st.srv.addr();
    let d = st.dir();
    let f = d.join("f");
    for round in 0..3 {
        std::fs::write(&f, b"f").unwrap();
        std::os::unix::fs::symlink(&f, d.join(format!("l{}", round))).unwrap();
        ctx.case(format!("round {}: three opens of one file at once", round));
        let (a, b) = [((false, true), (true, true)), ((true, true), (true, true)), ((true, false), (false, true))][round];
        let rs = st.behind(vec![(1, opened(&f, a.0, a.1)), (2, opened(&d.join("../").join(d.file_name().unwrap()).join("f"), b.0, b.1)), (3, opened(&f, true, true))]).await?;
        let hs = rs.iter().map(handle).collect::<Result<Vec<_>, _>>()?;
        ensure!(hs[0] == hs[1] && hs[1] == hs[2], "one file was given the handles {:?}", hs);
        let (id, sig) = hs[0];
        let q = Request::ReadFile(ReadFileArgs { id, sig });
        let r = ask(&mut st.p, q.clone(), to).await?;
        ensure!(r == Reply::FileContents(FileContentsArgs { id, contents: b"f".to_vec() }), "reading was answered with {:?}", r);
        let r = ask(&mut st.p, Request::WriteFile(WriteFileArgs { id, sig, contents: b"g".to_vec() }), to).await?;
        let sig = match r {
            Reply::FileWritten(x) => x.sig,
            r => return Err(format!("writing was answered with {:?}", r)),
        };
        ctx.case(format!("round {}: closed three times at once", round));
        let close = || Request::CloseFile(CloseFileArgs { id, sig });
        let rs = st.behind(vec![(1, close()), (2, close()), (3, close())]).await?;
        ensure!(rs.iter().filter(|r| ok(r)).count() == 1, "closing it three times was answered with {:?}", rs);
        let r = ask(&mut st.p, q, to).await?;
        ensure!(!ok(&r), "reading a closed file was answered with {:?}", r);
        // closed and opened
        let (id, sig) = open(&mut st.p, &f, to).await?;
        ctx.case(format!("round {}: closed and opened at once", round));
        let ops = vec![(1, Request::CloseFile(CloseFileArgs { id, sig })), (2, opened(&f, true, true))];
        let rs = st.behind(if round == 1 { ops.into_iter().map(|(t, q)| (3 - t, q)).collect() } else { ops }).await?;
        ensure!(ok(&rs[0]), "closing it was answered with {:?}", rs[0]);
        let (id2, sig2) = handle(&rs[1])?;
        let r = ask(&mut st.p, Request::ReadFile(ReadFileArgs { id: id2, sig: sig2 }), to).await?;
        ensure!(ok(&r) == ((id2, sig2) != (id, sig)), "it was closed as {:?} and opened as {:?}, and reading it was answered with {:?}", (id, sig), (id2, sig2), r);
    }
    st.srv.shutdown();
    Ok(())
}

/// until the server evicts a file opened for that: a pass of the cleanup has just been
async fn pass(p: &mut Peer, path: &Path, to: SocketAddr) -> Result<(), String> {
    std::fs::write(path, b"").unwrap();
    open(p, path, to).await?;
    let t = Instant::now();
    while has_open(path) {
        ensure!(t.elapsed() < SOON, "nothing was evicted within {:?}", SOON);
        tokio::time::delay_for(ms(3)).await;
    }
    Ok(())
}

/// what is used while its eviction is due, or waits for its turn, stays
pub async fn c11(ctx: &Ctx) -> Result<(), String> {
    let top = Scratch::new();
    // a pass starts, and waits, when what is asked for already waits as well
    let (ttl, interval) = (ms(250), ms(700));
    let srv = server(ttl, ttl, interval, Calls::default()).await;
    let to = srv.addr();
    let mut p = Peer::new();
    let f = top.0.join("f");
    std::fs::write(&f, b"f").unwrap();
    pass(&mut p, &top.0.join("y1"), to).await?;
    ctx.case("a file opened again while its eviction waits for its turn".into());
    let (id, sig) = open(&mut p, &f, to).await?;
    let mut g = Gate::new(&top.0, "g");
    let (_, rs) = behind(&mut p, &mut g, vec![(1, opened(&f, true, true))], interval + ms(150), to).await?;
    let answered = Instant::now();
    let h = handle(&rs[0])?;
    tokio::time::delay_for(ms(20)).await;
    let r = ask(&mut p, Request::ReadFile(ReadFileArgs { id: h.0, sig: h.1 }), to).await?;
    ensure!(ok(&r) || answered.elapsed() >= ttl, "a file opened (as {:?}, before as {:?}) was gone {:?} later, though its lifetime is {:?}: {:?}", h, (id, sig), answered.elapsed(), ttl, r);
    drop(g);

    let flag = top.0.join("flag");
    pass(&mut p, &top.0.join("y2"), to).await?;
    ctx.case("a process found to have exited while its eviction waits for its turn".into());
    let block = start(&mut p, sh(&format!("while [ ! -e {:?} ]; do sleep 0.01; done; cat > /dev/null", flag), true, false, false), to).await?;
    let gate = fill(&mut p, block, to).await?;
    let dead = start(&mut p, sh("exit 4", false, false, false), to).await?;
    tokio::time::delay_for(ms(30)).await;
    let m = p.request(batch(vec![gate, after(1, Request::ReadProcStatus(ReadProcStatusArgs { id: dead }))]), to).await;
    tokio::time::delay_for(interval + ms(100)).await;
    std::fs::write(&flag, b"").unwrap();
    let (r, _) = p.next(SOON).await.ok_or_else(|| format!("no answer within {:?}", SOON))?;
    // the process that holds up the others can be gone by now
    let seen = match answer_to(&m, r)? {
        Reply::Batch(a) if a.results.len() == 2 => match &a.results[1] {
            Reply::Sequence(s) if s.results.len() > 1 => match s.results.last().unwrap() {
                Reply::ProcStatus(x) => !x.is_alive,
                Reply::Error(_) => false,
                r => return Err(format!("the status was answered with {:?}", r)),
            },
            r => return Err(format!("the status was answered with {:?}", r)),
        },
        r => return Err(format!("it was answered with {:?}", r)),
    };
    tokio::time::delay_for(ms(50)).await;
    let known = knows(&mut p, dead, to).await?;
    ensure!(!seen || known, "a process was forgotten right after it was found to have exited, though the lifetime of those is an hour");
    srv.shutdown();
    Ok(())
}

/// replies in the order of the operations; a sequence goes on only when the one before is done
pub async fn c13(ctx: &Ctx) -> Result<(), String> {
    let top = Scratch::new();
    let calls = Calls::default();
    let srv = server(HOUR, HOUR, HOUR, calls.clone()).await;
    let to = srv.addr();
    let mut p = Peer::new();
    let custom = |t: u8, k: u8| Request::Custom(request::CustomArgs { data: vec![t, k] });
    ctx.case("a batch whose operations finish in the reverse order".into());
    let mut g = Gate::new(&top.0, "g");
    let m = p.request(batch(vec![g.request(), custom(60, 1), custom(40, 2), batch(vec![custom(30, 3), custom(20, 4)]), Request::Version, custom(0, 5), Request::Heartbeat]), to).await;
    tokio::time::delay_for(ms(170)).await;
    let early = p.next(ms(1)).await;
    ensure!(early.is_none(), "an answer came before everything was done: {:?}", early);
    g.release();
    let (r, _) = p.next(SOON).await.ok_or_else(|| format!("no answer within {:?}", SOON))?;
    let told = |t: u8, k: u8| Reply::Custom(reply::CustomArgs { data: vec![t, k] });
    match answer_to(&m, r)? {
        Reply::Batch(a) if a.results.len() == 7 => {
            let w = &a.results;
            let inner = Reply::Batch(reply::BatchArgs { results: vec![told(30, 3), told(20, 4)] });
            let right = matches!(w[0], Reply::FileOpened(_)) && w[1] == told(60, 1) && w[2] == told(40, 2) && w[3] == inner && matches!(w[4], Reply::Version(_)) && w[5] == told(0, 5) && w[6] == Reply::Heartbeat;
            ensure!(right, "the replies are {:?}", w);
        }
        r => return Err(format!("it was answered with {:?}", r)),
    }
    ctx.case("a sequence whose first operation takes long".into());
    for nested in 0..2 {
        calls.lock().unwrap().clear();
        let mut g = Gate::new(&top.0, &format!("h{}", nested));
        let seq = |v: Vec<Request>| Request::Sequence(request::SequenceArgs { operations: v.into_iter().map(|q| q.into_lazily_transformed(vec![])).collect() });
        let q = if nested == 0 { seq(vec![g.request(), custom(20, 1), custom(0, 2)]) } else { seq(vec![batch(vec![g.request(), custom(0, 0)]), batch(vec![custom(0, 3)]), custom(0, 2)]) };
        let m = p.request(q, to).await;
        tokio::time::delay_for(ms(80)).await;
        let before = calls.lock().unwrap().clone();
        ensure!(before.iter().all(|d| nested == 1 && d[..] == [0, 0]), "while the first operation of a sequence was not done the handler was called with {:?}", before);
        g.release();
        let (r, _) = p.next(SOON).await.ok_or_else(|| format!("no answer within {:?}", SOON))?;
        match answer_to(&m, r)? {
            Reply::Sequence(a) if a.results.len() == 3 && a.results[2] == told(0, 2) => {}
            r => return Err(format!("it was answered with {:?}", r)),
        }
        let got = calls.lock().unwrap().clone();
        ensure!(got == if nested == 0 { vec![vec![20, 1], vec![0, 2]] } else { vec![vec![0, 0], vec![0, 3], vec![0, 2]] }, "the handler was called with {:?}", got);
    }
    srv.shutdown();
    Ok(())
}

/// what one process wrote goes to the readers once, and what writers send arrives whole
pub async fn c16(ctx: &Ctx) -> Result<(), String> {
    let top = Scratch::new();
    let srv = server(HOUR, HOUR, HOUR, Calls::default()).await;
    let to = srv.addr();
    let mut p = Peer::new();
    for errs in 0..2 {
        let flag = top.0.join(format!("flag{}", errs));
        let script = format!("head -c 400 /dev/zero | tr '\\0' 'x' | sed 's/x/abcdefgh/g' >&{}; printf end >&{}", errs + 1, errs + 1);
        ctx.case(format!("three readers at once of what {:?} wrote", script));
        let want: Vec<u8> = b"abcdefgh".iter().cycle().take(3200).chain(b"end").copied().collect();
        let id = start(&mut p, sh(&script, false, true, true), to).await?;
        let cat = start(&mut p, sh("cat", true, true, false), to).await?;
        let block = start(&mut p, sh(&format!("while [ ! -e {:?} ]; do sleep 0.01; done; cat > /dev/null", flag), true, false, false), to).await?;
        let t = Instant::now();
        while status(&mut p, id, to).await?.0 {
            ensure!(t.elapsed() < SOON, "a process that is gone is still reported as running");
        }
        let gate = fill(&mut p, block, to).await?;
        let read = || if errs == 0 { Request::ReadProcStdout(ReadProcStdoutArgs { id }) } else { Request::ReadProcStderr(ReadProcStderrArgs { id }) };
        let write = |b: u8| Request::WriteProcStdin(WriteProcStdinArgs { id: cat, input: vec![b; 1000] });
        let m = p.request(batch(vec![gate, after(1, read()), after(2, read()), after(3, read()), after(1, write(1)), after(2, write(2))]), to).await;
        tokio::time::delay_for(ms(110)).await;
        std::fs::write(&flag, b"").unwrap();
        let (r, _) = p.next(SOON).await.ok_or_else(|| format!("no answer within {:?}", SOON))?;
        let mut pieces: Vec<Vec<u8>> = vec![];
        match answer_to(&m, r)? {
            Reply::Batch(a) if a.results.len() == 6 => {
                for r in &a.results[1..] {
                    match r {
                        Reply::Sequence(s) if s.results.len() > 1 => match s.results.last().unwrap() {
                            Reply::ProcStdoutContents(x) => pieces.push(x.output.clone()),
                            Reply::ProcStderrContents(x) => pieces.push(x.output.clone()),
                            Reply::ProcStdinWritten(x) if x.id == cat => {}
                            r => return Err(format!("part of the answer is {:?}", r)),
                        },
                        r => return Err(format!("part of the answer is {:?}", r)),
                    }
                }
            }
            r => return Err(format!("it was answered with {:?}", r)),
        }
        let mut rest: Vec<u8> = vec![];
        let t = Instant::now();
        while pieces.iter().map(|p| p.len()).sum::<usize>() + rest.len() < want.len() {
            rest.extend(output(&mut p, id, to, errs == 1).await?);
            ensure!(t.elapsed() < SOON, "of {} bytes {:?} arrived", want.len(), (pieces.iter().map(|p| p.len()).collect::<Vec<_>>(), rest.len()));
        }
        let orders = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
        let whole = |o: &[usize; 3]| {
            let mut v: Vec<u8> = vec![];
            for k in o {
                v.extend(&pieces[*k]);
            }
            v.extend(&rest);
            v
        };
        ensure!(pieces.len() == 3 && orders.iter().any(|o| whole(o) == want), "readers got {:?} and then {} bytes, which do not make up the {} bytes written", pieces.iter().map(|p| p.len()).collect::<Vec<_>>(), rest.len(), want.len());
        let mut got = vec![];
        while got.len() < 2000 {
            got.extend(output(&mut p, cat, to, false).await?);
            ensure!(t.elapsed() < SOON, "of 2000 bytes {} came back", got.len());
        }
        let (a, b) = (vec![1u8; 1000], vec![2u8; 1000]);
        ensure!(got == [&a[..], &b[..]].concat() || got == [&b[..], &a[..]].concat(), "what two wrote at once arrived mixed");
        for id in vec![cat, block] {
            let _ = ask(&mut p, Request::KillProc(KillProcArgs { id }), to).await?;
        }
    }
    srv.shutdown();
    Ok(())
}

