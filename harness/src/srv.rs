//! C11, C12, C13, C16: a real server over UDP loopback.
use crate::ensure;
use crate::net::*;
use crate::util::{Ctx, Scratch};
use over_there::core::reply::{self, *};
use over_there::core::request::{self, *};
use over_there::core::transport::auth::NoopAuthenticator;
use over_there::core::transport::crypto::NoopBicrypter;
use over_there::core::{Content, ListeningServer, Msg, Reply, ReplyError, Request, ServerBuilder, Transport};
use std::collections::{BTreeMap, HashMap};
use std::net::SocketAddr;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub(crate) const SOON: Duration = Duration::from_secs(20);
pub(crate) const HOUR: Duration = Duration::from_secs(3600);

type Log = Arc<Mutex<Vec<Vec<u8>>>>;

#[derive(Clone)]
struct Setup {
    file_ttl: Duration,
    proc_ttl: Duration,
    dead_ttl: Duration,
    cleanup: Duration,
    handler: Option<Log>,
}

/// what the handler of the tests does: notes the data and sends it back reversed;
/// data that starts with `!` is an error
async fn server(s: Setup) -> ListeningServer {
    let any: SocketAddr = "127.0.0.1:0".parse().unwrap();
    let mut b = ServerBuilder::default();
    b.authenticator(NoopAuthenticator)
        .bicrypter(NoopBicrypter)
        .transport(Transport::Udp(vec![any]))
        .cleanup_interval(s.cleanup)
        .file_ttl(s.file_ttl)
        .proc_ttl(s.proc_ttl)
        .dead_proc_ttl(s.dead_ttl);
    if let Some(log) = s.handler {
        b.custom_handler(From::from(move |a: request::CustomArgs| {
            let log = log.clone();
            async move {
                log.lock().unwrap().push(a.data.clone());
                if a.data.first() == Some(&b'!') {
                    Err(format!("refused {:?}", a.data).into())
                } else {
                    let mut d = a.data;
                    d.reverse();
                    Ok(reply::CustomArgs { data: d })
                }
            }
        }));
    }
    let s = b.build().unwrap();
    s.listen().await.unwrap()
}

fn quiet(handler: Option<Log>) -> Setup {
    Setup { file_ttl: HOUR, proc_ttl: HOUR, dead_ttl: HOUR, cleanup: HOUR, handler }
}

/// asks, and takes what comes next for the answer
pub(crate) async fn ask(p: &mut Peer, q: Request, to: SocketAddr) -> Result<Reply, String> {
    let m = p.request(q.clone(), to).await;
    let (r, from) = p.next(SOON).await.ok_or_else(|| format!("{:?} got no answer within {:?}", q, SOON))?;
    ensure!(from == to, "the answer to {:?} came from {}", q, from);
    answer_to(&m, r)
}

pub(crate) fn answer_to(m: &Msg, r: Msg) -> Result<Reply, String> {
    ensure!(r.parent_header.as_ref() == Some(&m.header), "the answer to {:?} was {:?}: not addressed to it", m, r);
    match r.content {
        Content::Reply(x) => Ok(x),
        x => Err(format!("{:?} was answered with {:?}", m, x)),
    }
}

fn err(r: &Reply) -> bool {
    matches!(r, Reply::Error(_))
}

type Tree = BTreeMap<PathBuf, Option<Vec<u8>>>;
fn snap(root: &Path) -> Tree {
    fn go(root: &Path, at: &Path, t: &mut Tree) {
        for e in std::fs::read_dir(at).unwrap() {
            let p = e.unwrap().path();
            let r = p.strip_prefix(root).unwrap().to_path_buf();
            if let Ok(to) = std::fs::read_link(&p) {
                t.insert(r, Some(to.to_str().unwrap().into()));
            } else if p.is_dir() {
                t.insert(r, None);
                go(root, &p, t);
            } else {
                t.insert(r, Some(std::fs::read(&p).unwrap()));
            }
        }
    }
    let mut t = Tree::new();
    go(root, root, &mut t);
    t
}

struct Open {
    id: u32,
    sig: u32,
    path: PathBuf,
    read: bool,
    write: bool,
}

/// a request, and what it amounts to when done with std on the mirror
struct World {
    root: PathBuf,
    mirror: PathBuf,
    open: Vec<Open>,
    fresh: u32,
}

fn io_err(r: &Reply) -> Option<String> {
    match r {
        Reply::Error(ReplyError::Io(x)) => Some(x.os_code.map(|c| format!("os error {}", c)).unwrap_or(format!("{:?}", x.error_kind))),
        _ => None,
    }
}

impl World {
    fn s(&self, rel: &str) -> String {
        self.root.join(rel).to_str().unwrap().to_string()
    }
    fn busy(&self, rel: &str) -> bool {
        self.open.iter().any(|o| o.path == Path::new(rel))
    }
    fn busy_below(&self, rel: &str) -> bool {
        self.open.iter().any(|o| o.path.starts_with(rel))
    }
    /// the handle, if it is right, or the reply that says it is not
    fn known(&self, id: u32, sig: u32) -> Result<usize, Box<dyn Fn(&Reply) -> bool>> {
        match self.open.iter().position(|o| o.id == id) {
            None => Err(Box::new(|r| io_err(r).as_deref() == Some("InvalidInput"))),
            Some(k) if self.open[k].sig != sig => {
                let cur = self.open[k].sig;
                Err(Box::new(move |r| *r == Reply::Error(ReplyError::FileSigChanged(FileSigChangedArgs { id, sig: cur }))))
            }
            Some(k) => Ok(k),
        }
    }
    /// checks the reply and brings mirror and model up to date
    fn judge(&mut self, q: &Request, r: &Reply) -> Result<(), String> {
        let bad = |w: &str| Err(format!("{:?} was answered with {:?}: {}", q, r, w));
        let rel = |w: &World, s: &str| Path::new(s).strip_prefix(&w.root).unwrap().to_str().unwrap().to_string();
        macro_rules! done {
            ($e:expr, $want:expr) => {{
                let e: std::io::Result<_> = $e;
                match e {
                    Ok(_) => ensure!(*r == $want, "{:?} was answered with {:?}, not {:?}", q, r, $want),
                    Err(e) => ensure!(io_err(r) == Some(e.raw_os_error().map(|c| format!("os error {}", c)).unwrap_or(format!("{:?}", e.kind()))), "{:?} fails with {:?} and was answered with {:?}", q, e, r),
                }
            }};
        }
        match q {
            Request::Heartbeat => ensure!(*r == Reply::Heartbeat, "{:?} was answered with {:?}", q, r),
            Request::Version => match r {
                Reply::Version(v) if !v.version.is_empty() => {}
                _ => return bad("not a version"),
            },
            Request::Capabilities => match r {
                Reply::Capabilities(c) if c.capabilities.len() == 4 => {}
                _ => return bad("not the capabilities"),
            },
            Request::InternalDebug(_) => match r {
                Reply::InternalDebug(a) if String::from_utf8_lossy(&a.output).contains("Procs") => {}
                _ => return bad("not the state"),
            },
            Request::Custom(a) => {
                let mut d = a.data.clone();
                d.reverse();
                match r {
                    Reply::Custom(x) if a.data.first() != Some(&b'!') && x.data == d => {}
                    Reply::Error(ReplyError::Generic(g)) if a.data.first() == Some(&b'!') && g.msg == format!("refused {:?}", a.data) => {}
                    _ => return bad("not what the handler makes of it"),
                }
            }
            Request::OpenFile(a) => {
                let p = rel(self, &a.path);
                let old = self.open.iter().position(|o| o.path == Path::new(&p));
                let (mut rd, mut wr) = (a.read_access, a.write_access);
                if let Some(k) = old {
                    rd |= self.open[k].read;
                    wr |= self.open[k].write;
                }
                let same = old.map(|k| self.open[k].read == rd && self.open[k].write == wr).unwrap_or(false);
                let e = if same {
                    Ok(())
                } else {
                    std::fs::OpenOptions::new().create(a.create_if_missing).read(rd).write(wr).open(self.mirror.join(&p)).map(|_| ())
                };
                match (e, r) {
                    (Ok(_), Reply::FileOpened(x)) => {
                        ensure!(x.path == a.path && x.read == a.read_access && x.write == a.write_access, "{:?} was answered with {:?}", q, r);
                        match old {
                            Some(k) => {
                                ensure!(x.id == self.open[k].id && x.sig == self.open[k].sig, "reopened: {:?} was answered with {:?}", q, r);
                                self.open[k].read = rd;
                                self.open[k].write = wr;
                            }
                            None => self.open.push(Open { id: x.id, sig: x.sig, path: p.into(), read: rd, write: wr }),
                        }
                    }
                    (Err(e), r) => ensure!(io_err(r) == Some(e.raw_os_error().map(|c| format!("os error {}", c)).unwrap_or(format!("{:?}", e.kind()))), "{:?} fails with {:?} and was answered with {:?}", q, e, r),
                    (Ok(_), _) => return bad("it can be opened"),
                }
            }
            Request::CloseFile(a) => {
                let k = self.open.iter().position(|o| o.id == a.id && o.sig == a.sig);
                match k {
                    Some(k) => {
                        ensure!(*r == Reply::FileClosed(FileClosedArgs { id: a.id }), "{:?} was answered with {:?}", q, r);
                        self.open.remove(k);
                    }
                    None => ensure!(err(r), "{:?} was answered with {:?}", q, r),
                }
            }
            Request::ReadFile(a) => match self.known(a.id, a.sig) {
                Err(f) => ensure!(f(r), "{:?} was answered with {:?}", q, r),
                Ok(k) if self.open[k].read => {
                    let c = match std::fs::read(self.mirror.join(&self.open[k].path)) {
                        Ok(c) => c,
                        // a directory
                        Err(_) => {
                            ensure!(io_err(r).is_some(), "{:?} was answered with {:?}", q, r);
                            return Ok(());
                        }
                    };
                    ensure!(*r == Reply::FileContents(FileContentsArgs { id: a.id, contents: c.clone() }), "{:?} was answered with {:?}, not {:?}", q, r, c);
                }
                Ok(_) => ensure!(io_err(r).is_some(), "{:?} was answered with {:?}", q, r),
            },
            Request::WriteFile(a) => match self.known(a.id, a.sig) {
                Err(f) => ensure!(f(r), "{:?} was answered with {:?}", q, r),
                Ok(k) if self.open[k].write => match r {
                    Reply::FileWritten(x) if x.id == a.id => {
                        std::fs::write(self.mirror.join(&self.open[k].path), &a.contents).unwrap();
                        self.open[k].sig = x.sig;
                    }
                    _ => return bad("it can be written"),
                },
                Ok(_) => ensure!(io_err(r).is_some(), "{:?} was answered with {:?}", q, r),
            },
            Request::RenameFile(a) => match self.known(a.id, a.sig) {
                Err(f) => ensure!(f(r), "{:?} was answered with {:?}", q, r),
                Ok(k) => {
                    let to = rel(self, &a.to);
                    match (std::fs::rename(self.mirror.join(&self.open[k].path), self.mirror.join(&to)), r) {
                        (Ok(_), Reply::FileRenamed(x)) if x.id == a.id => {
                            self.open[k].path = to.into();
                            self.open[k].sig = x.sig;
                        }
                        (Err(e), r) => ensure!(io_err(r) == Some(e.raw_os_error().map(|c| format!("os error {}", c)).unwrap_or(format!("{:?}", e.kind()))), "{:?} fails with {:?} and was answered with {:?}", q, e, r),
                        _ => return bad("it can be renamed"),
                    }
                }
            },
            Request::RemoveFile(a) => match self.known(a.id, a.sig) {
                Err(f) => ensure!(f(r), "{:?} was answered with {:?}", q, r),
                Ok(k) => match (std::fs::remove_file(self.mirror.join(&self.open[k].path)), r) {
                    (Ok(_), Reply::FileRemoved(x)) if x.id == a.id => {
                        self.open.remove(k);
                    }
                    (Err(_), r) if io_err(r).is_some() => {}
                    _ => return bad("it can be removed"),
                },
            },
            Request::RenameUnopenedFile(a) => {
                let (f, t) = (rel(self, &a.from), rel(self, &a.to));
                if self.busy(&f) || self.busy(&t) {
                    ensure!(err(r), "{:?} was answered with {:?}", q, r);
                } else {
                    let e = match std::fs::metadata(self.mirror.join(&f)) {
                        Ok(m) if !m.is_file() => {
                            ensure!(err(r), "{:?} was answered with {:?}", q, r);
                            return Ok(());
                        }
                        Err(e) => Err(e),
                        _ => std::fs::rename(self.mirror.join(&f), self.mirror.join(&t)),
                    };
                    done!(e, Reply::UnopenedFileRenamed(UnopenedFileRenamedArgs { from: a.from.clone(), to: a.to.clone() }));
                }
            }
            Request::RemoveUnopenedFile(a) => {
                let p = rel(self, &a.path);
                if self.busy(&p) {
                    ensure!(err(r), "{:?} was answered with {:?}", q, r);
                } else {
                    let e = std::fs::remove_file(self.mirror.join(&p));
                    match e {
                        Ok(_) => ensure!(*r == Reply::UnopenedFileRemoved(UnopenedFileRemovedArgs { path: a.path.clone() }), "{:?} was answered with {:?}", q, r),
                        Err(_) => ensure!(err(r), "{:?} was answered with {:?}", q, r),
                    }
                }
            }
            Request::CreateDir(a) => {
                let p = self.mirror.join(rel(self, &a.path));
                let e = if a.include_components { std::fs::create_dir_all(p) } else { std::fs::create_dir(p) };
                done!(e, Reply::DirCreated(DirCreatedArgs { path: a.path.clone() }));
            }
            Request::RenameDir(a) => {
                let (f, t) = (rel(self, &a.from), rel(self, &a.to));
                if self.busy_below(&f) {
                    ensure!(err(r), "{:?} was answered with {:?}", q, r);
                } else if !self.mirror.join(&f).is_dir() {
                    ensure!(err(r), "{:?} was answered with {:?}", q, r);
                } else {
                    done!(std::fs::rename(self.mirror.join(&f), self.mirror.join(&t)), Reply::DirRenamed(DirRenamedArgs { from: a.from.clone(), to: a.to.clone() }));
                }
            }
            Request::RemoveDir(a) => {
                let p = rel(self, &a.path);
                if self.busy_below(&p) {
                    ensure!(err(r), "{:?} was answered with {:?}", q, r);
                } else {
                    let m = self.mirror.join(&p);
                    let e = if !m.is_dir() {
                        ensure!(err(r), "{:?} was answered with {:?}", q, r);
                        return Ok(());
                    } else if a.non_empty {
                        std::fs::remove_dir_all(m)
                    } else {
                        std::fs::remove_dir(m)
                    };
                    done!(e, Reply::DirRemoved(DirRemovedArgs { path: a.path.clone() }));
                }
            }
            Request::ListDirContents(a) => {
                let p = self.mirror.join(rel(self, &a.path));
                match (std::fs::read_dir(&p), r) {
                    (Ok(es), Reply::DirContentsList(x)) => {
                        ensure!(x.path == a.path, "{:?} was answered with {:?}", q, r);
                        let mut want: Vec<(String, bool, bool, bool)> = es
                            .map(|e| {
                                let e = e.unwrap();
                                let s = Path::new(&a.path).join(e.file_name()).to_str().unwrap().to_string();
                                let ty = e.file_type().unwrap();
                                (s, ty.is_file(), ty.is_dir(), ty.is_symlink())
                            })
                            .collect();
                        let mut got: Vec<_> = x.entries.iter().map(|e| (e.path.clone(), e.is_file, e.is_dir, e.is_symlink)).collect();
                        want.sort();
                        got.sort();
                        ensure!(want == got, "{:?} was answered with {:?}, not {:?}", q, got, want);
                    }
                    (Err(e), r) => ensure!(io_err(r) == Some(e.raw_os_error().map(|c| format!("os error {}", c)).unwrap_or(format!("{:?}", e.kind()))), "{:?} fails with {:?} and was answered with {:?}", q, e, r),
                    _ => return bad("it can be listed"),
                }
            }
            _ => return bad("unexpected"),
        }
        let (a, b) = (snap(&self.root), snap(&self.mirror));
        ensure!(a == b, "after {:?}, answered with {:?}, the files are {:?}, not {:?}", q, r, a, b);
        Ok(())
    }
    fn pick(&mut self, ctx: &Ctx) -> Request {
        let mut g = ctx.rng.borrow_mut();
        // some with names that are unusual
        let files = ["f", "g", "d/f", "d/e/f", "x/f", "d/.f", "d/ f ", "x/\u{e9} \"1\".\n", "d/-f..", "x/F"];
        let dirs = ["d", "d/e", "x", "x/y", "z", "x/.h", " x", "d/E"];
        let file = self.s(*g.pick(&files));
        let file2 = self.s(*g.pick(&files));
        let dir = self.s(*g.pick(&dirs));
        self.fresh += 1;
        let new = self.s(&format!("{}n{}", g.pick(&["", "d/", "nope/"]), self.fresh));
        let (id, sig) = if !self.open.is_empty() && g.chance(7, 8) {
            let o = g.pick(&self.open);
            (o.id, if g.chance(1, 6) { o.sig.wrapping_add(1) } else { o.sig })
        } else {
            (g.u64() as u32, 1)
        };
        // what is said about an open file does not cover another put in its place
        let file2 = if self.open.iter().any(|o| self.root.join(&o.path) == Path::new(&file2)) { new.clone() } else { file2 };
        let n = g.below(20);
        match g.below(22) {
            0 => Request::Heartbeat,
            1 => Request::Version,
            2 => Request::Capabilities,
            3 => Request::InternalDebug(request::InternalDebugArgs { input: vec![] }),
            4 => {
                let mut d = g.bytes(n);
                if g.chance(1, 4) {
                    d.insert(0, b'!');
                }
                Request::Custom(request::CustomArgs { data: d })
            }
            5..=7 => {
                // a directory could be opened to read it
                let d = g.chance(1, 8);
                Request::OpenFile(OpenFileArgs { path: if d { dir } else { file }, create_if_missing: g.chance(3, 4), write_access: d || g.chance(3, 4), read_access: g.chance(3, 4) })
            }
            8 => Request::CloseFile(CloseFileArgs { id, sig }),
            9..=11 => Request::ReadFile(ReadFileArgs { id, sig }),
            12..=13 => Request::WriteFile(WriteFileArgs { id, sig, contents: g.bytes(n) }),
            14 => Request::RenameFile(RenameFileArgs { id, sig, to: new }),
            15 => Request::RemoveFile(RemoveFileArgs { id, sig }),
            16 => Request::RenameUnopenedFile(RenameUnopenedFileArgs { from: file, to: if g.chance(1, 2) { new } else { file2 } }),
            17 => Request::RemoveUnopenedFile(RemoveUnopenedFileArgs { path: file }),
            18 => Request::CreateDir(CreateDirArgs { path: dir, include_components: g.chance(1, 2) }),
            19 => Request::RenameDir(RenameDirArgs { from: dir, to: new }),
            20 => Request::RemoveDir(RemoveDirArgs { path: dir, non_empty: g.chance(1, 2) }),
            _ => Request::ListDirContents(ListDirContentsArgs { path: dir }),
        }
    }
}

/// as somebody with another idea of ids and of time would make it
fn odd_header(g: &mut crate::util::Rng) -> over_there::core::Header {
    let id = *g.pick(&[0u32, 1, u32::max_value(), 7]);
    let date = *g.pick(&["1970-01-01T00:00:00Z", "1969-12-31T23:59:59.999999999Z", "1601-01-01T00:00:00Z", "2999-12-31T12:00:00.5Z", "2020-02-29T00:00:00.000000001Z"]);
    serde_json::from_str(&format!("{{\"id\":{},\"creation_date\":\"{}\"}}", id, date)).unwrap()
}

pub fn c12(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("a real server over UDP loopback, three peers: histories of all kinds of requests judged against the same operations done with std on a mirror directory, messages that get no reply in between, bursts of requests, process requests; 3000 requests of 150 peers, operations squeezed in between the steps of others; messages of every kind encoded and decoded");
    let mut rt = runtime();
    let (mut round, mut n0) = (0u32, 0u64);
    while round == 0 || ctx.time_left() {
        round += 1;
        if round % 30 == 0 {
            rt = runtime();
        }
        if round % 10 == 1 {
            crate::msgs::round_trip(ctx)?;
            rt.block_on(crate::carry::udp(ctx, &mut n0))?;
            rt.block_on(crate::carry::tcp(ctx, &mut n0))?;
        }
        rt.block_on(c12_round(ctx, round))?;
    }
    Ok(())
}

async fn c12_round(ctx: &Ctx, round: u32) -> Result<(), String> {
    let (top, log) = (Scratch::new(), Log::default());
    let (root, mirror) = (top.0.join("a"), top.0.join("b"));
    for r in &[&root, &mirror] {
        std::fs::create_dir_all(r.join("d/e")).unwrap();
        std::fs::write(r.join("f"), b"content of f").unwrap();
        std::fs::write(r.join("d/e/f"), b"").unwrap();
        std::os::unix::fs::symlink("e/f", r.join("d/to file")).unwrap();
        std::os::unix::fs::symlink("e", r.join("d/to dir")).unwrap();
        std::os::unix::fs::symlink("nothing", r.join("d/to nothing")).unwrap();
    }
    let srv = server(quiet(Some(log))).await;
    let bare = server(quiet(None)).await;
    let mut peers = vec![Peer::new(), Peer::new(), Peer::new()];
    let mut w = World { root: root.clone(), mirror, open: vec![], fresh: 0 };
    if round == 1 {
        // many clients, and many requests
        ctx.case("3000 requests from 150 peers".into());
        let mut crowd: Vec<Peer> = (0..150).map(|_| Peer::new()).collect();
        for k in 0..3000usize {
            let d = vec![7, k as u8, (k >> 8) as u8];
            let want = d.iter().rev().copied().collect();
            let r = ask(&mut crowd[(k * 7) % 150], Request::Custom(request::CustomArgs { data: d }), srv.addr()).await?;
            ensure!(r == Reply::Custom(reply::CustomArgs { data: want }), "request {} was answered with {:?}", k, r);
        }
    }
    let mut earlier = None;
    for step in 0..40 {
        let q = w.pick(ctx);
        let (who, silent) = {
            let mut g = ctx.rng.borrow_mut();
            (g.below(3), g.below(8))
        };
        ctx.case(format!("round {} step {} peer {} {:?} {}", round, step, who, q, silent));
        let to = srv.addr();
        match silent {
            // these must stay without an answer
            0 => peers[who].reply(Some(Default::default()), Reply::Heartbeat, to).await,
            1 => peers[who].reply(None, Reply::Error(ReplyError::Generic(GenericErrorArgs::from("x".to_string()))), to).await,
            2 => {
                peers[who].request(Request::Forward(request::ForwardArgs { address: to, request: Box::new(Request::Version) }), to).await;
            }
            3 => {
                peers[who].request(Request::Custom(request::CustomArgs { data: vec![1] }), bare.addr()).await;
                ensure!(ask(&mut peers[who], Request::Heartbeat, bare.addr()).await? == Reply::Heartbeat, "not a heartbeat");
            }
            _ => {}
        }
        // a request can itself belong to something earlier
        let parent = if ctx.rng.borrow_mut().chance(1, 3) { earlier.clone() } else { None };
        // the header can be any, also one there was before
        let header = {
            let mut g = ctx.rng.borrow_mut();
            match g.below(6) {
                0 => Some(odd_header(&mut g)),
                1 => earlier.clone(),
                _ => None,
            }
        };
        let mut m = Msg::new(Content::Request(q.clone()), parent);
        m.header = header.unwrap_or(m.header);
        peers[who].send(&m, to).await;
        let (r, from) = peers[who].next(SOON).await.ok_or_else(|| format!("{:?} got no answer within {:?}", m, SOON))?;
        ensure!(from == to, "the answer to {:?} came from {}", q, from);
        let r = answer_to(&m, r)?;
        earlier = Some(m.header.clone());
        w.judge(&q, &r)?;
        // the very same message another time is another request
        if matches!(q, Request::Heartbeat | Request::Custom(_) | Request::ReadFile(_) | Request::ListDirContents(_) | Request::Version | Request::Capabilities) {
            peers[who].send(&m, to).await;
            let (r, _) = peers[who].next(SOON).await.ok_or_else(|| format!("{:?}, sent twice, got one answer within {:?}", m, SOON))?;
            let r = answer_to(&m, r)?;
            w.judge(&q, &r)?;
        }
    }
    // bursts: every peer gets its own answers and nothing else
    let n = 1 + ctx.rng.borrow_mut().below(10);
    ctx.case(format!("round {}: {} requests at once from each of three peers", round, n));
    let mut sent: Vec<Vec<(Msg, Reply)>> = vec![vec![], vec![], vec![]];
    for k in 0..n {
        for (i, p) in peers.iter_mut().enumerate() {
            let d = vec![i as u8, k as u8, 7];
            let want = vec![7, k as u8, i as u8];
            let m = p.request(Request::Custom(request::CustomArgs { data: d }), srv.addr()).await;
            sent[i].push((m, Reply::Custom(reply::CustomArgs { data: want })));
        }
    }
    for (i, p) in peers.iter_mut().enumerate() {
        let mut left = std::mem::take(&mut sent[i]);
        while !left.is_empty() {
            let (r, _) = p.next(SOON).await.ok_or_else(|| format!("{:?} got no answer", left))?;
            let k = left.iter().position(|(m, _)| Some(&m.header) == r.parent_header.as_ref()).ok_or_else(|| format!("{:?} came instead of an answer to {:?}", r, left))?;
            let (m, want) = left.remove(k);
            let got = answer_to(&m, r)?;
            ensure!(got == want, "{:?} was answered with {:?}", m, got);
        }
    }
    // processes
    ctx.case(format!("round {}: processes", round));
    let p = &mut peers[0];
    let to = srv.addr();
    let exec = |c: &str, a: &[&str], dir: Option<String>| {
        Request::ExecProc(ExecProcArgs { command: c.into(), args: a.iter().map(|x| x.to_string()).collect(), stdin: true, stdout: true, stderr: true, current_dir: dir })
    };
    let r = ask(p, exec("sh", &["-c", "pwd; echo \"$1:$2:$3:$#\" >&2; cat; exit 3", "sh", "a b", "", " $x'"], Some(root.to_str().unwrap().into())), to).await?;
    let id = match r {
        Reply::ProcStarted(x) => x.id,
        r => return Err(format!("starting a process was answered with {:?}", r)),
    };
    for part in vec![&b""[..], b"i", b"", b"n"] {
        let r = ask(p, Request::WriteProcStdin(WriteProcStdinArgs { id, input: part.to_vec() }), to).await?;
        ensure!(r == Reply::ProcStdinWritten(ProcStdinWrittenArgs { id }), "writing {:?} to a process was answered with {:?}", part, r);
    }
    // what holds nothing is still a request
    for q in vec![
        Request::Batch(request::BatchArgs { operations: vec![] }),
        Request::Sequence(request::SequenceArgs { operations: vec![] }),
        Request::Custom(request::CustomArgs { data: vec![] }),
        Request::CloseFile(CloseFileArgs { id: 0, sig: 0 }),
        Request::ReadProcStatus(ReadProcStatusArgs { id: 0 }),
        Request::OpenFile(OpenFileArgs { path: String::new(), create_if_missing: true, write_access: true, read_access: true }),
        Request::ListDirContents(ListDirContentsArgs { path: String::new() }),
        Request::CreateDir(CreateDirArgs { path: String::new(), include_components: false }),
        Request::RenameDir(RenameDirArgs { from: String::new(), to: String::new() }),
        Request::RemoveDir(RemoveDirArgs { path: String::new(), non_empty: false }),
        Request::RemoveUnopenedFile(RemoveUnopenedFileArgs { path: String::new() }),
        Request::RenameUnopenedFile(RenameUnopenedFileArgs { from: String::new(), to: String::new() }),
        exec("", &[], None),
    ] {
        let r = ask(p, q.clone(), to).await?;
        let ok = match (&q, &r) {
            (Request::Batch(_), Reply::Batch(b)) => b.results.is_empty(),
            (Request::Sequence(_), Reply::Sequence(b)) => b.results.is_empty(),
            (Request::Custom(_), Reply::Custom(c)) => c.data.is_empty(),
            (Request::Batch(_), _) | (Request::Sequence(_), _) | (Request::Custom(_), _) => false,
            (_, r) => err(r),
        };
        ensure!(ok, "{:?} was answered with {:?}", q, r);
    }
    let (mut o, mut e) = (vec![], vec![]);
    let want = format!("{}\nin", root.to_str().unwrap()).into_bytes();
    let t = Instant::now();
    while (o.len() < want.len() || e.len() < 12) && t.elapsed() < SOON {
        match ask(p, Request::ReadProcStdout(ReadProcStdoutArgs { id }), to).await? {
            Reply::ProcStdoutContents(x) if x.id == id => o.extend(x.output),
            r => return Err(format!("reading stdout was answered with {:?}", r)),
        }
        match ask(p, Request::ReadProcStderr(ReadProcStderrArgs { id }), to).await? {
            Reply::ProcStderrContents(x) if x.id == id => e.extend(x.output),
            r => return Err(format!("reading stderr was answered with {:?}", r)),
        }
    }
    ensure!(o == want && e == b"a b:: $x':3\n", "the process wrote {:?} and {:?}", o, e);
    let r = ask(p, Request::ReadProcStatus(ReadProcStatusArgs { id }), to).await?;
    ensure!(r == Reply::ProcStatus(ProcStatusArgs { id, is_alive: true, exit_code: None }), "the status of a running process was answered with {:?}", r);
    let r = ask(p, Request::KillProc(KillProcArgs { id }), to).await?;
    ensure!(r == Reply::ProcKilled(ProcKilledArgs { id, exit_code: None }), "killing a process was answered with {:?}", r);
    for q in vec![
        Request::KillProc(KillProcArgs { id }),
        Request::ReadProcStatus(ReadProcStatusArgs { id }),
        Request::ReadProcStdout(ReadProcStdoutArgs { id }),
        Request::ReadProcStderr(ReadProcStderrArgs { id }),
        Request::WriteProcStdin(WriteProcStdinArgs { id, input: vec![1] }),
    ] {
        let r = ask(p, q.clone(), to).await?;
        ensure!(io_err(&r).as_deref() == Some("InvalidInput"), "{:?} of a process that is gone was answered with {:?}", q, r);
    }
    let r = ask(p, exec("/nonexistent/x", &[], None), to).await?;
    ensure!(io_err(&r).as_deref() == Some("os error 2"), "starting what is not there was answered with {:?}", r);
    let r = ask(p, exec("true", &[], Some("/nonexistent/x".into())), to).await?;
    ensure!(io_err(&r).as_deref() == Some("os error 2"), "starting where nothing is was answered with {:?}", r);
    for p in peers.iter_mut() {
        let x = p.next(Duration::from_millis(2)).await;
        ensure!(x.is_none(), "something more came: {:?}", x);
    }
    srv.shutdown();
    bare.shutdown();
    Ok(())
}

// ---- C13 ------------------------------------------------------------------------------
/// what a request is answered with, as far as it is determined, and what the handler sees
#[derive(Debug, Clone, PartialEq)]
enum Exp {
    Is(Reply),
    Err,
    Seq(Vec<Exp>),
    Batch(Vec<Exp>),
}
fn fits(e: &Exp, r: &Reply) -> bool {
    let all = |es: &[Exp], rs: &[Reply]| es.len() == rs.len() && es.iter().zip(rs).all(|(e, r)| fits(e, r));
    match (e, r) {
        (Exp::Is(x), r) => x == r,
        (Exp::Err, Reply::Error(_)) => true,
        (Exp::Seq(es), Reply::Sequence(a)) => all(es, &a.results),
        (Exp::Batch(es), Reply::Batch(a)) => all(es, &a.results),
        _ => false,
    }
}
/// the calls of the handler: in order within a sequence, in any order between those of a batch
#[derive(Debug, Clone)]
enum Calls {
    One(Vec<u8>),
    InOrder(Vec<Calls>),
    AnyOrder(Vec<Calls>),
}
impl Calls {
    fn all(&self, v: &mut Vec<Vec<u8>>) {
        match self {
            Calls::One(d) => v.push(d.clone()),
            Calls::InOrder(c) | Calls::AnyOrder(c) => c.iter().for_each(|c| c.all(v)),
        }
    }
    /// every call of one part comes before those of the next
    fn ordered(&self, at: &dyn Fn(&[u8]) -> Option<usize>) -> bool {
        match self {
            Calls::One(_) => true,
            Calls::AnyOrder(c) => c.iter().all(|c| c.ordered(at)),
            Calls::InOrder(c) => {
                let mut last = None;
                for x in c {
                    let mut v = vec![];
                    x.all(&mut v);
                    let lo = v.iter().filter_map(|d| at(d)).min();
                    let hi = v.iter().filter_map(|d| at(d)).max();
                    if let (Some(l), Some(lo)) = (last, lo) {
                        if lo < l {
                            return false;
                        }
                    }
                    last = hi.or(last);
                }
                c.iter().all(|c| c.ordered(at))
            }
        }
    }
}
/// a request of up to that many levels, with what comes of it
fn nested(ctx: &Ctx, levels: usize, n: &mut u32, depth_left: usize, ignored: bool, open: (u32, u32)) -> (Request, Exp, Calls) {
    let kind = ctx.rng.borrow_mut().below(if levels > 0 { 12 } else { 6 });
    let none = Calls::InOrder(vec![]);
    let over = depth_left == 0;
    match kind {
        0 if !ignored => {
            let fwd = Request::Forward(request::ForwardArgs { address: "127.0.0.1:9".parse().unwrap(), request: Box::new(Request::Version) });
            (fwd, Exp::Err, none)
        }
        1 => (Request::Heartbeat, if over { Exp::Err } else { Exp::Is(Reply::Heartbeat) }, none),
        2 if ctx.rng.borrow_mut().chance(1, 2) => (Request::ReadFile(ReadFileArgs { id: open.0.wrapping_add(1), sig: 1 }), Exp::Err, none),
        2 => {
            // not with the current signature
            let q = Request::WriteFile(WriteFileArgs { id: open.0, sig: open.1.wrapping_add(1), contents: vec![1] });
            (q, if over { Exp::Err } else { Exp::Is(Reply::Error(ReplyError::FileSigChanged(FileSigChangedArgs { id: open.0, sig: open.1 }))) }, none)
        }
        k if k < 6 => {
            // sometimes one that came before already
            let again = *n > 0 && ctx.rng.borrow_mut().chance(1, 6);
            let k = if again { ctx.rng.borrow_mut().range(1, *n as usize) as u32 } else { *n + 1 };
            *n = k.max(*n);
            let mut d = format!("{}{}", if ctx.rng.borrow_mut().chance(1, 5) { "!" } else { "" }, k).into_bytes();
            let q = Request::Custom(request::CustomArgs { data: d.clone() });
            if over {
                return (q, Exp::Err, none);
            }
            let c = Calls::One(d.clone());
            if d[0] == b'!' {
                (q, Exp::Is(Reply::Error(ReplyError::Generic(GenericErrorArgs::from(format!("refused {:?}", d))))), c)
            } else {
                d.reverse();
                (q, Exp::Is(Reply::Custom(reply::CustomArgs { data: d })), c)
            }
        }
        k => {
            // seldom many of them, which are plain then
            let wide = levels > 0 && ctx.rng.borrow_mut().chance(1, 150);
            let m = if wide { ctx.rng.borrow_mut().range(30, 300) } else { ctx.rng.borrow_mut().below(5) };
            let levels = if wide { 1 } else { levels };
            let inner = if over { 0 } else { depth_left - 1 };
            let parts: Vec<_> = (0..m).map(|_| nested(ctx, levels - 1, n, inner, false, open)).collect();
            if k < 9 {
                let q = Request::Batch(request::BatchArgs { operations: parts.iter().map(|p| p.0.clone()).collect() });
                if over {
                    return (q, Exp::Err, none);
                }
                (q, Exp::Batch(parts.iter().map(|p| p.1.clone()).collect()), Calls::AnyOrder(parts.into_iter().map(|p| p.2).collect()))
            } else {
                let q = Request::Sequence(request::SequenceArgs { operations: parts.iter().map(|p| p.0.clone().into_lazily_transformed(vec![])).collect() });
                if over {
                    return (q, Exp::Err, none);
                }
                let (mut es, mut cs, mut failed) = (vec![], vec![], false);
                for (_, e, c) in parts {
                    if failed {
                        es.push(Exp::Err);
                        continue;
                    }
                    failed = e == Exp::Err || matches!(&e, Exp::Is(Reply::Error(_)));
                    es.push(e);
                    cs.push(c);
                }
                (q, Exp::Seq(es), Calls::InOrder(cs))
            }
        }
    }
}

/// many plain operations, some of them custom, of which none fails
fn long(ctx: &Ctx) -> (Request, Exp, Calls) {
    let mut rng = ctx.rng.borrow_mut();
    // not more than a socket's buffer holds
    let batch = rng.chance(1, 2);
    let m = rng.range(300, if batch { 1200 } else { 500 });
    let (mut ops, mut es, mut cs) = (vec![], vec![], vec![]);
    for k in 0..m {
        if rng.chance(1, 10) || k + 1 == m {
            let d = format!("{}", k).into_bytes();
            ops.push(Request::Custom(request::CustomArgs { data: d.clone() }));
            cs.push(Calls::One(d.clone()));
            es.push(Exp::Is(Reply::Custom(reply::CustomArgs { data: d.into_iter().rev().collect() })));
        } else {
            ops.push(Request::Heartbeat);
            es.push(Exp::Is(Reply::Heartbeat));
        }
    }
    if batch {
        (Request::Batch(request::BatchArgs { operations: ops }), Exp::Batch(es), Calls::AnyOrder(cs))
    } else {
        let operations = ops.into_iter().map(|q| q.into_lazily_transformed(vec![])).collect();
        (Request::Sequence(request::SequenceArgs { operations }), Exp::Seq(es), Calls::InOrder(cs))
    }
}

pub fn c13(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("random nestings of batches and sequences, deeper than allowed too, of custom (noted by the handler, some refused), forward, failing and plain requests, against a recursive model; sequences with transformation rules over files");
    let mut rt = runtime();
    let mut round = 0u32;
    while round == 0 || ctx.time_left() {
        round += 1;
        if round % 30 == 0 {
            rt = runtime();
        }
        if round % 40 == 1 {
            rt.block_on(crate::race::c13(ctx))?;
        }
        rt.block_on(async {
            let log = Log::default();
            let srv = server(quiet(Some(log.clone()))).await;
            let mut p = Peer::new();
            let dir = Scratch::new();
            let open = match ask(&mut p, Request::OpenFile(OpenFileArgs { path: dir.0.join("f").to_str().unwrap().into(), create_if_missing: true, write_access: true, read_access: true }), srv.addr()).await? {
                Reply::FileOpened(x) => (x.id, x.sig),
                r => return Err(format!("opening was answered with {:?}", r)),
            };
            for step in 0..30 {
                log.lock().unwrap().clear();
                let mut n = 0;
                let levels = ctx.rng.borrow_mut().below(8);
                let (q, want, calls) = if ctx.rng.borrow_mut().chance(1, 80) { long(ctx) } else { nested(ctx, levels, &mut n, 5, true, open) };
                ctx.case(format!("round {} step {} {:?}", round, step, q));
                let r = ask(&mut p, q, srv.addr()).await?;
                ensure!(fits(&want, &r), "the reply was {:?}, not {:?}", r, want);
                let got = log.lock().unwrap().clone();
                let mut all = vec![];
                calls.all(&mut all);
                let (mut a, mut b) = (all.clone(), got.clone());
                a.sort();
                b.sort();
                ensure!(a == b, "the handler was called with {:?}, not {:?}", got, all);
                // those that are the same cannot be told apart
                let mut place: HashMap<&[u8], Option<usize>> = HashMap::new();
                for (k, d) in got.iter().enumerate() {
                    place.entry(d).and_modify(|x| *x = None).or_insert(Some(k));
                }
                let at = |d: &[u8]| place[d];
                ensure!(calls.ordered(&at), "the handler was called in the order {:?} for {:?}", got, calls);
            }
            transformed(ctx, round, &mut p, srv.addr()).await?;
            let x = p.next(Duration::from_millis(2)).await;
            ensure!(x.is_none(), "something more came: {:?}", x);
            srv.shutdown();
            Ok(())
        })?;
    }
    Ok(())
}

/// a sequence whose operations take what they need from the reply before
async fn transformed(ctx: &Ctx, round: u32, p: &mut Peer, to: SocketAddr) -> Result<(), String> {
    use over_there::core::TransformRule;
    let dir = Scratch::new();
    let rule = |path: &str, value: &str| TransformRule { path: path.into(), value: value.into() };
    let idsig = || vec![rule("$.payload.id", "$.payload.id"), rule("$.payload.sig", "$.payload.sig")];
    let break_at = ctx.rng.borrow_mut().below(5);
    let how = ctx.rng.borrow_mut().below(3);
    let text = format!("text {}", round).into_bytes();
    let raw = vec![
        Request::OpenFile(OpenFileArgs { path: dir.0.join("f").to_str().unwrap().into(), create_if_missing: true, write_access: true, read_access: true }),
        Request::WriteFile(WriteFileArgs { id: 0, sig: 0, contents: text.clone() }),
        Request::WriteFile(WriteFileArgs { id: 0, sig: 0, contents: vec![9; 3] }),
        Request::CloseFile(CloseFileArgs { id: 0, sig: 0 }),
    ];
    let ops: Vec<_> = raw
        .into_iter()
        .enumerate()
        .map(|(i, q)| {
            let mut rules = if i == 0 { vec![] } else { idsig() };
            if i == break_at && i > 0 {
                match how {
                    0 => rules[1] = rule("$.payload.sig", "$.payload.missing"),
                    1 => rules.push(rule("$.type", "$.type")),
                    _ => rules[0] = rule("$.payload.id", "$.payload.["),
                }
            }
            q.into_lazily_transformed(rules)
        })
        .collect();
    let broken = if break_at == 0 || break_at >= 4 { 4 } else { break_at };
    ctx.case(format!("round {}: a sequence over a file whose step {} cannot be transformed ({})", round, broken, how));
    let r = ask(p, Request::Sequence(request::SequenceArgs { operations: ops }), to).await?;
    let rs = match r {
        Reply::Sequence(a) => a.results,
        r => return Err(format!("it was answered with {:?}", r)),
    };
    ensure!(rs.len() == 4, "it was answered with {:?}", rs);
    for (i, r) in rs.iter().enumerate() {
        let ok = match (i, r) {
            (0, Reply::FileOpened(_)) | (1, Reply::FileWritten(_)) | (2, Reply::FileWritten(_)) | (3, Reply::FileClosed(_)) => true,
            _ => false,
        };
        ensure!(ok == (i < broken) && (ok || err(r)), "operation {} was answered with {:?}", i, r);
    }
    let want = match broken {
        1 => vec![],
        2 => text,
        _ => vec![9; 3],
    };
    let got = std::fs::read(dir.0.join("f")).unwrap();
    ensure!(got == want, "the file holds {:?}", got);
    Ok(())
}

// ---- C16 ------------------------------------------------------------------------------
pub(crate) fn sh(script: &str, stdin: bool, out: bool, e: bool) -> Request {
    Request::ExecProc(ExecProcArgs { command: "sh".into(), args: vec!["-c".into(), script.into()], stdin, stdout: out, stderr: e, current_dir: None })
}
pub(crate) async fn start(p: &mut Peer, q: Request, to: SocketAddr) -> Result<u32, String> {
    match ask(p, q.clone(), to).await? {
        Reply::ProcStarted(x) => Ok(x.id),
        r => Err(format!("{:?} was answered with {:?}", q, r)),
    }
}
pub(crate) async fn output(p: &mut Peer, id: u32, to: SocketAddr, errs: bool) -> Result<Vec<u8>, String> {
    if errs {
        match ask(p, Request::ReadProcStderr(ReadProcStderrArgs { id }), to).await? {
            Reply::ProcStderrContents(x) if x.id == id => Ok(x.output),
            r => Err(format!("reading stderr was answered with {:?}", r)),
        }
    } else {
        match ask(p, Request::ReadProcStdout(ReadProcStdoutArgs { id }), to).await? {
            Reply::ProcStdoutContents(x) if x.id == id => Ok(x.output),
            r => Err(format!("reading stdout was answered with {:?}", r)),
        }
    }
}
pub(crate) async fn status(p: &mut Peer, id: u32, to: SocketAddr) -> Result<(bool, Option<i32>), String> {
    match ask(p, Request::ReadProcStatus(ReadProcStatusArgs { id }), to).await? {
        Reply::ProcStatus(x) if x.id == id => Ok((x.is_alive, x.exit_code)),
        r => Err(format!("the status was answered with {:?}", r)),
    }
}

pub fn c16(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("processes that write generated blocks to both outputs with pauses and exit with generated codes, read at random in both orders through the server while two run; stdin echoed back, written one by one or without waiting; statuses while running, after exit and after being killed by a signal; LocalProc itself");
    let mut rt = runtime();
    let mut round = 0u32;
    while round == 0 || ctx.time_left() {
        round += 1;
        if round % 20 == 0 {
            rt = runtime();
        }
        if round % 10 == 1 {
            rt.block_on(crate::race::c16(ctx))?;
        }
        rt.block_on(c16_round(ctx, round))?;
    }
    Ok(())
}

async fn c16_round(ctx: &Ctx, round: u32) -> Result<(), String> {
    let srv = server(quiet(None)).await;
    let to = srv.addr();
    let mut p = Peer::new();
    // two processes at once, each with its own text on either stream
    struct Run {
        id: u32,
        want: [Vec<u8>; 2],
        got: [Vec<u8>; 2],
        code: i32,
        exited: bool,
    }
    let mut runs: Vec<Run> = vec![];
    for k in 0..2 {
        let (mut script, mut want) = (String::new(), [vec![], vec![]]);
        let code = {
            let mut g = ctx.rng.borrow_mut();
            for b in 0..g.range(1, 6) {
                let s = g.below(2);
                // more than one read's worth, sometimes more than a pipe holds
                let n = *g.pick(&[1usize, 5, 300, 1023, 1024, 1025, 3000]);
                let line = format!("{}{}{}", k, b, if s == 0 { "o" } else { "e" });
                // text, lines, empty lines, zeros, high bytes
                let (block, from): (Vec<u8>, String) = match g.below(8) {
                    0 => (format!("{}\n", line).bytes().cycle().take(n).collect(), format!("yes {}", line)),
                    1 => (vec![b'\n'; n], "yes ''".into()),
                    2 => (vec![0; n], "cat /dev/zero".into()),
                    3 => (vec![255; n], "cat /dev/zero | tr '\\0' '\\377'".into()),
                    _ => (line.bytes().cycle().take(n).collect(), format!("yes {} | tr -d '\\n'", line)),
                };
                script.push_str(&format!("{} | head -c {} >&{}; ", from, n, s + 1));
                if g.chance(1, 3) {
                    script.push_str("sleep 0.01; ");
                }
                want[s].extend(block);
            }
            let any = g.below(256) as i32;
            *g.pick(&[0, 0, 1, 3, 255, any])
        };
        script.push_str(&format!("exit {}", code));
        ctx.case(format!("round {} process {}: {}", round, k, script));
        let id = start(&mut p, sh(&script, false, true, true), to).await?;
        runs.push(Run { id, want, got: [vec![], vec![]], code, exited: false });
    }
    let t = Instant::now();
    loop {
        let mut all = true;
        for r in runs.iter_mut() {
            let order = ctx.rng.borrow_mut().below(4);
            let first_status = order >= 2;
            if first_status || r.exited {
                let (alive, code) = status(&mut p, r.id, to).await?;
                ensure!(!(r.exited && alive), "process {} came back to life", r.id);
                ensure!(if alive { code.is_none() } else { code == Some(r.code) }, "process {} exits with {}, reported: alive {} code {:?}", r.id, r.code, alive, code);
                r.exited = !alive;
            }
            for s in 0..2 {
                let s = if order % 2 == 0 { s } else { 1 - s };
                let d = output(&mut p, r.id, to, s == 1).await?;
                let at = r.got[s].len();
                r.got[s].extend(&d);
                ensure!(r.want[s].starts_with(&r.got[s]), "from byte {} of stream {} of process {}: {:?} instead of {:?}", at, s + 1, r.id,
                    String::from_utf8_lossy(&d[..d.len().min(60)]), String::from_utf8_lossy(&r.want[s][at.min(r.want[s].len())..][..60.min(r.want[s].len().saturating_sub(at))]));
            }
            all &= r.exited && r.got == r.want;
        }
        if all {
            break;
        }
        ensure!(t.elapsed() < SOON * 2, "not everything arrived: {:?}", runs.iter().map(|r| (r.exited, r.got[0].len(), r.want[0].len(), r.got[1].len(), r.want[1].len())).collect::<Vec<_>>());
        tokio::time::delay_for(Duration::from_millis(1)).await;
    }
    for r in &runs {
        for s in 0..2 {
            let d = output(&mut p, r.id, to, s == 1).await?;
            ensure!(d.is_empty(), "after everything was read: {:?}", d);
        }
    }
    // stdin comes back in order
    let (mut want, mut got) = (vec![], vec![]);
    let id = start(&mut p, sh("cat", true, true, false), to).await?;
    // one after the other, or many without waiting for the answers
    let many = ctx.rng.borrow_mut().chance(1, 2);
    let n = ctx.rng.borrow_mut().range(1, if many { 40 } else { 6 });
    ctx.case(format!("round {}: {} pieces through cat, waiting for each: {}", round, n, !many));
    let mut open: Vec<over_there::core::Header> = vec![];
    for _ in 0..n {
        let d = {
            let mut g = ctx.rng.borrow_mut();
            let k = if many { g.below(600) } else { *g.pick(&[0usize, 1, 10, 1000, 3000]) };
            g.bytes(k)
        };
        want.extend(&d);
        let q = Request::WriteProcStdin(WriteProcStdinArgs { id, input: d });
        if many {
            open.push(p.request(q, to).await.header);
        } else {
            let r = ask(&mut p, q, to).await?;
            ensure!(r == Reply::ProcStdinWritten(ProcStdinWrittenArgs { id }), "writing was answered with {:?}", r);
        }
    }
    while !open.is_empty() {
        let (m, _) = p.next(SOON).await.ok_or_else(|| format!("{} of {} writes were not answered", open.len(), n))?;
        let k = open.iter().position(|h| Some(h) == m.parent_header.as_ref()).ok_or_else(|| format!("nobody asked for {:?}", m))?;
        open.swap_remove(k);
        ensure!(m.content == Content::Reply(Reply::ProcStdinWritten(ProcStdinWrittenArgs { id })), "writing was answered with {:?}", m.content);
    }
    let t = Instant::now();
    while got.len() < want.len() && t.elapsed() < SOON {
        got.extend(output(&mut p, id, to, false).await?);
        ensure!(want.starts_with(&got), "of the {} bytes written to cat {} came back, but not the same", want.len(), got.len());
    }
    ensure!(got == want, "of the {} bytes written to cat {} came back", want.len(), got.len());
    ensure!(status(&mut p, id, to).await? == (true, None), "a running process is reported to have exited");
    let r = output(&mut p, id, to, true).await;
    ensure!(r.is_err(), "a stream that was not asked for could be read: {:?}", r);
    // ended by a signal: no exit code
    ctx.case(format!("round {}: ended by a signal", round));
    let id = start(&mut p, sh("kill -9 $$", false, false, false), to).await?;
    let t = Instant::now();
    let code = loop {
        let (alive, code) = status(&mut p, id, to).await?;
        if !alive {
            break code;
        }
        ensure!(t.elapsed() < SOON, "a process that is gone is still reported as running");
    };
    ensure!(code.is_none(), "a process ended by a signal has the exit code {:?}", code);
    srv.shutdown();
    // more than any buffer holds, taken at once when the process is gone
    if round % 4 == 0 {
        let (s, n) = {
            let mut g = ctx.rng.borrow_mut();
            (g.below(2), *g.pick(&[65535usize, 65536, 65537, 65538, 200_000, 1 << 20, (1 << 20) + 1, 6 << 20]))
        };
        ctx.case(format!("round {}: {} bytes on stream {} read at once", round, n, s + 1));
        let mut c = tokio::process::Command::new("sh");
        c.arg("-c").arg(format!("yes 0123456 | head -c {} >&{}", n, s + 1)).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped());
        let mut l = over_there::core::LocalProc::new(c.spawn().unwrap()).spawn();
        let want: Vec<u8> = b"0123456\n".iter().cycle().take(n).copied().collect();
        let mut got = vec![];
        let t = Instant::now();
        while l.exit_status().await.is_none() {
            ensure!(t.elapsed() < SOON, "{} bytes are not taken from a process", n);
            tokio::time::delay_for(Duration::from_millis(1)).await;
        }
        while got.len() < n && t.elapsed() < SOON {
            got.extend(if s == 0 { l.read_stdout().await } else { l.read_stderr().await }.map_err(|e| e.to_string())?);
            tokio::time::delay_for(Duration::from_millis(1)).await;
        }
        ensure!(got == want, "of {} bytes a process wrote {} arrived", n, got.len());
        let more = (l.read_stdout().await.map_err(|e| e.to_string())?, l.read_stderr().await.map_err(|e| e.to_string())?);
        ensure!(more == (vec![], vec![]), "after everything was read: {:?}", more);
    }
    if round % 4 == 2 {
        let sizes: Vec<usize> = {
            let mut g = ctx.rng.borrow_mut();
            (0..4).map(|_| if g.chance(1, 2) { g.below(100_000) } else { *g.pick(&[4096usize, 8192, 8193, 65_535, 65_536, 65_537, 300_000]) }).collect()
        };
        ctx.case(format!("round {}: pieces of {:?} bytes through cat", round, sizes));
        let mut c = tokio::process::Command::new("cat");
        c.stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).kill_on_drop(true);
        let mut l = over_there::core::LocalProc::new(c.spawn().unwrap()).spawn();
        let mut want = vec![];
        for n in &sizes {
            let d = ctx.rng.borrow_mut().bytes(*n);
            tokio::time::timeout(SOON, l.write_stdin(&d)).await.map_err(|_| format!("writing {} bytes to a process that reads them did not end", n))?.map_err(|e| e.to_string())?;
            want.extend(d);
        }
        let mut got = vec![];
        let t = Instant::now();
        while got.len() < want.len() && t.elapsed() < SOON {
            got.extend(l.read_stdout().await.map_err(|e| e.to_string())?);
            tokio::time::delay_for(Duration::from_millis(1)).await;
        }
        ensure!(got == want, "of {} bytes written in pieces of {:?} to a process {} came back, the first difference at {:?}", want.len(), sizes, got.len(), got.iter().zip(&want).position(|(a, b)| a != b));
    }
    // success is told apart from failure
    let any = ctx.rng.borrow_mut().below(256) as i32;
    let codes: Vec<i32> = if round == 1 { (0..256).collect() } else { vec![0, 1, any] };
    for code in &codes {
        ctx.case(format!("round {}: exit {} and its success", round, code));
        let child = tokio::process::Command::new("sh").arg("-c").arg(format!("exit {}", code)).spawn().unwrap();
        let pid = child.id();
        let mut l = over_there::core::LocalProc::new(child).spawn();
        let t = Instant::now();
        let s = loop {
            if let Some(s) = l.exit_status().await {
                break s;
            }
            ensure!(t.elapsed() < SOON, "a process that is gone is still reported as running");
            tokio::time::delay_for(Duration::from_millis(1)).await;
        };
        for s in vec![s, l.exit_status().await.unwrap()] {
            ensure!(s.id == pid && s.exit_code == Some(*code) && s.is_success == (*code == 0), "a process that exits with {} is reported as {:?}", code, s);
        }
    }
    Ok(())
}

// ---- C11 ------------------------------------------------------------------------------
/// whether this process (the server runs in it) has the file open
pub(crate) fn has_open(path: &Path) -> bool {
    std::fs::read_dir("/proc/self/fd").unwrap().any(|e| e.ok().and_then(|e| std::fs::read_link(e.path()).ok()).map(|l| l == path).unwrap_or(false))
}
fn runs(pid: u32) -> bool {
    match std::fs::read_to_string(format!("/proc/{}/stat", pid)) {
        Ok(s) => !s.rsplit(')').next().unwrap().trim_start().starts_with('Z'),
        Err(_) => false,
    }
}
/// whether the server knows the process, without asking about it
pub(crate) async fn knows(p: &mut Peer, pid: u32, to: SocketAddr) -> Result<bool, String> {
    match ask(p, Request::InternalDebug(request::InternalDebugArgs { input: vec![] }), to).await? {
        Reply::InternalDebug(a) => {
            let s = String::from_utf8_lossy(&a.output).to_string();
            Ok(s.contains(&format!("{}: LocalProc", pid)))
        }
        r => Err(format!("internal debug was answered with {:?}", r)),
    }
}

pub fn c11(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("files and processes on a server with lifetimes of a few hundred ms, some kept in use by every kind of request that names them, others left alone: what is kept is watched in /proc from outside and must be there until its lifetime after the last request was sent; what is idle must go within 20 s, whatever is asked for meanwhile that does not name it; dead processes with a lifetime longer and shorter than that of live ones; every observation is compared with times taken before the request was sent, so that a slow machine cannot fail it");
    let mut rt = runtime();
    let mut round = 0u32;
    while round == 0 || ctx.time_left() {
        round += 1;
        if round % 20 == 0 {
            rt = runtime();
        }
        if round % 4 == 1 {
            rt.block_on(crate::race::c11(ctx))?;
        }
        rt.block_on(c11_round(ctx, round))?;
        if round == 1 {
            rt.block_on(c11_crowd(ctx))?;
        }
    }
    Ok(())
}

struct Kept {
    name: String,
    id: u32,
    sig: u32,
    path: Option<PathBuf>,
    last: Instant,
    /// counts as used from then on at most, if the server is never to see another use
    idle: bool,
    gone: bool,
}
impl Kept {
    fn there(&self) -> bool {
        match &self.path {
            Some(p) => has_open(p),
            None => runs(self.id),
        }
    }
}

/// one pass takes everything that is due, however much that is
async fn c11_crowd(ctx: &Ctx) -> Result<(), String> {
    let top = Scratch::new();
    let (ttl, pause) = (Duration::from_millis(50), Duration::from_secs(4));
    let srv = server(Setup { file_ttl: ttl, proc_ttl: ttl, dead_ttl: HOUR, cleanup: pause, handler: None }).await;
    let to = srv.addr();
    let mut p = Peer::new();
    let mut ks = vec![];
    for k in 0..300 {
        let path = top.0.join(format!("f{}", k));
        match ask(&mut p, Request::OpenFile(OpenFileArgs { path: path.to_str().unwrap().into(), create_if_missing: true, write_access: true, read_access: true }), to).await? {
            Reply::FileOpened(x) => ks.push((Kept { name: format!("file {}", k), id: x.id, sig: x.sig, path: Some(path), last: Instant::now(), idle: true, gone: false }, false)),
            r => return Err(format!("opening was answered with {:?}", r)),
        }
    }
    for k in 0..40 {
        let id = start(&mut p, sh("exec sleep 60", false, false, false), to).await?;
        ks.push((Kept { name: format!("process {}", k), id, sig: 0, path: None, last: Instant::now(), idle: true, gone: false }, false));
    }
    ctx.case("300 files and 40 processes due at once".into());
    // which were due, and still there, when something was not yet gone
    let t = Instant::now();
    loop {
        let now = Instant::now();
        let due: Vec<bool> = ks.iter().map(|(k, _)| now >= k.last + ttl).collect();
        let there: Vec<bool> = ks.iter().map(|(k, _)| k.there()).collect();
        if there.iter().all(|x| *x) {
            for (k, d) in ks.iter_mut().zip(due) {
                k.1 = d;
            }
        } else {
            break;
        }
        ensure!(t.elapsed() < SOON, "nothing was evicted within {:?}", SOON);
        tokio::time::delay_for(Duration::from_millis(2)).await;
    }
    // the pass is under way: it takes them all, not leaving some for the one after it
    let begun = Instant::now();
    loop {
        let left: Vec<&str> = ks.iter().filter(|(k, due)| *due && k.there()).map(|(k, _)| &k.name[..]).collect();
        let took = begun.elapsed();
        if left.is_empty() {
            break;
        }
        ensure!(took < pause / 2, "a pass that took others left these, though their lifetime had passed: {:?}", left);
        tokio::time::delay_for(Duration::from_millis(10)).await;
    }
    for (k, _) in ks.iter().filter(|(k, _)| k.path.is_none()) {
        let _ = ask(&mut p, Request::KillProc(KillProcArgs { id: k.id }), to).await?;
    }
    srv.shutdown();
    Ok(())
}

async fn c11_round(ctx: &Ctx, round: u32) -> Result<(), String> {
    let top = Scratch::new();
    let ttl = Duration::from_millis(200 + 100 * (round as u64 % 3));
    let short_dead = round % 2 == 0;
    // the lifetime of dead processes is told apart from that of live ones
    let (file_ttl, proc_ttl, dead_ttl) = if short_dead { (ttl, HOUR, ttl) } else { (ttl, ttl, HOUR) };
    let srv = server(Setup { file_ttl, proc_ttl, dead_ttl, cleanup: Duration::from_millis(5), handler: None }).await;
    let to = srv.addr();
    let mut p = Peer::new();
    let mut ks: Vec<(Kept, usize, (bool, bool))> = vec![];
    let pick = |n: u64| ctx.rng.borrow_mut().below(n as usize);
    // each is kept by one kind of request only, so that a kind that is not a use shows
    for k in 0..9 {
        let path = top.0.join(format!("f{}", k));
        std::fs::write(&path, vec![7; pick(3)]).map_err(|e| e.to_string())?;
        let (read, write) = [(true, true), (true, false), (false, true)][pick(3)];
        let last = Instant::now();
        match ask(&mut p, Request::OpenFile(OpenFileArgs { path: path.to_str().unwrap().into(), create_if_missing: false, write_access: write, read_access: read }), to).await? {
            Reply::FileOpened(x) => {
                let name = format!("file {} (read {}, write {})", k, read, write);
                ks.push((Kept { name, id: x.id, sig: x.sig, path: Some(path), last, idle: k % 4 == 0, gone: false }, pick(12), (read, write)))
            }
            r => return Err(format!("opening was answered with {:?}", r)),
        }
    }
    for k in 0..5 {
        let script = ["exec sleep 60", "while :; do echo a; echo b >&2; sleep 0.03; done"][pick(2)];
        let (i, o, e) = (pick(4) > 0, pick(4) > 0, pick(4) > 0);
        let last = Instant::now();
        let id = start(&mut p, sh(script, i, o, e), to).await?;
        let name = format!("process {} (stdin {}, stdout {}, stderr {})", k, i, o, e);
        ks.push((Kept { name, id, sig: 0, path: None, last, idle: k == 0, gone: false }, pick(5), (false, false)));
    }
    // processes that are seen to have exited; one of them is then used in another way
    let signal = round % 4 >= 2;
    let mut deads = vec![];
    for _ in 0..2 {
        let dead = start(&mut p, sh(if signal { "kill -9 $$" } else { "echo x; exit 4" }, false, true, true), to).await?;
        let t = Instant::now();
        let mut seen_dead;
        loop {
            seen_dead = Instant::now();
            let (alive, code) = status(&mut p, dead, to).await?;
            if !alive {
                ensure!(code == if signal { None } else { Some(4) }, "its exit code is {:?}", code);
                break;
            }
            ensure!(t.elapsed() < SOON, "a process that is gone is still reported as running");
        }
        deads.push((dead, seen_dead));
    }
    let (dead, seen_dead) = deads[0];
    let (other, _) = deads[1];
    let used_other = Instant::now();
    let how = pick(3);
    let r = ask(&mut p, match how {
        0 => Request::ReadProcStdout(ReadProcStdoutArgs { id: other }),
        1 => Request::ReadProcStderr(ReadProcStderrArgs { id: other }),
        _ => Request::WriteProcStdin(WriteProcStdinArgs { id: other, input: vec![1] }),
    }, to).await?;
    // it may have been gone by then
    let other_in_time = used_other.elapsed() < Duration::from_millis(50) && deads[1].1.elapsed() < ttl;
    ctx.case(format!("round {}: a dead process is used ({}): {:?}", round, how, r));
    let ttl_of = |k: &Kept| if k.path.is_some() { file_ttl } else { proc_ttl };
    // requests that name none of them, or something that is not there
    let gone_id = (0..).find(|n| ks.iter().all(|(k, ..)| k.id != *n) && deads.iter().all(|d| d.0 != *n)).unwrap();
    let here = |s: &str| top.0.join(s).to_str().unwrap().to_string();
    let others: Vec<Request> = vec![
        Request::Heartbeat,
        Request::Version,
        Request::Capabilities,
        Request::InternalDebug(request::InternalDebugArgs { input: vec![] }),
        Request::ListDirContents(ListDirContentsArgs { path: here(".") }),
        Request::CreateDir(CreateDirArgs { path: here("a/b"), include_components: true }),
        Request::RenameDir(RenameDirArgs { from: here("a"), to: here("c") }),
        Request::RemoveDir(RemoveDirArgs { path: here("c"), non_empty: true }),
        Request::RemoveUnopenedFile(RemoveUnopenedFileArgs { path: here("f0") }),
        Request::RenameUnopenedFile(RenameUnopenedFileArgs { from: here("f0"), to: here("x") }),
        Request::RemoveDir(RemoveDirArgs { path: here("."), non_empty: false }),
        Request::OpenFile(OpenFileArgs { path: here("none"), create_if_missing: false, write_access: true, read_access: true }),
        Request::ReadFile(ReadFileArgs { id: gone_id, sig: 1 }),
        Request::CloseFile(CloseFileArgs { id: gone_id, sig: 1 }),
        Request::ReadProcStatus(ReadProcStatusArgs { id: gone_id }),
        Request::KillProc(KillProcArgs { id: gone_id }),
        Request::OpenFile(OpenFileArgs { path: here("extra"), create_if_missing: true, write_access: true, read_access: true }),
    ];
    let mut turn = pick(others.len() as u64);
    let only = if pick(2) == 0 { Some(turn) } else { None };
    let until = Instant::now() + ttl * 3;
    let mut dead_gone = false;
    while Instant::now() < until {
        turn += 1;
        ask(&mut p, others[only.unwrap_or(turn % others.len())].clone(), to).await?;
        for (k, how, (read, write)) in ks.iter_mut().filter(|k| !k.0.gone) {
            let there = k.there();
            let now = Instant::now();
            ensure!(there || now >= k.last + ttl_of(k), "{} was gone {:?} after its last use ({}), before its lifetime of {:?} had passed", k.name, now - k.last, how, ttl_of(k));
            if !there {
                k.gone = true;
                continue;
            }
            if k.idle {
                continue;
            }
            let how = if *how == 11 { pick(11) } else { *how };
            ctx.case(format!("round {} {} used ({})", round, k.name, how));
            let sent = Instant::now();
            let moved = |p: &PathBuf| p.parent().unwrap().join(if p.extension().is_some() { p.file_stem().unwrap().to_str().unwrap().to_string() } else { format!("{}.moved", p.file_name().unwrap().to_str().unwrap()) });
            let stale = k.sig.wrapping_add(1 + pick(3) as u32);
            let q = match (&k.path, how) {
                (Some(_), 0) => Request::ReadFile(ReadFileArgs { id: k.id, sig: k.sig }),
                (Some(_), 1) => Request::ReadFile(ReadFileArgs { id: k.id, sig: stale }),
                (Some(p), 2) => Request::OpenFile(OpenFileArgs { path: p.to_str().unwrap().into(), create_if_missing: false, write_access: *write, read_access: *read }),
                (Some(_), 3) => Request::CloseFile(CloseFileArgs { id: k.id, sig: stale }),
                (Some(_), 4) => Request::WriteFile(WriteFileArgs { id: k.id, sig: stale, contents: vec![1] }),
                (Some(p), 5) => Request::RenameFile(RenameFileArgs { id: k.id, sig: k.sig, to: moved(p).to_str().unwrap().into() }),
                (Some(p), 6) => Request::RenameFile(RenameFileArgs { id: k.id, sig: stale, to: moved(p).to_str().unwrap().into() }),
                (Some(_), 7) => Request::RenameFile(RenameFileArgs { id: k.id, sig: k.sig, to: top.0.join("no/such").to_str().unwrap().into() }),
                (Some(_), 8) => Request::RemoveFile(RemoveFileArgs { id: k.id, sig: stale }),
                (Some(_), 9) => Request::WriteFile(WriteFileArgs { id: k.id, sig: k.sig, contents: vec![] }),
                (Some(_), _) => Request::WriteFile(WriteFileArgs { id: k.id, sig: k.sig, contents: vec![1] }),
                (None, 0) => Request::ReadProcStdout(ReadProcStdoutArgs { id: k.id }),
                (None, 1) => Request::ReadProcStderr(ReadProcStderrArgs { id: k.id }),
                (None, 2) => Request::WriteProcStdin(WriteProcStdinArgs { id: k.id, input: vec![1] }),
                (None, 3) => Request::WriteProcStdin(WriteProcStdinArgs { id: k.id, input: vec![] }),
                (None, _) => Request::ReadProcStatus(ReadProcStatusArgs { id: k.id }),
            };
            let r = ask(&mut p, q, to).await?;
            match r {
                Reply::FileWritten(x) => k.sig = x.sig,
                Reply::FileRenamed(x) => {
                    k.sig = x.sig;
                    let now = k.path.as_ref().map(moved);
                    k.path = now;
                }
                Reply::FileOpened(x) => {
                    // it was gone, and is open again
                    ensure!(x.id == k.id || Instant::now() >= k.last + ttl_of(k), "{} was gone before its lifetime had passed: {:?}", k.name, x);
                    k.id = x.id;
                    k.sig = x.sig;
                }
                _ => {}
            }
            // what is there now was there when the request was served
            if k.there() {
                k.last = sent;
            }
        }
        if !dead_gone {
            let known = knows(&mut p, dead, to).await?;
            let now = Instant::now();
            ensure!(known || now >= seen_dead + dead_ttl, "a dead process was forgotten {:?} after it was asked about, its lifetime is {:?}", now - seen_dead, dead_ttl);
            dead_gone = !known;
        }
        tokio::time::delay_for(Duration::from_millis(5)).await;
    }
    // what is idle goes
    ctx.case(format!("round {}: what is idle goes", round));
    let t = Instant::now();
    for (k, ..) in ks.iter().filter(|(k, ..)| k.idle && ttl_of(k) < HOUR) {
        while k.there() {
            ensure!(t.elapsed() < SOON, "{} was still there {:?} after its last use, while others were asked for ({:?})", k.name, k.last.elapsed(), only.map(|n| &others[n]));
            turn += 1;
            ask(&mut p, others[only.unwrap_or(turn % others.len())].clone(), to).await?;
            tokio::time::delay_for(Duration::from_millis(5)).await;
        }
    }
    for (k, how, _) in ks.iter().filter(|(k, ..)| !k.idle && !k.gone) {
        let there = k.there();
        let now = Instant::now();
        ensure!(there || now >= k.last + ttl_of(k), "{} was gone {:?} after its last use ({}), before its lifetime of {:?} had passed", k.name, now - k.last, how, ttl_of(k));
    }
    while short_dead && knows(&mut p, dead, to).await? {
        ensure!(t.elapsed() < SOON, "a dead process was still known {:?} after it was asked about", seen_dead.elapsed());
        tokio::time::delay_for(Duration::from_millis(5)).await;
    }
    // the other was used after that, and so has the lifetime of one that is not known to be dead
    if short_dead {
        ensure!(!other_in_time || knows(&mut p, other, to).await?, "a dead process was forgotten {:?} after it was used ({}), the lifetime is {:?}", used_other.elapsed(), how, proc_ttl);
    } else {
        while knows(&mut p, other, to).await? {
            ensure!(t.elapsed() < SOON, "a dead process was still known {:?} after it was used ({}), the lifetime is {:?}", used_other.elapsed(), how, proc_ttl);
            tokio::time::delay_for(Duration::from_millis(5)).await;
        }
    }
    for (k, ..) in ks.iter().filter(|(k, ..)| k.path.is_none() && !k.gone) {
        let _ = ask(&mut p, Request::KillProc(KillProcArgs { id: k.id }), to).await?;
    }
    srv.shutdown();
    Ok(())
}

/// the known finding of C12, shown on the real server: while the stdin of a process that
/// does not read it takes more than its pipe holds, no other request is answered
pub fn finding_stdin(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("a process that never reads its stdin is sent more than a pipe holds, then a heartbeat from another peer");
    runtime().block_on(async {
        let srv = server(quiet(None)).await;
        let (mut p, mut other) = (Peer::new(), Peer::new());
        let id = start(&mut p, sh("sleep 4", true, false, false), srv.addr()).await?;
        for _ in 0..12 {
            ctx.case("10000 bytes to the stdin of sleep 4, 12 times".into());
            p.request(Request::WriteProcStdin(WriteProcStdinArgs { id, input: vec![1; 10000] }), srv.addr()).await;
            tokio::time::delay_for(Duration::from_millis(50)).await;
        }
        let t = Instant::now();
        ask(&mut other, Request::Heartbeat, srv.addr()).await?;
        ensure!(t.elapsed() < Duration::from_secs(1), "a heartbeat of another peer was answered after {:?}", t.elapsed());
        Ok(())
    })
}
