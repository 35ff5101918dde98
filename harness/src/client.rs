use crate::ensure;
use crate::net::*;
use crate::util::{Ctx, Rng};
use over_there::core::reply::*;
use over_there::core::request;
use over_there::core::{Content, FileAskError, Header, Msg, RemoteFile, RemoteProc, Reply, ReplyError, Request};
use std::time::{Duration, Instant};

const SOON: Duration = Duration::from_secs(5);

fn token(n: u64) -> Reply {
    Reply::Version(VersionArgs { version: format!("answer {}", n) })
}

/// what a decoy is sent as
#[derive(Debug, Clone, Copy)]
enum Decoy {
    NoParent,
    Stranger,
    Answered,
    GivenUp,
    Request,
}

pub fn c14(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("scripted server over UDP loopback: requests that time out, replies without/with unknown/answered/given-up parents, requests with the right parent, duplicates; every answer carries its own text; up to 5000 requests outstanding at once");
    many_outstanding(ctx)?;
    let mut rt = runtime();
    let mut n = 0u64;
    let mut round = 0;
    while round == 0 || ctx.time_left() {
        round += 1;
        if round % 40 == 0 {
            // closes the sockets of the clients before
            rt = runtime();
        }
        let r: Result<(), String> = rt.block_on(async {
            let mut peer = Peer::new();
            let mut client = client_to(peer.addr).await;
            let mut answered: Vec<Header> = vec![];
            let mut given_up: Vec<Header> = vec![];
            for step in 0..12 {
                let (give_up, plan, error, dups) = {
                    let mut g = ctx.rng.borrow_mut();
                    let plan: Vec<Decoy> = (0..g.below(6))
                        .map(|_| *g.pick(&[Decoy::NoParent, Decoy::Stranger, Decoy::Answered, Decoy::GivenUp, Decoy::Request]))
                        .collect();
                    (step > 0 && g.chance(1, 5), plan, g.chance(1, 4), g.below(3))
                };
                ctx.case(format!("round {} step {} give up {} decoys {:?} error {} duplicates {}", round, step, give_up, plan, error, dups));
                n += 1;
                if give_up {
                    client.timeout = Duration::from_millis(15);
                    let t = Instant::now();
                    let (res, got) = tokio::join!(client.ask(Request::Version), peer.next(SOON));
                    ensure!(format!("{:?}", res) == "Err(Timeout)", "a request without a reply ended in {:?}", res);
                    let e = t.elapsed();
                    ensure!(e >= Duration::from_millis(15) && e < SOON, "the timeout of 15 ms came after {:?}", e);
                    let (m, _) = got.ok_or("the request did not arrive")?;
                    ensure!(m.content == Content::Request(Request::Version) && m.parent_header.is_none(), "the request arrived as {:?}", m);
                    given_up.push(m.header);
                    continue;
                }
                client.timeout = SOON;
                let script = async {
                    let (m, from) = peer.next(SOON).await?;
                    for (k, d) in plan.iter().enumerate() {
                        let lie = token(1_000_000 * n + k as u64);
                        match d {
                            // with the id of the request as its own
                            Decoy::NoParent if k % 2 == 1 => {
                                let mut l = Msg::new(Content::Reply(lie), None);
                                l.header = m.header.clone();
                                peer.send(&l, from).await
                            }
                            Decoy::NoParent => peer.reply(None, lie, from).await,
                            Decoy::Stranger => {
                                let mut h = m.header.clone();
                                h.id = h.id.wrapping_add(1 + k as u32 * 7919);
                                let mut l = Msg::new(Content::Reply(lie), Some(h));
                                if k % 2 == 1 {
                                    l.header.id = m.header.id;
                                }
                                peer.send(&l, from).await
                            }
                            Decoy::Answered if !answered.is_empty() => {
                                let h = answered[k % answered.len()].clone();
                                peer.reply(Some(h), lie, from).await
                            }
                            Decoy::GivenUp if !given_up.is_empty() => {
                                let h = given_up[k % given_up.len()].clone();
                                peer.reply(Some(h), lie, from).await
                            }
                            Decoy::Request => peer.send(&Msg::new(Content::Request(Request::Version), Some(m.header.clone())), from).await,
                            _ => {}
                        }
                    }
                    let answer = if error {
                        Reply::Error(ReplyError::Generic(GenericErrorArgs::from(format!("answer {}", n))))
                    } else {
                        token(n)
                    };
                    // the parent is known by its id
                    let mut h = m.header.clone();
                    if n % 3 == 0 {
                        h.creation_date = Header::default().creation_date;
                    }
                    peer.reply(Some(h.clone()), answer, from).await;
                    for k in 0..dups {
                        peer.reply(Some(h.clone()), token(2_000_000 * n + k as u64), from).await;
                    }
                    Some(m)
                };
                let (res, m) = tokio::join!(client.ask(Request::Version), script);
                let m = m.ok_or("the request did not arrive")?;
                answered.push(m.header);
                let want = if error { format!("Err(Failure {{ msg: \"answer {}\" }})", n) } else { format!("Ok({:?})", token(n)) };
                ensure!(format!("{:?}", res) == want, "the answer to the request was {} and it got {:?}", want, res);
            }
            // requests given up earlier are as if they had never been
            client.timeout = SOON;
            let h = client.ask(Request::Heartbeat);
            let s = async {
                let (m, from) = peer.next(SOON).await?;
                for g in &given_up {
                    peer.reply(Some(g.clone()), token(7), from).await;
                }
                peer.reply(Some(m.header), Reply::Heartbeat, from).await;
                Some(())
            };
            let (res, _) = tokio::join!(h, s);
            ensure!(res == Ok(Reply::Heartbeat), "the last request got {:?}", res);
            Ok(())
        });
        r?;
        if round >= 4000 {
            break;
        }
    }
    Ok(())
}

/// what hands replies on, with many requests waiting
fn many_outstanding(ctx: &Ctx) -> Result<(), String> {
    use std::sync::{Arc, Mutex};
    for total in [1usize, 2, 40, 700, 5000].iter() {
        let g = &mut *ctx.rng.borrow_mut();
        ctx.case(format!("{} requests outstanding at once", total));
        let mut m = over_there::utils::CallbackManager::<u64>::default();
        let got: Arc<Mutex<Vec<(usize, u64)>>> = Arc::default();
        let mut ids: Vec<u32> = vec![];
        for k in 0..*total {
            let id = if g.chance(1, 2) { g.u64() as u32 } else { k as u32 };
            if ids.contains(&id) {
                continue;
            }
            let (got, at) = (got.clone(), ids.len());
            m.add_callback(id, move |x: &u64| got.lock().unwrap().push((at, *x)));
            ids.push(id);
        }
        let mut order: Vec<usize> = (0..ids.len()).collect();
        g.shuffle(&mut order);
        let mut want = vec![];
        for (n, at) in order.iter().enumerate() {
            let stranger = g.u64() as u32;
            if !ids.contains(&stranger) {
                m.invoke_callback(stranger, &9);
            }
            m.invoke_callback(ids[*at], &(100 + n as u64));
            want.push((*at, 100 + n as u64));
            // the second one is ignored
            m.invoke_callback(ids[order[g.below(n + 1)]], &7);
            let len = got.lock().unwrap().len();
            ensure!(len == want.len() && got.lock().unwrap()[n] == want[n], "with {} requests outstanding, reply {} went to {:?} instead of {:?}", ids.len() - n, n, got.lock().unwrap().get(n), want[n]);
        }
    }
    Ok(())
}

fn text(g: &mut Rng) -> String {
    if g.chance(1, 2) {
        return g.text();
    }
    let n = if g.chance(1, 60) { 200 + g.below(3000) } else { g.below(12) };
    (0..n).map(|_| *g.pick(&['a', 'b', '/', '.', ' ', '"', '\\', '\n', 'é', '本', '😀'])).collect()
}

pub const REPLY_KINDS: usize = 34;
pub fn gen_reply(g: &mut Rng, kind: usize) -> Reply {
    let (id, sig) = (g.u64() as u32, g.u64() as u32);
    let (path, path2) = (text(g), text(g));
    let nb = if g.chance(1, 60) { 1000 + g.below(20_000) } else { g.below(40) };
    let bytes = g.bytes(nb);
    let exit_code = if g.chance(1, 2) { Some(g.u64() as i32) } else { None };
    match kind {
        0 => Reply::Heartbeat,
        1 => Reply::Version(VersionArgs { version: path }),
        2 => Reply::Capabilities(CapabilitiesArgs { capabilities: vec![] }),
        3 => Reply::DirCreated(DirCreatedArgs { path }),
        4 => Reply::DirRenamed(DirRenamedArgs { from: path, to: path2 }),
        5 => Reply::DirRemoved(DirRemovedArgs { path }),
        6 => Reply::DirContentsList(DirContentsListArgs {
            path,
            entries: vec![DirEntry { path: path2, is_file: true, is_dir: false, is_symlink: g.chance(1, 2) }],
        }),
        7 => Reply::FileOpened(FileOpenedArgs { id, sig, path, read: g.chance(1, 2), write: g.chance(1, 2) }),
        8 => Reply::FileClosed(FileClosedArgs { id }),
        9 => Reply::UnopenedFileRenamed(UnopenedFileRenamedArgs { from: path, to: path2 }),
        10 => Reply::FileRenamed(FileRenamedArgs { id, sig }),
        11 => Reply::UnopenedFileRemoved(UnopenedFileRemovedArgs { path }),
        12 => Reply::FileRemoved(FileRemovedArgs { id, sig }),
        13 => Reply::FileContents(FileContentsArgs { id, contents: bytes }),
        14 => Reply::FileWritten(FileWrittenArgs { id, sig }),
        15 => Reply::ProcStarted(ProcStartedArgs { id }),
        16 => Reply::ProcStdinWritten(ProcStdinWrittenArgs { id }),
        17 => Reply::ProcStdoutContents(ProcStdoutContentsArgs { id, output: bytes }),
        18 => Reply::ProcStderrContents(ProcStderrContentsArgs { id, output: bytes }),
        19 => Reply::ProcStatus(ProcStatusArgs { id, is_alive: g.chance(1, 2), exit_code }),
        20 => Reply::ProcKilled(ProcKilledArgs { id, exit_code }),
        21 => Reply::InternalDebug(InternalDebugArgs { output: bytes }),
        22 => Reply::Custom(CustomArgs { data: bytes }),
        23 => Reply::Batch(BatchArgs { results: vec![Reply::Heartbeat, Reply::Version(VersionArgs { version: path })] }),
        24 => Reply::Sequence(SequenceArgs { results: vec![] }),
        25 | 26 => Reply::Error(ReplyError::Generic(GenericErrorArgs { msg: path })),
        27 | 28 => Reply::Error(ReplyError::FileSigChanged(FileSigChangedArgs { id, sig })),
        29 => Reply::Error(ReplyError::Io(IoErrorArgs::from(std::io::Error::from_raw_os_error(1 + (id % 30) as i32)))),
        _ => {
            let k = *g.pick(&[std::io::ErrorKind::NotFound, std::io::ErrorKind::PermissionDenied, std::io::ErrorKind::InvalidInput, std::io::ErrorKind::Other, std::io::ErrorKind::UnexpectedEof]);
            Reply::Error(ReplyError::Io(IoErrorArgs::from(std::io::Error::new(k, path))))
        }
    }
}

/// what a call of the given sort shows, when its own replies are of kind `own`
fn expected(sort: char, own: usize, r: &Reply, kind: usize) -> String {
    let wrap = |s: String| match sort {
        'a' => s,
        _ => format!("GeneralAskFailed({})", s),
    };
    if kind == own {
        // the arguments, as they are
        return match r {
            Reply::Heartbeat => "Ok(())".into(),
            _ => {
                let d = format!("{:?}", r);
                let a = d.find('(').unwrap();
                format!("Ok({})", &d[a + 1..d.len() - 1])
            }
        };
    }
    let e = match r {
        Reply::Error(ReplyError::Generic(x)) => wrap(format!("Failure {{ msg: {:?} }}", x.msg)),
        Reply::Error(ReplyError::Io(x)) if sort != 'a' => {
            let e = match x.os_code {
                Some(c) => std::io::Error::from_raw_os_error(c),
                None => {
                    let k = match format!("{:?}", x.error_kind).as_str() {
                        "NotFound" => std::io::ErrorKind::NotFound,
                        "PermissionDenied" => std::io::ErrorKind::PermissionDenied,
                        "InvalidInput" => std::io::ErrorKind::InvalidInput,
                        "UnexpectedEof" => std::io::ErrorKind::UnexpectedEof,
                        _ => std::io::ErrorKind::Other,
                    };
                    std::io::Error::new(k, x.description.clone())
                }
            };
            format!("IoError({:?})", e)
        }
        Reply::Error(ReplyError::FileSigChanged(x)) if sort == 'f' => format!("FileSignatureChanged {{ id: {} }}", x.id),
        _ => wrap(format!("InvalidResponse {{ reply: {:?} }}", r)),
    };
    format!("Err({})", e)
}

pub fn c15(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("every typed client call against every kind of reply, with random contents, over UDP loopback; the outcome, the request that left and the caller's file signature are compared with the reply");
    let mut rt = runtime();
    let mut turn = 0usize;
    let r: Result<(), String> = rt.block_on(async {
        let mut peer = Peer::new();
        let mut client = client_to(peer.addr).await;
        client.timeout = SOON;
        // every call with every kind of reply at least once
        while turn < 26 * REPLY_KINDS || ctx.time_left() {
            let call = turn % 26;
            let kind = (turn / 26) % REPLY_KINDS;
            turn += 1;
            let (reply, s1, s2, bytes, id, sig, b1, b2, b3) = {
                let mut g = ctx.rng.borrow_mut();
                let nb = g.below(30);
                (gen_reply(&mut g, kind), text(&mut g), text(&mut g), g.bytes(nb), g.u64() as u32, g.u64() as u32, g.chance(1, 2), g.chance(1, 2), g.chance(1, 2))
            };
            let kind = match kind {
                k if k > 24 => 99,
                k => k,
            };
            ctx.case(format!("call {} reply {:?}", call, reply));
            let mut file = RemoteFile::from(FileOpenedArgs { id, sig, path: s1.clone(), read: true, write: true });
            let proc = RemoteProc::shallow(id);
            let script = async {
                let (m, from) = peer.next(SOON).await?;
                peer.reply(Some(m.header.clone()), reply.clone(), from).await;
                Some(m.content)
            };
            macro_rules! go {
                ($sort:expr, $own:expr, $req:expr, $call:expr) => {{
                    let (res, seen) = tokio::join!($call, script);
                    let seen = seen.ok_or("the request did not arrive")?;
                    ensure!(seen == Content::Request($req), "the call sent {:?}", seen);
                    let want = expected($sort, $own, &reply, kind);
                    let got = format!("{:?}", res);
                    ensure!(got == want, "the reply was {:?}; the call returned {} and not {}", reply, got, want);
                }};
            }
            let mut sig_now = sig;
            let own_sig = |own: usize| match (&reply, kind == own) {
                (Reply::FileRenamed(a), true) => a.sig,
                (Reply::FileRemoved(a), true) => a.sig,
                (Reply::FileWritten(a), true) => a.sig,
                _ => sig,
            };
            let args = vec![s2.clone(), String::from("x")];
            match call {
                0 => go!('a', 0, Request::Heartbeat, client.ask_heartbeat()),
                1 => go!('a', 1, Request::Version, client.ask_version()),
                2 => go!('a', 2, Request::Capabilities, client.ask_capabilities()),
                3 => go!('f', 3, Request::CreateDir(request::CreateDirArgs { path: s1.clone(), include_components: b1 }), client.ask_create_dir(s1.clone(), b1)),
                4 => go!('f', 4, Request::RenameDir(request::RenameDirArgs { from: s1.clone(), to: s2.clone() }), client.ask_rename_dir(s1.clone(), s2.clone())),
                5 => go!('f', 5, Request::RemoveDir(request::RemoveDirArgs { path: s1.clone(), non_empty: b1 }), client.ask_remove_dir(s1.clone(), b1)),
                6 => go!('f', 6, Request::ListDirContents(request::ListDirContentsArgs { path: s1.clone() }), client.ask_list_dir_contents(s1.clone())),
                7 => go!('f', 6, Request::ListDirContents(request::ListDirContentsArgs { path: ".".into() }), client.ask_list_root_dir_contents()),
                8 => go!('f', 7, Request::OpenFile(request::OpenFileArgs { path: s1.clone(), create_if_missing: true, write_access: true, read_access: true }), client.ask_open_file(s1.clone())),
                9 => go!('f', 7, Request::OpenFile(request::OpenFileArgs { path: s1.clone(), create_if_missing: b1, write_access: b2, read_access: b3 }), client.ask_open_file_with_options(s1.clone(), b1, b2, b3)),
                10 => go!('f', 8, Request::CloseFile(request::CloseFileArgs { id, sig }), client.ask_close_file(&file)),
                11 => {
                    go!('f', 10, Request::RenameFile(request::RenameFileArgs { id, sig, to: s2.clone() }), client.ask_rename_file(&mut file, s2.clone()));
                    sig_now = own_sig(10);
                }
                12 => go!('f', 9, Request::RenameUnopenedFile(request::RenameUnopenedFileArgs { from: s1.clone(), to: s2.clone() }), client.ask_rename_unopened_file(s1.clone(), s2.clone())),
                13 => {
                    go!('f', 12, Request::RemoveFile(request::RemoveFileArgs { id, sig }), client.ask_remove_file(&mut file));
                    sig_now = own_sig(12);
                }
                14 => go!('f', 11, Request::RemoveUnopenedFile(request::RemoveUnopenedFileArgs { path: s1.clone() }), client.ask_remove_unopened_file(s1.clone())),
                15 => go!('f', 13, Request::ReadFile(request::ReadFileArgs { id, sig }), client.ask_read_file(&file)),
                16 => {
                    go!('f', 14, Request::WriteFile(request::WriteFileArgs { id, sig, contents: bytes.clone() }), client.ask_write_file(&mut file, &bytes));
                    sig_now = own_sig(14);
                }
                17 => go!('e', 15, exec(&s1, &args, true, true, true, None), client.ask_exec_proc(s1.clone(), args.clone())),
                18 => go!('e', 15, exec(&s1, &args, true, true, true, Some(s2.clone())), client.ask_exec_proc_with_current_dir(s1.clone(), args.clone(), s2.clone())),
                19 => go!('e', 15, exec(&s1, &args, b1, b2, b3, None), client.ask_exec_proc_with_options(s1.clone(), args.clone(), b1, b2, b3, None)),
                20 => go!('e', 16, Request::WriteProcStdin(request::WriteProcStdinArgs { id, input: bytes.clone() }), client.ask_write_proc_stdin(&proc, &bytes)),
                21 => go!('e', 17, Request::ReadProcStdout(request::ReadProcStdoutArgs { id }), client.ask_read_proc_stdout(&proc)),
                22 => go!('e', 18, Request::ReadProcStderr(request::ReadProcStderrArgs { id }), client.ask_read_proc_stderr(&proc)),
                23 => go!('e', 19, Request::ReadProcStatus(request::ReadProcStatusArgs { id }), client.ask_read_proc_status(&proc)),
                24 => go!('e', 20, Request::KillProc(request::KillProcArgs { id }), client.ask_proc_kill(&proc)),
                _ => go!('a', 21, Request::InternalDebug(request::InternalDebugArgs { input: vec![] }), client.ask_internal_debug()),
            }
            let want = format!("{:?}", RemoteFile::from(FileOpenedArgs { id, sig: sig_now, path: s1.clone(), read: true, write: true }));
            ensure!(format!("{:?}", file) == want, "the caller's file is {:?} and not {} after the reply {:?}", file, want, reply);
        }
        Ok(())
    });
    let _: Option<FileAskError> = None;
    r
}

fn exec(c: &str, a: &[String], stdin: bool, stdout: bool, stderr: bool, current_dir: Option<String>) -> Request {
    Request::ExecProc(request::ExecProcArgs { command: c.into(), args: a.to_vec(), stdin, stdout, stderr, current_dir })
}
