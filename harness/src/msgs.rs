//! messages of every kind
use crate::ensure;
use crate::util::{Ctx, Rng};
use over_there::core::reply::{self, *};
use over_there::core::request::{self, *};
use over_there::core::{Content, Header, LazilyTransformedRequest, Msg, Reply, ReplyError, Request};

fn text(g: &mut Rng) -> String {
    g.text()
}
fn num(g: &mut Rng) -> u32 {
    let r = g.u64() as u32;
    *g.pick(&[0, 1, 23, 24, 255, 256, 65535, 65536, u32::max_value(), r])
}
fn code(g: &mut Rng) -> Option<i32> {
    *g.pick(&[None, Some(0), Some(1), Some(-1), Some(255), Some(i32::min_value()), Some(i32::max_value())])
}
fn flag(g: &mut Rng) -> bool {
    g.chance(1, 2)
}
fn data(g: &mut Rng) -> Vec<u8> {
    let n = *g.pick(&[0usize, 1, 5, 23, 24, 255, 256, 1000]);
    g.bytes(n)
}
fn addr(g: &mut Rng) -> std::net::SocketAddr {
    g.pick(&["127.0.0.1:0", "0.0.0.0:65535", "[::1]:80", "[2001:db8::7]:1", "[::ffff:1.2.3.4]:9"]).parse().unwrap()
}

pub fn request(g: &mut Rng, kind: usize, depth: usize) -> Request {
    let (id, sig) = (num(g), num(g));
    let (path, from, to) = (text(g), text(g), text(g));
    let some = if depth == 0 { 0 } else { g.below(4) };
    match kind {
        0 => Request::Heartbeat,
        1 => Request::Version,
        2 => Request::Capabilities,
        3 => Request::CreateDir(CreateDirArgs { path, include_components: flag(g) }),
        4 => Request::RenameDir(RenameDirArgs { from, to }),
        5 => Request::RemoveDir(RemoveDirArgs { path, non_empty: flag(g) }),
        6 => Request::ListDirContents(ListDirContentsArgs { path }),
        7 => Request::OpenFile(OpenFileArgs { path, create_if_missing: flag(g), write_access: flag(g), read_access: flag(g) }),
        8 => Request::CloseFile(CloseFileArgs { id, sig }),
        9 => Request::RenameUnopenedFile(RenameUnopenedFileArgs { from, to }),
        10 => Request::RenameFile(RenameFileArgs { id, sig, to }),
        11 => Request::RemoveUnopenedFile(RemoveUnopenedFileArgs { path }),
        12 => Request::RemoveFile(RemoveFileArgs { id, sig }),
        13 => Request::ReadFile(ReadFileArgs { id, sig }),
        14 => Request::WriteFile(WriteFileArgs { id, sig, contents: data(g) }),
        15 => Request::ExecProc(ExecProcArgs {
            command: path,
            args: (0..g.below(3)).map(|_| text(g)).collect(),
            stdin: flag(g),
            stdout: flag(g),
            stderr: flag(g),
            current_dir: if flag(g) { Some(from) } else { None },
        }),
        16 => Request::WriteProcStdin(WriteProcStdinArgs { id, input: data(g) }),
        17 => Request::ReadProcStdout(ReadProcStdoutArgs { id }),
        18 => Request::ReadProcStderr(ReadProcStderrArgs { id }),
        19 => Request::KillProc(KillProcArgs { id }),
        20 => Request::ReadProcStatus(ReadProcStatusArgs { id }),
        21 => Request::Sequence(request::SequenceArgs {
            operations: (0..some)
                .map(|_| {
                    let k = g.below(REQUESTS);
                    let rules = (0..g.below(3)).map(|_| TransformRule { path: text(g), value: text(g) }).collect();
                    LazilyTransformedRequest::new(request(g, k, depth - 1), rules)
                })
                .collect(),
        }),
        22 => Request::Batch(request::BatchArgs {
            operations: (0..some)
                .map(|_| {
                    let k = g.below(REQUESTS);
                    request(g, k, depth - 1)
                })
                .collect(),
        }),
        23 => {
            let k = if depth == 0 { 1 } else { g.below(REQUESTS) };
            Request::Forward(request::ForwardArgs { address: addr(g), request: Box::new(request(g, k, depth.saturating_sub(1))) })
        }
        24 => Request::Custom(request::CustomArgs { data: data(g) }),
        _ => Request::InternalDebug(request::InternalDebugArgs { input: data(g) }),
    }
}
pub const REQUESTS: usize = 26;

pub fn reply(g: &mut Rng, kind: usize, depth: usize) -> Reply {
    let (id, sig) = (num(g), num(g));
    let (path, from, to) = (text(g), text(g), text(g));
    let some = if depth == 0 { 0 } else { g.below(4) };
    let mut several = |g: &mut Rng| {
        (0..some)
            .map(|_| {
                let k = g.below(REPLIES);
                reply(g, k, depth - 1)
            })
            .collect::<Vec<_>>()
    };
    match kind {
        0 => Reply::Heartbeat,
        1 => Reply::Version(VersionArgs { version: path }),
        2 => {
            let mut c = over_there::core::reply::CapabilitiesArgs::default();
            if flag(g) {
                c.capabilities.clear();
            }
            Reply::Capabilities(c)
        }
        3 => Reply::DirCreated(DirCreatedArgs { path }),
        4 => Reply::DirRenamed(DirRenamedArgs { from, to }),
        5 => Reply::DirRemoved(DirRemovedArgs { path }),
        6 => Reply::DirContentsList(DirContentsListArgs {
            path,
            entries: (0..g.below(3)).map(|_| DirEntry { path: text(g), is_file: flag(g), is_dir: flag(g), is_symlink: flag(g) }).collect(),
        }),
        7 => Reply::FileOpened(FileOpenedArgs { id, sig, path, read: flag(g), write: flag(g) }),
        8 => Reply::FileClosed(FileClosedArgs { id }),
        9 => Reply::UnopenedFileRenamed(UnopenedFileRenamedArgs { from, to }),
        10 => Reply::FileRenamed(FileRenamedArgs { id, sig }),
        11 => Reply::UnopenedFileRemoved(UnopenedFileRemovedArgs { path }),
        12 => Reply::FileRemoved(FileRemovedArgs { id, sig }),
        13 => Reply::FileContents(FileContentsArgs { id, contents: data(g) }),
        14 => Reply::FileWritten(FileWrittenArgs { id, sig }),
        15 => Reply::ProcStarted(ProcStartedArgs { id }),
        16 => Reply::ProcStdinWritten(ProcStdinWrittenArgs { id }),
        17 => Reply::ProcStdoutContents(ProcStdoutContentsArgs { id, output: data(g) }),
        18 => Reply::ProcStderrContents(ProcStderrContentsArgs { id, output: data(g) }),
        19 => Reply::ProcKilled(ProcKilledArgs { id, exit_code: code(g) }),
        20 => Reply::ProcStatus(ProcStatusArgs { id, is_alive: flag(g), exit_code: code(g) }),
        21 => Reply::Error(ReplyError::Generic(GenericErrorArgs { msg: path })),
        22 => {
            let e = if flag(g) { std::io::Error::from_raw_os_error(1 + g.below(40) as i32) } else { std::io::Error::new(std::io::ErrorKind::NotFound, path) };
            Reply::Error(ReplyError::Io(IoErrorArgs::from(e)))
        }
        23 => Reply::Error(ReplyError::FileSigChanged(FileSigChangedArgs { id, sig })),
        24 => Reply::Sequence(reply::SequenceArgs { results: several(g) }),
        25 => Reply::Batch(reply::BatchArgs { results: several(g) }),
        26 => {
            let k = if depth == 0 { 0 } else { g.below(REPLIES) };
            Reply::Forward(reply::ForwardArgs { address: addr(g), reply: Box::new(reply(g, k, depth.saturating_sub(1))) })
        }
        27 => Reply::Custom(reply::CustomArgs { data: data(g) }),
        _ => Reply::InternalDebug(reply::InternalDebugArgs { output: data(g) }),
    }
}
pub const REPLIES: usize = 29;

/// a message of every kind is decoded as what was encoded
pub fn round_trip(ctx: &Ctx) -> Result<(), String> {
    for kind in 0..REQUESTS + REPLIES {
        for n in 0..6 {
            let mut g = ctx.rng.borrow_mut();
            let content = if kind < REQUESTS { Content::Request(request(&mut g, kind, n / 2)) } else { Content::Reply(reply(&mut g, kind - REQUESTS, n / 2)) };
            let parent = if flag(&mut g) { Some(Header::default()) } else { None };
            drop(g);
            let m = Msg::new(content, parent);
            ctx.case(format!("encoding {:?}", m));
            let b = m.to_vec().map_err(|e| format!("{:?} could not be encoded: {}", m, e))?;
            let d = Msg::from_slice(&b).map_err(|e| format!("{:?} could not be decoded: {}", m, e))?;
            // (some kinds of I/O error have no name here)
            ensure!(d == m || kind == REQUESTS + 22 || format!("{:?}", m).contains("IoError"), "{:?} was decoded as {:?}", m, d);
        }
    }
    Ok(())
}
