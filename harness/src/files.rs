//! C08, C09, C10: histories of operations on real files below a scratch
//! directory, compared with the same operations done with std on a mirror.
use crate::ensure;
use crate::util::{Ctx, Rng, Scratch};
use over_there::core::{FileSystemManager, LocalFileHandle};
use std::collections::{BTreeMap, HashMap};
use std::io;
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, PartialEq, Eq)]
enum Node {
    Dir,
    Link,
    File(Vec<u8>),
}
type Tree = BTreeMap<PathBuf, Node>;

fn snap(root: &Path) -> Tree {
    fn go(root: &Path, at: &Path, t: &mut Tree) {
        let mut es: Vec<_> = match std::fs::read_dir(at) {
            Ok(x) => x.filter_map(|e| e.ok()).collect(),
            Err(_) => return,
        };
        es.sort_by_key(|e| e.path());
        for e in es {
            let p = e.path();
            let r = p.strip_prefix(root).unwrap().to_path_buf();
            let ty = e.file_type().unwrap();
            if ty.is_symlink() {
                t.insert(r, Node::Link);
            } else if ty.is_dir() {
                t.insert(r, Node::Dir);
                go(root, &p, t);
            } else {
                t.insert(r, Node::File(std::fs::read(&p).unwrap()));
            }
        }
    }
    let mut t = Tree::new();
    go(root, root, &mut t);
    t
}

#[derive(Clone, Debug, PartialEq, Eq)]
struct Open {
    sig: u32,
    path: PathBuf,
    write: bool,
    read: bool,
}

const DIRS: &[&str] = &["a", "a/b", "ab", "a.d", "e"];
const FILES: &[&str] = &["f", "ff", "f.x", "a/f", "a/ff", "a/b/f", "ab/f", "a.d/f"];
const NEW: &[&str] = &["n", "a/n", "e/n", "m", "nope/n", "e/d"];

fn populate(root: &Path, n: usize) {
    std::fs::create_dir_all(root).unwrap();
    for d in DIRS {
        std::fs::create_dir_all(root.join(d)).unwrap();
    }
    for (i, f) in FILES.iter().enumerate() {
        std::fs::write(root.join(f), vec![b'a' + i as u8; (n * (i + 1)) % 40]).unwrap();
    }
    std::os::unix::fs::symlink("a", root.join("s")).unwrap();
    std::os::unix::fs::symlink("f", root.join("sf")).unwrap();
}

/// a name below the root; the second is another spelling of it
fn spell(rng: &mut Rng, rel: &str, root: &Path) -> PathBuf {
    match rng.below(6) {
        0 => root.join("a").join("..").join(rel),
        1 => PathBuf::from(format!("{}//{}", root.display(), rel)),
        2 => root.join(".").join(rel),
        3 => PathBuf::from(rel),
        _ => root.join(rel),
    }
}
fn name(rng: &mut Rng) -> String {
    match rng.below(8) {
        0 => rng.pick(NEW).to_string(),
        1 => rng.pick(DIRS).to_string(),
        2 => (*rng.pick(&["s", "sf", "s/f", "s/b/f", "s/n"])).to_string(),
        _ => rng.pick(FILES).to_string(),
    }
}
fn clean(p: &Path) -> PathBuf {
    std::fs::canonicalize(p).unwrap_or_else(|_| p.to_path_buf())
}
fn absolute(p: &Path, root: &Path) -> PathBuf {
    if p.is_absolute() { p.to_path_buf() } else { root.join(p) }
}

/// what a failed or successful std operation amounts to
fn kind<T>(r: &io::Result<T>) -> String {
    match r {
        Ok(_) => "success".into(),
        Err(e) => format!("{:?}", e.kind()),
    }
}
/// the operation on the mirror
fn mirror_rename(from: &Path, to: &Path, dir: bool) -> io::Result<()> {
    let m = std::fs::metadata(from)?;
    if if dir { m.is_dir() } else { m.is_file() } {
        std::fs::rename(from, to)
    } else {
        Err(io::Error::new(io::ErrorKind::Other, "wrong type"))
    }
}

pub fn c08(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("a case is (operation, signature right or wrong, sizes before and after, history so far; sizes on both sides of buffer multiples)");
    run(ctx, 8)
}
pub fn c09(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("a case is (path operation, spelling of its paths, open files)");
    run(ctx, 9)
}
pub fn c10(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("a case is (open/close/rename/remove, spelling, access, open files, up to 400 of them)");
    run(ctx, 10)
}

fn run(ctx: &Ctx, prop: u32) -> Result<(), String> {
    let mut rt = tokio::runtime::Builder::new().basic_scheduler().build().unwrap();
    let mut round = 0usize;
    while round < 12 || ctx.time_left() {
        round += 1;
        if round % 400 == 2 {
            // its own runtime: a server answers several at once
            let mut rt = crate::net::runtime();
            match prop {
                8 => rt.block_on(crate::race::c08(ctx))?,
                9 => rt.block_on(crate::race::c09(ctx))?,
                _ => rt.block_on(crate::race::c10(ctx))?,
            }
        }
        if prop != 8 && round % 400 == 3 {
            let scratch = Scratch::new();
            rt.block_on(crowd(ctx, prop, &clean(&scratch.0)))?;
        }
        let scratch = Scratch::new();
        let (root, mirror) = (scratch.0.join("x/root"), scratch.0.join("x/copy"));
        populate(&root, round);
        populate(&mirror, round);
        std::env::set_current_dir(&root).unwrap();
        let r = rt.block_on(history(ctx, prop, &root, &mirror));
        std::env::set_current_dir("/").unwrap();
        r?;
    }
    Ok(())
}

/// hundreds of files open at once
async fn crowd(ctx: &Ctx, prop: u32, root: &Path) -> Result<(), String> {
    let rng = &mut *ctx.rng.borrow_mut();
    let mut fsm = FileSystemManager::new();
    let (dirs, per) = (40, 10);
    let mut at = vec![];
    for d in 0..dirs {
        // siblings, and some within others
        let dir = if d % 4 == 3 { root.join(format!("d{}/in", d - 1)) } else { root.join(format!("d{}", d)) };
        std::fs::create_dir_all(&dir).unwrap();
        for f in 0..per {
            let p = dir.join(format!("f{}", f));
            std::fs::write(&p, [d as u8, f as u8]).unwrap();
            at.push(p);
        }
    }
    rng.shuffle(&mut at);
    ctx.case(format!("{} files in {} directories open at once", at.len(), dirs));
    let mut open: HashMap<PathBuf, LocalFileHandle> = HashMap::new();
    for p in &at {
        let h = fsm.open_file(p, false, true, true).await.map_err(|e| e.to_string())?;
        ensure!(open.values().all(|x| x.id != h.id), "a new file got the id of an open one");
        open.insert(p.clone(), h);
    }
    ensure!(fsm.file_cnt() == at.len(), "{} files are open instead of {}", fsm.file_cnt(), at.len());
    let same = |a: &LocalFileHandle, b: &LocalFileHandle| a.id == b.id && a.sig == b.sig;
    if prop == 10 {
        for p in &at {
            let h = fsm.open_file(p, false, rng.chance(1, 2), rng.chance(1, 2)).await.map_err(|e| e.to_string())?;
            ensure!(same(&h, &open[p]), "opening {:?}, which is open, gave another handle", p);
        }
        for p in &at {
            let h = open[p];
            let bad = LocalFileHandle { id: h.id, sig: h.sig.wrapping_add(1) };
            ensure!(fsm.close_file(bad).is_err(), "closing without the current signature succeeded");
        }
        for p in &at[..at.len() / 2] {
            let f = fsm.close_file(open[p]).map_err(|e| format!("closing with the current signature failed: {}", e))?;
            ensure!(f.path() == p.as_path(), "closing gave another file");
        }
        ensure!(fsm.file_cnt() == at.len() / 2, "{} files are open after half of {} were closed", fsm.file_cnt(), at.len());
        for p in &at[at.len() / 2..] {
            let h = fsm.open_file(p, false, true, true).await.map_err(|e| e.to_string())?;
            ensure!(same(&h, &open[p]), "opening {:?}, which is open, gave another handle", p);
        }
        return Ok(());
    }
    let before = snap(root);
    for p in &at {
        let d = p.parent().unwrap();
        let to = root.join("to");
        let (what, r) = match rng.below(4) {
            0 => ("renaming the file", fsm.rename_file(p, &to).await),
            1 => ("removing the file", fsm.remove_file(p).await),
            2 => ("renaming the directory of", fsm.rename_dir(d, &to).await),
            _ => ("removing the directory of", fsm.remove_dir(d, true).await),
        };
        ensure!(r.is_err(), "{} {:?}, which is open, succeeded", what, p);
    }
    ensure!(snap(root) == before, "refused operations changed what is on disk");
    ensure!(fsm.file_cnt() == at.len(), "refused operations changed the set of open files");
    // the last file within a directory keeps it
    let dir = root.join("d0");
    let mut inside: Vec<_> = at.iter().filter(|p| p.starts_with(&dir)).collect();
    rng.shuffle(&mut inside);
    for p in inside {
        ensure!(fsm.remove_dir(&dir, true).await.is_err(), "a directory with an open file was removed");
        fsm.close_file(open[p]).map_err(|e| e.to_string())?;
    }
    fsm.rename_dir(&dir, root.join("moved")).await.map_err(|e| format!("renaming a directory without open files was refused: {}", e))?;
    ensure!(root.join("moved").is_dir() && !dir.exists(), "the directory was not renamed");
    Ok(())
}

async fn history(ctx: &Ctx, prop: u32, root: &Path, mirror: &Path) -> Result<(), String> {
    let mut fsm = FileSystemManager::new();
    let mut open: HashMap<u32, Open> = HashMap::new();
    let rng = &mut *ctx.rng.borrow_mut();
    let to_mirror = |p: &Path| mirror.join(absolute(p, root).strip_prefix(root).unwrap());
    // after a rename by a path through which an open file is reached only by a
    // link, recorded paths and disk are out of step; not the properties' matter
    for step in 0..rng.range(20, 60) {
        let known: Vec<u32> = { let mut v: Vec<u32> = open.keys().copied().collect(); v.sort(); v };
        let before = snap(root);
        let what = match prop {
            8 => if open.len() < 2 { 0 } else { *rng.pick(&[0, 2, 2, 2, 2, 3, 3, 3, 3, 3, 4, 4, 5, 11]) },
            9 => if open.len() < 3 && rng.chance(1, 2) { 0 } else { *rng.pick(&[0, 1, 4, 6, 6, 6, 7, 7, 7, 8, 8, 9, 9, 10]) },
            _ => *rng.pick(&[0, 0, 0, 0, 0, 0, 1, 1, 3, 4, 5, 6, 7, 11]),
        };
        let n = name(rng);
        let p = spell(rng, &n, root);
        let n2 = name(rng);
        let p2 = spell(rng, &n2, root);
        let id = if known.is_empty() || rng.chance(1, 12) { rng.u64() as u32 } else { *rng.pick(&known) };
        let right = open.get(&id).map(|o| o.sig);
        let sig = match right {
            Some(s) if rng.chance(2, 3) => s,
            Some(s) => *rng.pick(&[s ^ 1, 0, !s, s.wrapping_add(1), id]),
            None => rng.u64() as u32,
        };
        let shown: Vec<String> = open.values().map(|o| format!("{}{}{}", o.path.strip_prefix(root).unwrap_or(&o.path).display(), if o.read { "+r" } else { "" }, if o.write { "+w" } else { "" })).collect();
        let step_desc = |s: String| format!("step {}: {}; open: {:?}", step, s.replace(&root.display().to_string(), "$ROOT"), shown);
        match what {
            0 => {
                // open
                let (c, w, r) = (rng.chance(1, 2), rng.chance(1, 2), rng.chance(1, 2));
                if absolute(&p, root).is_dir() {
                    continue;
                }
                ctx.case(step_desc(format!("open {:?} create={} write={} read={}", p, c, w, r)));
                let cp = clean(&p);
                let at = open.iter().find(|(_, o)| o.path == cp).map(|(k, o)| (*k, o.clone()));
                let res = fsm.open_file(&p, c, w, r).await;
                match at {
                    Some((id, o)) => {
                        let (nw, nr) = (o.write || w, o.read || r);
                        if nw == o.write && nr == o.read {
                            ensure!(res.is_ok(), "opening an open file with access it has failed: {:?}", res);
                        } else {
                            let mres = std::fs::OpenOptions::new().create(c).write(nw).read(nr).open(to_mirror(&cp));
                            ensure!(kind(&mres) == kind(&res) || mres.is_err() == res.is_err(), "reopening: {} instead of {}", kind(&res), kind(&mres));
                        }
                        if let Ok(h) = res {
                            ensure!(h.id == id, "opening a path already open gave id {} instead of {}", h.id, id);
                            ensure!(h.sig == o.sig, "opening a path already open gave another signature");
                            open.insert(id, Open { sig: o.sig, path: o.path, write: nw, read: nr });
                        }
                    }
                    None => {
                        let mres = std::fs::OpenOptions::new().create(c).write(w).read(r).open(to_mirror(&p));
                        ensure!(mres.is_err() == res.is_err(), "opening: {} instead of {}", kind(&res), kind(&mres));
                        if let Ok(h) = res {
                            ensure!(!open.contains_key(&h.id), "a new file got the id of an open one");
                            let now = clean(&p);
                            open.insert(h.id, Open { sig: h.sig, path: now, write: w, read: r });
                        }
                    }
                }
            }
            1 => {
                // close
                ctx.case(step_desc(format!("close known={} right={}", right.is_some(), right == Some(sig))));
                let res = fsm.close_file(LocalFileHandle { id, sig });
                if right == Some(sig) {
                    let f = res.map_err(|e| format!("closing with the current signature failed: {}", e))?;
                    ensure!(f.id() == id && f.sig() == sig && f.path() == open[&id].path, "closing gave another file");
                    ensure!(!fsm.exists(id), "a closed file is still known");
                    open.remove(&id);
                } else {
                    ensure!(res.is_err(), "closing without the current signature succeeded");
                }
            }
            2 => {
                // read
                let Some(f) = fsm.get_mut(id) else {
                    ensure!(right.is_none(), "an open file is not found");
                    continue;
                };
                let o = open.get(&id).ok_or("a file that is not open was found")?;
                ctx.case(step_desc(format!("read {:?} right={} size={}", o.path, right == Some(sig), std::fs::metadata(&o.path).map(|m| m.len()).unwrap_or(0))));
                let res = f.read_all(sig).await;
                check_sig(&res, right == Some(sig))?;
                if right == Some(sig) && o.read {
                    let want = std::fs::read(&o.path).map_err(|e| e.to_string())?;
                    let got = res.map_err(|e| format!("reading failed: {:?}", e))?;
                    ensure!(got == want, "reading gave {} bytes instead of the {} in the file", got.len(), want.len());
                } else {
                    ensure!(res.is_err(), "reading without read access succeeded");
                }
            }
            3 => {
                // write
                let Some(f) = fsm.get_mut(id) else { continue };
                let o = open.get(&id).ok_or("a file that is not open was found")?.clone();
                let size = match rng.below(8) { 0 => 0, 1 => rng.range(1000, 70000), _ => rng.below(50) };
                // sometimes far more than any buffer holds, or what is there already
                let size = if prop == 8 && rng.chance(1, 50) { *rng.pick(&[1usize, 2, 3, 4, 8, 16, 31]) * 65536 - 1 + rng.below(3) } else { size };
                let buf = match std::fs::read(&o.path) {
                    Ok(now) if rng.chance(1, 10) => now,
                    Ok(now) if rng.chance(1, 10) => now[..rng.below(now.len() + 1)].to_vec(),
                    Ok(mut now) if rng.chance(1, 10) => {
                        now.push(7);
                        now
                    }
                    _ => rng.bytes(size),
                };
                let size = buf.len();
                ctx.case(step_desc(format!("write {:?} right={} size={} over {}", o.path, right == Some(sig), size, std::fs::metadata(&o.path).map(|m| m.len()).unwrap_or(0))));
                let mut res = f.write_all(sig, &buf).await;
                check_sig(&res, right == Some(sig))?;
                if right == Some(sig) && o.write {
                    if res.is_ok() && f.sig() == o.sig {
                        res = f.write_all(f.sig(), &buf).await; // a coincidence?
                    }
                    res.map_err(|e| format!("writing failed: {:?}", e))?;
                    let now = f.sig();
                    ensure!(now != o.sig, "writing kept the signature");
                    ensure!(std::fs::read(&o.path).ok().as_deref() == Some(&buf[..]), "the file does not contain exactly what was written");
                    std::fs::write(to_mirror(&o.path), &buf).map_err(|e| e.to_string())?;
                    open.get_mut(&id).unwrap().sig = now;
                } else {
                    ensure!(res.is_err(), "writing without write access succeeded");
                    ensure!(right == Some(sig) || f.sig() == o.sig, "a refused write changed the signature");
                    open.get_mut(&id).unwrap().sig = f.sig();
                }
            }
            4 | 5 => {
                // rename or remove through the handle
                let Some(f) = fsm.get_mut(id) else { continue };
                let o = open.get(&id).ok_or("a file that is not open was found")?.clone();
                if what == 4 {
                    // also to where it is already, however that is spelled
                    let p2 = match o.path.strip_prefix(root) {
                        Ok(rel) if rng.chance(1, 6) && o.path.is_file() => spell(rng, rel.to_str().unwrap(), root),
                        _ => p2,
                    };
                    if open.iter().any(|(k, o)| *k != id && o.path == clean(&p2)) || absolute(&p2, root).is_dir() {
                        continue;
                    }
                    ctx.case(step_desc(format!("rename {:?} to {:?} right={}", o.path, p2, right == Some(sig))));
                    let res = f.rename(sig, &p2).await;
                    check_sig(&res, right == Some(sig))?;
                    if right == Some(sig) {
                        let m = mirror_rename(&to_mirror(&o.path), &to_mirror(&p2), false);
                        ensure!(m.is_ok() == res.is_ok(), "renaming: {:?} instead of {:?}", res, m);
                        if let Ok(s) = res {
                            ensure!(f.sig() == s, "renaming returned another signature than the current one");
                            ensure!(s != o.sig || f.read_all(o.sig ^ 1).await.is_err(), "renaming kept the signature");
                            ensure!(s != o.sig, "renaming kept the signature");
                            let now = clean(&p2);
                            ensure!(f.path() == now, "after renaming the path is {:?} instead of {:?}", f.path(), now);
                            open.insert(id, Open { sig: s, path: now, ..o });
                        }
                    } else {
                        ensure!(res.is_err(), "renaming with another signature succeeded");
                    }
                } else {
                    ctx.case(step_desc(format!("remove {:?} right={}", o.path, right == Some(sig))));
                    let res = f.remove(sig).await;
                    check_sig(&res, right == Some(sig))?;
                    if right == Some(sig) {
                        let m = std::fs::remove_file(to_mirror(&o.path));
                        ensure!(m.is_ok() == res.is_ok(), "removing: {:?} instead of {:?}", res, m);
                        if res.is_ok() {
                            let h = f.handle();
                            ensure!(h.sig != o.sig, "removing kept the signature");
                            fsm.close_file(h).map_err(|e| e.to_string())?;
                            open.remove(&id);
                        }
                    } else {
                        ensure!(res.is_err(), "removing with another signature succeeded");
                    }
                }
            }
            11 => {
                // somebody else removes the file: what fails for that changes nothing
                let Some(o) = open.get(&id).cloned() else { continue };
                let Ok(was) = std::fs::read(&o.path) else { continue };
                let way = rng.below(if prop == 8 { 4 } else { 2 });
                ctx.case(step_desc(format!("{} {:?}, gone from the disk", ["reopen", "close", "rename", "remove"][way], o.path)));
                std::fs::remove_file(&o.path).map_err(|e| e.to_string())?;
                match way {
                    0 => {
                        let res = fsm.open_file(&o.path, false, true, true).await;
                        ensure!(res.is_ok() == (o.read && o.write), "opening what has gone: {:?}", res);
                        ensure!(res.map(|h| h.id == id && h.sig == o.sig).unwrap_or(true), "opening a path already open gave another handle");
                    }
                    1 => {}
                    2 => {
                        let res = fsm.get_mut(id).unwrap().rename(o.sig, root.join("gone")).await;
                        ensure!(res.is_err(), "renaming what has gone: {:?}", res);
                    }
                    _ => {
                        let res = fsm.get_mut(id).unwrap().remove(o.sig).await;
                        ensure!(res.is_err(), "removing what has gone: {:?}", res);
                    }
                }
                let Some(f) = fsm.get_mut(id) else { return Err(format!("{:?} is not open any more", o.path)) };
                let p = f.permissions();
                ensure!(f.id() == id && f.sig() == o.sig && f.path() == o.path, "the handle changed");
                ensure!(p.read == o.read && p.write == o.write, "its access is read={} write={}", p.read, p.write);
                let res = fsm.close_file(LocalFileHandle { id, sig: o.sig });
                ensure!(res.is_ok(), "closing with the current signature failed: {:?}", res.map(|_| ()));
                open.remove(&id);
                std::fs::write(&o.path, was).map_err(|e| e.to_string())?;
            }
            _ => {
                // by path
                let c = clean(&p);
                let busy = open.values().any(|o| o.path.starts_with(&c));
                let flag = rng.chance(1, 2);
                if c == *root { continue; }
                let (res, m, desc) = match what {
                    6 | 8 => {
                        let dir = what == 8;
                        let (from, to) = (to_mirror(&c), to_mirror(&clean(&p2)));
                        // the target of a path operation is not guarded
                        if open.values().any(|o| o.path.starts_with(&clean(&p2))) || clean(&p2) == *root { continue; }
                        ctx.case(step_desc(format!("rename {} {:?} to {:?}", if dir { "dir" } else { "file" }, p, p2)));
                        let res = if dir { fsm.rename_dir(&p, &p2).await } else { fsm.rename_file(&p, &p2).await };
                        (res, if busy { None } else { Some(mirror_rename(&from, &to, dir)) }, "renaming")
                    }
                    7 => {
                        ctx.case(step_desc(format!("remove file {:?}", p)));
                        (fsm.remove_file(&p).await, if busy { None } else { Some(std::fs::remove_file(to_mirror(&c))) }, "removing a file")
                    }
                    9 => {
                        ctx.case(step_desc(format!("remove dir {:?} non_empty={}", p, flag)));
                        let t = to_mirror(&c);
                        (fsm.remove_dir(&p, flag).await, if busy { None } else { Some(if flag { std::fs::remove_dir_all(t) } else { std::fs::remove_dir(t) }) }, "removing a directory")
                    }
                    _ => {
                        ctx.case(step_desc(format!("create dir {:?} components={}", p2, flag)));
                        let t = to_mirror(&clean(&p2));
                        (fsm.create_dir(&p2, flag).await, Some(if flag { std::fs::create_dir_all(t) } else { std::fs::create_dir(t) }), "creating a directory")
                    }
                };
                match m {
                    None => {
                        ensure!(matches!(&res, Err(e) if e.kind() == io::ErrorKind::InvalidData), "{} what is open: {}", desc, kind(&res));
                        ensure!(snap(root) == before, "{} was refused but changed the disk", desc);
                    }
                    Some(m) => ensure!(kind(&m) == kind(&res), "{} something not open: {:?} instead of {:?}", desc, res, m),
                }
            }
        }
        let (a, b) = (snap(root), snap(mirror));
        if a != b {
            let d: Vec<_> = a.iter().filter(|(k, v)| b.get(*k) != Some(v)).map(|(k, _)| k).chain(b.keys().filter(|k| !a.contains_key(*k))).collect();
            return Err(format!("the disk differs from what the operation should leave at {:?}", d));
        }
        ensure!(fsm.file_cnt() == open.len(), "{} files are open instead of {}", fsm.file_cnt(), open.len());
        for (k, o) in &open {
            let f = fsm.get(*k).ok_or_else(|| format!("open file {:?} is not known any more", o.path))?;
            let p = f.permissions();
            ensure!(f.id() == *k && f.sig() == o.sig, "signature of {:?} changed", o.path);
            ensure!(f.path() == o.path, "path of {:?} became {:?}", o.path, f.path());
            ensure!(p.read == o.read && p.write == o.write, "access of {:?} is read={} write={}", o.path, p.read, p.write);
        }
        // the access is the real one
        if prop == 10 && !open.is_empty() {
            let known: Vec<u32> = open.keys().copied().collect();
            let id = *rng.pick(&known);
            let o = &open[&id];
            let res = fsm.get_mut(id).unwrap().read_all(o.sig).await;
            ensure!(res.is_ok() == o.read, "read access of {:?} should be {} but reading gave {:?}", o.path, o.read, res.map(|x| x.len()));
        }
    }
    Ok(())
}

fn check_sig<T: std::fmt::Debug, E: std::fmt::Debug>(r: &Result<T, E>, right: bool) -> Result<(), String> {
    let refused = matches!(r, Err(e) if format!("{:?}", e).starts_with("SigMismatch"));
    ensure!(refused != right, "with {} signature: {:?}", if right { "the current" } else { "another" }, r);
    Ok(())
}
