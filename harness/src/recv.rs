use crate::ensure;
use crate::net::runtime;
use crate::util::{hex, Ctx};
use over_there::core::transport::auth::{NoopAuthenticator, Sha256Authenticator};
use over_there::core::transport::crypto::{self, Aes256GcmBicrypter, NoopBicrypter};
use over_there::core::transport::{Authenticator, Bicrypter, Wire};
use over_there::core::{request::CustomArgs, AddrEventManager, Content, EventManager, Msg, Request};
use std::collections::{HashMap, HashSet};
use std::net::SocketAddr;
use std::time::Duration;
use tokio::sync::mpsc;

const SOON: Duration = Duration::from_secs(10);
const LONG: Duration = Duration::from_secs(300);

fn msg(n: u64, pad: usize) -> Msg {
    let mut d = n.to_be_bytes().to_vec();
    d.resize(8 + pad, 7);
    Msg::from(Content::Request(Request::Custom(CustomArgs { data: d })))
}

fn packets<A, B>(size: usize, a: &A, b: &B, data: &[u8]) -> Vec<Vec<u8>>
where
    A: Authenticator + Clone,
    B: Bicrypter + Clone,
{
    let (_, mut out) = Wire::new(size, LONG, a.clone(), b.clone()).clone_split();
    out.process(data).unwrap()
}

/// what is sent besides whole messages
#[derive(Debug, Clone, Copy)]
enum Junk {
    Empty,
    Random,
    Cut,
    Extended,
    Flipped,
    WrongSigner,
    WrongKey,
    NotAMessage,
    Partial,
    Repeated,
}
const JUNK: [Junk; 10] = [Junk::Empty, Junk::Random, Junk::Cut, Junk::Extended, Junk::Flipped, Junk::WrongSigner, Junk::WrongKey, Junk::NotAMessage, Junk::Partial, Junk::Repeated];

struct Kit<A, B> {
    a: A,
    b: B,
    wrong_a: A,
    wrong_b: B,
    sealed: bool,
}

/// the datagrams of one piece of junk, and the message they may amount to
fn junk<A, B>(ctx: &Ctx, kit: &Kit<A, B>, size: usize, j: Junk, n: u64) -> (Vec<Vec<u8>>, Option<Msg>)
where
    A: Authenticator + Clone,
    B: Bicrypter + Clone,
{
    let mut g = ctx.rng.borrow_mut();
    let m = msg(n, g.below(40));
    let data = m.to_vec().unwrap();
    match j {
        Junk::Empty => (vec![vec![]], None),
        Junk::Random => {
            let k = 1 + g.below(60);
            (vec![g.bytes(k)], None)
        }
        Junk::Cut => {
            let mut p = packets(size, &kit.a, &kit.b, &data).remove(0);
            let k = g.below(p.len());
            p.truncate(k);
            (vec![p], None)
        }
        Junk::Extended => {
            let mut p = packets(size, &kit.a, &kit.b, &data).remove(0);
            p.push(g.u64() as u8);
            (vec![p], Some(m))
        }
        Junk::Flipped if kit.sealed => {
            let mut p = packets(size, &kit.a, &kit.b, &data).remove(0);
            let k = g.below(p.len());
            p[k] ^= 1 << g.below(8);
            (vec![p], Some(m))
        }
        Junk::WrongSigner if kit.sealed => (packets(size, &kit.wrong_a, &kit.b, &data), None),
        Junk::WrongKey if kit.sealed => (packets(size, &kit.a, &kit.wrong_b, &data), None),
        Junk::NotAMessage => {
            let k = g.below(200);
            let d = g.bytes(k);
            let d = match g.below(3) {
                0 => serde_cbor::to_vec(&("header", 5u32, vec![1u8, 2])).unwrap(),
                1 => data[..data.len() - 1 - g.below(10)].to_vec(),
                _ => d,
            };
            (packets(size, &kit.a, &kit.b, &d), None)
        }
        Junk::Partial => {
            let big = msg(n, 1500).to_vec().unwrap();
            let mut p = packets(size, &kit.a, &kit.b, &big);
            let k = g.below(p.len());
            p.remove(k);
            (p, None)
        }
        Junk::Repeated => {
            // the second copy of a packet not yet complete is refused
            let big = msg(n, 1500).to_vec().unwrap();
            let p = packets(size, &kit.a, &kit.b, &big);
            (vec![p[0].clone(), p[0].clone()], None)
        }
        _ => (vec![vec![0xff]], None),
    }
}

/// until nothing waits in the socket's buffer, which could overflow otherwise
async fn drained(at: SocketAddr) {
    let port = format!(":{:04X} ", at.port());
    for _ in 0..500 {
        tokio::time::delay_for(Duration::from_millis(1)).await;
        let Ok(t) = std::fs::read_to_string("/proc/net/udp") else { continue };
        // sl local remote st tx_queue:rx_queue
        let waiting = t.lines().filter(|l| l.split_whitespace().nth(1).map(|a| format!("{} ", a).ends_with(&port)).unwrap_or(false)).any(|l| {
            l.split_whitespace().nth(4).and_then(|q| q.split(':').nth(1).map(|r| r.chars().any(|c| c != '0'))).unwrap_or(true)
        });
        if !waiting {
            return;
        }
    }
}

async fn udp<A, B>(ctx: &Ctx, kit: Kit<A, B>, n0: &mut u64) -> Result<(), String>
where
    A: Authenticator + Clone + Send + Sync + 'static,
    B: Bicrypter + Clone + Send + Sync + 'static,
{
    let size = 508;
    let sock = tokio::net::UdpSocket::bind("127.0.0.1:0").await.unwrap();
    let to = sock.local_addr().unwrap();
    // whoever takes the messages may be slower than they come
    let room = *ctx.rng.borrow_mut().pick(&[1000usize, 1000, 1000, 1, 3]);
    let (tx, mut rx) = mpsc::channel::<(Msg, SocketAddr, mpsc::Sender<(Vec<u8>, SocketAddr)>)>(room);
    let wire = Wire::new(size, LONG, kit.a.clone(), kit.b.clone());
    let h = tokio::runtime::Handle::current();
    let clone_half = ctx.rng.borrow_mut().chance(1, 2);
    let _manager = if clone_half {
        AddrEventManager::for_udp_socket_with_cloneable_wire(h, 1000, sock, wire, tx)
    } else {
        AddrEventManager::for_udp_socket(h, 1000, sock, wire, tx)
    };
    let mut sources: Vec<std::net::UdpSocket> = vec![];
    for _ in 0..3 {
        let s = std::net::UdpSocket::bind("127.0.0.1:0").unwrap();
        s.set_read_timeout(Some(SOON)).unwrap();
        sources.push(s);
    }
    for _ in 0..6 {
        let mut must: HashMap<u32, (Msg, SocketAddr)> = HashMap::new();
        let mut maybe: HashSet<u32> = HashSet::new();
        let mut datagrams: Vec<(usize, Vec<u8>)> = vec![];
        let plan: Vec<Option<Junk>> = {
            let mut g = ctx.rng.borrow_mut();
            if room == 1000 && g.chance(1, 8) {
                // nothing but junk for long, of one kind or of all
                let one = *g.pick(&JUNK);
                let all = g.chance(1, 2);
                (0..g.range(70, 300)).map(|_| Some(if all { *g.pick(&JUNK) } else { one })).collect()
            } else {
                (0..3 + g.below(10)).map(|_| if g.chance(1, if room == 1000 { 3 } else { 1 }) { None } else { Some(*g.pick(&JUNK)) }).collect()
            }
        };
        ctx.case(format!("udp, signed and encrypted: {}, clone: {}, room for {}, in order: {:?}, numbers from {}", kit.sealed, clone_half, room, plan, n0));
        // sometimes one that takes many packets
        let large = if room == 1000 && ctx.rng.borrow_mut().chance(1, 8) { Some(ctx.rng.borrow_mut().range(60_000, 140_000)) } else { None };
        for (k, p) in plan.iter().enumerate() {
            *n0 += 1;
            let src = k % sources.len();
            match p {
                Some(j) => {
                    let (ds, m) = junk(ctx, &kit, size, *j, *n0);
                    if let Some(m) = m {
                        maybe.insert(m.header.id);
                    }
                    datagrams.extend(ds.into_iter().map(|d| (src, d)));
                }
                None => {
                    let pad = if k < 3 && large.is_some() { large.unwrap() } else if *n0 % 4 == 0 { 1200 } else { 5 };
                    let m = msg(*n0, pad);
                    let ds = packets(size, &kit.a, &kit.b, &m.to_vec().unwrap());
                    must.insert(m.header.id, (m, sources[src].local_addr().unwrap()));
                    datagrams.extend(ds.into_iter().map(|d| (src, d)));
                }
            }
        }
        // the last one shows that everything before it was handled
        *n0 += 1;
        let last = msg(*n0, 0);
        let src = *n0 as usize % sources.len();
        must.insert(last.header.id, (last.clone(), sources[src].local_addr().unwrap()));
        for d in packets(size, &kit.a, &kit.b, &last.to_vec().unwrap()) {
            datagrams.push((src, d));
        }
        for (k, (s, d)) in datagrams.iter().enumerate() {
            sources[*s].send_to(d, to).unwrap();
            if k % 40 == 39 && room == 1000 {
                drained(to).await;
            }
        }
        if room < 1000 {
            tokio::time::delay_for(Duration::from_millis(5)).await;
        }
        loop {
            let got = tokio::time::timeout(SOON, rx.recv()).await.map_err(|_| {
                format!("{} message(s) sent among {} datagrams did not come out", must.len(), datagrams.len())
            })?;
            let (m, from, mut back) = got.ok_or("the receive loop ended")?;
            match must.remove(&m.header.id) {
                Some((w, a)) => {
                    ensure!(w == m, "message {:?} came out as {:?}", w, m);
                    ensure!(a == from, "the message of {} came out as from {}", a, from);
                }
                None => ensure!(maybe.remove(&m.header.id), "a message came out that was not sent or had come out before: {:?}", m),
            }
            if m == last {
                // the sender that comes with it leads back
                back.send((b"back".to_vec(), from)).await.map_err(|_| "the reply channel is closed")?;
                let mut buf = [0u8; 2000];
                let (k, who) = sources[src].recv_from(&mut buf).map_err(|e| format!("nothing came back: {}", e))?;
                ensure!(who == to, "answer from {}", who);
                let (mut inb, _) = Wire::new(size, LONG, kit.a.clone(), kit.b.clone()).clone_split();
                let r = inb.process(&buf[..k]);
                ensure!(matches!(&r, Ok(Some(x)) if x == b"back"), "what came back is {}: {:?}", hex(&buf[..k]), r.is_ok());
                ensure!(must.is_empty(), "{} message(s) did not come out: {:?}", must.len(), must.values().next());
                break;
            }
        }
    }
    Ok(())
}

async fn tcp<A, B>(ctx: &Ctx, kit: Kit<A, B>, n0: &mut u64) -> Result<(), String>
where
    A: Authenticator + Clone + Send + Sync + 'static,
    B: Bicrypter + Clone + Send + Sync + 'static,
{
    use std::io::Write;
    let size = 1500;
    let l = match std::net::TcpListener::bind("127.0.0.1:0") {
        Ok(l) => l,
        Err(_) => return Ok(()),
    };
    let mut near = match std::net::TcpStream::connect(l.local_addr().unwrap()) {
        Ok(s) => s,
        Err(_) => return Ok(()),
    };
    near.set_nodelay(true).unwrap();
    let (far, from) = l.accept().unwrap();
    far.set_nonblocking(true).unwrap();
    let far = tokio::net::TcpStream::from_std(far).unwrap();
    let (tx, mut rx) = mpsc::channel::<(Msg, SocketAddr, mpsc::Sender<Vec<u8>>)>(1000);
    let wire = Wire::new(size, LONG, kit.a.clone(), kit.b.clone());
    let _manager = EventManager::for_tcp_stream(tokio::runtime::Handle::current(), 1000, far, from, wire, tx);
    let mut sent: HashMap<u32, Msg> = HashMap::new();
    let mut maybe: HashSet<u32> = HashSet::new();
    for _ in 0..6 {
        *n0 += 1;
        let j = *ctx.rng.borrow_mut().pick(&JUNK);
        let times = if ctx.rng.borrow_mut().chance(1, 12) { 90 } else { 1 };
        ctx.case(format!("tcp, signed and encrypted: {}, {:?} {} times, number {}", kit.sealed, j, times, n0));
        for _ in 0..times {
            *n0 += 1;
            let (ds, m) = junk(ctx, &kit, size, j, *n0);
            if let Some(m) = m {
                maybe.insert(m.header.id);
            }
            for d in ds {
                near.write_all(&d).map_err(|e| format!("the stream is closed: {}", e))?;
                tokio::time::delay_for(Duration::from_millis(2)).await;
            }
        }
        // the stream has no frames: a message that runs into what came before is
        // lost, so it is tried again
        let mut through = false;
        for _ in 0..50 {
            *n0 += 1;
            let m = msg(*n0, 5);
            sent.insert(m.header.id, m.clone());
            for d in packets(size, &kit.a, &kit.b, &m.to_vec().unwrap()) {
                near.write_all(&d).map_err(|e| format!("the stream is closed: {}", e))?;
            }
            if let Ok(got) = tokio::time::timeout(Duration::from_millis(200), rx.recv()).await {
                let (m, a, _) = got.ok_or("the receive loop ended")?;
                ensure!(a == from, "the message came out as from {} and not {}", a, from);
                match sent.remove(&m.header.id) {
                    Some(w) => {
                        ensure!(w == m, "message {:?} came out as {:?}", w, m);
                        through = true;
                        break;
                    }
                    None => ensure!(maybe.remove(&m.header.id), "a message came out that was not sent or had come out before: {:?}", m),
                }
            }
        }
        ensure!(through, "nothing came out any more");
    }
    // once the other side has closed the stream there is nothing left to receive
    ctx.case(format!("tcp, signed and encrypted: {}, closed after number {}", kit.sealed, n0));
    drop(near);
    loop {
        match tokio::time::timeout(SOON, rx.recv()).await {
            Err(_) => return Err("the receive loop goes on after the stream was closed".into()),
            Ok(None) => break,
            Ok(Some((m, _, _))) => ensure!(sent.remove(&m.header.id).is_some() || maybe.remove(&m.header.id), "a message came out that was not sent or had come out before: {:?}", m),
        }
    }
    Ok(())
}

pub fn c18(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("datagrams (and writes on a TCP stream) of ten kinds of junk, also in long runs, mixed with whole messages from three senders, plain and signed+encrypted; large ones and a slow taker too; exactly the whole messages come out, with their sender's address");
    let mut n = 0u64;
    let mut round = 0;
    while round < 2 || ctx.time_left() {
        round += 1;
        let mut rt = runtime();
        rt.block_on(async {
            let key = crypto::key::new_256bit_key();
            let other = crypto::key::new_256bit_key();
            for k in 0..10 {
                if k > 0 && !ctx.time_left() {
                    break;
                }
                udp(ctx, Kit { a: NoopAuthenticator, b: NoopBicrypter, wrong_a: NoopAuthenticator, wrong_b: NoopBicrypter, sealed: false }, &mut n).await?;
                udp(
                    ctx,
                    Kit {
                        a: Sha256Authenticator::new(b"one"),
                        b: Aes256GcmBicrypter::new(&key),
                        wrong_a: Sha256Authenticator::new(b"two"),
                        wrong_b: Aes256GcmBicrypter::new(&other),
                        sealed: true,
                    },
                    &mut n,
                )
                .await?;
            }
            tcp(ctx, Kit { a: NoopAuthenticator, b: NoopBicrypter, wrong_a: NoopAuthenticator, wrong_b: NoopBicrypter, sealed: false }, &mut n).await?;
            let r: Result<(), String> = Ok(());
            r
        })?;
        rt.shutdown_timeout(Duration::from_secs(1));
    }
    Ok(())
}
