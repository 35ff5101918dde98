//! C12: what the application answers reaches the one it is meant for, whatever became of
//! what was sent to others before; UDP and TCP event managers on loopback.
use crate::ensure;
use crate::util::Ctx;
use over_there::core::transport::auth::NoopAuthenticator;
use over_there::core::transport::crypto::NoopBicrypter;
use over_there::core::transport::Wire;
use over_there::core::{request::CustomArgs, AddrEventManager, Content, Msg, Request};
use std::io::{Read, Write};
use std::net::SocketAddr;
use std::time::Duration;
use tokio::sync::mpsc;

const SOON: Duration = Duration::from_secs(10);
const LONG: Duration = Duration::from_secs(300);

fn msg(n: u64) -> Msg {
    Msg::from(Content::Request(Request::Custom(CustomArgs { data: n.to_be_bytes().to_vec() })))
}

fn wire(size: usize) -> Wire<NoopAuthenticator, NoopBicrypter> {
    Wire::new(size, LONG, NoopAuthenticator, NoopBicrypter)
}

/// reads until the packets make a message
fn heard(what: &str, mut next: impl FnMut(&mut [u8]) -> std::io::Result<usize>) -> Result<Msg, String> {
    let (mut inb, _) = wire(1500).clone_split();
    let mut buf = vec![0; 1500];
    loop {
        let n = next(&mut buf).map_err(|e| format!("{}: {}", what, e))?;
        ensure!(n > 0, "{}: the stream is over", what);
        if let Some(d) = inb.process(&buf[..n]).map_err(|e| format!("{}: {:?}", what, e))? {
            return Msg::from_slice(&d).map_err(|e| format!("{}: {:?}", what, e));
        }
    }
}

pub async fn udp(ctx: &Ctx, n0: &mut u64) -> Result<(), String> {
    let sock = tokio::net::UdpSocket::bind("127.0.0.1:0").await.unwrap();
    let to = sock.local_addr().unwrap();
    let (tx, mut rx) = mpsc::channel::<(Msg, SocketAddr, mpsc::Sender<(Vec<u8>, SocketAddr)>)>(100);
    let h = tokio::runtime::Handle::current();
    let mut manager = if ctx.rng.borrow_mut().chance(1, 2) {
        AddrEventManager::for_udp_socket_with_cloneable_wire(h, 100, sock, wire(508), tx)
    } else {
        AddrEventManager::for_udp_socket(h, 100, sock, wire(508), tx)
    };
    let peers: Vec<std::net::UdpSocket> = (0..3)
        .map(|_| {
            let s = std::net::UdpSocket::bind("127.0.0.1:0").unwrap();
            s.set_read_timeout(Some(SOON)).unwrap();
            s
        })
        .collect();
    let (_, mut out) = wire(508).clone_split();
    for _ in 0..6 {
        let (who, bad, direct) = {
            let mut g = ctx.rng.borrow_mut();
            (g.below(3), g.below(4), g.chance(1, 2))
        };
        *n0 += 1;
        let q = msg(*n0);
        ctx.case(format!("udp manager: message {} from peer {}, before it something to nowhere {}, answered through the manager {}", n0, who, bad, direct));
        for p in out.process(&q.to_vec().unwrap()).unwrap() {
            peers[who].send_to(&p, to).unwrap();
        }
        let (m, from, mut reply_to) = tokio::time::timeout(SOON, rx.recv()).await.ok().and_then(|x| x).ok_or("a message was not handed on")?;
        ensure!(m == q && from == peers[who].local_addr().unwrap(), "{:?} from {} was handed on as {:?} from {}", q, peers[who].local_addr().unwrap(), m, from);
        // an answer that cannot be sent must not keep others from theirs
        let nowhere: Option<SocketAddr> = match bad {
            0 => Some("127.0.0.1:0".parse().unwrap()),
            1 => Some("[::1]:9".parse().unwrap()),
            2 => Some("255.255.255.255:9".parse().unwrap()),
            _ => None,
        };
        if let Some(a) = nowhere {
            manager.send_to(msg(0).to_vec().unwrap(), a).await.map_err(|_| "the manager takes nothing more")?;
        }
        *n0 += 1;
        let r = msg(*n0);
        let d = r.to_vec().unwrap();
        if direct {
            manager.send_to(d, from).await.map_err(|_| format!("the manager takes nothing more (before: {:?})", nowhere))?;
        } else {
            reply_to.send((d, from)).await.map_err(|_| format!("the manager takes nothing more (before: {:?})", nowhere))?;
        }
        let got = heard(&format!("an answer after one to {:?}", nowhere), |b| peers[who].recv_from(b).map(|(n, _)| n))?;
        ensure!(got == r, "{:?} arrived as {:?}", r, got);
    }
    Ok(())
}

pub async fn tcp(ctx: &Ctx, n0: &mut u64) -> Result<(), String> {
    let l = match std::net::TcpListener::bind("127.0.0.1:0") {
        Ok(l) => l,
        Err(_) => return Ok(()),
    };
    let to = l.local_addr().unwrap();
    l.set_nonblocking(true).unwrap();
    let l = match tokio::net::TcpListener::from_std(l) {
        Ok(l) => l,
        Err(_) => return Ok(()),
    };
    let (tx, mut rx) = mpsc::channel::<(Msg, SocketAddr, mpsc::Sender<Vec<u8>>)>(100);
    let mut manager = AddrEventManager::for_tcp_listener(tokio::runtime::Handle::current(), 100, l, wire(1500), tx);
    let join = || {
        let s = std::net::TcpStream::connect(to).unwrap();
        s.set_nodelay(true).unwrap();
        s.set_read_timeout(Some(SOON)).unwrap();
        s
    };
    let mut peers: Vec<std::net::TcpStream> = (0..3).map(|_| join()).collect();
    let mut gone: Option<SocketAddr> = None;
    let (_, mut out) = wire(1500).clone_split();
    for _ in 0..6 {
        let (who, bad, direct) = {
            let mut g = ctx.rng.borrow_mut();
            (g.below(3), g.below(3), g.chance(1, 2))
        };
        *n0 += 1;
        let q = msg(*n0);
        ctx.case(format!("tcp manager: message {} from peer {}, before it something to nowhere {}, answered through the manager {}", n0, who, bad, direct));
        for p in out.process(&q.to_vec().unwrap()).unwrap() {
            peers[who].write_all(&p).unwrap();
        }
        let (m, from, mut reply_to) = tokio::time::timeout(SOON, rx.recv()).await.ok().and_then(|x| x).ok_or("a message was not handed on")?;
        ensure!(m == q && from == peers[who].local_addr().unwrap(), "{:?} from {} was handed on as {:?} from {}", q, peers[who].local_addr().unwrap(), m, from);
        let nowhere: Option<SocketAddr> = match bad {
            0 => Some("127.0.0.1:9".parse().unwrap()),
            1 => gone,
            _ => None,
        };
        if let Some(a) = nowhere {
            manager.send_to(msg(0).to_vec().unwrap(), a).await.map_err(|_| "the manager takes nothing more")?;
        }
        *n0 += 1;
        let r = msg(*n0);
        let d = r.to_vec().unwrap();
        if direct {
            // known from its first message on, at the latest a moment later
            tokio::time::delay_for(Duration::from_millis(20)).await;
            manager.send_to(d, from).await.map_err(|_| "the manager takes nothing more")?;
        } else {
            reply_to.send(d).await.map_err(|_| "the connection takes nothing more")?;
        }
        let got = heard(&format!("an answer after one to {:?}", nowhere), |b| peers[who].read(b))?;
        ensure!(got == r, "{:?} arrived as {:?}", r, got);
        if ctx.rng.borrow_mut().chance(1, 3) {
            gone = Some(peers[who].local_addr().unwrap());
            peers[who] = join();
        }
    }
    Ok(())
}
