//! a scripted peer over UDP loopback, for the client and the server
use over_there::core::transport::auth::NoopAuthenticator;
use over_there::core::transport::crypto::NoopBicrypter;
use over_there::core::transport::{NetTransmission, UdpSocketInboundWire, UdpSocketOutboundWire, Wire};
use over_there::core::{Client, ClientBuilder, ConnectedClient, Content, Header, Msg, Reply, Request, Transport};
use std::net::SocketAddr;
use std::time::{Duration, Instant};

pub type Plain = (NoopAuthenticator, NoopBicrypter);

/// one end of a UDP conversation, using the real wire
pub struct Peer {
    pub addr: SocketAddr,
    pub raw: std::net::UdpSocket,
    pub inb: UdpSocketInboundWire<NoopAuthenticator, NoopBicrypter>,
    pub out: UdpSocketOutboundWire<NoopAuthenticator, NoopBicrypter>,
}

pub fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new().threaded_scheduler().core_threads(4).enable_all().build().unwrap()
}

fn dated(id: u32, date: &str) -> Header {
    serde_json::from_str(&format!("{{\"id\":{},\"creation_date\":\"{}\"}}", id, date)).unwrap()
}

impl Peer {
    /// inside a runtime
    pub fn new() -> Peer {
        let raw = std::net::UdpSocket::bind("127.0.0.1:0").unwrap();
        let addr = raw.local_addr().unwrap();
        let sock = tokio::net::UdpSocket::from_std(raw.try_clone().unwrap()).unwrap();
        let wire = Wire::new(NetTransmission::udp_from_addr(addr).into(), Duration::from_secs(300), NoopAuthenticator, NoopBicrypter);
        let (inb, out) = wire.with_udp_socket(sock).clone_split();
        Peer { addr, raw, inb, out }
    }
    /// the next message, or None when nothing came for that long
    pub async fn next(&mut self, wait: Duration) -> Option<(Msg, SocketAddr)> {
        let until = Instant::now() + wait;
        loop {
            let left = match until.checked_duration_since(Instant::now()) {
                Some(d) if d > Duration::from_secs(0) => d,
                _ => return None,
            };
            match tokio::time::timeout(left, self.inb.read()).await {
                Err(_) => return None,
                Ok(Ok((Some(d), a))) => {
                    if let Ok(m) = Msg::from_slice(&d) {
                        return Some((m, a));
                    }
                }
                Ok(x) => { if std::env::var("DBG").is_ok() { eprintln!("{:?}", x.map(|(d, a)| (d.map(|d| d.len()), a))); } }
            }
        }
    }
    pub async fn send(&mut self, m: &Msg, to: SocketAddr) {
        self.out.write_to(&m.to_vec().unwrap(), to).await.unwrap();
    }
    pub async fn reply(&mut self, parent: Option<Header>, r: Reply, to: SocketAddr) {
        let mut m = Msg::new(Content::Reply(r), parent);
        // neither the id nor the time of a reply says what it answers
        match m.header.id % 8 {
            0 => m.header = dated(m.header.id, "1970-01-01T00:00:00Z"),
            1 => m.header = dated(m.header.id, "2999-12-31T12:00:00.5Z"),
            2 => m.header.id = m.parent_header.as_ref().map_or(0, |h| h.id),
            _ => {}
        }
        self.send(&m, to).await;
    }
    pub async fn request_within(&mut self, r: Request, parent: Option<Header>, to: SocketAddr) -> Msg {
        let m = Msg::new(Content::Request(r), parent);
        self.send(&m, to).await;
        m
    }
    pub async fn request(&mut self, r: Request, to: SocketAddr) -> Msg {
        let m = Msg::from(r);
        self.send(&m, to).await;
        m
    }
}

pub async fn client_to(addr: SocketAddr) -> ConnectedClient {
    let c: Client<NoopAuthenticator, NoopBicrypter> = ClientBuilder::default()
        .authenticator(NoopAuthenticator)
        .bicrypter(NoopBicrypter)
        .transport(Transport::Udp(vec![addr]))
        .build()
        .unwrap();
    c.connect().await.unwrap()
}
