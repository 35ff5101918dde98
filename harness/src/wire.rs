use crate::crypt::{Auth, Cipher, AUTHS, CIPHERS};
use crate::ensure;
use crate::util::{hex, Ctx, Rng};
use over_there::core::transport::auth::*;
use over_there::core::transport::crypto::nonce::Nonce;
use over_there::core::transport::{
    DecoderError, InboundWire, InboundWireError, InputProcessorError, OutboundWire, Wire,
};
use over_there::utils::TtlValue;
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, HashSet};
use std::sync::Arc;
use std::time::{Duration, Instant};

const LONG: Duration = Duration::from_secs(3600);

// ---- the packet format, mirrored so that packets can be forged; used only
// when re-serializing a genuine packet through it gives the same bytes

#[derive(Serialize, Deserialize, Debug, Clone, Copy)]
enum MEnc {
    None,
    Encrypted,
    EncryptedWithNonce { nonce: Nonce },
}
#[derive(Serialize, Deserialize, Debug, Clone, Copy)]
enum MType {
    NotFinal,
    Final { encryption: MEnc },
}
#[derive(Serialize, Deserialize, Debug, Clone, Copy)]
struct MMeta {
    id: u32,
    index: u32,
    r#type: MType,
}
mod bytes_ser {
    use serde::{de::Visitor, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &Vec<u8>, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(v)
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Vec<u8>;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("bytes")
            }
            fn visit_bytes<E>(self, v: &[u8]) -> Result<Vec<u8>, E> {
                Ok(v.to_vec())
            }
            fn visit_str<E>(self, v: &str) -> Result<Vec<u8>, E> {
                Ok(v.as_bytes().to_vec())
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Vec<u8>, A::Error> {
                let mut v = vec![];
                while let Some(x) = a.next_element()? {
                    v.push(x);
                }
                Ok(v)
            }
            fn visit_byte_buf<E>(self, v: Vec<u8>) -> Result<Vec<u8>, E> {
                Ok(v)
            }
        }
        d.deserialize_byte_buf(V)
    }
}
#[derive(Serialize, Deserialize, Debug, Clone)]
struct MPacket {
    metadata: MMeta,
    signature: Digest,
    #[serde(with = "bytes_ser")]
    data: Vec<u8>,
}
impl MPacket {
    fn bytes(&self) -> Vec<u8> {
        serde_cbor::ser::to_vec_packed(self).unwrap()
    }
    fn signed(&self, a: &Auth) -> MPacket {
        let mut c = serde_cbor::ser::to_vec_packed(&self.metadata).unwrap();
        c.extend_from_slice(&self.data);
        let mut p = self.clone();
        p.signature = a.sign(&c);
        p
    }
}
fn parse(b: &[u8]) -> Option<MPacket> {
    serde_cbor::from_slice::<MPacket>(b).ok().filter(|p| p.bytes() == b)
}

fn class(e: &InboundWireError) -> String {
    match e {
        InboundWireError::InputProcessor(InputProcessorError::DecodeData(d)) => format!("decode:{:?}", d),
        InboundWireError::InputProcessor(InputProcessorError::InvalidPacketSignature) => "signature".into(),
        InboundWireError::InputProcessor(InputProcessorError::EncodePacket(_)) => "malformed".into(),
        InboundWireError::InputProcessor(InputProcessorError::DecryptData(_)) => "decrypt".into(),
        e => format!("{:?}", e),
    }
}

type In = InboundWire<Auth, Cipher>;
type Out = OutboundWire<Auth, Cipher>;

fn some_size(rng: &mut Rng) -> usize {
    match rng.below(5) {
        0 => rng.range(110, 200),
        1 => rng.range(150, 700),
        2 => *rng.pick(&[128usize, 255, 256, 257, 511, 512, 576, 1024, 1500]),
        3 => rng.range(500, 3000),
        _ => *rng.pick(&[1024usize, 65536]),
    }
}
fn some_len(rng: &mut Rng, size: usize) -> usize {
    match rng.below(7) {
        0 => 0,
        1 => rng.range(1, 30),
        2 => *rng.pick(&[1usize, 15, 16, 17, 23, 24, 25, 255, 256, 257]),
        3 => rng.below(size + 60),
        4 => rng.below(size * 3),
        5 => rng.below(size * 30).min(30000),
        _ => rng.below(2000),
    }
}

// ---- C01

/// one message of more packets than fit in 16 bits, with some out of order
fn many(ctx: &Ctx) -> Result<(), String> {
    let size = 240;
    let wire = Wire::new(size, LONG, Auth::new(AUTHS[0], &[]), Cipher::random(0, &mut *ctx.rng.borrow_mut()));
    let (mut input, mut output): (In, Out) = wire.clone_split();
    let fail = |e: String| format!("a message of more than 65536 packets: {}", e);
    let per = 50_000 / output.process(&[7; 50_000]).map_err(|e| format!("{:?}", e))?.len();
    let n = (per + 1) * 66_000;
    ctx.case(format!("{} bytes in packets of {} bytes", n, size));
    let msg: Vec<u8> = (0..n as u32).map(|i| (i.wrapping_mul(2654435761) >> 13) as u8).collect();
    let mut ps = output.process(&msg).map_err(|e| fail(format!("{:?}", e)))?;
    let last = ps.len() - 1;
    ensure!(last >= 65_536, "the message has {} packets only", ps.len());
    for (i, j) in [(0, 65_536), (1, 256), (65_535, last), (5, 60_000)].iter() {
        ps.swap(*i, *j);
    }
    for (i, p) in ps.iter().enumerate() {
        match input.process(p) {
            Ok(None) if i < last => {}
            Ok(Some(d)) if i == last && d == msg => {}
            Ok(Some(d)) => return Err(fail(format!("after {} of {} packets {} bytes were delivered, not the ones sent", i + 1, last + 1, d.len()))),
            r => return Err(fail(format!("packet {} of {} led to {:?}", i + 1, last + 1, r.map(|_| ())))),
        }
    }
    Ok(())
}

/// However many messages are incomplete at once, each is completed by what it lacks
fn crowd(ctx: &Ctx, n: usize) -> Result<(), String> {
    let rng = &mut *ctx.rng.borrow_mut();
    let wire = Wire::new(600, LONG, Auth::new(AUTHS[1], b"k"), Cipher::random(1, rng));
    let (mut input, mut output): (In, Out) = wire.clone_split();
    ctx.case(format!("{} incomplete messages at once", n));
    let mut seen = HashSet::new();
    let mut all = vec![];
    while all.len() < n {
        let m = rng.bytes(900);
        let mut ps = output.process(&m).map_err(|e| format!("{:?}", e))?;
        // two with the same id are not told apart
        if parse(&ps[0]).map_or(true, |p| seen.insert(p.metadata.id)) {
            rng.shuffle(&mut ps);
            all.push((m, ps));
        }
    }
    for (_, ps) in &all {
        let r = input.process(&ps[0]).map_err(|e| class(&e))?;
        ensure!(r.is_none(), "delivered after one of {} packets", ps.len());
    }
    rng.shuffle(&mut all);
    for (k, (m, ps)) in all.iter().enumerate() {
        let mut got = None;
        for p in &ps[1..] {
            got = input.process(p).map_err(|e| format!("a packet of message {} of {} was refused: {}", k, n, class(&e)))?;
        }
        ensure!(got.as_ref() == Some(m), "message {} of {} incomplete ones was not delivered once its last packet came", k, n);
    }
    Ok(())
}

pub fn c01(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("a case is (authenticator, cipher, transmission size, message lengths, arrival order); distinct by those");
    many(ctx)?;
    crowd(ctx, 4000)?;
    let mut round = 0usize;
    while round < 60 || ctx.time_left() {
        round += 1;
        let rng = &mut *ctx.rng.borrow_mut();
        let (a, c) = (round % 3, (round / 3) % 7);
        let kl = rng_len(rng.u64());
        let key = rng.bytes(kl);
        let auth = Auth::new(AUTHS[a], &key);
        let cipher = Cipher::random(c, rng);
        let size = some_size(rng);
        let wire = Wire::new(size, LONG, auth.clone(), cipher.clone());
        let (mut input, mut output): (In, Out) = wire.clone_split();
        let arc = Wire::new(size, LONG, auth.clone(), cipher.clone());
        let (mut ain, mut aout) = arc.arc_split();
        // sometimes a side that has been at it for long
        let k = if round == 50 || rng.chance(1, 300) { rng.range(40, 400) } else { rng.range(1, 3) };
        let long = round == 55 || rng.chance(1, 300);
        let msgs: Vec<Vec<u8>> = (0..k)
            .map(|_| {
                let n = if long && k < 4 { 60_000 + rng.below(size * 40) } else { some_len(rng, size) };
                rng.bytes(n)
            })
            .collect();
        let order = rng.below(5);
        let desc = format!(
            "{} {} size={} lens={:?} order={} seed={}",
            AUTHS[a], CIPHERS[c], size,
            msgs.iter().map(|m| m.len()).collect::<Vec<_>>(),
            ["in order", "reversed", "shuffled", "final first", "interleaved"][order], ctx.seed
        );
        ctx.case(desc);
        let mut packets = vec![];
        let mut ids = HashSet::new();
        let mut clash = false;
        for (m, msg) in msgs.iter().enumerate() {
            let ps = match if round % 2 == 0 { output.process(msg) } else { aout.process(msg) } {
                Ok(x) => x,
                // a size too small for this signature: nothing to send
                Err(_) if size < 512 => continue,
                Err(e) => return Err(format!("sending {} bytes failed: {:?}", msg.len(), e)),
            };
            if let Some(p) = parse(&ps[0]) {
                clash |= !ids.insert(p.metadata.id);
            }
            let n = ps.len();
            let mut ps: Vec<(usize, usize, Vec<u8>)> = ps.into_iter().enumerate().map(|(i, p)| (m, i, p)).collect();
            match order {
                1 => ps.reverse(),
                2 | 4 => rng.shuffle(&mut ps),
                3 => ps.rotate_right(1),
                _ => (),
            }
            packets.push((n, ps));
        }
        if clash {
            continue; // two messages drew the same random id
        }
        let totals: HashMap<usize, usize> = packets.iter().map(|(n, ps)| (ps[0].0, *n)).collect();
        let mut all: Vec<(usize, usize, Vec<u8>)> = vec![];
        if order == 4 {
            let mut qs: Vec<_> = packets.into_iter().map(|(_, p)| p.into_iter()).collect();
            while !qs.is_empty() {
                let i = rng.below(qs.len());
                match qs[i].next() {
                    Some(p) => all.push(p),
                    None => {
                        qs.remove(i);
                    }
                }
            }
        } else {
            for (_, p) in packets {
                all.extend(p);
            }
        }
        let mut seen: HashMap<usize, usize> = HashMap::new();
        for (m, i, p) in all {
            let s = seen.entry(m).or_default();
            *s += 1;
            let last = *s == totals[&m];
            let got = if round % 2 == 0 { input.process(&p) } else { ain.process(&p) };
            match got {
                Ok(None) => ensure!(!last, "message {}: all {} packets arrived but nothing was delivered", m, s),
                Ok(Some(d)) => {
                    ensure!(last, "message {}: delivered after {} of {} packets", m, s, totals[&m]);
                    ensure!(d == msgs[m], "message {} of {} bytes ({} packets) arrived as {} bytes; sent {} got {}", m, msgs[m].len(), totals[&m], d.len(), hex(&msgs[m]), hex(&d));
                }
                Err(e) => return Err(format!("message {}: packet {} of {} was refused: {}", m, i, totals[&m], class(&e))),
            }
        }
        if round % 400 == 40 {
            drop(input);
            // many packets: positions that need 1, 2 and 3 or more bytes
            let n = if ctx.thorough && round == 40 { 70_000 } else { 700 };
            let auth = Auth::new("noop", b"");
            let cipher = Cipher::new(0, &[]);
            let mut output: Out = OutboundWire::new(130, auth.clone(), cipher.clone());
            let mut input: In = InboundWire::new(130, LONG, auth, cipher);
            let one = match output.process(&vec![7u8; 500]) {
                Ok(p) => 500 / p.len().max(1),
                Err(_) => continue,
            };
            let msg = rng.bytes(one.max(1) * n);
            ctx.case(format!("long message of {} bytes, size 130", msg.len()));
            let mut ps = output.process(&msg).map_err(|e| format!("{:?}", e))?;
            ps.reverse();
            let total = ps.len();
            for (i, p) in ps.into_iter().enumerate() {
                match input.process(&p) {
                    Ok(None) => ensure!(i + 1 < total, "nothing delivered after all {} packets", total),
                    Ok(Some(d)) => ensure!(i + 1 == total && d == msg, "wrong or early delivery at packet {} of {}", i, total),
                    Err(e) => return Err(format!("packet {} of {}: {}", i, total, class(&e))),
                }
            }
        }
    }
    Ok(())
}
fn rng_len(x: u64) -> usize {
    [0usize, 1, 16, 32, 64, 65, 130][(x % 7) as usize]
}

// ---- C02

pub fn c02(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("a case is (signer, cipher, transmission size, message length, sends before it); distinct by those");
    let mut round = 0usize;
    while round < 40 || ctx.time_left() {
        round += 1;
        let rng = &mut *ctx.rng.borrow_mut();
        let size = match rng.below(4) {
            0 => rng.below(120),
            1 => rng.range(80, 400),
            2 => rng.range(0, 1600),
            _ => some_size(rng),
        };
        let cipher = Cipher::random(rng.below(7), rng);
        let kind = rng.below(5);
        let salt = rng.u64();
        let key = rng.bytes(20);
        let auth = Auth::new(AUTHS[kind % 3], &key);
        // digests whose encoded size varies with the content (each byte
        // takes one or two bytes on the wire)
        let f: Arc<dyn Fn(&[u8]) -> Digest + Send + Sync> = Arc::new(move |m: &[u8]| {
            use std::convert::TryFrom;
            use std::hash::{Hash, Hasher};
            if kind < 3 {
                return auth.sign(m);
            }
            let mut h = std::collections::hash_map::DefaultHasher::new();
            (salt, m).hash(&mut h);
            let x = h.finish();
            let big = match x % 3 {
                0 => 0u8,
                1 => 255,
                _ => x as u8,
            };
            let n = if kind == 3 { 32 } else if (x >> 8) % 2 == 0 { 32 } else { 64 };
            Digest::try_from(&vec![big; n][..]).unwrap()
        });
        let signer = ClosureSigner::new(move |m: &[u8]| f(m));
        let mut out = OutboundWire::new(size, signer, cipher.clone());
        let sends = if round == 30 || rng.chance(1, 400) { rng.range(50, 400) } else { rng.range(1, 4) };
        for send in 0..sends {
            let n = some_len(rng, size.max(1)).min(4000);
            let n = if sends < 5 && size > 400 && rng.chance(1, 400) { size * 300 } else { n };
            let msg = rng.bytes(n);
            ctx.case(format!("signer {} {} size={} len={} send={} salt={} seed={}", kind, cipher.name, size, n, send, salt, ctx.seed));
            match out.process(&msg) {
                Ok(ps) => {
                    for (i, p) in ps.iter().enumerate() {
                        ensure!(p.len() <= size, "packet {} of {} occupies {} bytes", i, ps.len(), p.len());
                    }
                    ensure!(!ps.is_empty(), "nothing was sent and no error reported");
                    if size < 30 {
                        return Err(format!("a packet fits into {} bytes?", size));
                    }
                }
                Err(e) => ensure!(size < 512, "size {} is refused: {:?}", size, e),
            }
        }
    }
    Ok(())
}

// ---- C03

#[derive(Default)]
struct Group {
    held: HashMap<u32, Vec<u8>>,
    last: Option<u32>,
}

pub fn c03(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("a case is a sequence of forged packets (id, position, final marker); distinct by that sequence");
    let auth = Auth::new("noop", b"");
    let cipher = Cipher::new(0, &[]);
    let mut out: Out = OutboundWire::new(1024, auth.clone(), cipher.clone());
    let sample = out.process(b"sample").map_err(|e| format!("{:?}", e))?;
    let genuine = match parse(&sample[0]) {
        Some(p) => p,
        None => {
            ctx.rule("the packet format is not the known one: only duplicates of genuine packets were replayed");
            return c03_genuine(ctx);
        }
    };
    crowd(ctx, 4000)?;
    let mut round = 0;
    while round < 200 || ctx.time_left() {
        round += 1;
        let rng = &mut *ctx.rng.borrow_mut();
        let mut input: In = InboundWire::new(1024, LONG, auth.clone(), cipher.clone());
        let mut model: HashMap<u32, Group> = HashMap::new();
        let ids = [0u32, 1, u32::MAX];
        let nids = rng.range(1, 3);
        // sometimes a message of many packets, with some that do not belong
        let long = if round == 3 || rng.chance(1, 400) { *rng.pick(&[100usize, 400, 1500]) } else { 0 };
        let mut order: Vec<u32> = (0..long as u32).collect();
        match rng.below(3) {
            0 => order.reverse(),
            1 => rng.shuffle(&mut order),
            _ => (),
        }
        let steps = if long > 0 { long + long / 4 } else { rng.range(1, 14) };
        let mut trace: Vec<String> = vec![];
        for _ in 0..steps {
            let stray = long == 0 || rng.chance(1, 6);
            let id = if long > 0 { ids[0] } else { ids[rng.below(nids)] };
            let index = match rng.below(8) {
                _ if !stray && !order.is_empty() => order.remove(0),
                0 if long == 0 || rng.chance(1, 10) => u32::MAX - rng.below(2) as u32,
                1 if long == 0 || rng.chance(1, 10) => rng.u64() as u32,
                _ if long > 0 => rng.below(long + long / 20) as u32,
                _ => rng.below(4) as u32,
            };
            let fin = if long > 0 { index as usize == long - 1 || (stray && rng.chance(1, 8)) } else { rng.chance(1, 3) };
            let n = rng.below(4);
            let data = rng.bytes(n);
            let mut p = genuine.clone();
            p.metadata.id = id;
            p.metadata.index = index;
            p.metadata.r#type = if fin { MType::Final { encryption: MEnc::Encrypted } } else { MType::NotFinal };
            p.data = data.clone();
            trace.push(format!("({},{}{}:{})", id, index, if fin { "F" } else { "" }, hex(&data)));
            if trace.len() < 20 {
                ctx.case(trace.join(" "));
            } else if trace.len() == steps {
                ctx.case(format!("{} packets of one message in some order, with strays", steps));
            }
            let g = model.entry(id).or_default();
            // every reason to refuse it
            let exists = g.held.contains_key(&index);
            let second = fin && g.last.is_some();
            let beyond = g.last.map_or(false, |l| index > l) || (fin && g.held.keys().any(|i| *i > index));
            let r = input.process(&p.bytes());
            if exists || second || beyond {
                let ok = match &r {
                    Err(InboundWireError::InputProcessor(InputProcessorError::DecodeData(d))) => match d {
                        DecoderError::PacketExists { id: i, index: x } => exists && *i == id && *x == index,
                        DecoderError::FinalPacketAlreadyExists { id: i, index: x } => {
                            second && *i == id && (*x == index || Some(*x) == g.last)
                        }
                        DecoderError::PacketBeyondLastIndex { id: i, index: x } => {
                            beyond && *i == id && (*x == index || Some(*x) == g.last)
                        }
                        _ => false,
                    },
                    _ => false,
                };
                ensure!(ok, "{} should be refused (exists {}, second final {}, beyond final {}) but gave {:?}", trace[trace.len() - 1], exists, second, beyond, r.map_err(|e| class(&e)));
                continue;
            }
            g.held.insert(index, data);
            if fin {
                g.last = Some(index);
            }
            let complete = g.last.map_or(false, |l| l as u64 + 1 == g.held.len() as u64);
            match r {
                Ok(None) => ensure!(!complete, "complete but not delivered"),
                Ok(Some(d)) => {
                    ensure!(complete, "delivered {} although incomplete", hex(&d));
                    let mut want = vec![];
                    for i in 0..=g.last.unwrap() {
                        want.extend_from_slice(&g.held[&i]);
                    }
                    ensure!(d == want, "delivered {} instead of {}", hex(&d), hex(&want));
                    model.remove(&id);
                }
                Err(e) => return Err(format!("{} was refused: {}", trace[trace.len() - 1], class(&e))),
            }
        }
    }
    Ok(())
}
fn c03_genuine(ctx: &Ctx) -> Result<(), String> {
    for _ in 0..200 {
        let rng = &mut *ctx.rng.borrow_mut();
        let auth = Auth::new("sha256", b"k");
        let cipher = Cipher::random(1, rng);
        let mut out: Out = OutboundWire::new(512, auth.clone(), cipher.clone());
        let mut input: In = InboundWire::new(512, LONG, auth.clone(), cipher.clone());
        let n = rng.range(1200, 3000);
        let msg = rng.bytes(n);
        ctx.case(format!("{} bytes", n));
        let mut ps = out.process(&msg).map_err(|e| format!("{:?}", e))?;
        rng.shuffle(&mut ps);
        for (i, p) in ps.iter().enumerate() {
            let r = input.process(p);
            if i + 1 < ps.len() {
                ensure!(matches!(r, Ok(None)), "packet {}: {:?}", i, r.map_err(|e| class(&e)));
                let j = rng.below(i + 1);
                ensure!(input.process(&ps[j]).is_err(), "a repeated packet was accepted");
            } else {
                ensure!(r.ok() == Some(Some(msg.clone())), "not delivered");
            }
        }
    }
    Ok(())
}

// ---- C04

pub fn c04(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("a case is (authenticator, cipher, packet, one altered field or byte); distinct by those");
    let mut round = 0usize;
    while round < 60 || ctx.time_left() {
        round += 1;
        let rng = &mut *ctx.rng.borrow_mut();
        let a = 1 + round % 2;
        let kl = rng_len(rng.u64());
        let key = rng.bytes(kl);
        let auth = Auth::new(AUTHS[a], &key);
        let mut k2 = key.clone();
        k2.push(1);
        let other = Auth::new(AUTHS[a], &k2);
        let ci = rng.below(7);
        let cipher = Cipher::random(ci, rng);
        // packets as small as they come, and up to what a datagram holds
        let size = match rng.below(8) {
            0 => rng.range(1400, 10_000),
            1 if round % 4 == 0 => rng.range(10_000, 65_000),
            _ => rng.range(512, 700),
        };
        let mut out: Out = OutboundWire::new(size, auth.clone(), cipher.clone());
        let n = rng.below(2500 + if size > 700 { size * 2 } else { 0 });
        let msg = rng.bytes(n);
        let mut ps = out.process(&msg).map_err(|e| format!("{:?}", e))?;
        rng.shuffle(&mut ps);
        let mut input: In = InboundWire::new(size, LONG, auth.clone(), cipher.clone());
        let mut strangers: Vec<In> = vec![
            InboundWire::new(size, LONG, other, cipher.clone()),
        ];
        let total = ps.len();
        for (i, p) in ps.iter().enumerate() {
            for s in strangers.iter_mut() {
                ctx.case(format!("{} key={} packet {} shown to a verifier with another key or digest", AUTHS[a], hex(&key), hex(p)));
                match s.process(p) {
                    Err(InboundWireError::InputProcessor(InputProcessorError::InvalidPacketSignature)) => (),
                    r => return Err(format!("foreign signature gave {:?}", r.map_err(|e| class(&e)))),
                }
            }
            let parsed = parse(p);
            let mut alts: Vec<(String, Vec<u8>)> = vec![];
            if let Some(q) = &parsed {
                let mut v = vec![];
                let mut m = q.clone();
                m.metadata.id ^= 1 << rng.below(32);
                v.push(("id", m));
                let mut m = q.clone();
                m.metadata.index ^= 1 << rng.below(32);
                v.push(("position", m));
                let mut m = q.clone();
                m.metadata.index = m.metadata.index.wrapping_add(1);
                v.push(("position", m));
                let mut m = q.clone();
                m.metadata.r#type = match m.metadata.r#type {
                    MType::NotFinal => MType::Final { encryption: MEnc::Encrypted },
                    MType::Final { .. } => MType::NotFinal,
                };
                v.push(("final marker", m));
                if let MType::Final { encryption } = q.metadata.r#type {
                    for e in vec![
                        MEnc::None,
                        MEnc::Encrypted,
                        MEnc::EncryptedWithNonce { nonce: Nonce::Nonce96Bits([7; 12]) },
                        MEnc::EncryptedWithNonce { nonce: Nonce::Nonce128Bits([7; 16]) },
                    ] {
                        if format!("{:?}", e) != format!("{:?}", encryption) {
                            let mut m = q.clone();
                            m.metadata.r#type = MType::Final { encryption: e };
                            v.push(("encryption information", m));
                        }
                    }
                    if let MEnc::EncryptedWithNonce { nonce } = encryption {
                        let mut b = nonce.as_slice().to_vec();
                        let k = rng.below(b.len());
                        b[k] ^= 1 << rng.below(8);
                        let mut m = q.clone();
                        m.metadata.r#type = MType::Final { encryption: MEnc::EncryptedWithNonce { nonce: nonce.from_slice(&b).unwrap() } };
                        v.push(("nonce", m));
                    }
                }
                if !q.data.is_empty() {
                    let mut m = q.clone();
                    let k = rng.below(m.data.len());
                    m.data[k] ^= 1 << rng.below(8);
                    v.push(("payload", m));
                    let mut m = q.clone();
                    m.data.pop();
                    v.push(("payload length", m));
                }
                let mut m = q.clone();
                m.data.push(0);
                v.push(("payload length", m));
                {
                    use std::convert::TryFrom;
                    let mut b = q.signature.digest().to_vec();
                    let k = rng.below(b.len());
                    b[k] ^= 1 << rng.below(8);
                    let mut m = q.clone();
                    m.signature = Digest::try_from(&b[..]).unwrap();
                    v.push(("signature", m));
                    let mut m = q.clone();
                    m.signature = NoopAuthenticator.sign(&[]);
                    v.push(("empty signature", m));
                    // truncated or extended to the other digest length
                    b[k] ^= 0;
                    let mut b = q.signature.digest().to_vec();
                    b.resize(if b.len() == 32 { 64 } else { 32 }, 0);
                    let mut m = q.clone();
                    m.signature = Digest::try_from(&b[..]).unwrap();
                    v.push(("signature kind", m));
                }
                // the signature covers exactly metadata and payload
                ensure!(q.signed(&auth).signature.digest() == q.signature.digest(), "the signature of {} is not over its metadata and payload", hex(p));
                alts.extend(v.into_iter().map(|(w, m)| (w.to_string(), m.bytes())));
            }
            let flips = if ctx.thorough { 40 } else { 8 };
            for _ in 0..flips {
                let mut b = p.clone();
                let k = rng.below(b.len());
                b[k] ^= 1 << rng.below(8);
                // the encoding has several forms of the same packet
                if let (Some(q), Ok(x)) = (&parsed, serde_cbor::from_slice::<MPacket>(&b)) {
                    if x.bytes() == q.bytes() {
                        continue;
                    }
                } else if parsed.is_none() {
                    continue;
                }
                alts.push((format!("bit of byte {}", k), b));
            }
            for (what, b) in alts {
                ctx.case(format!("{} key={} {} altered: {} of packet {} of {}: {}", AUTHS[a], hex(&key), what, hex(&b), i, total, hex(p)));
                match input.process(&b) {
                    Err(InboundWireError::InputProcessor(InputProcessorError::InvalidPacketSignature)) => (),
                    Err(InboundWireError::InputProcessor(InputProcessorError::EncodePacket(_))) if what.starts_with("bit") => (),
                    r => return Err(format!("accepted or misreported: {:?}", r.map_err(|e| class(&e)))),
                }
            }
            // and none of that left a trace
            ctx.case(format!("genuine packet {} of {} after altered ones", i, total));
            match input.process(p) {
                Ok(None) => ensure!(i + 1 < total, "nothing delivered"),
                Ok(Some(d)) => ensure!(i + 1 == total && d == msg, "delivered early or wrong"),
                Err(e) => return Err(format!("the genuine packet was then refused: {}", class(&e))),
            }
        }
    }
    Ok(())
}

// ---- C07

pub fn c07(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("a case is a time-to-live and the waits around it, for a value or for one to 3000 incomplete messages");
    use std::hash::{Hash, Hasher};
    let h = |v: &TtlValue<u32>| {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        v.hash(&mut h);
        h.finish()
    };
    let hour = Duration::from_secs(3600);
    let ms = Duration::from_millis;
    // identity
    for (x, y) in vec![(1u32, 1u32), (1, 2), (2, 1), (0, u32::MAX), (7, 7)] {
        ctx.case(format!("identity of {} and {}", x, y));
        let a = TtlValue::new(x, ms(0));
        std::thread::sleep(ms(2));
        let mut b = TtlValue::new(y, hour);
        b.touch();
        ensure!((a == b) == (x == y), "equality");
        ensure!(a.cmp(&b) == x.cmp(&y), "order");
        ensure!(a.partial_cmp(&b) == x.partial_cmp(&y), "partial order");
        if x == y {
            ensure!(h(&a) == h(&b), "hash");
        }
        ensure!(h(&a) == h(&TtlValue::new(x, hour)), "hash of the same value");
    }
    // expiry of a value
    for ttl in vec![0u64, 1, 40] {
        ctx.case(format!("value with ttl {} ms", ttl));
        let t0 = Instant::now();
        let mut v = TtlValue::new(1, ms(ttl));
        let e = v.has_expired();
        if t0.elapsed() < ms(ttl) {
            ensure!(!e, "expired early");
        }
        std::thread::sleep(ms(ttl));
        ensure!(v.has_expired(), "not expired after {} ms", ttl);
        let t0 = Instant::now();
        v.touch();
        let e = v.has_expired();
        if t0.elapsed() < ms(ttl) {
            ensure!(!e, "expired although touched");
        }
        std::thread::sleep(ms(ttl));
        ensure!(v.has_expired(), "not expired after {} ms since its touch", ttl);
    }
    for ttl in vec![hour, Duration::from_secs(u64::MAX), Duration::new(u64::MAX, 999_999_999)] {
        ctx.case(format!("value with ttl {:?}", ttl));
        let mut v = TtlValue::new(1, ttl);
        ensure!(!v.has_expired(), "expired at once");
        v.touch();
        ensure!(!v.has_expired() && !v.clone().has_expired(), "expired after touch");
    }
    // incomplete messages
    let mut round = 0;
    while round < 4 || (ctx.time_left() && round < 40) {
        round += 1;
        let rng = &mut *ctx.rng.borrow_mut();
        let auth = Auth::new("sha256", b"k");
        let cipher = Cipher::random(1, rng);
        let mut out: Out = OutboundWire::new(600, auth.clone(), cipher.clone());
        let mk = |out: &mut Out, rng: &mut Rng| -> (Vec<u8>, Vec<Vec<u8>>) {
            let n = rng.range(1300, 2500);
            let m = rng.bytes(n);
            let mut p = out.process(&m).unwrap();
            rng.shuffle(&mut p);
            (m, p)
        };
        // ttl zero: every packet but those of one-packet messages is forgotten
        let (_, ps) = mk(&mut out, rng);
        ctx.case("incomplete message with ttl 0".into());
        let mut input: In = InboundWire::new(600, ms(0), auth.clone(), cipher.clone());
        for _ in 0..2 {
            for p in &ps {
                match input.process(p) {
                    Ok(None) => (),
                    r => return Err(format!("an expired message was continued: {:?}", r.map_err(|e| class(&e)))),
                }
            }
        }
        // one expires while another lives
        let ttl = ms(400);
        ctx.case("two incomplete messages, the older one expires".into());
        let mut input: In = InboundWire::new(600, ttl, auth.clone(), cipher.clone());
        let (_, old) = mk(&mut out, rng);
        let (young_m, young) = mk(&mut out, rng);
        let ok = |r: Result<Option<Vec<u8>>, InboundWireError>| r.map_err(|e| class(&e));
        let t_old = Instant::now();
        for p in &old[..old.len() - 1] {
            ok(input.process(p))?;
        }
        let old_done = Instant::now();
        std::thread::sleep(ms(250));
        let t_young = Instant::now();
        ok(input.process(&young[0]))?;
        // wait until the old one is certainly over its time
        while old_done.elapsed() < ms(420) {
            std::thread::sleep(ms(5));
        }
        let mut young_result = None;
        for p in &young[1..] {
            let r = ok(input.process(p));
            if t_young.elapsed() < ms(380) {
                young_result = r?;
            }
        }
        if t_young.elapsed() < ms(380) {
            ensure!(young_result.as_ref() == Some(&young_m), "the younger message was not completed although its time had not passed");
        }
        let _ = t_old;
        // what trickles in does not make it live longer
        ctx.case("an incomplete message whose packets come in one by one".into());
        let mut slow: In = InboundWire::new(600, ms(100), auth.clone(), cipher.clone());
        let (_, trickle) = mk(&mut out, rng);
        for (k, p) in trickle.iter().enumerate() {
            let r = ok(slow.process(p))?;
            ensure!(r.is_none(), "a message whose first packet came {} ms before was completed", 55 * k);
            std::thread::sleep(ms(55));
        }
        // nothing else arrives between the expiry and the missing packet
        ctx.case("an incomplete message expires, then its last packet arrives".into());
        let mut input2: In = InboundWire::new(600, ms(60), auth.clone(), cipher.clone());
        let (lone_m, lone) = mk(&mut out, rng);
        for p in &lone[..lone.len() - 1] {
            ok(input2.process(p))?;
        }
        std::thread::sleep(ms(65));
        ensure!(ok(input2.process(&lone[lone.len() - 1]))?.is_none(), "an expired message was completed");
        std::thread::sleep(ms(65));
        let t = Instant::now();
        let mut again = None;
        for p in &lone {
            again = match ok(input2.process(p)) {
                Ok(x) => x,
                Err(e) => {
                    ensure!(t.elapsed() >= ms(55), "a message sent again after its expiry was refused: {}", e);
                    None
                }
            };
        }
        ensure!(t.elapsed() >= ms(55) || again.as_ref() == Some(&lone_m), "a message sent again after its expiry was not delivered");
        let r = ok(input.process(&old[old.len() - 1]))?;
        ensure!(r.is_none(), "an expired message was completed");
        // the forgotten packets are accepted anew
        let r = ok(input.process(&old[0]));
        if old.len() > 1 {
            ensure!(r.is_ok(), "a packet of a forgotten message is refused: {:?}", r);
        }
        // however many are incomplete at once
        if round == 2 || rng.chance(1, 8) {
            let n = *rng.pick(&[300usize, 1200, 3000]);
            ctx.case(format!("{} incomplete messages at once", n));
            let mut input: In = InboundWire::new(600, hour, auth.clone(), cipher.clone());
            let mut brief: In = InboundWire::new(600, ms(1), auth.clone(), cipher.clone());
            let many: Vec<(Vec<u8>, Vec<Vec<u8>>)> = (0..n)
                .map(|_| {
                    let m = rng.bytes(900);
                    let p = out.process(&m).unwrap();
                    (m, p)
                })
                .collect();
            let mut seen = HashSet::new();
            // two with the same id are not told apart
            let many: Vec<_> = many.into_iter().filter(|(_, ps)| parse(&ps[0]).map_or(true, |p| seen.insert(p.metadata.id))).collect();
            for (_, ps) in &many {
                ok(input.process(&ps[0]))?;
                ok(brief.process(&ps[0]))?;
            }
            std::thread::sleep(ms(2));
            for (k, (m, ps)) in many.iter().enumerate() {
                let mut got = None;
                for p in &ps[1..] {
                    got = ok(input.process(p))?;
                }
                ensure!(got.as_ref() == Some(m), "message {} of {} live ones could not be completed", k, many.len());
                for p in &ps[1..] {
                    ensure!(ok(brief.process(p))?.is_none(), "message {} of {} expired ones was completed", k, many.len());
                }
            }
        }
        // a long time-to-live keeps everything
        ctx.case("incomplete messages with a long ttl".into());
        let mut input: In = InboundWire::new(600, hour, auth.clone(), cipher.clone());
        let ms_: Vec<_> = (0..4).map(|_| mk(&mut out, rng)).collect();
        for (_, ps) in &ms_ {
            for p in &ps[1..] {
                ok(input.process(p))?;
            }
        }
        for (m, ps) in &ms_ {
            ensure!(ok(input.process(&ps[0]))?.as_ref() == Some(m), "a live message could not be completed");
        }
    }
    Ok(())
}
