use crate::ensure;
use crate::util::{hex, Ctx};
use over_there::core::transport::auth::Digest;
use over_there::core::transport::crypto::key::{self, Key};
use over_there::core::transport::crypto::nonce::{self, Nonce};
use over_there::core::transport::crypto::{KeySize, NonceSize};
use over_there::core::reply::{IoErrorArgs, SerErrorKind};
use over_there::core::{Content, FileAskError, Msg, Reply, ReplyError};
use std::convert::TryFrom;
use std::io::{self, ErrorKind};

pub fn c19(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("every length 0..=130 with distinct byte values, plus random bytes at the supported lengths");
    ensure!(KeySize::Key128Bits.size_in_bytes() == 16 && usize::from(KeySize::Key128Bits) == 16 && Vec::from(KeySize::Key128Bits).len() == 16, "128-bit key size");
    ensure!(KeySize::Key256Bits.size_in_bytes() == 32 && usize::from(KeySize::Key256Bits) == 32 && Vec::from(KeySize::Key256Bits).len() == 32, "256-bit key size");
    ensure!(KeySize::Key512Bits.size_in_bytes() == 64 && usize::from(KeySize::Key512Bits) == 64 && Vec::from(KeySize::Key512Bits).len() == 64, "512-bit key size");
    ensure!(NonceSize::Nonce96Bits.size_in_bytes() == 12 && NonceSize::Nonce128Bits.size_in_bytes() == 16, "nonce size");
    ensure!(key::new_128bit_key().len() == 16 && key::new_256bit_key().len() == 32 && key::new_512bit_key().len() == 64, "new key size");
    let any = Nonce::from(nonce::new_96bit_nonce());
    let mut round = 0;
    while round < 20 || ctx.time_left() {
        round += 1;
        if round > 400 {
            break;
        }
        for n in 0..=130usize {
            let b: Vec<u8> = if round == 1 { (0..n).map(|i| (i * 37 + 11) as u8).collect() } else { ctx.rng.borrow_mut().bytes(n) };
            ctx.case(format!("bytes {}", hex(&b)));
            match Key::from_slice(&b) {
                Some(k) => {
                    ensure!([16, 32, 64].contains(&n), "a key was made from {} bytes", n);
                    ensure!(k.as_slice() == &b[..], "key holds {}", hex(k.as_slice()));
                    let ok = match (&k, n) {
                        (Key::Key128Bits(x), 16) => x[..] == b[..],
                        (Key::Key256Bits(x), 32) => x[..] == b[..],
                        (Key::Key512Bits(x), 64) => x[..] == b[..],
                        _ => false,
                    };
                    ensure!(ok, "key of {} bytes has the wrong variant or bytes", n);
                    ensure!(k.key_size().size_in_bytes() == n, "key of {} bytes reports size {}", n, k.key_size().size_in_bytes());
                    ensure!(format!("{:?}", k.key_size()) == format!("Key{}Bits", n * 8), "key of {} bytes reports {:?}", n, k.key_size());
                }
                None => ensure!(![16, 32, 64].contains(&n), "no key was made from {} bytes", n),
            }
            match any.from_slice(&b) {
                Some(k) => {
                    ensure!([12, 16].contains(&n), "a nonce was made from {} bytes", n);
                    ensure!(k.as_slice() == &b[..], "nonce holds {}", hex(k.as_slice()));
                    ensure!(NonceSize::from(k).size_in_bytes() == n, "nonce of {} bytes reports size {:?}", n, NonceSize::from(k));
                    let ok = match (&k, n) {
                        (Nonce::Nonce96Bits(x), 12) => x[..] == b[..],
                        (Nonce::Nonce128Bits(x), 16) => x[..] == b[..],
                        _ => false,
                    };
                    ensure!(ok, "nonce of {} bytes has the wrong variant or bytes", n);
                }
                None => ensure!(![12, 16].contains(&n), "no nonce was made from {} bytes", n),
            }
            match Digest::try_from(&b[..]) {
                Ok(k) => {
                    ensure!([32, 64].contains(&n), "a digest was made from {} bytes", n);
                    ensure!(k.digest() == &b[..], "digest holds {}", hex(k.digest()));
                    let ok = match (&k, n) {
                        (Digest::Digest256Bits(_), 32) | (Digest::Digest512Bits(_), 64) => true,
                        _ => false,
                    };
                    ensure!(ok, "digest of {} bytes has the wrong variant", n);
                }
                Err(_) => ensure!(![32, 64].contains(&n), "no digest was made from {} bytes", n),
            }
            for want in [12usize, 16, n].iter() {
                for s in [NonceSize::Nonce96Bits, NonceSize::Nonce128Bits].iter() {
                    let r = nonce::validate_nonce_size(*s, *want);
                    ensure!(r.is_ok() == (s.size_in_bytes() == *want), "validating {} against {:?}", want, s);
                }
            }
        }
        for s in [NonceSize::Nonce96Bits, NonceSize::Nonce128Bits].iter() {
            let n = Nonce::from(*s);
            ensure!(n.as_slice().len() == s.size_in_bytes(), "new nonce of {:?} holds {} bytes", s, n.as_slice().len());
        }
    }
    Ok(())
}

#[derive(serde::Serialize, serde::Deserialize)]
struct KindBox {
    #[serde(
        serialize_with = "over_there::utils::serializers::error_kind::serialize",
        deserialize_with = "over_there::utils::serializers::error_kind::deserialize"
    )]
    k: ErrorKind,
}

/// through the message format
fn trip_reply(e: io::Error) -> Result<io::Error, String> {
    let r = Reply::Error(ReplyError::from(e));
    let v = Msg::from(r.clone()).to_vec().map_err(|e| format!("to_vec: {:?}", e))?;
    let m = Msg::from_slice(&v).map_err(|e| format!("from_slice: {:?}", e))?;
    let got = match m.content {
        Content::Reply(x) => x,
        _ => return Err("arrived as a request".into()),
    };
    ensure!(got == r, "{:?} arrived as {:?}", r, got);
    let j: Reply = serde_json::from_str(&serde_json::to_string(&r).unwrap()).map_err(|e| format!("json: {:?}", e))?;
    ensure!(j == r, "{:?} arrived as {:?} over JSON", r, j);
    match got {
        Reply::Error(ReplyError::Io(a)) => Ok(a.into()),
        x => Err(format!("arrived as {:?}", x)),
    }
}
/// as the payload of a client's file error, in three formats
fn trip_ask(e: io::Error, how: usize) -> Result<io::Error, String> {
    let f = FileAskError::IoError(e);
    let g: FileAskError = match how {
        0 => serde_cbor::from_slice(&serde_cbor::ser::to_vec(&f).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?,
        1 => serde_json::from_str(&serde_json::to_string(&f).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?,
        _ => serde_cbor::from_slice(&serde_cbor::ser::to_vec_packed(&f).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?,
    };
    match g {
        FileAskError::IoError(e) => Ok(e),
        x => Err(format!("arrived as {:?}", x)),
    }
}

pub fn c17(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("a case is (error kind or OS code, description, format); every nameable kind with generated descriptions");
    let named = [
        ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::ConnectionRefused, ErrorKind::ConnectionReset,
        ErrorKind::ConnectionAborted, ErrorKind::NotConnected, ErrorKind::AddrInUse, ErrorKind::AddrNotAvailable,
        ErrorKind::BrokenPipe, ErrorKind::AlreadyExists, ErrorKind::WouldBlock, ErrorKind::InvalidInput,
        ErrorKind::InvalidData, ErrorKind::TimedOut, ErrorKind::WriteZero, ErrorKind::Interrupted, ErrorKind::Other,
        ErrorKind::UnexpectedEof,
    ];
    let unnamed = [
        ErrorKind::OutOfMemory, ErrorKind::Unsupported, ErrorKind::DirectoryNotEmpty, ErrorKind::IsADirectory,
        ErrorKind::NotADirectory, ErrorKind::HostUnreachable, ErrorKind::StorageFull,
    ];
    let mut round = 0;
    while round < 3 || (ctx.time_left() && round < 3000) {
        round += 1;
        for k in named.iter().chain(unnamed.iter()) {
            let want = if named.contains(k) { *k } else { ErrorKind::Other };
            let d: String = {
                let rng = &mut *ctx.rng.borrow_mut();
                match rng.below(8) {
                    0 => String::new(),
                    5..=7 => rng.text(),
                    1 => "No such file".into(),
                    2 => format!("\u{e9}\u{1F600} \"quoted\" \n {}", rng.u64()),
                    3 => "x".repeat(rng.below(400)),
                    _ => format!("reason {} \u{0} \\ '", rng.u64()),
                }
            };
            ctx.case(format!("kind {:?}, description {:?}", k, d));
            let mk = || io::Error::new(*k, d.clone());
            let mut got = vec![("reply", trip_reply(mk())?)];
            got.push(("error, CBOR", trip_ask(mk(), 0)?));
            got.push(("error, JSON", trip_ask(mk(), 1)?));
            got.push(("error, packed CBOR", trip_ask(mk(), 2)?));
            for (how, e) in got {
                ensure!(e.kind() == want, "{:?} arrived as {:?} ({})", k, e.kind(), how);
                ensure!(e.to_string() == d, "description {:?} arrived as {:?} ({})", d, e.to_string(), how);
            }
            let a = IoErrorArgs::from_error_with_prefix(mk(), "prefix: ");
            let e: io::Error = a.into();
            ensure!(e.kind() == want && e.to_string() == format!("prefix: {}", d), "with a prefix arrived as {:?}", e);
            let s = SerErrorKind::from(*k);
            ensure!(ErrorKind::from(s.clone()) == want, "{:?} mapped to {:?} and back to {:?}", k, s, ErrorKind::from(s.clone()));
            if want == *k {
                ensure!(format!("{:?}", s) == format!("{:?}", k), "{:?} mapped to {:?}", k, s);
            }
            let b = KindBox { k: *k };
            for how in 0..3 {
                let g: KindBox = match how {
                    0 => serde_cbor::from_slice(&serde_cbor::ser::to_vec(&b).unwrap()).map_err(|e| e.to_string())?,
                    1 => serde_cbor::from_slice(&serde_cbor::ser::to_vec_packed(&b).unwrap()).map_err(|e| e.to_string())?,
                    _ => serde_json::from_str(&serde_json::to_string(&b).unwrap()).map_err(|e| e.to_string())?,
                };
                ensure!(g.k == want, "kind {:?} arrived as {:?} (format {})", k, g.k, how);
            }
            let j = serde_json::to_string(&b).unwrap();
            ensure!(j == format!("{{\"k\":\"{:?}\"}}", want), "kind {:?} is written as {}", k, j);
        }
        let one = ctx.rng.borrow_mut().below(140) as i32;
        let some = (one, ctx.rng.borrow_mut().u64() as i32);
        for code in vec![1i32, 2, 4, 5, 9, 11, 13, 17, 20, 21, 22, 28, 32, 39, 98, 99, 104, 111, some.0, 0, -1, 133, 255, 4096, 10054, 65536, i32::max_value(), i32::min_value(), some.1] {
            ctx.case(format!("OS error {}", code));
            let mk = || io::Error::from_raw_os_error(code);
            let mut got = vec![trip_reply(mk())?];
            for how in 0..3 {
                got.push(trip_ask(mk(), how)?);
            }
            for e in got {
                ensure!(e.raw_os_error() == Some(code) && e.kind() == mk().kind() && e.to_string() == mk().to_string(), "OS error {} arrived as {:?}", code, e);
            }
        }
    }
    Ok(())
}
