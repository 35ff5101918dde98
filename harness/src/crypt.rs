use crate::ensure;
use crate::util::{hex, Ctx, Rng};
use over_there::core::transport::auth::*;
use over_there::core::transport::crypto::nonce::cache::NonceCacheBicrypter;
use over_there::core::transport::crypto::*;
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};

// ---- every authenticator and cipher behind one type

#[derive(Clone)]
pub enum Auth {
    Noop(NoopAuthenticator),
    S256(Sha256Authenticator),
    S512(Sha512Authenticator),
}
pub const AUTHS: [&str; 3] = ["noop", "sha256", "sha512"];
impl Auth {
    pub fn new(kind: &str, key: &[u8]) -> Auth {
        match kind {
            "noop" => Auth::Noop(NoopAuthenticator),
            "sha256" => Auth::S256(Sha256Authenticator::new(key)),
            _ => Auth::S512(Sha512Authenticator::new(key)),
        }
    }
}
impl Authenticator for Auth {}
impl Signer for Auth {
    fn sign(&self, m: &[u8]) -> Digest {
        match self {
            Auth::Noop(x) => x.sign(m),
            Auth::S256(x) => x.sign(m),
            Auth::S512(x) => x.sign(m),
        }
    }
}
impl Verifier for Auth {
    fn verify(&self, m: &[u8], s: &Digest) -> bool {
        match self {
            Auth::Noop(x) => x.verify(m, s),
            Auth::S256(x) => x.verify(m, s),
            Auth::S512(x) => x.verify(m, s),
        }
    }
}

pub trait Both: Encrypter + Decrypter + Send + Sync {}
impl<T: Encrypter + Decrypter + Send + Sync> Both for T {}
#[derive(Clone)]
pub struct Cipher {
    pub name: &'static str,
    b: Arc<dyn Both>,
}
pub const CIPHERS: [&str; 7] = [
    "noop", "gcm128", "gcm256", "gcmsiv128", "gcmsiv256", "siv128", "siv256",
];
pub const NONCE_LEN: [usize; 7] = [0, 12, 12, 12, 12, 16, 16];
impl Cipher {
    pub fn key_len(i: usize) -> usize {
        [0, 16, 32, 16, 32, 32, 64][i]
    }
    pub fn new(i: usize, key: &[u8]) -> Cipher {
        let mut k16 = [0u8; 16];
        let mut k32 = [0u8; 32];
        let mut k64 = [0u8; 64];
        match key.len() {
            16 => k16.copy_from_slice(key),
            32 => k32.copy_from_slice(key),
            64 => k64.copy_from_slice(key),
            _ => (),
        }
        let b: Arc<dyn Both> = match i {
            0 => Arc::new(NoopBicrypter),
            1 => Arc::new(Aes128GcmBicrypter::new(&k16)),
            2 => Arc::new(Aes256GcmBicrypter::new(&k32)),
            3 => Arc::new(Aes128GcmSivBicrypter::new(&k16)),
            4 => Arc::new(Aes256GcmSivBicrypter::new(&k32)),
            5 => Arc::new(Aes128SivBicrypter::new(&k32)),
            _ => Arc::new(Aes256SivBicrypter::new(&k64)),
        };
        Cipher { name: CIPHERS[i], b }
    }
    pub fn random(i: usize, rng: &mut Rng) -> Cipher {
        let k = rng.bytes(Cipher::key_len(i));
        Cipher::new(i, &k)
    }
}
impl Bicrypter for Cipher {}
impl Encrypter for Cipher {
    fn encrypt(&self, b: &[u8], a: &AssociatedData) -> Result<Vec<u8>, CryptError> {
        self.b.encrypt(b, a)
    }
    fn new_encrypt_associated_data(&self) -> AssociatedData {
        self.b.new_encrypt_associated_data()
    }
}
impl Decrypter for Cipher {
    fn decrypt(&self, b: &[u8], a: &AssociatedData) -> Result<Vec<u8>, CryptError> {
        self.b.decrypt(b, a)
    }
}

fn nonce_of(len: usize, rng: &mut Rng) -> AssociatedData {
    let b = rng.bytes(len);
    match len {
        0 => AssociatedData::None,
        12 => {
            let mut n = [0; 12];
            n.copy_from_slice(&b);
            AssociatedData::Nonce(Nonce::Nonce96Bits(n))
        }
        _ => {
            let mut n = [0; 16];
            n.copy_from_slice(&b);
            AssociatedData::Nonce(Nonce::Nonce128Bits(n))
        }
    }
}

pub fn c05(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("a case is (cipher, key, nonce or none, plaintext); distinct by those values");
    // far fewer than it takes for twelve random bytes to repeat
    for i in 1..7 {
        let key = ctx.rng.borrow_mut().bytes(Cipher::key_len(i));
        let c = Cipher::new(i, &key);
        let n = if i < 3 { 300_000 } else { 3000 };
        ctx.case(format!("{}: {} fresh nonces", c.name, n));
        let mut seen = std::collections::HashSet::new();
        for k in 0..n {
            let ad = c.new_encrypt_associated_data();
            let v = ad.nonce_slice().unwrap_or(&[]).to_vec();
            ensure!(seen.insert(v.clone()), "{} is one of {} fresh nonces for the second time", hex(&v), k + 1);
        }
    }
    let mut round = 0;
    while round < 4 || ctx.time_left() {
        round += 1;
        if round > 200000 {
            break;
        }
        let rng = &mut *ctx.rng.borrow_mut();
        let i = round % 7;
        let key = rng.bytes(Cipher::key_len(i));
        let c = Cipher::new(i, &key);
        let n = *rng.pick(&[0usize, 1, 15, 16, 17, 31, 32, 33, 100, 1000]);
        let n = if rng.chance(1, 2) { n } else { rng.below(300) };
        // sometimes far more than one block, or many that are alike
        let big = round == 30 || rng.chance(1, 600);
        let n = if big { *rng.pick(&[4096usize, 65_535, 65_536, 65_537, 300_000, 1_100_000]) } else { n };
        let mut data = rng.bytes(n);
        if rng.chance(1, 10) {
            let b = *rng.pick(&[0u8, 255, 1]);
            data.iter_mut().for_each(|x| *x = b);
        }
        let ad = if rng.chance(1, 2) { c.new_encrypt_associated_data() } else { nonce_of(NONCE_LEN[i], rng) };
        ctx.case(format!("{} key={} nonce={:?} plain={}", c.name, hex(&key), ad.nonce_slice().map(hex), if big { format!("{} bytes", n) } else { hex(&data) }));
        // fresh associated data fits the cipher and is fresh
        let f1 = c.new_encrypt_associated_data();
        let f2 = c.new_encrypt_associated_data();
        ensure!(f1.nonce_slice().map_or(0, |x| x.len()) == NONCE_LEN[i], "fresh nonce has {:?} bytes", f1.nonce_slice().map(|x| x.len()));
        if i > 0 {
            ensure!(f1.nonce_slice() != f2.nonce_slice(), "fresh nonces repeat: {:?}", f1.nonce_slice().map(hex));
        }
        ensure!(c.encrypt(&data, &f1).is_ok(), "encryption under fresh associated data failed");
        let e = c.encrypt(&data, &ad).map_err(|e| format!("encrypt failed: {:?}", e))?;
        let d = c.decrypt(&e, &ad).map_err(|e| format!("decrypt failed: {:?}", e))?;
        ensure!(d == data, "{} bytes were decrypted to {} instead", n, hex(&d[..d.len().min(200)]));
        if i == 0 {
            // the plain pass-through takes any associated data
            ensure!(e == data, "pass-through changed the data to {}", hex(&e));
            for l in [0usize, 12, 16].iter() {
                let ad = nonce_of(*l, rng);
                ensure!(c.encrypt(&data, &ad).ok() == Some(data.clone()), "pass-through encrypt with a {} byte nonce", l);
                ensure!(c.decrypt(&data, &ad).ok() == Some(data.clone()), "pass-through decrypt with a {} byte nonce", l);
            }
            continue;
        }
        // missing or wrong-size nonce
        let wrong = 28 - NONCE_LEN[i];
        let wad = nonce_of(wrong, rng);
        for (what, r) in vec![
            ("encrypt", c.encrypt(&data, &AssociatedData::None)),
            ("decrypt", c.decrypt(&e, &AssociatedData::None)),
            ("decrypt short", c.decrypt(&[], &AssociatedData::None)),
        ] {
            match r {
                Err(CryptError::MissingNonce) => (),
                x => return Err(format!("{} without a nonce gave {:?}", what, x)),
            }
        }
        for (what, r) in vec![
            ("encrypt", c.encrypt(&data, &wad)),
            ("decrypt", c.decrypt(&e, &wad)),
            ("decrypt short", c.decrypt(&[], &wad)),
        ] {
            match r {
                Err(CryptError::NonceWrongSize { provided_size }) => {
                    ensure!(provided_size == wrong, "{}: wrong size reported as {}", what, provided_size)
                }
                x => return Err(format!("{} with a {} byte nonce gave {:?}", what, wrong, x)),
            }
        }
        // wrong key, wrong nonce, altered ciphertext
        let mut k2 = key.clone();
        let p = rng.below(k2.len());
        k2[p] ^= 1 << rng.below(8);
        // (half of a SIV key only masks the plaintext: the mask of a few bytes can be the same under both keys)
        match Cipher::new(i, &k2).decrypt(&e, &ad) {
            Err(CryptError::DecryptFailed(_)) => (),
            Ok(ref d) if i >= 5 && *d == data && data.len() < 16 => (),
            _ => return Err(format!("decrypted under key {}", hex(&k2))),
        }
        let mut nb = ad.nonce_slice().unwrap().to_vec();
        let p = rng.below(nb.len());
        nb[p] ^= 1 << rng.below(8);
        let ad2 = if nb.len() == 12 {
            let mut n = [0; 12];
            n.copy_from_slice(&nb);
            AssociatedData::Nonce(Nonce::Nonce96Bits(n))
        } else {
            let mut n = [0; 16];
            n.copy_from_slice(&nb);
            AssociatedData::Nonce(Nonce::Nonce128Bits(n))
        };
        ensure!(matches!(c.decrypt(&e, &ad2), Err(CryptError::DecryptFailed(_))), "decrypted under nonce {}", hex(&nb));
        let mut e2 = e.clone();
        let p = rng.below(e2.len());
        e2[p] ^= 1 << rng.below(8);
        ensure!(matches!(c.decrypt(&e2, &ad), Err(CryptError::DecryptFailed(_))), "decrypted the altered ciphertext {}", hex(&e2));
        e2 = e.clone();
        let k = rng.below(e2.len());
        e2.truncate(k);
        ensure!(matches!(c.decrypt(&e2, &ad), Err(CryptError::DecryptFailed(_))), "decrypted the ciphertext cut to {} bytes", k);
        e2 = e.clone();
        e2.push(rng.u64() as u8);
        ensure!(matches!(c.decrypt(&e2, &ad), Err(CryptError::DecryptFailed(_))), "decrypted the extended ciphertext");
    }
    Ok(())
}

// ---- C06

type Log = Arc<Mutex<Vec<(bool, Vec<u8>, Option<Vec<u8>>)>>>;
#[derive(Clone)]
struct Spy {
    log: Log,
    fail: bool,
}
impl Bicrypter for Spy {}
impl Encrypter for Spy {
    fn encrypt(&self, b: &[u8], a: &AssociatedData) -> Result<Vec<u8>, CryptError> {
        self.log.lock().unwrap().push((true, b.to_vec(), a.nonce_slice().map(|x| x.to_vec())));
        if self.fail && b.len() % 3 == 0 {
            return Err(CryptError::EncryptFailed("spy".into()));
        }
        Ok(b.iter().map(|x| x ^ 1).collect())
    }
    fn new_encrypt_associated_data(&self) -> AssociatedData {
        AssociatedData::Nonce(Nonce::Nonce96Bits([7; 12]))
    }
}
impl Decrypter for Spy {
    fn decrypt(&self, b: &[u8], a: &AssociatedData) -> Result<Vec<u8>, CryptError> {
        self.log.lock().unwrap().push((false, b.to_vec(), a.nonce_slice().map(|x| x.to_vec())));
        if self.fail && b.len() % 3 == 0 {
            return Err(CryptError::DecryptFailed("spy".into()));
        }
        Ok(b.iter().map(|x| x ^ 2).collect())
    }
}

pub fn c06(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("a case is a capacity and a sequence of encrypt/decrypt calls over a pool of nonces, spread over clones and halves");
    let mut round = 0;
    while round < 20 || ctx.time_left() {
        round += 1;
        if round > 100000 {
            break;
        }
        let rng = &mut *ctx.rng.borrow_mut();
        // sometimes far more than is used otherwise
        let big = round == 5 || rng.chance(1, 400);
        let cap = if big { *rng.pick(&[100usize, 1000, 5000]) } else { *rng.pick(&[0usize, 1, 1, 2, 3, 5, 8, 20]) };
        let log: Log = Arc::new(Mutex::new(vec![]));
        let spy = Spy { log: log.clone(), fail: rng.chance(1, 3) };
        let c0 = if cap == 0 && rng.chance(1, 2) {
            NonceCacheBicrypter::with_no_nonce_cache(spy.clone())
        } else {
            NonceCacheBicrypter::new(spy.clone(), cap)
        };
        let clones = vec![c0.clone(), c0.clone(), c0.clone()];
        let (eh, dh) = over_there::core::transport::crypto::split::split(c0);
        let (ch, ch2) = over_there::core::transport::crypto::split::clone_split(clones[0].clone());
        let pool: Vec<AssociatedData> = {
            let mut p: Vec<_> = (0..rng.range(1, cap * 2 + 2)).map(|_| nonce_of(*rng.pick(&[12, 16]), rng)).collect();
            // a 12 byte nonce that is a prefix of a 16 byte one
            let mut n = [9u8; 16];
            n[15] = 1;
            p.push(AssociatedData::Nonce(Nonce::Nonce128Bits(n)));
            p.push(AssociatedData::Nonce(Nonce::Nonce96Bits([9; 12])));
            p.push(AssociatedData::None);
            p
        };
        let n = if big { 3 * cap } else { rng.range(1, 4 * (cap + 2)) };
        let ops: Vec<(bool, usize, usize, Vec<u8>)> = (0..n)
            .map(|_| {
                let l = rng.below(6);
                (rng.chance(1, 2), rng.below(pool.len()), rng.below(6), rng.bytes(l))
            })
            .collect();
        ctx.case(if big { format!("capacity {}, {} ops over {} nonces", cap, n, pool.len()) } else { format!("capacity {} ops {:?}", cap, ops) });
        let mut model: VecDeque<Vec<u8>> = VecDeque::new();
        for (step, (enc, ni, via, data)) in ops.iter().enumerate() {
            let ad = &pool[*ni];
            let before = log.lock().unwrap().len();
            let r = match (enc, via) {
                (true, 0) => eh.encrypt(data, ad),
                (false, 0) => dh.decrypt(data, ad),
                (true, 1) => ch.encrypt(data, ad),
                (false, 1) => ch2.decrypt(data, ad),
                (true, k) => clones[k % 3].encrypt(data, ad),
                (false, k) => clones[k % 3].decrypt(data, ad),
            };
            let calls = log.lock().unwrap()[before..].to_vec();
            let nonce = ad.nonce_slice().map(|x| x.to_vec());
            let refused = cap > 0 && nonce.as_ref().map_or(false, |n| model.contains(n));
            if refused {
                match &r {
                    Err(CryptError::NonceAlreadyUsed { nonce: n }) if Some(n) == nonce.as_ref() => (),
                    x => return Err(format!("step {}: remembered nonce {:?} gave {:?}", step, nonce, x)),
                }
                ensure!(calls.is_empty(), "step {}: a refused nonce reached the cipher", step);
            } else {
                ensure!(calls == vec![(*enc, data.clone(), nonce.clone())], "step {}: the cipher saw {:?}", step, calls);
                let want = if *enc { spy.encrypt(data, ad) } else { spy.decrypt(data, ad) };
                log.lock().unwrap().pop();
                ensure!(format!("{:?}", r) == format!("{:?}", want), "step {}: {:?} instead of {:?}", step, r, want);
                if let (Some(n), true) = (nonce, cap > 0) {
                    model.push_back(n);
                    if model.len() > cap {
                        model.pop_front();
                    }
                }
            }
        }
        // fresh associated data passes through without being remembered
        let f = clones[1].new_encrypt_associated_data();
        ensure!(f.nonce_slice() == Some(&[7u8; 12][..]), "fresh associated data was replaced by {:?}", f);

        // the same nonces from several threads at once: one acceptance each
        if round % 10 == 1 {
            let log: Log = Arc::new(Mutex::new(vec![]));
            let c = NonceCacheBicrypter::new(Spy { log: log.clone(), fail: false }, 64);
            let nonces: Vec<AssociatedData> = (0..24).map(|_| nonce_of(*rng.pick(&[12, 16]), rng)).collect();
            ctx.case(format!("threads over {} nonces", nonces.len()));
            let bar = Arc::new(std::sync::Barrier::new(4));
            let hs: Vec<_> = (0..4)
                .map(|t| {
                    let (c, nonces, bar) = (c.clone(), nonces.clone(), bar.clone());
                    std::thread::spawn(move || {
                        let mut ok = vec![];
                        for (i, n) in nonces.iter().enumerate() {
                            bar.wait();
                            let r = if (t + i) % 2 == 0 { c.encrypt(&[1], n) } else { c.decrypt(&[1], n) };
                            ok.push(r.is_ok());
                        }
                        ok
                    })
                })
                .collect();
            let oks: Vec<Vec<bool>> = hs.into_iter().map(|h| h.join().unwrap()).collect();
            for i in 0..nonces.len() {
                let n = oks.iter().filter(|o| o[i]).count();
                ensure!(n == 1, "nonce {:?} was accepted {} times by 4 racing threads", nonces[i], n);
            }
        }
    }
    Ok(())
}
