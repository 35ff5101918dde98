use crate::ensure;
use crate::util::{hex, Ctx};
use over_there::utils::{DelimiterReader, DelimiterWriter};
use std::io;

pub fn c20(ctx: &Ctx) -> Result<(), String> {
    ctx.rule("a case is (maximum size, delimiter, chunks, split of the stream into reads incl. empty and failing ones)");
    let mut rt = tokio::runtime::Builder::new().basic_scheduler().build().unwrap();
    let mut round = 0usize;
    while round < 300 || ctx.time_left() {
        round += 1;
        let rng = &mut *ctx.rng.borrow_mut();
        let dl = rng.range(1, 5);
        let small = rng.chance(2, 3);
        // few byte values make partial delimiters likely
        let byte = |rng: &mut crate::util::Rng, small: bool| if small { rng.below(3) as u8 } else { rng.u64() as u8 };
        let delimiter: Vec<u8> = if round % 5 == 0 { b"</>".to_vec() } else { (0..dl).map(|_| byte(rng, small)).collect() };
        // sometimes much larger
        let large = round == 77 || rng.chance(1, 500);
        let max = if large { *rng.pick(&[255usize, 256, 1024, 4097, 20_000]) } else { rng.range(1, 24) };
        let small = small && !large;
        let mut chunks: Vec<Vec<u8>> = vec![];
        for _ in 0..rng.range(1, 6) {
            let n = if rng.chance(1, 4) { max } else { rng.range(1, max) };
            let c: Vec<u8> = (0..n).map(|_| byte(rng, small)).collect();
            // the first delimiter in chunk + delimiter has to be the one at its end
            let mut t = c.clone();
            t.extend_from_slice(&delimiter);
            let first = (0..=t.len() - delimiter.len()).find(|i| t[*i..*i + delimiter.len()] == delimiter[..]);
            if first == Some(n) {
                chunks.push(c);
            }
        }
        let mut stream: Vec<u8> = vec![];
        let mut w = if round % 5 == 0 { DelimiterWriter::new() } else { DelimiterWriter::new_with_delimiter(&delimiter) };
        for c in &chunks {
            let n = w
                .write(c, |d| {
                    stream.extend_from_slice(d);
                    Ok(d.len())
                })
                .map_err(|e| e.to_string())?;
            ensure!(n == c.len(), "writing {} bytes reported {}", c.len(), n);
        }
        let mut want = vec![];
        for c in &chunks {
            want.extend_from_slice(c);
            want.extend_from_slice(&delimiter);
        }
        let ends: Vec<usize> = chunks.iter().scan(0, |at, c| { *at += c.len() + delimiter.len(); Some(*at) }).collect();
        ensure!(stream == want, "wrote {} for {:?}", hex(&stream), chunks);
        let mut r = if round % 5 == 0 { DelimiterReader::new(max) } else { DelimiterReader::new_with_delimiter(max, &delimiter) };
        let style = rng.below(4);
        let shown = if large { format!("of {:?} bytes", chunks.iter().map(|c| c.len()).collect::<Vec<_>>()) } else { format!("{:?}", chunks) };
        ctx.case(format!("max {} delimiter {} chunks {} reads {} seed {}/{}", max, hex(&delimiter), shown, ["one byte", "whole", "random", "random with failures"][style], ctx.seed, round));
        let mut pos = 0;
        let mut got: Vec<Vec<u8>> = vec![];
        let mut idle = 0;
        let (mut fails, mut seen_fails) = (0, 0);
        let mut use_async = false;
        while idle < 40 {
            let mut data = vec![0xAAu8; max];
            let want = match style {
                0 => 1,
                1 => 1000 + 2 * max,
                // up to about the end of a chunk
                _ if rng.chance(1, 3) => ends.iter().find(|e| **e > pos).map_or(1, |e| (e + rng.below(5)).saturating_sub(pos + 2)),
                _ => rng.below(2 * max + 3),
            };
            let fail = style == 3 && rng.chance(1, 4);
            let mut f = |b: &mut [u8]| -> io::Result<usize> {
                if fail {
                    return Err(io::Error::from(io::ErrorKind::WouldBlock));
                }
                let n = want.min(b.len()).min(stream.len() - pos);
                b[..n].copy_from_slice(&stream[pos..pos + n]);
                pos += n;
                Ok(n)
            };
            fails += fail as usize;
            use_async = !use_async;
            let res = if use_async {
                if rng.chance(1, 8) {
                    rt.block_on(r.async_read(&mut data, |b| futures_ready(f(b))))
                } else {
                    r.read(&mut data, f)
                }
            } else {
                r.read(&mut data, f)
            };
            match res {
                Ok(0) => idle += if pos == stream.len() { 1 } else { 0 },
                Ok(n) => {
                    idle = 0;
                    ensure!(n <= max, "returned {} bytes", n);
                    ensure!(data[n..].iter().all(|b| *b == 0xAA), "wrote beyond the returned chunk");
                    got.push(data[..n].to_vec());
                    ensure!(got.len() <= chunks.len() && got[got.len() - 1] == chunks[got.len() - 1], "chunk {} returned as {}", got.len() - 1, hex(&got[got.len() - 1]));
                }
                Err(e) => {
                    ensure!(fail && e.kind() == io::ErrorKind::WouldBlock, "unexpected error {:?}", e);
                    seen_fails += 1;
                    idle += if pos == stream.len() { 1 } else { 0 };
                }
            }
        }
        ensure!(seen_fails <= fails, "more errors than failing reads");
        ensure!(got == chunks, "{} of {} chunks were returned", got.len(), chunks.len());
    }
    Ok(())
}
fn futures_ready<T>(t: T) -> impl std::future::Future<Output = T> {
    async move { t }
}
