//! Runs the real over-there code on generated inputs, one property per run:
//!   harness PROPERTY SEED quick|thorough SECONDS OUT.json
//! Exit status 0: nothing failed; 1: a failing input was found (in OUT.json).
//! It replays and samples only; what decides a property is the verifier.
mod carry;
mod client;
mod codec;
mod crypt;
mod files;
mod net;
mod race;
mod recv;
mod msgs;
mod srv;
mod stream;
mod util;
mod wire;

use util::Ctx;

/// the log of the code under test, for debugging
struct Log;
impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let t = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap();
        if r.target().starts_with("over_there") {
            eprintln!("{:?} {} {} {}", t, r.level(), r.target(), r.args());
        }
    }
    fn flush(&self) {}
}

fn main() {
    if std::env::var("HARNESS_LOG").is_ok() {
        log::set_boxed_logger(Box::new(Log)).unwrap();
        log::set_max_level(log::LevelFilter::Trace);
    }
    let a: Vec<String> = std::env::args().collect();
    let (prop, seed, tier, secs, out) = (
        a[1].clone(),
        a[2].parse::<u64>().unwrap(),
        a[3].clone(),
        a[4].parse::<f64>().unwrap(),
        a[5].clone(),
    );
    let ctx = Ctx::new(&prop, seed, &tier, secs, &out);
    let f: fn(&Ctx) -> Result<(), String> = match prop.as_str() {
        "C01" => wire::c01,
        "C02" => wire::c02,
        "C03" => wire::c03,
        "C04" => wire::c04,
        "C05" => crypt::c05,
        "C06" => crypt::c06,
        "C07" => wire::c07,
        "C08" => files::c08,
        "C09" => files::c09,
        "C10" => files::c10,
        "C11" => srv::c11,
        "C12" => srv::c12,
        "C12-stdin" => srv::finding_stdin,
        "C13" => srv::c13,
        "C14" => client::c14,
        "C15" => client::c15,
        "C16" => srv::c16,
        "C17" => codec::c17,
        "C18" => recv::c18,
        "C19" => codec::c19,
        "C20" => stream::c20,
        _ => {
            eprintln!("no harness for {}", prop);
            std::process::exit(3);
        }
    };
    ctx.run(f);
}
