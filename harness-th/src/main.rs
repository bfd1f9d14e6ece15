//! Drives the reference implementation and fixture runners of
//! fuel-merkle-test-helpers and records what they do as ndjson traces, which
//! the TLA+ trace specifications judge.
mod fixture;
mod reference;
mod suite;
#[path = "../../harness/src/util.rs"]
mod util;
mod verify;

use util::*;

pub struct Ctx {
    pub out: Out,
    pub seed: u64,
    pub deep: bool,
}

impl Ctx {
    pub fn rng(&self, stream: &str) -> Rng {
        Rng::new(self.seed, stream)
    }
    pub fn size(&self, q: u64, t: u64) -> u64 {
        if self.deep {
            t
        } else {
            q
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, tier, seed, dir) = (&a[1], &a[2], a[3].parse::<u64>().unwrap(), &a[4]);
    let width: usize = std::env::var("SHARDS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    start_watchdog(60_000);
    let mut c = Ctx {
        out: Out::new(dir, width),
        seed,
        deep: tier == "thorough",
    };
    match prop.as_str() {
        "V01" => verify::v01(&mut c),
        "V02" => reference::v02(&mut c),
        "V03" => fixture::v03(&mut c),
        "V04" => suite::v04(&mut c, dir),
        _ => panic!("unknown property {}", prop),
    }
    c.out.finish();
}
