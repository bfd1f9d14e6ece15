//! Drives the real fuel-merkle crate and records what it does as ndjson
//! traces.  No verdicts are reached here: the TLA+ trace specifications in
//! /verif/spec judge the recordings.
mod binary;
mod config;
mod cost;
mod inject;
mod map;
mod own;
mod position;
mod shared;
mod sparse;
mod store;
mod sum;
mod util;

use util::*;

pub struct Ctx {
    pub out: Out,
    pub seed: u64,
    pub deep: bool,
    pub sched: Vec<Vec<Vec<String>>>,
}

impl Ctx {
    pub fn rng(&self, stream: &str) -> Rng {
        Rng::new(self.seed, stream)
    }
    /// A size for the quick tier and one for the thorough tier.
    pub fn size(&self, q: u64, t: u64) -> u64 {
        if self.deep {
            t
        } else {
            q
        }
    }
}

fn read_schedules(path: Option<&String>) -> Vec<Vec<Vec<String>>> {
    let Some(path) = path else { return vec![] };
    let text = std::fs::read_to_string(path).expect("schedule file");
    text.lines()
        .map(|l| {
            l.split(' ')
                .filter(|x| !x.is_empty())
                .map(|op| op.split(',').map(|x| x.to_string()).collect())
                .collect()
        })
        .collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, tier, seed, dir) = (&a[1], &a[2], a[3].parse::<u64>().unwrap(), &a[4]);
    let width: usize = std::env::var("SHARDS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    start_watchdog(60_000);
    let mut c = Ctx {
        out: Out::new(dir, width),
        seed,
        deep: tier == "thorough",
        sched: read_schedules(a.get(5)),
    };
    match prop.as_str() {
        "B01" => binary::b01(&mut c),
        "B02" => binary::b02(&mut c),
        "B03" => binary::b03(&mut c),
        "B04" => binary::b04(&mut c),
        "B05" => binary::b05(&mut c),
        "B06" => binary::b06(&mut c),
        "B07" => binary::b07(&mut c),
        "B08" => binary::b08(&mut c),
        "P01" => position::p01(&mut c),
        "P02" => position::p02(&mut c),
        "S01" => sparse::s01(&mut c),
        "S02" => sparse::s02(&mut c),
        "S03" => sparse::s03(&mut c),
        "S04" => sparse::s04(&mut c),
        "S05" => sparse::s05(&mut c),
        "S06" => sparse::s06(&mut c),
        "S07" => sparse::s07(&mut c),
        "S08" => sparse::s08(&mut c),
        "M01" => sum::m01(&mut c),
        "M02" => sum::m02(&mut c),
        "M03" => sum::m03(&mut c),
        "K01" => map::k01(&mut c),
        "H01" => inject::h01(&mut c),
        "Q01" => cost::q01(&mut c),
        "T01" => own::t01(&mut c),
        "T02" => shared::t02(&mut c),
        "C01" => config::c01(&mut c),
        // everything, to be compared between builds
        "ALL" => {
            for f in [
                binary::b01, binary::b02, binary::b03, binary::b04, binary::b05, binary::b06, binary::b07, binary::b08, position::p01,
                position::p02, sparse::s01, sparse::s02, sparse::s03, sparse::s04, sparse::s05, sparse::s06, sparse::s07, sparse::s08, sum::m01,
                sum::m02, sum::m03, map::k01, inject::h01, cost::q01, shared::long,
            ] {
                f(&mut c);
            }
        }
        _ => panic!("unknown property {}", prop),
    }
    c.out.finish();
}
