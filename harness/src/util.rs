//! Random numbers, digests, JSON, panic capture, and the trace writer.
use sha2::{Digest, Sha256};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fs::File;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub type B32 = [u8; 32];

/// SplitMix64.
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64, stream: &str) -> Self {
        let mut h = Sha256::new();
        h.update(seed.to_be_bytes());
        h.update(stream.as_bytes());
        let d = h.finalize();
        Rng(u64::from_be_bytes(d[..8].try_into().unwrap()))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_be_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn b32(&mut self) -> B32 {
        self.bytes(32).try_into().unwrap()
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            xs.swap(i, j);
        }
    }
}

/// Only used to make inputs; verdicts never depend on it.
pub fn sha(parts: &[&[u8]]) -> B32 {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}

pub fn hex(b: &[u8]) -> String {
    const D: &[u8] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    s
}

pub fn h64(x: u64) -> String {
    format!("{:016x}", x)
}

/// The trace specifications use 32-bit integers for small counts.
pub fn clip(x: u64) -> u64 {
    x.min(0x7fff_ffff)
}

/// Leaf data of interesting lengths and contents.
pub fn data(rng: &mut Rng, recent: &[Vec<u8>]) -> Vec<u8> {
    const LENS: [usize; 22] = [
        0, 1, 2, 7, 8, 31, 32, 33, 40, 54, 55, 56, 63, 64, 65, 66, 100, 119, 120, 127, 128, 200,
    ];
    match rng.below(10) {
        0 if !recent.is_empty() => rng.pick(recent).clone(),
        1 if !recent.is_empty() => sha(&[&[0], rng.pick(recent)]).to_vec(),
        2 => {
            // what a node preimage looks like
            let a = rng.b32();
            let b = rng.b32();
            [&[1u8][..], &a, &b].concat()
        }
        3 => vec![if rng.chance(1, 2) { 0 } else { 0xff }; *rng.pick(&LENS)],
        4 => {
            let n = rng.range(0, 300) as usize;
            rng.bytes(n)
        }
        _ => {
            let n = *rng.pick(&LENS);
            rng.bytes(n)
        }
    }
}

/// Lengths around block and buffer sizes.
pub fn lengths(rng: &mut Rng, deep: bool) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    for p in 8..(if deep { 19 } else { 15 }) {
        let b = 1usize << p;
        v.extend([b - 1, b, b + 1, b + b / 2]);
        v.push(b + rng.below(b as u64) as usize);
    }
    for x in [1000, 4000, 10_000, 65_535, 65_536, 65_537, 100_003] {
        v.push(x);
    }
    rng.shuffle(&mut v);
    v
}

/// Long data in which every byte counts.
pub fn long(rng: &mut Rng, n: usize) -> Vec<u8> {
    let mut d = rng.bytes(n);
    if rng.chance(1, 4) {
        let v = rng.next() as u8;
        let k = rng.below(n as u64 + 1) as usize;
        d[..k].fill(v);
    }
    d
}

// ---------------------------------------------------------------------------

static OP_STARTED: AtomicU64 = AtomicU64::new(0);
static SHARD: Mutex<Option<String>> = Mutex::new(None);

fn now_ms() -> u64 {
    std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .unwrap()
        .as_millis() as u64
}

/// Runs an operation of the code under test.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    OP_STARTED.store(now_ms(), Ordering::Relaxed);
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(|_| ());
    OP_STARTED.store(0, Ordering::Relaxed);
    r
}

/// Runs part of the drivers themselves.
pub fn guard_quiet<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| ())
}

/// An operation that does not return is recorded as such.
pub fn start_watchdog(limit_ms: u64) {
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(200));
        let t = OP_STARTED.load(Ordering::Relaxed);
        if t != 0 && now_ms() > t + limit_ms {
            if let Ok(s) = SHARD.lock() {
                if let Some(p) = s.as_ref() {
                    let mut f = std::fs::OpenOptions::new().append(true).open(p).unwrap();
                    let _ = f.write_all(b"{\"op\":\"hang\",\"r\":\"hang\"}\n");
                }
            }
            std::process::exit(0);
        }
    });
}

// ---------------------------------------------------------------------------

/// One JSON object.
pub struct Ev(String);

pub fn ev(op: &str) -> Ev {
    Ev(format!("{{\"op\":\"{}\"", op))
}

pub fn strs(xs: &[String]) -> String {
    let mut s = String::from("[");
    for (i, x) in xs.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push('"');
        s.push_str(x);
        s.push('"');
    }
    s.push(']');
    s
}

impl Ev {
    pub fn s(mut self, k: &str, v: &str) -> Self {
        self.0.push_str(&format!(",\"{}\":\"{}\"", k, v));
        self
    }
    pub fn n(mut self, k: &str, v: u64) -> Self {
        self.0.push_str(&format!(",\"{}\":{}", k, v));
        self
    }
    pub fn b(mut self, k: &str, v: bool) -> Self {
        self.0.push_str(&format!(",\"{}\":{}", k, v));
        self
    }
    pub fn raw(mut self, k: &str, v: &str) -> Self {
        self.0.push_str(&format!(",\"{}\":{}", k, v));
        self
    }
    pub fn list(self, k: &str, v: &[B32]) -> Self {
        let xs: Vec<String> = v.iter().map(|x| hex(x)).collect();
        let j = strs(&xs);
        self.raw(k, &j)
    }
    pub fn text(self) -> String {
        self.0 + "}"
    }
}

struct Shard {
    path: String,
    file: File,
    events: u64,
}

/// The trace files of one run: one family of shards per trace specification.
pub struct Out {
    dir: String,
    width: usize,
    fams: BTreeMap<String, Vec<Shard>>,
    cur: (String, usize),
    pub cases: u64,
    pub ops: BTreeMap<String, u64>,
    case_hash: Sha256,
    distinct: BTreeSet<B32>,
    in_case: u64,
    samples: Vec<String>,
    buffer: Option<Cases>,
}

/// Cases that have not been written yet: specification, description, events.
pub type Cases = Vec<(String, String, Vec<String>)>;

thread_local! {
    static LAST: RefCell<String> = RefCell::new(String::new());
}

impl Out {
    pub fn new(dir: &str, width: usize) -> Self {
        Out {
            dir: dir.into(),
            width,
            fams: BTreeMap::new(),
            cur: (String::new(), 0),
            cases: 0,
            ops: BTreeMap::new(),
            case_hash: Sha256::new(),
            distinct: BTreeSet::new(),
            in_case: 0,
            samples: vec![],
            buffer: None,
        }
    }

    /// Keeps the cases in memory, to be taken over by another.
    pub fn buffer() -> Self {
        let mut o = Self::new("", 1);
        o.buffer = Some(vec![]);
        o
    }

    pub fn into_cases(self) -> Cases {
        self.buffer.unwrap()
    }

    pub fn absorb(&mut self, other: Out) {
        self.absorb_cases(other.into_cases());
    }

    pub fn absorb_cases(&mut self, cases: Cases) {
        for (spec, what, events) in cases {
            self.case(&spec, &what);
            for e in events {
                self.line(e);
            }
        }
    }

    fn close_case(&mut self) {
        if self.in_case > 0 {
            let h: B32 = std::mem::take(&mut self.case_hash).finalize().into();
            self.distinct.insert(h);
        }
        self.in_case = 0;
    }

    /// Starts a case: a sequence of events that belong together.
    pub fn case(&mut self, spec: &str, what: &str) {
        if let Some(b) = self.buffer.as_mut() {
            b.push((spec.into(), what.into(), vec![]));
            return;
        }
        self.case_quiet(spec);
        if self.samples.len() < 12 && (self.cases < 4 || self.cases % 97 == 0) {
            self.samples.push(what.to_string());
        }
        let e = ev("new").s("c", what);
        self.write(&e.text());
    }

    /// The same for stateless specifications, whose events stand alone.
    pub fn case_quiet(&mut self, spec: &str) {
        self.close_case();
        self.cases += 1;
        if !self.fams.contains_key(spec) {
            let v = (0..self.width)
                .map(|i| {
                    let path = format!("{}/{}.{}.ndjson", self.dir, spec, i);
                    Shard {
                        file: File::create(&path).unwrap(),
                        path,
                        events: 0,
                    }
                })
                .collect();
            self.fams.insert(spec.into(), v);
        }
        let fam = &self.fams[spec];
        let i = (0..fam.len()).min_by_key(|i| fam[*i].events).unwrap();
        self.cur = (spec.into(), i);
        *SHARD.lock().unwrap() = Some(fam[i].path.clone());
    }

    /// Makes long cases count as more when shards are balanced.
    pub fn weigh(&mut self, extra: u64) {
        if self.buffer.is_some() {
            return;
        }
        let (s, i) = self.cur.clone();
        self.fams.get_mut(&s).unwrap()[i].events += extra;
    }

    fn write(&mut self, line: &str) {
        let (s, i) = self.cur.clone();
        let sh = &mut self.fams.get_mut(&s).unwrap()[i];
        sh.file.write_all(line.as_bytes()).unwrap();
        sh.file.write_all(b"\n").unwrap();
        sh.events += 1;
    }

    pub fn put(&mut self, e: Ev) {
        let line = e.text();
        if let Some(b) = self.buffer.as_mut() {
            b.last_mut().unwrap().2.push(line);
            return;
        }
        self.line(line);
    }

    fn line(&mut self, line: String) {
        let op = line[7..].split('"').next().unwrap().to_string();
        *self.ops.entry(op).or_insert(0) += 1;
        if self.in_case < 5000 {
            self.case_hash.update(line.as_bytes());
        }
        self.in_case += 1;
        if self.samples.len() < 12 && self.in_case == 3 {
            let cut: String = line.chars().take(400).collect();
            self.samples.push(cut.replace('"', "'"));
        }
        self.write(&line);
    }

    pub fn finish(mut self) {
        self.close_case();
        let ops: Vec<String> = self.ops.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
        let meta = format!(
            "{{\"cases\":{},\"distinct\":{},\"events\":{},\"ops\":{{{}}},\"samples\":{}}}\n",
            self.cases,
            self.distinct.len(),
            self.ops.values().sum::<u64>(),
            ops.join(","),
            strs(&self.samples)
        );
        std::fs::write(format!("{}/meta.json", self.dir), meta).unwrap();
    }
}

/// Yes and no in turns.
pub fn either() -> bool {
    use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
    static NEXT: AtomicBool = AtomicBool::new(false);
    NEXT.fetch_xor(true, Relaxed)
}
