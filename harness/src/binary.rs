//! Binary Merkle trees: B01 to B08.
use crate::store::Shared;
use crate::util::*;
use crate::Ctx;
use fuel_merkle::binary::{self, in_memory, MerkleTreeError, Primitive};
use fuel_merkle::storage::Mappable;
use std::collections::BTreeMap;

pub struct BTable;
impl Mappable for BTable {
    type Key = u64;
    type SetValue = Primitive;
    type GetValue = Primitive;
}
pub type St = Shared<u64, Primitive>;
pub type Tree = binary::MerkleTree<BTable, St>;

pub fn kind<E>(e: &MerkleTreeError<E>) -> (&'static str, u64) {
    match e {
        MerkleTreeError::InvalidProofIndex(i) => ("oor", *i),
        MerkleTreeError::LoadError(k) => ("load", *k),
        MerkleTreeError::StorageError(_) => ("storage", 0),
    }
}

/// A storage-backed tree and its store; every operation is recorded.
pub struct Run {
    pub st: St,
    pub t: Option<Tree>,
    pub n: u64,
}

impl Run {
    pub fn new() -> Self {
        let st = St::new();
        Run { t: Some(Tree::new(st.clone())), st, n: 0 }
    }

    pub fn on(st: St) -> Self {
        Run { t: None, st, n: 0 }
    }

    /// A push; at most one of its writes fails.
    pub fn push(&mut self, o: &mut Out, d: &[u8], fail: Option<u64>) -> bool {
        self.st.begin();
        self.st.fail_write(fail);
        let Some(t) = self.t.as_mut() else { return false };
        let r = match guard(|| t.push(d)) {
            Err(()) => "panic",
            Ok(Ok(())) => "ok",
            Ok(Err(e)) => kind(&e).0,
        };
        let f = self.st.fired();
        self.st.begin();
        o.put(ev("push").s("d", &hex(d)).b("f", f).s("r", r));
        if r == "ok" {
            self.n += 1;
        }
        r == "ok"
    }

    /// A push during which the process stops after some writes.
    pub fn crash(&mut self, o: &mut Out, d: &[u8], after: u64) {
        self.st.begin();
        self.st.cut(Some(after));
        let Some(mut t) = self.t.take() else { return };
        let r = guard(|| t.push(d));
        let cut = self.st.fired();
        self.st.begin();
        if cut {
            o.put(ev("crash"));
        } else {
            // all writes were made: the push was acknowledged
            let r = match r {
                Err(()) => "panic",
                Ok(Ok(())) => "ok",
                Ok(Err(e)) => kind(&e).0,
            };
            o.put(ev("push").s("d", &hex(d)).b("f", false).s("r", r));
            self.n += 1;
        }
    }

    pub fn push_many(&mut self, o: &mut Out, ds: &[Vec<u8>]) {
        self.st.begin();
        let t = self.t.as_mut().unwrap();
        let r = match guard(|| ds.iter().try_for_each(|d| t.push(d))) {
            Err(()) => "panic",
            Ok(Ok(())) => "ok",
            Ok(Err(e)) => kind(&e).0,
        };
        let xs: Vec<String> = ds.iter().map(|d| hex(d)).collect();
        o.put(ev("pushn").raw("ds", &strs(&xs)).s("r", r));
        o.weigh(ds.len() as u64);
        self.n += ds.len() as u64;
    }

    pub fn root(&self, o: &mut Out) {
        let Some(t) = self.t.as_ref() else { return };
        let (r, v) = match guard(|| t.root()) {
            Err(()) => ("panic", String::new()),
            Ok(v) => ("ok", hex(&v)),
        };
        o.put(ev("root").s("r", r).s("v", &v));
    }

    pub fn prove(&self, o: &mut Out, i: u64, fail: Option<u64>) {
        let Some(t) = self.t.as_ref() else { return };
        self.st.begin();
        self.st.fail_read(fail);
        let res = guard(|| t.prove(i));
        let f = self.st.fired();
        self.st.begin();
        let (r, root, set, e) = match res {
            Err(()) => ("panic", String::new(), vec![], 0),
            Ok(Ok((root, set))) => ("ok", hex(&root), set, 0),
            Ok(Err(e)) => (kind(&e).0, String::new(), vec![], kind(&e).1),
        };
        o.put(
            ev("prove").n("i", clip(i)).s("ih", &h64(i)).b("f", f).s("r", r).s("root", &root).list("set", &set).s("e", &h64(e)).n("en", clip(e)),
        );
    }

    pub fn load(&mut self, o: &mut Out, k: u64, fail: Option<u64>) -> bool {
        self.st.begin();
        self.st.fail_read(fail);
        let st = self.st.clone();
        let res = guard(move || Tree::load(st, k));
        let f = self.st.fired();
        self.st.begin();
        let (r, e) = match res {
            Err(()) => ("panic", 0),
            Ok(Ok(t)) => {
                self.t = Some(t);
                self.n = k;
                ("ok", 0)
            }
            Ok(Err(e)) => kind(&e),
        };
        o.put(ev("load").n("k", clip(k)).b("f", f).s("r", r).n("en", clip(e)));
        r == "ok"
    }

    pub fn all(&self, o: &mut Out) {
        self.root(o);
        for i in 0..self.n {
            self.prove(o, i, None);
        }
    }

    pub fn some(&self, o: &mut Out, rng: &mut Rng) {
        self.root(o);
        if self.n > 0 {
            self.prove(o, self.n - 1, None);
            let i = rng.below(self.n);
            self.prove(o, i, None);
        }
    }

    /// The store's contents, for comparison between builds.
    pub fn note(&self, o: &mut Out) {
        let mut all = vec![];
        for (k, v) in self.st.snapshot() {
            all.extend_from_slice(&k.to_be_bytes());
            all.extend_from_slice(&v.0.to_be_bytes());
            all.extend_from_slice(&v.1);
        }
        o.put(ev("note").s("v", &hex(&sha(&[&all]))));
    }

    pub fn dump(&self, o: &mut Out) {
        let es: Vec<String> =
            self.st.snapshot().iter().map(|(k, v)| format!("[{},{},\"{}\"]", clip(*k), clip(v.0), hex(&v.1))).collect();
        o.put(ev("store").raw("es", &format!("[{}]", es.join(","))));
    }
}

pub struct Mem(pub in_memory::MerkleTree);

impl Mem {
    /// An empty tree, made in either of the two ways.
    pub fn new() -> Self {
        Mem(if either() { in_memory::MerkleTree::new() } else { in_memory::MerkleTree::default() })
    }
    pub fn push(&mut self, o: &mut Out, d: &[u8]) {
        let r = if guard(|| self.0.push(d)).is_ok() { "ok" } else { "panic" };
        o.put(ev("push").s("d", &hex(d)).b("f", false).s("r", r));
    }
    pub fn push_many(&mut self, o: &mut Out, ds: &[Vec<u8>]) {
        let r = if guard(|| ds.iter().for_each(|d| self.0.push(d))).is_ok() { "ok" } else { "panic" };
        let xs: Vec<String> = ds.iter().map(|d| hex(d)).collect();
        o.put(ev("pushn").raw("ds", &strs(&xs)).s("r", r));
        o.weigh(ds.len() as u64);
    }
    pub fn root(&mut self, o: &mut Out) {
        let (r, v) = match guard(|| self.0.root()) {
            Err(()) => ("panic", String::new()),
            Ok(v) => ("ok", hex(&v)),
        };
        o.put(ev("root").s("r", r).s("v", &v));
    }
    pub fn prove(&mut self, o: &mut Out, i: u64) {
        let (r, root, set, e) = match guard(|| self.0.prove(i)) {
            Err(()) => ("panic", String::new(), vec![], 0),
            Ok(Some((root, set))) => ("ok", hex(&root), set, 0),
            Ok(None) => ("oor", String::new(), vec![], i),
        };
        o.put(
            ev("prove").n("i", clip(i)).s("ih", &h64(i)).b("f", false).s("r", r).s("root", &root).list("set", &set).s("e", &h64(e)).n("en", clip(e)),
        );
    }
}

/// Leaf data for `n` pushes; some repeat, some imitate nodes of the tree.
pub fn leaves(rng: &mut Rng, n: u64) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    let style = rng.below(5);
    for _ in 0..n {
        let d = match style {
            0 => vec![],
            1 => rng.bytes(32),
            _ => data(rng, &v),
        };
        v.push(d);
    }
    v
}

fn short(rng: &mut Rng, n: u64) -> Vec<Vec<u8>> {
    (0..n).map(|_| { let k = rng.range(0, 8) as usize; rng.bytes(k) }).collect()
}

/// Counts at which something happens: powers of two and neighbours.
fn count(rng: &mut Rng, max: u64) -> u64 {
    match rng.below(3) {
        0 => {
            let p = 1u64 << rng.below(64 - max.leading_zeros() as u64);
            (p + rng.below(3)).saturating_sub(1).min(max)
        }
        _ => rng.below(max + 1),
    }
}

// -- B01 ----------------------------------------------------------------------

pub fn b01(c: &mut Ctx) {
    let mut rng = c.rng("B01");
    // the root after every push, with and without reads in between
    for case in 0..c.size(10, 60) {
        let n = if case < 2 { 70 } else { count(&mut rng, 48) };
        let ds = leaves(&mut rng, n);
        let noisy = case % 2 == 1;
        c.out.case("Trace_Binary", &format!("stored, {} leaves, noisy {}", n, noisy));
        let mut r = Run::new();
        r.root(&mut c.out);
        for d in &ds {
            r.push(&mut c.out, d, None);
            if !noisy || rng.chance(1, 2) {
                r.root(&mut c.out);
            }
            if noisy {
                for _ in 0..rng.below(3) {
                    let i = rng.below(r.n + 2);
                    let _ = guard(|| r.t.as_ref().unwrap().prove(i));
                }
                r.root(&mut c.out);
            }
        }
        r.root(&mut c.out);
        c.out.case("Trace_Binary", &format!("in memory, {} leaves, noisy {}", n, noisy));
        let mut m = Mem::new();
        m.root(&mut c.out);
        for (x, d) in ds.iter().enumerate() {
            m.push(&mut c.out, d);
            if noisy {
                let i = rng.below(x as u64 + 2);
                let _ = guard(|| m.0.prove(i));
            }
            m.root(&mut c.out);
        }
        m.root(&mut c.out);
    }
    // roots asked for rarely
    for _ in 0..c.size(6, 40) {
        let n = count(&mut rng, 400);
        let ds = leaves(&mut rng, n);
        c.out.case("Trace_Binary", &format!("stored, batches, {} leaves", n));
        let mut r = Run::new();
        let mut m = Mem::new();
        let mut at = 0;
        while at < ds.len() {
            let k = (1 + rng.below(64) as usize).min(ds.len() - at);
            r.push_many(&mut c.out, &ds[at..at + k]);
            for d in &ds[at..at + k] {
                let _ = guard(|| m.0.push(d));
            }
            at += k;
            r.root(&mut c.out);
            m.root(&mut c.out);
        }
    }
    // data of every short length, and of lengths around buffer sizes
    c.out.case("Trace_Binary", "every length up to 300");
    let mut r = Run::new();
    let mut m = Mem::new();
    for x in 0..=300usize {
        let d = long(&mut rng, x);
        let _ = guard(|| m.0.push(&d));
        r.push(&mut c.out, &d, None);
        if x % 7 == 0 || x > 290 {
            r.root(&mut c.out);
            m.root(&mut c.out);
        }
    }
    c.out.case("Trace_Binary", "long data");
    c.out.weigh(400);
    let mut r = Run::new();
    for x in lengths(&mut rng, c.deep) {
        let d = long(&mut rng, x);
        r.push(&mut c.out, &d, None);
        r.root(&mut c.out);
    }
    // around larger powers of two
    let big: &[u64] = if c.deep { &[255, 1023, 4095, 8191, 16383, 65535] } else { &[255, 1023, 4095, 16383, 65535] };
    for b in big {
        let mem = rng.chance(1, 2);
        c.out.case("Trace_Binary", &format!("around {}, in memory {}", b + 1, mem));
        c.out.weigh(b / 20);
        let ds = short(&mut rng, b + 2);
        let mut r = Run::new();
        let mut m = Mem::new();
        let n = *b as usize;
        if mem {
            m.push_many(&mut c.out, &ds[..n]);
            m.root(&mut c.out);
            m.push(&mut c.out, &ds[n]);
            m.root(&mut c.out);
            m.push(&mut c.out, &ds[n + 1]);
            m.root(&mut c.out);
        } else {
            r.push_many(&mut c.out, &ds[..n]);
            r.root(&mut c.out);
            r.push(&mut c.out, &ds[n], None);
            r.root(&mut c.out);
            r.push(&mut c.out, &ds[n + 1], None);
            r.root(&mut c.out);
        }
    }
    // resumed and rewound
    for _ in 0..c.size(8, 80) {
        let k = c.size(40, 80);
        session(c, &mut rng, k, 0);
    }
    // the root at every count
    let part = c.size(600, 1500);
    for x in 0..c.size(8, 24) {
        dense(c, &mut rng, x * part, (x + 1) * part, x % 2 == 1, Dense { roots: true, ..Default::default() });
    }
    // trees of any size, resumed
    for x in 0..c.size(40, 600) {
        let (n, i) = if x % 2 == 0 { wide_join(&mut rng) } else { wide_pair(&mut rng) };
        let mut w = Wide::start(c, &mut rng, n, i);
        let o = &mut c.out;
        w.load(o, if rng.chance(1, 3) { i + 1 } else { n }, None);
        w.root(o);
        for _ in 0..rng.range(1, 5) {
            let d = data(&mut rng, &[]);
            w.push(o, &d, None);
            if rng.chance(1, 2) {
                w.root(o);
            }
            if rng.chance(1, 4) {
                let j = rng.below(w.n);
                w.prove(o, j, None);
            }
        }
        w.root(o);
    }
}

// -- B02 ----------------------------------------------------------------------

pub fn b02(c: &mut Ctx) {
    let mut rng = c.rng("B02");
    // every index of every size, asked for in any order and twice
    for n in 0..=c.size(40, 100) {
        let ds = leaves(&mut rng, n);
        let mem = n % 3 == 1;
        c.out.case("Trace_Binary", &format!("all proofs of {} leaves, in memory {}", n, mem));
        let mut ix: Vec<u64> = (0..n).collect();
        rng.shuffle(&mut ix);
        if mem {
            let mut m = Mem::new();
            m.push_many(&mut c.out, &ds);
            for i in ix {
                m.prove(&mut c.out, i);
            }
            m.root(&mut c.out);
        } else {
            let mut r = Run::new();
            r.push_many(&mut c.out, &ds);
            if n % 3 == 2 {
                r.load(&mut c.out, n, None);
            }
            for i in ix {
                r.prove(&mut c.out, i, None);
            }
            r.root(&mut c.out);
        }
        c.out.weigh(n * n / 8);
    }
    // proofs while the tree grows
    for case in 0..c.size(6, 60) {
        let n = count(&mut rng, 48);
        let ds = leaves(&mut rng, n);
        c.out.case("Trace_Binary", &format!("proofs while growing to {}", n));
        let mut r = Run::new();
        let mut m = Mem::new();
        for (x, d) in ds.iter().enumerate() {
            let i = if rng.chance(1, 3) { x as u64 } else { rng.below(x as u64 + 1) };
            if case % 2 == 0 {
                r.push(&mut c.out, d, None);
                r.prove(&mut c.out, i, None);
            } else {
                m.push(&mut c.out, d);
                m.prove(&mut c.out, i);
            }
        }
    }
    // larger trees, with loading at smaller counts
    let mut sizes: Vec<u64> = (0..c.size(6, 40)).map(|_| 40 + count(&mut rng, 300)).collect();
    sizes.extend_from_slice(&[1023, 1024, 1025, 2049]);
    if c.deep {
        sizes.extend_from_slice(&[4095, 4096, 4097, 5000]);
    }
    for n in sizes {
        let mem = rng.chance(1, 4);
        c.out.case("Trace_Binary", &format!("some proofs of {} leaves, in memory {}", n, mem));
        let ds = short(&mut rng, n);
        let mut ix = vec![0, 1, n / 2, n - 2, n - 1];
        for _ in 0..4 {
            ix.push(rng.below(n));
            ix.push((1u64 << rng.below(13)).min(n - 1));
        }
        if n > 600 {
            ix.truncate(9);
        }
        c.out.weigh(n * ix.len() as u64 / 2);
        if mem {
            let mut m = Mem::new();
            m.push_many(&mut c.out, &ds);
            for i in ix {
                m.prove(&mut c.out, i);
            }
        } else {
            let mut r = Run::new();
            r.push_many(&mut c.out, &ds);
            for i in ix {
                r.prove(&mut c.out, i, None);
            }
            let k = rng.range(n / 2, n);
            r.load(&mut c.out, k, None);
            r.prove(&mut c.out, k - 1, None);
            let i = rng.below(k);
            r.prove(&mut c.out, i, None);
        }
    }
    // resumed and rewound
    for _ in 0..c.size(8, 80) {
        let k = c.size(40, 80);
        session(c, &mut rng, k, 0);
    }
    // proofs at every count
    let part = c.size(200, 400);
    for x in 0..c.size(8, 24) {
        dense(c, &mut rng, x * part, (x + 1) * part, x % 3 == 1, Dense { proofs: 3, ..Default::default() });
    }
    // trees of any size, resumed
    for x in 0..c.size(60, 800) {
        let (n, i) = if x % 2 == 0 { wide_join(&mut rng) } else { wide_pair(&mut rng) };
        let mut w = Wide::start(c, &mut rng, n, i);
        let o = &mut c.out;
        w.load(o, n, None);
        w.root(o);
        w.prove(o, i, None);
        w.prove(o, i ^ 1, None);
        for _ in 0..rng.range(0, 4) {
            let d = data(&mut rng, &[]);
            w.push(o, &d, None);
            w.prove(o, i, None);
        }
        w.look(o, i, n);
        w.load(o, i + 1, None);
        w.prove(o, i, None);
    }
}

// -- B03 ----------------------------------------------------------------------

pub fn b03(c: &mut Ctx) {
    let mut rng = c.rng("B03");
    let mut ns: Vec<u64> = (0..=c.size(20, 70)).collect();
    ns.extend_from_slice(&[31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257]);
    for n in ns {
        for mem in [false, true] {
            let ds = leaves(&mut rng, n);
            c.out.case("Trace_Binary", &format!("indices beyond {} leaves, in memory {}", n, mem));
            let mut r = Run::new();
            let mut m = Mem::new();
            if mem {
                m.push_many(&mut c.out, &ds);
            } else {
                r.push_many(&mut c.out, &ds);
                if rng.chance(1, 3) {
                    let k = rng.below(n + 1);
                    r.load(&mut c.out, k, None);
                }
            }
            let n = if mem { n } else { r.n };
            let np = n.next_power_of_two();
            let mut ix = vec![
                n, n + 1, n + 2, np, np + 1, 2 * np, 2 * n, 2 * n + 1, 2 * np - 1, 3 * np, u64::MAX, u64::MAX - 1, u64::MAX / 2, u64::MAX / 2 + 1,
                1 << 31, 1 << 32, 1 << 62, 1 << 63, (1 << 63) - 1, (1 << 62) - 1,
            ];
            for _ in 0..6 {
                let hi = 1u64 << rng.range(32, 63);
                ix.push(hi + rng.below(n + 1));
                let b = 1u64 << rng.below(63);
                ix.push(n + rng.below(b));
            }
            ix.push(rng.next() | 1 << 63);
            ix.retain(|i| *i >= n);
            rng.shuffle(&mut ix);
            for i in ix {
                if mem {
                    m.prove(&mut c.out, i);
                } else {
                    r.prove(&mut c.out, i, None);
                }
            }
            // unchanged, and still usable
            let d = data(&mut rng, &ds);
            if mem {
                m.root(&mut c.out);
                m.push(&mut c.out, &d);
                m.prove(&mut c.out, n);
                m.root(&mut c.out);
            } else {
                r.root(&mut c.out);
                r.push(&mut c.out, &d, None);
                r.prove(&mut c.out, n, None);
                r.root(&mut c.out);
            }
        }
    }
    // resumed and rewound
    for _ in 0..c.size(8, 80) {
        let k = c.size(40, 80);
        session(c, &mut rng, k, 3);
    }
    // at every count
    let part = c.size(300, 600);
    for x in 0..c.size(8, 24) {
        dense(c, &mut rng, x * part, (x + 1) * part, x % 2 == 1, Dense { roots: true, beyond: true, ..Default::default() });
    }
    // trees of any size, resumed
    for x in 0..c.size(30, 400) {
        let (n, i) = if x % 2 == 0 { wide_join(&mut rng) } else { wide_pair(&mut rng) };
        let mut w = Wide::start(c, &mut rng, n, i);
        let o = &mut c.out;
        w.load(o, n, None);
        let np = n.next_power_of_two();
        let mut ix = vec![n, n + 1, n ^ (1 << 63), n | 1 << 62, i | 1 << 62, i | 1 << 63, i | 3 << 62, np, np - 1, np.wrapping_mul(2).max(np), 2 * np.min(1 << 62) - 1, 2 * n, u64::MAX, 1 << 62, 1 << 63];
        for _ in 0..4 {
            ix.push(n + rng.below(u64::MAX - n));
            let b = 1u64 << rng.below(63);
            ix.push(n + rng.below(b));
        }
        ix.retain(|j| *j >= n);
        rng.shuffle(&mut ix);
        for j in ix {
            w.prove(o, j, None);
        }
        w.look(o, i, n);
        let d = data(&mut rng, &[]);
        w.push(o, &d, None);
        w.prove(o, n + 1, None);
        w.look(o, i, n);
    }
}

// -- schedules from the step model --------------------------------------------

/// Replays a schedule of the TLA+ step model.  Fields: operation, datum or
/// count, write.
fn replay(c: &mut Ctx, rng: &mut Rng, s: &[Vec<String>]) {
    let text: Vec<String> = s.iter().map(|o| o.join(" ")).collect();
    c.out.case("Trace_Binary", &format!("schedule {}", text.join(", ")));
    let a = data(rng, &[]);
    let mut b = data(rng, &[a.clone()]);
    if a == b {
        b.push(1);
    }
    let d = [vec![], a, b];
    let mut r = Run::new();
    for o in s {
        let x: u64 = o[1].parse().unwrap();
        let j: u64 = o[2].parse().unwrap();
        match o[0].as_str() {
            "push" => {
                r.push(&mut c.out, &d[x as usize], None);
            }
            "fail" => {
                r.push(&mut c.out, &d[x as usize], Some(j));
            }
            "crash" => r.crash(&mut c.out, &d[x as usize], j),
            "stop" => r.t = None,
            "load" => {
                r.load(&mut c.out, x, None);
            }
            _ => unreachable!(),
        }
        r.root(&mut c.out);
    }
    r.all(&mut c.out);
    if rng.chance(1, 4) {
        let n = r.n;
        r.load(&mut c.out, n, None);
        r.all(&mut c.out);
    }
}

fn schedules(c: &mut Ctx, rng: &mut Rng, limit: u64, want: impl Fn(&[Vec<String>]) -> bool) {
    let mut s: Vec<_> = std::mem::take(&mut c.sched).into_iter().filter(|s| want(s)).collect();
    rng.shuffle(&mut s);
    s.truncate(limit as usize);
    for x in &s {
        replay(c, rng, x);
    }
}

fn has(s: &[Vec<String>], op: &str) -> bool {
    s.iter().any(|o| o[0] == op)
}

// -- B04 ----------------------------------------------------------------------

fn index(h: u32, j: u64) -> u64 {
    (j << h << 1) + (1u64 << h) - 1
}

/// Nodes of the path of leaf i and of all peaks, for huge n.
fn seed_wide(rng: &mut Rng, n: u64, i: u64) -> BTreeMap<u64, Primitive> {
    let mut m = BTreeMap::new();
    let mut lo = 0u64;
    let mut left = n;
    while left > 0 {
        let h = 63 - left.leading_zeros();
        let j = lo >> h;
        if i >= lo && i - lo < (1u64 << h) {
            let mut dig = rng.b32();
            for g in 0..=h {
                let p = i >> g;
                m.insert(index(g, p), (index(g, p), dig));
                if g < h {
                    let sib = rng.b32();
                    m.insert(index(g, p ^ 1), (index(g, p ^ 1), sib));
                    dig = if p & 1 == 0 { sha(&[&[1], &dig, &sib]) } else { sha(&[&[1], &sib, &dig]) };
                }
            }
        } else {
            m.insert(index(h, j), (index(h, j), rng.b32()));
        }
        lo += 1u64 << h;
        left -= 1u64 << h;
    }
    m
}

/// A tree of any size, on a store with the nodes that matter; every operation
/// is recorded.
pub struct Wide {
    pub st: St,
    pub t: Option<Tree>,
    pub n: u64,
}

impl Wide {
    /// A store left behind by n pushes, as far as leaf i and the peaks go.
    pub fn start(c: &mut Ctx, rng: &mut Rng, n: u64, i: u64) -> Self {
        c.out.case_quiet("Trace_Wide");
        let m = seed_wide(rng, n, i);
        let nodes: Vec<String> = m.iter().map(|(k, v)| format!("[\"{}\",\"{}\"]", h64(*k), hex(&v.1))).collect();
        c.out.put(ev("seed").s("n", &h64(n)).raw("nodes", &format!("[{}]", nodes.join(","))));
        Wide { st: St::with(m), t: None, n: 0 }
    }

    pub fn on(st: St) -> Self {
        Wide { st, t: None, n: 0 }
    }

    pub fn load(&mut self, o: &mut Out, n: u64, fail: Option<u64>) -> bool {
        self.st.begin();
        self.st.fail_read(fail);
        let s = self.st.clone();
        let res = guard(move || Tree::load(s, n));
        let f = self.st.fired();
        self.st.begin();
        let (r, e) = match res {
            Err(()) => ("panic", 0),
            Ok(Ok(t)) => {
                self.t = Some(t);
                self.n = n;
                ("ok", 0)
            }
            Ok(Err(e)) => kind(&e),
        };
        o.put(ev("load").s("n", &h64(n)).b("f", f).s("r", r).s("e", &h64(e)));
        r == "ok"
    }

    pub fn root(&self, o: &mut Out) {
        let Some(t) = &self.t else { return };
        let (r, v) = match guard(|| t.root()) {
            Err(()) => ("panic", String::new()),
            Ok(v) => ("ok", hex(&v)),
        };
        o.put(ev("root").s("r", r).s("v", &v));
    }

    pub fn prove(&self, o: &mut Out, i: u64, fail: Option<u64>) {
        let Some(t) = &self.t else { return };
        self.st.begin();
        self.st.fail_read(fail);
        let res = guard(|| t.prove(i));
        let f = self.st.fired();
        self.st.begin();
        let (r, root, set, e) = match res {
            Err(()) => ("panic", String::new(), vec![], 0),
            Ok(Ok((root, set))) => ("ok", hex(&root), set, 0),
            Ok(Err(e)) => (kind(&e).0, String::new(), vec![], kind(&e).1),
        };
        o.put(ev("prove").s("i", &h64(i)).b("f", f).s("r", r).s("root", &root).list("set", &set).s("e", &h64(e)));
    }

    pub fn push(&mut self, o: &mut Out, d: &[u8], fail: Option<u64>) {
        let Some(t) = self.t.as_mut().filter(|_| self.n < TOP) else { return };
        self.st.begin();
        self.st.fail_write(fail);
        let r = match guard(|| t.push(d)) {
            Err(()) => "panic",
            Ok(Ok(())) => "ok",
            Ok(Err(e)) => kind(&e).0,
        };
        let f = self.st.fired();
        self.st.begin();
        o.put(ev("push").s("d", &hex(d)).b("f", f).s("r", r));
        if r == "ok" {
            self.n += 1;
        }
    }

    /// A push during which the process stops.
    pub fn crash(&mut self, o: &mut Out, d: &[u8], after: u64) {
        let Some(mut t) = self.t.take().filter(|_| self.n < TOP) else { return };
        self.st.begin();
        self.st.cut(Some(after));
        let r = guard(|| t.push(d));
        let cut = self.st.fired();
        self.st.begin();
        if cut {
            o.put(ev("crash"));
        } else {
            let r = match r {
                Err(()) => "panic",
                Ok(Ok(())) => "ok",
                Ok(Err(e)) => kind(&e).0,
            };
            o.put(ev("push").s("d", &hex(d)).b("f", false).s("r", r));
            self.n += 1;
        }
    }

    fn writes(&self, e: Ev) -> Ev {
        let log = self.st.log();
        let rem = log.iter().filter(|x| x.1.is_none()).count() as u64;
        let set: Vec<String> = log
            .iter()
            .filter_map(|(k, v)| v.as_ref().map(|v| format!("[\"{}\",\"{}\",\"{}\"]", h64(*k), h64(v.0), hex(&v.1))))
            .collect();
        e.n("rem", rem).raw("set", &format!("[{}]", set.join(",")))
    }

    /// A push with its writes.
    pub fn push_w(&mut self, o: &mut Out, d: &[u8]) {
        let Some(t) = self.t.as_mut().filter(|_| self.n < TOP) else { return };
        self.st.begin();
        let r = match guard(|| t.push(d)) {
            Err(()) => "panic",
            Ok(Ok(())) => "ok",
            Ok(Err(e)) => kind(&e).0,
        };
        o.put(self.writes(ev("pushw").s("d", &hex(d)).s("r", r)));
        self.n += 1;
    }

    pub fn read_w(&mut self, o: &mut Out, rng: &mut Rng, i: u64) {
        self.st.begin();
        let n = self.n;
        match rng.below(3) {
            0 => {
                let _ = guard(|| self.t.as_ref().unwrap().root());
            }
            1 => {
                let _ = guard(|| self.t.as_ref().unwrap().prove(i));
            }
            _ => {
                let st = self.st.clone();
                if let Ok(Ok(t)) = guard(move || Tree::load(st, n)) {
                    self.t = Some(t);
                }
            }
        }
        o.put(self.writes(ev("readw")));
    }

    pub fn lose(&self, o: &mut Out, keys: &[u64]) {
        let ks: Vec<String> = keys.iter().map(|k| h64(*k)).collect();
        for k in keys {
            self.st.0.borrow_mut().map.remove(k);
        }
        o.put(ev("lose").raw("keys", &strs(&ks)));
    }

    /// The root, the known leaf, and the leaves from `from` on.
    pub fn look(&self, o: &mut Out, i: u64, from: u64) {
        self.root(o);
        if i < self.n {
            self.prove(o, i, None);
        }
        for x in from..self.n {
            if x != i {
                self.prove(o, x, None);
            }
        }
    }
}

/// What is looked at during a dense history.
#[derive(Clone, Copy, Default)]
struct Dense {
    roots: bool,
    proofs: u64,
    beyond: bool,
    writes: bool,
    fails: bool,
    crashes: bool,
    loads: bool,
}

fn proof_json(i: u64, res: Result<Result<(B32, Vec<B32>), (&'static str, u64)>, ()>) -> String {
    let (r, root, set, e) = match res {
        Err(()) => ("panic", String::new(), vec![], 0),
        Ok(Ok((root, set))) => ("ok", hex(&root), set, 0),
        Ok(Err((r, e))) => (r, String::new(), vec![], e),
    };
    let set: Vec<String> = set.iter().map(|x| hex(x)).collect();
    format!("{{\"i\":\"{}\",\"r\":\"{}\",\"root\":\"{}\",\"set\":{},\"e\":\"{}\"}}", h64(i), r, root, strs(&set), h64(e))
}

/// Every leaf count from 0 to `to`, looked at from `from` on, on a stored tree
/// or one in memory.  Returns the store.
fn dense(c: &mut Ctx, rng: &mut Rng, from: u64, to: u64, mem: bool, look: Dense) -> St {
    let mut w = Wide::start(c, rng, 0, 0);
    let mut m = Mem::new();
    let o = &mut c.out;
    w.load(o, 0, None);
    let keep = look.proofs > 0 || look.loads;
    let mut steps: Vec<String> = vec![];
    let mut n = 0u64;
    let len = rng.range(0, 9) as usize;
    let (mut at, mut todo) = (None, vec![]);
    while n < to {
        let on = n + 1 >= from;
        let d = if rng.chance(1, 16) { data(rng, &[]) } else { rng.bytes(len) };
        // every write of every push fails once, or is the last one made
        if on && (look.fails || look.crashes) && at.map_or(true, |a| a != n) {
            at = Some(n);
            todo = (0..(n + 1).trailing_zeros() as u64 + 1).collect();
            rng.shuffle(&mut todo);
        }
        let j = todo.pop();
        let fail = look.fails && j.is_some();
        let crash = look.crashes && j.is_some();
        let mut lr = "";
        let (mut r, mut f) = ("panic", false);
        let (mut set, mut rem) = (vec![], 0u64);
        if mem {
            if guard(|| m.0.push(&d)).is_ok() {
                r = "ok";
            }
        } else if let Some(t) = w.t.as_mut() {
            w.st.begin();
            if fail {
                w.st.fail_write(j);
            }
            if crash {
                w.st.cut(j);
            }
            r = match guard(|| t.push(&d)) {
                Err(()) => "panic",
                Ok(Ok(())) => "ok",
                Ok(Err(e)) => kind(&e).0,
            };
            f = w.st.fired();
            for (k, v) in w.st.log() {
                match v {
                    None => rem += 1,
                    Some(v) => set.push(format!("[\"{}\",\"{}\",\"{}\"]", h64(k), h64(v.0), hex(&v.1))),
                }
            }
            w.st.begin();
            if crash && f {
                // the process stopped: another one goes on
                r = "stopped";
                let s = w.st.clone();
                lr = match guard(move || Tree::load(s, n)) {
                    Err(()) => "panic",
                    Ok(Ok(t)) => {
                        w.t = Some(t);
                        "ok"
                    }
                    Ok(Err(e)) => kind(&e).0,
                };
            }
        }
        if !f {
            n += 1;
        }
        let mut v = String::new();
        if on && look.roots {
            v = match guard(|| if mem { m.0.root() } else { w.t.as_ref().unwrap().root() }) {
                Err(()) => "panic".to_string(),
                Ok(v) => hex(&v),
            };
        }
        let mut ix = vec![];
        if on {
            for x in 0..look.proofs {
                ix.push(if x == 0 { n - 1 } else { rng.below(n) });
            }
            if n == 0 {
                ix.clear();
            }
            if look.beyond {
                ix.push(n + (rng.next() >> rng.range(1, 63)) * rng.below(2));
            }
        }
        let ps: Vec<String> = ix
            .iter()
            .map(|&i| {
                proof_json(
                    i,
                    guard(|| if mem { m.0.prove(i).ok_or(("oor", i)) } else { w.t.as_ref().unwrap().prove(i).map_err(|e| kind(&e)) }),
                )
            })
            .collect();
        let hw = on && look.writes && !f && !mem;
        if !hw {
            set.clear();
        }
        steps.push(format!(
            "{{\"d\":\"{}\",\"f\":{},\"c\":{},\"lr\":\"{}\",\"r\":\"{}\",\"v\":\"{}\",\"ps\":[{}],\"hw\":{},\"rem\":{},\"w\":[{}]}}",
            hex(&d), f, crash && f, lr, r, v, ps.join(","), hw, rem, set.join(",")
        ));
        if steps.len() == 64 || n == to || r == "panic" || crash && f && lr != "ok" {
            o.put(ev("grow").b("keep", keep).raw("steps", &format!("[{}]", steps.join(","))));
            o.weigh(steps.len() as u64 * (1 + look.proofs) / 2);
            steps.clear();
        }
        if r == "panic" || crash && f && lr != "ok" {
            break;
        }
    }
    w.st
}

/// Loads at the given counts, with their roots.
fn loads(o: &mut Out, st: &St, ks: &[u64]) {
    for part in ks.chunks(64) {
        let rs: Vec<String> = part
            .iter()
            .map(|&k| {
                let s = st.clone();
                let (r, v) = match guard(move || Tree::load(s, k).map(|t| t.root())) {
                    Err(()) => ("panic", String::new()),
                    Ok(Ok(v)) => ("ok", hex(&v)),
                    Ok(Err(e)) => (kind(&e).0, String::new()),
                };
                format!("[\"{}\",\"{}\",\"{}\"]", h64(k), r, v)
            })
            .collect();
        o.put(ev("loads").raw("rs", &format!("[{}]", rs.join(","))));
        o.weigh(16);
    }
}

/// Reads, pushes and rewinds.
fn wide(c: &mut Ctx, rng: &mut Rng, n: u64, i: u64) {
    let mut w = Wide::start(c, rng, n, i);
    let o = &mut c.out;
    w.load(o, n, None);
    w.root(o);
    w.prove(o, i, None);
    w.prove(o, n, None);
    w.prove(o, n.saturating_add(rng.next() >> rng.below(63)), None);
    // grow, then rewind to the leaf and grow there
    let at: Vec<u64> = match rng.below(4) {
        0 => vec![n],
        1 => vec![i + 1],
        2 => vec![i],
        _ => vec![n, i + 1, i],
    };
    for k in at {
        if k > n {
            continue;
        }
        w.load(o, k, None);
        w.root(o);
        for x in 0..rng.range(1, 4) {
            let d = data(rng, &[]);
            w.push(o, &d, None);
            w.root(o);
            w.prove(o, k + x, None);
            if k == i + 1 {
                w.prove(o, i, None);
            }
        }
        w.prove(o, u64::MAX - rng.below(3), None);
    }
}

/// A count with which the next pushes complete large subtrees, and a leaf.
fn wide_join(rng: &mut Rng) -> (u64, u64) {
    let (n, _) = wide_pair(rng);
    let h = rng.range(1, 62);
    let n = (((n >> h) << h) + (1u64 << h)).min(1 << 63) - 1 - rng.below(2);
    let n = n.max(1);
    let i = match rng.below(4) {
        0 => n - 1,
        1 => rng.below(n),
        2 => 0,
        _ => n - 1 - rng.below(n.min(9)),
    };
    (n, i)
}

/// The greatest leaf count; pushes beyond it are not made.
const TOP: u64 = (1 << 63) - 1;

/// Leaf counts and indices in the whole range.
pub fn wide_pair(rng: &mut Rng) -> (u64, u64) {
    let top = TOP;
    let n = match rng.below(7) {
        0 => 1u64 << rng.range(20, 62),
        1 => (1u64 << rng.range(20, 63)) - 1 - rng.below(3),
        2 => (1u64 << rng.range(20, 62)) + 1 + rng.below(3),
        3 => {
            let a = 1u64 << rng.range(20, 62);
            a + (1 << rng.below(a.trailing_zeros() as u64))
        }
        4 => {
            let b = 1u64 << rng.below(40);
            top - rng.below(b)
        }
        5 => top - rng.below(6),
        _ => (rng.next() >> rng.range(1, 40)).max(2),
    };
    let n = n.min(top);
    let p = 1u64 << (63 - n.leading_zeros());
    let i = match rng.below(6) {
        0 => n - 1 - rng.below(4.min(n)),
        1 => rng.below(4.min(n)),
        2 => p.min(n - 1),
        3 => p - 1,
        4 => (p + rng.below(n - p + 1)).min(n - 1),
        _ => rng.below(n),
    };
    (n, i)
}

/// A random history of pushes, reads, reloads and rewinds on one store; now
/// and then a proof for an index that is not there (beyond in 8).
fn session(c: &mut Ctx, rng: &mut Rng, steps: u64, beyond: u64) {
    c.out.case("Trace_Binary", "random loads and pushes");
    let mut r = Run::new();
    let mut seen = vec![];
    let grow = rng.chance(1, 3);
    for _ in 0..steps {
        match rng.below(if grow { 8 } else { 5 }) {
            0 if r.n > 0 => {
                let k = if rng.chance(1, 2) { r.n } else { rng.below(r.n + 1) };
                r.load(&mut c.out, k, None);
            }
            1 => r.root(&mut c.out),
            2 if r.n > 0 => {
                let i = rng.below(r.n);
                r.prove(&mut c.out, i, None);
            }
            _ => {
                let d = data(rng, &seen);
                r.push(&mut c.out, &d, None);
                seen.push(d);
                if rng.chance(1, 3) {
                    r.root(&mut c.out);
                }
            }
        }
        if rng.below(8) < beyond {
            let i = match rng.below(3) {
                0 => r.n,
                1 => r.n + rng.below(16),
                _ => r.n + (rng.next() >> rng.range(1, 63)),
            };
            r.prove(&mut c.out, i, None);
        }
    }
    r.some(&mut c.out, rng);
}

pub fn b04(c: &mut Ctx) {
    let mut rng = c.rng("B04");
    let lim = c.size(400, 6000);
    schedules(c, &mut rng, lim, |s| has(s, "load") && !has(s, "fail") && !has(s, "crash"));
    // every count of one store
    for _ in 0..c.size(4, 20) {
        let n = 16 + count(&mut rng, 60);
        let ds = leaves(&mut rng, n);
        c.out.case("Trace_Binary", &format!("load every count of {}", n));
        let mut r = Run::new();
        r.push_many(&mut c.out, &ds);
        c.out.put(ev("mark"));
        let full = r.st.copy();
        for k in 0..=n {
            let mut q = Run::on(full.copy());
            q.load(&mut c.out, k, None);
            q.some(&mut c.out, &mut rng);
            for _ in 0..rng.below(3) {
                let d = data(&mut rng, &ds);
                q.push(&mut c.out, &d, None);
                q.some(&mut c.out, &mut rng);
            }
            c.out.put(ev("back"));
        }
    }
    // every count of large stores
    for x in 0..c.size(4, 8) {
        let top = c.size(1600, 6000);
        let st = dense(c, &mut rng, top, top, false, Dense { loads: true, ..Default::default() });
        let ks: Vec<u64> = (0..top + 3).filter(|k| k % c.size(4, 8) == x).collect();
        loads(&mut c.out, &st, &ks);
    }
    // long random histories of loads and pushes on one store
    for _ in 0..c.size(10, 100) {
        let k = c.size(30, 60);
        session(c, &mut rng, k, 0);
    }
    for (n, i) in [(1u64 << 61, 0u64), (1 << 62, 1 << 61), ((1 << 62) - 2, 5), ((1 << 62) - 4, (1 << 62) - 5), (TOP - 3, TOP - 5), (1 << 61, (1 << 61) - 1), ((1 << 61) - 1, 1 << 60), ((1 << 32) + 1, 1 << 32)] {
        wide(c, &mut rng, n, i);
    }
    for _ in 0..c.size(60, 1000) {
        let (n, i) = wide_pair(&mut rng);
        wide(c, &mut rng, n, i);
    }
}

// -- B05 ----------------------------------------------------------------------

pub fn b05(c: &mut Ctx) {
    let mut rng = c.rng("B05");
    let sizes: Vec<u64> = if c.deep { (0..=17).collect() } else { vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 11] };
    for n in sizes {
        let ds = leaves(&mut rng, n);
        let mut base = Run::new();
        for d in &ds {
            let _ = guard(|| base.t.as_mut().unwrap().push(d));
        }
        let full = base.st.snapshot();
        let keys: Vec<u64> = full.keys().cloned().collect();
        let mut drops: Vec<Vec<u64>> = vec![vec![]];
        drops.extend(keys.iter().map(|k| vec![*k]));
        for _ in 0..c.size(3, 20) {
            let mut ks = keys.clone();
            rng.shuffle(&mut ks);
            let m = rng.below(ks.len() as u64 + 1) as usize;
            ks.truncate(m);
            drops.push(ks);
        }
        for drop in drops {
            c.out.case("Trace_Binary", &format!("{} leaves, lost nodes {:?}", n, drop));
            let mut r = Run::new();
            r.push_many(&mut c.out, &ds);
            let mut m = full.clone();
            for k in &drop {
                m.remove(k);
                r.st.0.borrow_mut().map.remove(k);
            }
            let ks: Vec<String> = drop.iter().map(|k| k.to_string()).collect();
            c.out.put(ev("lose").raw("keys", &format!("[{}]", ks.join(","))));
            // the tree in hand keeps answering or reports
            r.root(&mut c.out);
            for i in 0..n {
                r.prove(&mut c.out, i, None);
            }
            for k in 0..=n + 3 {
                let mut q = Run::on(St::with(m.clone()));
                if !q.load(&mut c.out, k, None) {
                    continue;
                }
                if k + 2 >= n || rng.chance(1, 3) {
                    q.all(&mut c.out);
                } else {
                    q.some(&mut c.out, &mut rng);
                }
                // the next load is again of the whole store
            }
            for _ in 0..3 {
                let k = match rng.below(4) {
                    0 => u64::MAX - (rng.next() >> rng.range(0, 63)),
                    1 => (1u64 << rng.range(5, 63)).wrapping_add(rng.below(3)).wrapping_sub(1),
                    _ => (rng.next() >> rng.range(0, 60)).saturating_add(n + 1),
                };
                let mut q = Run::on(St::with(m.clone()));
                q.load(&mut c.out, k.max(n + 1), None);
            }
        }
    }
    // larger trees, single losses, then going on
    for _ in 0..c.size(20, 200) {
        let n = 12 + count(&mut rng, 60);
        let ds = leaves(&mut rng, n);
        c.out.case("Trace_Binary", &format!("{} leaves, one lost, going on", n));
        let mut r = Run::new();
        r.push_many(&mut c.out, &ds);
        let keys: Vec<u64> = r.st.snapshot().keys().cloned().collect();
        let k = *rng.pick(&keys);
        let node = r.st.0.borrow_mut().map.remove(&k).unwrap();
        c.out.put(ev("lose").raw("keys", &format!("[{}]", k)));
        r.some(&mut c.out, &mut rng);
        c.out.put(ev("mark"));
        for _ in 0..4 {
            let m = n - rng.below(n.min(5));
            let mut q = Run::on(r.st.copy());
            if q.load(&mut c.out, m, None) {
                q.some(&mut c.out, &mut rng);
                q.some(&mut c.out, &mut rng);
            }
        }
        c.out.put(ev("back"));
        // the node is back, and the tree in hand goes on
        if rng.chance(1, 2) {
            r.load(&mut c.out, n, None);
        }
        for i in [0, n - 1, rng.below(n)] {
            r.prove(&mut c.out, i, None);
        }
        if r.st.0.borrow().map.contains_key(&k) {
            continue;
        }
        r.st.0.borrow_mut().map.insert(k, node);
        c.out.put(ev("found"));
        if rng.chance(1, 2) {
            r.load(&mut c.out, n, None);
        }
        for i in [0, n - 1, rng.below(n)] {
            r.prove(&mut c.out, i, None);
        }
        r.some(&mut c.out, &mut rng);
        for _ in 0..3 {
            r.push(&mut c.out, b"then", None);
            r.some(&mut c.out, &mut rng);
        }
    }
    // trees of any size
    for x in 0..c.size(50, 600) {
        let (n, i) = if x % 2 == 0 { wide_join(&mut rng) } else { wide_pair(&mut rng) };
        let mut w = Wide::start(c, &mut rng, n, i);
        let o = &mut c.out;
        let mut keys: Vec<u64> = w.st.snapshot().keys().cloned().collect();
        rng.shuffle(&mut keys);
        let held = rng.chance(1, 2);
        if held {
            // the tree in hand keeps its peaks
            w.load(o, n, None);
        }
        keys.truncate(rng.range(1, 3) as usize);
        w.lose(o, &keys);
        if held {
            w.look(o, i, n);
        }
        for k in [n, i + 1, i] {
            let mut q = Wide::on(w.st.copy());
            if q.load(o, k, None) {
                q.look(o, i, k);
                o.put(ev("mark"));
                let d = data(&mut rng, &[]);
                q.push(o, &d, None);
                q.look(o, i, k);
                o.put(ev("back"));
            }
        }
        // more leaves than there are: some peak is missing
        let mut q = Wide::on(w.st.copy());
        q.load(o, (rng.next() >> rng.range(0, 62)).saturating_add(n + 1), None);
        q.load(o, u64::MAX - (rng.next() >> rng.range(0, 63)).min(u64::MAX - n - 1), None);
        q.load(o, (1u64 << rng.range(1, 63)).wrapping_add(rng.below(3)).wrapping_sub(1).max(n + 1), None);
    }
}

// -- B06 ----------------------------------------------------------------------

pub fn b06(c: &mut Ctx) {
    let mut rng = c.rng("B06");
    let lim = c.size(500, 8000);
    schedules(c, &mut rng, lim, |s| has(s, "fail") && !has(s, "crash"));
    // every write of every push, retried or replaced, from n leaves on
    for case in 0..c.size(6, 40) {
        let n = if case == 0 { 33 } else { 1 + count(&mut rng, 70) };
        c.out.case("Trace_Binary", &format!("every failing write up to {} leaves", n));
        let ds = leaves(&mut rng, n);
        let mut r = Run::new();
        for (x, d) in ds.iter().enumerate() {
            let writes = (x as u64 + 1).trailing_zeros() as u64 + 1;
            for j in 0..=writes {
                if j == writes && rng.chance(3, 4) {
                    continue;
                }
                let other = rng.chance(1, 2);
                let e = if other { data(&mut rng, &ds) } else { d.clone() };
                if j < writes {
                    r.push(&mut c.out, &e, Some(j));
                    if rng.chance(1, 2) {
                        r.push(&mut c.out, &e, Some(j));
                    }
                    r.root(&mut c.out);
                    if r.n > 0 {
                        let i = rng.below(r.n);
                        r.prove(&mut c.out, i, None);
                        let i = r.n - 1;
                        r.prove(&mut c.out, i, None);
                    }
                    let i = r.n;
                    r.prove(&mut c.out, i, None);
                    if rng.chance(1, 6) {
                        let n = r.n;
                        r.load(&mut c.out, n, None);
                    }
                }
            }
            r.push(&mut c.out, d, None);
            r.root(&mut c.out);
        }
        r.all(&mut c.out);
    }
    // failing reads
    for _ in 0..c.size(8, 60) {
        let n = 1 + count(&mut rng, 40);
        c.out.case("Trace_Binary", &format!("failing reads, {} leaves", n));
        let ds = leaves(&mut rng, n);
        let mut r = Run::new();
        r.push_many(&mut c.out, &ds);
        for j in 0..8 {
            let i = rng.below(n);
            r.prove(&mut c.out, i, Some(j));
            r.root(&mut c.out);
            r.prove(&mut c.out, i, None);
            let k = rng.below(n + 1);
            r.load(&mut c.out, k, Some(j));
            if rng.chance(1, 2) {
                r.load(&mut c.out, n, None);
            }
            // whichever tree is at hand
            let k = r.n;
            r.root(&mut c.out);
            if k > 0 {
                r.prove(&mut c.out, k - 1, None);
            }
            if rng.chance(1, 4) {
                r.load(&mut c.out, n, None);
            } else if k < n {
                r.load(&mut c.out, n, None);
            }
        }
    }
    // everything in turns on one tree, some of it failing
    for _ in 0..c.size(60, 600) {
        let n = count(&mut rng, 40);
        c.out.case("Trace_Binary", &format!("pushes, proofs and loads that fail now and then, from {} leaves", n));
        let ds = leaves(&mut rng, n);
        let mut r = Run::new();
        r.push_many(&mut c.out, &ds);
        let mut last = (rng.below(n + 4), data(&mut rng, &ds));
        for _ in 0..40 {
            if rng.chance(1, 3) {
                let i = if rng.chance(1, 2) { r.n.saturating_sub(rng.below(5)) } else { rng.below(r.n + 1) };
                last = (i, data(&mut rng, &ds));
            }
            match rng.below(10) {
                0 | 1 | 2 => {
                    r.push(&mut c.out, &last.1, None);
                }
                3 => {
                    let j = rng.below(4);
                    r.push(&mut c.out, &last.1, Some(j));
                }
                4 | 5 | 6 => {
                    let j = rng.below(6);
                    r.prove(&mut c.out, last.0, Some(j));
                }
                7 | 8 => {
                    r.prove(&mut c.out, last.0, None);
                }
                _ => {
                    r.root(&mut c.out);
                    if rng.chance(1, 3) {
                        let k = r.n - rng.below(r.n + 1) / 4;
                        let j = if rng.chance(1, 2) { Some(rng.below(4)) } else { None };
                        r.load(&mut c.out, k, j);
                    }
                }
            };
        }
        r.root(&mut c.out);
    }
    // failures at every count
    let part = c.size(300, 600);
    for x in 0..c.size(8, 24) {
        dense(c, &mut rng, x * part, (x + 1) * part, false, Dense { roots: true, proofs: x % 2, fails: true, ..Default::default() });
    }
    // trees of any size: every write of a push failing, every read failing
    for x in 0..c.size(24, 300) {
        let (n, i) = if x % 4 != 0 { wide_join(&mut rng) } else { wide_pair(&mut rng) };
        let mut w = Wide::start(c, &mut rng, n, i);
        let o = &mut c.out;
        w.load(o, n, None);
        for _ in 0..2 {
            let n = w.n;
            let writes = (n + 1).trailing_zeros() as u64 + 1;
            let mut js: Vec<u64> = (0..writes).collect();
            if !(x % 8 == 1 && c.deep) {
                rng.shuffle(&mut js);
                js.truncate(6);
            }
            for j in js {
                let d = data(&mut rng, &[]);
                w.push(o, &d, Some(j));
                w.root(o);
                w.prove(o, i, None);
                w.prove(o, n, None);
                if rng.chance(1, 4) {
                    w.load(o, n, None);
                }
            }
            let d = data(&mut rng, &[]);
            w.push(o, &d, None);
            w.look(o, i, n);
        }
        for _ in 0..4 {
            let j = rng.below(66);
            w.prove(o, i, Some(j));
            w.prove(o, i, None);
            let k = w.n;
            w.load(o, k, Some(j));
            w.root(o);
        }
    }
}

// -- B07 ----------------------------------------------------------------------

type Diff = (Vec<String>, u64, u64, Vec<String>);

fn diff(pre: &BTreeMap<u64, Primitive>, st: &St) -> Diff {
    let post = st.snapshot();
    let add = post
        .iter()
        .filter(|(k, _)| !pre.contains_key(k))
        .map(|(k, v)| format!("[{},{},\"{}\"]", clip(*k), clip(v.0), hex(&v.1)))
        .collect();
    let chg = post.iter().filter(|(k, v)| pre.get(k).map_or(false, |w| w != *v)).count() as u64;
    let rem = pre.keys().filter(|k| !post.contains_key(k)).count() as u64;
    let keys = st.log().iter().map(|(k, _)| clip(*k).to_string()).collect();
    (add, chg, rem, keys)
}

fn with_diff(e: Ev, d: Diff) -> Ev {
    e.raw("add", &format!("[{}]", d.0.join(","))).n("chg", d.1).n("rem", d.2).raw("keys", &format!("[{}]", d.3.join(",")))
}

fn push_w(c: &mut Ctx, r: &mut Run, d: &[u8]) {
    let pre = r.st.snapshot();
    r.st.begin();
    let t = r.t.as_mut().unwrap();
    let res = match guard(|| t.push(d)) {
        Err(()) => "panic",
        Ok(Ok(())) => "ok",
        Ok(Err(e)) => kind(&e).0,
    };
    let x = diff(&pre, &r.st);
    c.out.put(with_diff(ev("pushw").s("d", &hex(d)).s("r", res), x));
    r.n += 1;
}

fn read_w(c: &mut Ctx, r: &mut Run, rng: &mut Rng) {
    let pre = r.st.snapshot();
    r.st.begin();
    let n = r.n;
    match rng.below(3) {
        0 => {
            let _ = guard(|| r.t.as_ref().unwrap().root());
        }
        1 => {
            let i = rng.below(n + 1);
            let _ = guard(|| r.t.as_ref().unwrap().prove(i));
        }
        _ => {
            let st = r.st.clone();
            if let Ok(Ok(t)) = guard(move || Tree::load(st, n)) {
                r.t = Some(t);
            }
        }
    }
    let x = diff(&pre, &r.st);
    c.out.put(with_diff(ev("readw"), x));
}

pub fn b07(c: &mut Ctx) {
    let mut rng = c.rng("B07");
    for case in 0..c.size(14, 120) {
        let n = if case == 0 { 66 } else { count(&mut rng, 70) };
        let ds = leaves(&mut rng, n);
        c.out.case("Trace_Binary", &format!("writes of {} pushes", n));
        c.out.weigh(n * n / 8);
        let mut r = Run::new();
        for d in &ds {
            push_w(c, &mut r, d);
            for _ in 0..rng.below(3) {
                read_w(c, &mut r, &mut rng);
            }
            if rng.chance(1, 10) {
                r.dump(&mut c.out);
            }
        }
        r.dump(&mut c.out);
    }
    for n in if c.deep { vec![255u64, 256, 513, 1023, 2048] } else { vec![127, 255, 512] } {
        let ds = short(&mut rng, n + 1);
        c.out.case("Trace_Binary", &format!("whole store of {} leaves", n));
        c.out.weigh(n * 8);
        let mut r = Run::new();
        r.push_many(&mut c.out, &ds[..n as usize]);
        push_w(c, &mut r, &ds[n as usize]);
        r.dump(&mut c.out);
    }
    // the writes at every count
    let part = c.size(500, 1000);
    for x in 0..c.size(8, 24) {
        dense(c, &mut rng, x * part, (x + 1) * part, false, Dense { writes: true, ..Default::default() });
    }
    // trees of any size
    for x in 0..c.size(40, 400) {
        let (n, i) = if x % 4 != 0 { wide_join(&mut rng) } else { wide_pair(&mut rng) };
        let mut w = Wide::start(c, &mut rng, n, i);
        let o = &mut c.out;
        w.load(o, n, None);
        for _ in 0..3 {
            let d = data(&mut rng, &[]);
            w.push_w(o, &d);
            w.read_w(o, &mut rng, i);
        }
        w.look(o, i, n);
    }
}

// -- B08 ----------------------------------------------------------------------

pub fn b08(c: &mut Ctx) {
    let mut rng = c.rng("B08");
    let lim = c.size(500, 8000);
    schedules(c, &mut rng, lim, |s| has(s, "crash"));
    for case in 0..c.size(4, 24) {
        let n = if case == 0 { 33 } else { 4 + count(&mut rng, 40) };
        c.out.case("Trace_Binary", &format!("crash at every write up to {} leaves", n));
        let ds = leaves(&mut rng, n);
        let mut r = Run::new();
        for d in &ds {
            let pre = r.st.snapshot();
            let before = r.n;
            // what a complete push writes
            let mut dry = Run::on(St::with(pre.clone()));
            let st = dry.st.clone();
            dry.t = guard(|| Tree::load(st, before)).ok().and_then(|x| x.ok());
            dry.st.begin();
            if let Some(t) = dry.t.as_mut() {
                let _ = guard(|| t.push(d));
            }
            let log = dry.st.log();
            for j in 0..=log.len() {
                let cut = St::prefix(&pre, &log, j);
                let mut ks: Vec<u64> = if before <= 8 { (0..=before).collect() } else { vec![before, rng.below(before), 0] };
                if before > 8 {
                    ks.push(before - 1 - rng.below(4));
                }
                for k in ks {
                    c.out.put(ev("mark"));
                    c.out.put(ev("crash"));
                    let mut q = Run::on(St::with(cut.clone()));
                    q.load(&mut c.out, k, None);
                    q.some(&mut c.out, &mut rng);
                    for _ in 0..rng.range(1, 3) {
                        let e = if rng.chance(1, 2) { d.clone() } else { data(&mut rng, &ds) };
                        q.push(&mut c.out, &e, None);
                        q.root(&mut c.out);
                    }
                    c.out.put(ev("back"));
                }
            }
            r.push(&mut c.out, d, None);
        }
        r.all(&mut c.out);
    }
    // stops at every count
    let part = c.size(200, 500);
    for x in 0..c.size(8, 24) {
        dense(c, &mut rng, x * part, (x + 1) * part, false, Dense { roots: true, proofs: x % 3, crashes: true, ..Default::default() });
    }
    // trees of any size
    for x in 0..c.size(24, 300) {
        let (n, i) = if x % 4 != 0 { wide_join(&mut rng) } else { wide_pair(&mut rng) };
        let w = Wide::start(c, &mut rng, n, i);
        let o = &mut c.out;
        let writes = (n + 1).trailing_zeros() as u64 + 1;
        let mut js: Vec<u64> = (0..writes).collect();
        rng.shuffle(&mut js);
        js.truncate(if c.deep { 20 } else { 5 });
        for j in js {
            o.put(ev("mark"));
            let mut q = Wide::on(w.st.copy());
            q.load(o, n, None);
            let d = data(&mut rng, &[]);
            q.crash(o, &d, j);
            for k in [n, i + 1, i, n] {
                if q.load(o, k, None) && rng.chance(2, 3) {
                    q.look(o, i, n.max(k));
                }
            }
            let e = if rng.chance(1, 2) { d } else { data(&mut rng, &[]) };
            q.push(o, &e, None);
            q.look(o, i, n);
            o.put(ev("back"));
        }
    }
}

/// For the configuration check: every kind of operation and error.
pub fn workload(c: &mut Ctx, rng: &mut Rng) {
    for _ in 0..4 {
        c.out.case("Trace_Binary", "workload");
        let mut r = Run::new();
        for _ in 0..30 {
            match rng.below(8) {
                0 => {
                    let d = data(rng, &[]);
                    let j = rng.below(4);
                    r.push(&mut c.out, &d, Some(j));
                }
                1 => {
                    let k = rng.below(r.n + 1);
                    let j = rng.below(4);
                    r.load(&mut c.out, k, Some(j));
                }
                2 => {
                    let i = rng.below(r.n + 1);
                    let j = rng.below(4);
                    r.prove(&mut c.out, i, Some(j));
                }
                3 => {
                    let i = r.n.wrapping_add(rng.next() >> rng.below(63)).max(r.n);
                    r.prove(&mut c.out, i, None);
                    r.prove(&mut c.out, u64::MAX, None);
                }
                4 => {
                    let k = r.n;
                    r.load(&mut c.out, k, None);
                }
                5 => {
                    let n = rng.range(1, 5);
                    let ds = leaves(rng, n);
                    r.push_many(&mut c.out, &ds);
                }
                _ => {
                    let d = data(rng, &[]);
                    r.push(&mut c.out, &d, None);
                }
            }
            r.root(&mut c.out);
            r.note(&mut c.out);
        }
        r.all(&mut c.out);
        let n = r.n;
        c.out.put(ev("lose").raw("keys", "[1]"));
        r.st.0.borrow_mut().map.remove(&1);
        for i in 0..n {
            r.prove(&mut c.out, i, None);
        }
        let st = r.st.clone();
        for k in 0..n + 1 {
            let mut q = Run::on(st.clone());
            q.load(&mut c.out, k, None);
        }
    }
    // in memory
    c.out.case("Trace_Binary", "workload in memory");
    let mut m = Mem::new();
    for x in 0..40 {
        let d = data(rng, &[]);
        m.push(&mut c.out, &d);
        m.root(&mut c.out);
        let i = rng.below(x + 2);
        m.prove(&mut c.out, i);
    }
    m.prove(&mut c.out, u64::MAX);
    for _ in 0..20 {
        let (n, i) = wide_pair(rng);
        wide(c, rng, n, i);
    }
}
