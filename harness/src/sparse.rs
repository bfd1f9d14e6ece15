//! Sparse Merkle trees: S01 to S07.
use crate::store::Shared;
use crate::util::*;
use crate::Ctx;
use fuel_merkle::sparse::{self, in_memory, Primitive};
use fuel_merkle::storage::Mappable;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Debug)]
pub struct STable;
impl Mappable for STable {
    type Key = B32;
    type SetValue = Primitive;
    type GetValue = Primitive;
}
pub type St = Shared<B32, Primitive>;
pub type Tree = sparse::MerkleTree<STable, St>;
const ZERO: B32 = [0; 32];

/// The class of an error: an injected storage failure, or anything else.
fn class<E: std::fmt::Debug>(e: &E) -> &'static str {
    if format!("{:?}", e).contains("InjectedFault") {
        "storage"
    } else {
        "err"
    }
}

/// The node that an error says is missing, in hexadecimal (or nothing).
fn named<E: std::fmt::Debug>(e: &E) -> String {
    let t = format!("{:?}", e);
    if let Some(x) = t.split("LoadError(\"").nth(1) {
        return x.split('"').next().unwrap().to_string();
    }
    if let Some(x) = t.split("ChildNotFound([").nth(1) {
        let bytes: Vec<u8> = x.split(']').next().unwrap().split(',').filter_map(|b| b.trim().parse().ok()).collect();
        return hex(&bytes);
    }
    String::new()
}

pub fn entry(k: &B32, v: &Primitive) -> String {
    format!("[\"{}\",{},{},\"{}\",\"{}\"]", hex(k), v.0.min(1 << 30), v.1, hex(&v.2), hex(&v.3))
}

pub struct Run {
    pub st: St,
    pub t: Option<Tree>,
    /// Keys believed present (inputs are chosen by it; verdicts are not).
    pub has: BTreeSet<B32>,
    /// Roots believed loadable, with their keys.
    pub olds: BTreeMap<B32, BTreeSet<B32>>,
    reported: BTreeMap<B32, Primitive>,
    quiet: bool,
    /// How the tree came about: the store and the root it was made from, and
    /// the operations since.
    base: BTreeMap<B32, Primitive>,
    born: B32,
    past: Vec<Past>,
}

/// An operation with the write or the read at which it was to fail.
#[derive(Clone)]
struct Past {
    k: B32,
    d: Option<Vec<u8>>,
    wf: Option<u64>,
    rf: Option<u64>,
}

impl Run {
    pub fn new() -> Self {
        Self::on(St::new(), true)
    }
    pub fn on(st: St, fresh: bool) -> Self {
        let t = if fresh { Some(Tree::new(st.clone())) } else { None };
        let olds = BTreeMap::from([(ZERO, BTreeSet::new())]);
        let base = st.snapshot();
        Run { st, t, has: BTreeSet::new(), olds, reported: BTreeMap::new(), quiet: false, base, born: ZERO, past: vec![] }
    }

    /// The tree was made from this root just now.
    fn born(&mut self, root: &B32) {
        self.base = self.st.snapshot();
        self.born = *root;
        self.past.clear();
    }

    pub fn root_now(&self) -> B32 {
        match self.t.as_ref() {
            Some(t) => guard(|| t.root()).unwrap_or(ZERO),
            None => ZERO,
        }
    }

    /// An update, or a delete.  In trees with damaged stores the event differs.
    fn op(&mut self, o: &mut Out, name: &str, k: &B32, d: Option<&[u8]>, wf: Option<u64>, rf: Option<u64>) -> bool {
        self.st.begin();
        self.st.fail_write(wf);
        self.st.fail_read(rf);
        let Some(t) = self.t.as_mut() else { return false };
        self.past.push(Past { k: *k, d: d.map(|d| d.to_vec()), wf, rf });
        let res = guard(|| match d {
            Some(d) => t.update(k, d),
            None => t.delete(k),
        });
        let f = self.st.fired();
        let r = match &res {
            Err(()) => "panic",
            Ok(Ok(())) => "ok",
            Ok(Err(e)) => class(e),
        };
        let who = match &res {
            Ok(Err(e)) => named(e),
            _ => String::new(),
        };
        self.st.fail_write(None);
        self.st.fail_read(None);
        let mut e = ev(name).s("k", &hex(k));
        if let Some(d) = d {
            e = e.s("d", &hex(d));
        }
        if !self.quiet {
            o.put(e.b("f", f).s("r", r).s("e", &who));
        }
        if r == "ok" {
            let changed = match d {
                Some(d) if !d.is_empty() => {
                    self.has.insert(*k);
                    true
                }
                _ => {
                    let was = self.has.remove(k);
                    if was {
                        self.olds = BTreeMap::from([(ZERO, BTreeSet::new())]);
                    }
                    was
                }
            };
            if changed {
                let root = self.root_now();
                self.olds.insert(root, self.has.clone());
            }
        }
        r == "ok"
    }
    pub fn update(&mut self, o: &mut Out, k: &B32, d: &[u8]) -> bool {
        self.op(o, "update", k, Some(d), None, None)
    }
    pub fn delete(&mut self, o: &mut Out, k: &B32) -> bool {
        self.op(o, "delete", k, None, None, None)
    }

    /// Several operations, reported as one.
    pub fn bulk(&mut self, o: &mut Out, ops: &[Op]) {
        let was = std::mem::replace(&mut self.quiet, true);
        let good = ops.iter().all(|op| apply(self, o, op));
        self.quiet = was;
        let steps: Vec<String> = ops
            .iter()
            .map(|op| match op {
                Op::Update(k, d) => strs(&["update".into(), hex(k), hex(d)]),
                Op::Delete(k) => strs(&["delete".into(), hex(k), String::new()]),
            })
            .collect();
        let steps = format!("[{}]", steps.join(","));
        o.put(ev("bulk").raw("steps", &steps).s("r", if good { "ok" } else { "failed" }));
    }

    pub fn root(&self, o: &mut Out) {
        let Some(t) = self.t.as_ref() else { return };
        let (r, v) = match guard(|| t.root()) {
            Err(()) => ("panic", String::new()),
            Ok(v) => ("ok", hex(&v)),
        };
        o.put(ev("root").s("v", &v).s("r", r));
    }

    fn load_as(&mut self, o: &mut Out, name: &str, root: &B32, rf: Option<u64>) -> bool {
        self.st.begin();
        self.st.fail_read(rf);
        let st = self.st.clone();
        let res = guard(move || Tree::load(st, root));
        let f = self.st.fired();
        let mut who = String::new();
        let r = match res {
            Err(()) => "panic",
            Ok(Ok(t)) => {
                self.t = Some(t);
                self.born(root);
                "ok"
            }
            Ok(Err(e)) => {
                who = named(&e);
                class(&e)
            }
        };
        self.st.begin();
        o.put(ev(name).s("root", &hex(root)).b("f", f).s("r", r).s("e", &who));
        if r == "ok" {
            if let Some(h) = self.olds.get(root) {
                self.has = h.clone();
            }
        }
        r == "ok"
    }
    pub fn load(&mut self, o: &mut Out, root: &B32) -> bool {
        self.load_as(o, "load", root, None)
    }

    /// Another process goes on from the given root.
    fn resume(&mut self, o: &mut Out, root: &B32) -> bool {
        let s = self.st.clone();
        let r = match guard(move || Tree::load(s, root)) {
            Err(()) => "panic",
            Ok(Ok(t)) => {
                self.t = Some(t);
                self.born(root);
                "ok"
            }
            Ok(Err(_)) => "err",
        };
        o.put(ev("resume").s("root", &hex(root)).s("r", r));
        r == "ok"
    }

    /// What the last operation did to the store.
    pub fn store(&mut self, o: &mut Out, keep: bool, quiet: bool) {
        let now = self.st.snapshot();
        let add: Vec<String> = now.iter().filter(|(k, _)| !self.reported.contains_key(*k)).map(|(k, v)| entry(k, v)).collect();
        let chg: Vec<String> = now.iter().filter(|(k, v)| self.reported.get(*k).map_or(false, |w| w != *v)).map(|(k, _)| hex(k)).collect();
        let rem: Vec<String> = self.reported.keys().filter(|k| !now.contains_key(*k)).map(|k| hex(k)).collect();
        o.put(
            ev("store").raw("add", &format!("[{}]", add.join(","))).raw("chg", &strs(&chg)).raw("rem", &strs(&rem)).b("keep", keep).b("quiet", quiet),
        );
        self.reported = now;
    }

    /// An independent copy with a store of its own.  Its tree is loaded anew
    /// from the root (if that is possible), or, in every other copy, one that
    /// has been through the same operations.
    pub fn fork(&self) -> Run {
        if either() {
            if let Some(r) = self.again() {
                return r;
            }
        }
        let st = self.st.copy();
        let root = self.root_now();
        let s = st.clone();
        let t = guard(move || Tree::load(s, &root)).ok().and_then(|x| x.ok());
        let base = st.snapshot();
        self.with(st, t, base, root, vec![])
    }
    fn with(&self, st: St, t: Option<Tree>, base: BTreeMap<B32, Primitive>, born: B32, past: Vec<Past>) -> Run {
        Run { st, t, has: self.has.clone(), olds: self.olds.clone(), reported: self.reported.clone(), quiet: self.quiet, base, born, past }
    }
    /// The same operations on another store, if that leads to the same store.
    fn again(&self) -> Option<Run> {
        if self.t.is_none() || self.past.len() > 400 {
            return None;
        }
        let st = St::with(self.base.clone());
        let s = st.clone();
        let born = self.born;
        let mut t = guard(move || if born == ZERO { Some(Tree::new(s)) } else { Tree::load(s, &born).ok() }).ok()??;
        for p in &self.past {
            st.begin();
            st.fail_write(p.wf);
            st.fail_read(p.rf);
            let _ = guard(|| match &p.d {
                Some(d) => t.update(&p.k, d),
                None => t.delete(&p.k),
            });
        }
        st.begin();
        let same = st.0.borrow().map == self.st.0.borrow().map && guard(|| t.root()).ok()? == self.root_now();
        if !same {
            return None;
        }
        Some(self.with(st, Some(t), self.base.clone(), born, self.past.clone()))
    }
}

pub struct Mem(in_memory::MerkleTree);
impl Mem {
    pub fn new() -> Self {
        Mem(if either() { in_memory::MerkleTree::new() } else { in_memory::MerkleTree::default() })
    }
    pub fn update(&mut self, o: Option<&mut Out>, k: &B32, d: &[u8]) {
        let r = if guard(|| self.0.update(k, d)).is_ok() { "ok" } else { "panic" };
        if let Some(o) = o {
            o.put(ev("update").s("k", &hex(k)).s("d", &hex(d)).b("f", false).s("r", r));
        }
    }
    pub fn delete(&mut self, o: Option<&mut Out>, k: &B32) {
        let r = if guard(|| self.0.delete(k)).is_ok() { "ok" } else { "panic" };
        if let Some(o) = o {
            o.put(ev("delete").s("k", &hex(k)).b("f", false).s("r", r));
        }
    }
    pub fn root(&self, o: &mut Out) {
        let (r, v) = match guard(|| self.0.root()) {
            Err(()) => ("panic", String::new()),
            Ok(v) => ("ok", hex(&v)),
        };
        o.put(ev("root").s("v", &v).s("r", r));
    }
}

// -- keys -----------------------------------------------------------------------

fn flip(k: &B32, bit: usize) -> B32 {
    let mut k = *k;
    k[bit / 8] ^= 0x80 >> (bit % 8);
    k
}

fn set_bit(k: &mut B32, bit: usize, v: bool) {
    let m = 0x80 >> (bit % 8);
    if v {
        k[bit / 8] |= m
    } else {
        k[bit / 8] &= !m
    }
}

/// Positions at which paths part: edges of bytes and of the key, and between.
fn bit(rng: &mut Rng) -> usize {
    match rng.below(8) {
        0 => 255 - rng.below(3) as usize,
        1 => rng.below(3) as usize,
        2 => [7, 8, 15, 16, 127, 128, 247, 248][rng.below(8) as usize],
        3 => rng.below(256) as usize,
        _ => rng.below(12) as usize,
    }
}

/// Keys that share prefixes of many lengths.
pub fn universe(rng: &mut Rng, n: usize) -> Vec<B32> {
    let mut v: Vec<B32> = vec![];
    let style = rng.below(6);
    while v.len() < n {
        let k = if v.is_empty() || style == 0 {
            match rng.below(8) {
                0 => ZERO,
                1 => [0xff; 32],
                _ => rng.b32(),
            }
        } else {
            match rng.below(6) {
                0 => rng.b32(),
                1 => {
                    let mut k = *rng.pick(&v);
                    let p = bit(rng);
                    for b in p..256 {
                        let x = rng.chance(1, 2);
                        set_bit(&mut k, b, x);
                    }
                    k
                }
                2 => {
                    let mut k = ZERO;
                    k[31] = rng.below(256) as u8;
                    k
                }
                _ => {
                    let k = *rng.pick(&v);
                    let b = bit(rng);
                    flip(&k, b)
                }
            }
        };
        if !v.contains(&k) {
            v.push(k);
        }
    }
    v
}

fn value(rng: &mut Rng, has: &[Vec<u8>]) -> Vec<u8> {
    let mut d = data(rng, has);
    if d.is_empty() {
        d.push(0);
    }
    d
}

// -- schedules from the step model ------------------------------------------------

/// Where the model's key bits go in real keys.
fn embedding(rng: &mut Rng, depth: usize) -> (B32, Vec<usize>) {
    let base = match rng.below(4) {
        0 => ZERO,
        1 => [0xff; 32],
        _ => rng.b32(),
    };
    let fixed: [[usize; 3]; 8] =
        [[0, 1, 2], [7, 8, 9], [0, 128, 255], [253, 254, 255], [0, 1, 255], [3, 4, 200], [0, 254, 255], [100, 101, 102]];
    let p = if rng.chance(3, 4) {
        let q = fixed[rng.below(8) as usize];
        if depth == 2 {
            vec![q[rng.below(2) as usize], q[2]]
        } else {
            q.to_vec()
        }
    } else {
        let mut s = BTreeSet::new();
        while s.len() < depth {
            s.insert(rng.below(256) as usize);
        }
        s.into_iter().collect()
    };
    (base, p)
}

fn embed(e: &(B32, Vec<usize>), bits: &str) -> B32 {
    let mut k = e.0;
    for (x, b) in bits.bytes().enumerate() {
        set_bit(&mut k, e.1[x], b == b'1');
    }
    k
}

fn loaded(st: &St, root: &B32) -> bool {
    complete(&st.snapshot(), root)
}

/// Whether all nodes below a root are there (used to choose what to load).
fn complete(m: &BTreeMap<B32, Primitive>, root: &B32) -> bool {
    let mut todo = vec![*root];
    let mut steps = 0;
    while let Some(d) = todo.pop() {
        steps += 1;
        if d == ZERO {
            continue;
        }
        if steps > 100_000 {
            return false;
        }
        match m.get(&d) {
            None => return false,
            Some(p) if p.1 == 1 => {
                todo.push(p.2);
                todo.push(p.3);
            }
            Some(_) => {}
        }
    }
    true
}

fn replay(c: &mut Ctx, rng: &mut Rng, s: &[Vec<String>], store: bool) {
    let depth = s.iter().map(|o| o[1].len()).max().unwrap_or(3).max(1);
    let e = embedding(rng, depth.max(2));
    let text: Vec<String> = s.iter().map(|o| o.join(" ")).collect();
    c.out.case("Trace_Sparse", &format!("key bits at {:?}, schedule {}", e.1, text.join(", ")));
    let a = value(rng, &[]);
    let mut b = value(rng, &[a.clone()]);
    if a == b {
        b.push(1);
    }
    let vals = [vec![], a, b];
    let mut r = Run::new();
    let mut last = ZERO;
    let mut next = ZERO;
    let mut down = false;
    for o in s {
        let k = embed(&e, &o[1]);
        let v: usize = o[2].parse().unwrap();
        let j: u64 = o[3].parse().unwrap();
        let d: Option<&[u8]> = match o[0].as_str() {
            "update" => Some(&vals[v]),
            "delete" if rng.chance(1, 4) => Some(&[]),
            _ => None,
        };
        match (o[0].as_str(), o[4].as_str()) {
            ("stop", _) => {
                last = r.root_now();
                next = last;
                down = true;
                continue;
            }
            ("load", _) => {
                if down {
                    // resume from the tree that survived
                    let at = if loaded(&r.st, &last) { last } else { next };
                    r.load(&mut c.out, &at);
                    down = false;
                } else {
                    let at = r.root_now();
                    r.load(&mut c.out, &at);
                }
            }
            (op, "ok") => {
                r.op(&mut c.out, op, &k, d, None, None);
            }
            (op, "fail") => {
                r.op(&mut c.out, op, &k, d, Some(j), None);
            }
            (op, _) => {
                crash(c, &mut r, op, &k, d, j, &mut last, &mut next);
                down = true;
                continue;
            }
        }
        r.root(&mut c.out);
        if store {
            let keep = o[0] != "delete" && d.map_or(true, |d| !d.is_empty());
            let quiet = o[0] == "load" || (o[0] == "delete" && !keep && false);
            r.store(&mut c.out, keep, quiet);
        }
    }
    if !down {
        // still works, also when loaded anew
        let at = r.root_now();
        r.load(&mut c.out, &at);
        let ks: Vec<B32> = r.has.iter().cloned().collect();
        for k in ks {
            r.delete(&mut c.out, &k);
            r.root(&mut c.out);
        }
    }
}

/// An operation during which the process stops after j writes.
fn crash(c: &mut Ctx, r: &mut Run, op: &str, k: &B32, d: Option<&[u8]>, j: u64, last: &mut B32, next: &mut B32) {
    let pre = r.st.snapshot();
    *last = r.root_now();
    // what the complete operation would write
    let mut dry = r.fork();
    dry.quiet = true;
    dry.op(&mut c.out, op, k, d, None, None);
    let log = dry.st.log();
    *next = dry.root_now();
    let m = St::prefix(&pre, &log, (j as usize).min(log.len()));
    base(c, &pre);
    crash_event(c, k, d, &pre, &m);
    r.st.0.borrow_mut().map = m.clone();
    r.t = None;
    if !complete(&m, last) && complete(&m, next) {
        r.has = dry.has.clone();
        r.olds = dry.olds.clone();
    } else {
        r.olds.insert(*last, r.has.clone());
    }
}

fn base(c: &mut Ctx, m: &BTreeMap<B32, Primitive>) {
    let es: Vec<String> = m.iter().map(|(k, v)| entry(k, v)).collect();
    c.out.put(ev("base").raw("es", &format!("[{}]", es.join(","))));
    c.out.weigh(es.len() as u64 / 8);
}

fn crash_event(c: &mut Ctx, k: &B32, d: Option<&[u8]>, pre: &BTreeMap<B32, Primitive>, m: &BTreeMap<B32, Primitive>) {
    let add: Vec<String> = m.iter().filter(|(k, v)| pre.get(*k) != Some(*v)).map(|(k, v)| entry(k, v)).collect();
    let rem: Vec<String> = pre.keys().filter(|k| !m.contains_key(*k)).map(|k| hex(k)).collect();
    c.out.put(
        ev("crash").s("k", &hex(k)).s("d", &hex(d.unwrap_or(&[]))).raw("add", &format!("[{}]", add.join(","))).raw("rem", &strs(&rem)),
    );
}

fn schedules(c: &mut Ctx, rng: &mut Rng, limit: u64, store: bool, want: impl Fn(&[Vec<String>]) -> bool) {
    let mut s: Vec<_> = std::mem::take(&mut c.sched).into_iter().filter(|s| want(s)).collect();
    rng.shuffle(&mut s);
    s.truncate(limit as usize);
    for x in &s {
        replay(c, rng, x, store);
    }
}

fn outcome(s: &[Vec<String>], x: &str) -> bool {
    s.iter().any(|o| o[4] == x)
}
fn has(s: &[Vec<String>], x: &str) -> bool {
    s.iter().any(|o| o[0] == x)
}

// -- random histories ---------------------------------------------------------------

#[derive(Clone)]
pub enum Op {
    Update(B32, Vec<u8>),
    Delete(B32),
}

/// The next operation: present and absent keys, empty data, repeated data.
fn next_op(rng: &mut Rng, ks: &[B32], has: &BTreeSet<B32>, vals: &mut Vec<Vec<u8>>) -> Op {
    let k = *rng.pick(ks);
    let present: Vec<B32> = has.iter().cloned().collect();
    match rng.below(10) {
        0 => Op::Delete(k),
        1 | 2 if !present.is_empty() => Op::Delete(*rng.pick(&present)),
        3 if !present.is_empty() => {
            let k = if rng.chance(1, 2) { *rng.pick(&present) } else { k };
            Op::Update(k, vec![])
        }
        4 if !vals.is_empty() => {
            let v = rng.pick(vals).clone();
            Op::Update(k, v)
        }
        _ => {
            let v = value(rng, vals);
            vals.push(v.clone());
            Op::Update(k, v)
        }
    }
}

fn apply(r: &mut Run, o: &mut Out, op: &Op) -> bool {
    match op {
        Op::Update(k, d) => r.update(o, k, d),
        Op::Delete(k) => r.delete(o, k),
    }
}

/// Keys in play, and keys that are the hashes of nodes in the tree.
fn tricky(r: &Run, rng: &mut Rng) -> B32 {
    let ds: Vec<B32> = r.st.snapshot().keys().cloned().collect();
    if ds.is_empty() || rng.chance(1, 6) {
        r.root_now()
    } else {
        *rng.pick(&ds)
    }
}

/// For every bit: two keys that part there, and a third that parts from them at
/// the top, just above, or somewhere.
fn rungs(rng: &mut Rng) -> Vec<[B32; 3]> {
    let mut at: Vec<usize> = (0..256).collect();
    rng.shuffle(&mut at);
    at.into_iter()
        .map(|b| {
            let k = rng.b32();
            let c = match rng.below(4) {
                0 => 0,
                1 => b.max(1) - 1,
                2 => (b + 1).min(255),
                _ => bit(rng),
            };
            let mut part = |b: usize| {
                let mut x = flip(&k, b);
                if rng.chance(1, 2) {
                    for y in b + 1..256 {
                        set_bit(&mut x, y, rng.chance(1, 2));
                    }
                }
                x
            };
            let j = part(b);
            let mut x = part(c);
            if x == j {
                x = flip(&k, (b + 128) % 256);
            }
            [k, j, x]
        })
        .collect()
}

/// The first `n` of the three keys put into a new tree.
fn climb(c: &mut Ctx, ks: &[B32; 3], n: usize) -> Run {
    c.out.put(ev("new"));
    let mut r = Run::new();
    for k in &ks[..n] {
        r.update(&mut c.out, k, &[k[0], k[31]]);
    }
    r
}

/// Some operation on these three keys.
fn rung_op(rng: &mut Rng, ks: &[B32; 3]) -> Op {
    let k = *rng.pick(ks);
    match rng.below(5) {
        0 | 1 => Op::Update(k, vec![1, rng.below(3) as u8]),
        2 => Op::Update(k, vec![]),
        _ => Op::Delete(k),
    }
}

/// A tree with many keys and a long history, and some keys to go on with: of
/// the tree, next to them, and others.
fn crowd(c: &mut Ctx, rng: &mut Rng, title: &str) -> (Run, Vec<B32>) {
    let n = rng.range(60, c.size(250, 600)) as usize;
    c.out.case("Trace_Sparse", &format!("{}, among {} keys", title, n));
    c.out.weigh(n as u64 * 3);
    let mut ks: Vec<B32> = universe(rng, 20);
    while ks.len() < n {
        let mut k = rng.b32();
        if rng.chance(1, 3) {
            let j = *rng.pick(&ks);
            let p = bit(rng);
            for x in 0..p {
                set_bit(&mut k, x, j[x / 8] >> (7 - x % 8) & 1 == 1);
            }
        }
        ks.push(k);
    }
    let mut r = Run::new();
    let ops: Vec<Op> = (0..2 * n)
        .map(|x| {
            let k = if x < n { ks[x] } else { *rng.pick(&ks) };
            if x >= n && rng.chance(1, 3) {
                Op::Delete(k)
            } else {
                Op::Update(k, value(rng, &[]))
            }
        })
        .collect();
    r.bulk(&mut c.out, &ops);
    r.root(&mut c.out);
    r.olds = BTreeMap::from([(ZERO, BTreeSet::new()), (r.root_now(), r.has.clone())]);
    let mut some = vec![];
    for _ in 0..6 {
        let k = *rng.pick(&ks);
        some.push(k);
        let b = bit(rng);
        if rng.chance(1, 2) {
            some.push(flip(&k, b));
        }
    }
    some.push(rng.b32());
    (r, some)
}

/// Some node on some way down from the root.
fn below(st: &St, rng: &mut Rng, root: &B32) -> B32 {
    let mut at = *root;
    for _ in 0..rng.range(0, 12) {
        match st.0.borrow().map.get(&at) {
            Some(p) if p.1 == 1 => {
                let d = if p.2 == ZERO || p.3 != ZERO && rng.chance(1, 2) { p.3 } else { p.2 };
                at = d;
            }
            _ => break,
        }
    }
    at
}

// -- S01 ----------------------------------------------------------------------------

pub fn s01(c: &mut Ctx) {
    let mut rng = c.rng("S01");
    let lim = c.size(500, 5000);
    schedules(c, &mut rng, lim, false, |s| !outcome(s, "fail") && !outcome(s, "crash"));
    for case in 0..c.size(50, 600) {
        let nk = rng.range(1, 12) as usize;
        let ks = universe(&mut rng, nk);
        let mem = case % 3 == 0;
        c.out.case("Trace_Sparse", &format!("random history, {} keys, in memory {}", nk, mem));
        let mut r = Run::new();
        let mut m = Mem::new();
        let mut vals = vec![];
        r.root(&mut c.out);
        m.root(&mut c.out);
        for _ in 0..rng.range(4, 30) {
            let op = next_op(&mut rng, &ks, &r.has, &mut vals);
            if mem {
                // the event is recorded from the in-memory tree
                r.quiet = true;
                apply(&mut r, &mut c.out, &op);
                match &op {
                    Op::Update(k, d) => m.update(Some(&mut c.out), k, d),
                    Op::Delete(k) => m.delete(Some(&mut c.out), k),
                }
            } else {
                apply(&mut r, &mut c.out, &op);
                match &op {
                    Op::Update(k, d) => m.update(None, k, d),
                    Op::Delete(k) => m.delete(None, k),
                }
            }
            r.root(&mut c.out);
            m.root(&mut c.out);
        }
    }
    // the same map in several orders, with detours
    for _ in 0..c.size(16, 200) {
        let nk = rng.range(2, 9) as usize;
        let ks = universe(&mut rng, nk + 2);
        let vs: Vec<Vec<u8>> = (0..nk).map(|_| value(&mut rng, &[])).collect();
        for _ in 0..3 {
            c.out.case("Trace_Sparse", &format!("one map, {} keys, some order", nk));
            let mut r = Run::new();
            let mut ix: Vec<usize> = (0..nk).collect();
            rng.shuffle(&mut ix);
            for x in ix {
                if rng.chance(1, 3) {
                    let k = ks[nk + rng.below(2) as usize];
                    r.update(&mut c.out, &k, b"x");
                    r.root(&mut c.out);
                }
                if rng.chance(1, 4) {
                    r.update(&mut c.out, &ks[x], b"y");
                    if rng.chance(1, 2) {
                        r.delete(&mut c.out, &ks[x]);
                    }
                    r.root(&mut c.out);
                }
                r.update(&mut c.out, &ks[x], &vs[x]);
                r.root(&mut c.out);
            }
            for x in 0..2 {
                r.delete(&mut c.out, &ks[nk + x]);
                r.root(&mut c.out);
            }
        }
    }
    // values of every short length, and of lengths around buffer sizes
    c.out.case("Trace_Sparse", "every length up to 300");
    c.out.weigh(400);
    let ks = [rng.b32(), rng.b32(), rng.b32()];
    let mut r = Run::new();
    for x in 0..=300usize {
        let d = long(&mut rng, x);
        r.update(&mut c.out, &ks[x % 3], &d);
        r.root(&mut c.out);
    }
    c.out.case("Trace_Sparse", "long values");
    c.out.weigh(400);
    let mut r = Run::new();
    for x in lengths(&mut rng, c.deep) {
        let d = long(&mut rng, x);
        r.update(&mut c.out, &ks[x % 3], &d);
        r.root(&mut c.out);
    }
    // keys that part at every bit, joined and separated again
    let mut at: Vec<usize> = (0..256).collect();
    rng.shuffle(&mut at);
    for some in at.chunks(8) {
        c.out.case("Trace_Sparse", &format!("keys that part at bits {:?}", some));
        let mut r = Run::new();
        for b in some {
            let k = rng.b32();
            let j = flip(&k, *b);
            r.update(&mut c.out, &k, b"k");
            r.root(&mut c.out);
            r.update(&mut c.out, &j, b"j");
            r.root(&mut c.out);
            let del = if rng.chance(1, 2) { k } else { j };
            match rng.below(3) {
                0 => {}
                1 => {
                    r.delete(&mut c.out, &del);
                    r.root(&mut c.out);
                }
                _ => {
                    let b2 = bit(&mut rng);
                    r.update(&mut c.out, &flip(&k, b2), b"x");
                    r.root(&mut c.out);
                    r.delete(&mut c.out, &del);
                    r.root(&mut c.out);
                }
            }
        }
    }
    // a long history of one tree, looked at now and then
    for n in [c.size(1500, 8000)] {
        c.out.case("Trace_Sparse", &format!("a history of {} operations", n));
        c.out.weigh(n / 2);
        let ks = universe(&mut rng, 30);
        let mut r = Run::new();
        let mut vals = vec![];
        for _ in 0..n / 50 {
            let keys = ks.clone();
            let mut has = r.has.clone();
            let ops: Vec<Op> = (0..50)
                .map(|_| {
                    let op = next_op(&mut rng, &keys, &has, &mut vals);
                    vals.truncate(20);
                    match &op {
                        Op::Update(k, d) if !d.is_empty() => has.insert(*k),
                        Op::Update(k, _) | Op::Delete(k) => has.remove(k),
                    };
                    op
                })
                .collect();
            r.bulk(&mut c.out, &ops);
            r.root(&mut c.out);
        }
        let root = r.root_now();
        r.load(&mut c.out, &root);
        r.root(&mut c.out);
    }
    // a large map
    for n in [c.size(700, 5000)] {
        c.out.case("Trace_Sparse", &format!("{} keys", n));
        c.out.weigh(n * 2);
        let mut r = Run::new();
        let base = rng.b32();
        let ks: Vec<B32> = (0..n)
            .map(|x| {
                let mut k = if x % 3 == 0 { base } else { rng.b32() };
                if x % 3 == 0 {
                    k[20] = x as u8;
                    k[21] = (x >> 8) as u8;
                }
                k
            })
            .collect();
        let ops: Vec<Op> = ks.iter().map(|k| Op::Update(*k, value(&mut rng, &[]))).collect();
        for some in ops.chunks(100) {
            r.bulk(&mut c.out, some);
            r.root(&mut c.out);
        }
        let root = r.root_now();
        r.load(&mut c.out, &root);
        let ops: Vec<Op> = ks.iter().step_by(5).map(|k| Op::Delete(*k)).collect();
        for some in ops.chunks(100) {
            r.bulk(&mut c.out, some);
            r.root(&mut c.out);
        }
    }
    // larger maps
    for _ in 0..c.size(2, 12) {
        let n = c.size(60, 200) as usize;
        c.out.case("Trace_Sparse", &format!("{} random keys", n));
        c.out.weigh(n as u64 * 4);
        let mut r = Run::new();
        let ks: Vec<B32> = (0..n).map(|_| rng.b32()).collect();
        for (x, k) in ks.iter().enumerate() {
            let d = value(&mut rng, &[]);
            r.update(&mut c.out, k, &d);
            if x % 8 == 0 {
                r.root(&mut c.out);
            }
        }
        r.root(&mut c.out);
        for k in ks.iter().take(n / 2) {
            r.delete(&mut c.out, k);
        }
        r.root(&mut c.out);
    }
}

// -- S02 ----------------------------------------------------------------------------

pub fn s02(c: &mut Ctx) {
    let mut rng = c.rng("S02");
    let lim = c.size(350, 3000);
    schedules(c, &mut rng, lim, false, |s| has(s, "delete") && !outcome(s, "fail") && !outcome(s, "crash"));
    for case in 0..c.size(60, 700) {
        let nk = rng.range(1, 9) as usize;
        let mut ks = universe(&mut rng, nk);
        let mem = case % 4 == 3;
        c.out.case("Trace_Sparse", &format!("odd keys, {} ordinary ones, in memory {}", nk, mem));
        let mut r = Run::new();
        let mut m = Mem::new();
        r.quiet = mem;
        let mut vals = vec![];
        for _ in 0..rng.range(6, 24) {
            let op = match rng.below(8) {
                // the hash of some node, as a key
                0 => Op::Delete(tricky(&r, &mut rng)),
                1 => Op::Update(tricky(&r, &mut rng), vec![]),
                2 => {
                    let k = tricky(&r, &mut rng);
                    if ks.len() < 12 && !ks.contains(&k) {
                        ks.push(k);
                    }
                    Op::Update(k, value(&mut rng, &[]))
                }
                // next to a present key
                3 => {
                    let k = *rng.pick(&ks);
                    let b = bit(&mut rng);
                    Op::Delete(flip(&k, b))
                }
                4 => Op::Delete(if rng.chance(1, 2) { ZERO } else { [0xff; 32] }),
                _ => next_op(&mut rng, &ks, &r.has, &mut vals),
            };
            for _ in 0..(if rng.chance(1, 3) { 2 } else { 1 }) {
                apply(&mut r, &mut c.out, &op);
                if mem {
                    match &op {
                        Op::Update(k, d) => m.update(Some(&mut c.out), k, d),
                        Op::Delete(k) => m.delete(Some(&mut c.out), k),
                    }
                    m.root(&mut c.out);
                } else {
                    r.root(&mut c.out);
                }
            }
        }
    }
    for _ in 0..c.size(4, 40) {
        let (mut r, ks) = crowd(c, &mut rng, "odd keys");
        let mut vals = vec![];
        for _ in 0..20 {
            let op = match rng.below(4) {
                0 => Op::Delete(tricky(&r, &mut rng)),
                1 => Op::Delete(*rng.pick(&ks)),
                _ => next_op(&mut rng, &ks, &r.has, &mut vals),
            };
            apply(&mut r, &mut c.out, &op);
            r.root(&mut c.out);
        }
    }
}

// -- S03 ----------------------------------------------------------------------------

pub fn s03(c: &mut Ctx) {
    let mut rng = c.rng("S03");
    let lim = c.size(250, 3000);
    schedules(c, &mut rng, lim, false, |s| has(s, "load") && !outcome(s, "fail") && !outcome(s, "crash"));
    for case in 0..c.size(50, 600) {
        let nk = rng.range(1, 9) as usize;
        let ks = universe(&mut rng, nk);
        let grow = case % 3 == 0;
        c.out.case("Trace_Sparse", &format!("reloads, {} keys, only updates {}", nk, grow));
        let mut r = Run::new();
        let mut vals = vec![];
        r.load(&mut c.out, &ZERO);
        for _ in 0..rng.range(4, 14) {
            let mut op = next_op(&mut rng, &ks, &r.has, &mut vals);
            if grow {
                op = Op::Update(*rng.pick(&ks), value(&mut rng, &[]));
            }
            apply(&mut r, &mut c.out, &op);
            r.root(&mut c.out);
            // on a copy: load some loadable root, go on there
            if rng.chance(2, 3) {
                c.out.put(ev("mark"));
                let mut q = r.fork();
                let roots: Vec<B32> = q.olds.keys().cloned().collect();
                let at = if rng.chance(1, 2) { r.root_now() } else { *rng.pick(&roots) };
                q.load(&mut c.out, &at);
                q.root(&mut c.out);
                for _ in 0..rng.range(1, 4) {
                    let op = next_op(&mut rng, &ks, &q.has, &mut vals);
                    apply(&mut q, &mut c.out, &op);
                    q.root(&mut c.out);
                }
                let at = q.root_now();
                q.load(&mut c.out, &at);
                q.root(&mut c.out);
                c.out.put(ev("back"));
            }
            // on the same store: load the present root, or go back in time
            if rng.chance(1, 3) {
                let roots: Vec<B32> = r.olds.keys().cloned().collect();
                let at = if rng.chance(1, 2) { r.root_now() } else { *rng.pick(&roots) };
                r.load(&mut c.out, &at);
                r.root(&mut c.out);
            }
        }
        let ks: Vec<B32> = r.has.iter().cloned().collect();
        for k in ks {
            r.delete(&mut c.out, &k);
            let at = r.root_now();
            r.load(&mut c.out, &at);
            r.root(&mut c.out);
        }
        r.update(&mut c.out, &[7; 32], b"again");
        r.root(&mut c.out);
    }
    for some in rungs(&mut rng).chunks(8) {
        c.out.case("Trace_Sparse", "reloads, keys that part at every bit");
        for ks in some {
            let mut r = climb(c, ks, 3);
            for _ in 0..3 {
                let at = r.root_now();
                r.load(&mut c.out, &at);
                r.root(&mut c.out);
                let op = rung_op(&mut rng, ks);
                apply(&mut r, &mut c.out, &op);
                r.root(&mut c.out);
                if rng.chance(1, 3) {
                    let roots: Vec<B32> = r.olds.keys().cloned().collect();
                    let at = *rng.pick(&roots);
                    r.load(&mut c.out, &at);
                    r.root(&mut c.out);
                }
            }
        }
    }
    for _ in 0..c.size(4, 40) {
        let (mut r, ks) = crowd(c, &mut rng, "reloads");
        let mut vals = vec![];
        for _ in 0..10 {
            let roots: Vec<B32> = r.olds.keys().cloned().collect();
            let at = if rng.chance(1, 2) { r.root_now() } else { *rng.pick(&roots) };
            r.load(&mut c.out, &at);
            r.root(&mut c.out);
            for _ in 0..2 {
                let op = next_op(&mut rng, &ks, &r.has, &mut vals);
                apply(&mut r, &mut c.out, &op);
                r.root(&mut c.out);
            }
        }
    }
}

// -- S04 ----------------------------------------------------------------------------

pub fn s04(c: &mut Ctx) {
    let mut rng = c.rng("S04");
    let lim = c.size(120, 1500);
    schedules(c, &mut rng, lim, true, |s| !outcome(s, "fail") && !outcome(s, "crash"));
    for _ in 0..c.size(36, 400) {
        let nk = rng.range(1, 8) as usize;
        let ks = universe(&mut rng, nk);
        c.out.case("Trace_Sparse", &format!("store contents, {} keys", nk));
        let mut r = Run::new();
        let mut vals = vec![];
        for _ in 0..rng.range(4, 16) {
            let op = match rng.below(12) {
                0 => Op::Delete(tricky(&r, &mut rng)),
                1 => Op::Update(tricky(&r, &mut rng), value(&mut rng, &[])),
                _ => next_op(&mut rng, &ks, &r.has, &mut vals),
            };
            let before = r.st.snapshot().len() as u64;
            let keep = match &op {
                Op::Update(_, d) => !d.is_empty(),
                _ => false,
            };
            // removing an absent key, like reading, is not to write
            let absent = match &op {
                Op::Update(k, d) => d.is_empty() && !r.has.contains(k),
                Op::Delete(k) => !r.has.contains(k),
            };
            apply(&mut r, &mut c.out, &op);
            r.store(&mut c.out, keep || absent, false);
            c.out.weigh(before / 4);
            if rng.chance(1, 4) {
                r.root(&mut c.out);
                let at = r.root_now();
                r.load(&mut c.out, &at);
                r.root(&mut c.out);
                r.store(&mut c.out, true, true);
            }
        }
    }
    for some in rungs(&mut rng).chunks(8) {
        c.out.case("Trace_Sparse", "store contents, keys that part at every bit");
        for ks in some {
            let mut r = climb(c, ks, 0);
            for k in ks {
                r.update(&mut c.out, k, &[k[0], k[31]]);
                r.store(&mut c.out, true, false);
            }
            for _ in 0..2 {
                let op = rung_op(&mut rng, ks);
                apply(&mut r, &mut c.out, &op);
                r.store(&mut c.out, false, false);
            }
        }
    }
    for _ in 0..c.size(3, 30) {
        let (mut r, ks) = crowd(c, &mut rng, "store contents");
        let mut vals = vec![];
        r.reported = r.st.snapshot();
        base(c, &r.reported);
        for _ in 0..8 {
            let op = next_op(&mut rng, &ks, &r.has, &mut vals);
            let keep = matches!(&op, Op::Update(_, d) if !d.is_empty());
            apply(&mut r, &mut c.out, &op);
            r.store(&mut c.out, keep, false);
        }
    }
}

// -- S05 ----------------------------------------------------------------------------

fn sample(rng: &mut Rng, n: u64, max: usize) -> Vec<u64> {
    if n as usize <= max {
        return (0..n).collect();
    }
    let mut s: BTreeSet<u64> = BTreeSet::from([0, 1, n - 1, n - 2]);
    while s.len() < max {
        s.insert(rng.below(n));
    }
    s.into_iter().collect()
}

pub fn s05(c: &mut Ctx) {
    let mut rng = c.rng("S05");
    let lim = c.size(350, 5000);
    schedules(c, &mut rng, lim, false, |s| outcome(s, "fail") && !outcome(s, "crash"));
    for case in 0..c.size(20, 250) {
        let nk = rng.range(2, 7) as usize;
        let ks = universe(&mut rng, nk);
        c.out.case("Trace_Sparse", &format!("failing storage calls, {} keys", nk));
        let mut r = Run::new();
        let mut held: BTreeMap<B32, Vec<u8>> = BTreeMap::new();
        let mut vals = vec![];
        for _ in 0..rng.range(3, 9) {
            let op = next_op(&mut rng, &ks, &r.has, &mut vals);
            let (k, d) = match &op {
                Op::Update(k, d) => (*k, Some(d.clone())),
                Op::Delete(k) => (*k, None),
            };
            let name = if d.is_some() { "update" } else { "delete" };
            // how many calls the operation makes
            let mut dry = r.fork();
            dry.quiet = true;
            dry.op(&mut c.out, name, &k, d.as_deref(), None, None);
            let (w, rd) = (dry.st.writes(), dry.st.reads());
            let mut faults: Vec<(Option<u64>, Option<u64>)> = sample(&mut rng, w, 8).into_iter().map(|j| (Some(j), None)).collect();
            faults.extend(sample(&mut rng, rd, 5).into_iter().map(|j| (None, Some(j))));
            for (wf, rf) in faults {
                c.out.put(ev("mark"));
                let mut q = r.fork();
                q.op(&mut c.out, name, &k, d.as_deref(), wf, rf);
                q.root(&mut c.out);
                let style = rng.below(5);
                if style == 0 {
                    // load what is reported, then go on
                    let at = q.root_now();
                    q.load(&mut c.out, &at);
                    q.root(&mut c.out);
                }
                if style == 2 {
                    // the opposite: what was there is put back
                    match held.get(&k) {
                        Some(d) => q.op(&mut c.out, "update", &k, Some(d), None, None),
                        None => q.op(&mut c.out, "delete", &k, None, None, None),
                    };
                    q.root(&mut c.out);
                } else if style <= 1 {
                    q.op(&mut c.out, name, &k, d.as_deref(), None, None);
                    q.root(&mut c.out);
                } else {
                    // fails once more, elsewhere
                    q.op(&mut c.out, name, &k, d.as_deref(), Some(rng.below(w + 1)), None);
                    q.root(&mut c.out);
                }
                for _ in 0..2 {
                    let op = next_op(&mut rng, &ks, &q.has, &mut vals);
                    apply(&mut q, &mut c.out, &op);
                    q.root(&mut c.out);
                }
                let at = q.root_now();
                q.load(&mut c.out, &at);
                let hs: Vec<B32> = ks.clone();
                for k in hs {
                    q.delete(&mut c.out, &k);
                }
                q.root(&mut c.out);
                c.out.put(ev("back"));
            }
            apply(&mut r, &mut c.out, &op);
            match d {
                Some(d) if !d.is_empty() => held.insert(k, d),
                _ => held.remove(&k),
            };
            r.root(&mut c.out);
        }
        // loads that fail
        if case % 2 == 0 {
            let at = r.root_now();
            r.load_as(&mut c.out, "load", &at, Some(0));
            r.root(&mut c.out);
            r.load(&mut c.out, &at);
            r.root(&mut c.out);
        }
    }
    // one tree for all of it, with operations that come back later
    for _ in 0..c.size(40, 500) {
        let nk = rng.range(2, 9) as usize;
        let ks = universe(&mut rng, nk);
        c.out.case("Trace_Sparse", &format!("operations that fail now and then, {} keys", nk));
        let mut r = Run::new();
        let mut vals = vec![];
        let mut kept: Vec<Op> = vec![];
        for _ in 0..40 {
            let op = if !kept.is_empty() && rng.chance(1, 2) {
                rng.pick(&kept).clone()
            } else {
                next_op(&mut rng, &ks, &r.has, &mut vals)
            };
            kept.push(op.clone());
            if kept.len() > 5 {
                kept.remove(0);
            }
            let (name, k, d) = match &op {
                Op::Update(k, d) => ("update", *k, Some(d.clone())),
                Op::Delete(k) => ("delete", *k, None),
            };
            let (wf, rf) = match rng.below(5) {
                0 => (Some(rng.below(6)), None),
                1 => (Some(rng.below(60)), None),
                2 => (None, Some(rng.below(8))),
                _ => (None, None),
            };
            r.op(&mut c.out, name, &k, d.as_deref(), wf, rf);
            r.root(&mut c.out);
            if rng.chance(1, 25) {
                let at = r.root_now();
                r.load(&mut c.out, &at);
            }
        }
        let at = r.root_now();
        r.load(&mut c.out, &at);
        for k in &ks {
            r.delete(&mut c.out, k);
        }
        r.root(&mut c.out);
    }
    for some in rungs(&mut rng).chunks(8) {
        c.out.case("Trace_Sparse", "failing storage calls, keys that part at every bit");
        for ks in some {
            let have = rng.range(2, 3) as usize;
            let mut r = climb(c, ks, have);
            r.root(&mut c.out);
            for _ in 0..2 {
                let op = rung_op(&mut rng, ks);
                let (k, d) = match &op {
                    Op::Update(k, d) => (*k, Some(d.clone())),
                    Op::Delete(k) => (*k, None),
                };
                let name = if d.is_some() { "update" } else { "delete" };
                let mut dry = r.fork();
                dry.quiet = true;
                dry.op(&mut c.out, name, &k, d.as_deref(), None, None);
                let (w, rd) = (dry.st.writes(), dry.st.reads());
                if rng.chance(4, 5) {
                    r.op(&mut c.out, name, &k, d.as_deref(), Some(rng.below(w + 1)), None);
                } else {
                    r.op(&mut c.out, name, &k, d.as_deref(), None, Some(rng.below(rd + 1)));
                }
                r.root(&mut c.out);
                if rng.chance(1, 2) {
                    r.op(&mut c.out, name, &k, d.as_deref(), None, None);
                    r.root(&mut c.out);
                }
            }
            let at = r.root_now();
            r.load(&mut c.out, &at);
            for k in ks {
                r.delete(&mut c.out, k);
            }
            r.root(&mut c.out);
        }
    }
    for _ in 0..c.size(4, 40) {
        let (mut r, ks) = crowd(c, &mut rng, "failing storage calls");
        let mut vals = vec![];
        for _ in 0..12 {
            let op = next_op(&mut rng, &ks, &r.has, &mut vals);
            let (k, d) = match &op {
                Op::Update(k, d) => (*k, Some(d.clone())),
                Op::Delete(k) => (*k, None),
            };
            let name = if d.is_some() { "update" } else { "delete" };
            let mut dry = r.fork();
            dry.quiet = true;
            dry.op(&mut c.out, name, &k, d.as_deref(), None, None);
            let (w, rd) = (dry.st.writes(), dry.st.reads());
            if rng.chance(3, 4) {
                r.op(&mut c.out, name, &k, d.as_deref(), Some(rng.below(w + 1)), None);
            } else {
                r.op(&mut c.out, name, &k, d.as_deref(), None, Some(rng.below(rd + 1)));
            }
            r.root(&mut c.out);
            if rng.chance(1, 3) {
                let at = r.root_now();
                r.load(&mut c.out, &at);
            }
        }
        for k in &ks {
            r.delete(&mut c.out, k);
            r.root(&mut c.out);
        }
    }
}

// -- S06 ----------------------------------------------------------------------------

/// What was lost or damaged since the store was like this is as it was.
fn heal(c: &mut Ctx, r: &mut Run, whole: &BTreeMap<B32, Primitive>) {
    let mut s = r.st.0.borrow_mut();
    for (k, v) in whole {
        s.map.insert(*k, *v);
    }
    drop(s);
    c.out.put(ev("found"));
}

pub fn s06(c: &mut Ctx) {
    let mut rng = c.rng("S06");
    for case in 0..c.size(34, 400) {
        let nk = rng.range(1, 7) as usize;
        let ks = universe(&mut rng, nk);
        c.out.case("Trace_Sparse", &format!("lost and invalid nodes, {} keys", nk));
        let mut r = Run::new();
        let mut vals = vec![];
        for k in &ks {
            let v = value(&mut rng, &[]);
            r.update(&mut c.out, k, &v);
        }
        if case % 2 == 1 {
            let op = next_op(&mut rng, &ks, &r.has, &mut vals);
            apply(&mut r, &mut c.out, &op);
        }
        r.root(&mut c.out);
        let root = r.root_now();
        let whole = r.st.snapshot();
        let all: Vec<B32> = whole.keys().cloned().collect();
        let mut bad: Vec<Vec<B32>> = sample(&mut rng, all.len() as u64, 10).into_iter().map(|x| vec![all[x as usize]]).collect();
        bad.push(vec![root]);
        bad.push(all.clone());
        if all.len() > 2 {
            bad.push(vec![*rng.pick(&all), *rng.pick(&all)]);
        }
        for b in bad {
            let mode = rng.below(6);
            c.out.put(ev("mark"));
            let mut q = r.fork();
            {
                let mut s = q.st.0.borrow_mut();
                for d in &b {
                    match mode {
                        0 | 1 | 2 => {
                            s.map.remove(d);
                        }
                        _ => {
                            // any byte but the tags there are
                            let tag = [2u8, 255, 2 + rng.below(254) as u8][mode as usize - 3];
                            if let Some(p) = s.map.get_mut(d) {
                                p.1 = tag;
                            }
                        }
                    }
                }
            }
            let xs: Vec<String> = b.iter().filter(|d| **d != ZERO).map(|d| hex(d)).collect();
            c.out.put(ev("lose").raw("keys", &strs(&xs)));
            q.root(&mut c.out);
            // loading: this root, older ones, and ones that never were
            if rng.chance(1, 2) {
                let mut p = q.fork();
                p.t = None;
                let mut roots: Vec<B32> = vec![root];
                roots.extend(q.olds.keys().filter(|d| **d != root).take(2).cloned());
                roots.push(rng.b32());
                roots.push(flip(&root, 255));
                for at in roots {
                    p.load_as(&mut c.out, "loadx", &at, None);
                    p.root(&mut c.out);
                }
                // back to the tree in hand
                c.out.put(ev("back"));
                c.out.put(ev("lose").raw("keys", &strs(&xs)));
            }
            for _ in 0..rng.range(1, 5) {
                let op = next_op(&mut rng, &ks, &q.has, &mut vals);
                match &op {
                    Op::Update(k, d) => q.op(&mut c.out, "updatex", k, Some(d), None, None),
                    Op::Delete(k) => q.op(&mut c.out, "deletex", k, None, None, None),
                };
                q.root(&mut c.out);
            }
            // all is back, and the tree goes on
            if rng.chance(1, 2) {
                heal(c, &mut q, &whole);
                for _ in 0..3 {
                    let op = next_op(&mut rng, &ks, &q.has, &mut vals);
                    apply(&mut q, &mut c.out, &op);
                    q.root(&mut c.out);
                }
                let at = q.root_now();
                q.load(&mut c.out, &at);
                for k in &ks {
                    q.delete(&mut c.out, k);
                }
                q.root(&mut c.out);
            }
            c.out.put(ev("back"));
        }
    }
    let tags: Vec<u8> = (2..=255).collect();
    for some in tags.chunks(64) {
        c.out.case("Trace_Sparse", "every invalid kind tag");
        let mut r = Run::new();
        let ks: Vec<B32> = (0..3).map(|_| rng.b32()).collect();
        for k in &ks {
            r.update(&mut c.out, k, &[1]);
        }
        let root = r.root_now();
        let all: Vec<B32> = r.st.snapshot().keys().cloned().filter(|d| *d != root).collect();
        for tag in some {
            for x in [root, *rng.pick(&all)] {
                c.out.put(ev("mark"));
                let mut q = r.fork();
                q.st.0.borrow_mut().map.get_mut(&x).unwrap().1 = *tag;
                c.out.put(ev("lose").raw("keys", &strs(&[hex(&x)])));
                if x == root {
                    q.load_as(&mut c.out, "loadx", &root, None);
                } else {
                    q.op(&mut c.out, "updatex", rng.pick(&ks), Some(&[2]), None, None);
                    q.op(&mut c.out, "deletex", rng.pick(&ks), None, None, None);
                }
                q.root(&mut c.out);
                c.out.put(ev("back"));
            }
        }
    }
    for some in rungs(&mut rng).chunks(8) {
        c.out.case("Trace_Sparse", "lost and invalid nodes, keys that part at every bit");
        for ks in some {
            let have = rng.range(2, 3) as usize;
            let mut r = climb(c, ks, have);
            r.root(&mut c.out);
            let root = r.root_now();
            let all: Vec<B32> = r.st.snapshot().keys().cloned().collect();
            for _ in 0..2 {
                c.out.put(ev("mark"));
                let mut q = r.fork();
                let x = if rng.chance(1, 8) { root } else { *rng.pick(&all) };
                {
                    let mut s = q.st.0.borrow_mut();
                    if rng.chance(1, 2) {
                        s.map.remove(&x);
                    } else if let Some(p) = s.map.get_mut(&x) {
                        p.1 = 2 + rng.below(254) as u8;
                    }
                }
                c.out.put(ev("lose").raw("keys", &strs(&[hex(&x)])));
                if rng.chance(1, 4) {
                    q.load_as(&mut c.out, "loadx", &root, None);
                    q.root(&mut c.out);
                }
                for _ in 0..2 {
                    match rung_op(&mut rng, ks) {
                        Op::Update(k, d) => q.op(&mut c.out, "updatex", &k, Some(&d), None, None),
                        Op::Delete(k) => q.op(&mut c.out, "deletex", &k, None, None, None),
                    };
                    q.root(&mut c.out);
                }
                c.out.put(ev("back"));
            }
        }
    }
    for _ in 0..c.size(4, 40) {
        let (r, ks) = crowd(c, &mut rng, "lost and invalid nodes");
        let root = r.root_now();
        let whole = r.st.snapshot();
        for _ in 0..10 {
            c.out.put(ev("mark"));
            let mut q = r.fork();
            let bad: Vec<B32> = (0..rng.range(1, 4)).map(|_| below(&q.st, &mut rng, &root)).collect();
            {
                let mut s = q.st.0.borrow_mut();
                for x in &bad {
                    if rng.chance(1, 2) {
                        s.map.remove(x);
                    } else if let Some(p) = s.map.get_mut(x) {
                        p.1 = 2 + rng.below(254) as u8;
                    }
                }
            }
            let xs: Vec<String> = bad.iter().filter(|d| **d != ZERO).map(|d| hex(d)).collect();
            c.out.put(ev("lose").raw("keys", &strs(&xs)));
            if rng.chance(1, 4) {
                q.load_as(&mut c.out, "loadx", &root, None);
            }
            for _ in 0..3 {
                let k = if rng.chance(1, 2) { *rng.pick(&ks) } else { rng.b32() };
                if rng.chance(1, 2) {
                    q.op(&mut c.out, "updatex", &k, Some(&[1]), None, None);
                } else {
                    q.op(&mut c.out, "deletex", &k, None, None, None);
                }
                q.root(&mut c.out);
            }
            heal(c, &mut q, &whole);
            for _ in 0..3 {
                let k = *rng.pick(&ks);
                if rng.chance(1, 2) {
                    q.update(&mut c.out, &k, &[2]);
                } else {
                    q.delete(&mut c.out, &k);
                }
                q.root(&mut c.out);
            }
            c.out.put(ev("back"));
        }
    }
}

// -- S07 ----------------------------------------------------------------------------

pub fn s07(c: &mut Ctx) {
    let mut rng = c.rng("S07");
    let lim = c.size(250, 4000);
    schedules(c, &mut rng, lim, false, |s| outcome(s, "crash"));
    for _ in 0..c.size(16, 200) {
        let nk = rng.range(1, 6) as usize;
        let ks = universe(&mut rng, nk);
        c.out.case("Trace_Sparse", &format!("crash at every write, {} keys", nk));
        let mut r = Run::new();
        let mut vals = vec![];
        for _ in 0..rng.range(3, 8) {
            let op = next_op(&mut rng, &ks, &r.has, &mut vals);
            let (k, d) = match &op {
                Op::Update(k, d) => (*k, Some(d.clone())),
                Op::Delete(k) => (*k, None),
            };
            let name = if d.is_some() { "update" } else { "delete" };
            let mut dry = r.fork();
            dry.quiet = true;
            dry.op(&mut c.out, name, &k, d.as_deref(), None, None);
            let w = dry.st.log().len() as u64;
            for j in sample(&mut rng, w + 1, 7) {
                c.out.put(ev("mark"));
                let mut q = r.fork();
                let (mut last, mut next) = (ZERO, ZERO);
                crash(c, &mut q, name, &k, d.as_deref(), j, &mut last, &mut next);
                let at = if loaded(&q.st, &last) { last } else { next };
                q.resume(&mut c.out, &at);
                // the interrupted operation again, or something else
                if rng.chance(1, 2) {
                    q.op(&mut c.out, name, &k, d.as_deref(), None, None);
                    q.root(&mut c.out);
                }
                let op = next_op(&mut rng, &ks, &q.has, &mut vals);
                apply(&mut q, &mut c.out, &op);
                q.root(&mut c.out);
                for k in &ks {
                    q.delete(&mut c.out, k);
                }
                q.root(&mut c.out);
                c.out.put(ev("back"));
            }
            apply(&mut r, &mut c.out, &op);
            r.root(&mut c.out);
        }
    }
    for some in rungs(&mut rng).chunks(8) {
        c.out.case("Trace_Sparse", "crash at some write, keys that part at every bit");
        for (ks, x) in some.iter().flat_map(|ks| (0..3).map(move |x| (ks, x))) {
            let mut ks = *ks;
            let mut have = rng.range(2, 3) as usize;
            if x == 0 && flip(&ks[0], 0) != ks[1] {
                ks[2] = flip(&ks[0], 0);
                have = 3;
            }
            let ks = &ks;
            let mut q = climb(c, ks, have);
            let op = if x == 0 { Op::Delete(ks[rng.below(2) as usize]) } else { rung_op(&mut rng, ks) };
            let (k, d) = match &op {
                Op::Update(k, d) => (*k, Some(d.clone())),
                Op::Delete(k) => (*k, None),
            };
            let name = if d.is_some() { "update" } else { "delete" };
            let mut dry = q.fork();
            dry.quiet = true;
            dry.op(&mut c.out, name, &k, d.as_deref(), None, None);
            let w = dry.st.log().len() as u64;
            let j = if x == 0 { 1 } else { rng.below(w + 1) };
            let (mut last, mut next) = (ZERO, ZERO);
            crash(c, &mut q, name, &k, d.as_deref(), j, &mut last, &mut next);
            let at = if loaded(&q.st, &last) { last } else { next };
            let ok = q.resume(&mut c.out, &at);
            if ok && rng.chance(1, 2) {
                q.op(&mut c.out, name, &k, d.as_deref(), None, None);
                q.root(&mut c.out);
            }
            for k in ks {
                q.delete(&mut c.out, k);
            }
            q.root(&mut c.out);
        }
    }
    for _ in 0..c.size(3, 30) {
        let (r, ks) = crowd(c, &mut rng, "crash at some write");
        let mut vals = vec![];
        for _ in 0..6 {
            c.out.put(ev("mark"));
            let mut q = r.fork();
            let op = next_op(&mut rng, &ks, &r.has, &mut vals);
            let (k, d) = match &op {
                Op::Update(k, d) => (*k, Some(d.clone())),
                Op::Delete(k) => (*k, None),
            };
            let name = if d.is_some() { "update" } else { "delete" };
            let mut dry = q.fork();
            dry.quiet = true;
            dry.op(&mut c.out, name, &k, d.as_deref(), None, None);
            let j = rng.below(dry.st.log().len() as u64 + 1);
            let (mut last, mut next) = (ZERO, ZERO);
            crash(c, &mut q, name, &k, d.as_deref(), j, &mut last, &mut next);
            let at = if loaded(&q.st, &last) { last } else { next };
            q.resume(&mut c.out, &at);
            for _ in 0..3 {
                let op = next_op(&mut rng, &ks, &q.has, &mut vals);
                apply(&mut q, &mut c.out, &op);
                q.root(&mut c.out);
            }
            c.out.put(ev("back"));
        }
    }
}

// -- S08 ----------------------------------------------------------------------------

/// An operation, with what it removed from the store.
fn reclaim(r: &mut Run, o: &mut Out, op: &Op) {
    let before = r.st.snapshot();
    r.quiet = true;
    let ok = apply(r, o, op);
    r.quiet = false;
    let now = r.st.snapshot();
    let rem: Vec<String> = before.keys().filter(|k| !now.contains_key(*k)).map(|k| hex(k)).collect();
    let (k, d) = match op {
        Op::Update(k, d) => (k, hex(d)),
        Op::Delete(k) => (k, String::new()),
    };
    o.put(ev("reclaim").s("k", &hex(k)).s("d", &d).s("r", if ok { "ok" } else { "failed" }).raw("rem", &strs(&rem)));
}

pub fn s08(c: &mut Ctx) {
    let mut rng = c.rng("S08");
    // schedules, with the removals of every operation
    let mut s: Vec<_> = std::mem::take(&mut c.sched).into_iter().filter(|s| has(s, "delete") && !outcome(s, "fail") && !outcome(s, "crash")).collect();
    rng.shuffle(&mut s);
    for s in s.iter().take(c.size(250, 3000) as usize) {
        let depth = s.iter().map(|x| x.get(1).map_or(0, |k| k.len())).max().unwrap_or(0);
        let e = embedding(&mut rng, depth);
        c.out.case("Trace_Sparse", "schedule, removals");
        let mut r = Run::new();
        for x in s {
            let op = match x[0].as_str() {
                "update" => Op::Update(embed(&e, &x[1]), vec![x[2].len() as u8, x[2].as_bytes()[0]]),
                "delete" => Op::Delete(embed(&e, &x[1])),
                _ => {
                    let at = r.root_now();
                    r.load(&mut c.out, &at);
                    continue;
                }
            };
            reclaim(&mut r, &mut c.out, &op);
        }
        r.root(&mut c.out);
    }
    for case in 0..c.size(50, 600) {
        let nk = rng.range(1, 9) as usize;
        let ks = universe(&mut rng, nk);
        c.out.case("Trace_Sparse", &format!("removals, {} keys", nk));
        let mut r = Run::new();
        let mut vals = vec![];
        for _ in 0..rng.range(5, 20) {
            let op = match rng.below(10) {
                0 => Op::Delete(tricky(&r, &mut rng)),
                1 if case % 2 == 0 => {
                    // fails somewhere, and may or may not have happened
                    let (k, w) = (*rng.pick(&ks), rng.below(8));
                    if rng.chance(1, 2) {
                        r.op(&mut c.out, "delete", &k, None, Some(w), None);
                    } else {
                        r.op(&mut c.out, "update", &k, Some(&[7]), Some(w), None);
                    }
                    r.root(&mut c.out);
                    continue;
                }
                2 => {
                    let at = r.root_now();
                    r.load(&mut c.out, &at);
                    continue;
                }
                3 => {
                    let roots: Vec<B32> = r.olds.keys().cloned().collect();
                    let at = *rng.pick(&roots);
                    if case % 2 == 1 {
                        r.load(&mut c.out, &at);
                    }
                    continue;
                }
                _ => next_op(&mut rng, &ks, &r.has, &mut vals),
            };
            reclaim(&mut r, &mut c.out, &op);
            r.root(&mut c.out);
        }
        let mut ks: Vec<B32> = r.has.iter().cloned().collect();
        rng.shuffle(&mut ks);
        for k in ks {
            reclaim(&mut r, &mut c.out, &Op::Delete(k));
        }
        r.root(&mut c.out);
    }
    for some in rungs(&mut rng).chunks(8) {
        c.out.case("Trace_Sparse", "removals, keys that part at every bit");
        for ks in some {
            let have = rng.range(2, 3) as usize;
            let mut r = climb(c, ks, have);
            if rng.chance(1, 2) {
                let at = r.root_now();
                r.load(&mut c.out, &at);
            }
            let first = Op::Delete(ks[rng.below(2) as usize]);
            reclaim(&mut r, &mut c.out, &first);
            for _ in 0..2 {
                let op = rung_op(&mut rng, ks);
                reclaim(&mut r, &mut c.out, &op);
            }
            r.root(&mut c.out);
        }
    }
    // larger maps
    for _ in 0..c.size(2, 12) {
        let n = c.size(60, 200) as usize;
        c.out.case("Trace_Sparse", &format!("removals, {} random keys", n));
        c.out.weigh(n as u64 * 8);
        let ks: Vec<B32> = (0..n).map(|_| rng.b32()).collect();
        let mut r = Run::new();
        let ops: Vec<Op> = ks.iter().map(|k| Op::Update(*k, value(&mut rng, &[]))).collect();
        r.bulk(&mut c.out, &ops);
        for k in ks.iter().take(n / 2) {
            reclaim(&mut r, &mut c.out, &Op::Delete(*k));
        }
        r.root(&mut c.out);
    }
    for _ in 0..c.size(4, 40) {
        let (mut r, ks) = crowd(c, &mut rng, "removals");
        let mut vals = vec![];
        for _ in 0..16 {
            let op = next_op(&mut rng, &ks, &r.has, &mut vals);
            reclaim(&mut r, &mut c.out, &op);
        }
        r.root(&mut c.out);
    }
}

/// For the configuration check: a history with its store contents.
pub fn history(c: &mut Ctx, rng: &mut Rng, len: u64) {
    let nk = rng.range(1, 8) as usize;
    let ks = universe(rng, nk);
    c.out.case("Trace_Sparse", &format!("history, {} keys", nk));
    let mut r = Run::new();
    let mut vals = vec![];
    for _ in 0..len {
        let op = next_op(rng, &ks, &r.has, &mut vals);
        match rng.below(4) {
            0 => {
                let (k, d) = match &op {
                    Op::Update(k, d) => (*k, Some(d.clone())),
                    Op::Delete(k) => (*k, None),
                };
                let j = rng.below(6);
                let (w, rd) = if rng.chance(1, 2) { (Some(j), None) } else { (None, Some(j)) };
                r.op(&mut c.out, if d.is_some() { "update" } else { "delete" }, &k, d.as_deref(), w, rd);
                let at = r.root_now();
                r.load(&mut c.out, &at);
            }
            1 => {
                let at = r.root_now();
                r.load(&mut c.out, &at);
            }
            _ => {
                apply(&mut r, &mut c.out, &op);
            }
        }
        r.root(&mut c.out);
        r.store(&mut c.out, false, false);
    }
}
