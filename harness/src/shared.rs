//! Trees with their storage calls interleaved: T02, where they share a store,
//! and T01, where each has one of its own.
//!
//! Every tree lives in a thread of its own, but only one thread runs at a
//! time, and turns change at storage calls only, as a seeded scheduler has it.
use crate::store::InjectedFault;
use crate::util::*;
use crate::{binary, sparse, sum, Ctx};
use fuel_merkle::storage::{Mappable, StorageInspect, StorageMutate};
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Condvar, Mutex};

struct Sched {
    cur: usize,
    alive: Vec<bool>,
    /// Operations begun.
    begun: Vec<u64>,
    rng: Rng,
    plan: Plan,
    /// Calls made by thread 0 in turns.
    calls: u64,
}

/// When turns change.
#[derive(Clone, Copy)]
pub enum Plan {
    /// At a storage call, with so many chances in sixteen.
    Any(u64),
    /// The others run to their ends at this call of thread 0, which fails at that one.
    Nest(u64, Option<u64>),
}

pub struct Turns {
    s: Mutex<Sched>,
    cv: Condvar,
}

impl Turns {
    fn new(n: usize, rng: Rng, plan: Plan) -> Arc<Self> {
        Arc::new(Turns { s: Mutex::new(Sched { cur: 0, alive: vec![true; n], begun: vec![0; n], rng, plan, calls: 0 }), cv: Condvar::new() })
    }
    fn enter(&self, id: usize) {
        let mut s = self.s.lock().unwrap();
        while s.cur != id {
            s = self.cv.wait(s).unwrap();
        }
    }
    fn begin(&self, id: usize) {
        self.s.lock().unwrap().begun[id] += 1;
    }
    fn pass(&self, id: usize, leave: bool) {
        let mut s = self.s.lock().unwrap();
        if leave {
            s.alive[id] = false;
        }
        let switch = match s.plan {
            Plan::Any(eager) => s.rng.chance(eager, 16),
            Plan::Nest(at, _) => id == 0 && s.calls == at,
        };
        s.calls += (id == 0 && !leave) as u64;
        if leave || switch {
            let mut others: Vec<usize> = (0..s.alive.len()).filter(|x| s.alive[*x]).collect();
            if let Plan::Nest(..) = s.plan {
                // the others first
                let last = others.len();
                others.retain(|x| *x != 0 || last == 1);
            } else if s.rng.chance(1, 2) {
                // half of the time, one that lags behind
                let least = others.iter().map(|x| s.begun[*x]).min();
                others.retain(|x| Some(s.begun[*x]) == least);
            }
            if !others.is_empty() {
                let x = s.rng.below(others.len() as u64) as usize;
                s.cur = others[x];
                self.cv.notify_all();
            }
        }
        while !leave && s.cur != id {
            s = self.cv.wait(s).unwrap();
        }
    }
}

/// A thread's view of the common store.
pub struct Part<K, V> {
    map: Arc<Mutex<BTreeMap<K, V>>>,
    turns: Option<Arc<Turns>>,
    id: usize,
    /// Whether the turn is kept for now.
    calm: Arc<AtomicBool>,
    /// Calls until one fails; whether one did; and whether one ever did.
    fail: Arc<Mutex<(Option<u64>, bool, bool)>>,
}

impl<K, V> Clone for Part<K, V> {
    fn clone(&self) -> Self {
        Part { map: self.map.clone(), turns: self.turns.clone(), id: self.id, calm: self.calm.clone(), fail: self.fail.clone() }
    }
}

impl<K: Ord + Clone, V: Clone> Part<K, V> {
    fn call(&self) -> Result<(), InjectedFault> {
        if let Some(t) = self.turns.as_ref().filter(|_| !self.calm.load(Ordering::Relaxed)) {
            t.pass(self.id, false);
        }
        let mut f = self.fail.lock().unwrap();
        match f.0 {
            Some(0) => {
                *f = (None, true, true);
                Err(InjectedFault(1))
            }
            Some(n) => {
                f.0 = Some(n - 1);
                Ok(())
            }
            None => Ok(()),
        }
    }
    fn calm(&self, yes: bool) {
        self.calm.store(yes, Ordering::Relaxed);
    }
    /// An operation begins, whose given call fails.
    fn arm(&self, at: Option<u64>) {
        if let Some(t) = &self.turns {
            t.begin(self.id);
        }
        let mut f = self.fail.lock().unwrap();
        *f = (at, false, f.2);
    }
    fn fired(&self) -> bool {
        let mut f = self.fail.lock().unwrap();
        let r = f.1;
        *f = (None, false, f.2);
        r
    }
}

impl<T, K, V> StorageInspect<T> for Part<K, V>
where
    T: Mappable<Key = K, SetValue = V, GetValue = V>,
    K: Ord + Clone,
    V: Clone,
{
    type Error = InjectedFault;
    fn get(&self, key: &K) -> Result<Option<Cow<V>>, InjectedFault> {
        self.call()?;
        Ok(self.map.lock().unwrap().get(key).cloned().map(Cow::Owned))
    }
    fn contains_key(&self, key: &K) -> Result<bool, InjectedFault> {
        self.call()?;
        Ok(self.map.lock().unwrap().contains_key(key))
    }
}

impl<T, K, V> StorageMutate<T> for Part<K, V>
where
    T: Mappable<Key = K, SetValue = V, GetValue = V>,
    K: Ord + Clone,
    V: Clone,
{
    fn insert(&mut self, key: &K, value: &V) -> Result<Option<V>, InjectedFault> {
        self.call()?;
        Ok(self.map.lock().unwrap().insert(key.clone(), value.clone()))
    }
    fn remove(&mut self, key: &K) -> Result<Option<V>, InjectedFault> {
        self.call()?;
        Ok(self.map.lock().unwrap().remove(key))
    }
}

/// The stores, one or one for each thread, and what is recorded of each.
struct Common<K, V> {
    maps: Vec<Arc<Mutex<BTreeMap<K, V>>>>,
    logs: Vec<Arc<Mutex<Vec<Ev>>>>,
    n: usize,
}

impl<K: Ord + Clone + Send + 'static, V: Clone + Send + 'static> Common<K, V> {
    fn new(n: usize, own: bool) -> Self {
        let m = if own { n } else { 1 };
        Common { maps: (0..m).map(|_| Default::default()).collect(), logs: (0..m).map(|_| Default::default()).collect(), n }
    }
    fn stores(&self) -> usize {
        self.maps.len()
    }
    /// Runs `body` in threads taking turns; returns how many calls thread 0 made.
    fn run(&self, rng: &mut Rng, plan: Option<Plan>, faulty: bool, body: impl Fn(usize, Part<K, V>, Rng, Faults, &dyn Fn(Ev)) + Send + Sync + 'static) -> u64 {
        let eager = *rng.pick(&[1, 4, 8, 16]);
        let plan = plan.unwrap_or(Plan::Any(eager));
        let turns = Turns::new(self.n, Rng(rng.next()), plan);
        let body = Arc::new(body);
        let mut hs = vec![];
        // sometimes all threads do the same; and only one of them fails
        let (twins, seed, one) = (rng.chance(1, 2), rng.next(), rng.chance(1, 2));
        for id in 0..self.n {
            let (map, log) = (self.maps[id % self.stores()].clone(), self.logs[id % self.stores()].clone());
            let part = Part { map, turns: Some(turns.clone()), id, calm: Default::default(), fail: Default::default() };
            let rate = if one { 3 } else { 1 };
            let faults = match plan {
                Plan::Any(_) => Faults { rng: Rng(rng.next()), rate: if faulty && (id == 0 || !one) { rate } else { 0 }, at: None },
                Plan::Nest(_, at) => Faults { rng: Rng(rng.next()), rate: 0, at: at.filter(|_| id == 0) },
            };
            let (turns, body, rng) = (turns.clone(), body.clone(), Rng(if twins { seed } else { rng.next() }));
            let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
                turns.enter(id);
                let r = guard_quiet(|| body(id, part, rng, faults, &|e| log.lock().unwrap().push(e)));
                turns.pass(id, true);
                r
            });
            hs.push(h.unwrap());
        }
        let ok = hs.into_iter().all(|h| matches!(h.join(), Ok(Ok(()))));
        assert!(ok, "a driver thread failed");
        let calls = turns.s.lock().unwrap().calls;
        calls
    }
    /// Starts the case of a store, with what the threads reported.
    fn case(&self, o: &mut Out, g: usize, what: &str, ops: u64, faulty: bool) {
        let how = if self.stores() == 1 { "sharing a store" } else { "with stores of their own" };
        o.case("Trace_Shared", &format!("{}, {} trees {}, {} operations each, faults {}", what, self.n, how, ops, faulty));
        o.weigh((self.n / self.stores()) as u64 * ops * 2);
        for e in self.logs[g].lock().unwrap().drain(..) {
            o.put(e);
        }
    }
    /// A view for the main thread.
    fn part(&self, g: usize) -> Part<K, V> {
        Part { map: self.maps[g].clone(), turns: None, id: 0, calm: Default::default(), fail: Default::default() }
    }
    fn snapshot(&self, g: usize) -> BTreeMap<K, V> {
        self.maps[g].lock().unwrap().clone()
    }
}

/// Now and then, a call that fails; a thread may give up after one.
struct Faults {
    rng: Rng,
    /// How many operations of six fail.
    rate: u64,
    /// The call of the next operation that fails.
    at: Option<u64>,
}
impl Faults {
    fn next(&mut self, calls: u64) -> Option<u64> {
        if calls == 0 {
            None
        } else if self.at.is_some() {
            self.at.take()
        } else if self.rng.chance(self.rate, 6) {
            Some(self.rng.below(calls))
        } else {
            None
        }
    }
    fn over<K, V>(&mut self, p: &Part<K, V>) -> bool {
        let mut f = p.fail.lock().unwrap();
        let hit = f.2;
        f.2 = false;
        hit && self.rng.chance(2, 3)
    }
}

fn is_fault<E: std::fmt::Debug>(e: &E) -> &'static str {
    if format!("{:?}", e).contains("InjectedFault") {
        "storage"
    } else {
        "err"
    }
}

fn outcome<R, E: std::fmt::Debug>(r: &Result<Result<R, E>, ()>) -> &'static str {
    match r {
        Err(()) => "panic",
        Ok(Ok(_)) => "ok",
        Ok(Err(e)) => is_fault(e),
    }
}

// -- sparse ---------------------------------------------------------------------

type SPart = Part<B32, fuel_merkle::sparse::Primitive>;
type STree = fuel_merkle::sparse::MerkleTree<sparse::STable, SPart>;

fn s_update(t: &mut STree, p: &SPart, h: u64, k: &B32, d: &[u8], fail: Option<u64>, put: &dyn Fn(Ev)) -> &'static str {
    p.arm(fail);
    let r = outcome(&guard(|| t.update(k, d)));
    put(ev("supdate").n("h", h).s("k", &hex(k)).s("d", &hex(d)).b("f", p.fired()).s("r", r));
    r
}

fn s_root(t: &STree, h: u64, put: &dyn Fn(Ev)) -> Option<B32> {
    let r = guard(|| t.root()).ok();
    put(ev("sroot").n("h", h).s("v", &r.map_or(String::new(), |x| hex(&x))).s("r", if r.is_some() { "ok" } else { "panic" }));
    r
}

fn s_load(p: &SPart, h: u64, root: &B32, fail: Option<u64>, put: &dyn Fn(Ev)) -> Option<STree> {
    p.arm(fail);
    let q = p.clone();
    let r = guard(|| STree::load(q, root));
    put(ev("sload").n("h", h).s("root", &hex(root)).b("f", p.fired()).s("r", outcome(&r)));
    r.ok().and_then(|x| x.ok())
}

fn sparse_case(c: &mut Ctx, rng: &mut Rng, n: usize, own: bool, base: u64, ops: u64, faulty: bool, plan: Option<Plan>) -> u64 {
    let m = rng.range(2, 10) as usize;
    let keys = Arc::new(sparse::universe(rng, m));
    let few = rng.range(1, 3);
    let vals: Arc<Vec<Vec<u8>>> = Arc::new((0..few).map(|x| vec![x as u8; 1 + x as usize * 40]).collect());
    let com = Common::new(n, own);
    let roots: Arc<Vec<Mutex<Vec<B32>>>> = Arc::new((0..com.stores()).map(|_| Mutex::new(vec![[0; 32]])).collect());
    if base > 0 {
        let p = com.part(0);
        let log = com.logs[0].clone();
        let put = |e: Ev| log.lock().unwrap().push(e);
        let mut t = STree::new(p.clone());
        put(ev("snew").n("h", 50));
        for _ in 0..base {
            let (k, d) = (*rng.pick(&keys), rng.pick(&vals).clone());
            s_update(&mut t, &p, 50, &k, &d, None, &put);
        }
        roots[0].lock().unwrap().extend(s_root(&t, 50, &put));
    }
    let (ks, vs, all) = (keys.clone(), vals.clone(), roots.clone());
    let calls = com.run(rng, plan, faulty, move |id, p, mut rng, mut faults, put| {
        let h = id as u64;
        let rs = &all[id % all.len()];
        let mut t = STree::new(p.clone());
        put(ev("snew").n("h", h));
        if base > 0 {
            p.calm(true);
            let root = rs.lock().unwrap()[1];
            if let Some(x) = s_load(&p, h, &root, None, put) {
                t = x;
            }
            p.calm(false);
        }
        for _ in 0..ops {
            if faults.over(&p) {
                break;
            }
            match rng.below(8) {
                0 => {
                    let root = *rng.pick(&rs.lock().unwrap().clone());
                    let f = faults.next(2);
                    if let Some(x) = s_load(&p, h, &root, f, put) {
                        t = x;
                    }
                }
                _ => {
                    let (k, d) = (*rng.pick(&ks), rng.pick(&vs).clone());
                    let f = faults.next(18);
                    s_update(&mut t, &p, h, &k, &d, f, put);
                }
            }
            if let Some(r) = s_root(&t, h, put) {
                let mut all = rs.lock().unwrap();
                if !all.contains(&r) {
                    all.push(r);
                }
            }
        }
    });
    for g in 0..com.stores() {
        com.case(&mut c.out, g, "sparse", ops, faulty);
        let es: Vec<String> = com.snapshot(g).iter().map(|(k, v)| sparse::entry(k, v)).collect();
        c.out.put(ev("sstore").raw("es", &format!("[{}]", es.join(","))));
        // every tree that was ever reported is whole: write to all of its paths
        let mut all = roots[g].lock().unwrap().clone();
        rng.shuffle(&mut all);
        for (x, root) in all.iter().take(if plan.is_some() { 0 } else { 4 }).enumerate() {
            let h = 100 + x as u64;
            let p = com.part(g);
            let log = Mutex::new(vec![]);
            let put = |e: Ev| log.lock().unwrap().push(e);
            put(ev("snew").n("h", h));
            if let Some(mut t) = s_load(&p, h, root, None, &put) {
                for k in keys.iter() {
                    s_update(&mut t, &p, h, k, &[7, x as u8], None, &put);
                }
                s_root(&t, h, &put);
            }
            for e in log.into_inner().unwrap() {
                c.out.put(e);
            }
        }
    }
    calls
}

// -- binary ---------------------------------------------------------------------

type BPart = Part<u64, fuel_merkle::binary::Primitive>;
type BTree = fuel_merkle::binary::MerkleTree<binary::BTable, BPart>;

struct Reader<'a> {
    t: BTree,
    p: BPart,
    h: u64,
    n: u64,
    put: &'a dyn Fn(Ev),
}

impl Reader<'_> {
    fn push(&mut self, d: &[u8], fail: Option<u64>) {
        self.p.arm(fail);
        let t = &mut self.t;
        let r = match guard(|| t.push(d)) {
            Err(()) => "panic",
            Ok(Ok(())) => "ok",
            Ok(Err(e)) => binary::kind(&e).0,
        };
        (self.put)(ev("bpush").n("h", self.h).s("d", &hex(d)).b("f", self.p.fired()).s("r", r));
        self.n += (r == "ok") as u64;
    }
    fn load(&mut self, k: u64, fail: Option<u64>) {
        self.p.arm(fail);
        let q = self.p.clone();
        let r = match guard(|| BTree::load(q, k)) {
            Err(()) => "panic",
            Ok(Ok(t)) => {
                self.t = t;
                self.n = k;
                "ok"
            }
            Ok(Err(e)) => binary::kind(&e).0,
        };
        (self.put)(ev("bload").n("h", self.h).n("k", k).b("f", self.p.fired()).s("r", r));
    }
    fn root(&self) {
        let r = guard(|| self.t.root()).ok();
        (self.put)(ev("broot").n("h", self.h).s("v", &r.map_or(String::new(), |x| hex(&x))).s("r", if r.is_some() { "ok" } else { "panic" }));
    }
    fn prove(&self, i: u64, fail: Option<u64>) {
        self.p.arm(fail);
        let (r, root, set) = match guard(|| self.t.prove(i)) {
            Err(()) => ("panic", String::new(), vec![]),
            Ok(Ok((root, set))) => ("ok", hex(&root), set),
            Ok(Err(e)) => (binary::kind(&e).0, String::new(), vec![]),
        };
        (self.put)(ev("bprove").n("h", self.h).n("i", i).b("f", self.p.fired()).s("r", r).s("root", &root).list("set", &set));
    }
}

fn binary_case(c: &mut Ctx, rng: &mut Rng, n: usize, own: bool, base: u64, ops: u64, faulty: bool, plan: Option<Plan>) -> u64 {
    let com = Common::new(n, own);
    let m = com.stores();
    let lines: Vec<Vec<Vec<u8>>> = (0..m).map(|_| binary::leaves(rng, base + n as u64 * ops * 2 + 1)).collect();
    let acked: Arc<Vec<Mutex<u64>>> = Arc::new((0..m).map(|_| Mutex::new(0u64)).collect());
    if base > 0 {
        let log = com.logs[0].clone();
        let put = |e: Ev| log.lock().unwrap().push(e);
        put(ev("bnew").n("h", 50));
        let p = com.part(0);
        let mut r = Reader { t: BTree::new(p.clone()), p, h: 50, n: 0, put: &put };
        for d in lines[0].iter().take(base as usize) {
            r.push(d, None);
        }
        *acked[0].lock().unwrap() = base;
    }
    let acks = acked.clone();
    let calls = com.run(rng, plan, faulty, move |id, p, mut rng, mut faults, put| {
        let (ds, ack) = (&lines[id % m], &acks[id % m]);
        put(ev("bnew").n("h", id as u64));
        let mut r = Reader { t: BTree::new(p.clone()), p, h: id as u64, n: 0, put };
        if base > 0 {
            r.p.calm(true);
            r.load(base, None);
            r.p.calm(false);
        }
        let writer = id < m || rng.chance(1, 2);
        for _ in 0..ops {
            if faults.over(&r.p) {
                break;
            }
            let f = faults.next(4);
            match rng.below(8) {
                0 | 1 => {
                    let a = *ack.lock().unwrap();
                    let k = if rng.chance(1, 2) { a } else { rng.below(a + 1) };
                    r.load(k, f);
                }
                2 => r.root(),
                x if x == 3 || !writer => {
                    let i = rng.below(r.n + 1);
                    r.prove(i, f);
                }
                _ => {
                    for _ in 0..rng.range(1, 3) {
                        let d = ds[r.n as usize % ds.len()].clone();
                        r.push(&d, f);
                        let mut a = ack.lock().unwrap();
                        *a = (*a).max(r.n);
                        if r.n as usize >= ds.len() {
                            break;
                        }
                    }
                }
            }
            if rng.chance(1, 3) {
                r.root();
            }
        }
        for i in 0..r.n.min(12) {
            r.prove(i, None);
        }
    });
    for g in 0..m {
        com.case(&mut c.out, g, "binary", ops, faulty);
        let es: Vec<String> = com.snapshot(g).iter().map(|(k, v)| format!("[{},{},\"{}\"]", clip(*k), clip(v.0), hex(&v.1))).collect();
        c.out.put(ev("bstore").raw("es", &format!("[{}]", es.join(","))));
        let a = *acked[g].lock().unwrap();
        let log = Mutex::new(vec![]);
        let put = |e: Ev| log.lock().unwrap().push(e);
        put(ev("bnew").n("h", 100));
        let p = com.part(g);
        let mut r = Reader { t: BTree::new(p.clone()), p, h: 100, n: 0, put: &put };
        for _ in 0..4 {
            r.load(rng.below(a + 1), None);
            r.root();
        }
        r.load(a, None);
        r.root();
        for i in 0..a.min(20) {
            r.prove(i, None);
        }
        drop(r);
        for e in log.into_inner().unwrap() {
            c.out.put(e);
        }
    }
    calls
}

// -- sum ------------------------------------------------------------------------

type FPart = Part<B32, fuel_merkle::sum::VerifNode>;
type FTree = fuel_merkle::sum::MerkleTree<sum::FTable, FPart>;

fn sum_case(c: &mut Ctx, rng: &mut Rng, n: usize, own: bool, base: u64, ops: u64, faulty: bool, plan: Option<Plan>) -> u64 {
    let com = Common::new(n, own);
    let calls = com.run(rng, plan, faulty, move |id, p, mut rng, mut faults, put| {
        let h = id as u64;
        let mut t = FTree::new(p.clone());
        put(ev("fnew").n("h", h));
        let root = |t: &mut FTree, fail: Option<u64>| {
            p.arm(fail);
            let (r, fee, v) = match guard(|| t.root()) {
                Err(()) => ("panic", 0, String::new()),
                Ok(Ok((fee, v))) => ("ok", fee, hex(&v)),
                Ok(Err(_)) => ("storage", 0, String::new()),
            };
            put(ev("froot").n("h", h).b("f", p.fired()).s("r", r).s("fee", &h64(fee)).s("v", &v));
        };
        p.calm(base > 0);
        for x in 0..base + ops {
            if x == base {
                p.calm(false);
            }
            if faults.over(&p) {
                break;
            }
            let f = faults.next(if x < base { 0 } else { 4 });
            if x >= base && rng.chance(1, 4) {
                root(&mut t, f);
            } else {
                // the same leaves come up in several trees
                let fee = *rng.pick(&[0, 1, 5, 1 << 33]);
                let d = vec![9; rng.below(3) as usize];
                p.arm(f);
                let r = match guard(|| t.push(fee, &d)) {
                    Err(()) => "panic",
                    Ok(Ok(())) => "ok",
                    Ok(Err(_)) => "storage",
                };
                put(ev("fpush").n("h", h).s("fee", &h64(fee)).s("d", &hex(&d)).b("f", p.fired()).s("r", r));
            }
        }
        root(&mut t, None);
    });
    for g in 0..com.stores() {
        com.case(&mut c.out, g, "sum", ops, faulty);
        let es: Vec<String> = com.snapshot(g).iter().map(|(k, v)| sum::entry(k, v)).collect();
        c.out.put(ev("fstore").raw("es", &format!("[{}]", es.join(","))));
    }
    calls
}

type Case = fn(&mut Ctx, &mut Rng, usize, bool, u64, u64, bool, Option<Plan>) -> u64;

/// One operation of thread 0, with all of another one at any call of it, and
/// a fault at any later one.
fn nested(c: &mut Ctx, rng: &mut Rng, case: Case, base: u64) {
    let seed = rng.next();
    let mut run = |at, fail| case(c, &mut Rng(seed), 2, false, base, 1, false, Some(Plan::Nest(at, fail)));
    let calls = run(0, None);
    for at in 0..calls {
        for fail in at..calls.min(20) {
            run(at, Some(fail));
        }
        if at > 0 {
            run(at, None);
        }
    }
}

fn cases(c: &mut Ctx, rng: &mut Rng, own: bool, size: u64) {
    for x in 0..size {
        let n = rng.range(2, 4) as usize;
        let faulty = x % 3 != 0;
        let ops = rng.range(4, 14);
        sparse_case(c, rng, n, own, 0, ops, faulty, None);
        binary_case(c, rng, n, own, 0, ops, faulty, None);
        sum_case(c, rng, n, own, 0, ops, faulty, None);
    }
}

pub fn long(c: &mut Ctx) {
    let mut rng = c.rng("T02");
    let size = c.size(60, 700);
    cases(c, &mut rng, false, size);
}

pub fn t02(c: &mut Ctx) {
    long(c);
    let mut rng = c.rng("T02 short");
    // few operations at the same time, on trees that are there already
    for x in 0..c.size(60, 2000) {
        let n = rng.range(2, 3) as usize;
        let faulty = x % 4 != 0;
        let ops = rng.range(1, 3);
        let base = rng.range(1, 8);
        sparse_case(c, &mut rng, n, false, base, ops, faulty, None);
        binary_case(c, &mut rng, n, false, base, ops, faulty, None);
        sum_case(c, &mut rng, n, false, base, ops, faulty, None);
    }
    t02_nested(c);
}

fn t02_nested(c: &mut Ctx) {
    let mut rng = c.rng("T02 nested");
    for x in 0..c.size(14, 80) {
        nested(c, &mut rng, sparse_case, 1 + x % 6);
    }
    for _ in 0..c.size(5, 20) {
        for base in 1..9 {
            nested(c, &mut rng, binary_case, base);
            nested(c, &mut rng, sum_case, base);
        }
    }
}

pub fn own_stores(c: &mut Ctx, rng: &mut Rng) {
    let size = c.size(20, 200);
    cases(c, rng, true, size);
}
