//! Trees with stores of their own, worked on in turns and in parallel: T01.
//! What each tree reports is a case of its own.
use crate::util::*;
use crate::{binary, sparse, sum, Ctx};
use std::sync::{Arc, Barrier};

/// What the trees of one round are fed; small, so that they meet.
struct Pool {
    data: Vec<Vec<u8>>,
    keys: Vec<B32>,
    fees: Vec<u64>,
}

impl Pool {
    fn new(rng: &mut Rng) -> Self {
        let n = rng.range(1, 5);
        let mut data: Vec<Vec<u8>> = vec![];
        for _ in 0..n {
            let d = crate::util::data(rng, &data);
            data.push(if d.is_empty() { vec![0] } else { d });
        }
        let m = rng.range(2, 8) as usize;
        Pool { data, keys: sparse::universe(rng, m), fees: vec![0, 1, 7, 1 << 40] }
    }
}

enum Tree {
    Stored(binary::Run),
    Memory(binary::Mem, u64),
    Sparse(sparse::Run),
    SparseMemory(sparse::Mem),
    Sum(sum::Run),
}

struct Actor {
    t: Tree,
    o: Out,
    rng: Rng,
}

impl Actor {
    fn new(kind: u64, what: &str, seed: u64) -> Self {
        let mut o = Out::buffer();
        let (t, spec, name) = match kind % 5 {
            0 => (Tree::Stored(binary::Run::new()), "Trace_Binary", "stored binary tree"),
            1 => (Tree::Memory(binary::Mem::new(), 0), "Trace_Binary", "binary tree in memory"),
            2 => (Tree::Sparse(sparse::Run::new()), "Trace_Sparse", "stored sparse tree"),
            3 => (Tree::SparseMemory(sparse::Mem::new()), "Trace_Sparse", "sparse tree in memory"),
            _ => (Tree::Sum(sum::Run::new()), "Trace_Sum", "sum tree"),
        };
        o.case(spec, &format!("{}, {}", name, what));
        Actor { t, o, rng: Rng(seed) }
    }

    fn step(&mut self, p: &Pool) {
        let (o, rng) = (&mut self.o, &mut self.rng);
        let d = rng.pick(&p.data).clone();
        let k = *rng.pick(&p.keys);
        let x = rng.below(10);
        match &mut self.t {
            Tree::Stored(r) => match x {
                0..=4 => {
                    r.push(o, &d, None);
                }
                5 => {
                    let k = if rng.chance(1, 2) { r.n } else { rng.below(r.n + 1) };
                    r.load(o, k, None);
                }
                6 => r.root(o),
                _ => {
                    let i = rng.below(r.n + 1);
                    r.prove(o, i, None)
                }
            },
            Tree::Memory(m, n) => match x {
                0..=4 => {
                    m.push(o, &d);
                    *n += 1;
                }
                5 | 6 => m.root(o),
                _ => {
                    let i = rng.below(*n + 1);
                    m.prove(o, i)
                }
            },
            Tree::Sparse(r) => match x {
                0..=4 => {
                    r.update(o, &k, &d);
                }
                5 | 6 => {
                    r.delete(o, &k);
                }
                7 => {
                    let roots: Vec<B32> = r.olds.keys().copied().collect();
                    let root = *rng.pick(&roots);
                    r.load(o, &root);
                }
                _ => r.root(o),
            },
            Tree::SparseMemory(m) => match x {
                0..=4 => m.update(Some(o), &k, &d),
                5 | 6 => m.delete(Some(o), &k),
                _ => m.root(o),
            },
            Tree::Sum(r) => match x {
                0..=6 => {
                    let f = *rng.pick(&p.fees);
                    r.push(o, f, &d, None)
                }
                _ => {
                    r.root(o, None);
                }
            },
        }
    }

    fn write(&mut self, p: &Pool) {
        let (o, rng) = (&mut self.o, &mut self.rng);
        let d = rng.pick(&p.data).clone();
        let k = *rng.pick(&p.keys);
        match &mut self.t {
            Tree::Stored(r) => {
                r.push(o, &d, None);
            }
            Tree::Memory(m, n) => {
                m.push(o, &d);
                *n += 1;
            }
            Tree::Sparse(r) => {
                r.update(o, &k, &d);
            }
            Tree::SparseMemory(m) => m.update(Some(o), &k, &d),
            Tree::Sum(r) => {
                let f = *rng.pick(&p.fees);
                r.push(o, f, &d, None)
            }
        }
    }

    fn root(&mut self) {
        let o = &mut self.o;
        match &mut self.t {
            Tree::Stored(r) => r.root(o),
            Tree::Memory(m, _) => m.root(o),
            Tree::Sparse(r) => r.root(o),
            Tree::SparseMemory(m) => m.root(o),
            Tree::Sum(r) => {
                r.root(o, None);
            }
        }
    }

    fn prove(&mut self) {
        let (o, rng) = (&mut self.o, &mut self.rng);
        match &mut self.t {
            Tree::Stored(r) => {
                let i = rng.below(r.n);
                r.prove(o, i, None)
            }
            Tree::Memory(m, n) => {
                let i = rng.below(*n);
                m.prove(o, i)
            }
            _ => {}
        }
    }

    fn last(&mut self) {
        let o = &mut self.o;
        match &mut self.t {
            Tree::Stored(r) => r.all(o),
            Tree::Memory(m, n) => {
                m.root(o);
                for i in 0..*n {
                    m.prove(o, i);
                }
            }
            Tree::Sparse(r) => {
                r.root(o);
                r.store(o, false, false);
            }
            Tree::SparseMemory(m) => m.root(o),
            Tree::Sum(r) => {
                r.root(o, None);
                r.store(o, true);
            }
        }
    }
}

/// Works on all trees in turns.
fn mix(rng: &mut Rng, p: &Pool, mut all: Vec<Actor>, steps: u64) -> Vec<Actor> {
    let mut x = 0;
    for _ in 0..steps {
        // short and long turns
        if rng.chance(2, 3) {
            x = rng.below(all.len() as u64) as usize;
        }
        all[x].step(p);
        if all.len() > 2 && rng.chance(1, 60) {
            // one tree goes away early
            let mut a = all.swap_remove(x);
            a.last();
            all.push(a);
            x = 0;
        }
    }
    for a in all.iter_mut() {
        a.last();
    }
    all
}

pub fn t01(c: &mut Ctx) {
    let mut rng = c.rng("T01");
    for _ in 0..c.size(16, 120) {
        let p = Pool::new(&mut rng);
        let n = rng.range(2, 12);
        // all kinds, one kind, or one kind doing the same things
        let style = rng.below(3);
        let (kind, seed) = (rng.below(5), rng.next());
        let all: Vec<Actor> = (0..n)
            .map(|x| Actor::new(if style == 0 { x } else { kind }, &format!("one of {} in turns", n), if style == 2 && x % 2 == 0 { seed } else { rng.next() }))
            .collect();
        for a in mix(&mut rng, &p, all, n * 24) {
            c.out.absorb(a.o);
        }
    }
    // in step
    for _ in 0..c.size(12, 100) {
        let p = Pool::new(&mut rng);
        let n = rng.range(2, 5);
        let kind = rng.below(5);
        let what = format!("one of {} in step", n);
        let mut all: Vec<Actor> = (0..n).map(|_| Actor::new(kind, &what, rng.next())).collect();
        for _ in 0..c.size(12, 30) {
            all.iter_mut().for_each(|a| a.write(&p));
            all.iter_mut().for_each(|a| a.root());
            let seed = rng.next();
            for a in all.iter_mut() {
                a.rng = Rng(if n == 2 { seed } else { rng.next() });
                a.prove();
            }
        }
        for mut a in all {
            a.last();
            c.out.absorb(a.o);
        }
    }
    // in turns that change inside the operations
    crate::shared::own_stores(c, &mut rng);
    for _ in 0..c.size(6, 60) {
        let threads = 8;
        let p = Arc::new(Pool::new(&mut rng));
        let gate = Arc::new(Barrier::new(threads));
        let same = rng.next();
        let hs: Vec<_> = (0..threads as u64)
            .map(|x| {
                let (p, gate, mut rng) = (p.clone(), gate.clone(), Rng(if x % 2 == 0 { same } else { rng.next() }));
                std::thread::spawn(move || {
                    let all: Vec<Actor> = (0..5).map(|y| Actor::new(y, "one of 40 in parallel", rng.next())).collect();
                    gate.wait();
                    mix(&mut rng, &p, all, 100).into_iter().map(|a| a.o.into_cases()).collect::<Vec<_>>()
                })
            })
            .collect();
        for h in hs {
            for cases in h.join().expect("a driver thread failed") {
                c.out.absorb_cases(cases);
            }
        }
    }
}
