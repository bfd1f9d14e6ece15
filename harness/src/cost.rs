//! Storage calls per operation: Q01.
use crate::util::*;
use crate::{binary, sparse, sum, Ctx};

fn res<R, E>(r: &Result<Result<R, E>, ()>) -> &'static str {
    match r {
        Err(()) => "panic",
        Ok(Ok(_)) => "ok",
        Ok(Err(_)) => "err",
    }
}

fn binary_case(c: &mut Ctx, rng: &mut Rng, stops: &[u64]) {
    c.out.case("Trace_Cost", &format!("binary, at {:?}", stops));
    let o = &mut c.out;
    let st = binary::St::new();
    let mut t = binary::Tree::new(st.clone());
    let mut n = 0u64;
    for s in stops {
        let m = s.saturating_sub(n);
        let r = res(&guard(|| (0..m).try_for_each(|x| t.push(&x.to_be_bytes()))));
        o.put(ev("skip").n("m", m).s("r", r));
        n += m;
        for round in 0..3 {
            st.begin();
            let r = res(&guard(|| Ok::<_, ()>(t.root())));
            o.put(ev("read").n("c", st.reads() + st.writes()).s("r", r));
            if n > 0 {
                for i in [0, n - 1, n / 2, rng.below(n), rng.below(n)] {
                    st.begin();
                    let r = res(&guard(|| t.prove(i)));
                    o.put(ev("read").n("c", st.reads() + st.writes()).s("r", r));
                }
            }
            st.begin();
            let q = st.clone();
            let l = guard(|| binary::Tree::load(q, n));
            o.put(ev("load").n("k", n).n("c", st.reads() + st.writes()).s("r", res(&l)));
            if let (1, Ok(Ok(x))) = (round, l) {
                t = x;
            }
            st.begin();
            let r = res(&guard(|| t.push(&[round])));
            o.put(ev("push").n("c", st.reads() + st.writes()).s("r", r));
            n += 1;
        }
        // earlier counts, without going back to them
        let k = rng.below(n + 1);
        st.begin();
        let q = st.clone();
        let r = res(&guard(|| binary::Tree::load(q, k)));
        o.put(ev("load").n("k", k).n("c", st.reads() + st.writes()).s("r", r));
        st.begin();
        let q = st.clone();
        let r = res(&guard(|| binary::Tree::load(q, n)));
        o.put(ev("load").n("k", n).n("c", st.reads() + st.writes()).s("r", r));
    }
}

fn sum_case(c: &mut Ctx, stops: &[u64]) {
    c.out.case("Trace_Cost", &format!("sum, at {:?}", stops));
    let o = &mut c.out;
    let st = sum::St::new();
    let mut t = sum::Tree::new(st.clone());
    let mut n = 0u64;
    for s in stops {
        let m = s.saturating_sub(n);
        let r = res(&guard(|| (0..m).try_for_each(|x| t.push(x, &x.to_be_bytes()))));
        o.put(ev("skip").n("m", m).s("r", r));
        n += m;
        for round in 0..3 {
            st.begin();
            let r = res(&guard(|| t.root()));
            o.put(ev("read").n("c", st.reads() + st.writes()).s("r", r));
            st.begin();
            let r = res(&guard(|| t.push(round, &[])));
            o.put(ev("push").n("c", st.reads() + st.writes()).s("r", r));
            n += 1;
        }
    }
}

fn sparse_case(c: &mut Ctx, rng: &mut Rng, bulk: usize, ops: u64) {
    c.out.case("Trace_Cost", &format!("sparse, {} keys and {} operations", bulk, ops));
    c.out.weigh(bulk as u64 / 10);
    let o = &mut c.out;
    let st = sparse::St::new();
    let mut t = sparse::Tree::new(st.clone());
    let many: Vec<B32> = (0..bulk).map(|_| rng.b32()).collect();
    let r = res(&guard(|| many.iter().try_for_each(|k| t.update(k, &[1]))));
    let ks: Vec<String> = many.iter().map(|k| hex(k)).collect();
    o.put(ev("smany").raw("ks", &strs(&ks)).s("r", r));
    let mut keys = sparse::universe(rng, 12);
    for _ in 0..4.min(bulk) {
        keys.push(*rng.pick(&many));
    }
    for x in 0..ops {
        let k = *rng.pick(&keys);
        st.begin();
        if rng.chance(1, 3) {
            let r = if rng.chance(1, 2) { res(&guard(|| t.delete(&k))) } else { res(&guard(|| t.update(&k, &[]))) };
            o.put(ev("sdelete").s("k", &hex(&k)).n("c", st.reads() + st.writes()).s("r", r));
        } else {
            let r = res(&guard(|| t.update(&k, &x.to_be_bytes())));
            o.put(ev("supdate").s("k", &hex(&k)).n("c", st.reads() + st.writes()).s("r", r));
        }
        if rng.chance(1, 4) {
            st.begin();
            let root = guard(|| t.root());
            o.put(ev("sread").n("c", st.reads() + st.writes()).s("r", if root.is_ok() { "ok" } else { "panic" }));
            st.begin();
            let q = st.clone();
            let l = guard(|| sparse::Tree::load(q, &root.unwrap_or([0; 32])));
            o.put(ev("sread").n("c", st.reads() + st.writes()).s("r", res(&l)));
            if let Ok(Ok(l)) = l {
                t = l;
            }
        }
    }
}

pub fn q01(c: &mut Ctx) {
    let mut rng = c.rng("Q01");
    let all: Vec<u64> = (0..40).collect();
    binary_case(c, &mut rng, &all);
    sum_case(c, &all);
    let mut stops: Vec<u64> = vec![];
    for p in 6..if c.deep { 20 } else { 16 } {
        stops.extend([(1 << p) - 4, (1 << p) - 1, (1 << p) + (1 << (p - 1))]);
    }
    binary_case(c, &mut rng, &stops);
    sum_case(c, &stops);
    for _ in 0..c.size(4, 20) {
        let mut s: Vec<u64> = (0..6).map(|_| rng.below(3000)).collect();
        s.sort();
        binary_case(c, &mut rng, &s);
        sum_case(c, &s);
    }
    for x in 0..c.size(24, 200) {
        let bulk = match x % 4 {
            0 => rng.below(1500),
            1 => rng.below(60),
            _ => 0,
        };
        sparse_case(c, &mut rng, bulk as usize, 60);
    }
}
