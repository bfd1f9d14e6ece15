//! The reference tree, next to the main implementation.
use crate::util::*;
use crate::verify::{leaves, pushn};
use crate::Ctx;
use fuel_merkle::binary::in_memory;
use fuel_merkle_test_helpers::binary::MerkleTree;

fn prove(c: &mut Ctx, ds: &[Vec<u8>], i: Option<u64>, probe: bool) {
    // root and count may be asked for in between
    let r = guard(|| {
        let mut t = MerkleTree::new();
        if let Some(i) = i {
            t.set_proof_index(i);
        }
        for d in ds {
            t.push(d);
            if probe {
                let _ = t.root();
                let _ = t.leaves_count();
            }
        }
        t.prove()
    });
    let (r, root, set) = match r {
        Err(()) => ("panic", String::new(), vec![]),
        Ok((root, set)) => ("ok", hex(&root), set),
    };
    // without a chosen index, it is 0
    c.out.put(ev("refprove").n("i", clip(i.unwrap_or(0))).s("r", r).s("root", &root).list("set", &set));
}

fn root(c: &mut Ctx, f: impl FnOnce() -> B32) {
    let (r, v) = match guard(f) {
        Err(()) => ("panic", String::new()),
        Ok(v) => ("ok", hex(&v)),
    };
    c.out.put(ev("root").s("r", r).s("v", &v));
}

fn main_tree(c: &mut Ctx, ds: &[Vec<u8>], is: &[u64]) {
    let t = guard(|| {
        let mut t = in_memory::MerkleTree::new();
        for d in ds {
            t.push(d);
        }
        t
    });
    let Ok(mut t) = t else {
        c.out.put(ev("root").s("r", "panic").s("v", ""));
        return;
    };
    root(c, || t.root());
    for i in is {
        let (r, root, set, e) = match guard(|| t.prove(*i)) {
            Err(()) => ("panic", String::new(), vec![], 0),
            Ok(Some((root, set))) => ("ok", hex(&root), set, 0),
            Ok(None) => ("oor", String::new(), vec![], *i),
        };
        c.out.put(
            ev("prove").n("i", clip(*i)).s("ih", &h64(*i)).b("f", false).s("r", r).s("root", &root).list("set", &set).s("e", &h64(e)),
        );
    }
}

fn growing(c: &mut Ctx, ds: &[Vec<u8>], i: u64) {
    c.out.case("Trace_Binary", &format!("reference tree, {} leaves, observed after each push", ds.len()));
    let mut t = MerkleTree::new();
    t.set_proof_index(i);
    root(c, || t.root());
    c.out.put(ev("count").s("r", "ok").n("n", clip(t.leaves_count())));
    for d in ds {
        let r = if guard(|| t.push(d)).is_ok() { "ok" } else { "panic" };
        c.out.put(ev("push").s("d", &hex(d)).b("f", false).s("r", r));
        if r != "ok" {
            return;
        }
        root(c, || t.root());
        let n = guard(|| t.leaves_count());
        c.out.put(ev("count").s("r", if n.is_ok() { "ok" } else { "panic" }).n("n", clip(n.unwrap_or(0))));
    }
    let (r, root, set) = match guard(|| t.prove()) {
        Err(()) => ("panic", String::new(), vec![]),
        Ok((root, set)) => ("ok", hex(&root), set),
    };
    c.out.put(ev("refprove").n("i", clip(i)).s("r", r).s("root", &root).list("set", &set));
}

pub fn v02(c: &mut Ctx) {
    let mut rng = c.rng("V02");
    for n in 0..=c.size(34, 70) {
        let ds = leaves(&mut rng, n);
        c.out.case("Trace_Binary", &format!("reference tree, {} leaves, every index", n));
        pushn(c, &ds);
        for i in 0..=n + 2 {
            prove(c, &ds, Some(i), i % 3 == 0);
        }
        for i in [2 * n + 1, 4 * n, 64, 128, 1 << 32, (1 << 32) + 1, u64::MAX] {
            prove(c, &ds, Some(i.max(n)), false);
        }
        prove(c, &ds, None, false);
        let is: Vec<u64> = (0..=n).collect();
        main_tree(c, &ds, &is);
        growing(c, &ds, rng.clone().below(n + 2));
        rng.next();
    }
    for _ in 0..c.size(24, 200) {
        let n = match rng.below(3) {
            0 => (1u64 << rng.range(5, 9)) + rng.below(3) - 1,
            _ => rng.range(35, c.size(400, 1500)),
        };
        let ds = leaves(&mut rng, n);
        c.out.case("Trace_Binary", &format!("reference tree, {} leaves", n));
        pushn(c, &ds);
        let mut is: Vec<u64> = vec![0, n - 1, n / 2, n];
        for _ in 0..4 {
            is.push(rng.below(n));
        }
        let p = 1u64 << (63 - n.leading_zeros());
        is.push(p.min(n - 1));
        is.push(p - 1);
        for i in &is {
            prove(c, &ds, Some(*i), false);
        }
        main_tree(c, &ds, &is[..3]);
    }
}
