//! The reference verifier, on genuine and forged proofs.
use crate::util::*;
use crate::Ctx;
use fuel_merkle_test_helpers::binary::verify;
use std::collections::BTreeMap;

// Inputs are made with these; verdicts do not depend on them.
pub fn leaf(d: &[u8]) -> B32 {
    sha(&[&[0], d])
}
pub fn node(a: &B32, b: &B32) -> B32 {
    sha(&[&[1], a, b])
}
pub fn split(n: u64) -> u64 {
    let p = 1u64 << (63 - n.leading_zeros());
    if p == n {
        n / 2
    } else {
        p
    }
}
pub fn mth(l: &[B32]) -> B32 {
    match l.len() {
        0 => sha(&[]),
        1 => l[0],
        n => {
            let k = split(n as u64) as usize;
            node(&mth(&l[..k]), &mth(&l[k..]))
        }
    }
}
pub fn path(i: u64, l: &[B32]) -> Vec<B32> {
    if l.len() == 1 {
        return vec![l[0]];
    }
    let k = split(l.len() as u64);
    let (a, b) = l.split_at(k as usize);
    if i < k {
        let mut p = path(i, a);
        p.push(mth(b));
        p
    } else {
        let mut p = path(i - k, b);
        p.push(mth(a));
        p
    }
}

pub fn leaves(rng: &mut Rng, n: u64) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    let style = rng.below(5);
    for x in 0..n {
        v.push(match style {
            0 => rng.bytes(32),
            1 => vec![x as u8],
            _ => data(rng, &v),
        });
    }
    v
}

fn call(root: &B32, set: &Vec<B32>, i: u64, n: u64) -> &'static str {
    match guard(|| verify(root, set, i, n)) {
        Err(()) => "panic",
        Ok(true) => "true",
        Ok(false) => "false",
    }
}

fn flip(rng: &mut Rng, x: &B32) -> B32 {
    let mut y = *x;
    y[rng.below(32) as usize] ^= 1 << rng.below(8);
    y
}

/// A forged (or genuine) proof: first element's data, if a leaf, the set and the root.
pub struct Forgery {
    pub d: Option<Vec<u8>>,
    pub set: Vec<B32>,
    pub i: u64,
    pub root: B32,
}

pub fn forgeries(rng: &mut Rng, ds: &[Vec<u8>], l: &[B32], i: u64, root: &B32, p: &[B32]) -> Vec<Forgery> {
    let n = l.len() as u64;
    let d = &ds[i as usize];
    let mut v: Vec<Forgery> = vec![];
    let mut add = |d: Option<&Vec<u8>>, set: Vec<B32>, i: u64, root: B32| v.push(Forgery { d: d.cloned(), set, i, root });
    add(Some(d), p.to_vec(), i, *root);
    // siblings changed, removed, repeated, swapped
    for j in 0..p.len() {
        let d0 = if j == 0 { None } else { Some(d) };
        let mut s = p.to_vec();
        s[j] = flip(rng, &s[j]);
        add(d0, s, i, *root);
        let mut s = p.to_vec();
        s.remove(j);
        add(if j == 0 { None } else { Some(d) }, s, i, *root);
        let mut s = p.to_vec();
        s.insert(j + 1, p[j]);
        add(Some(d), s, i, *root);
        let mut s = p.to_vec();
        s.insert(j + 1, rng.b32());
        add(Some(d), s, i, *root);
        if j + 1 < p.len() {
            let mut s = p.to_vec();
            s.swap(j, j + 1);
            add(d0, s, i, *root);
            // two siblings hashed into one
            if j > 0 {
                let mut s = p.to_vec();
                s[j] = node(&p[j], &p[j + 1]);
                s.remove(j + 1);
                add(Some(d), s, i, *root);
            }
        }
        // the path cut above the leaf
        if j > 0 {
            add(None, p[j..].to_vec(), i, *root);
            add(Some(d), p[..j].to_vec(), i, *root);
        }
    }
    let mut s = p.to_vec();
    s[1..].reverse();
    add(Some(d), s, i, *root);
    let mut s = p.to_vec();
    rng.shuffle(&mut s[1..]);
    add(Some(d), s, i, *root);
    // extra elements
    for x in [*root, l[0], rng.b32(), [0; 32], p[p.len() - 1]] {
        let mut s = p.to_vec();
        s.push(x);
        add(Some(d), s, i, *root);
    }
    for k in [2u64, 60, 70, 130] {
        let mut s = p.to_vec();
        for _ in 0..k {
            s.push(rng.b32());
        }
        add(Some(d), s, i, *root);
    }
    // another leaf
    let e = data(rng, ds);
    let mut s = p.to_vec();
    s[0] = leaf(&e);
    add(Some(&e), s, i, *root);
    let k = rng.below(n) as usize;
    let mut s = p.to_vec();
    s[0] = l[k];
    add(Some(&ds[k]), s, i, *root);
    // data that is the concatenation of a node's children
    if n > 1 {
        let mut e = vec![];
        e.extend_from_slice(&l[0]);
        e.extend_from_slice(&l[1]);
        add(Some(&e), vec![leaf(&e)], i, *root);
        let mut s = vec![leaf(&e)];
        s.extend_from_slice(&p[1..]);
        add(Some(&e), s, i, *root);
    }
    // other roots
    let r = flip(rng, root);
    add(Some(d), p.to_vec(), i, r);
    add(Some(d), p.to_vec(), i, [0; 32]);
    add(Some(d), p.to_vec(), i, sha(&[]));
    // nothing at all
    add(None, vec![], i, *root);
    add(None, vec![], 0, *root);
    // the same proof for other leaves, and other leaves' proofs for this one
    let others: Vec<u64> = if n <= 12 { (0..n).collect() } else { (0..6).map(|_| rng.below(n)).collect() };
    for k in others {
        if k != i {
            add(Some(d), p.to_vec(), k, *root);
            add(Some(&ds[k as usize]), path(k, l), i, *root);
        }
    }
    for k in [n, n + 1, i + n, 2 * n - 1 + i, 1 << 32, u64::MAX, u64::MAX - 1, 1 << 62] {
        if k >= n {
            add(Some(d), p.to_vec(), k, *root);
        }
    }
    v
}

fn judged(c: &mut Ctx, f: &Forgery, n: u64) {
    let r = call(&f.root, &f.set, f.i, n);
    c.out.put(
        ev("verify").s("root", &hex(&f.root)).list("set", &f.set).n("i", clip(f.i)).b("leaf", f.d.is_some())
            .s("d", &hex(f.d.as_deref().unwrap_or(&[]))).s("r", r),
    );
}

pub fn pushn(c: &mut Ctx, ds: &[Vec<u8>]) {
    let xs: Vec<String> = ds.iter().map(|d| hex(d)).collect();
    c.out.put(ev("pushn").raw("ds", &strs(&xs)).s("r", "ok"));
}

fn index(h: u32, j: u64) -> u64 {
    (j << (h + 1)) + (1u64 << h) - 1
}

fn wide(c: &mut Ctx, rng: &mut Rng, n: u64, i: u64) {
    c.out.case_quiet("Trace_Wide");
    let d = data(rng, &[]);
    let mut m: BTreeMap<u64, B32> = BTreeMap::new();
    // peaks, with the path of leaf i in one of them
    let (mut lo, mut left) = (0u64, n);
    let mut set = vec![];
    let mut peaks: Vec<(bool, B32)> = vec![];
    while left > 0 {
        let h = 63 - left.leading_zeros();
        let mut dig = rng.b32();
        let here = i >= lo && i - lo < (1u64 << h);
        if here {
            dig = leaf(&d);
            set.push(dig);
            for g in 0..h {
                let p = i >> g;
                m.insert(index(g, p), dig);
                let sib = rng.b32();
                m.insert(index(g, p ^ 1), sib);
                set.push(sib);
                dig = if p & 1 == 0 { node(&dig, &sib) } else { node(&sib, &dig) };
            }
        }
        m.insert(index(h, lo >> h), dig);
        peaks.push((here, dig));
        lo += 1u64 << h;
        left -= 1u64 << h;
    }
    // fold the peaks from the right
    let k = peaks.iter().position(|p| p.0).unwrap();
    let mut root = peaks[peaks.len() - 1].1;
    for x in (0..peaks.len() - 1).rev() {
        if x == k {
            set.push(root);
        }
        if x < k {
            set.push(peaks[x].1);
        }
        root = node(&peaks[x].1, &root);
    }
    let nodes: Vec<String> = m.iter().map(|(k, v)| format!("[\"{}\",\"{}\"]", h64(*k), hex(v))).collect();
    c.out.put(ev("seed").s("n", &h64(n)).raw("nodes", &format!("[{}]", nodes.join(","))));
    c.out.put(ev("load").s("n", &h64(n)).b("f", false).s("r", "ok").s("e", ""));
    let mut tries: Vec<(B32, Vec<B32>, u64)> = vec![(root, set.clone(), i)];
    for _ in 0..6 {
        let mut s = set.clone();
        match rng.below(6) {
            0 => {
                let j = rng.below(s.len() as u64 - 1) as usize + 1;
                s[j] = flip(rng, &s[j]);
            }
            1 => {
                let j = rng.below(s.len() as u64 - 1) as usize + 1;
                s.remove(j);
            }
            2 => {
                let j = rng.below(s.len() as u64) as usize + 1;
                s.insert(j, rng.b32());
            }
            3 => s.push(rng.b32()),
            4 => {
                s.pop();
            }
            _ => rng.shuffle(&mut s[1..]),
        }
        if s[0] == set[0] {
            tries.push((root, s, i));
        }
    }
    for _ in 0..3 {
        let k = match rng.below(6) {
            0 => i ^ 1,
            1 => i ^ (1u64 << rng.below(62)),
            2 => n - 1,
            3 => 0,
            4 => n + rng.below(u64::MAX - n),
            _ => n,
        };
        tries.push((root, set.clone(), k));
    }
    tries.push((flip(rng, &root), set.clone(), i));
    for (r, s, k) in tries {
        let v = call(&r, &s, k, n);
        c.out.put(ev("verify").s("root", &hex(&r)).list("set", &s).s("i", &h64(k)).s("d", &hex(&d)).s("r", v));
    }
}

pub fn wide_pair(rng: &mut Rng) -> (u64, u64) {
    let top = 1u64 << 62;
    let n = match rng.below(6) {
        0 => 1u64 << rng.range(10, 62),
        1 => (1u64 << rng.range(10, 62)) - 1 - rng.below(3),
        2 => (1u64 << rng.range(10, 61)) + 1 + rng.below(3),
        3 => {
            let a = 1u64 << rng.range(10, 60);
            a + (1 << rng.below(a.trailing_zeros() as u64))
        }
        4 => top - rng.next() % (1u64 << rng.below(40)),
        _ => (rng.next() >> rng.range(2, 50)).max(2),
    };
    let p = 1u64 << (63 - n.leading_zeros());
    let i = match rng.below(6) {
        0 => n - 1 - rng.below(4.min(n)),
        1 => rng.below(4.min(n)),
        2 => p.min(n - 1),
        3 => p - 1,
        4 => (p + rng.below(n - p + 1)).min(n - 1),
        _ => rng.below(n),
    };
    (n, i)
}

pub fn v01(c: &mut Ctx) {
    let mut rng = c.rng("V01");
    let top = c.size(17, 40);
    for n in 1..=top {
        let ds = leaves(&mut rng, n);
        let l: Vec<B32> = ds.iter().map(|d| leaf(d)).collect();
        let root = mth(&l);
        for i in 0..n {
            if i % 6 == 0 {
                c.out.case("Trace_Binary", &format!("verify proofs and forgeries, {} leaves, from index {}", n, i));
                pushn(c, &ds);
            }
            let p = path(i, &l);
            for f in forgeries(&mut rng, &ds, &l, i, &root, &p) {
                judged(c, &f, n);
            }
        }
    }
    // no leaves
    c.out.case("Trace_Binary", "verify against the empty tree");
    for i in [0, 1, u64::MAX] {
        for root in [sha(&[]), [0; 32], leaf(&[])] {
            for set in [vec![], vec![leaf(&[])], vec![sha(&[])], vec![[0; 32]]] {
                let d = if set == vec![leaf(&[])] { Some(vec![]) } else { None };
                judged(c, &Forgery { d, set, i, root }, 0);
            }
        }
    }
    for _ in 0..c.size(25, 200) {
        let n = rng.range(18, c.size(130, 600));
        let ds = leaves(&mut rng, n);
        let l: Vec<B32> = ds.iter().map(|d| leaf(d)).collect();
        let root = mth(&l);
        c.out.case("Trace_Binary", &format!("verify proofs and forgeries, {} leaves", n));
        pushn(c, &ds);
        for x in 0..3 {
            let i = match x {
                0 => n - 1,
                1 => split(n).min(n - 1),
                _ => rng.below(n),
            };
            let p = path(i, &l);
            for f in forgeries(&mut rng, &ds, &l, i, &root, &p) {
                judged(c, &f, n);
            }
        }
    }
    for k in 40..63u32 {
        wide(c, &mut rng, 1 << k, 0);
        let n = (1u64 << k) - 1;
        wide(c, &mut rng, n, n - 1);
    }
    for _ in 0..c.size(400, 6000) {
        let (n, i) = wide_pair(&mut rng);
        wide(c, &mut rng, n, i);
    }
}
