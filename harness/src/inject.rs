//! Different contents, different roots: H01.
use crate::util::*;
use crate::Ctx;
use fuel_merkle::binary::in_memory as bmem;
use fuel_merkle::sparse::in_memory as smem;
use fuel_merkle::sum;
use std::collections::BTreeMap;

/// A name of a content: written out, or by its digest if long.
fn name(n: usize, written: String) -> String {
    if written.len() <= 4096 {
        format!("{}:{}", n, written)
    } else {
        format!("{}#{}", n, hex(&sha(&[written.as_bytes()])))
    }
}

fn seen(c: &mut Ctx, content: String, root: Result<B32, ()>) {
    let (r, v) = match root {
        Ok(v) => ("ok", hex(&v)),
        Err(()) => ("panic", String::new()),
    };
    c.out.put(ev("seen").s("c", &content).s("root", &v).s("r", r));
}

fn bin(c: &mut Ctx, ls: &[Vec<u8>]) {
    let xs: Vec<String> = ls.iter().map(|d| hex(d)).collect();
    let root = guard(|| {
        let mut t = bmem::MerkleTree::new();
        for d in ls {
            t.push(d);
        }
        t.root()
    });
    seen(c, name(ls.len(), xs.join("/")), root);
}

fn spa(c: &mut Ctx, m: &BTreeMap<B32, Vec<u8>>) {
    let xs: Vec<String> = m.iter().map(|(k, d)| format!("{}={}", hex(k), hex(d))).collect();
    let root = guard(|| {
        let mut t = smem::MerkleTree::new();
        for (k, d) in m {
            t.update(k, d);
        }
        t.root()
    });
    seen(c, name(m.len(), xs.join("/")), root);
}

fn fee(c: &mut Ctx, ls: &[(u64, Vec<u8>)]) {
    let xs: Vec<String> = ls.iter().map(|(f, d)| format!("{}+{}", f, hex(d))).collect();
    let root = guard(|| {
        let st = crate::sum::St::new();
        let mut t: sum::MerkleTree<crate::sum::FTable, _> = sum::MerkleTree::new(st);
        for (f, d) in ls {
            t.push(*f, d).unwrap();
        }
        let (f, d) = t.root().unwrap();
        (f, d)
    });
    // the root of a sum tree is the pair
    let (r, v) = match root {
        Ok((f, d)) => ("ok", format!("{}{}", h64(f), hex(&d))),
        Err(()) => ("panic", String::new()),
    };
    c.out.put(ev("seen").s("c", &name(ls.len(), xs.join("/"))).s("root", &v).s("r", r));
}

/// What the code makes of a leaf, or of two: how digests look to somebody who
/// crafts data that is to be mistaken for a node.
fn leaf(d: &[u8]) -> B32 {
    let d = d.to_vec();
    guard(move || {
        let mut t = bmem::MerkleTree::new();
        t.push(&d);
        t.root()
    })
    .unwrap_or([0; 32])
}
fn node(a: &[u8], b: &[u8]) -> B32 {
    let (a, b) = (a.to_vec(), b.to_vec());
    guard(move || {
        let mut t = bmem::MerkleTree::new();
        t.push(&a);
        t.push(&b);
        t.root()
    })
    .unwrap_or([0; 32])
}
fn sleaf(f: u64, d: &[u8]) -> B32 {
    let d = d.to_vec();
    guard(move || {
        let mut t: sum::MerkleTree<crate::sum::FTable, _> = sum::MerkleTree::new(crate::sum::St::new());
        t.push(f, &d).unwrap();
        t.root().unwrap().1
    })
    .unwrap_or([0; 32])
}
fn entry(k: &B32, d: &[u8]) -> B32 {
    let d = d.to_vec();
    guard(|| {
        let mut t = smem::MerkleTree::new();
        t.update(k, &d);
        t.root()
    })
    .unwrap_or([0; 32])
}
fn cat(parts: &[&[u8]]) -> Vec<u8> {
    parts.concat()
}

/// Variants of a list of leaves that a careless hash could confuse with it.
fn lookalikes(rng: &mut Rng, ls: &[Vec<u8>]) -> Vec<Vec<Vec<u8>>> {
    let n = ls.len();
    let mut v: Vec<Vec<Vec<u8>>> = vec![ls.to_vec()];
    let mut add = |x: Vec<Vec<u8>>| v.push(x);
    if n >= 1 {
        // one more, one less, repeated
        add(ls[..n - 1].to_vec());
        add(ls[1..].to_vec());
        add([ls, &ls[n - 1..]].concat());
        add([&ls[..1], ls].concat());
        add([ls, &[vec![]]].concat());
        add([&[vec![]][..], ls].concat());
        // rotated, reversed
        add([&ls[1..], &ls[..1]].concat());
        let mut x = ls.to_vec();
        x.reverse();
        add(x);
        let p = rng.below(n as u64) as usize;
        // extended and shortened data
        for extra in [0u8, 1, 0x80] {
            let mut x = ls.to_vec();
            x[p].push(extra);
            add(x);
            let mut x = ls.to_vec();
            x[p].insert(0, extra);
            add(x);
        }
        let mut x = ls.to_vec();
        x[p].pop();
        add(x);
        // a leaf replaced by its digest
        let mut x = ls.to_vec();
        x[p] = leaf(&ls[p]).to_vec();
        add(x);
        let mut x = ls.to_vec();
        x[p] = cat(&[&[0], &ls[p]]);
        add(x);
    }
    if n >= 2 {
        let p = rng.below(n as u64 - 1) as usize;
        let (a, b) = (leaf(&ls[p]), leaf(&ls[p + 1]));
        // two leaves replaced by something that looks like their parent
        for d in [
            cat(&[&a, &b]),
            cat(&[&[1], &a, &b]),
            cat(&[&[0], &a, &b]),
            node(&ls[p], &ls[p + 1]).to_vec(),
            cat(&[&ls[p], &ls[p + 1]]),
            cat(&[&[1], &ls[p], &ls[p + 1]]),
        ] {
            let mut x = ls[..p].to_vec();
            x.push(d);
            x.extend_from_slice(&ls[p + 2..]);
            add(x);
        }
        // bytes moved across the border
        let mut x = ls.to_vec();
        if let Some(b) = x[p].pop() {
            x[p + 1].insert(0, b);
            add(x);
        }
        let mut x = ls.to_vec();
        x.swap(p, p + 1);
        add(x);
    }
    if n >= 4 {
        // halves swapped, and the tree of subtree roots
        let h = n / 2;
        add([&ls[h..], &ls[..h]].concat());
        let x: Vec<Vec<u8>> = ls.chunks(2).map(|c| if c.len() == 2 { cat(&[&leaf(&c[0]), &leaf(&c[1])]) } else { c[0].clone() }).collect();
        add(x);
        let x: Vec<Vec<u8>> = ls.chunks(2).map(|c| if c.len() == 2 { cat(&[&[1], &leaf(&c[0]), &leaf(&c[1])]) } else { c[0].clone() }).collect();
        add(x);
    }
    v
}

/// Variants of long data.
fn long(rng: &mut Rng, len: usize, k: usize) -> Vec<Vec<u8>> {
    let d = rng.bytes(len);
    let mut at = vec![0, 1, len / 2, len - 1, len - 2, len / 3];
    for p in [55, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536] {
        if p < len {
            at.extend([p - 1, p, len / p * p - 1, (len / p * p).min(len - 1), len - p]);
        }
    }
    rng.shuffle(&mut at);
    at.truncate(k);
    at.push(len - 1);
    at.push(rng.below(len as u64) as usize);
    let mut v = vec![d.clone()];
    for p in at {
        let mut x = d.clone();
        x[p] ^= 1 << rng.below(8);
        v.push(x);
        if rng.chance(1, 4) {
            v.push(d[..p].to_vec());
            v.push(d[p..].to_vec());
        }
    }
    for b in [0u8, 1, 0x80] {
        let mut x = d.clone();
        x.push(b);
        v.push(x);
    }
    v.push([&d[..], &d[..]].concat());
    v
}

fn longs(c: &mut Ctx, rng: &mut Rng) {
    let mut ls = lengths(rng, c.deep);
    ls.truncate(c.size(30, 1000) as usize);
    for (x, len) in ls.into_iter().enumerate() {
        if len > 40000 && !c.deep && x > 12 {
            continue;
        }
        c.out.case("Trace_Inject", &format!("data of about {} bytes", len));
        let v = long(rng, len, c.size(8, 40) as usize);
        let k = rng.b32();
        let f = rng.next() >> 8;
        match if c.deep { 3 } else { x % 3 } {
            0 => v.iter().for_each(|d| bin(c, &[d.clone()])),
            1 => v.iter().for_each(|d| spa(c, &BTreeMap::from([(k, d.clone())]))),
            2 => v.iter().for_each(|d| fee(c, &[(f, d.clone())])),
            _ => {
                v.iter().for_each(|d| bin(c, &[d.clone()]));
                c.out.put(ev("new"));
                v.iter().for_each(|d| spa(c, &BTreeMap::from([(k, d.clone())])));
                c.out.put(ev("new"));
                v.iter().for_each(|d| fee(c, &[(f, d.clone())]));
            }
        }
    }
}

/// Many leaves, changed in few places.
fn manys(c: &mut Ctx, rng: &mut Rng) {
    let mut ns = vec![];
    for p in 5..c.size(11, 14) {
        let b = 1u64 << p;
        ns.extend([b - 1, b, b + 1, b + rng.below(b)]);
    }
    for n in ns {
        c.out.case("Trace_Inject", &format!("{} leaves", n));
        let ls: Vec<Vec<u8>> = (0..n).map(|_| data(rng, &[])).collect();
        let mut at = vec![0, n - 1, n / 2, n / 2 - 1, rng.below(n), rng.below(n)];
        for p in [32, 64, 128, 256, 512, 1024] {
            if p < n {
                at.extend([p - 1, p, n - p]);
            }
        }
        rng.shuffle(&mut at);
        at.truncate(c.size(6, 20) as usize);
        let fees: Vec<u64> = (0..n).map(|_| rng.next() >> rng.range(16, 63)).collect();
        let keys: Vec<B32> = (0..n).map(|_| rng.b32()).collect();
        let kind = rng.below(3);
        let put = |c: &mut Ctx, x: &[Vec<u8>]| match kind {
            0 => bin(c, x),
            1 => fee(c, &fees.iter().cloned().zip(x.iter().cloned()).collect::<Vec<_>>()),
            _ => spa(c, &keys.iter().cloned().zip(x.iter().map(|d| if d.is_empty() { vec![0] } else { d.clone() })).collect()),
        };
        put(c, &ls);
        for p in at {
            let p = p as usize;
            let mut x = ls.clone();
            x[p].push(1);
            put(c, &x);
            let mut x = ls.clone();
            let q = rng.below(n) as usize;
            x.swap(p, q);
            put(c, &x);
            put(c, &ls[..p]);
            if kind == 0 {
                let mut x = ls.clone();
                x.remove(p);
                put(c, &x);
                x.push(ls[p].clone());
                put(c, &x);
            }
        }
    }
}

pub fn h01(c: &mut Ctx) {
    let mut rng = c.rng("H01");
    longs(c, &mut rng);
    manys(c, &mut rng);
    // all short lists over small alphabets
    c.out.case("Trace_Inject", "binary, all short lists");
    let alphabet: Vec<Vec<u8>> = vec![vec![], vec![0], vec![1], vec![0, 0]];
    let mut lists: Vec<Vec<Vec<u8>>> = vec![vec![]];
    for _ in 0..c.size(4, 5) {
        for l in lists.clone() {
            for a in &alphabet {
                let mut x = l.clone();
                x.push(a.clone());
                if !lists.contains(&x) {
                    lists.push(x);
                }
            }
        }
    }
    for l in &lists {
        bin(c, l);
    }
    // the same leaf over and over: only the count differs
    for d in [vec![], vec![0u8], vec![7; 32], vec![1; 65]] {
        c.out.case("Trace_Inject", "binary, one leaf repeated");
        for n in 0..c.size(70, 300) {
            bin(c, &vec![d.clone(); n as usize]);
        }
    }
    for _ in 0..c.size(40, 600) {
        c.out.case("Trace_Inject", "binary, look-alikes");
        let n = rng.range(0, 17);
        let ls = crate::binary::leaves(&mut rng, n);
        for x in lookalikes(&mut rng, &ls) {
            bin(c, &x);
        }
    }
    // a leaf that spells out two digests, were nodes not marked as such
    c.out.case("Trace_Inject", "binary, digests beginning with a leaf's mark");
    for x in 0..8u8 {
        let b = [rng.b32().to_vec(), data(&mut rng, &[])][x as usize % 2].clone();
        let mut a = vec![x, 0, 0];
        for _ in 0..5000 {
            if leaf(&a)[0] == 0 {
                break;
            }
            a[1] = a[1].wrapping_add(1);
            a[2] = a[2].wrapping_add((a[1] == 0) as u8);
        }
        let (la, lb) = (leaf(&a), leaf(&b));
        bin(c, &[a.clone(), b.clone()]);
        bin(c, &[cat(&[&la[1..], &lb])]);
        bin(c, &[cat(&[&la, &lb])]);
        // as a subtree
        bin(c, &[a.clone(), b.clone(), a.clone()]);
        bin(c, &[cat(&[&la[1..], &lb]), a]);
    }
    // sum trees
    c.out.case("Trace_Inject", "sum, nodes spelled out");
    for x in 0..8u64 {
        let (a, b) = (data(&mut rng, &[]), data(&mut rng, &[]));
        let f = if x % 2 == 0 { x } else { rng.next() >> 20 };
        // fees such that the totals agree as well
        let la = sleaf(f, &a);
        let g = (f << 8 | la[0] as u64) - f;
        let lb = sleaf(g, &b);
        fee(c, &[(f, a.clone()), (g, b.clone())]);
        fee(c, &[(f + g, cat(&[&la[1..], &g.to_be_bytes(), &lb]))]);
        let la = sleaf(x, &a);
        let g = (1 << 56) - x;
        let lb = sleaf(g, &b);
        fee(c, &[(x, a.clone()), (g, b.clone())]);
        fee(c, &[(1 << 56, cat(&[&[x as u8], &la, &g.to_be_bytes(), &lb]))]);
        let la = sleaf(f, &a);
        let lb = sleaf(0, &b);
        fee(c, &[(f, a.clone()), (0, b.clone())]);
        fee(c, &[(f, cat(&[&la, &[0; 8], &lb]))]);
        let la = sleaf(0, &a);
        let lb = sleaf(f, &b);
        fee(c, &[(0, a.clone()), (f, b.clone())]);
        fee(c, &[(f, cat(&[&la, &lb]))]);
        fee(c, &[(f, cat(&[&[0; 8], &la, &f.to_be_bytes(), &lb]))]);
    }
    c.out.case("Trace_Inject", "sum, all short lists");
    let mut lists: Vec<Vec<(u64, Vec<u8>)>> = vec![vec![]];
    let items: Vec<(u64, Vec<u8>)> = vec![(0, vec![]), (1, vec![]), (0, vec![0]), (1, vec![0]), (256, vec![])];
    for _ in 0..4 {
        for l in lists.clone() {
            for a in &items {
                let mut x = l.clone();
                x.push(a.clone());
                if x.len() <= 4 && !lists.contains(&x) && lists.len() < 800 {
                    lists.push(x);
                }
            }
        }
    }
    for l in &lists {
        fee(c, l);
    }
    for _ in 0..c.size(40, 600) {
        c.out.case("Trace_Inject", "sum, look-alikes");
        let n = rng.range(1, 17);
        let ds = crate::binary::leaves(&mut rng, n);
        let ls: Vec<(u64, Vec<u8>)> = ds.into_iter().map(|d| (rng.next() >> rng.range(8, 63), d)).collect();
        fee(c, &ls);
        for _ in 0..6 {
            // fees moved between leaves: the total stays
            let mut x = ls.clone();
            let a = rng.below(n) as usize;
            let b = rng.below(n) as usize;
            let m = rng.below(x[a].0.saturating_add(1));
            x[a].0 -= m;
            x[b].0 += m;
            fee(c, &x);
            let mut x = ls.clone();
            x.swap(a, b);
            fee(c, &x);
            // only the fees swapped
            let mut x = ls.clone();
            let f = x[a].0;
            x[a].0 = x[b].0;
            x[b].0 = f;
            fee(c, &x);
        }
        let p = rng.below(n) as usize;
        // bytes of the fee moved into the data
        let mut x = ls.clone();
        let f = x[p].0;
        x[p].1.insert(0, (f & 255) as u8);
        x[p].0 = f >> 8;
        fee(c, &x);
        let mut x = ls.clone();
        x[p].1 = cat(&[&f.to_be_bytes(), &ls[p].1]);
        fee(c, &x);
        fee(c, &ls[..ls.len() - 1]);
        fee(c, &[&ls[..], &[(0, vec![])]].concat());
        fee(c, &[&ls[..], &ls[ls.len() - 1..]].concat());
        if n >= 2 {
            let q = rng.below(n - 1) as usize;
            let la = sleaf(ls[q].0, &ls[q].1);
            let lb = sleaf(ls[q + 1].0, &ls[q + 1].1);
            for d in [
                cat(&[&ls[q].0.to_be_bytes(), &la, &ls[q + 1].0.to_be_bytes(), &lb]),
                cat(&[&[1], &ls[q].0.to_be_bytes(), &la, &ls[q + 1].0.to_be_bytes(), &lb]),
                cat(&[&la, &ls[q + 1].0.to_be_bytes(), &lb]),
            ] {
                for f in [ls[q].0 + ls[q + 1].0, ls[q].0, 0] {
                    let mut x = ls[..q].to_vec();
                    x.push((f, d.clone()));
                    x.extend_from_slice(&ls[q + 2..]);
                    fee(c, &x);
                }
            }
        }
    }
    // sparse trees: a key with any bit flipped
    c.out.case("Trace_Inject", "sparse, one key, any bit");
    let k = rng.b32();
    for b in 0..256usize {
        let mut q = k;
        q[b / 8] ^= 0x80 >> (b % 8);
        spa(c, &BTreeMap::from([(q, vec![1])]));
        spa(c, &BTreeMap::from([(q, vec![1]), (k, vec![2])]));
        spa(c, &BTreeMap::from([(q, vec![2]), (k, vec![1])]));
    }
    // an entry that spells out the node above two others
    c.out.case("Trace_Inject", "sparse, nodes spelled out");
    for _ in 0..8 {
        let (mut k, mut j) = (rng.b32(), rng.b32());
        k[0] &= 0x7f;
        j[0] |= 0x80;
        let (v, w) = ([&[1u8][..], &data(&mut rng, &[])].concat(), [&[2u8][..], &data(&mut rng, &[])].concat());
        spa(c, &BTreeMap::from([(k, v.clone()), (j, w.clone())]));
        let l = entry(&k, &v);
        for mark in [vec![], vec![0u8], vec![1]] {
            spa(c, &BTreeMap::from([(l, cat(&[&mark, &j, &sha(&[&w])]))]));
            spa(c, &BTreeMap::from([(l, cat(&[&mark, &j, &w]))]));
        }
        spa(c, &BTreeMap::from([(l, entry(&j, &w).to_vec())]));
    }
    for _ in 0..c.size(30, 400) {
        c.out.case("Trace_Inject", "sparse, look-alikes");
        let n = rng.range(0, 6) as usize;
        let ks = crate::sparse::universe(&mut rng, n + 2);
        let m: BTreeMap<B32, Vec<u8>> = (0..n).map(|x| (ks[x], [&[1u8][..], &data(&mut rng, &[])].concat())).collect();
        spa(c, &m);
        for k in m.keys().cloned().collect::<Vec<_>>() {
            let mut x = m.clone();
            x.remove(&k);
            spa(c, &x);
            for b in [0usize, 1, 7, 128, 254, 255] {
                let mut y = x.clone();
                let mut q = k;
                q[b / 8] ^= 0x80 >> (b % 8);
                y.insert(q, m[&k].clone());
                spa(c, &y);
            }
            let mut y = m.clone();
            y.get_mut(&k).unwrap().push(0);
            spa(c, &y);
            let mut y = m.clone();
            y.insert(k, sha(&[&m[&k]]).to_vec());
            spa(c, &y);
            // values exchanged
            for k2 in m.keys() {
                let mut y = m.clone();
                y.insert(k, m[k2].clone());
                y.insert(*k2, m[&k].clone());
                spa(c, &y);
                // a node's preimage in a leaf
                let l1 = entry(&k, &m[&k]);
                let l2 = entry(k2, &m[k2]);
                let mut y = m.clone();
                y.remove(k2);
                y.remove(&k);
                y.insert(l1, l2.to_vec());
                spa(c, &y);
            }
        }
        for x in 0..2 {
            let mut y = m.clone();
            y.insert(ks[n + x], vec![1]);
            spa(c, &y);
            y.insert(ks[n + x], vec![1, 0]);
            spa(c, &y);
        }
    }
}
