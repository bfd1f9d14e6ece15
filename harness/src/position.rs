//! Positions and paths: P01, P02.
use crate::util::*;
use crate::Ctx;
use fuel_merkle::common::{AsPathIterator, Node, ParentNode, Position};

fn pos(c: &mut Ctx, p: u64) {
    c.out.case_quiet("Trace_Position");
    type R = (u32, bool, bool, String, String, String, String, String, String);
    let q = Position::from_in_order_index(p);
    let r: Result<R, ()> = guard(|| {
        assert!(Position::from_in_order_index(p).in_order_index() == p);
        let h = q.height();
        let leaf = q.is_leaf();
        // the same through the traits
        assert!(Node::height(&q) == h && Node::is_leaf(&q) == leaf && Node::is_node(&q) == q.is_node());
        let (mut li, mut lc, mut rc) = (String::new(), String::new(), String::new());
        if leaf {
            li = h64(q.leaf_index());
            assert!(Node::leaf_key(&q) == q.leaf_index().to_be_bytes());
        } else {
            lc = h64(q.left_child().in_order_index());
            rc = h64(q.right_child().in_order_index());
            assert!(ParentNode::left_child(&q).ok() == Some(q.left_child()));
            assert!(ParentNode::right_child(&q).ok() == Some(q.right_child()));
        }
        let uncle = if h <= 61 { h64(q.uncle().in_order_index()) } else { String::new() };
        let (mut parent, mut sibling) = (String::new(), String::new());
        if h <= 62 {
            parent = h64(q.parent().in_order_index());
            sibling = h64(q.sibling().in_order_index());
        }
        (h, leaf, q.is_node(), parent, sibling, uncle, li, lc, rc)
    });
    let e = ev("pos").s("p", &h64(p));
    let e = match r {
        Ok((h, leaf, node, parent, sibling, uncle, li, lc, rc)) => e
            .n("h", h as u64)
            .b("leaf", leaf)
            .b("node", node)
            .s("parent", &parent)
            .s("sibling", &sibling)
            .s("uncle", &uncle)
            .s("li", &li)
            .s("lc", &lc)
            .s("rc", &rc)
            .s("r", "ok"),
        Err(()) => e.s("r", "panic"),
    };
    c.out.put(e);
}

fn leafpos(c: &mut Ctx, i: u64) {
    c.out.case_quiet("Trace_Position");
    let e = ev("leafpos").s("i", &h64(i));
    let e = match guard(|| Position::from_leaf_index(i).in_order_index()) {
        Ok(p) => e.s("p", &h64(p)).s("r", "ok"),
        Err(()) => e.s("p", "").s("r", "panic"),
    };
    c.out.put(e);
}

fn index(h: u32, j: u64) -> u64 {
    (j << h << 1) + (1u64 << h) - 1
}

pub fn p01(c: &mut Ctx) {
    let mut rng = c.rng("P01");
    for p in 0..c.size(2048, 40000) {
        pos(c, p);
        leafpos(c, p);
    }
    // every height, extreme and random ordinals
    for h in 0..=63u32 {
        let max = (1u64 << (63 - h)) - 1;
        let mut js = vec![0, 1, max, max.saturating_sub(1), max / 2, max / 2 + 1, max / 3, max / 3 * 2];
        for _ in 0..c.size(24, 400) {
            let s = rng.below(65 - max.leading_zeros() as u64);
            js.push(rng.next() % (max + 1) >> s);
            js.push(max - (rng.next() % (max + 1) >> s));
        }
        for j in js {
            pos(c, index(h, j.min(max)));
        }
    }
    for _ in 0..c.size(2000, 40000) {
        let p = rng.next() >> rng.below(60);
        if p.trailing_ones() <= 63 {
            pos(c, p);
        }
        leafpos(c, rng.next() >> rng.range(1, 62));
    }
    for x in 0..63 {
        for y in 0..3u64 {
            leafpos(c, ((1u64 << x) + y).saturating_sub(1));
        }
    }
}

fn pairs(v: &[(u64, u64)]) -> String {
    let xs: Vec<String> = v.iter().map(|(a, b)| format!("[\"{}\",\"{}\"]", h64(*a), h64(*b))).collect();
    format!("[{}]", xs.join(","))
}

fn path(c: &mut Ctx, root: u64, i: u64, n: u64) {
    c.out.case_quiet("Trace_Position");
    let (r, v) = match guard(|| {
        let leaf = Position::from_leaf_index(i);
        let v: Vec<(u64, u64)> = Position::from_in_order_index(root)
            .path(&leaf, n)
            .iter()
            .take(200)
            .map(|(a, b)| (a.in_order_index(), b.in_order_index()))
            .collect();
        v
    }) {
        Ok(v) => ("ok", v),
        Err(()) => ("panic", vec![]),
    };
    c.out.put(ev("path").s("root", &h64(root)).s("i", &h64(i)).s("n", &h64(n)).raw("out", &pairs(&v)).s("r", r));
}

fn down(c: &mut Ctx, root: u64, i: u64) {
    c.out.case_quiet("Trace_Position");
    let (r, v) = match guard(|| {
        let leaf = Position::from_leaf_index(i);
        let v: Vec<(u64, u64)> = Position::from_in_order_index(root)
            .as_path_iter(&leaf)
            .take(200)
            .map(|(a, b)| (a.ok().unwrap().in_order_index(), b.ok().unwrap().in_order_index()))
            .collect();
        v
    }) {
        Ok(v) => ("ok", v),
        Err(()) => ("panic", vec![]),
    };
    c.out.put(ev("down").s("root", &h64(root)).s("i", &h64(i)).raw("out", &pairs(&v)).s("r", r));
}

pub fn p02(c: &mut Ctx) {
    let mut rng = c.rng("P02");
    for n in 1..=c.size(33, 130) {
        let h = 64 - (n - 1).leading_zeros();
        for i in 0..n {
            for up in 0..3 {
                if up == 0 || n <= 12 || rng.chance(1, 3) {
                    path(c, index(h + up, 0), i, n);
                }
            }
        }
    }
    for _ in 0..c.size(700, 20000) {
        let (n, i) = crate::binary::wide_pair(&mut rng);
        let h = 64 - (n - 1).leading_zeros();
        let up = if rng.chance(1, 3) { rng.below(3) as u32 } else { 0 };
        path(c, index((h + up).min(63), 0), i, n);
    }
    // small counts at random, for other shapes
    for _ in 0..c.size(700, 20000) {
        let n = 1 + (rng.next() >> rng.range(40, 63));
        let h = 64 - (n - 1).leading_zeros();
        let i = rng.below(n);
        path(c, index(h, 0), i, n);
        path(c, index(h, 0), n - 1, n);
    }
    // below every position of small trees, and of random ones
    for p in 0..c.size(63, 255) {
        let h = (p as u64).trailing_ones();
        let lo = p + 1 - (1u64 << h);
        for x in 0..(1u64 << h) {
            down(c, p, (lo >> 1) + x);
        }
    }
    for _ in 0..c.size(700, 10000) {
        let h = rng.below(64) as u32;
        let max = (1u64 << (63 - h)) - 1;
        let j = rng.next() % (max + 1) >> rng.below(65 - max.leading_zeros() as u64);
        let i = (j << h) + rng.below(1 << h);
        down(c, index(h, j), i);
    }
    tries(c, &mut rng);
}

/// For the configuration check.
pub fn some(c: &mut Ctx, rng: &mut Rng) {
    let p = rng.next() >> rng.below(60);
    if p.trailing_ones() <= 63 {
        pos(c, p);
    }
    leafpos(c, rng.next() >> rng.range(1, 62));
    let (n, i) = crate::binary::wide_pair(rng);
    path(c, index(64 - (n - 1).leading_zeros(), 0), i, n);
    down(c, index(20, 5), (5 << 20) + rng.below(1 << 20));
}

// -- Paths in tries with keys of any width -------------------------------------

use fuel_merkle::common::{VerifChildError, VerifChildResult};
use std::collections::BTreeSet;
use std::rc::Rc;

/// A node of a trie with W-byte keys, named by the bits leading to it.
#[derive(Clone)]
struct Trie<const W: usize> {
    height: u32,
    name: String,
    key: [u8; W],
    bad: Rc<BTreeSet<String>>,
    early: Rc<BTreeSet<String>>,
}

impl<const W: usize> Node for Trie<W> {
    type Key = [u8; W];
    fn height(&self) -> u32 {
        self.height
    }
    fn leaf_key(&self) -> [u8; W] {
        self.key
    }
    fn is_leaf(&self) -> bool {
        self.height == 0
    }
    fn is_node(&self) -> bool {
        self.height != 0
    }
}

impl<const W: usize> Trie<W> {
    fn child(&self, bit: &str) -> VerifChildResult<Self> {
        if self.height == 0 {
            return Err(VerifChildError::NodeIsLeaf);
        }
        let name = format!("{}{}", self.name, bit);
        if self.bad.contains(&name) {
            return Err(VerifChildError::Error(name));
        }
        let height = if self.early.contains(&name) { 0 } else { self.height - 1 };
        Ok(Self { height, name, ..self.clone() })
    }
}

impl<const W: usize> ParentNode for Trie<W> {
    type Error = String;
    fn left_child(&self) -> VerifChildResult<Self> {
        self.child("0")
    }
    fn right_child(&self) -> VerifChildResult<Self> {
        self.child("1")
    }
}

fn trie<const W: usize>(c: &mut Ctx, rng: &mut Rng, height: u32) {
    c.out.case_quiet("Trace_Position");
    let bits = 8 * W as u32;
    let key: [u8; W] = match rng.below(5) {
        0 => [0; W],
        1 => [0xff; W],
        _ => rng.bytes(W).try_into().unwrap(),
    };
    // places on, and next to, the path
    let mut on = String::from("r");
    let mut places = vec![];
    for k in 0..height {
        let at = (bits - height + k) as usize;
        let bit = key[at / 8] >> (7 - at % 8) & 1;
        places.push((format!("{}{}", on, bit), format!("{}{}", on, 1 - bit)));
        on.push(if bit == 1 { '1' } else { '0' });
    }
    let (mut bad, mut early) = (BTreeSet::new(), BTreeSet::new());
    if height > 0 {
        for _ in 0..rng.below(3) {
            let (p, s) = rng.pick(&places).clone();
            match rng.below(4) {
                0 => bad.insert(p),
                1 => bad.insert(s),
                2 => early.insert(p),
                _ => early.insert(s),
            };
        }
    }
    let show = |x: &VerifChildResult<Trie<W>>| match x {
        Ok(n) => n.name.clone(),
        Err(VerifChildError::Error(e)) => format!("E{}", e),
        Err(_) => "?".into(),
    };
    let root = Trie::<W> { height, name: "r".into(), key: [0xa5; W], bad: Rc::new(bad.clone()), early: Rc::new(early.clone()) };
    let leaf = Trie::<W> { height: 0, name: "leaf".into(), key, bad: root.bad.clone(), early: root.early.clone() };
    let (r, v) = match guard(|| {
        let v: Vec<String> = root
            .as_path_iter(&leaf)
            .take(1200)
            .map(|(a, b)| format!("[\"{}\",\"{}\"]", show(&a), show(&b)))
            .collect();
        v
    }) {
        Ok(v) => ("ok", v),
        Err(()) => ("panic", vec![]),
    };
    let bad: Vec<String> = bad.into_iter().collect();
    let early: Vec<String> = early.into_iter().collect();
    c.out.put(
        ev("trie").n("w", bits as u64).n("h", height as u64).s("key", &hex(&key)).raw("bad", &strs(&bad))
            .raw("early", &strs(&early)).raw("out", &format!("[{}]", v.join(","))).s("r", r),
    );
}

pub fn tries(c: &mut Ctx, rng: &mut Rng) {
    fn width<const W: usize>(c: &mut Ctx, rng: &mut Rng, n: u64) {
        let top = 8 * W as u32;
        for h in 0..=top.min(if W > 32 { 2 } else { 16 }) {
            trie::<W>(c, rng, h);
            trie::<W>(c, rng, top - h);
        }
        for _ in 0..n {
            let h = rng.below(top as u64 + 1) as u32;
            trie::<W>(c, rng, h);
        }
    }
    let n = c.size(40, 600);
    width::<1>(c, rng, n);
    width::<2>(c, rng, n);
    width::<3>(c, rng, n);
    width::<4>(c, rng, n);
    width::<7>(c, rng, n);
    width::<8>(c, rng, n);
    width::<16>(c, rng, n);
    width::<20>(c, rng, n);
    width::<31>(c, rng, n);
    width::<32>(c, rng, n);
    width::<33>(c, rng, n / 10);
    width::<48>(c, rng, n / 10);
    width::<64>(c, rng, n / 10);
    width::<128>(c, rng, n / 20);
}
