//! Sum trees: M01 to M03.
use crate::store::Shared;
use crate::util::*;
use crate::Ctx;
use fuel_merkle::storage::Mappable;
use fuel_merkle::sum::{self, VerifNode};
use std::collections::BTreeMap;

#[derive(Debug)]
pub struct FTable;
impl Mappable for FTable {
    type Key = B32;
    type SetValue = VerifNode;
    type GetValue = VerifNode;
}
pub type St = Shared<B32, VerifNode>;
pub type Tree = sum::MerkleTree<FTable, St>;

pub struct Run {
    pub st: St,
    pub t: Tree,
    seen: BTreeMap<B32, String>,
    /// what may still be added without overflow
    room: u64,
    pub n: u64,
}

pub fn entry(k: &B32, v: &VerifNode) -> String {
    let h = |x: Option<B32>| x.map_or(String::new(), |x| hex(&x));
    // digest, height, fee, left, right
    let own = if v.hash() == k { hex(k) } else { format!("{}!{}", hex(k), hex(v.hash())) };
    format!("[\"{}\",{},\"{}\",\"{}\",\"{}\"]", own, v.height(), h64(v.fee()), h(v.left_child_key()), h(v.right_child_key()))
}

impl Run {
    pub fn new() -> Self {
        let st = St::new();
        Run { t: Tree::new(st.clone()), st, seen: BTreeMap::new(), room: u64::MAX, n: 0 }
    }

    /// A fee that fits; also zero, and all that is left.
    pub fn fee(&mut self, rng: &mut Rng) -> u64 {
        let f = match rng.below(12) {
            0 => 0,
            1 => 1,
            2 => (1u64 << 32) - 1,
            3 => 1 << 32,
            4 => 0xff,
            5 => 0x100,
            6 => self.room,
            7 => self.room / 2,
            8 => rng.next() >> rng.below(64),
            _ => rng.below(1000),
        };
        f.min(self.room)
    }

    pub fn push(&mut self, o: &mut Out, fee: u64, d: &[u8], fail: Option<u64>) {
        self.st.begin();
        self.st.fail_write(fail);
        let r = match guard(|| self.t.push(fee, d)) {
            Err(()) => "panic",
            Ok(Ok(())) => "ok",
            Ok(Err(_)) => "storage",
        };
        let f = self.st.fired();
        self.st.begin();
        if r == "ok" {
            self.room -= fee;
            self.n += 1;
        }
        o.put(ev("push").s("fee", &h64(fee)).s("d", &hex(d)).b("f", f).s("r", r));
    }

    pub fn push_many(&mut self, o: &mut Out, ds: &[(u64, Vec<u8>)]) {
        self.st.begin();
        let r = match guard(|| ds.iter().try_for_each(|(f, d)| self.t.push(*f, d))) {
            Err(()) => "panic",
            Ok(Ok(())) => "ok",
            Ok(Err(_)) => "storage",
        };
        let xs: Vec<String> = ds.iter().map(|(f, d)| format!("[\"{}\",\"{}\"]", h64(*f), hex(d))).collect();
        o.put(ev("pushn").raw("ds", &format!("[{}]", xs.join(","))).s("r", r));
        o.weigh(ds.len() as u64);
        self.n += ds.len() as u64;
    }

    pub fn root(&mut self, o: &mut Out, fail: Option<u64>) -> bool {
        self.st.begin();
        self.st.fail_write(fail);
        let res = guard(|| self.t.root());
        let f = self.st.fired();
        self.st.begin();
        let (r, fee, v) = match res {
            Err(()) => ("panic", 0, String::new()),
            Ok(Ok((fee, v))) => ("ok", fee, hex(&v)),
            Ok(Err(_)) => ("storage", 0, String::new()),
        };
        o.put(ev("root").b("f", f).s("r", r).s("fee", &h64(fee)).s("v", &v));
        r == "ok"
    }

    /// What changed in the store since the last report.
    pub fn store(&mut self, o: &mut Out, full: bool) {
        let now: BTreeMap<B32, String> = self.st.snapshot().iter().map(|(k, v)| (*k, entry(k, v))).collect();
        let add: Vec<String> = now.iter().filter(|(k, _)| !self.seen.contains_key(*k)).map(|(_, v)| v.clone()).collect();
        let chg = now.iter().filter(|(k, v)| self.seen.get(*k).map_or(false, |w| w != *v)).count() as u64;
        let rem = self.seen.keys().filter(|k| !now.contains_key(*k)).count() as u64;
        o.put(ev("store").raw("add", &format!("[{}]", add.join(","))).n("chg", chg).n("rem", rem).b("full", full));
        self.seen = now;
    }
}

fn count(rng: &mut Rng, max: u64) -> u64 {
    if rng.chance(1, 3) {
        let p = 1u64 << rng.below(64 - max.leading_zeros() as u64);
        (p + rng.below(3)).saturating_sub(1).min(max)
    } else {
        rng.below(max + 1)
    }
}

/// Every count from 0 to `to`; from `from` on the root after every push, with
/// failing writes if wanted.
fn dense(c: &mut Ctx, rng: &mut Rng, from: u64, to: u64, fails: bool) {
    c.out.case("Trace_Sum", &format!("every count from {} to {}", from, to));
    let o = &mut c.out;
    let mut r = Run::new();
    let small = rng.chance(1, 2);
    let (mut at, mut todo) = (None, vec![]);
    let mut steps: Vec<String> = vec![];
    while r.n < to {
        let on = r.n + 1 >= from;
        let k = rng.range(0, 4) as usize;
        let d = if rng.chance(1, 16) { data(rng, &[]) } else { rng.bytes(k) };
        let fee = if small { rng.below(3) } else { (rng.next() >> 16 >> rng.below(48)).min(r.room) };
        r.st.begin();
        // every write of every push fails once
        if on && fails && at.map_or(true, |a| a != r.n) {
            at = Some(r.n);
            todo = (0..(r.n + 1).trailing_zeros() as u64 + 1).collect();
            rng.shuffle(&mut todo);
        }
        r.st.fail_write(todo.pop());
        let res = match guard(|| r.t.push(fee, &d)) {
            Err(()) => "panic",
            Ok(Ok(())) => "ok",
            Ok(Err(_)) => "storage",
        };
        let f = r.st.fired();
        r.st.begin();
        if res == "ok" {
            r.room -= fee;
            r.n += 1;
        }
        let (mut rr, mut rf, mut rfee, mut v) = ("", false, 0, String::new());
        if on && rng.chance(9, 10) {
            if fails && rng.chance(1, 3) {
                let b = r.n.count_ones() as u64 + 1;
                r.st.fail_write(Some(rng.below(b)));
            }
            (rr, rfee, v) = match guard(|| r.t.root()) {
                Err(()) => ("panic", 0, String::new()),
                Ok(Ok((fee, v))) => ("ok", fee, hex(&v)),
                Ok(Err(_)) => ("storage", 0, String::new()),
            };
            rf = r.st.fired();
            r.st.begin();
        }
        steps.push(format!(
            "{{\"d\":\"{}\",\"fee\":\"{}\",\"f\":{},\"r\":\"{}\",\"rr\":\"{}\",\"rf\":{},\"rfee\":\"{}\",\"v\":\"{}\"}}",
            hex(&d), h64(fee), f, res, rr, rf, h64(rfee), v
        ));
        let bad = res == "panic" || (res != "ok" && !f);
        if steps.len() == 64 || r.n == to || bad {
            o.put(ev("grow").raw("steps", &format!("[{}]", steps.join(","))));
            o.weigh(steps.len() as u64);
            steps.clear();
        }
        if bad {
            break;
        }
    }
}

pub fn m01(c: &mut Ctx) {
    let mut rng = c.rng("M01");
    for case in 0..c.size(24, 300) {
        let n = if case == 0 { 70 } else { count(&mut rng, 48) };
        c.out.case("Trace_Sum", &format!("{} pushes", n));
        c.out.weigh(n * n / 10);
        let mut r = Run::new();
        let mut old = vec![];
        r.root(&mut c.out, None);
        for _ in 0..n {
            let d = data(&mut rng, &old);
            let f = r.fee(&mut rng);
            r.push(&mut c.out, f, &d, None);
            old.push(d);
            for _ in 0..rng.below(3) {
                r.root(&mut c.out, None);
            }
        }
        r.root(&mut c.out, None);
        r.root(&mut c.out, None);
    }
    c.out.case("Trace_Sum", "every length up to 300");
    let mut r = Run::new();
    for x in 0..=300usize {
        let d = long(&mut rng, x);
        let f = r.fee(&mut rng);
        r.push(&mut c.out, f, &d, None);
        if x % 7 == 0 || x > 290 {
            r.root(&mut c.out, None);
        }
    }
    c.out.case("Trace_Sum", "long data");
    c.out.weigh(400);
    let mut r = Run::new();
    for x in lengths(&mut rng, c.deep) {
        let d = long(&mut rng, x);
        let f = r.fee(&mut rng);
        r.push(&mut c.out, f, &d, None);
        r.root(&mut c.out, None);
    }
    // fees with every number of significant bits
    c.out.case("Trace_Sum", "fees of all magnitudes");
    let mut r = Run::new();
    for b in 0..63u32 {
        let f = (1u64 << b) | (rng.next() >> (64 - b).min(63) >> 1);
        if f < r.room {
            r.push(&mut c.out, f, &[b as u8], None);
            r.root(&mut c.out, None);
        }
    }
    // every count, asked once
    for n in 0..c.size(36, 130) {
        c.out.case("Trace_Sum", &format!("{} pushes, one root", n));
        let mut r = Run::new();
        let ds: Vec<(u64, Vec<u8>)> = (0..n)
            .map(|_| {
                let f = r.fee(&mut rng);
                r.room -= f;
                let k = rng.range(0, 40) as usize;
                (f, rng.bytes(k))
            })
            .collect();
        r.push_many(&mut c.out, &ds);
        r.root(&mut c.out, None);
    }
    // the root at every count
    let part = c.size(500, 1000);
    for x in 0..c.size(8, 24) {
        dense(c, &mut rng, x * part, (x + 1) * part, false);
    }
    // around larger powers of two
    for n in if c.deep { vec![255u64, 256, 257, 1023, 1025, 4095, 8193, 32769, 131073] } else { vec![255, 257, 1025, 4097, 16385, 65537] } {
        c.out.case("Trace_Sum", &format!("around {}", n));
        c.out.weigh(n / 20);
        let mut r = Run::new();
        let ds: Vec<(u64, Vec<u8>)> = (0..n).map(|_| (rng.next() >> 20, rng.bytes(3))).collect();
        r.push_many(&mut c.out, &ds);
        r.root(&mut c.out, None);
        r.push(&mut c.out, 7, &[1], None);
        r.root(&mut c.out, None);
    }
}

pub fn m02(c: &mut Ctx) {
    let mut rng = c.rng("M02");
    for n in if c.deep { vec![127u64, 255, 500, 1023, 3000] } else { vec![130, 255, 600] } {
        c.out.case("Trace_Sum", &format!("store of {} pushes", n));
        c.out.weigh(n);
        let mut r = Run::new();
        let ds: Vec<(u64, Vec<u8>)> = (0..n)
            .map(|x| (rng.next() >> 20 >> rng.below(44), if x % 50 < 40 { rng.bytes(3) } else { vec![] }))
            .collect();
        r.push_many(&mut c.out, &ds);
        r.store(&mut c.out, false);
        let ok = r.root(&mut c.out, None);
        r.store(&mut c.out, ok);
    }
    for case in 0..c.size(24, 300) {
        let n = if case == 0 { 66 } else { count(&mut rng, 40) };
        c.out.case("Trace_Sum", &format!("store of {} pushes", n));
        c.out.weigh(n * n / 6);
        let mut r = Run::new();
        let mut old = vec![];
        let every = rng.range(1, 5);
        let faults = rng.chance(1, 2);
        let same = rng.chance(1, 5);
        for x in 0..n {
            let d = if same { vec![] } else { data(&mut rng, &old) };
            let f = if same { rng.below(2) } else { r.fee(&mut rng) };
            if faults && rng.chance(1, 3) {
                let j = rng.below(4);
                r.push(&mut c.out, f, &d, Some(j));
            } else {
                r.push(&mut c.out, f, &d, None);
            }
            if rng.chance(1, 2) {
                r.store(&mut c.out, false);
            }
            if faults && rng.chance(1, 4) {
                let j = rng.below(4);
                r.root(&mut c.out, Some(j));
                r.store(&mut c.out, false);
            }
            if x % every == 0 {
                let ok = r.root(&mut c.out, None);
                r.store(&mut c.out, ok);
            }
            old.push(d);
        }
        let ok = r.root(&mut c.out, None);
        r.store(&mut c.out, ok);
    }
}

pub fn m03(c: &mut Ctx) {
    let mut rng = c.rng("M03");
    // every write of a push that joins many subtrees, and of a root over many
    for p in 5..=c.size(10, 13) {
        let n = 1u64 << p;
        c.out.case("Trace_Sum", &format!("every failing write around {} pushes", n));
        c.out.weigh(n * p / 8);
        let mut r = Run::new();
        let ds: Vec<(u64, Vec<u8>)> = (0..n - 1).map(|_| (rng.next() >> 20, rng.bytes(2))).collect();
        r.push_many(&mut c.out, &ds);
        for j in 0..p - 1 {
            r.root(&mut c.out, Some(j));
            let f = rng.next() >> 40;
            r.push(&mut c.out, f, b"again", Some(j));
        }
        r.push(&mut c.out, 3, b"again", Some(p - 1));
        r.push(&mut c.out, 4, b"again", Some(p));
        r.root(&mut c.out, None);
        r.push(&mut c.out, 5, b"then", None);
        r.root(&mut c.out, None);
        r.push(&mut c.out, 6, b"then", None);
        r.root(&mut c.out, Some(0));
        let ok = r.root(&mut c.out, None);
        r.store(&mut c.out, ok);
    }
    // pushes and roots in turns, some of them failing, some repeated later
    for _ in 0..c.size(40, 500) {
        c.out.case("Trace_Sum", "pushes and roots that fail now and then");
        let mut r = Run::new();
        let mut kept: Vec<(u64, Vec<u8>)> = vec![];
        for _ in 0..count(&mut rng, 60) + 10 {
            let new = if !kept.is_empty() && rng.chance(1, 2) {
                rng.pick(&kept).clone()
            } else if !kept.is_empty() && rng.chance(1, 2) {
                // the same fee, other data, or the other way round
                let (f, d) = rng.pick(&kept).clone();
                if rng.chance(1, 2) {
                    (f, data(&mut rng, &[]))
                } else {
                    (rng.next() >> rng.range(10, 63), d)
                }
            } else {
                (rng.next() >> rng.range(10, 63), data(&mut rng, &[]))
            };
            kept.push(new.clone());
            if kept.len() > 4 {
                kept.remove(0);
            }
            let j = if rng.chance(1, 2) { Some(rng.below(5)) } else { None };
            if rng.chance(2, 3) {
                r.push(&mut c.out, new.0, &new.1, j);
            } else {
                let ok = r.root(&mut c.out, j);
                r.store(&mut c.out, ok);
            }
        }
        let ok = r.root(&mut c.out, None);
        r.store(&mut c.out, ok);
    }
    // failures at every count
    let part = c.size(250, 500);
    for x in 0..c.size(8, 24) {
        dense(c, &mut rng, x * part, (x + 1) * part, true);
    }
    for case in 0..c.size(24, 300) {
        let n = if case == 0 { 34 } else { 1 + count(&mut rng, 33) };
        c.out.case("Trace_Sum", &format!("every failing write up to {} pushes", n));
        c.out.weigh(n * n / 3);
        let mut r = Run::new();
        for x in 0..n {
            let d = data(&mut rng, &[]);
            let f = r.fee(&mut rng);
            let writes = (x + 1).trailing_zeros() as u64 + 1;
            for j in 0..writes {
                let (e, g) = if rng.chance(1, 2) { (d.clone(), f) } else { (data(&mut rng, &[]), r.fee(&mut rng)) };
                r.push(&mut c.out, g, &e, Some(j));
                if rng.chance(1, 3) {
                    r.push(&mut c.out, g, &e, Some(j));
                }
                r.root(&mut c.out, None);
            }
            r.push(&mut c.out, f, &d, None);
            let joins = r.n.count_ones() as u64 - 1;
            for j in 0..joins {
                if rng.chance(1, 2) {
                    r.root(&mut c.out, Some(j));
                    if rng.chance(1, 4) {
                        r.root(&mut c.out, Some(j));
                    }
                    if rng.chance(1, 2) {
                        // and its nodes are there now
                        let ok = r.root(&mut c.out, None);
                        r.store(&mut c.out, ok);
                    }
                }
            }
            if rng.chance(2, 3) {
                let ok = r.root(&mut c.out, None);
                if rng.chance(1, 2) {
                    r.store(&mut c.out, ok);
                }
            }
        }
        let ok = r.root(&mut c.out, None);
        r.store(&mut c.out, ok);
    }
}

/// For the configuration check.
pub fn workload(c: &mut Ctx, rng: &mut Rng) {
    for _ in 0..4 {
        c.out.case("Trace_Sum", "workload");
        let mut r = Run::new();
        for _ in 0..24 {
            let d = data(rng, &[]);
            let f = r.fee(rng);
            let j = if rng.chance(1, 3) { Some(rng.below(4)) } else { None };
            r.push(&mut c.out, f, &d, j);
            let j = if rng.chance(1, 3) { Some(rng.below(3)) } else { None };
            let ok = r.root(&mut c.out, j);
            r.store(&mut c.out, ok);
        }
    }
}
