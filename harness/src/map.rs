//! The in-memory storage: K01.
use crate::util::*;
use crate::Ctx;
use fuel_merkle::common::StorageMap;
use fuel_merkle::storage::{
    Mappable, StorageInspect, StorageInspectInfallible, StorageMutate, StorageMutateInfallible,
};

struct Ints;
impl Mappable for Ints {
    type Key = u64;
    type SetValue = (u64, B32);
    type GetValue = (u64, B32);
}
struct Digests;
impl Mappable for Digests {
    type Key = B32;
    type SetValue = (u32, u8, B32, B32);
    type GetValue = (u32, u8, B32, B32);
}
struct Blobs;
impl Mappable for Blobs {
    type Key = Vec<u8>;
    type SetValue = String;
    type GetValue = String;
}

fn opt(v: Option<String>) -> String {
    strs(&v.into_iter().collect::<Vec<_>>())
}

/// One operation, through the fallible or the infallible traits.
fn step<T>(c: &mut Ctx, rng: &mut Rng, m: &mut StorageMap<T>, k: &T::Key, v: &T::SetValue, kt: &str, what: u64, vt: impl Fn(&T::GetValue) -> String + Copy, st: impl Fn(&T::SetValue) -> String)
where
    T: Mappable,
    T::Key: Eq + std::hash::Hash + Clone,
    T::SetValue: Clone,
    T::GetValue: Clone + From<T::SetValue>,
{
    let infallible = rng.chance(1, 2);
    let bad = |e: Ev| e.raw("v", "[]").s("r", "panic");
    let e = match what {
        0 | 1 => {
            let e = ev("get").s("k", kt);
            let r = guard(|| {
                if infallible {
                    StorageInspectInfallible::<T>::get(m, k).map(|x| vt(&x))
                } else {
                    StorageInspect::<T>::get(m, k).unwrap().map(|x| vt(&x))
                }
            });
            match r {
                Ok(x) => e.raw("v", &opt(x)).s("r", "ok"),
                Err(()) => bad(e),
            }
        }
        2 => {
            let e = ev("contains").s("k", kt);
            let r = guard(|| {
                if infallible {
                    StorageInspectInfallible::<T>::contains_key(m, k)
                } else {
                    StorageInspect::<T>::contains_key(m, k).unwrap()
                }
            });
            match r {
                Ok(x) => e.b("v", x).s("r", "ok"),
                Err(()) => e.b("v", false).s("r", "panic"),
            }
        }
        3 | 4 | 5 => {
            let e = ev("insert").s("k", kt).s("new", &st(v));
            let r = guard(|| {
                if infallible {
                    StorageMutateInfallible::<T>::insert(m, k, v).map(|x| vt(&x))
                } else {
                    StorageMutate::<T>::insert(m, k, v).unwrap().map(|x| vt(&x))
                }
            });
            match r {
                Ok(x) => e.raw("v", &opt(x)).s("r", "ok"),
                Err(()) => bad(e),
            }
        }
        _ => {
            let e = ev("remove").s("k", kt);
            let r = guard(|| {
                if infallible {
                    StorageMutateInfallible::<T>::remove(m, k).map(|x| vt(&x))
                } else {
                    StorageMutate::<T>::remove(m, k).unwrap().map(|x| vt(&x))
                }
            });
            match r {
                Ok(x) => e.raw("v", &opt(x)).s("r", "ok"),
                Err(()) => bad(e),
            }
        }
    };
    c.out.put(e);
}

/// The kind of the `x`th of `len` operations.
fn choose(rng: &mut Rng, x: usize, len: usize, tides: u64) -> u64 {
    if tides == 0 || rng.chance(1, 6) {
        return rng.below(8);
    }
    let phase = x as u64 * 2 * tides / len as u64;
    if phase % 2 == 0 {
        3
    } else {
        7
    }
}

/// After a history, every key is looked at.
fn sweep<T>(c: &mut Ctx, m: &StorageMap<T>, keys: &[(T::Key, String)], vt: impl Fn(&T::GetValue) -> String + Copy)
where
    T: Mappable,
    T::Key: Eq + std::hash::Hash + Clone,
    T::GetValue: Clone,
{
    for (k, kt) in keys {
        let e = ev("get").s("k", kt);
        let r = guard(|| StorageInspect::<T>::get(m, k).unwrap().map(|x| vt(&x)));
        c.out.put(match r {
            Ok(x) => e.raw("v", &opt(x)).s("r", "ok"),
            Err(()) => e.raw("v", "[]").s("r", "panic"),
        });
        let e = ev("contains").s("k", kt);
        let r = guard(|| StorageInspect::<T>::contains_key(m, k).unwrap());
        c.out.put(match r {
            Ok(x) => e.b("v", x).s("r", "ok"),
            Err(()) => e.b("v", false).s("r", "panic"),
        });
    }
}

pub fn k01(c: &mut Ctx) {
    let cases = c.size(60, 600);
    run(c, cases);
}

/// A map that grows far and shrinks to nothing, one key at a time.
fn tide(c: &mut Ctx, rng: &mut Rng, n: u64) {
    c.out.case("Trace_Map", &format!("{} keys in, and out again", n));
    c.out.weigh(n * n / 40);
    let mut m = StorageMap::<Ints>::new();
    let vt = |x: &(u64, B32)| format!("{}{}", h64(x.0), hex(&x.1));
    let mut ks: Vec<(u64, String)> = (0..n).map(|x| (x * 2, h64(x * 2))).collect();
    let looks = [1usize, 20];
    for (phase, ops) in [(3u64, 0..n), (7, 0..n)] {
        if phase == 7 {
            rng.shuffle(&mut ks);
        }
        for x in ops {
            let (k, kt) = ks[x as usize].clone();
            let v = (x, [phase as u8; 32]);
            step::<Ints>(c, rng, &mut m, &k, &v, &kt, phase, vt, vt);
            if x % 64 == 0 {
                let some: Vec<(u64, String)> = (0..looks[(x / 64 % 2) as usize]).map(|_| rng.pick(&ks).clone()).collect();
                sweep::<Ints>(c, &m, &some, vt);
            }
        }
    }
    sweep::<Ints>(c, &m, &ks[..n.min(50) as usize], vt);
}

/// A map that grows very far, and shrinks in another order.
fn flood(c: &mut Ctx, rng: &mut Rng, n: usize) {
    c.out.case("Trace_Map", &format!("{} keys at once", n));
    c.out.weigh(n as u64 / 8);
    let mut m = StorageMap::<Ints>::new();
    let vt = |x: &(u64, B32)| format!("{}{}", h64(x.0), hex(&x.1));
    let mut ks: Vec<(u64, String)> = (0..n as u64).map(|x| if x % 2 == 0 { x } else { x << 40 }).map(|k| (k, format!("k{}", h64(k)))).collect();
    let put = |c: &mut Ctx, op: &str, es: Vec<String>, odd: u64| c.out.put(ev(op).raw("m", &format!("{{{}}}", es.join(","))).n("odd", odd));
    for some in ks.chunks(n / 12) {
        let (mut es, mut odd) = (vec![], 0);
        for (k, kt) in some {
            let v = (rng.below(9), [*k as u8; 32]);
            es.push(format!("\"{}\":\"{}\"", kt, vt(&v)));
            odd += guard(|| StorageMutate::<Ints>::insert(&mut m, k, &v).unwrap()).map_or(1, |x| x.is_some() as u64);
        }
        put(c, "fill", es, odd);
        let look: Vec<(u64, String)> = (0..5).map(|_| rng.pick(&ks).clone()).collect();
        sweep::<Ints>(c, &m, &look, vt);
    }
    rng.shuffle(&mut ks);
    let all = ks.clone();
    for some in ks.chunks(n / 12) {
        let (mut es, mut odd) = (vec![], 0);
        for (k, kt) in some {
            match guard(|| StorageMutate::<Ints>::remove(&mut m, k).unwrap()) {
                Ok(Some(v)) => es.push(format!("\"{}\":\"{}\"", kt, vt(&v))),
                _ => odd += 1,
            }
        }
        put(c, "drain", es, odd);
        let look: Vec<(u64, String)> = (0..5).map(|_| rng.pick(&all).clone()).collect();
        sweep::<Ints>(c, &m, &look, vt);
    }
}

pub fn run(c: &mut Ctx, cases: u64) {
    let mut rng = c.rng("K01");
    for n in if c.deep { vec![100u64, 300, 1000, 3000] } else { vec![100, 300, 1100] } {
        tide(c, &mut rng, n);
    }
    if cases > 10 {
        flood(c, &mut rng, c.size(70000, 140000) as usize);
    }
    for case in 0..cases {
        let universe = [1usize, 2, 3, 5, 12, 60, 400][rng.below(7) as usize];
        let len = if universe > 20 { 800 } else { 120 };
        // how many times the map fills up and empties again
        let tides = if rng.chance(1, 2) { 0 } else { 1 + rng.below(3) };
        match case % 3 {
            0 => {
                c.out.case("Trace_Map", &format!("integer keys, {} of them", universe));
                let mut m = if rng.chance(1, 2) { StorageMap::<Ints>::new() } else { Default::default() };
                let ks: Vec<(u64, String)> = (0..universe as u64)
                    .map(|x| {
                        let k = match rng.below(4) {
                            0 => x,
                            1 => x << 32,
                            2 => u64::MAX - x,
                            _ => rng.next(),
                        };
                        (k, h64(k))
                    })
                    .collect();
                let vt = |x: &(u64, B32)| format!("{}{}", h64(x.0), hex(&x.1));
                for x in 0..len {
                    let what = choose(&mut rng, x, len, tides);
                    let (k, kt) = rng.pick(&ks).clone();
                    let v = (rng.below(3), if rng.chance(1, 2) { [0; 32] } else { rng.b32() });
                    step::<Ints>(c, &mut rng, &mut m, &k, &v, &kt, what, vt, vt);
                }
                sweep::<Ints>(c, &m, &ks, vt);
            }
            1 => {
                c.out.case("Trace_Map", &format!("digest keys, {} of them", universe));
                let mut m = StorageMap::<Digests>::new();
                let base = rng.b32();
                let ks: Vec<(B32, String)> = (0..universe)
                    .map(|_| {
                        // near each other, or not
                        let mut k = if rng.chance(1, 2) { base } else { rng.b32() };
                        let p = rng.below(32) as usize;
                        k[p] = k[p].wrapping_add(rng.below(4) as u8);
                        (k, hex(&k))
                    })
                    .collect();
                let vt = |x: &(u32, u8, B32, B32)| format!("{}-{}-{}{}", x.0, x.1, hex(&x.2), hex(&x.3));
                for x in 0..len {
                    let what = choose(&mut rng, x, len, tides);
                    let (k, kt) = rng.pick(&ks).clone();
                    let v = (rng.below(3) as u32, rng.below(2) as u8, k, if rng.chance(1, 2) { [0; 32] } else { rng.b32() });
                    step::<Digests>(c, &mut rng, &mut m, &k, &v, &kt, what, vt, vt);
                }
                sweep::<Digests>(c, &m, &ks, vt);
            }
            _ => {
                c.out.case("Trace_Map", &format!("byte-string keys, {} of them", universe));
                let mut m = StorageMap::<Blobs>::new();
                let ks: Vec<(Vec<u8>, String)> = (0..universe)
                    .map(|x| {
                        let k = vec![(x % 3) as u8; x / 3];
                        let t = format!("k{}", hex(&k));
                        (k, t)
                    })
                    .collect();
                let vt = |x: &String| x.clone();
                for x in 0..len {
                    let what = choose(&mut rng, x, len, tides);
                    let (k, kt) = rng.pick(&ks).clone();
                    let len = [0usize, 1, 4][rng.below(3) as usize];
                    let v = hex(&rng.bytes(len));
                    step::<Blobs>(c, &mut rng, &mut m, &k, &v, &kt, what, vt, vt);
                }
                sweep::<Blobs>(c, &m, &ks, vt);
            }
        }
    }
}
