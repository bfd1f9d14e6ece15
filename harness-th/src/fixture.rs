//! The fixture runners, on true and false claims.
use crate::util::*;
use crate::verify::*;
use crate::Ctx;
use fuel_merkle_test_helpers::data::{binary::ProofTest, sparse, EncodedValue, Encoding, TestError};
use std::collections::BTreeMap;

fn base64(b: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in b.chunks(3) {
        let x = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            if k <= c.len() {
                s.push(A[(x >> (18 - 6 * k) & 63) as usize] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}

fn plain(b: &[u8]) -> bool {
    b.iter().all(|x| x.is_ascii_alphanumeric())
}

/// <<text, encoding>> of some bytes, in one of the encodings able to say it.
fn enc(rng: &mut Rng, b: &[u8]) -> (String, &'static str) {
    if plain(b) && rng.chance(1, 2) {
        return (String::from_utf8(b.to_vec()).unwrap(), "utf-8");
    }
    match rng.below(5) {
        0 | 1 => (base64(b), "base64"),
        2 => (hex(b).to_uppercase(), "hex"),
        _ => (hex(b), "hex"),
    }
}

fn encoding(e: &str) -> Encoding {
    match e {
        "hex" => Encoding::Hex,
        "base64" => Encoding::Base64,
        _ => Encoding::Utf8,
    }
}

fn value(rng: &mut Rng, b: &[u8]) -> EncodedValue {
    if rng.chance(1, 3) {
        let e = if plain(b) && rng.chance(1, 2) {
            Encoding::Utf8
        } else if rng.chance(1, 2) {
            Encoding::Hex
        } else {
            Encoding::Base64
        };
        return EncodedValue::from_raw(b, e);
    }
    let (t, e) = enc(rng, b);
    EncodedValue::new(t, encoding(e))
}

/// A value that is not valid in its encoding.
fn junk(rng: &mut Rng) -> (String, &'static str) {
    let good = rng.b32();
    match rng.below(6) {
        0 => (hex(&good)[1..].to_string(), "hex"),
        1 => (format!("0x{}", hex(&good)), "hex"),
        2 => (format!("{}g{}", &hex(&good)[..20], &hex(&good)[21..]), "hex"),
        3 => (format!("{}!", &base64(&good)[..43]), "base64"),
        4 => (base64(&good)[..42].to_string() + "*=", "base64"),
        _ => (format!("_-{}", &base64(&good)[2..]), "base64"),
    }
}

/// A value that is not a key or digest: not valid in its encoding, or not 32 bytes; and which it is.
fn misfit(rng: &mut Rng, flaw: &mut String, what: &str) -> (String, &'static str) {
    if rng.chance(1, 2) {
        *flaw = what.into();
        return junk(rng);
    }
    *flaw = format!("{}-size", what);
    let n = *rng.pick(&[0, 1, 16, 31, 33, 34, 64, 100]);
    let b = if rng.chance(1, 3) { vec![b'x'; n] } else { rng.bytes(n) };
    enc(rng, &b)
}

fn outcome(r: Result<Result<(), TestError>, ()>, name: &str, action: &str) -> String {
    match r {
        Err(()) => "panic".into(),
        Ok(Ok(())) => "ok".into(),
        Ok(Err(TestError::Failed(x))) => if x == name { "failed".into() } else { "failed, wrong name".to_string() },
        Ok(Err(TestError::UnsupportedAction(x))) => if x == action { "unsupported".into() } else { "unsupported, wrong action".to_string() },
        Ok(Err(TestError::DecodingError)) => "decoding".into(),
    }
}

fn proof_fixture(c: &mut Ctx, rng: &mut Rng, f: &Forgery, n: u64, claim: bool) {
    let name = format!("fixture {}", rng.below(1000));
    let bad = rng.chance(1, 16);
    // 0: the root, else an element of the proof
    let at = if bad { rng.below(f.set.len() as u64 + 1) as usize } else { 0 };
    let mut flaw = String::new();
    let root = if bad && at == 0 {
        let (t, e) = misfit(rng, &mut flaw, "root");
        EncodedValue::new(t, encoding(e))
    } else {
        value(rng, &f.root)
    };
    let mut set: Vec<EncodedValue> = f.set.iter().map(|x| value(rng, x)).collect();
    if bad && at > 0 {
        let (t, e) = misfit(rng, &mut flaw, "element");
        set[at - 1] = EncodedValue::new(t, encoding(e));
    }
    let t = ProofTest {
        name: name.clone(),
        function_name: "f".into(),
        description: "d".into(),
        root,
        proof_set: set,
        proof_index: f.i,
        num_leaves: n,
        expected_verification: claim,
    };
    let yaml = rng.chance(1, 2);
    let r = guard(|| {
        let t = if yaml {
            let text = serde_yaml::to_string(&t).unwrap();
            serde_yaml::from_str::<ProofTest>(&text).unwrap()
        } else {
            t
        };
        t.execute()
    });
    c.out.put(
        ev("fixture").s("root", &hex(&f.root)).list("set", &f.set).n("i", clip(f.i)).n("n", clip(n))
            .s("d", &hex(f.d.as_deref().unwrap_or(&[]))).b("bad", bad).s("flaw", &flaw).b("claim", claim).s("r", &outcome(r, &name, "")),
    );
}

fn proof_fixtures(c: &mut Ctx, rng: &mut Rng, n: u64, few: bool) {
    let ds = leaves(rng, n);
    let l: Vec<B32> = ds.iter().map(|d| leaf(d)).collect();
    let root = mth(&l);
    c.out.case("Trace_Binary", &format!("proof fixtures of {} leaves", n));
    pushn(c, &ds);
    for i in 0..n {
        if few && i + 1 != n && !rng.chance(2, n) {
            continue;
        }
        let p = path(i, &l);
        let fs = forgeries(rng, &ds, &l, i, &root, &p);
        for (x, f) in fs.iter().enumerate() {
            if f.d.is_none() && !f.set.is_empty() {
                continue;
            }
            if x == 0 || rng.chance(1, 2) {
                proof_fixture(c, rng, f, n, true);
                proof_fixture(c, rng, f, n, false);
            }
            if x == 0 {
                // claimed to be of a smaller tree, which has no such leaf
                for m in [0, i / 2, i] {
                    proof_fixture(c, rng, f, m, true);
                    proof_fixture(c, rng, f, m, false);
                }
            }
        }
    }
}

// -- sparse -------------------------------------------------------------------

fn bit(k: &B32, i: usize) -> bool {
    k[i / 8] >> (7 - i % 8) & 1 == 1
}

/// The root of a map, to claim it.
fn sparse_root(m: &[(B32, B32)], depth: usize) -> B32 {
    match m.len() {
        0 => [0; 32],
        1 => sha(&[&[0], &m[0].0, &m[0].1]),
        _ => {
            let k = m.iter().position(|x| bit(&x.0, depth)).unwrap_or(m.len());
            sha(&[&[1], &sparse_root(&m[..k], depth + 1), &sparse_root(&m[k..], depth + 1)])
        }
    }
}

struct Step {
    action: String,
    key: Option<B32>,
    data: Option<Vec<u8>>,
}

fn quote(s: &str) -> String {
    format!("\"{}\"", s)
}

fn field(v: Option<(String, &str)>) -> String {
    match v {
        None => "null".into(),
        Some((t, e)) => format!("{{value: {}, encoding: {}}}", quote(&t), e),
    }
}

fn sparse_fixture(c: &mut Ctx, rng: &mut Rng, steps: &[Step], claim: &B32, flaw: u64) {
    // flaw: 1 in the root, 2 in a key, 3 in data
    let name = format!("sparse {}", rng.below(1000));
    let n = steps.len();
    let at = rng.below(n.max(1) as u64) as usize;
    let mut bad = false;
    let mut what = String::new();
    let mut action = String::new();
    let mut text = format!("name: {}\n", name);
    let root = if flaw == 1 {
        bad = true;
        misfit(rng, &mut what, "root")
    } else {
        enc(rng, claim)
    };
    text += &format!("expected_root: {}\nsteps:", field(Some(root)));
    text += if n == 0 { " []\n" } else { "\n" };
    let mut es = vec![];
    for (x, s) in steps.iter().enumerate() {
        let known = s.action == "update" || s.action == "delete";
        let mut key = s.key.as_ref().map(|k| enc(rng, k));
        let mut data = s.data.as_ref().map(|d| enc(rng, d));
        if x == at && flaw == 2 && known {
            bad = true;
            key = Some(misfit(rng, &mut what, "key"));
        }
        if x == at && flaw == 3 && s.action == "update" {
            bad = true;
            what = "data".into();
            data = Some(junk(rng));
        }
        if !known && action.is_empty() {
            action = s.action.clone();
        }
        text += &format!("  - {{action: {}, key: {}, data: {}}}\n", quote(&s.action), field(key), field(data));
        es.push(format!(
            "[\"{}\",\"{}\",\"{}\"]",
            s.action,
            s.key.map(|k| hex(&k)).unwrap_or_default(),
            s.data.as_ref().map(|d| hex(d)).unwrap_or_default()
        ));
    }
    let r = guard(|| serde_yaml::from_str::<sparse::Test>(&text).unwrap().execute());
    c.out.put(
        ev("fixture").raw("steps", &format!("[{}]", es.join(","))).s("claim", &hex(claim)).b("bad", bad).s("flaw", &what)
            .s("r", &outcome(r, &name, &action)),
    );
}

fn sparse_fixtures(c: &mut Ctx, rng: &mut Rng) {
    c.out.case("Trace_Sparse", "sparse fixtures");
    let mut keys: Vec<B32> = vec![];
    for _ in 0..rng.range(1, 12) {
        let k: B32 = if !keys.is_empty() && rng.chance(2, 3) {
            let mut k = *rng.pick(&keys);
            let b = rng.below(256) as usize;
            k[b / 8] ^= 0x80 >> (b % 8);
            k
        } else if rng.chance(1, 3) {
            // a key that can be written as text
            let mut k = [0; 32];
            for x in k.iter_mut() {
                *x = b'a' + rng.below(26) as u8;
            }
            k
        } else {
            rng.b32()
        };
        keys.push(k);
    }
    let mut m: BTreeMap<B32, B32> = BTreeMap::new();
    let mut steps = vec![];
    let mut past = vec![[0; 32], rng.b32()];
    for _ in 0..rng.below(16) {
        let k = *rng.pick(&keys);
        let d: Vec<u8> = match rng.below(4) {
            0 => vec![],
            1 => b"DATA".to_vec(),
            2 => {
                let n = rng.range(1, 80) as usize;
                rng.bytes(n)
            }
            _ => vec![rng.below(256) as u8],
        };
        if rng.chance(1, 3) {
            m.remove(&k);
            steps.push(Step { action: "delete".into(), key: Some(k), data: if rng.chance(1, 4) { Some(d) } else { None } });
        } else {
            if d.is_empty() {
                m.remove(&k);
            } else {
                m.insert(k, sha(&[&d]));
            }
            steps.push(Step { action: "update".into(), key: Some(k), data: Some(d) });
        }
        let es: Vec<(B32, B32)> = m.iter().map(|(k, v)| (*k, *v)).collect();
        past.push(sparse_root(&es, 0));
    }
    let es: Vec<(B32, B32)> = m.iter().map(|(k, v)| (*k, *v)).collect();
    let root = sparse_root(&es, 0);
    sparse_fixture(c, rng, &steps, &root, 0);
    let mut other = root;
    other[rng.below(32) as usize] ^= 1 << rng.below(8);
    sparse_fixture(c, rng, &steps, &other, 0);
    // roots of the past
    for _ in 0..2 {
        let r = *rng.pick(&past);
        sparse_fixture(c, rng, &steps, &r, 0);
    }
    // the true root of other steps
    if steps.len() > 1 {
        let x = rng.below(steps.len() as u64) as usize;
        let s = steps.remove(x);
        sparse_fixture(c, rng, &steps, &root, 0);
        steps.insert(x, s);
        let y = rng.below(steps.len() as u64) as usize;
        steps.swap(x, y);
        sparse_fixture(c, rng, &steps, &root, 0);
        steps.swap(x, y);
    }
    let flaw = rng.range(1, 3);
    sparse_fixture(c, rng, &steps, &root, flaw);
    // an action that does not exist
    let a = *rng.pick(&["Update", "insert", "", "updated", "remove", "Delete", "delet", "DELETE", "none"]);
    let x = rng.below(steps.len() as u64 + 1) as usize;
    let full = rng.chance(1, 2);
    steps.insert(
        x,
        Step {
            action: a.into(),
            key: if full { Some(keys[0]) } else { None },
            data: if full { Some(vec![1, 2]) } else { None },
        },
    );
    sparse_fixture(c, rng, &steps, &root, 0);
}

fn encodings(c: &mut Ctx, rng: &mut Rng) {
    c.out.case("Trace_Binary", "encoded values");
    for n in 0..=c.size(70, 300) {
        for style in 0..3 {
            let b: Vec<u8> = match style {
                0 => rng.bytes(n as usize),
                1 => (0..n).map(|_| b' ' + rng.below(95) as u8).collect(),
                _ => vec![if n % 2 == 0 { 0 } else { 0xff }; n as usize],
            };
            let mut put = |c: &mut Ctx, r: Result<Result<Vec<u8>, TestError>, ()>| {
                let (r, v) = match r {
                    Err(()) => ("panic", String::new()),
                    Ok(Err(_)) => ("err", String::new()),
                    Ok(Ok(v)) => ("ok", hex(&v)),
                };
                c.out.put(ev("coded").s("d", &hex(&b)).s("r", r).s("v", &v));
            };
            put(c, guard(|| EncodedValue::from_raw(&b, Encoding::Hex).into_bytes()));
            put(c, guard(|| EncodedValue::from_raw(&b, Encoding::Base64).into_bytes()));
            put(c, guard(|| EncodedValue::new(hex(&b), Encoding::Hex).into_bytes()));
            put(c, guard(|| EncodedValue::new(base64(&b), Encoding::Base64).into_bytes()));
            let v = value(rng, &b);
            put(c, guard(|| {
                let text = serde_yaml::to_string(&v).unwrap();
                serde_yaml::from_str::<EncodedValue>(&text).unwrap().into_bytes()
            }));
            let (t, e) = junk(rng);
            let r = match guard(|| EncodedValue::new(t, encoding(e)).into_bytes()) {
                Err(()) => "panic",
                Ok(Err(TestError::DecodingError)) => "decoding",
                Ok(_) => "other",
            };
            c.out.put(ev("junk").s("r", r));
            if style == 1 {
                put(c, guard(|| EncodedValue::from_raw(&b, Encoding::Utf8).into_bytes()));
                let t = String::from_utf8(b.clone()).unwrap();
                put(c, guard(|| EncodedValue::new(t, Encoding::Utf8).into_bytes()));
            }
        }
    }
}

pub fn v03(c: &mut Ctx) {
    let mut rng = c.rng("V03");
    for n in 1..=c.size(12, 20) {
        proof_fixtures(c, &mut rng, n, false);
    }
    for _ in 0..c.size(16, 150) {
        let n = rng.range(13, c.size(140, 600));
        proof_fixtures(c, &mut rng, n, true);
    }
    for _ in 0..c.size(600, 8000) {
        sparse_fixtures(c, &mut rng);
    }
    encodings(c, &mut rng);
}
