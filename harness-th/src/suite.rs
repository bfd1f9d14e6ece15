//! The fixture generator, run twice in scratch directories.
use crate::util::*;
use crate::Ctx;
use fuel_merkle_test_helpers::data::binary::ProofTest;
use serde_yaml::Value;
use std::collections::{BTreeMap, HashMap};
use std::path::Path;

const SHIPPED: &str = "/repo/tests-data-binary/fixtures";

fn files(dir: &Path) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    if let Ok(d) = std::fs::read_dir(dir) {
        for f in d.flatten() {
            m.insert(
                f.file_name().to_string_lossy().to_string(),
                std::fs::read_to_string(f.path()).unwrap_or_default(),
            );
        }
    }
    m
}

fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 || !s.is_ascii() {
        return None;
    }
    (0..s.len() / 2).map(|x| u8::from_str_radix(&s[2 * x..2 * x + 2], 16).ok()).collect()
}

fn unbase64(s: &str) -> Option<Vec<u8>> {
    let mut v = vec![];
    let (mut acc, mut bits) = (0u32, 0);
    for c in s.bytes().filter(|c| *c != b'=') {
        let x = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'+' => 62,
            b'/' => 63,
            _ => return None,
        };
        acc = acc << 6 | x as u32;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            v.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    Some(v)
}

fn coded(v: &Value) -> Option<Vec<u8>> {
    let t = v.get("value")?.as_str()?;
    match v.get("encoding")?.as_str()? {
        "hex" => unhex(t),
        "base64" => unbase64(t),
        "utf-8" => Some(t.as_bytes().to_vec()),
        _ => None,
    }
}

/// What a fixture says, read without the code under test: JSON, first element.
fn read(text: &str) -> Option<(String, Option<B32>)> {
    let v: Value = serde_yaml::from_str(text).ok()?;
    let root = coded(v.get("root")?)?;
    let mut set = vec![];
    for x in v.get("proof_set")?.as_sequence()? {
        set.push(hex(&coded(x)?));
    }
    let first = v.get("proof_set")?.as_sequence()?.first().and_then(coded).and_then(|x| x.try_into().ok());
    let i = v.get("proof_index")?.as_u64()?;
    let n = v.get("num_leaves")?.as_u64()?;
    let claim = v.get("expected_verification")?.as_bool()?;
    let name = v.get("name")?.as_str()?;
    Some((
        format!(
            "{{\"name\":\"{}\",\"root\":\"{}\",\"set\":{},\"i\":{},\"n\":{},\"claim\":{}}}",
            name,
            hex(&root),
            strs(&set),
            clip(i),
            clip(n),
            claim
        ),
        first,
    ))
}

pub fn v04(c: &mut Ctx, scratch: &str) {
    let bin = std::env::var("TOOL").expect("TOOL");
    let mut runs = vec![];
    let mut status = "ok";
    for x in 0..2 {
        let d = Path::new(scratch).join(format!("generated{}", x));
        std::fs::create_dir_all(d.join("tests-data-binary/fixtures")).unwrap();
        std::fs::create_dir_all(d.join("test-helpers")).unwrap();
        let s = std::process::Command::new(&bin)
            .current_dir(d.join("test-helpers"))
            .stdin(std::process::Stdio::null())
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status();
        if !s.map(|x| x.success()).unwrap_or(false) {
            status = "failed";
        }
        runs.push(files(&d.join("tests-data-binary/fixtures")));
    }
    let shipped = files(Path::new(SHIPPED));
    let pool: HashMap<B32, B32> = (0..1u64 << 16)
        .map(|x| {
            let d = sha(&[&x.to_be_bytes()]);
            (sha(&[&[0], &d]), d)
        })
        .collect();
    c.out.case("Trace_Suite", "the generator's fixtures");
    for (name, text) in &runs[0] {
        let now = read(text);
        let was = shipped.get(name).and_then(|t| read(t));
        let run = guard(|| match serde_yaml::from_str::<ProofTest>(text) {
            Ok(t) => match t.execute() {
                Ok(()) => "ok",
                Err(_) => "failed",
            },
            Err(_) => "unreadable",
        })
        .unwrap_or("panic");
        let d = now.as_ref().and_then(|x| x.1).and_then(|x| pool.get(&x).cloned());
        let none = || "{}".to_string();
        let r = if now.is_some() && was.is_some() { "ok" } else { "unreadable" };
        c.out.put(
            ev("gen")
                .s("name", name)
                .s("r", r)
                .raw("now", &now.map(|x| x.0).unwrap_or_else(none))
                .raw("was", &was.map(|x| x.0).unwrap_or_else(none))
                .b("pool", d.is_some())
                .s("d", &hex(&d.unwrap_or_default()))
                .s("run", run),
        );
    }
    let names: Vec<String> = shipped.keys().cloned().collect();
    c.out.put(ev("suite").s("r", status).raw("shipped", &strs(&names)).b("again", runs[0] == runs[1]));
}
