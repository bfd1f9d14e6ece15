#![allow(dead_code, unused_imports)]
use fuel_merkle::storage::{Mappable, StorageInspect, StorageMutate};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

/// A shared store that can refuse calls and that logs its writes.
pub struct Inner<K, V> {
    pub map: BTreeMap<K, V>,
    pub writes: Vec<K>,
    /// Writes (or reads) that still succeed, if limited.
    pub writes_left: Option<usize>,
    pub reads_left: Option<usize>,
}
pub struct Db<K, V>(pub Rc<RefCell<Inner<K, V>>>);
impl<K, V> Clone for Db<K, V> {
    fn clone(&self) -> Self {
        Db(self.0.clone())
    }
}
#[derive(Debug, Clone, PartialEq)]
pub struct Refused;
impl std::fmt::Display for Refused {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "refused")
    }
}
impl std::error::Error for Refused {}
impl<K: Ord + Clone, V: Clone> Db<K, V> {
    pub fn new() -> Self {
        Self::of(BTreeMap::new())
    }
    pub fn of(map: BTreeMap<K, V>) -> Self {
        Db(Rc::new(RefCell::new(Inner { map, writes: vec![], writes_left: None, reads_left: None })))
    }
    pub fn fail_after(&self, n: Option<usize>) {
        self.0.borrow_mut().writes_left = n;
    }
    pub fn fail_reads_after(&self, n: Option<usize>) {
        self.0.borrow_mut().reads_left = n;
    }
    pub fn map(&self) -> BTreeMap<K, V> {
        self.0.borrow().map.clone()
    }
    fn write(&self) -> Result<(), Refused> {
        let mut s = self.0.borrow_mut();
        match s.writes_left {
            Some(0) => return Err(Refused),
            Some(n) => s.writes_left = Some(n - 1),
            None => {}
        }
        Ok(())
    }
    fn read(&self) -> Result<(), Refused> {
        let mut s = self.0.borrow_mut();
        match s.reads_left {
            Some(0) => return Err(Refused),
            Some(n) => s.reads_left = Some(n - 1),
            None => {}
        }
        Ok(())
    }
}
impl<T, K: Ord + Clone, V: Clone> StorageInspect<T> for Db<K, V>
where
    T: Mappable<Key = K, SetValue = V, GetValue = V>,
{
    type Error = Refused;
    fn get(&self, k: &K) -> Result<Option<Cow<V>>, Refused> {
        self.read()?;
        Ok(self.0.borrow().map.get(k).cloned().map(Cow::Owned))
    }
    fn contains_key(&self, k: &K) -> Result<bool, Refused> {
        self.read()?;
        Ok(self.0.borrow().map.contains_key(k))
    }
}
impl<T, K: Ord + Clone, V: Clone> StorageMutate<T> for Db<K, V>
where
    T: Mappable<Key = K, SetValue = V, GetValue = V>,
{
    fn insert(&mut self, k: &K, v: &V) -> Result<Option<V>, Refused> {
        self.write()?;
        let mut s = self.0.borrow_mut();
        s.writes.push(k.clone());
        Ok(s.map.insert(k.clone(), v.clone()))
    }
    fn remove(&mut self, k: &K) -> Result<Option<V>, Refused> {
        self.write()?;
        let mut s = self.0.borrow_mut();
        s.writes.push(k.clone());
        Ok(s.map.remove(k))
    }
}

type B32 = [u8; 32];
fn sha(parts: &[&[u8]]) -> B32 {
    use sha2::Digest;
    let mut h = sha2::Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}
fn leaf(d: &[u8]) -> B32 {
    sha(&[&[0], d])
}
fn node(a: &B32, b: &B32) -> B32 {
    sha(&[&[1], a, b])
}
fn mth(l: &[B32]) -> B32 {
    match l.len() {
        0 => sha(&[]),
        1 => l[0],
        n => {
            let k = n.next_power_of_two() / 2;
            node(&mth(&l[..k]), &mth(&l[k..]))
        }
    }
}
fn path(i: usize, l: &[B32]) -> Vec<B32> {
    if l.len() == 1 {
        return vec![l[0]];
    }
    let k = l.len().next_power_of_two() / 2;
    let (a, b) = l.split_at(k);
    let (mut p, s) = if i < k { (path(i, a), mth(b)) } else { (path(i - k, b), mth(a)) };
    p.push(s);
    p
}
fn bit(k: &B32, i: usize) -> bool {
    k[i / 8] >> (7 - i % 8) & 1 == 1
}
/// Root of the sparse tree over these entries (key, value).
fn smt(m: &BTreeMap<B32, Vec<u8>>) -> B32 {
    fn go(m: &[(B32, B32)], d: usize) -> B32 {
        match m.len() {
            0 => [0; 32],
            1 => sha(&[&[0], &m[0].0, &m[0].1]),
            _ => {
                let k = m.iter().position(|x| bit(&x.0, d)).unwrap_or(m.len());
                node(&go(&m[..k], d + 1), &go(&m[k..], d + 1))
            }
        }
    }
    let v: Vec<(B32, B32)> = m.iter().map(|(k, v)| (*k, sha(&[v]))).collect();
    go(&v, 0)
}

pub struct BTable;
impl Mappable for BTable {
    type Key = u64;
    type SetValue = fuel_merkle::binary::Primitive;
    type GetValue = Self::SetValue;
}
type BDb = Db<u64, fuel_merkle::binary::Primitive>;
type BTree = fuel_merkle::binary::MerkleTree<BTable, BDb>;
pub struct STable;
impl Mappable for STable {
    type Key = B32;
    type SetValue = fuel_merkle::sparse::Primitive;
    type GetValue = Self::SetValue;
}
type SDb = Db<B32, fuel_merkle::sparse::Primitive>;
type STree = fuel_merkle::sparse::MerkleTree<STable, SDb>;

