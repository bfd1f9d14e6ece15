//! A storage that the driver can inspect, make fail, and cut off.
use fuel_merkle::storage::{Mappable, StorageInspect, StorageMutate};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

/// The error of an injected failure, recognised by its name.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct InjectedFault(pub u64);

impl std::fmt::Display for InjectedFault {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "InjectedFault({})", self.0)
    }
}
impl std::error::Error for InjectedFault {}

pub struct Inner<K, V> {
    pub map: BTreeMap<K, V>,
    /// Effective writes since the last `begin`: (key, inserted value or None).
    pub log: Vec<(K, Option<V>)>,
    reads: u64,
    writes: u64,
    fail_read: Option<u64>,
    fail_write: Option<u64>,
    /// After this many writes the storage is gone for good.
    cut: Option<u64>,
    fired: bool,
    serial: u64,
}

pub struct Shared<K, V>(pub Rc<RefCell<Inner<K, V>>>);

impl<K, V> Clone for Shared<K, V> {
    fn clone(&self) -> Self {
        Shared(self.0.clone())
    }
}

impl<K: Ord + Clone, V: Clone> Shared<K, V> {
    pub fn new() -> Self {
        Self::with(BTreeMap::new())
    }
    pub fn with(map: BTreeMap<K, V>) -> Self {
        Shared(Rc::new(RefCell::new(Inner {
            map,
            log: vec![],
            reads: 0,
            writes: 0,
            fail_read: None,
            fail_write: None,
            cut: None,
            fired: false,
            serial: 0,
        })))
    }
    pub fn copy(&self) -> Self {
        Self::with(self.snapshot())
    }
    pub fn snapshot(&self) -> BTreeMap<K, V> {
        self.0.borrow().map.clone()
    }
    pub fn begin(&self) {
        let mut s = self.0.borrow_mut();
        s.log.clear();
        s.reads = 0;
        s.writes = 0;
        s.fail_read = None;
        s.fail_write = None;
        s.cut = None;
        s.fired = false;
    }
    pub fn fail_write(&self, at: Option<u64>) {
        self.0.borrow_mut().fail_write = at;
    }
    pub fn fail_read(&self, at: Option<u64>) {
        self.0.borrow_mut().fail_read = at;
    }
    pub fn cut(&self, at: Option<u64>) {
        self.0.borrow_mut().cut = at;
    }
    pub fn fired(&self) -> bool {
        self.0.borrow().fired
    }
    pub fn writes(&self) -> u64 {
        self.0.borrow().writes
    }
    pub fn reads(&self) -> u64 {
        self.0.borrow().reads
    }
    pub fn log(&self) -> Vec<(K, Option<V>)> {
        self.0.borrow().log.clone()
    }
    /// The pre-state with the first `n` logged writes applied.
    pub fn prefix(pre: &BTreeMap<K, V>, log: &[(K, Option<V>)], n: usize) -> BTreeMap<K, V> {
        let mut m = pre.clone();
        for (k, v) in &log[..n] {
            match v {
                Some(v) => {
                    m.insert(k.clone(), v.clone());
                }
                None => {
                    m.remove(k);
                }
            }
        }
        m
    }
}

impl<K, V> Inner<K, V> {
    fn read(&mut self) -> Result<(), InjectedFault> {
        let n = self.reads;
        self.reads += 1;
        let dead = self.cut.map_or(false, |c| self.writes >= c && self.fired);
        if dead || self.fail_read == Some(n) {
            self.fired = true;
            self.serial += 1;
            return Err(InjectedFault(self.serial));
        }
        Ok(())
    }
    fn write(&mut self) -> Result<(), InjectedFault> {
        let n = self.writes;
        self.writes += 1;
        if self.cut.map_or(false, |c| n >= c) || self.fail_write == Some(n) {
            self.fired = true;
            self.serial += 1;
            return Err(InjectedFault(self.serial));
        }
        Ok(())
    }
}

impl<T, K, V> StorageInspect<T> for Shared<K, V>
where
    T: Mappable<Key = K, SetValue = V, GetValue = V>,
    K: Ord + Clone,
    V: Clone,
{
    type Error = InjectedFault;
    fn get(&self, key: &K) -> Result<Option<Cow<V>>, InjectedFault> {
        let mut s = self.0.borrow_mut();
        s.read()?;
        Ok(s.map.get(key).cloned().map(Cow::Owned))
    }
    fn contains_key(&self, key: &K) -> Result<bool, InjectedFault> {
        let mut s = self.0.borrow_mut();
        s.read()?;
        Ok(s.map.contains_key(key))
    }
}

impl<T, K, V> StorageMutate<T> for Shared<K, V>
where
    T: Mappable<Key = K, SetValue = V, GetValue = V>,
    K: Ord + Clone,
    V: Clone,
{
    fn insert(&mut self, key: &K, value: &V) -> Result<Option<V>, InjectedFault> {
        let mut s = self.0.borrow_mut();
        s.write()?;
        s.log.push((key.clone(), Some(value.clone())));
        Ok(s.map.insert(key.clone(), value.clone()))
    }
    fn remove(&mut self, key: &K) -> Result<Option<V>, InjectedFault> {
        let mut s = self.0.borrow_mut();
        s.write()?;
        s.log.push((key.clone(), None));
        Ok(s.map.remove(key))
    }
}
