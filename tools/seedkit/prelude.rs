#![allow(dead_code, unused_imports)]
pub use anyhow::{anyhow, Result};
pub use banyan::{
    index::*,
    query::*,
    store::{BlockWriter, BranchCache, MemCache, MemStore, ReadOnlyStore, ZstdDagCborSeq},
    Config, FilteredChunk, Forest, Secrets, StreamBuilder, Transaction, Tree, TreeTypes,
};
pub use banyan_utils::tag_index::{Tag, TagSet};
pub use banyan_utils::tags::{DnfQuery, Key, KeySeq, Sha256Digest, TT};
pub use futures::prelude::*;
pub use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
pub use std::sync::{Arc, Mutex};

pub type L = Sha256Digest;

#[derive(Default)]
pub struct Inner {
    pub blocks: HashMap<L, Box<[u8]>>,
    pub gets: Vec<L>,
    pub puts: Vec<L>,
    /// reads of these blocks fail
    pub broken: HashSet<L>,
    /// this many writes succeed, then one fails
    pub fail_put_in: Option<usize>,
}

/// in memory store that records reads and writes and fails on demand
#[derive(Clone, Default)]
pub struct S(pub Arc<Mutex<Inner>>);

impl S {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with<X>(&self, f: impl FnOnce(&mut Inner) -> X) -> X {
        f(&mut self.0.lock().unwrap())
    }
}
impl ReadOnlyStore<L> for S {
    fn get(&self, link: &L) -> Result<Box<[u8]>> {
        self.with(|x| {
            x.gets.push(*link);
            if x.broken.contains(link) {
                return Err(anyhow!("broken"));
            }
            x.blocks.get(link).cloned().ok_or_else(|| anyhow!("missing block"))
        })
    }
}
impl BlockWriter<L> for S {
    fn put(&mut self, data: Vec<u8>) -> Result<L> {
        let l = L::digest(&data);
        self.with(|x| {
            match &mut x.fail_put_in {
                Some(0) => {
                    x.fail_put_in = None;
                    return Err(anyhow!("disk full"));
                }
                Some(n) => *n -= 1,
                None => {}
            }
            x.puts.push(l);
            x.blocks.insert(l, data.into());
            Ok(l)
        })
    }
}

pub type Txn = Transaction<TT, S, S>;
pub type B = StreamBuilder<TT, u64>;

pub fn forest(s: &S) -> Forest<TT, S> {
    Forest::new(s.clone(), BranchCache::new(0))
}
pub fn txn(s: &S) -> Txn {
    Transaction::new(forest(s), s.clone())
}
pub fn txn_cached(s: &S) -> Txn {
    Transaction::new(Forest::new(s.clone(), BranchCache::new(1 << 20)), s.clone())
}
pub fn cfg(leaf: usize, key: usize, sum: usize) -> Config {
    Config { max_leaf_count: leaf, max_key_branches: key, max_summary_branches: sum, ..Config::debug() }
}
pub fn secrets() -> Secrets {
    Secrets::new([1; 32].into(), [2; 32].into())
}
pub fn builder(c: Config) -> B {
    StreamBuilder::new(c, secrets())
}
pub fn tags(x: &[&str]) -> TagSet {
    x.iter().map(|x| Tag::from(*x)).collect()
}
pub fn key(n: u64) -> Key {
    Key::single(n, n, tags(&["t"]))
}
pub fn items(r: std::ops::Range<u64>) -> Vec<(Key, u64)> {
    r.map(|i| (key(i), i)).collect()
}
pub fn values(f: &Forest<TT, S>, t: &Tree<TT, u64>) -> Vec<u64> {
    f.collect::<u64>(t).unwrap().into_iter().map(|x| x.map(|x| x.1).unwrap_or(u64::MAX)).collect()
}
pub fn range(r: std::ops::Range<u64>) -> Vec<u64> {
    r.collect()
}
