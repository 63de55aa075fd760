//! The instantiation of banyan that is checked (key/summary/value types, an instrumented block
//! store), the reference model, and the generators for configs, keys, values and queries.
use crate::engine::*;
use banyan::{
    index::{BranchIndex, LeafIndex, Summarizable, VecSeq},
    query::{AllQuery, AndQuery, EmptyQuery, OffsetRangeQuery, OrQuery, Query, QueryExt},
    store::{BlockWriter, BranchCache, ReadOnlyStore},
    Config, Forest, Secrets, StreamBuilder, Transaction, Tree, TreeTypes,
};
pub use banyan_utils::tags::Sha256Digest as Link;
use cbor_data::CborOwned;
use libipld::{Cid, DagCbor};
use parking_lot::Mutex;
use std::{
    collections::{HashMap, HashSet},
    convert::TryFrom,
    ops::Bound,
    sync::Arc,
};

pub type Val = CborOwned;

/// tree types with a non-trivial nonce and a summary that determines the content of a subtree
#[derive(Debug, Clone)]
pub struct HT;

#[derive(Debug, Clone, PartialEq, Eq, DagCbor)]
pub struct HKey {
    pub t: u64,
    pub c: u8,
    pub p: String,
    pub l: Vec<Cid>,
}

/// Summary: min/max of t, bit set of c, number of keys, and an (associative, order sensitive)
/// polynomial hash over all keys below. So a wrong summary for any subtree is always visible.
#[derive(Debug, Clone, PartialEq, Eq, DagCbor)]
pub struct HSum {
    pub min: u64,
    pub max: u64,
    pub cats: u64,
    pub n: u64,
    pub h: u64,
}

const B: u64 = 0x9E3779B97F4A7C15 | 1;

fn powb(mut e: u64) -> u64 {
    let (mut r, mut b) = (1u64, B);
    while e > 0 {
        if e & 1 == 1 {
            r = r.wrapping_mul(b);
        }
        b = b.wrapping_mul(b);
        e >>= 1;
    }
    r
}

impl HSum {
    pub fn single(k: &HKey) -> Self {
        let mut s = k.t ^ ((k.c as u64) << 56) ^ fnv(k.p.as_bytes());
        for l in &k.l {
            s ^= fnv(&l.to_bytes());
        }
        HSum {
            min: k.t,
            max: k.t,
            cats: 1 << (k.c & 63),
            n: 1,
            h: splitmix(&mut s),
        }
    }
    pub fn combine(&self, o: &HSum) -> HSum {
        HSum {
            min: self.min.min(o.min),
            max: self.max.max(o.max),
            cats: self.cats | o.cats,
            n: self.n.wrapping_add(o.n),
            h: self.h.wrapping_mul(powb(o.n)).wrapping_add(o.h),
        }
    }
    pub fn of<'a>(mut it: impl Iterator<Item = &'a HKey>) -> HSum {
        let first = HSum::single(it.next().expect("non empty"));
        it.fold(first, |a, k| a.combine(&HSum::single(k)))
    }
}

impl Summarizable<HSum> for VecSeq<HKey> {
    fn summarize(&self) -> HSum {
        HSum::of(self.as_ref().iter())
    }
}
impl Summarizable<HSum> for VecSeq<HSum> {
    fn summarize(&self) -> HSum {
        let s = self.as_ref();
        s[1..].iter().fold(s[0].clone(), |a, x| a.combine(x))
    }
}

pub const HT_NONCE: [u8; 24] = *b"banyan verif nonce 24 by";

impl TreeTypes for HT {
    type Key = HKey;
    type Summary = HSum;
    type KeySeq = VecSeq<HKey>;
    type SummarySeq = VecSeq<HSum>;
    type Link = Link;
    const NONCE: &'static [u8; 24] = &HT_NONCE;
}

// ------------------------------------------------------------------------------------------
// store

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Plan {
    None,
    /// fail operation number n (counted from 0, from now on) once
    Nth(u64),
    /// fail operation number n and all following ones
    From(u64),
}

impl Plan {
    fn hit(&mut self) -> bool {
        match self {
            Plan::None => false,
            Plan::Nth(0) => {
                *self = Plan::None;
                true
            }
            Plan::Nth(n) => {
                *n -= 1;
                false
            }
            Plan::From(0) => true,
            Plan::From(n) => {
                *n -= 1;
                false
            }
        }
    }
}

pub struct StoreInner {
    pub blocks: HashMap<Link, Arc<[u8]>>,
    /// every successful put, in order
    pub puts: Vec<Link>,
    pub put_count: u64,
    /// everything that was ever handed to put, including failed ones, if enabled
    pub attempts: Option<Vec<Vec<u8>>>,
    pub get_count: u64,
    pub get_log: Option<Vec<Link>>,
    pub missing: HashSet<Link>,
    /// links that fail a given number of times
    pub flaky: HashMap<Link, u32>,
    pub fail_put: Plan,
    pub fail_get: Plan,
    /// panic instead of failing
    pub panic_put: Plan,
    pub panic_get: Plan,
    pub panics: u64,
    pub injected: u64,
    /// deterministic runaway detection
    pub get_budget: u64,
    pub runaway: bool,
}

#[derive(Clone)]
pub struct HStore(pub Arc<Mutex<StoreInner>>);

impl HStore {
    pub fn new() -> Self {
        HStore(Arc::new(Mutex::new(StoreInner {
            blocks: HashMap::new(),
            puts: vec![],
            put_count: 0,
            attempts: None,
            get_count: 0,
            get_log: None,
            missing: HashSet::new(),
            flaky: HashMap::new(),
            fail_put: Plan::None,
            fail_get: Plan::None,
            panic_put: Plan::None,
            panic_get: Plan::None,
            panics: 0,
            injected: 0,
            get_budget: u64::MAX,
            runaway: false,
        })))
    }
    pub fn with<T>(&self, f: impl FnOnce(&mut StoreInner) -> T) -> T {
        f(&mut self.0.lock())
    }
    /// an independent copy of the content
    pub fn fork(&self) -> Self {
        let s = HStore::new();
        let me = self.0.lock();
        s.0.lock().blocks = me.blocks.clone();
        drop(me);
        s
    }
    pub fn only(&self, links: &HashSet<Link>) -> Self {
        let s = HStore::new();
        s.0.lock().blocks = self
            .0
            .lock()
            .blocks
            .iter()
            .filter(|(k, _)| links.contains(k))
            .map(|(k, v)| (*k, v.clone()))
            .collect();
        s
    }
    pub fn raw(&self, l: &Link) -> Option<Arc<[u8]>> {
        self.0.lock().blocks.get(l).cloned()
    }
    pub fn put_raw(&self, data: &[u8]) -> Link {
        let l = Link::new(data);
        self.0.lock().blocks.insert(l, data.into());
        l
    }
}

impl ReadOnlyStore<Link> for HStore {
    fn get(&self, link: &Link) -> anyhow::Result<Box<[u8]>> {
        let mut s = self.0.lock();
        s.get_count += 1;
        if s.get_budget == 0 {
            s.runaway = true;
            anyhow::bail!("get budget exhausted");
        }
        s.get_budget -= 1;
        if let Some(l) = &mut s.get_log {
            l.push(*link);
        }
        if s.panic_get.hit() {
            s.panics += 1;
            drop(s);
            std::panic::panic_any("the store panics");
        }
        if s.fail_get.hit() {
            s.injected += 1;
            anyhow::bail!("injected get failure");
        }
        if let Some(n) = s.flaky.get_mut(link) {
            if *n > 0 {
                *n -= 1;
                s.injected += 1;
                anyhow::bail!("injected transient get failure");
            }
        }
        if s.missing.contains(link) {
            s.injected += 1;
            anyhow::bail!("block is missing");
        }
        match s.blocks.get(link) {
            Some(b) => Ok(b.as_ref().into()),
            None => anyhow::bail!("block not found"),
        }
    }
}

impl BlockWriter<Link> for HStore {
    fn put(&mut self, data: Vec<u8>) -> anyhow::Result<Link> {
        let mut s = self.0.lock();
        s.put_count += 1;
        if let Some(a) = &mut s.attempts {
            a.push(data.clone());
        }
        if s.panic_put.hit() {
            s.panics += 1;
            drop(s);
            std::panic::panic_any("the store panics");
        }
        if s.fail_put.hit() {
            s.injected += 1;
            anyhow::bail!("injected put failure");
        }
        let l = Link::new(&data);
        s.puts.push(l);
        s.blocks.insert(l, data.into());
        Ok(l)
    }
}

pub type Fst = Forest<HT, HStore>;
pub type Txn = Transaction<HT, HStore, HStore>;
pub type Bld = StreamBuilder<HT, Val>;
pub type Tr = Tree<HT, Val>;
pub type Item = (HKey, Val);

pub fn forest(store: &HStore, cache: usize) -> Fst {
    Forest::new(store.clone(), BranchCache::new(cache))
}
pub fn txn_bc(store: &HStore, cache: usize) -> (Txn, BranchCache<HT>) {
    let bc = BranchCache::new(cache);
    (
        Transaction::new(Forest::new(store.clone(), bc.clone()), store.clone()),
        bc,
    )
}
pub fn txn(store: &HStore, cache: usize) -> Txn {
    Transaction::new(forest(store, cache), store.clone())
}

// ------------------------------------------------------------------------------------------
// generators

pub fn cfg_str(c: &Config) -> String {
    format!(
        "leaf_count={} key_br={} sum_br={} target={} uncomp={} zstd={}",
        c.max_leaf_count,
        c.max_key_branches,
        c.max_summary_branches,
        c.target_leaf_size,
        c.max_uncompressed_leaf_size,
        c.zstd_level
    )
}

/// profile of the values to be generated, depends on the config
#[derive(Clone, Copy, Debug)]
pub struct ValProfile {
    pub max_len: usize,
    pub big: bool,
    pub links: bool,
}

pub fn gen_config(s: &mut Src) -> (Config, ValProfile) {
    if s.chance(1, 6) {
        // deep trees of few elements, every limit is hit often
        let c = Config {
            max_leaf_count: s.usize(1, 3),
            max_key_branches: s.usize(1, 3),
            max_summary_branches: s.usize(2, 3),
            ..Config::debug()
        };
        return (c, ValProfile { max_len: 40, big: false, links: true });
    }
    let mut big = false;
    let max_leaf_count = match s.weighted(&[4, 4, 1]) {
        0 => s.usize(1, 6),
        1 => s.usize(1, 20),
        _ => 1 << s.usize(5, 14),
    };
    let max_key_branches = match s.weighted(&[24, 4, 1]) {
        0 => s.usize(1, 5),
        1 => s.usize(1, 40),
        _ => s.usize(1, 400),
    };
    let max_summary_branches = match s.weighted(&[24, 4, 1]) {
        0 => s.usize(2, 5),
        1 => s.usize(2, 40),
        _ => s.usize(2, 400),
    };
    let target_leaf_size = match s.weighted(&[3, 2, 2]) {
        0 => 10000,
        1 => s.usize(1, 400),
        _ => 1 << s.usize(5, 20),
    };
    let (max_uncompressed_leaf_size, max_len) = match s.weighted(&[3, 3, 1]) {
        0 => (16 << 20, 40),
        1 => {
            let m = s.usize(60, 600);
            (m, 40)
        }
        _ => {
            big = true;
            (1 << s.usize(13, 24), 4000)
        }
    };
    let zstd_level = match s.weighted(&[3, 3, 1]) {
        0 => 0,
        1 => s.usize(1, 3) as i32,
        _ => s.usize(1, 9) as i32,
    };
    (
        Config {
            max_summary_branches,
            max_key_branches,
            max_leaf_count,
            target_leaf_size,
            max_uncompressed_leaf_size,
            zstd_level,
        },
        ValProfile {
            max_len,
            big,
            links: true,
        },
    )
}

pub fn gen_secrets(s: &mut Src) -> Secrets {
    match s.weighted(&[6, 1, 1]) {
        0 => {
            let a = s.key32();
            let mut b = s.key32();
            b[31] ^= 0x55;
            Secrets::new(a.into(), b.into())
        }
        1 => Secrets::default(),
        _ => {
            let a = s.key32();
            Secrets::new(a.into(), a.into())
        }
    }
}

pub fn gen_cache(s: &mut Src) -> usize {
    match s.weighted(&[2, 2, 2, 1]) {
        0 => 1 << 20,
        1 => 0,
        2 => s.usize(1, 20) * 200,
        _ => s.usize(1, 300),
    }
}

pub fn rand_cid(s: &mut Src) -> Cid {
    let seed = s.below(1 << 20);
    if s.chance(1, 6) {
        // some other kind of cid
        let mh = multihash::Multihash::wrap(0x12, &{
            let mut x = seed;
            let mut d = [0u8; 32];
            for c in d.chunks_mut(8) {
                c.copy_from_slice(&splitmix(&mut x).to_le_bytes());
            }
            d
        })
        .unwrap();
        if s.bool() {
            Cid::new_v1(0x55, mh)
        } else {
            Cid::new_v0(mh).unwrap()
        }
    } else {
        Cid::from(Link::new(&seed.to_le_bytes()))
    }
}

// --- a tiny cbor writer, independent of the cbor libraries used by the code under test
pub fn cb_head(out: &mut Vec<u8>, major: u8, n: u64) {
    let m = major << 5;
    if n < 24 {
        out.push(m | n as u8);
    } else if n <= 0xff {
        out.extend_from_slice(&[m | 24, n as u8]);
    } else if n <= 0xffff {
        out.push(m | 25);
        out.extend_from_slice(&(n as u16).to_be_bytes());
    } else if n <= 0xffff_ffff {
        out.push(m | 26);
        out.extend_from_slice(&(n as u32).to_be_bytes());
    } else {
        out.push(m | 27);
        out.extend_from_slice(&n.to_be_bytes());
    }
}
pub fn cb_u64(out: &mut Vec<u8>, n: u64) {
    cb_head(out, 0, n)
}
pub fn cb_bytes(out: &mut Vec<u8>, b: &[u8]) {
    cb_head(out, 2, b.len() as u64);
    out.extend_from_slice(b);
}
pub fn cb_str(out: &mut Vec<u8>, b: &str) {
    cb_head(out, 3, b.len() as u64);
    out.extend_from_slice(b.as_bytes());
}
pub fn cb_cid(out: &mut Vec<u8>, c: &Cid) {
    cb_head(out, 6, 42);
    let mut b = vec![0u8];
    b.extend_from_slice(&c.to_bytes());
    cb_bytes(out, &b);
}

pub const STRS: &[&str] = &["", "a", "b", "ä", "it's", "\"q\"", "日本", "\u{0}", "x y"];

pub fn gen_cbor(s: &mut Src, out: &mut Vec<u8>, depth: u32, max: usize, links: &mut Option<Vec<Cid>>) {
    let leafy = depth >= 3 || max < 24;
    let k = if leafy {
        s.weighted(&[6, 1, 2, 1, 1])
    } else {
        s.weighted(&[6, 1, 2, 1, 1, 2, 2, 1])
    };
    match k {
        0 => {
            let v = s.u64_any();
            cb_u64(out, v)
        }
        1 => {
            let v = s.u64_any();
            cb_head(out, 1, v)
        }
        2 => {
            let t = *s.pick(STRS);
            cb_str(out, t)
        }
        3 => {
            let n = s.usize(0, max.saturating_sub(10).min(64).max(1));
            let b = s.blob(n);
            cb_bytes(out, &b)
        }
        4 => match s.below(4) {
            0 => out.push(0xf4),
            1 => out.push(0xf5),
            2 => out.push(0xf6),
            _ => {
                out.push(0xfb);
                let v = s.u64_any() as f64;
                out.extend_from_slice(&v.to_be_bytes())
            }
        },
        5 => {
            let n = s.usize(0, 4);
            cb_head(out, 4, n as u64);
            for _ in 0..n {
                gen_cbor(s, out, depth + 1, max / 5, links)
            }
        }
        6 => {
            let n = s.usize(0, 3);
            cb_head(out, 5, n as u64);
            for i in 0..n {
                cb_str(out, &format!("k{}", i));
                gen_cbor(s, out, depth + 1, max / 5, links)
            }
        }
        _ => {
            if max >= 60 && s.chance(3, 4) {
                if let Some(l) = links {
                    let c = rand_cid(s);
                    cb_cid(out, &c);
                    l.push(c);
                    return;
                }
            }
            match s.weighted(&[3, 1, 1]) {
                // some other tag
                0 => {
                    cb_head(out, 6, 1000);
                    cb_u64(out, 1)
                }
                // things that are not links, although they are close
                1 => {
                    cb_head(out, 6, 42);
                    if s.bool() {
                        cb_str(out, "\u{0}a");
                    } else {
                        cb_u64(out, 1);
                    }
                }
                _ => {
                    cb_head(out, 6, 42);
                    cb_head(out, 6, 99);
                    let mut b = vec![0];
                    b.extend_from_slice(&rand_cid(s).to_bytes());
                    if b.len() + 12 <= max {
                        cb_bytes(out, &b);
                    } else {
                        cb_u64(out, 1);
                    }
                }
            }
        }
    }
}

pub fn to_val(bytes: &[u8]) -> Val {
    CborOwned::try_from(bytes).expect("generated cbor is valid")
}

pub fn gen_val(s: &mut Src, p: &ValProfile, maxenc: usize) -> Val {
    let mut out = Vec::new();
    match s.weighted(&[6, 3, 1]) {
        0 => {
            let v = s.below(1000);
            cb_u64(&mut out, v)
        }
        1 => {
            let mut l = if p.links { Some(vec![]) } else { None };
            gen_cbor(s, &mut out, 0, 120, &mut l);
        }
        _ => {
            let n = if p.big && s.chance(1, 40) { s.usize(0, 300_000) } else { s.usize(0, p.max_len) };
            let b = if s.bool() { s.blob(n) } else { vec![7u8; n] };
            cb_bytes(&mut out, &b)
        }
    }
    if out.len() > maxenc {
        out.clear();
        cb_u64(&mut out, 1);
    }
    to_val(&out)
}

pub fn gen_key(s: &mut Src, clock: &mut u64, p: &ValProfile) -> HKey {
    // mostly increasing, but not always
    let t = match s.weighted(&[6, 2, 1]) {
        0 => {
            *clock += s.below(4);
            *clock
        }
        1 => s.below(200),
        _ => s.u64_any(),
    };
    let c = s.below(8) as u8;
    let pad = match s.weighted(&[12, 3, 1]) {
        0 => String::new(),
        1 => s.pick(STRS).to_string(),
        _ => "p".repeat(s.usize(0, 300)),
    };
    let mut l = vec![];
    if p.links && s.chance(1, 16) {
        while l.len() < 3 && s.more(1) {
            l.push(rand_cid(s));
        }
    }
    HKey { t, c, p: pad, l }
}

/// a batch of n items. When n is large, bulk data is derived from few choices
pub fn gen_items(s: &mut Src, n: usize, clock: &mut u64, cfg: &Config, p: &ValProfile) -> Vec<Item> {
    let maxenc = cfg.max_uncompressed_leaf_size.min(1 << 20);
    if n <= 12 {
        (0..n)
            .map(|_| (gen_key(s, clock, p), gen_val(s, p, maxenc)))
            .collect()
    } else {
        let mut sub = Src::random(s.derived().next());
        let items = (0..n)
            .map(|_| (gen_key(&mut sub, clock, p), gen_val(&mut sub, p, maxenc)))
            .collect();
        items
    }
}

pub fn fmt_item(i: &Item) -> String {
    let v: &[u8] = i.1.as_ref();
    format!(
        "(t={} c={}{}{} v={})",
        i.0.t,
        i.0.c,
        if i.0.p.is_empty() { String::new() } else if i.0.p.len() > 400 { format!(" p={} bytes", i.0.p.len()) } else { format!(" p={:?}", i.0.p) },
        if i.0.l.is_empty() { String::new() } else { format!(" {} links", i.0.l.len()) },
        if v.len() > 24 {
            format!("{} bytes cbor", v.len())
        } else {
            hex(v)
        }
    )
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

// ------------------------------------------------------------------------------------------
// queries

#[derive(Debug, Clone, PartialEq)]
pub enum Qx {
    All,
    Empty,
    Off(u8, u64, u64),
    Time(u64, u64),
    Cat(u64),
    /// not visible in the summaries
    Hash(u64, u64),
    And(Box<Qx>, Box<Qx>),
    Or(Box<Qx>, Box<Qx>),
}

#[derive(Debug, Clone)]
struct TimeQ(u64, u64);
#[derive(Debug, Clone)]
struct CatQ(u64);
#[derive(Debug, Clone)]
struct HashQ(u64, u64);

impl Query<HT> for TimeQ {
    fn containing(&self, _: u64, x: &LeafIndex<HT>, res: &mut [bool]) {
        for (r, k) in res.iter_mut().zip(x.keys.as_ref()) {
            *r = *r && k.t >= self.0 && k.t <= self.1;
        }
    }
    fn intersecting(&self, _: u64, x: &BranchIndex<HT>, res: &mut [bool]) {
        for (r, k) in res.iter_mut().zip(x.summaries.as_ref()) {
            *r = *r && k.max >= self.0 && k.min <= self.1;
        }
    }
}
impl Query<HT> for CatQ {
    fn containing(&self, _: u64, x: &LeafIndex<HT>, res: &mut [bool]) {
        for (r, k) in res.iter_mut().zip(x.keys.as_ref()) {
            *r = *r && (self.0 >> (k.c & 63)) & 1 == 1;
        }
    }
    fn intersecting(&self, _: u64, x: &BranchIndex<HT>, res: &mut [bool]) {
        for (r, k) in res.iter_mut().zip(x.summaries.as_ref()) {
            *r = *r && (self.0 & k.cats) != 0;
        }
    }
}
fn khash(k: &HKey) -> u64 {
    HSum::single(k).h
}
impl Query<HT> for HashQ {
    fn containing(&self, _: u64, x: &LeafIndex<HT>, res: &mut [bool]) {
        for (r, k) in res.iter_mut().zip(x.keys.as_ref()) {
            *r = *r && khash(k) % self.0 == self.1;
        }
    }
    fn intersecting(&self, _: u64, _: &BranchIndex<HT>, _: &mut [bool]) {}
}

pub type DynQ = Arc<dyn Query<HT>>;

impl Qx {
    pub fn matches(&self, o: u64, k: &HKey) -> bool {
        match self {
            Qx::All => true,
            Qx::Empty => false,
            Qx::Off(kind, a, b) => match kind {
                0 => o >= *a && o < *b,
                1 => o >= *a && o <= *b,
                2 => o >= *a,
                3 => o < *b,
                4 => o <= *b,
                5 => true,
                6 => o > *a && o < *b,
                _ => o > *a && o <= *b,
            },
            Qx::Time(a, b) => k.t >= *a && k.t <= *b,
            Qx::Cat(m) => (m >> (k.c & 63)) & 1 == 1,
            Qx::Hash(m, r) => khash(k) % m == *r,
            Qx::And(a, b) => a.matches(o, k) && b.matches(o, k),
            Qx::Or(a, b) => a.matches(o, k) || b.matches(o, k),
        }
    }
    /// can a node that holds exactly these keys at this offset be excluded by looking at its
    /// offset range and summary only?
    pub fn may_match_summary(&self, start: u64, count: u64, s: &HSum) -> bool {
        match self {
            Qx::All => true,
            Qx::Empty => false,
            Qx::Off(..) => self.range_intersects(start, count),
            Qx::Time(a, b) => s.max >= *a && s.min <= *b,
            Qx::Cat(m) => m & s.cats != 0,
            Qx::Hash(..) => true,
            Qx::And(a, b) => {
                a.may_match_summary(start, count, s) && b.may_match_summary(start, count, s)
            }
            Qx::Or(a, b) => {
                a.may_match_summary(start, count, s) || b.may_match_summary(start, count, s)
            }
        }
    }
    /// interval intersection. Empty and one-off-wide open ranges count as non-empty here: not
    /// noticing that they can not match anything is not wrong, just pointless.
    fn range_intersects(&self, start: u64, count: u64) -> bool {
        let end = start + count;
        match self {
            Qx::Off(kind, a, b) => match kind {
                0 | 6 => *b > start && *a < end,
                1 | 7 => *b >= start && *a < end,
                2 => *a < end,
                3 => *b > start,
                4 => *b >= start,
                _ => true,
            },
            _ => true,
        }
    }
    pub fn build(&self) -> DynQ {
        match self {
            Qx::All => AllQuery.boxed(),
            Qx::Empty => EmptyQuery.boxed(),
            Qx::Off(kind, a, b) => match kind {
                0 => OffsetRangeQuery::from(*a..*b).boxed(),
                1 => OffsetRangeQuery::from(*a..=*b).boxed(),
                2 => OffsetRangeQuery::from(*a..).boxed(),
                3 => OffsetRangeQuery::from(..*b).boxed(),
                4 => OffsetRangeQuery::from(..=*b).boxed(),
                5 => OffsetRangeQuery::from(..).boxed(),
                6 => OffsetRangeQuery::from((Bound::Excluded(*a), Bound::Excluded(*b))).boxed(),
                _ => OffsetRangeQuery::from((Bound::Excluded(*a), Bound::Included(*b))).boxed(),
            },
            Qx::Time(a, b) => TimeQ(*a, *b).boxed(),
            Qx::Cat(m) => CatQ(*m).boxed(),
            Qx::Hash(m, r) => HashQ(*m, *r).boxed(),
            Qx::And(a, b) => AndQuery(a.build(), b.build()).boxed(),
            Qx::Or(a, b) => OrQuery(a.build(), b.build()).boxed(),
        }
    }
}

pub fn gen_off(s: &mut Src, n: u64) -> u64 {
    match s.weighted(&[8, 1]) {
        0 => s.range(0, n + 2),
        _ => *s.pick(&[u64::MAX, u64::MAX - 1, 1 << 40]),
    }
}

pub fn gen_query(s: &mut Src, n: u64, clock: u64, depth: u32) -> Qx {
    let k = if depth >= 3 {
        s.weighted(&[1, 1, 6, 4, 4, 2])
    } else {
        s.weighted(&[1, 1, 6, 4, 4, 2, 4, 4])
    };
    match k {
        0 => Qx::All,
        1 => Qx::Empty,
        2 => {
            let kind = s.below(8) as u8;
            let a = gen_off(s, n);
            let b = if s.chance(1, 8) {
                gen_off(s, n)
            } else {
                a.saturating_add(s.range(0, n / 2 + 1))
            };
            Qx::Off(kind, a, b)
        }
        3 => {
            let a = if s.chance(1, 8) { s.u64_any() } else { s.range(0, clock + 3) };
            let b = match s.weighted(&[4, 1, 1]) {
                0 => a.saturating_add(s.range(0, clock / 3 + 2)),
                1 => u64::MAX,
                _ => a,
            };
            Qx::Time(a, b)
        }
        4 => Qx::Cat(s.below(256)),
        5 => {
            let m = s.range(1, 9);
            let r = s.below(m);
            Qx::Hash(m, r)
        }
        6 => Qx::And(
            Box::new(gen_query(s, n, clock, depth + 1)),
            Box::new(gen_query(s, n, clock, depth + 1)),
        ),
        _ => Qx::Or(
            Box::new(gen_query(s, n, clock, depth + 1)),
            Box::new(gen_query(s, n, clock, depth + 1)),
        ),
    }
}

// ------------------------------------------------------------------------------------------
// the reference model and a driver for append histories

pub type ModelItem = Option<(HKey, Val)>;

#[derive(Clone)]
pub struct Snap {
    pub tree: Tr,
    pub model: Arc<Vec<ModelItem>>,
}

pub struct World {
    pub store: HStore,
    pub txn: Txn,
    pub bc: BranchCache<HT>,
    pub cache: usize,
    pub b: Bld,
    pub cfg: Config,
    pub prof: ValProfile,
    pub secrets: Secrets,
    pub model: Vec<ModelItem>,
    pub clock: u64,
    pub reloads: u32,
    pub unpacked: u32,
    pub packs: u32,
    pub batches: u32,
    /// rolled back transactions
    pub aborted: u32,
    pub reconfigs: u32,
    /// allow `rebase`
    pub may_rebase: bool,
}

impl World {
    pub fn new(s: &mut Src, obs: &mut Obs) -> World {
        let (cfg, prof) = gen_config(s);
        Self::with(s, obs, cfg, prof)
    }
    pub fn with(s: &mut Src, obs: &mut Obs, cfg: Config, prof: ValProfile) -> World {
        let secrets = gen_secrets(s);
        let cache = gen_cache(s);
        let store = HStore::new();
        let (txn, bc) = txn_bc(&store, cache);
        let b = StreamBuilder::new(cfg.clone(), secrets.clone());
        obs.note(|| format!("config {} cache={}", cfg_str(&cfg), cache));
        World {
            store,
            txn,
            bc,
            cache,
            b,
            cfg,
            prof,
            secrets,
            model: vec![],
            clock: 0,
            reloads: 0,
            unpacked: 0,
            packs: 0,
            batches: 0,
            aborted: 0,
            reconfigs: 0,
            may_rebase: true,
        }
    }
    pub fn n(&self) -> u64 {
        self.model.len() as u64
    }
    pub fn gen_n(&self, s: &mut Src, max: usize) -> usize {
        // now and then many more
        let max = if s.chance(1, 60) { max * 10 } else { max };
        match s.weighted(&[5, 4, 3, 1, 2]) {
            0 => s.usize(1, 3),
            1 => s.usize(0, 12),
            2 => s.usize(0, 60.min(max)),
            3 => s.usize(0, max),
            _ => {
                // a full node of some level, or what is missing to one
                let mut caps = vec![self.cfg.max_leaf_count];
                for i in 0..6 {
                    let f = if i == 0 { self.cfg.max_key_branches } else { self.cfg.max_summary_branches };
                    let c = caps.last().expect("not empty").saturating_mul(f);
                    if c > max {
                        break;
                    }
                    caps.push(c);
                }
                let cap = *s.pick(&caps);
                let n = match s.weighted(&[3, 2, 1, 1]) {
                    0 => cap,
                    1 => cap - self.n() as usize % cap,
                    2 => cap + 1,
                    _ => cap - 1,
                };
                n.min(max)
            }
        }
    }
    pub fn items(&mut self, s: &mut Src, n: usize) -> Vec<Item> {
        let mut clock = self.clock;
        let r = gen_items(s, n, &mut clock, &self.cfg, &self.prof);
        self.clock = clock;
        r
    }
    pub fn extend(&mut self, items: Vec<Item>, unpacked: bool) -> R {
        self.model.extend(items.iter().cloned().map(Some));
        self.batches += 1;
        if unpacked {
            self.unpacked += 1;
            self.txn
                .extend_unpacked(&mut self.b, items)
                .must("extend_unpacked")
        } else {
            self.txn.extend(&mut self.b, items).must("extend")
        }
    }
    pub fn pack(&mut self) -> R {
        self.packs += 1;
        self.txn.pack(&mut self.b).must("pack")
    }
    pub fn snap(&self) -> Snap {
        Snap {
            tree: self.b.snapshot(),
            model: Arc::new(self.model.clone()),
        }
    }
    /// reload the builder from its root link with a cold forest
    pub fn reload(&mut self) -> R {
        if let Some(link) = self.b.link() {
            self.reloads += 1;
            self.fresh_txn();
            self.b = self
                .txn
                .load_stream_builder(self.secrets.clone(), self.cfg.clone(), link)
                .must("load_stream_builder")?;
        }
        Ok(())
    }
    pub fn fresh_txn(&mut self) {
        let (txn, bc) = txn_bc(&self.store, self.cache);
        self.txn = txn;
        self.bc = bc;
    }
    pub fn forest(&self) -> &Fst {
        self.txn.read()
    }
    /// continue far ahead in the key stream, as a builder does that has written a lot: the blocks of a tree of
    /// one level are encrypted again at another offset, and the builder is reloaded from there
    pub fn rebase(&mut self, s: &mut Src, obs: &mut Obs) -> R {
        use crate::props::crypto::{made_of, store_items_linked};
        let root = match self.b.index() {
            Some(i) if self.b.level() == 1 => crate::walker::walk(&self.store, &self.secrets, i, 0)?,
            _ => return Ok(()),
        };
        let mut offset = match s.below(5) {
            0 => (1u64 << 32) - 1 - s.below(2000),
            1 => (1 << 16) + s.below(1 << 17),
            2 => (1 << 31) - s.below(2000),
            3 => *s.pick(&[1 << 32, 1 << 38, (1 << 38) - 100, (1 << 40) + 7, 1 << 53]),
            _ => s.range(1 << 20, 1 << 60),
        };
        offset = offset.max(root.raw().map(|r| r.range().end).unwrap_or_default());
        obs.note(|| format!("  continue at key stream offset {}", offset));
        obs.label("far ahead in the key stream");
        let (mut plain, mut links) = (vec![], root.raw().map(|r| r.links.clone()).unwrap_or_default());
        for leaf in root.children() {
            let raw = leaf.raw().unwrap();
            let data = crate::walker::xor(&raw.cipher, self.secrets.value_key(), &HT_NONCE, raw.offset);
            let link = store_items_linked(&self.store, &data, &raw.links, self.secrets.value_key(), &mut offset).0;
            let mut m = made_of(leaf);
            for l in links.iter_mut().filter(|l| Link::try_from(**l).ok() == m.link) {
                *l = Cid::from(link);
            }
            m.link = Some(link);
            plain.extend_from_slice(&m.encode());
        }
        let z = zstd::stream::encode_all(&plain[..], self.cfg.zstd_level.max(1)).expect("zstd");
        let link = store_items_linked(&self.store, &z, &links, self.secrets.index_key(), &mut offset).0;
        self.fresh_txn();
        self.b = self
            .txn
            .load_stream_builder(self.secrets.clone(), self.cfg.clone(), link)
            .must("load_stream_builder")?;
        Ok(())
    }
}

/// one generated step of an append history
#[derive(Clone, Debug)]
pub enum Step {
    Extend(usize),
    Unpacked(usize),
    Push,
    Pack,
    Reload,
    Cold,
    ResetCache,
    Rollback(usize, bool),
    /// reload with a different config
    Reconfig,
}

/// weights: extend, unpacked, push, pack, reload, cold, reset cache, rollback, reconfig
pub fn gen_step_w(s: &mut Src, w: &World, max: usize, weights: &[u64; 9]) -> Step {
    match s.weighted(weights) {
        0 => Step::Extend(w.gen_n(s, max)),
        1 => Step::Unpacked(w.gen_n(s, max)),
        2 => Step::Push,
        3 => Step::Pack,
        4 => Step::Reload,
        5 => Step::Cold,
        6 => Step::ResetCache,
        7 => Step::Rollback(w.gen_n(s, max.min(30)), s.bool()),
        _ => Step::Reconfig,
    }
}

pub fn apply_step(s: &mut Src, obs: &mut Obs, w: &mut World, step: &Step) -> R {
    obs.note(|| format!("step {:?}", step));
    match step {
        Step::Extend(n) => {
            let items = w.items(s, *n);
            obs.note(|| {
                format!(
                    "  items {}",
                    items.iter().take(8).map(fmt_item).collect::<Vec<_>>().join(" ")
                )
            });
            obs.label("extend");
            let first = w.n() == 0;
            w.extend(items, false)?;
            if first && w.may_rebase && s.chance(1, 10) {
                w.rebase(s, obs)?;
            }
            Ok(())
        }
        Step::Unpacked(n) => {
            let items = w.items(s, *n);
            obs.note(|| {
                format!(
                    "  items {}",
                    items.iter().take(8).map(fmt_item).collect::<Vec<_>>().join(" ")
                )
            });
            obs.label("extend_unpacked");
            w.extend(items, true)
        }
        Step::Push => {
            let mut items = w.items(s, 1);
            let (k, v) = items.pop().unwrap();
            w.model.push(Some((k.clone(), v.clone())));
            w.batches += 1;
            w.txn.push(&mut w.b, k, v).must("push")
        }
        Step::Pack => {
            obs.label("pack");
            w.pack()
        }
        Step::Reload => {
            obs.label("reload");
            w.reload()
        }
        Step::Cold => {
            w.fresh_txn();
            Ok(())
        }
        Step::ResetCache => {
            if w.cache > 0 {
                w.bc.reset(std::num::NonZeroUsize::new(w.cache).unwrap());
            }
            Ok(())
        }
        Step::Rollback(n, unpacked) => {
            obs.label("rolled back transaction");
            let items = w.items(s, *n);
            let before = w.b.count();
            {
                let mut guard = w.b.transaction();
                if *unpacked {
                    w.txn
                        .extend_unpacked(&mut guard, items)
                        .must("extend_unpacked")?;
                } else {
                    w.txn.extend(&mut guard, items).must("extend")?;
                }
            }
            check_eq!(w.b.count(), before, "rollback-count", "count after a dropped transaction");
            w.aborted += 1;
            Ok(())
        }
        Step::Reconfig => {
            let (cfg, prof) = gen_config(s);
            // values must still fit
            if cfg.max_uncompressed_leaf_size >= w.cfg.max_uncompressed_leaf_size {
                obs.label("reconfig");
                obs.note(|| format!("  config {}", cfg_str(&cfg)));
                w.cfg = cfg;
                w.prof = prof;
                w.reconfigs += 1;
                if let Some(link) = w.b.link() {
                    w.fresh_txn();
                    w.b = w
                        .txn
                        .load_stream_builder(w.secrets.clone(), w.cfg.clone(), link)
                        .must("load_stream_builder")?;
                } else {
                    w.b = StreamBuilder::new(w.cfg.clone(), w.secrets.clone());
                }
            }
            Ok(())
        }
    }
}
use crate::check_eq;

/// compare a full read with the model
pub fn same_content(
    what: &str,
    got: &[Option<(HKey, Val)>],
    want: &[ModelItem],
    from: usize,
) -> R {
    let want = if from > want.len() { &[][..] } else { &want[from..] };
    if got.len() != want.len() {
        return Err(Fail::new(
            "content-length",
            format!("{}: got {} elements, expected {}", what, got.len(), want.len()),
        ));
    }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if g != w {
            return Err(Fail::new(
                "content",
                format!(
                    "{}: element at offset {} differs: got {}, expected {}",
                    what,
                    i + from,
                    g.as_ref().map(fmt_item).unwrap_or_else(|| "None".into()),
                    w.as_ref().map(fmt_item).unwrap_or_else(|| "None".into())
                ),
            ));
        }
    }
    Ok(())
}

pub fn triples(m: &[ModelItem], q: &Qx) -> Vec<(u64, HKey, Val)> {
    m.iter()
        .enumerate()
        .filter_map(|(o, x)| x.as_ref().map(|(k, v)| (o as u64, k.clone(), v.clone())))
        .filter(|(o, k, _)| q.matches(*o, k))
        .collect()
}

pub fn cmp_triples(what: &str, got: &[(u64, HKey, Val)], want: &[(u64, HKey, Val)]) -> R {
    if got == want {
        return Ok(());
    }
    let i = got
        .iter()
        .zip(want)
        .position(|(a, b)| a != b)
        .unwrap_or(got.len().min(want.len()));
    let f = |x: Option<&(u64, HKey, Val)>| match x {
        Some((o, k, v)) => format!("offset {} {}", o, fmt_item(&(k.clone(), v.clone()))),
        None => "end".into(),
    };
    Err(Fail::new(
        "results",
        format!(
            "{}: {} results, expected {}; first difference at position {}: got {}, expected {}",
            what,
            got.len(),
            want.len(),
            i,
            f(got.get(i)),
            f(want.get(i))
        ),
    ))
}
