//! capacity of the branch cache, structural checks, metrics
use super::crypto::{store_items, Made};
use crate::engine::*;
use crate::model::*;
use crate::walker::{self, Node};
use crate::{check, check_eq};
use banyan::query::AllQuery;
use banyan::store::BranchCache;
use banyan::{Config, Forest, Secrets, StreamBuilder, Transaction, Tree};
use banyan_utils::tag_index::{Tag, TagSet};
use banyan_utils::tags::{Key, TT};
use cid::Cid;
use std::collections::{BTreeMap, HashMap};
use std::num::NonZeroUsize;

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C31",
        rule: "trees of random histories read (index iteration, get, collect, filtered) by one or two forests that share a branch cache of random capacity, with resets; after each read the cache is probed for every branch of the tree. 1/4: trees of tagged events, and the memory that the cache holds is measured by the allocator of the harness. Non-trivial: at least 4 branches, of which some but not all fit, or all and they are read twice",
        run: c31,
        quick: 30000,
        thorough: 600000,
        threads: 0,
        regress: &[],
        assumptions: &["the sequence types estimate their size as documented (estimates of VecSeq do not include what its items own)"],
        level: "exploration",
    },
    Prop {
        id: "C32",
        rule: "trees written by an independent writer with random shape, sealed flags that follow the config, and in 2/3 of the cases 1..3 inconsistencies (values more or less than keys, wrong, missing or surplus summaries, levels that are off, wrong counts, wrong sealed flags); check_invariants, assert_invariants, is_packed against an evaluation of the same rules on the tree as it was written. Non-trivial: at least 3 nodes",
        run: c32,
        quick: 400000,
        thorough: 6000000,
        threads: 0,
        regress: &[],
        assumptions: &[],
        level: "exploration",
    },
    Prop {
        id: "C33",
        rule: "random histories with failing reads and writes and all kinds of reads; after each operation the change of the registered metrics is compared with the calls the store has seen. Non-trivial: at least 5 blocks written and 5 read",
        run: c33,
        quick: 16000,
        thorough: 300000,
        threads: 1,
        regress: &[Regress { name: "names", f: r_names }],
        assumptions: &["nothing else in the process uses banyan meanwhile (metrics are global)"],
        level: "exploration",
    },
];

// ---------------------------------------------------------------------------------- C31

struct Weights {
    /// lower and upper bound of the size of a branch in the cache
    by_link: HashMap<Link, (usize, usize)>,
    children: HashMap<Link, Vec<Option<Link>>>,
}

fn weights(root: &Node) -> Weights {
    let mut w = Weights { by_link: HashMap::new(), children: HashMap::new() };
    for n in root.nodes() {
        let link = match (n, n.link()) {
            (Node::Branch(_), Some(l)) => l,
            _ => continue,
        };
        let (mut lo, mut hi) = (0, 1000);
        for c in n.children() {
            let est = match c {
                Node::Leaf(l) => l.index.keys.as_ref().len() * std::mem::size_of::<HKey>(),
                Node::Branch(b) => b.index.summaries.as_ref().len() * std::mem::size_of::<HSum>(),
            };
            lo += est;
            hi += 2 * est + 1000;
        }
        w.by_link.insert(link, (lo, hi));
        w.children.insert(link, n.children().iter().map(|c| c.link()).collect());
    }
    w
}

fn probe(cache: &BranchCache<HT>, cap: usize, w: &Weights, when: &str) -> R<usize> {
    let mut sum = 0;
    let mut n = 0;
    for (l, (lo, _)) in &w.by_link {
        if let Some(b) = cache.get(l) {
            sum += lo;
            n += 1;
            let got: Vec<Option<Link>> = b.children.iter().map(|c| *c.link()).collect();
            check!(&got == &w.children[l], "content", "the cache has another branch for {}", l);
        }
    }
    check!(sum <= cap, "capacity", "{}: branches of at least {} bytes in a cache of {} bytes", when, sum, cap);
    check!(cap > 0 || n == 0, "capacity", "{}: {} branches in a disabled cache", when, n);
    Ok(n)
}

fn c31(s: &mut Src, obs: &mut Obs) -> R {
    if s.chance(1, 4) {
        return memory(s, obs);
    }
    let mut w = World::new(s, obs);
    let mut steps = 0;
    while steps < 1 || (steps < 6 && s.more(3)) {
        steps += 1;
        let step = gen_step_w(s, &w, 120, &[6, 5, 2, 2, 1, 1, 0, 0, 0]);
        apply_step(s, obs, &mut w, &step)?;
    }
    let index = match w.b.index() {
        Some(i) => i.clone(),
        None => return Ok(()),
    };
    let root = walker::walk(&w.store, &w.secrets, &index, 0)?;
    let ws = weights(&root);
    let total: usize = ws.by_link.values().map(|x| x.0).sum();
    let upper: usize = ws.by_link.values().map(|x| x.1).sum();
    let gen_cap = |s: &mut Src| match s.weighted(&[1, 1, 4, 2]) {
        0 => 0,
        1 => s.usize(1, 300),
        2 => s.usize(1, 2 * total + 1000),
        _ => upper + s.usize(0, 1000),
    };
    let mut cap = gen_cap(s);
    let disabled = cap == 0;
    let cache = BranchCache::<HT>::new(cap);
    let store = w.store.clone();
    store.with(|x| x.get_log = Some(vec![]));
    let fs: Vec<Fst> = (0..s.usize(1, 2)).map(|_| Forest::new(store.clone(), cache.clone())).collect();
    let tree = w.b.snapshot();
    obs.note(|| format!("{} branches of {} to {} bytes, capacity {}", ws.by_link.len(), total, upper, cap));
    let other = cache.clone();
    let mut fetched: HashMap<Link, u32> = HashMap::new();
    let mut complete = false;
    let mut all_twice = false;
    let mut most = 0;
    for _ in 0..s.usize(2, 7) {
        let f = s.pick(&fs).clone();
        let before = store.with(|x| x.get_log.as_ref().unwrap().len());
        match s.weighted(&[4, 3, 1, 2, 1]) {
            0 => {
                obs.note(|| "iter_index".into());
                f.iter_index(&tree, AllQuery).collect::<anyhow::Result<Vec<_>>>().must("iter_index")?;
            }
            1 => {
                let o = gen_off(s, w.n());
                obs.note(|| format!("get {}", o));
                f.get(&tree, o).must("get")?;
            }
            2 => {
                obs.note(|| "collect".into());
                f.collect(&tree).must("collect")?;
            }
            3 => {
                let q = gen_query(s, w.n(), w.clock, 1);
                obs.note(|| format!("filter {:?}", q));
                f.iter_filtered(&tree, q.build()).collect::<anyhow::Result<Vec<_>>>().must("iter_filtered")?;
            }
            _ => {
                let c = gen_cap(s).max(1);
                obs.note(|| format!("reset to {}", c));
                obs.label("reset");
                other.reset(NonZeroUsize::new(c).unwrap());
                if !disabled {
                    cap = c;
                }
                fetched.clear();
                complete = false;
                check_eq!(probe(&cache, cap, &ws, "after a reset")?, 0, "reset", "branches in the cache");
            }
        }
        let gets: Vec<Link> = store.with(|x| x.get_log.as_ref().unwrap()[before..].to_vec());
        for l in gets {
            if ws.by_link.contains_key(&l) {
                *fetched.entry(l).or_default() += 1;
            }
        }
        let n = probe(&cache, cap, &ws, "after a read")?;
        most = most.max(n);
        if cap >= upper {
            // everything fits
            if let Some((l, n)) = fetched.iter().find(|x| *x.1 > 1) {
                return Err(Fail::new("refetch", format!("branch {} was fetched {} times although the cache has room for everything", l, n)));
            }
            for l in fetched.keys() {
                check!(cache.get(l).is_some(), "evicted", "a branch is gone although the cache has room for everything");
            }
            all_twice |= complete;
            complete |= fetched.len() == ws.by_link.len();
        }
    }
    obs.label_if(disabled, "disabled");
    obs.label_if(most > 0 && most < ws.by_link.len(), "some fit");
    obs.label_if(all_twice, "all fit, read again");
    obs.nontrivial = ws.by_link.len() >= 4 && (all_twice || (most > 0 && most < ws.by_link.len()));
    Ok(())
}

fn memory(s: &mut Src, obs: &mut Obs) -> R {
    let store = HStore::new();
    let mut t: Transaction<TT, HStore, HStore> = Transaction::new(Forest::new(store.clone(), BranchCache::new(0)), store.clone());
    let cfg = Config {
        max_leaf_count: s.usize(5, 2000),
        max_key_branches: s.usize(2, 40),
        max_summary_branches: s.usize(2, 40),
        zstd_level: 1,
        ..Config::debug_fast()
    };
    let mut b: StreamBuilder<TT, u64> = StreamBuilder::new(cfg.clone(), Secrets::default());
    let n = s.usize(200, 4000) as u64;
    let pool = s.usize(1, 40);
    let maxtags = s.usize(1, 4);
    let mut items = vec![];
    for i in 0..n {
        let tags: TagSet = (0..s.usize(0, maxtags)).map(|_| Tag::from(format!("tag-{}", s.below(pool as u64)).as_str())).collect();
        items.push((Key::single(i, i * 3, tags), i));
    }
    t.extend(&mut b, items).must("extend")?;
    let tree: Tree<TT, u64> = b.snapshot();
    let read = |f: &Forest<TT, HStore>| -> R {
        f.iter_index(&tree, AllQuery).collect::<anyhow::Result<Vec<_>>>().must("iter_index")?;
        store.with(|x| x.get_count = 0);
        Ok(())
    };
    // thread local buffers
    read(&Forest::new(store.clone(), BranchCache::new(0)))?;
    let cap = match s.weighted(&[1, 3]) {
        0 => s.usize(1, 10_000),
        _ => s.usize(10_000, 600_000),
    };
    let again = s.bool();
    // buffers of this thread may grow the first time
    let mut held = isize::MAX;
    let mut left = isize::MAX;
    for _ in 0..3 {
        let l0 = live_bytes();
        let cache = BranchCache::<TT>::new(cap);
        {
            let f = Forest::new(store.clone(), cache.clone());
            read(&f)?;
            if again {
                read(&f)?;
            }
        }
        held = held.min(live_bytes() - l0);
        drop(cache);
        left = left.min(live_bytes() - l0);
    }
    let held = held.max(0) as usize;
    obs.note(|| format!("{} events, {:?}, capacity {}, cache holds {} bytes", n, cfg_str(&cfg), cap, held));
    check!(held <= 2 * cap + 12_000, "memory", "a cache of {} bytes holds {} bytes", cap, held);
    check!(left < 12_000, "leak", "{} bytes are left of a dropped cache", left);
    obs.label("memory");
    obs.label_if(held * 3 > cap, "memory: at least a third of the capacity is used");
    obs.nontrivial = held > 20_000;
    Ok(())
}

// ---------------------------------------------------------------------------------- C32

/// a node as it is written
#[derive(Clone, Debug)]
struct Sk {
    m: Made,
    /// number of values of a leaf
    values: usize,
    children: Vec<Sk>,
}

fn sealed_by(cfg: &Config, children: &[Sk], level: u32) -> bool {
    let max = if level == 1 { cfg.max_key_branches } else { cfg.max_summary_branches };
    level > 0 && children.iter().all(|c| c.m.sealed && c.m.level + 1 == level) && children.len() >= max
}

/// what is wrong with a node
fn unsound(n: &Sk, cfg: &Config, into: &mut Vec<String>) {
    if n.m.link.is_none() {
        // what is gone can not be compared
        return;
    }
    if n.m.level == 0 {
        if n.values != n.m.keys.len() {
            into.push(format!("{} values for {} keys", n.values, n.m.keys.len()));
        }
        return;
    }
    if n.children.len() != n.m.sums.len() {
        into.push(format!("{} summaries for {} children", n.m.sums.len(), n.children.len()));
    }
    for (c, s) in n.children.iter().zip(&n.m.sums) {
        if &c.m.sum() != s {
            into.push("wrong summary".into());
        }
    }
    for c in &n.children {
        if c.m.level >= n.m.level || (n.m.sealed && c.m.level + 1 != n.m.level) {
            into.push(format!("level {} in {}", c.m.level, n.m.level));
        }
    }
    if n.m.sealed != sealed_by(cfg, &n.children, n.m.level) {
        into.push("wrong sealed flag".into());
    }
    n.children.iter().for_each(|c| unsound(c, cfg, into));
}

/// a node that can not be decoded
fn surplus(n: &Sk) -> bool {
    n.m.sums.len() as u64 > n.m.count || n.children.iter().any(surplus)
}

fn packed(n: &Sk) -> bool {
    if n.m.link.is_none() {
        return true;
    }
    match n.children.split_last() {
        None => true,
        Some(_) if n.m.sealed => true,
        Some((last, rest)) => {
            rest.iter().all(|c| c.m.sealed && c.m.level + 1 == n.m.level) && last.m.level < n.m.level && packed(last)
        }
    }
}

fn c32(s: &mut Src, obs: &mut Obs) -> R {
    let cfg = Config {
        max_leaf_count: s.usize(1, 4),
        max_key_branches: s.usize(1, 4),
        max_summary_branches: s.usize(2, 4),
        ..Config::debug()
    };
    let secrets = gen_secrets(s);
    let store = HStore::new();
    let n = s.usize(1, 40);
    let mut clock = 0;
    let (_, prof) = gen_config(s);
    let items = gen_items(s, n, &mut clock, &cfg, &prof);
    // number of decisions in which something goes wrong
    let mut faults = if s.chance(1, 3) { 0 } else { s.usize(1, 3) };
    let mut offset = 0;
    let mut nodes: Vec<Sk> = vec![];
    let mut at = 0;
    while at < items.len() {
        let k = s.usize(1, (items.len() - at).min(4));
        let part = &items[at..at + k];
        at += k;
        let mut values = k;
        if faults > 0 && s.chance(1, 12) {
            faults -= 1;
            values = if s.bool() { k + 1 } else { k - 1 };
        }
        let mut plain = vec![];
        for i in 0..values {
            let b: &[u8] = part[i.min(k - 1)].1.as_ref();
            plain.extend_from_slice(b);
        }
        let (link, value_bytes, _) = store_items(&store, &plain, &[], secrets.value_key(), &mut offset, 1);
        nodes.push(Sk {
            m: Made {
                link: Some(link),
                level: 0,
                sealed: s.chance(3, 4),
                count: k as u64,
                keys: part.iter().map(|x| x.0.clone()).collect(),
                sums: vec![],
                value_bytes,
                key_bytes: 0,
            },
            values,
            children: vec![],
        });
    }
    let mut made = 0;
    let purge = s.chance(1, 5);
    let mut purged = 0;
    let root = loop {
        if nodes.len() == 1 && nodes[0].m.level > 0 {
            break nodes.pop().unwrap();
        }
        let k = if nodes.len() == 1 || s.chance(1, 12) { 1 } else { s.usize(2, nodes.len().min(5)) };
        // neighbours of the same level often
        let mut from = s.usize(0, nodes.len() - k);
        if s.bool() {
            let same = |i: usize| (i..i + k).all(|j| nodes[j].m.level == nodes[i].m.level && nodes[j].m.sealed);
            from = (0..=nodes.len() - k).find(|i| same(*i)).unwrap_or(from);
        }
        let mut children: Vec<Sk> = nodes[from..from + k].to_vec();
        for c in &mut children {
            if purge && s.chance(1, 8) {
                c.m.link = None;
                purged += 1;
            }
        }
        let mut level = children.iter().map(|c| c.m.level).max().unwrap() + 1;
        let mut sums: Vec<HSum> = children.iter().map(|c| c.m.sum()).collect();
        let count: u64 = children.iter().map(|c| c.m.count).sum();
        let mut sealed = sealed_by(&cfg, &children, level);
        if faults > 0 && s.chance(1, 6) {
            faults -= 1;
            match s.below(5) {
                0 => level += 1,
                1 => sealed = !sealed,
                2 => {
                    let i = s.usize(0, sums.len() - 1);
                    match s.below(4) {
                        0 => sums[i].min ^= 1,
                        1 => sums[i].max = sums[i].max.wrapping_add(1),
                        2 => sums[i].n += 1,
                        _ => sums[i].h ^= 1 << s.below(64),
                    }
                }
                3 if sums.len() > 1 => {
                    sums.pop();
                }
                _ => sums.push(sums[0].clone()),
            }
        }
        let mut plain = vec![];
        let mut links = vec![];
        for c in &children {
            plain.extend_from_slice(&c.m.encode());
            links.extend(c.m.link.map(Cid::from));
        }
        let (link, _, len) = store_items(&store, &plain, &links, secrets.index_key(), &mut offset, 1);
        let m = Made {
            link: Some(link),
            level,
            sealed,
            count,
            keys: vec![],
            sums,
            value_bytes: children.iter().map(|c| c.m.value_bytes).sum(),
            key_bytes: children.iter().map(|c| c.m.key_bytes).sum::<u64>() + len,
        };
        made += 1;
        nodes.splice(from..from + k, Some(Sk { m, values: 0, children }));
    };
    // the index of the root is not stored, it is computed from the children
    let mut root = root;
    root.m.level = root.children.iter().map(|c| c.m.level).max().unwrap() + 1;
    root.m.count = root.children.iter().map(|c| c.m.count).sum();
    root.m.sums = root.children.iter().map(|c| c.m.sum()).collect();
    root.m.sealed = sealed_by(&cfg, &root.children, root.m.level);
    let mut wrong = vec![];
    unsound(&root, &cfg, &mut wrong);
    obs.note(|| format!("{} with {} branches, {:?}", cfg_str(&cfg), made, wrong));
    let t = txn(&store, gen_cache(s));
    let b: Bld = match t.load_stream_builder(secrets.clone(), cfg.clone(), root.m.link.unwrap()) {
        Ok(b) => b,
        // more summaries than elements: not even decodable
        Err(_) if surplus(&root) => {
            obs.label("rejected");
            return Ok(());
        }
        Err(e) => return Err(Fail::new("load", format!("load_stream_builder: {:#}", e))),
    };
    check_eq!(b.level(), root.m.level as i32, "root", "level");
    check_eq!(b.count(), root.m.count, "root", "count");
    check_eq!(b.index().unwrap().sealed(), root.m.sealed, "root", "sealed");
    let res = t.check_invariants(&b);
    if res.is_err() && surplus(&root) {
        obs.label("rejected");
        return Ok(());
    }
    obs.nontrivial = made >= 2;
    obs.label_if(purged > 0, "purged nodes");
    if wrong.is_empty() {
        obs.label("sound");
        let msgs = res.must("check_invariants of a sound tree")?;
        check!(msgs.is_empty(), "false-alarm", "check_invariants of a sound tree: {:?}", msgs);
        t.assert_invariants(&b).must("assert_invariants")?;
    } else {
        obs.label("unsound");
        for x in &wrong {
            let kind: String = x.chars().filter(|c| !c.is_ascii_digit()).collect();
            obs.label(match kind.as_str() {
                "wrong summary" => "wrong summary",
                "wrong sealed flag" => "wrong sealed flag",
                " values for  keys" => "number of values",
                " summaries for  children" => "number of summaries",
                _ => "level",
            });
        }
        check!(!matches!(&res, Ok(m) if m.is_empty()), "missed", "check_invariants finds nothing, but {:?}", wrong);
        let ok = catches(|| t.assert_invariants(&b));
        check!(!matches!(ok, Ok(Ok(()))), "missed", "assert_invariants finds nothing, but {:?}", wrong);
        if res.is_err() {
            // not even readable
            return Ok(());
        }
    }
    check_eq!(t.is_packed(&b.snapshot()).must("is_packed")?, packed(&root), "packed", "is_packed");
    if wrong.is_empty() {
        let got = t.collect(&b.snapshot()).must("collect")?;
        check_eq!(got.len(), items.len(), "content", "number of items");
        for (i, (g, want)) in got.iter().zip(&items).enumerate() {
            check!(g.is_none() && purged > 0 || g.as_ref() == Some(want), "content", "item {} is {:?}", i, g);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------- C33

fn gather() -> R<BTreeMap<String, (u64, f64)>> {
    let r = prometheus::Registry::new();
    banyan::register_metrics(&r).must("register_metrics")?;
    check!(banyan::register_metrics(&r).is_err(), "register", "metrics can be registered twice with the same registry");
    Ok(r.gather()
        .iter()
        .map(|f| {
            let h = f.get_metric()[0].get_histogram();
            (f.get_name().to_string(), (h.get_sample_count(), h.get_sample_sum()))
        })
        .collect())
}

const NAMES: [&str; 8] = [
    "banyan_block_get_size",
    "banyan_block_get_time",
    "banyan_block_put_size",
    "banyan_block_put_time",
    "banyan_branch_load_time",
    "banyan_branch_store_time",
    "banyan_leaf_load_time",
    "banyan_leaf_store_time",
];

fn r_names() -> R {
    let got: Vec<String> = gather()?.into_keys().collect();
    check!(got == NAMES, "names", "metrics are {:?}", got);
    Ok(())
}

fn c33(s: &mut Src, obs: &mut Obs) -> R {
    let mut w = World::new(s, obs);
    w.may_rebase = false;
    w.store.with(|x| {
        x.attempts = Some(vec![]);
        x.get_log = Some(vec![]);
    });
    let (mut puts, mut gets) = (0, 0);
    let mut steps = 0;
    while steps < 2 || (steps < 10 && s.more(6)) {
        steps += 1;
        let m0 = gather()?;
        let (a0, g0) = w.store.with(|x| (x.attempts.as_ref().unwrap().len(), x.get_log.as_ref().unwrap().len()));
        let mut failed_gets = 0;
        match s.weighted(&[5, 2, 2, 2, 2]) {
            0 => {
                let step = gen_step_w(s, &w, 60, &[5, 4, 1, 3, 0, 1, 1, 2, 1]);
                apply_step(s, obs, &mut w, &step)?;
            }
            1 => {
                let k = s.below(6);
                obs.note(|| format!("fail put {}", k));
                let n = w.model.len();
                w.store.with(|x| x.fail_put = Plan::Nth(k));
                let step = gen_step_w(s, &w, 60, &[5, 4, 0, 3, 0, 0, 0, 0, 0]);
                if let Err(f) = apply_step(s, obs, &mut w, &step) {
                    if !f.kind.starts_with("error:") {
                        return Err(f);
                    }
                    w.model.truncate(n);
                }
                w.store.with(|x| x.fail_put = Plan::None);
            }
            2 => {
                obs.note(|| "collect".into());
                w.txn.collect(&w.b.snapshot()).must("collect")?;
            }
            3 => {
                let q = gen_query(s, w.n(), w.clock, 1);
                obs.note(|| format!("filter {:?}", q));
                w.txn.iter_filtered(&w.b.snapshot(), q.build()).collect::<anyhow::Result<Vec<_>>>().must("iter_filtered")?;
            }
            _ => {
                let k = s.below(4);
                obs.note(|| format!("collect with failing get {}", k));
                w.store.with(|x| x.fail_get = Plan::Nth(k));
                failed_gets = w.txn.collect(&w.b.snapshot()).is_err() as usize;
                w.store.with(|x| x.fail_get = Plan::None);
            }
        }
        let m1 = gather()?;
        let d = |name: &str| -> (u64, f64) {
            let (a, b) = (m0.get(name).copied().unwrap_or_default(), m1.get(name).copied().unwrap_or_default());
            (b.0 - a.0, b.1 - a.1)
        };
        let (put, put_bytes, get, get_bytes) = w.store.with(|x| {
            let a = &x.attempts.as_ref().unwrap()[a0..];
            let g = &x.get_log.as_ref().unwrap()[g0..];
            (
                a.len(),
                a.iter().map(|x| x.len()).sum::<usize>(),
                g.len(),
                g.iter().filter_map(|l| x.blocks.get(l)).map(|x| x.len()).sum::<usize>(),
            )
        });
        check_eq!(d("banyan_block_put_time").0, put as u64, "put", "number of puts");
        check_eq!(d("banyan_block_put_size"), (put as u64, put_bytes as f64), "put", "number and size of puts");
        check_eq!(d("banyan_block_get_time").0, get as u64, "get", "number of gets");
        let (n, sum) = d("banyan_block_get_size");
        check_eq!(n, (get - failed_gets) as u64, "get", "number of successful gets");
        if failed_gets == 0 {
            check_eq!(sum, get_bytes as f64, "get", "bytes read");
        }
        check!(d("banyan_leaf_store_time").0 + d("banyan_branch_store_time").0 >= put as u64, "store", "fewer stored nodes than puts");
        puts += put;
        gets += get;
    }
    obs.nontrivial = puts >= 5 && gets >= 5;
    Ok(())
}
