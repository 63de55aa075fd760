//! transparency of caches and stores
use crate::engine::*;
use crate::model::*;
use crate::{check, check_eq, fail};
use banyan::query::AllQuery;
use banyan::store::{BlockWriter, BranchCache, MemCache, MemStore, ReadOnlyStore};
use banyan::{Config, Forest, Secrets, StreamBuilder, Transaction};
use banyan_utils::sqlite::SqliteStore;
use banyan_utils::tags::Sha256Digest;
use libipld::DefaultParams;
use std::collections::{HashMap, HashSet};
use std::num::NonZeroUsize;
use std::path::PathBuf;

pub static PROPS: &[Prop] = &[Prop {
    id: "C19",
    rule: "2/3: one random history of two streams (appends, packs, retains, rollbacks, reloads, reads) executed with no cache, a big cache and a small shared cache that is reset now and then, on an instrumented store, a memory store, a memory store behind a block cache, and (1/8 of these) sqlite; all results incl. root links must be equal. 1/3: random put/get/offer histories of the stores against a model. Non-trivial: trees with at least 5 blocks read after at least 2 mutations, resp. at least 4 distinct blocks of which one was evicted or refused",
    run: c19,
    quick: 30000,
    thorough: 300000,
    threads: 0,
    regress: &[],
    assumptions: &["links are digests of the data (MemCache and MemStore promise nothing otherwise)"],
    level: "exploration",
}];

#[derive(Clone, Debug)]
enum Op {
    Extend(usize, Vec<Item>, bool),
    Pack(usize),
    Retain(usize, Qx),
    Rollback(usize, Vec<Item>),
    Reload(usize),
    Reset(usize),
    Get(usize, u64),
    Filter(usize, Qx),
    Index(usize),
    Again(usize, usize),
}

/// everything an execution lets one observe
#[derive(PartialEq, Debug, Clone)]
enum Out {
    State(Option<Link>, u64, i32, u64, u64),
    Get(Option<Item>),
    Items(Vec<(u64, HKey, Val)>),
    All(Vec<Option<Item>>),
    Index(Vec<(u64, Option<Link>, u32, bool)>),
    Bool(bool),
}

type Sec = [Secrets; 2];

fn exec<R: ReadOnlyStore<Link>, W: BlockWriter<Link>>(
    what: &str,
    mut t: Transaction<HT, R, W>,
    bc: &BranchCache<HT>,
    cfg: &[Config; 2],
    sec: &Sec,
    ops: &[Op],
) -> R_<Vec<Out>> {
    let ctx = |f: Fail| Fail::new(&f.kind, format!("{}: {}", what, f.msg));
    let mut bs: Vec<StreamBuilder<HT, Val>> =
        (0..2).map(|i| StreamBuilder::new(cfg[i].clone(), sec[i].clone())).collect();
    let mut snaps = [vec![], vec![]];
    let mut out = vec![];
    for op in ops {
        match op {
            Op::Extend(i, items, unpacked) => {
                if *unpacked {
                    t.extend_unpacked(&mut bs[*i], items.clone()).must("extend_unpacked").map_err(ctx)?;
                } else {
                    t.extend(&mut bs[*i], items.clone()).must("extend").map_err(ctx)?;
                }
                snaps[*i].push(bs[*i].snapshot());
            }
            Op::Pack(i) => t.pack(&mut bs[*i]).must("pack").map_err(ctx)?,
            Op::Retain(i, q) => {
                if bs[*i].index().is_some() {
                    t.retain(&mut bs[*i], &q.build()).must("retain").map_err(ctx)?
                }
            }
            Op::Rollback(i, items) => {
                let mut tx = bs[*i].transaction();
                t.extend(&mut tx, items.clone()).must("extend in transaction").map_err(ctx)?;
            }
            Op::Reload(i) => {
                if let Some(l) = bs[*i].link() {
                    bs[*i] = t
                        .load_stream_builder(sec[*i].clone(), cfg[*i].clone(), l)
                        .must("load_stream_builder")
                        .map_err(ctx)?;
                }
            }
            Op::Reset(n) => bc.reset(NonZeroUsize::new(*n).unwrap()),
            Op::Get(i, o) => {
                out.push(Out::Get(t.get(&bs[*i].snapshot(), *o).must("get").map_err(ctx)?));
                continue;
            }
            Op::Filter(i, q) => {
                let got = t
                    .iter_filtered(&bs[*i].snapshot(), q.build())
                    .collect::<anyhow::Result<Vec<_>>>()
                    .must("iter_filtered")
                    .map_err(ctx)?;
                out.push(Out::Items(got));
                continue;
            }
            Op::Index(i) => {
                let got = t
                    .iter_index_reverse(&bs[*i].snapshot(), AllQuery)
                    .map(|x| x.map(|x| (x.count(), *x.link(), x.level(), x.sealed())))
                    .collect::<anyhow::Result<Vec<_>>>()
                    .must("iter_index_reverse")
                    .map_err(ctx)?;
                out.push(Out::Index(got));
                out.push(Out::Bool(t.is_packed(&bs[*i].snapshot()).must("is_packed").map_err(ctx)?));
                continue;
            }
            Op::Again(i, n) => {
                // an old snapshot
                if !snaps[*i].is_empty() {
                    let k = n % snaps[*i].len();
                    out.push(Out::All(t.collect(&snaps[*i][k]).must("collect").map_err(ctx)?));
                }
                continue;
            }
        }
        for b in &bs {
            let s = b.snapshot();
            out.push(Out::State(
                b.link(),
                b.count(),
                b.level(),
                s.index().map(|x| x.value_bytes()).unwrap_or_default(),
                s.index().map(|x| x.key_bytes()).unwrap_or_default(),
            ));
        }
    }
    for b in &bs {
        out.push(Out::All(t.collect(&b.snapshot()).must("collect").map_err(ctx)?));
    }
    Ok(out)
}
use crate::engine::R as R_;

fn c19(s: &mut Src, obs: &mut Obs) -> R_ {
    match s.weighted(&[24, 4, 8, 1]) {
        0 => differential(s, obs),
        1 => mem_store(s, obs),
        2 => mem_cache(s, obs),
        _ => shared(s, obs),
    }
}

/// stores that are used by several threads at once
fn shared(s: &mut Src, obs: &mut Obs) -> R_ {
    let threads = s.usize(2, 6);
    let per = s.usize(1, 6);
    let rounds = 12;
    let size = s.usize(1, 200);
    // some of the blocks fit, some do not
    let room = s.usize(1, threads * per);
    let max = room * size + s.usize(0, size);
    let cap = s.usize(1, 4) * size;
    let same = s.chance(1, 4);
    obs.note(|| format!("{} threads put {} blocks of {} bytes each into a store of {}", threads, per, size, max));
    obs.label("stores shared by threads");
    let seed = s.derived().next();
    let gate = std::sync::Barrier::new(threads);
    for round in 0..rounds {
        let store = MemStore::new(max, Sha256Digest::digest);
        let inner = HStore::new();
        let cache = MemCache::new(inner.clone(), size, cap);
        let results: Vec<Result<Vec<(Link, Vec<u8>, bool)>, String>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..threads)
                .map(|t| {
                    let (mut store, cache, gate) = (store.clone(), cache.clone(), &gate);
                    sc.spawn(move || {
                        let mut w = cache.write(|x| Ok(x.clone())).map_err(|e| e.to_string())?;
                        let mut out = vec![];
                        let blocks: Vec<Vec<u8>> = (0..per)
                            .map(|i| {
                                let mut sub = Src::random(seed ^ ((round as u64) << 32) ^ ((i as u64) << 8) ^ if same { 0 } else { t as u64 + 1 });
                                (0..size).map(|_| sub.below(256) as u8).collect()
                            })
                            .collect();
                        gate.wait();
                        for b in blocks {
                            let l = Sha256Digest::digest(&b);
                            let ok = store.put(b.clone()).is_ok();
                            if ok && store.get(&l).map(|x| x[..] != b[..]).unwrap_or(true) {
                                return Err(format!("block {} can not be read after it was written", l));
                            }
                            out.push((l, b.clone(), ok));
                            if w.put(b.clone()).map(|x| x != l).unwrap_or(true) {
                                return Err("put to the cache failed".into());
                            }
                            if cache.get(&l).map(|x| x[..] != b[..]).unwrap_or(true) {
                                return Err(format!("block {} can not be read from the cache or the store behind it", l));
                            }
                        }
                        Ok(out)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panic".into()))).collect()
        });
        let mut all = HashMap::new();
        for r in results {
            match r {
                Ok(v) => {
                    for (l, b, ok) in v {
                        let x = all.entry(l).or_insert((b, false));
                        x.1 |= ok;
                    }
                }
                Err(e) => fail!("shared", "{}", e),
            }
        }
        // the cache, without what is behind it
        inner.with(|x| x.blocks.clear());
        let mut held = 0;
        for (l, (b, _)) in &all {
            if let Ok(d) = cache.get(l) {
                check_eq!(&d[..], &b[..], "data", "block of {} bytes", b.len());
                held += b.len();
            }
        }
        check!(held <= cap, "capacity", "{} bytes cached, capacity {}", held, cap);
        let map = store.into_inner().must("into_inner")?;
        let used: usize = map.values().map(|x| x.len()).sum();
        check!(used <= max, "capacity", "{} bytes in a store of {} that was filled by {} threads", used, max, threads);
        let accepted: HashSet<Link> = all.iter().filter(|x| x.1 .1).map(|x| *x.0).collect();
        check!(map.keys().copied().collect::<HashSet<_>>() == accepted, "blocks", "{} blocks accepted, {} in the store", accepted.len(), map.len());
        // and nothing was refused that would have fitted
        check!(accepted.len() == all.len() || used + size > max, "refused", "blocks refused with {} of {} used", used, max);
    }
    obs.nontrivial = threads * per > room;
    Ok(())
}

fn differential(s: &mut Src, obs: &mut Obs) -> R_ {
    let mut ws: Vec<World> = vec![];
    for _ in 0..2 {
        let w = World::new(s, obs);
        ws.push(w);
    }
    let cfg = [ws[0].cfg.clone(), ws[1].cfg.clone()];
    let sec: Sec = [ws[0].secrets.clone(), ws[1].secrets.clone()];
    let mut ops = vec![];
    let mut n = [0u64; 2];
    let mut mutations = 0;
    while ops.len() < 2 || (ops.len() < 16 && s.more(7)) {
        let i = s.weighted(&[3, 1]);
        let op = match s.weighted(&[6, 4, 2, 1, 1, 2, 2, 2, 2, 1, 1]) {
            k @ (0 | 1) => {
                let c = ws[i].gen_n(s, 80);
                let items = ws[i].items(s, c);
                n[i] += items.len() as u64;
                mutations += 1;
                Op::Extend(i, items, k == 1)
            }
            2 => Op::Pack(i),
            3 => Op::Retain(i, gen_query(s, n[i], ws[i].clock, 1)),
            4 => {
                let c = ws[i].gen_n(s, 20);
                Op::Rollback(i, ws[i].items(s, c))
            }
            5 => Op::Reload(i),
            6 => Op::Reset(s.usize(1, 3000)),
            7 => Op::Get(i, gen_off(s, n[i])),
            8 => Op::Filter(i, gen_query(s, n[i], ws[i].clock, 0)),
            9 => Op::Index(i),
            _ => Op::Again(i, s.below(8) as usize),
        };
        obs.note(|| match &op {
            Op::Extend(i, v, u) => format!("stream {} append {} unpacked={}", i, v.len(), u),
            Op::Rollback(i, v) => format!("stream {} append {} rolled back", i, v.len()),
            x => format!("{:?}", x),
        });
        ops.push(op);
    }
    // reference: no cache
    let store = HStore::new();
    let bc = BranchCache::new(0);
    let t = Transaction::new(Forest::new(store.clone(), bc.clone()), store.clone());
    let want = exec("no cache", t, &bc, &cfg, &sec, &ops)?;
    let cmp = |what: &str, got: Vec<Out>| -> R_ {
        for (i, (a, b)) in got.iter().zip(&want).enumerate() {
            if a != b {
                let mut d = format!("{:?} instead of {:?}", a, b);
                if d.len() > 1500 {
                    let mut i = 1500;
                    while !d.is_char_boundary(i) {
                        i -= 1
                    }
                    d.truncate(i);
                }
                fail!("differs", "{}: result {} is {}", what, i, d);
            }
        }
        check_eq!(got.len(), want.len(), "differs", "{}: number of results", what);
        Ok(())
    };
    // big cache
    let st = HStore::new();
    let bc = BranchCache::new(64 << 20);
    let t = Transaction::new(Forest::new(st.clone(), bc.clone()), st.clone());
    cmp("big cache", exec("big cache", t, &bc, &cfg, &sec, &ops)?)?;
    // small cache
    let small = match s.below(3) {
        0 => s.usize(1, 400),
        1 => s.usize(400, 4000),
        _ => s.usize(1000, 40000),
    };
    let st = HStore::new();
    let bc = BranchCache::new(small);
    let t = Transaction::new(Forest::new(st.clone(), bc.clone()), st.clone());
    cmp("small cache", exec("small cache", t, &bc, &cfg, &sec, &ops)?)?;
    // the same blocks were written
    let a: HashSet<Link> = store.with(|x| x.blocks.keys().copied().collect());
    let b: HashSet<Link> = st.with(|x| x.blocks.keys().copied().collect());
    check!(a == b, "blocks", "different blocks written with a cache of {}", small);
    // other stores
    match s.below(3) {
        0 => {
            let ms = MemStore::new(usize::MAX, Sha256Digest::digest);
            let bc = BranchCache::new(small);
            let t = Transaction::new(Forest::new(ms.clone(), bc.clone()), ms.clone());
            cmp("memory store", exec("memory store", t, &bc, &cfg, &sec, &ops)?)?;
            drop(bc);
            let map = ms.into_inner().must("into_inner")?;
            check!(map.keys().copied().collect::<HashSet<_>>() == a, "blocks", "different blocks in the memory store");
            for (l, d) in map {
                check!(Some(&*d) == store.raw(&l).as_deref(), "blocks", "different data in the memory store");
            }
            obs.label("memory store");
        }
        1 => {
            let st = HStore::new();
            let (max, cap) = (s.usize(0, 600), s.usize(0, 3000));
            let mc = MemCache::new(st.clone(), max, cap);
            let w = mc.write(|x| Ok(x.clone())).must("write")?;
            let bc = BranchCache::new(0);
            let t = Transaction::new(Forest::new(mc, bc.clone()), w);
            cmp("block cache", exec("block cache", t, &bc, &cfg, &sec, &ops)?)?;
            obs.label("block cache");
        }
        _ => {
            if s.chance(1, 4) {
                let dir = Scratch::new()?;
                let path = if s.bool() { Some(dir.0.join("db.sqlite")) } else { None };
                let open = || {
                    use ipfs_sqlite_block_store::{BlockStore, Config, Synchronous};
                    let c = Config::default().with_pragma_synchronous(Synchronous::Off);
                    let db: BlockStore<DefaultParams> = match &path {
                        Some(p) => BlockStore::open(p, c),
                        None => BlockStore::memory(c),
                    }
                    .must("open sqlite")?;
                    Ok::<_, Fail>(SqliteStore::new(db))
                };
                let db = open()?;
                let bc = BranchCache::new(small);
                let t = Transaction::new(Forest::new(db.clone(), bc.clone()), db.clone());
                cmp("sqlite", exec("sqlite", t, &bc, &cfg, &sec, &ops)?)?;
                let db = if path.is_some() {
                    drop((db, bc));
                    open()?
                } else {
                    db
                };
                for l in &a {
                    let got = db.get(l).must("sqlite get")?;
                    check!(Some(&*got) == store.raw(l).as_deref(), "blocks", "different data in sqlite");
                }
                check!(db.get(&Sha256Digest::digest(b"not there")).is_err(), "blocks", "sqlite returns a missing block");
                obs.label("sqlite");
            }
        }
    }
    obs.nontrivial = mutations >= 2 && a.len() >= 5;
    Ok(())
}

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> R_<Self> {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let p = std::env::temp_dir().join(format!("vh-stores-{}-{}", std::process::id(), n));
        std::fs::create_dir_all(&p).must("scratch directory")?;
        Ok(Scratch(p))
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn gen_block(s: &mut Src) -> Vec<u8> {
    match s.weighted(&[2, 4, 1]) {
        0 => vec![s.below(4) as u8; s.usize(0, 3)],
        1 => {
            let n = s.usize(0, 60);
            s.blob(n)
        }
        _ => {
            let n = s.usize(0, 400);
            s.blob(n)
        }
    }
}

fn mem_store(s: &mut Src, obs: &mut Obs) -> R_ {
    let max = if s.chance(1, 8) { usize::MAX } else { s.usize(0, 600) };
    let mut store = MemStore::new(max, Sha256Digest::digest);
    let mut other = store.clone();
    let mut model: HashMap<Link, Vec<u8>> = HashMap::new();
    let mut blocks: Vec<Vec<u8>> = vec![];
    let mut used = 0usize;
    let mut refused = false;
    let mut steps = 0;
    obs.note(|| format!("memory store of {} bytes", max));
    while steps < 3 || (steps < 40 && s.more(20)) {
        steps += 1;
        if s.chance(1, 3) && !blocks.is_empty() {
            // get
            let b = s.pick(&blocks).clone();
            let l = Sha256Digest::digest(&b);
            let got = if s.bool() { store.get(&l) } else { other.get(&l) };
            match (got, model.get(&l)) {
                (Ok(d), Some(m)) => check_eq!(&d[..], &m[..], "data", "block of {} bytes", m.len()),
                (Err(_), None) => {}
                (Ok(_), None) => fail!("data", "a refused block can be read"),
                (Err(e), Some(_)) => fail!("lost", "a stored block can not be read: {}", e),
            }
        } else {
            let b = if !blocks.is_empty() && s.chance(1, 4) { s.pick(&blocks).clone() } else { gen_block(s) };
            obs.note(|| format!("put {} bytes", b.len()));
            let l = Sha256Digest::digest(&b);
            let r = if s.bool() { store.put(b.clone()) } else { other.put(b.clone()) };
            let known = model.contains_key(&l);
            match r {
                Ok(x) => {
                    check_eq!(x, l, "link", "link of a block");
                    if !known {
                        used += b.len();
                        model.insert(l, b.clone());
                    }
                    check!(used <= max, "capacity", "{} bytes in a store of {}", used, max);
                }
                Err(e) => {
                    check!(
                        b.len() > max - used,
                        "refused",
                        "a block of {} bytes is refused with {} of {} used: {}",
                        b.len(),
                        used,
                        max,
                        e
                    );
                    refused = true;
                }
            }
            blocks.push(b);
        }
    }
    check!(store.clone().into_inner().is_err(), "into_inner", "into_inner of a shared store");
    drop(other);
    let map = store.into_inner().must("into_inner")?;
    check_eq!(map.len(), model.len(), "into_inner", "number of blocks");
    for (l, d) in map {
        check!(model.get(&l).map(|x| &x[..]) == Some(&d[..]), "into_inner", "block {}", l);
    }
    obs.label("memory store model");
    obs.nontrivial = model.len() >= 4 && refused;
    Ok(())
}

fn mem_cache(s: &mut Src, obs: &mut Obs) -> R_ {
    let inner = HStore::new();
    let max = if s.chance(1, 8) { 0 } else { s.usize(1, 80) };
    let cap = if s.chance(1, 8) { 0 } else { s.usize(1, 500) };
    obs.note(|| format!("cache of {} bytes for blocks up to {}", cap, max));
    let cache = MemCache::new(inner.clone(), max, cap);
    let clone = cache.clone();
    let mut writer = cache.write(|x| Ok(x.clone())).must("write")?;
    check!(cache.write(|_| Err::<HStore, _>(anyhow::anyhow!("no"))).is_err(), "write", "a failing writer");
    let mut blocks: Vec<Vec<u8>> = vec![];
    let mut evicted = false;
    let mut steps = 0;
    let mut offered: HashSet<Link> = HashSet::new();
    let fits = |b: &[u8]| max > 0 && cap > 0 && b.len() <= max;
    while steps < 3 || (steps < 40 && s.more(20)) {
        steps += 1;
        let b = if !blocks.is_empty() && s.chance(1, 3) { s.pick(&blocks).clone() } else { gen_block(s) };
        let l = Sha256Digest::digest(&b);
        let in_inner = inner.raw(&l).is_some();
        match s.weighted(&[4, 3, 3, 1, 1]) {
            0 => {
                obs.note(|| format!("put {} bytes", b.len()));
                check_eq!(writer.put(b.clone()).must("put")?, l, "link", "link of a block");
                check!(inner.raw(&l).as_deref() == Some(&b[..]), "put", "block not written");
                if fits(&b) {
                    offered.insert(l);
                }
            }
            1 => {
                obs.note(|| format!("offer {} bytes", b.len()));
                if s.bool() {
                    cache.offer(&l, &b)
                } else {
                    clone.offer(&l, &b)
                };
                check_eq!(inner.raw(&l).is_some(), in_inner, "offer", "offer writes to the store");
                if fits(&b) {
                    offered.insert(l);
                }
            }
            2 => {
                let got = if s.bool() { cache.get(&l) } else { clone.get(&l) };
                match got {
                    Ok(d) => {
                        check_eq!(&d[..], &b[..], "data", "block of {} bytes", b.len());
                        check!(in_inner || offered.contains(&l), "data", "block was never put or offered, or is too big");
                    }
                    Err(e) => {
                        check!(!in_inner, "lost", "stored block can not be read: {}", e);
                        evicted |= offered.contains(&l);
                    }
                }
            }
            3 => {
                // the inner write fails: no block appears
                if in_inner || offered.contains(&l) {
                    continue;
                }
                obs.note(|| format!("failing put {} bytes", b.len()));
                inner.with(|x| x.fail_put = Plan::From(0));
                let r = writer.put(b.clone());
                inner.with(|x| x.fail_put = Plan::None);
                check!(r.is_err(), "put", "failed write is reported as success");
                check!(cache.get(&l).is_err(), "put", "block of a failed write can be read");
            }
            _ => {
                // the block disappears from the store: served from the cache, or not at all
                inner.with(|x| x.blocks.remove(&l));
            }
        }
        blocks.push(b);
    }
    // nothing wrong comes out, and the cached part respects the capacity
    let mut total = 0;
    inner.with(|x| x.blocks.clear());
    for b in blocks.iter().collect::<HashSet<_>>() {
        let l = Sha256Digest::digest(b);
        if let Ok(d) = cache.get(&l) {
            check_eq!(&d[..], &b[..], "data", "block of {} bytes", b.len());
            check!(offered.contains(&l), "data", "a block that can not be cached is");
            total += b.len();
        } else {
            evicted |= offered.contains(&l);
        }
    }
    check!(total <= cap, "capacity", "{} bytes cached, capacity {}", total, cap);
    let put = writer.into_inner();
    let _: HStore = put;
    obs.label_if(evicted, "evicted");
    obs.label("block cache model");
    obs.nontrivial = offered.len() >= 4 && evicted;
    Ok(())
}
