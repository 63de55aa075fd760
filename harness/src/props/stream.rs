//! streams over sequences of trees, and concurrency
use crate::engine::*;
use crate::model::*;
use crate::walker;
use crate::{check, check_eq, fail};
use banyan::{FilteredChunk, Forest, Transaction, store::BranchCache};
use futures::channel::mpsc;
use futures::executor::{block_on, ThreadPool};
use futures::task::noop_waker;
use futures::{stream, Stream, StreamExt, TryStreamExt};
use std::collections::HashSet;
use std::pin::Pin;
use std::sync::{Arc, OnceLock};
use std::task::{Context, Poll};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C17",
        rule: "random history (incl. retain) with a snapshot after every step; a random sequence of these snapshots (growing, with repeats, older and empty ones) is streamed with a random query and inclusive range: step by step through a channel with transient or persistent read faults per tree, from a ready list, and on a thread pool. Non-trivial: at least two trees delivered something",
        run: c17,
        quick: 45000,
        thorough: 200000,
        threads: 0,
        regress: &[],
        assumptions: &["later trees contain earlier ones, except for repeats of earlier snapshots", "block_on / thread pool of the futures crate"],
        level: "exploration",
    },
    Prop {
        id: "C18",
        rule: "as C17 in reverse, with ranges that the first tree covers. Non-trivial: a tree failed after delivering something and a later one delivered the rest, or at least 3 chunks were delivered",
        run: c18,
        quick: 45000,
        thorough: 200000,
        threads: 0,
        regress: &[Regress { name: "reverse-resume-duplicates", f: r_reverse_resume }],
        assumptions: &["every tree covers the requested range"],
        level: "exploration",
    },
    Prop {
        id: "C26",
        rule: "random history; its snapshots are read (get, collect, queries in both directions, index iteration, pooled streams) by 2..4 threads through one forest with a shared cache of random size, while another thread continues the history through the same cache and resets it at random, and a live stream follows it. Non-trivial: at least 3 snapshots and 20 reads",
        run: c26,
        quick: 2800,
        thorough: 15000,
        threads: 3,
        regress: &[],
        assumptions: &["schedules are whatever the operating system produces; only snapshots of them are explored"],
        level: "exploration",
    },
];

type Ch = FilteredChunk<(u64, HKey, Val), ()>;
type ChS = Pin<Box<dyn Stream<Item = anyhow::Result<Ch>> + Send>>;

fn pool() -> ThreadPool {
    static P: OnceLock<ThreadPool> = OnceLock::new();
    P.get_or_init(|| ThreadPool::builder().pool_size(6).name_prefix("pool-").create().unwrap()).clone()
}

fn foreign() -> usize {
    FOREIGN_PANICS.lock().unwrap().len()
}
fn check_foreign(before: usize) -> R {
    let p = FOREIGN_PANICS.lock().unwrap();
    if p.len() > before {
        fail!("pool-panic", "a thread of the pool panicked: {}", p[before]);
    }
    Ok(())
}

/// a history, and a snapshot after every step. The second part says whether anything was forgotten
fn stream_world(s: &mut Src, obs: &mut Obs, retain: bool) -> R<(World, Vec<Snap>, bool)> {
    let mut w = World::new(s, obs);
    let mut snaps = vec![w.snap()];
    let mut steps = 0;
    let mut retained = false;
    while steps < 2 || (steps < 9 && s.more(5)) {
        steps += 1;
        if retain && w.b.index().is_some() && s.chance(1, 10) {
            let q = gen_query(s, w.n(), w.clock, 1);
            obs.note(|| format!("retain {:?}", q));
            w.txn.retain(&mut w.b, &q.build()).must("retain")?;
            let got = w.forest().collect(&w.b.snapshot()).must("collect")?;
            check_eq!(got.len(), w.model.len(), "retain", "retain changed the number of elements");
            retained |= got != w.model;
            w.model = got;
        } else {
            let weights = if retained { [6, 6, 2, 0, 1, 1, 0, 0, 0] } else { [6, 6, 2, 3, 1, 1, 0, 0, 0] };
            let step = gen_step_w(s, &w, 80, &weights);
            apply_step(s, obs, &mut w, &step)?;
        }
        snaps.push(w.snap());
    }
    Ok((w, snaps, retained))
}

fn poll_ready(st: &mut ChS, max: usize) -> R<(Vec<anyhow::Result<Ch>>, bool)> {
    let waker = noop_waker();
    let mut cx = Context::from_waker(&waker);
    let mut out = vec![];
    loop {
        check!(out.len() <= max, "endless", "more than {} chunks without waiting", max);
        match st.as_mut().poll_next(&mut cx) {
            Poll::Pending => return Ok((out, false)),
            Poll::Ready(None) => return Ok((out, true)),
            Poll::Ready(Some(x)) => out.push(x),
        }
    }
}

/// make a tree (partially) unreadable
#[derive(Debug, Clone)]
enum Fault {
    None,
    /// a block that stays unreadable while this tree is streamed
    Missing(Vec<Link>),
    /// a block that can not be read n times
    Flaky(Link, u32),
    Nth(u64),
}

fn gen_fault(s: &mut Src, w: &World, snap: &Snap) -> R<Fault> {
    let index = match snap.tree.index() {
        Some(i) if s.chance(1, 3) => i,
        _ => return Ok(Fault::None),
    };
    let links: Vec<Link> = walker::walk(&w.store, &w.secrets, index, 0)?.nodes().iter().filter_map(|n| n.link()).collect();
    if links.is_empty() {
        return Ok(Fault::None);
    }
    Ok(match s.below(3) {
        0 => Fault::Missing((0..s.usize(1, 2)).map(|_| *s.pick(&links)).collect()),
        1 => Fault::Flaky(*s.pick(&links), 1 + s.below(2) as u32),
        _ => Fault::Nth(s.below(links.len() as u64)),
    })
}

fn set_fault(w: &World, f: &Fault) {
    w.store.with(|x| {
        x.missing.clear();
        x.flaky.clear();
        x.fail_get = Plan::None;
        x.injected = 0;
        match f {
            Fault::None => {}
            Fault::Missing(l) => x.missing.extend(l.iter().copied()),
            Fault::Flaky(l, n) => {
                x.flaky.insert(*l, *n);
            }
            Fault::Nth(n) => x.fail_get = Plan::Nth(*n),
        }
    })
}

/// sequence of snapshots to stream: mostly growing, with repeats
fn gen_seq(s: &mut Src, snaps: &[Snap]) -> Vec<usize> {
    let mut v = vec![];
    let mut at = 0;
    while at < snaps.len() {
        at += s.usize(0, 2);
        if at < snaps.len() {
            v.push(at);
            if s.chance(1, 6) {
                // an old one again
                v.push(s.below(at as u64 + 1) as usize);
            }
            if s.chance(1, 6) {
                v.push(at);
            }
        }
        at += 1;
    }
    v
}

fn in_range(m: &[ModelItem], q: &Qx, a: u64, b: u64) -> Vec<(u64, HKey, Val)> {
    triples(m, q).into_iter().filter(|x| x.0 >= a && x.0 <= b).collect()
}

fn c17(s: &mut Src, obs: &mut Obs) -> R {
    let (w, snaps, retained) = stream_world(s, obs, true)?;
    let n = w.n();
    let q = gen_query(s, n, w.clock, 1);
    let seq = gen_seq(s, &snaps);
    let (a, b) = match s.weighted(&[2, 4, 1]) {
        0 => (0, u64::MAX),
        1 => {
            let x = s.range(0, n + 1);
            (x, s.range(x, n + 2))
        }
        _ => (s.range(0, n), u64::MAX),
    };
    obs.note(|| format!("stream {:?} range {}..={} trees {:?}", q, a, b, seq.iter().map(|i| snaps[*i].model.len()).collect::<Vec<_>>()));
    let f = if s.bool() { forest(&w.store, gen_cache(s)) } else { w.forest().clone() };
    let mode = s.weighted(&[6, 2, 2]);
    if mode == 0 {
        obs.label("step by step");
        let (tx, rx) = mpsc::unbounded::<Tr>();
        let mut tx = Some(tx);
        let mut st: ChS = f.stream_trees_chunked(q.build(), rx, a..=b, &|_| ()).boxed();
        let mut start = a;
        let mut done = false;
        let mut delivered = 0;
        let mut failed_partial = false;
        for i in seq {
            let snap = &snaps[i];
            let cnt = snap.model.len() as u64;
            let fault = gen_fault(s, &w, snap)?;
            obs.note(|| format!("tree of {} with {:?}", cnt, fault));
            set_fault(&w, &fault);
            tx.as_ref().unwrap().unbounded_send(snap.tree.clone()).ok();
            let max = 4 * snap.model.len() + 50;
            let (chunks, ended) = poll_ready(&mut st, max)?;
            let hit = w.store.with(|x| x.injected > 0);
            set_fault(&w, &Fault::None);
            if done {
                check!(ended && chunks.is_empty(), "end", "the stream delivers after its end");
                continue;
            }
            let mut at = 0;
            let mut some = false;
            let lo = start;
            for (k, c) in chunks.iter().enumerate() {
                let c = match c {
                    Ok(c) => c,
                    Err(e) => fail!("error", "stream returned an error instead of waiting for the next tree: {}", e),
                };
                check_eq!(c.range.start, at, "tiling", "chunk {:?} does not continue at", c.range);
                at = c.range.end;
                let want: Vec<_> = in_range(&snap.model, &q, lo.max(c.range.start), b)
                    .into_iter()
                    .filter(|x| x.0 < c.range.end)
                    .collect();
                cmp_triples(&format!("chunk {:?} of a tree of {}, already delivered up to {}", c.range, cnt, lo), &c.data, &want)?;
                some |= !c.data.is_empty();
                start = start.max(c.range.end);
                if c.range.end > b {
                    check_eq!(k + 1, chunks.len(), "end", "chunks after the end of the range");
                    check!(ended, "end", "the stream does not end after {} was reached", b);
                    done = true;
                }
            }
            delivered += some as u32;
            if !done {
                check!(!ended, "end", "the stream ended at {} although the range goes up to {}", start, b);
                if !hit {
                    check_eq!(at, cnt, "incomplete", "healthy tree was delivered up to");
                } else {
                    failed_partial |= some;
                    obs.label("failed tree");
                }
            }
        }
        tx.take();
        if !done {
            let (chunks, ended) = poll_ready(&mut st, 10)?;
            check!(chunks.is_empty() && ended, "end", "the stream does not end with its source");
        }
        obs.label_if(done, "ended by range");
        obs.label_if(failed_partial, "failed after delivering");
        obs.nontrivial = delivered >= 2;
        return Ok(());
    }
    // all trees at once. What is delivered when depends on which tree is read last
    let trees: Vec<Snap> = seq.iter().map(|i| snaps[*i].clone()).collect();
    let mut unhealthy = HashSet::new();
    let mut missing = HashSet::new();
    if mode == 2 && !retained && s.chance(1, 2) {
        // the root of some trees is missing, for good
        for t in &trees {
            if let (true, Some(l)) = (s.chance(1, 4), t.tree.link()) {
                missing.insert(l);
            }
        }
        for (i, t) in trees.iter().enumerate() {
            // other trees may contain that block
            if let Some(ix) = t.tree.index() {
                let ls = walker::walk(&w.store, &w.secrets, ix, 0)?.links();
                if ls.iter().any(|l| missing.contains(l)) {
                    unhealthy.insert(i);
                }
            }
        }
    }
    w.store.with(|x| x.missing = missing);
    let list: Vec<Tr> = trees.iter().map(|x| x.tree.clone()).collect();
    // expected: every tree adds what the ones before did not reach
    let expect = |a: u64, b: u64, all: bool| {
        let mut want = vec![];
        let mut start = a;
        for (i, t) in trees.iter().enumerate() {
            if all || !unhealthy.contains(&i) {
                if start <= b {
                    want.extend(in_range(&t.model, &q, start, b));
                }
                start = start.max(t.model.len() as u64);
            }
        }
        want
    };
    let before = foreign();
    if mode == 1 {
        obs.label("flattened");
        let got: Vec<_> = block_on(f.stream_trees(q.build(), stream::iter(list)).take(n as usize + 10).try_collect()).must("stream_trees")?;
        cmp_triples("stream_trees", &got, &expect(0, u64::MAX, true))?;
        obs.nontrivial = trees.len() >= 2 && !got.is_empty();
    } else {
        obs.label("thread pool");
        let items: Vec<anyhow::Result<Ch>> = block_on(
            f.stream_trees_chunked_threaded(q.build(), stream::iter(list), a..=b, &|_| (), pool())
                .take(20 * (n as usize + 10) * (trees.len() + 1))
                .collect(),
        );
        check_foreign(before)?;
        let mut got = vec![];
        for c in items {
            got.extend(c.must("stream_trees_chunked_threaded")?.data);
        }
        check!(got.windows(2).all(|x| x[0].0 < x[1].0), "order", "offsets of the pooled stream are not strictly ascending");
        let full = expect(a, b, true);
        let need = expect(a, b, false);
        if unhealthy.is_empty() {
            cmp_triples("stream_trees_chunked_threaded", &got, &full)?;
        } else {
            obs.label("unreadable roots on the pool");
            check!(got.len() >= need.len(), "incomplete", "{} elements, at least {} are readable", got.len(), need.len());
            check!(got.len() <= full.len(), "results", "too many elements");
            cmp_triples("stream_trees_chunked_threaded", &got, &full[..got.len()])?;
        }
        obs.nontrivial = trees.len() >= 2 && !got.is_empty();
    }
    check_foreign(before)?;
    w.store.with(|x| x.missing.clear());
    Ok(())
}

fn c18(s: &mut Src, obs: &mut Obs) -> R {
    let (w, snaps, _) = stream_world(s, obs, false)?;
    let n = w.n();
    if n == 0 {
        return Ok(());
    }
    let q = gen_query(s, n, w.clock, 1);
    // trees that all cover the range
    let (a, b, seq): (u64, u64, Vec<usize>) = if s.chance(1, 3) {
        // different trees with the same content, open end
        let same: Vec<usize> = (0..snaps.len()).filter(|i| snaps[*i].model.len() as u64 == n).collect();
        let mut seq: Vec<usize> = (0..s.usize(1, 5)).map(|_| *s.pick(&same)).collect();
        seq.sort_unstable();
        let b = if s.bool() { u64::MAX } else { s.range(n - 1, n + 2) };
        (s.range(0, n - 1), b, seq)
    } else {
        let b = s.range(0, n - 1);
        let ok: Vec<usize> = (0..snaps.len()).filter(|i| snaps[*i].model.len() as u64 > b).collect();
        let mut seq: Vec<usize> = (0..s.usize(1, 5)).map(|_| *s.pick(&ok)).collect();
        seq.sort_unstable();
        (s.range(0, b), b, seq)
    };
    obs.note(|| format!("reverse stream {:?} range {}..={} trees {:?}", q, a, b, seq.iter().map(|i| snaps[*i].model.len()).collect::<Vec<_>>()));
    let f = if s.bool() { forest(&w.store, gen_cache(s)) } else { w.forest().clone() };
    let mut want = in_range(&w.model, &q, a, b);
    want.reverse();
    let mut got: Vec<(u64, HKey, Val)> = vec![];
    let (tx, rx) = mpsc::unbounded::<Tr>();
    let mut st: ChS = f.stream_trees_chunked_reverse(q.build(), rx, a..=b, &|_| ()).boxed();
    // everything at or above this has been delivered
    let mut top = b.saturating_add(1);
    let mut done = false;
    let mut total = 0;
    let mut resumed = false;
    let mut failed_partial = false;
    for i in seq {
        let snap = &snaps[i];
        let cnt = snap.model.len() as u64;
        if s.chance(1, 8) {
            tx.unbounded_send(Tr::default()).ok();
        }
        let fault = gen_fault(s, &w, snap)?;
        obs.note(|| format!("tree of {} with {:?}", cnt, fault));
        set_fault(&w, &fault);
        tx.unbounded_send(snap.tree.clone()).ok();
        let (chunks, ended) = poll_ready(&mut st, 4 * snap.model.len() + 50)?;
        let hit = w.store.with(|x| x.injected > 0);
        set_fault(&w, &Fault::None);
        if done {
            check!(ended && chunks.is_empty(), "end", "the stream delivers after its end");
            continue;
        }
        let mut at = cnt;
        let mut some = false;
        let hi = top;
        for (k, c) in chunks.iter().enumerate() {
            let c = match c {
                Ok(c) => c,
                Err(e) => fail!("error", "stream returned an error instead of waiting for the next tree: {}", e),
            };
            total += 1;
            check_eq!(c.range.end, at, "tiling", "chunk {:?} does not continue at", c.range);
            at = c.range.start;
            let want: Vec<_> = triples(&snap.model, &q)
                .into_iter()
                .filter(|x| x.0 >= a && x.0 < hi && x.0 <= b && c.range.contains(&x.0))
                .collect();
            cmp_triples(&format!("chunk {:?} of a tree of {}, already delivered down to {}", c.range, cnt, hi), &c.data, &want)?;
            some |= !c.data.is_empty();
            got.extend(c.data.iter().rev().cloned());
            top = top.min(c.range.start);
            if c.range.start <= a {
                check_eq!(k + 1, chunks.len(), "end", "chunks after the start of the range");
                check!(ended, "end", "the stream does not end after {} was reached", a);
                done = true;
            }
        }
        resumed |= failed_partial && some;
        if !done {
            check!(hit, "incomplete", "healthy tree was delivered only down to {}, range starts at {}", at, a);
            check!(!ended, "end", "the stream ended at {} although the range starts at {}", at, a);
            failed_partial |= some;
            obs.label("failed tree");
        }
    }
    if done {
        cmp_triples("reverse stream", &got, &want)?;
    } else {
        check!(got.len() <= want.len(), "results", "too many elements");
        cmp_triples("reverse stream", &got, &want[..got.len()])?;
        drop(tx);
        let (chunks, ended) = poll_ready(&mut st, 10)?;
        check!(chunks.is_empty() && ended, "end", "the stream does not end with its source");
    }
    obs.label_if(resumed, "resumed after a failure");
    obs.nontrivial = resumed || total >= 3;
    Ok(())
}

/// a failing tree followed by a readable one, in reverse
fn r_reverse_resume() -> R {
    let store = HStore::new();
    let cfg = banyan::Config { max_leaf_count: 1, ..banyan::Config::debug() };
    let mut t = txn(&store, 0);
    let mut b: Bld = banyan::StreamBuilder::new(cfg, Default::default());
    let items: Vec<Item> = (0..4u64)
        .map(|i| (HKey { t: i, c: 1, p: String::new(), l: vec![] }, to_val(&[i as u8])))
        .collect();
    t.extend(&mut b, items).must("extend")?;
    let tree = b.snapshot();
    // the leaf of offset 1 can not be read once
    let root = walker::walk(&store, &Default::default(), tree.index().unwrap(), 0)?;
    let l = root.leaves().iter().find(|l| l.start == 1).unwrap().link.unwrap();
    store.with(|x| x.flaky.insert(l, 1));
    let st = t.read().stream_trees_chunked_reverse(Qx::All.build(), stream::iter(vec![tree.clone(), tree]), 0..=3, &|_| ());
    let chunks: Vec<_> = block_on(st.try_collect()).must("stream")?;
    let got: Vec<u64> = chunks.iter().flat_map(|c: &Ch| c.data.iter().rev().map(|x| x.0)).collect();
    check_eq!(got, vec![3, 2, 1, 0], "results", "offsets");
    Ok(())
}

// ------------------------------------------------------------------------------------------
// C26

#[derive(Debug, Clone)]
enum Read {
    Get(usize, u64),
    Collect(usize),
    Query(usize, Qx, u8),
    Index(usize, Qx),
    Load(usize),
    Stream(usize, Qx),
}

fn do_read(f: &Fst, w: (&banyan::Secrets, &[Snap]), r: &Read) -> R {
    let (secrets, snaps) = w;
    match r {
        Read::Get(i, o) => {
            let sn = &snaps[*i];
            let got = f.get(&sn.tree, *o).must("get")?;
            check!(got == sn.model.get(*o as usize).cloned().flatten(), "get", "get({}) of snapshot {}", o, i);
        }
        Read::Collect(i) => {
            let sn = &snaps[*i];
            same_content("collect", &f.collect(&sn.tree).must("collect")?, &sn.model, 0)?;
        }
        Read::Query(i, q, k) => {
            let sn = &snaps[*i];
            let mut got: Vec<_> = match k {
                0 => f.iter_filtered(&sn.tree, q.build()).collect::<anyhow::Result<_>>().must("iter_filtered")?,
                1 => f.iter_filtered_reverse(&sn.tree, q.build()).collect::<anyhow::Result<_>>().must("iter_filtered_reverse")?,
                _ => block_on(f.stream_filtered(&sn.tree, q.build()).try_collect()).must("stream_filtered")?,
            };
            if *k == 1 {
                got.reverse();
            }
            cmp_triples("query", &got, &triples(&sn.model, q))?;
        }
        Read::Index(i, q) => {
            let sn = &snaps[*i];
            let n: u64 = f
                .iter_index(&sn.tree, q.build())
                .collect::<anyhow::Result<Vec<_>>>()
                .must("iter_index")?
                .iter()
                .map(|x| if let banyan::index::Index::Leaf(_) = x { x.count() } else { 0 })
                .sum();
            check!(n >= triples(&sn.model, q).len() as u64, "iter_index", "leaves of the index iteration hold fewer elements than match");
        }
        Read::Load(i) => {
            let sn = &snaps[*i];
            if let Some(l) = sn.tree.link() {
                let t: Tr = f.load_tree(secrets.clone(), l).must("load_tree")?;
                same_content("loaded", &f.collect(&t).must("collect")?, &sn.model, 0)?;
            }
        }
        Read::Stream(i, q) => {
            let list: Vec<Tr> = snaps[..=*i].iter().map(|x| x.tree.clone()).collect();
            let chunks: Vec<Ch> = block_on(
                f.stream_trees_chunked_threaded(q.build(), stream::iter(list), 0..=u64::MAX, &|_| (), pool()).try_collect(),
            )
            .must("threaded stream")?;
            let got: Vec<_> = chunks.into_iter().flat_map(|c| c.data).collect();
            cmp_triples("threaded stream", &got, &triples(&snaps[*i].model, q))?;
        }
    }
    Ok(())
}

fn c26(s: &mut Src, obs: &mut Obs) -> R {
    let (mut w, snaps, _) = stream_world(s, obs, false)?;
    let n = w.n();
    let cache = *s.pick(&[0usize, 600, 2000, 6000, 1 << 20]);
    let bc = BranchCache::new(cache);
    let f: Fst = Forest::new(w.store.clone(), bc.clone());
    // the writer shares the cache
    w.txn = Transaction::new(Forest::new(w.store.clone(), bc.clone()), w.store.clone());
    w.cache = cache;
    let snaps = Arc::new(snaps);
    let mut plans = vec![];
    let threads = s.usize(2, 4);
    for _ in 0..threads {
        let mut plan = vec![];
        for _ in 0..s.usize(6, 14) {
            let i = s.below(snaps.len() as u64) as usize;
            let q = gen_query(s, n, w.clock, 1);
            plan.push(match s.weighted(&[4, 3, 5, 2, 2, 1]) {
                0 => Read::Get(i, gen_off(s, n)),
                1 => Read::Collect(i),
                2 => Read::Query(i, q, s.below(3) as u8),
                3 => Read::Index(i, q),
                4 => Read::Load(i),
                _ => Read::Stream(i, q),
            });
        }
        plans.push(plan);
    }
    // what the writer is going to do
    let mut writes: Vec<(u64, Vec<Item>)> = vec![];
    for _ in 0..s.usize(2, 8) {
        let kind = s.weighted(&[4, 4, 2, 1]) as u64;
        let items = if kind < 2 {
            let k = w.gen_n(s, 40).max(1);
            w.items(s, k)
        } else {
            vec![]
        };
        writes.push((kind, items));
    }
    let follow = gen_query(s, n + 20, w.clock, 1);
    let before = foreign();
    let reads: usize = plans.iter().map(|x| x.len()).sum();
    let secrets = w.secrets.clone();
    let (tx, rx) = mpsc::unbounded::<Tr>();
    let (tx2, rx2) = mpsc::unbounded::<Tr>();
    let results: Vec<R> = std::thread::scope(|sc| {
        let mut hs = vec![];
        for (t, plan) in plans.into_iter().enumerate() {
            let (f, snaps, secrets) = (f.clone(), snaps.clone(), secrets.clone());
            hs.push(
                std::thread::Builder::new()
                    .name(format!("vh-reader-{}", t))
                    .spawn_scoped(sc, move || guard(|| plan.iter().try_for_each(|r| do_read(&f, (&secrets, &snaps), r))))
                    .unwrap(),
            );
        }
        // a live stream that follows the writer, and one on the pool
        let (f1, f2, q1, q2) = (f.clone(), f.clone(), follow.clone(), follow.clone());
        let h1 = std::thread::Builder::new()
            .name("vh-follow".into())
            .spawn_scoped(sc, move || {
                guard(|| block_on(f1.stream_trees(q1.build(), rx).try_collect::<Vec<_>>()).must("live stream"))
            })
            .unwrap();
        let h2 = std::thread::Builder::new()
            .name("vh-follow2".into())
            .spawn_scoped(sc, move || {
                guard(|| {
                    let c: Vec<Ch> = block_on(f2.stream_trees_chunked_threaded(q2.build(), rx2, 0..=u64::MAX, &|_| (), pool()).try_collect())
                        .must("live pooled stream")?;
                    Ok(c.into_iter().flat_map(|c| c.data).collect::<Vec<_>>())
                })
            })
            .unwrap();
        let wr = guard(|| {
            tx.unbounded_send(w.b.snapshot()).ok();
            tx2.unbounded_send(w.b.snapshot()).ok();
            for (kind, items) in writes {
                match kind {
                    0 => w.extend(items, false)?,
                    1 => w.extend(items, true)?,
                    2 => w.pack()?,
                    _ => bc.reset(std::num::NonZeroUsize::new(cache.max(1)).unwrap()),
                }
                tx.unbounded_send(w.b.snapshot()).ok();
                tx2.unbounded_send(w.b.snapshot()).ok();
            }
            Ok(())
        });
        drop((tx, tx2));
        let mut rs: Vec<R> = hs.into_iter().map(|h| h.join().unwrap()).collect();
        rs.push(wr);
        for (what, h) in [("live stream", h1), ("live pooled stream", h2)] {
            let r = h.join().unwrap();
            rs.push(r.and_then(|got| cmp_triples(what, &got, &triples(&w.model, &follow))));
        }
        rs
    });
    for r in results {
        r?;
    }
    check_foreign(before)?;
    same_content("written concurrently", &f.collect(&w.b.snapshot()).must("collect")?, &w.model, 0)?;
    let cold = forest(&w.store, 0);
    same_content("written concurrently, cold", &cold.collect(&w.b.snapshot()).must("collect")?, &w.model, 0)?;
    for sn in snaps.iter() {
        super::history::verify_snap("snapshot afterwards", &f, sn)?;
    }
    obs.label_if(cache == 0, "no cache");
    obs.label_if(cache > 0 && cache < 10000, "small cache");
    obs.nontrivial = snaps.len() >= 3 && reads >= 20;
    Ok(())
}
