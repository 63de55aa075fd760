//! C36 code supplied by the user (sources, queries, extra data, codecs, stores) may read the same forest, or panic
use crate::engine::*;
use crate::model::*;
use crate::{check, check_eq, fail};
use banyan::index::{BranchIndex, CompactSeq, Index, LeafIndex, NodeInfo};
use banyan::query::{Query, QueryExt};
use banyan::{StreamBuilder, Tree};
use cbor_data::codec::{CodecError, ReadCbor, WriteCbor};
use cbor_data::{Cbor, Writer};
use futures::executor::block_on;
use futures::TryStreamExt;
use std::cell::RefCell;
use std::sync::Arc;

pub static PROPS: &[Prop] = &[Prop {
    id: "C36",
    rule: "history, then appends from sources that read the same forest on the way (also the tree that is appended to), reads and retains with queries and extra data functions that read the same forest, reads of several iterators interleaved with appends, packs and cache resets, and panics at a random call of a source, query, extra data function, value codec, store read or write. Oracle: Vec model, and the same operation with plain data. Non-trivial: a nested read or a deliberate panic happened while a tree of at least two leaves was read or written",
    run: c36,
    quick: 25000,
    thorough: 800000,
    threads: 0,
    regress: &[],
    assumptions: &["codecs of values do not read trees themselves"],
    level: "exploration",
}];

struct Ctx {
    forest: Fst,
    tree: Tr,
    model: Arc<Vec<ModelItem>>,
    /// do nested reads
    read: bool,
    calls: u64,
    panic_at: Option<u64>,
    panicked: bool,
    nested: u64,
    err: Option<Fail>,
    rnd: u64,
}

thread_local!(static CTX: RefCell<Option<Ctx>> = RefCell::new(None));

const DELIBERATE: &str = "deliberate panic in code of the user";

/// called from everything the user supplies
fn poke(may_read: bool) {
    let mut c = match CTX.with(|c| c.borrow_mut().take()) {
        Some(c) => c,
        None => return,
    };
    let n = c.calls;
    c.calls += 1;
    let boom = c.panic_at == Some(n);
    if may_read && c.read && c.err.is_none() && n < 400 {
        c.rnd = c.rnd.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let r = c.rnd >> 33;
        if let Err(e) = nested(&c, r) {
            c.err = Some(e);
        }
        c.nested += 1;
    }
    c.panicked |= boom;
    CTX.with(|x| *x.borrow_mut() = Some(c));
    if boom {
        std::panic::panic_any(DELIBERATE);
    }
}

fn nested(c: &Ctx, r: u64) -> R {
    let n = c.model.len() as u64;
    let o = r / 8 % (n + 1);
    match r % 8 {
        0..=3 => {
            let got = c.forest.get(&c.tree, o).must("nested get")?;
            check!(got == c.model.get(o as usize).cloned().flatten(), "nested-get", "get({}) of {} elements within an operation", o, n);
        }
        4 | 5 => {
            let q = Qx::Off(2, o, 0);
            let got = c.forest.iter_filtered(&c.tree, q.build()).take(3).collect::<anyhow::Result<Vec<_>>>().must("nested iter_filtered")?;
            let want: Vec<_> = triples(&c.model, &q).into_iter().take(3).collect();
            cmp_triples("iter_filtered within an operation", &got, &want)?;
        }
        6 => {
            let q = Qx::Off(3, 0, o);
            let got = c.forest.iter_filtered_reverse(&c.tree, q.build()).take(3).collect::<anyhow::Result<Vec<_>>>().must("nested iter_filtered_reverse")?;
            let want: Vec<_> = triples(&c.model, &q).into_iter().rev().take(3).collect();
            cmp_triples("iter_filtered_reverse within an operation", &got, &want)?;
        }
        _ if r / 64 % 3 == 0 => {
            // write another tree
            let items: Vec<Item> = c.model.iter().flatten().filter(|x| x.1.as_slice().len() < 1000).take(4).cloned().collect();
            let mut t = txn(&HStore::new(), 1000);
            let mut b: Bld = StreamBuilder::debug();
            for x in items.chunks(2) {
                t.extend(&mut b, x.to_vec()).must("nested extend")?;
            }
            let got = t.read().collect(&b.snapshot()).must("nested collect")?;
            let want: Vec<ModelItem> = items.into_iter().map(Some).collect();
            same_content("another tree written within an operation", &got, &want, 0)?;
        }
        _ => {
            for x in c.forest.iter_index(&c.tree, Qx::All.build()).take(5) {
                x.must("nested iter_index")?;
            }
        }
    }
    Ok(())
}

#[derive(Debug, Clone)]
struct PokeQ(DynQ);
impl Query<HT> for PokeQ {
    fn containing(&self, o: u64, x: &LeafIndex<HT>, res: &mut [bool]) {
        poke(true);
        self.0.containing(o, x, res)
    }
    fn intersecting(&self, o: u64, x: &BranchIndex<HT>, res: &mut [bool]) {
        poke(true);
        self.0.intersecting(o, x, res)
    }
}

/// count, and what the loader says about the node
type Extra = (u64, Option<u64>);
fn extra(info: &NodeInfo<HT, HStore>) -> Extra {
    poke(true);
    match info {
        NodeInfo::Branch(i, l) => (i.count, l.load_cached().ok().map(|b| (b.count() == i.summaries.len() as u64) as u64)),
        NodeInfo::Leaf(i, l) => {
            (i.keys.count(), l.load().ok().map(|l| l.child_at::<Val>(0).is_ok() as u64))
        }
        NodeInfo::PurgedBranch(i) => (i.count, None),
        NodeInfo::PurgedLeaf(i) => {
            (i.keys.count(), None)
        }
    }
}

/// a value whose codec panics when told to
#[derive(Debug, Clone, PartialEq)]
struct PVal(Val);
impl WriteCbor for PVal {
    fn write_cbor<W: Writer>(&self, w: W) -> W::Output {
        poke(false);
        self.0.write_cbor(w)
    }
}
impl ReadCbor for PVal {
    fn fmt(f: &mut impl std::fmt::Write) -> std::fmt::Result {
        write!(f, "value")
    }
    fn read_cbor(cbor: &Cbor) -> Result<Self, CodecError> {
        poke(false);
        Ok(PVal(Val::read_cbor(cbor)?))
    }
}

/// a source of elements with a legal but unhelpful size hint
struct Source {
    it: Box<dyn Iterator<Item = Item> + Send>,
    hint: (usize, Option<usize>),
}
impl Iterator for Source {
    type Item = Item;
    fn next(&mut self) -> Option<Item> {
        poke(true);
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}

fn arm(s: &mut Src, w: &World, read: bool, panic: bool, max: u64) {
    let panic_at = if panic {
        Some(if s.chance(1, 3) { s.range(0, max) } else { s.range(0, max.min(12)) })
    } else {
        None
    };
    let c = Ctx {
        forest: w.forest().clone(),
        tree: w.b.snapshot(),
        model: Arc::new(w.model.clone()),
        read,
        calls: 0,
        panic_at,
        panicked: false,
        nested: 0,
        err: None,
        rnd: s.range(0, u64::MAX),
    };
    CTX.with(|x| *x.borrow_mut() = Some(c));
}

struct Out<T> {
    /// None if there was a deliberate panic
    res: Option<T>,
    nested: u64,
}

/// run what was armed; a deliberate panic is fine, any other is not
fn run<T>(what: &str, f: impl FnOnce() -> T) -> R<Out<T>> {
    let r = catches(f);
    let c = CTX.with(|x| x.borrow_mut().take());
    let c = match c {
        Some(c) => c,
        None => fail!("harness", "no context after {}", what),
    };
    if let Some(e) = c.err {
        return Err(e);
    }
    match r {
        Ok(t) => {
            check!(!c.panicked, "swallowed-panic", "{}: a panic was swallowed", what);
            Ok(Out { res: Some(t), nested: c.nested })
        }
        Err(e) => {
            check!(c.panicked, "panic", "{} panicked: {}", what, e);
            Ok(Out { res: None, nested: c.nested })
        }
    }
}

fn unchanged(what: &str, w: &World, link: Option<Link>) -> R {
    check_eq!(w.b.link(), link, "root-after-panic", "{}: root after a panic", what);
    check_eq!(w.b.count(), w.n(), "count-after-panic", "{}: count after a panic", what);
    let got = w.forest().collect(&w.b.snapshot()).must("collect after a panic")?;
    same_content(&format!("{}: content after a panic", what), &got, &w.model, 0)
}

/// reads with the given query; compared with the model
fn read(s: &mut Src, obs: &mut Obs, w: &World, q: &Qx, query: DynQ, panics: bool) -> R<u64> {
    let f = w.forest().clone();
    let tree = w.b.snapshot();
    let want = triples(&w.model, q);
    let kind = s.below(8);
    obs.note(|| format!("  read form {}", kind));
    let nodes = 2 * w.model.len() as u64;
    let with_leaf_reads = kind == 3 || kind == 4;
    arm(s, w, true, panics, if with_leaf_reads { 2 * nodes } else { nodes });
    let chunked = |out: R<Out<anyhow::Result<Vec<banyan::FilteredChunk<(u64, HKey, Val), Extra>>>>>, reverse: bool| -> R<u64> {
        let out = out?;
        if let Some(r) = out.res {
            let mut got = vec![];
            for mut c in r.must("chunks")? {
                check_eq!(c.extra.0, c.range.end - c.range.start, "extra", "count from the extra data of {:?}", c.range);
                if let Some(n) = c.extra.1 {
                    check!(n == 1, "extra", "the loader of the node at {:?} gives something else", c.range);
                }
                if reverse {
                    c.data.reverse();
                }
                got.extend(c.data);
            }
            if reverse {
                got.reverse();
            }
            cmp_triples("chunks", &got, &want)?;
        }
        Ok(out.nested)
    };
    let flat = |out: R<Out<anyhow::Result<Vec<(u64, HKey, Val)>>>>, reverse: bool| -> R<u64> {
        let out = out?;
        if let Some(r) = out.res {
            let mut got = r.must("read")?;
            if reverse {
                got.reverse();
            }
            cmp_triples("read", &got, &want)?;
        }
        Ok(out.nested)
    };
    match kind {
        0 => flat(run("iter_filtered", || f.iter_filtered(&tree, query).collect()), false),
        1 => flat(run("iter_filtered_reverse", || f.iter_filtered_reverse(&tree, query).collect()), true),
        2 => flat(run("stream_filtered", || block_on(f.stream_filtered(&tree, query).try_collect())), false),
        3 => chunked(run("iter_filtered_chunked", || f.iter_filtered_chunked(&tree, query, &extra).collect()), false),
        4 => chunked(run("iter_filtered_chunked_reverse", || f.iter_filtered_chunked_reverse(&tree, query, &extra).collect()), true),
        5 => flat(
            run("stream_trees", || block_on(f.stream_trees(query, futures::stream::iter(vec![tree.clone(), tree])).try_collect())),
            false,
        ),
        n => {
            let plain: Vec<Index<HT>> = if n == 6 {
                f.iter_index(&tree, q.build()).collect::<anyhow::Result<_>>().must("iter_index")?
            } else {
                f.iter_index_reverse(&tree, q.build()).collect::<anyhow::Result<_>>().must("iter_index_reverse")?
            };
            let out = run("iter_index", || -> anyhow::Result<Vec<Index<HT>>> {
                if n == 6 {
                    f.iter_index(&tree, query).collect()
                } else {
                    f.iter_index_reverse(&tree, query).collect()
                }
            })?;
            if let Some(r) = out.res {
                let a: Vec<_> = r.must("iter_index")?.iter().map(|x| (*x.link(), x.count(), x.level())).collect();
                let b: Vec<_> = plain.iter().map(|x| (*x.link(), x.count(), x.level())).collect();
                check_eq!(a, b, "iter-index", "index iteration with a query that reads");
            }
            Ok(out.nested)
        }
    }
}

fn c36(s: &mut Src, obs: &mut Obs) -> R {
    CTX.with(|x| *x.borrow_mut() = None);
    let mut w = World::new(s, obs);
    let mut steps = 0;
    while steps == 0 || (steps < 4 && s.more(2)) {
        steps += 1;
        let step = gen_step_w(s, &w, 60, &[6, 5, 2, 1, 1, 1, 1, 1, 1]);
        apply_step(s, obs, &mut w, &step)?;
    }
    let mut snaps = vec![w.snap()];
    // retain leaves the sizes of the old nodes in the builder
    let mut retained = false;
    let mut rounds = 0;
    while rounds == 0 || (rounds < 5 && s.more(2)) {
        rounds += 1;
        let before = w.b.link();
        let leaves = w.b.level() > 0;
        let panics = s.bool();
        let mut eventful = 0;
        match s.below(7) {
            // an append from a source that reads
            0 | 1 => {
                let purged = w.model.iter().any(|x| x.is_none());
                let unpacked = s.bool();
                let max = w.gen_n(s, 40);
                let items: Vec<Item>;
                let it: Box<dyn Iterator<Item = Item> + Send>;
                if s.bool() && w.n() > 0 && !purged {
                    let q = gen_query(s, w.n(), w.clock, 2);
                    items = triples(&w.model, &q).into_iter().take(max).map(|(_, k, v)| (k, v)).collect();
                    let tree = w.b.snapshot();
                    obs.note(|| format!("append what matches {:?} of the tree itself, unpacked={} panics={}", q, unpacked, panics));
                    obs.label("append from the tree itself");
                    let r = w.forest().iter_filtered(&tree, q.build());
                    it = Box::new(r.take(max).map(|x| x.map(|(_, k, v)| (k, v)).expect("the source can be read")));
                } else {
                    items = w.items(s, max);
                    obs.note(|| format!("append {} elements, unpacked={} panics={}", items.len(), unpacked, panics));
                    it = Box::new(items.clone().into_iter());
                }
                let n = items.len();
                let hint = match s.below(3) {
                    0 => (0, None),
                    1 => (n, Some(n)),
                    _ => (n / 2, Some(usize::MAX)),
                };
                // the same with plain data, from the same state
                let plain = match w.b.link() {
                    Some(link) if w.aborted == 0 && !retained && s.bool() => {
                        let store = w.store.fork();
                        let mut t = txn(&store, w.cache);
                        let mut b: Bld = t.load_stream_builder(w.secrets.clone(), w.cfg.clone(), link).must("load")?;
                        if unpacked {
                            t.extend_unpacked(&mut b, items.clone()).must("extend_unpacked")?;
                        } else {
                            t.extend(&mut b, items.clone()).must("extend")?;
                        }
                        Some(b.link())
                    }
                    _ => None,
                };
                let coded = s.chance(1, 4) && w.b.link().is_some() && w.aborted == 0;
                arm(s, &w, true, panics, if coded { 2 * n as u64 } else { n as u64 + 1 });
                let src = Source { it, hint };
                let (t, b) = (&mut w.txn, &mut w.b);
                let out = if coded {
                    // a builder whose values have a codec that panics
                    let mut pb: StreamBuilder<HT, PVal> =
                        t.load_stream_builder(w.secrets.clone(), w.cfg.clone(), b.link().expect("a root")).must("load")?;
                    let out = run("append", || {
                        let src = src.map(|(k, v)| (k, PVal(v)));
                        if unpacked {
                            t.extend_unpacked(&mut pb, src)
                        } else {
                            t.extend(&mut pb, src)
                        }
                    })?;
                    check!(out.res.is_some() || pb.link() == before, "root-after-panic", "root after a panic in a codec");
                    if let (Some(link), true) = (pb.link(), out.res.is_some()) {
                        w.b = t.load_stream_builder(w.secrets.clone(), w.cfg.clone(), link).must("load")?;
                    }
                    obs.label("append with a panicking codec");
                    out
                } else {
                    run("append", || {
                        if unpacked {
                            t.extend_unpacked(b, src)
                        } else {
                            t.extend(b, src)
                        }
                    })?
                };
                eventful += out.nested + out.res.is_none() as u64;
                match out.res {
                    Some(r) => {
                        r.must("append")?;
                        w.model.extend(items.into_iter().map(Some));
                        if let Some(p) = plain {
                            check_eq!(w.b.link(), p, "same-root", "root after an append from a source that reads, and from a plain one");
                        }
                    }
                    None => {
                        obs.label("panic in an append");
                        w.aborted += 1;
                        unchanged("append", &w, before)?;
                    }
                }
            }
            // a read with a query that reads
            2 => {
                let q = gen_query(s, w.n(), w.clock, 2);
                obs.note(|| format!("read {:?} panics={}", q, panics));
                let query = PokeQ(q.build()).boxed();
                eventful += read(s, obs, &w, &q, query, panics)?;
                eventful += panics as u64;
                obs.label("read");
                // and again as usual
                read(s, obs, &w, &q, q.build(), false)?;
            }
            // retain with a query that reads
            3 => {
                let q = gen_query(s, w.n(), w.clock, 2);
                obs.note(|| format!("retain {:?} panics={}", q, panics));
                let query = PokeQ(q.build());
                retained = true;
                // the same with a plain query
                let want = match w.b.link() {
                    Some(link) => {
                        let store = w.store.fork();
                        let mut t = txn(&store, w.cache);
                        let mut b: Bld = t.load_stream_builder(w.secrets.clone(), w.cfg.clone(), link).must("load")?;
                        t.retain(&mut b, &q.build()).must("retain")?;
                        Some(t.read().collect(&b.snapshot()).must("collect")?)
                    }
                    None => None,
                };
                arm(s, &w, true, panics, 2 * w.n());
                let (t, b) = (&mut w.txn, &mut w.b);
                let out = run("retain", || t.retain(b, &query))?;
                eventful += out.nested + out.res.is_none() as u64;
                match out.res {
                    Some(r) => {
                        r.must("retain")?;
                        obs.label("retain");
                        let got = w.forest().collect(&w.b.snapshot()).must("collect")?;
                        if let Some(want) = want {
                            same_content("retain with a query that reads", &got, &want, 0)?;
                        }
                        w.model = got;
                    }
                    None => {
                        obs.label("panic in retain");
                        w.aborted += 1;
                        unchanged("retain", &w, before)?;
                    }
                }
            }
            // several readers, interleaved with writes
            4 => {
                obs.label("interleaved");
                let n = s.usize(2, 5);
                let f = w.forest().clone();
                let mut its: Vec<(Box<dyn Iterator<Item = anyhow::Result<(u64, HKey, Val)>>>, Vec<(u64, HKey, Val)>, usize)> = vec![];
                for _ in 0..n {
                    let snap = if s.chance(1, 3) { s.pick(&snaps).clone() } else { w.snap() };
                    let q = gen_query(s, snap.model.len() as u64, w.clock, 2);
                    obs.note(|| format!("  reader {:?}", q));
                    let mut want = triples(&snap.model, &q);
                    its.push(match s.below(3) {
                        0 => (Box::new(f.iter_filtered(&snap.tree, q.build())), want, 0),
                        1 => {
                            want.reverse();
                            (Box::new(f.iter_filtered_reverse(&snap.tree, q.build())), want, 0)
                        }
                        _ => (Box::new(futures::executor::block_on_stream(Box::pin(f.stream_filtered(&snap.tree, q.build())))), want, 0),
                    });
                }
                let mut k = 0;
                while !its.is_empty() && k < 400 {
                    k += 1;
                    if s.chance(1, 12) && w.model.iter().all(|x| x.is_some()) {
                        let step = gen_step_w(s, &w, 20, &[4, 4, 1, 2, 0, 0, 2, 2, 0]);
                        apply_step(s, obs, &mut w, &step)?;
                        continue;
                    }
                    let i = s.usize(0, its.len() - 1);
                    let (it, want, pos) = &mut its[i];
                    match it.next() {
                        Some(x) => {
                            let x = x.must("a reader")?;
                            check!(want.get(*pos) == Some(&x), "interleaved", "result {} of a reader: offset {}, expected {:?}", pos, x.0, want.get(*pos).map(|x| x.0));
                            *pos += 1;
                            eventful += 1;
                        }
                        None => {
                            check_eq!(*pos, want.len(), "interleaved", "results of a reader");
                            its.remove(i);
                        }
                    }
                    if s.chance(1, 40) && !its.is_empty() {
                        // given up
                        let i = s.usize(0, its.len() - 1);
                        its.remove(i);
                    }
                }
            }
            // a codec that panics while values are read
            5 => {
                let link = match w.b.link() {
                    Some(l) => l,
                    None => continue,
                };
                let tree: Tree<HT, PVal> = w.forest().load_tree(w.secrets.clone(), link).must("load_tree")?;
                let f = w.forest().clone();
                let n = w.n();
                let o = gen_off(s, n);
                obs.note(|| format!("values that panic, offset {}", o));
                arm(s, &w, false, panics, n);
                let kind = s.below(4);
                let out = run("read", || -> anyhow::Result<Vec<Option<(HKey, PVal)>>> {
                    Ok(match kind {
                        0 => vec![f.get(&tree, o)?],
                        1 => f.collect_from(&tree, o)?,
                        2 => f.iter_from(&tree).map(|x| x.map(|(_, k, v)| Some((k, v)))).collect::<anyhow::Result<_>>()?,
                        _ => {
                            let q = Qx::Off(2, o, 0).build();
                            block_on(f.stream_filtered(&tree, q).map_ok(|(_, k, v)| Some((k, v))).try_collect())?
                        }
                    })
                })?;
                eventful += out.res.is_none() as u64;
                obs.label_if(out.res.is_none(), "panic in a codec");
                if let Some(r) = out.res {
                    let got: Vec<_> = r.must("read")?.into_iter().map(|x| x.map(|(k, v)| (k, v.0))).collect();
                    let from = o.min(n) as usize;
                    let want: Vec<ModelItem> = match kind {
                        0 => vec![w.model.get(o as usize).cloned().flatten()],
                        1 => w.model[from..].to_vec(),
                        2 => w.model.iter().filter(|x| x.is_some()).cloned().collect(),
                        _ => w.model[from..].iter().filter(|x| x.is_some()).cloned().collect(),
                    };
                    same_content("values with another codec", &got, &want, 0)?;
                }
            }
            // a store that panics
            _ => {
                let q = gen_query(s, w.n(), w.clock, 2);
                let op = s.below(5);
                retained |= op >= 3;
                let max = w.gen_n(s, 40);
                let items = w.items(s, max);
                let purged = w.model.iter().any(|x| x.is_none());
                let nth = s.below(6);
                let put = s.bool();
                obs.note(|| format!("operation {} with a store that panics at {} {}", op, if put { "write" } else { "read" }, nth));
                if s.bool() {
                    w.fresh_txn();
                }
                w.store.with(|x| {
                    x.panic_put = if put { Plan::Nth(nth) } else { Plan::None };
                    x.panic_get = if put { Plan::None } else { Plan::Nth(nth) };
                });
                let p0 = w.store.with(|x| x.panics);
                let (t, b) = (&mut w.txn, &mut w.b);
                let it = items.clone();
                let r = catches(|| match op {
                    0 => t.extend(b, it),
                    1 => t.extend_unpacked(b, it),
                    2 if !purged => t.pack(b),
                    3 => t.retain(b, &q.build()),
                    _ => t.repair(b).map(|_| ()),
                });
                let hit = w.store.with(|x| {
                    x.panic_put = Plan::None;
                    x.panic_get = Plan::None;
                    x.panics - p0
                }) > 0;
                match r {
                    Ok(r) => {
                        check!(!hit, "swallowed-panic", "a panic of the store was swallowed");
                        r.must("operation")?;
                        match op {
                            0 | 1 => w.model.extend(items.into_iter().map(Some)),
                            3 => {
                                let got = w.forest().collect(&w.b.snapshot()).must("collect")?;
                                check_eq!(got.len(), w.model.len(), "retain-count", "count after retain");
                                for (i, (g, m)) in got.iter().zip(&w.model).enumerate() {
                                    check!(g == m || g.is_none(), "retain", "element {} changed", i);
                                }
                                w.model = got;
                            }
                            _ => {}
                        }
                    }
                    Err(e) => {
                        check!(hit, "panic", "operation {} panicked: {}", op, e);
                        eventful += 1;
                        obs.label("panic in the store");
                        w.aborted += 1;
                        unchanged("operation with a store that panics", &w, before)?;
                    }
                }
            }
        }
        obs.nontrivial |= leaves && eventful > 0;
        if s.bool() {
            snaps.push(w.snap());
        }
        let got = w.forest().collect(&w.b.snapshot()).must("collect")?;
        same_content("content", &got, &w.model, 0)?;
    }
    for (i, x) in snaps.iter().enumerate() {
        let got = w.forest().collect(&x.tree);
        // what was forgotten since is still in the store
        let got = got.must("collect of a snapshot")?;
        same_content(&format!("snapshot {}", i), &got, &x.model, 0)?;
    }
    if w.model.iter().all(|x| x.is_some()) {
        // and everything still works
        let items = w.items(s, 3);
        w.extend(items, s.bool())?;
        w.pack()?;
        w.reload()?;
        let got = w.forest().collect(&w.b.snapshot()).must("collect")?;
        same_content("at the end", &got, &w.model, 0)?;
        let msgs = w.forest().check_invariants(&w.b).must("check_invariants")?;
        // limits may be those of another config
        check!(w.reconfigs > 0 || msgs.is_empty(), "invariants", "{:?}", msgs);
    }
    Ok(())
}
