//! malformed blocks: whatever the store returns, reading gives an error or consistent data
use crate::engine::*;
use crate::model::*;
use crate::walker::{self, Cv, P};
use crate::{check, check_eq};
use banyan::index::Index;
use banyan::query::{AllQuery, OffsetRangeQuery, Query};
use banyan::store::BranchCache;
use banyan::{Config, Forest, Secrets, StreamBuilder, Transaction, Tree, TreeTypes};
use banyan_utils::dump::{dump_cbor, dump_json, graph};
use banyan_utils::tag_index::{Tag, TagSet};
use banyan_utils::tags::{DnfQuery, Key, TT};
use futures::executor::block_on;
use futures::StreamExt;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::sync::Arc;

pub static PROPS: &[Prop] = &[Prop {
    id: "C21",
    rule: "small trees (two key types, with unpacked and purged parts) in which 1..3 blocks are replaced: bit flips, truncated, extended, random or deeply nested bytes, other blocks, and blocks that are encrypted correctly but contain mutated bytes or structurally mutated items (numbers, lengths, links, missing or repeated parts); then every read operation, retain, repair and the dumps on the loaded, the in-memory and the reloaded tree. Oracle: no panic or crash, bounded reads, iterators end after an error, and all results that are no errors agree with each other and with the element count. Non-trivial: a replaced block below the root that decodes",
    run: c21,
    quick: 12000,
    thorough: 1000000,
    threads: 0,
    regress: &[
        Regress { name: "empty-branch", f: r_empty_branch },
        Regress { name: "empty-leaf", f: r_empty_leaf },
        Regress { name: "huge-level", f: r_huge_level },
        Regress { name: "count-overflow", f: r_count_overflow },
        Regress { name: "child-count", f: r_child_count },
        Regress { name: "link-cycle", f: r_cycle },
        Regress { name: "missing-values", f: r_missing_values },
        Regress { name: "offset-wraparound", f: r_offset },
        Regress { name: "huge-frame", f: r_huge_frame },
        Regress { name: "deep-value", f: r_deep },
    ],
    assumptions: &[
        "no collect of more than 100000 elements (a purged node can claim any number of elements, and collect returns one entry per element by design)",
        "values are not nested deeper than 200 levels (see KNOWN_FINDINGS: deep-value); no tree types whose sequences do not hold their elements (UnitSeq)",
        "no append or pack on malformed trees",
    ],
    level: "exploration",
}];

type Q<T> = Arc<dyn Query<T>>;

// ------------------------------------------------------------------------------- cbor mutation

fn enc(v: &Cv, out: &mut Vec<u8>) {
    match v {
        Cv::U(n) => cb_head(out, 0, *n),
        Cv::N(n) => cb_head(out, 1, *n),
        Cv::B(b) => cb_bytes(out, b),
        Cv::T(t) => cb_str(out, t),
        Cv::A(xs) => {
            cb_head(out, 4, xs.len() as u64);
            xs.iter().for_each(|x| enc(x, out))
        }
        Cv::M(xs) => {
            cb_head(out, 5, xs.len() as u64);
            xs.iter().for_each(|(k, v)| {
                enc(k, out);
                enc(v, out)
            })
        }
        Cv::Tag(t, x) => {
            cb_head(out, 6, *t);
            enc(x, out)
        }
        Cv::Simple(n) if *n < 24 => out.push(0xe0 | n),
        Cv::Simple(n) => out.extend_from_slice(&[0xf8, *n]),
        Cv::Float(n) => {
            out.push(0xfb);
            out.extend_from_slice(&n.to_be_bytes())
        }
    }
}

/// paths to all values
fn paths(v: &Cv, at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    out.push(at.clone());
    let mut sub = |i: usize, x: &Cv| {
        at.push(i);
        paths(x, at, out);
        at.pop();
    };
    match v {
        Cv::A(xs) => xs.iter().enumerate().for_each(|(i, x)| sub(i, x)),
        Cv::M(xs) => xs.iter().enumerate().for_each(|(i, x)| sub(i, &x.1)),
        _ => {}
    }
}

fn at<'a>(v: &'a mut Cv, path: &[usize]) -> &'a mut Cv {
    match path.split_first() {
        None => v,
        Some((i, rest)) => match v {
            Cv::A(xs) => at(&mut xs[*i], rest),
            Cv::M(xs) => at(&mut xs[*i].1, rest),
            _ => unreachable!(),
        },
    }
}

fn odd_number(s: &mut Src, n: u64) -> u64 {
    match s.below(10) {
        0 => 0,
        1 => n.wrapping_add(1),
        2 => n.wrapping_sub(1),
        3 => i32::MAX as u64,
        4 => i32::MAX as u64 + 1,
        5 => u32::MAX as u64,
        6 => u64::MAX,
        7 => i64::MAX as u64,
        8 => s.below(20),
        _ => s.u64_any(),
    }
}

/// one structural mutation. `low`: links to blocks that are strictly lower in the tree
fn mutate(s: &mut Src, items: &mut Vec<Cv>, low: &[Link]) -> String {
    let mut all: Vec<(usize, Vec<usize>)> = vec![];
    for (i, x) in items.iter().enumerate() {
        let mut ps = vec![];
        paths(x, &mut vec![], &mut ps);
        all.extend(ps.into_iter().map(|p| (i, p)));
    }
    if all.is_empty() || s.chance(1, 6) {
        match s.below(5) {
            0 => {
                items.clear();
                return "no items".into();
            }
            1 if !items.is_empty() => {
                let i = s.usize(0, items.len() - 1);
                items.remove(i);
                return format!("remove item {}", i);
            }
            2 if !items.is_empty() => {
                let i = s.usize(0, items.len() - 1);
                let x = items[i].clone();
                items.push(x);
                return format!("repeat item {}", i);
            }
            3 if items.len() > 1 => {
                items.reverse();
                return "reverse items".into();
            }
            _ => {
                items.push(Cv::U(s.u64_any()));
                return "append a number".into();
            }
        }
    }
    let (i, p) = s.pick(&all).clone();
    let what = format!("item {} path {:?}", i, p);
    let v = at(&mut items[i], &p);
    if s.chance(1, 12) {
        *v = match s.below(6) {
            0 => Cv::Simple(22),
            1 => Cv::U(odd_number(s, 0)),
            2 => Cv::A(vec![]),
            3 => Cv::M(vec![]),
            4 => Cv::Simple(20 + s.below(2) as u8),
            _ => Cv::T("x".into()),
        };
        return format!("{}: other kind {:?}", what, v);
    }
    match v {
        Cv::U(n) => *n = odd_number(s, *n),
        Cv::N(n) => *n = odd_number(s, *n),
        Cv::B(b) => b.push(0),
        Cv::T(t) => match s.below(3) {
            0 => t.clear(),
            1 => t.push('z'),
            _ => *t = "link".into(),
        },
        Cv::A(xs) => match s.below(6) {
            0 => xs.clear(),
            1 => {
                xs.pop();
            }
            2 => {
                if let Some(x) = xs.last().cloned() {
                    xs.push(x)
                }
            }
            3 => xs.reverse(),
            4 => xs.push(Cv::U(s.u64_any())),
            _ => {
                if !xs.is_empty() {
                    let i = s.usize(0, xs.len() - 1);
                    xs.remove(i);
                }
            }
        },
        Cv::M(xs) if !xs.is_empty() => {
            let i = s.usize(0, xs.len() - 1);
            match s.below(4) {
                0 => {
                    xs.remove(i);
                }
                1 => {
                    let x = xs[i].clone();
                    xs.push(x)
                }
                2 => xs[i].0 = Cv::T("other".into()),
                _ => xs[i].1 = Cv::Simple(22),
            }
        }
        Cv::M(_) => {}
        Cv::Tag(..) => match s.below(4) {
            0 => *v = Cv::Simple(22),
            1 => *v = Cv::Tag(42, Box::new(Cv::B(vec![0, 1]))),
            _ if !low.is_empty() => {
                let mut o = vec![];
                cb_cid(&mut o, &(*s.pick(low)).into());
                *v = P::new(&o).item().expect("cid");
            }
            _ => *v = Cv::Tag(43, Box::new(Cv::U(1))),
        },
        Cv::Simple(n) => *n = 20 + s.below(3) as u8,
        Cv::Float(n) => *n = !*n,
    }
    what
}

/// a zstd frame that is not made by the encoder: claims a content size, and holds raw and rle blocks
fn frame(s: &mut Src, plain: &[u8]) -> (String, Vec<u8>) {
    let mut out = vec![0x28, 0xb5, 0x2f, 0xfd];
    let claimed = match s.below(8) {
        0 => plain.len() as u64,
        1 => plain.len() as u64 + 1,
        2 => (4 << 20) + s.below(3) - 1,
        3 => (16 << 20) + s.below(3) - 1,
        4 => (1 << 30) + s.below(100),
        5 => 3 << 29,
        6 if s.chance(1, 4) => *s.pick(&[1 << 40, i64::MAX as u64, u64::MAX - 1, u64::MAX]),
        _ => 1 << 30,
    };
    let single = s.bool();
    match s.below(3) {
        // no content size
        0 => out.extend_from_slice(&[0, (s.below(14) as u8) << 3]),
        _ if single => {
            out.push(0xe0);
            out.extend_from_slice(&claimed.to_le_bytes());
        }
        _ => {
            out.extend_from_slice(&[0xc0, (s.below(14) as u8) << 3]);
            out.extend_from_slice(&claimed.to_le_bytes());
        }
    }
    let block = |out: &mut Vec<u8>, last: bool, kind: u32, len: usize| {
        let h = (last as u32) | kind << 1 | (len as u32) << 3;
        out.extend_from_slice(&h.to_le_bytes()[..3]);
    };
    let bombs = if s.chance(1, 3) { *s.pick(&[1, 31, 32, 127, 128, 129, 3000, 9000]) } else { 0 };
    for _ in 0..bombs {
        block(&mut out, false, 1, 128 << 10);
        out.push(s.below(2) as u8 * 0x40);
    }
    let chunk = &plain[..plain.len().min(100 << 10)];
    block(&mut out, true, 0, chunk.len());
    out.extend_from_slice(chunk);
    if s.chance(1, 6) {
        let n = s.usize(0, 12);
        out.extend(s.blob(n));
    }
    (format!("frame that claims {} bytes, {} rle blocks of 128 KiB", claimed, bombs), out)
}

fn reencode(offset: u64, links: &[libipld::Cid], plain: &[u8], key: &[u8], nonce: &[u8; 24]) -> Vec<u8> {
    let data = zstd::stream::encode_all(plain, 0).expect("zstd");
    super::crypto::make_block(offset, links, &walker::xor(&data, key, nonce, offset))
}

/// nesting depth of a cbor sequence (iterative; stops at the first malformed item)
fn depth(b: &[u8]) -> usize {
    let mut stack: Vec<u64> = vec![];
    let (mut i, mut max) = (0, 0);
    while i < b.len() {
        let (major, info) = (b[i] >> 5, b[i] & 31);
        i += 1;
        let n = match info {
            0..=23 => info as u64,
            24..=27 => {
                let len = 1 << (info - 24);
                if i + len > b.len() {
                    break;
                }
                let n = b[i..i + len].iter().fold(0u64, |a, x| a << 8 | *x as u64);
                i += len;
                n
            }
            31 => u64::MAX,
            _ => break,
        };
        // number of items inside
        let inner = match (major, info) {
            (2 | 3, 31) => u64::MAX,
            (2 | 3, _) => match usize::try_from(n).ok().and_then(|n| i.checked_add(n)) {
                Some(x) => {
                    i = x;
                    0
                }
                None => break,
            },
            (4, _) => n,
            (5, _) => n.saturating_mul(2),
            (6, _) => 1,
            (7, 31) => {
                // stop
                stack.pop();
                0
            }
            _ => 0,
        };
        if inner > 0 {
            stack.push(inner);
            max = max.max(stack.len());
            continue;
        }
        while let Some(x) = stack.last_mut() {
            if *x == u64::MAX {
                break;
            }
            *x -= 1;
            if *x > 0 {
                break;
            }
            stack.pop();
        }
    }
    max
}

/// deeper than the recursive decoders of the cbor libraries can take (known finding: deep-value)
fn too_deep(block: &[u8], key: &[u8], nonce: &[u8; 24]) -> bool {
    if depth(block) > 200 {
        // not a block: the header can not be nested
        return false;
    }
    match walker::parse_block(block) {
        Ok(raw) => {
            let data = walker::xor(&raw.cipher, key, nonce, raw.offset);
            let mut plain = vec![0u8; 16 << 20];
            let n = zstd::block::Decompressor::new().decompress_to_buffer(&data, &mut plain);
            plain.truncate(n.unwrap_or(0));
            depth(&plain) > 200
        }
        Err(_) => false,
    }
}

// ------------------------------------------------------------------------------- exercise

/// drains an iterator: the items before the first error, and whether there was one
fn drain<X>(what: &str, mut it: impl Iterator<Item = anyhow::Result<X>>, max: usize) -> R<(Vec<X>, bool)> {
    let mut out = vec![];
    loop {
        match it.next() {
            None => return Ok((out, true)),
            Some(Ok(x)) => {
                out.push(x);
                check!(out.len() <= max, "endless", "{} yields more than {} items", what, max);
            }
            Some(Err(_)) => {
                check!(it.next().is_none(), "after-error", "{} goes on after an error", what);
                return Ok((out, false));
            }
        }
    }
}

struct Ctx<T: TreeTypes<Link = Link>> {
    secrets: Secrets,
    cfg: Config,
    root: Link,
    store: HStore,
    cache: usize,
    queries: Vec<Q<T>>,
    offsets: Vec<u64>,
}

const BUDGET: u64 = 200_000;

impl<T> Ctx<T>
where
    T: TreeTypes<Link = Link>,
    T::Key: PartialEq + Debug + Clone,
{
    fn forest(&self) -> Forest<T, HStore> {
        Forest::new(self.store.clone(), BranchCache::new(self.cache))
    }

    fn bounded(&self, store: &HStore) -> R {
        check!(!store.with(|s| s.runaway), "endless", "reading needs more than {} blocks", BUDGET);
        Ok(())
    }

    fn tree(&self, tree: &Tree<T, Val>) -> R {
        let f = self.forest();
        let n = tree.count();
        let max = 1_000_000;
        let same = |a: &[(u64, T::Key, Val)], b: &[(u64, T::Key, Val)]| a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a == b);
        // one entry per element by design, so only for element counts that are not absurd
        let all = if n <= 100_000 { f.collect(tree).ok() } else { None };
        if let Some(all) = &all {
            check_eq!(all.len() as u64, n, "count", "elements returned by collect");
        }
        for o in &self.offsets {
            let o = if n > 0 && *o > 40 { *o % n } else { *o };
            let x = f.get(tree, o);
            if let Ok(x) = &x {
                check!(o < n || x.is_none(), "bounds", "get({}) on a tree of {} elements", o, n);
                if let Some(all) = &all {
                    let want = all.get(o as usize).cloned().flatten();
                    check!(x == &want, "consistent", "get({}) and collect differ: {:?} {:?}", o, x, want);
                }
            }
            if n.saturating_sub(o) > 100_000 {
                continue;
            }
            if let Ok(part) = f.collect_from(tree, o) {
                check_eq!(part.len() as u64, n.saturating_sub(o), "count", "elements returned by collect_from({})", o);
                if let Some(all) = &all {
                    let from = (o.min(n)) as usize;
                    check!(part[..] == all[from..], "consistent", "collect_from({}) and collect differ", o);
                }
            }
        }
        let (flat, complete) = drain("iter_filtered", f.iter_filtered(tree, AllQuery), max)?;
        check!(flat.windows(2).all(|w| w[0].0 < w[1].0), "order", "offsets are not ascending");
        check!(flat.iter().all(|x| x.0 < n), "bounds", "offset past the end");
        if let (Some(all), true) = (&all, complete) {
            let want: Vec<_> = all
                .iter()
                .enumerate()
                .filter_map(|(o, x)| x.clone().map(|(k, v)| (o as u64, k, v)))
                .collect();
            check!(same(&flat, &want), "consistent", "iter_filtered and collect differ: {:?} {:?}", flat, want);
        }
        let (mut rev, rcomplete) = drain("iter_filtered_reverse", f.iter_filtered_reverse(tree, AllQuery), max)?;
        rev.reverse();
        if complete && rcomplete {
            check!(same(&flat, &rev), "consistent", "reverse iteration differs");
        }
        let (_, _) = drain("iter_from", f.iter_from(tree), max)?;
        for q in &self.queries {
            let (got, ok) = drain("iter_filtered", f.iter_filtered(tree, q.clone()), max)?;
            check!(got.windows(2).all(|w| w[0].0 < w[1].0), "order", "offsets are not ascending");
            if complete {
                check!(
                    got.iter().all(|x| flat.iter().any(|y| x == y)),
                    "consistent",
                    "a query returns elements that are not in the tree"
                );
            }
            let (mut rev, rok) = drain("iter_filtered_reverse", f.iter_filtered_reverse(tree, q.clone()), max)?;
            rev.reverse();
            if ok && rok {
                check!(same(&got, &rev), "consistent", "reverse query differs");
            }
            let (chunks, ok) = drain("iter_filtered_chunked", f.iter_filtered_chunked(tree, q.clone(), &|_| ()), max)?;
            let mut end = 0;
            for c in &chunks {
                check!(c.range.start == end && c.range.end > end, "tiling", "chunk {:?} at {}", c.range, end);
                check!(c.data.iter().all(|x| c.range.contains(&x.0)), "tiling", "offset outside of the chunk");
                end = c.range.end;
            }
            if ok {
                check_eq!(end, n, "tiling", "end of the last chunk");
            }
            let (chunks, ok) = drain("iter_filtered_chunked_reverse", f.iter_filtered_chunked_reverse(tree, q.clone(), &|_| ()), max)?;
            let mut start = n;
            for c in &chunks {
                check!(c.range.end == start && c.range.start < start, "tiling", "reverse chunk {:?} at {}", c.range, start);
                start = c.range.start;
            }
            if ok {
                check_eq!(start, 0, "tiling", "start of the last reverse chunk");
            }
            let st: Vec<_> = block_on(f.stream_filtered(tree, q.clone()).take(max).collect::<Vec<_>>());
            check!(st.len() < max, "endless", "stream_filtered");
            let (a, aok) = drain("iter_index", f.iter_index(tree, q.clone()), max)?;
            let (b, bok) = drain("iter_index_reverse", f.iter_index_reverse(tree, q.clone()), max)?;
            if aok && bok {
                check_eq!(a.len(), b.len(), "consistent", "number of nodes of the index iteration and its reverse");
            }
            if aok && !a.is_empty() {
                check_eq!(a[0].count(), n, "consistent", "count of the first node");
            }
        }
        let _ = f.is_packed(tree);
        if let Ok(roots) = f.left_roots(tree) {
            for t in roots {
                let _ = f.get(&t, 0);
            }
        }
        let _ = f.dump_graph(tree, |(id, info)| (id, format!("{}", info).len()));
        let _ = graph(&f, tree, &mut Vec::new());
        self.bounded(&self.store)
    }

    fn builder(&self, b: StreamBuilder<T, Val>) -> R {
        let f = self.forest();
        let _ = f.roots(&b);
        let _ = f.check_invariants(&b);
        self.bounded(&self.store)
    }

    fn builders(&self, mk: &dyn Fn(&Transaction<T, HStore, HStore>) -> Option<StreamBuilder<T, Val>>) -> R {
        for mode in 0..3 {
            let store = self.store.fork();
            store.with(|s| s.get_budget = BUDGET);
            let mut t: Transaction<T, HStore, HStore> =
                Transaction::new(Forest::new(store.clone(), BranchCache::new(self.cache)), store.clone());
            let mut b = match mk(&t) {
                Some(b) => b,
                None => return Ok(()),
            };
            let n = b.count();
            let ok = match mode {
                0 => {
                    self.builder(b)?;
                    continue;
                }
                1 => match self.queries.first() {
                    Some(q) => t.retain(&mut b, q).is_ok(),
                    None => continue,
                },
                _ => match t.repair(&mut b) {
                    Ok(_) => true,
                    Err(_) => false,
                },
            };
            check!(!store.with(|s| s.runaway), "endless", "retain or repair needs more than {} blocks", BUDGET);
            if ok {
                check_eq!(b.count(), n, "count", "count after retain or repair");
            }
            let tree = b.snapshot();
            let cx = Ctx {
                secrets: self.secrets.clone(),
                cfg: self.cfg.clone(),
                root: self.root,
                store,
                cache: self.cache,
                queries: self.queries[..1.min(self.queries.len())].to_vec(),
                offsets: self.offsets.clone(),
            };
            cx.store.with(|s| s.get_budget = BUDGET);
            cx.tree(&tree)?;
        }
        Ok(())
    }

    fn all(&self, mem: &Tree<T, Val>) -> R {
        largest_alloc();
        self.all_ops(mem)?;
        // what a block claims must not make the reader allocate (blocks are at most 16 MiB by design)
        let n = largest_alloc();
        check!(n < 1 << 30, "memory", "a single allocation of {} MiB", n >> 20);
        Ok(())
    }

    fn all_ops(&self, mem: &Tree<T, Val>) -> R {
        self.store.with(|s| s.get_budget = BUDGET);
        self.tree(mem)?;
        let f = self.forest();
        if let Ok(t) = f.load_tree::<Val>(self.secrets.clone(), self.root) {
            self.tree(&t)?;
        }
        self.builders(&|t| t.load_stream_builder(self.secrets.clone(), self.cfg.clone(), self.root).ok())?;
        Ok(())
    }
}

// ------------------------------------------------------------------------------- cases

/// links of the blocks below an index with their height and whether they are leaves
fn blocks<T: TreeTypes<Link = Link>>(f: &Forest<T, HStore>, tree: &Tree<T, Val>) -> R<BTreeMap<Link, (u32, bool)>> {
    let mut out = BTreeMap::new();
    for x in f.iter_index(tree, AllQuery) {
        let x = x.must("iter_index")?;
        if let Some(l) = x.link() {
            out.insert(*l, (x.level() as u32, matches!(x, Index::Leaf(_))));
        }
    }
    Ok(out)
}

fn corrupt(
    s: &mut Src,
    obs: &mut Obs,
    store: &HStore,
    secrets: &Secrets,
    nonce: &[u8; 24],
    all: &BTreeMap<Link, (u32, bool)>,
    root: Link,
) -> R<Vec<Link>> {
    let links: Vec<Link> = all.keys().copied().collect();
    let mut victims = vec![];
    for _ in 0..s.usize(1, 3) {
        // mostly branches
        let mut l = *s.pick(&links);
        for _ in 0..2 {
            if all[&l].1 {
                l = *s.pick(&links);
            }
        }
        let (height, leaf) = all[&l];
        let low: Vec<Link> = all.iter().filter(|x| x.1 .0 < height).map(|x| *x.0).collect();
        let old = store.raw(&l).expect("block").to_vec();
        let mut new = old.clone();
        let what: String;
        let kind = s.weighted(&[2, 1, 1, 1, 1, 1, 2, 20, 3, 1, 1, 1]);
        match kind {
            0 if !new.is_empty() => {
                for _ in 0..s.usize(1, 4) {
                    let i = s.usize(0, new.len() - 1);
                    new[i] ^= 1 << s.below(8);
                }
                what = "bit flips".into();
            }
            1 => {
                new.truncate(s.usize(0, old.len()));
                what = "truncated".into();
            }
            2 => {
                let n = s.usize(1, 40);
                new.extend(s.blob(n));
                what = "extended".into();
            }
            3 => {
                let n = s.usize(0, 60);
                new = s.blob(n);
                what = "random".into();
            }
            4 if !low.is_empty() => {
                new = store.raw(s.pick(&low)).expect("block").to_vec();
                what = "a lower block".into();
            }
            5 => {
                let n = s.usize(10, 300_000);
                let b = *s.pick(&[0x81u8, 0xa1, 0xd8]);
                new = vec![0x83, 0x00, 0x80];
                for _ in 0..n {
                    match b {
                        0x81 => new.push(0x81),
                        0xa1 => new.extend_from_slice(&[0xa1, 0x60]),
                        _ => new.extend_from_slice(&[0xd8, 0x2a]),
                    }
                }
                new.push(0);
                what = format!("{} times nested cbor ({:x})", n, b);
            }
            _ => {
                // correctly encrypted
                let raw = match walker::parse_block(&old) {
                    Ok(r) => r,
                    Err(_) => continue,
                };
                let key: &[u8] = if leaf { secrets.value_key() } else { secrets.index_key() };
                let plain = match walker::open(&raw, key, nonce) {
                    Ok(p) if p.len() < 100_000 => p,
                    _ => continue,
                };
                let mut offset = raw.offset;
                let mut p = plain.clone();
                let mut compressed = None;
                match kind {
                    10 => {
                        let mut c = zstd::stream::encode_all(&p[..], 0).expect("zstd");
                        for _ in 0..s.usize(1, 3) {
                            // mostly the header
                            let i = if s.bool() { s.usize(0, 12.min(c.len() - 1)) } else { s.usize(0, c.len() - 1) };
                            match s.below(3) {
                                0 => c[i] ^= 1 << s.below(8),
                                1 => c[i] = s.below(256) as u8,
                                _ => c.truncate(i.max(1)),
                            }
                        }
                        what = "mutated compressed bytes".into();
                        compressed = Some(c);
                    }
                    11 => {
                        let (w, c) = frame(s, &p);
                        what = w;
                        obs.label("handmade frame");
                        compressed = Some(c);
                    }
                    6 => {
                        for _ in 0..s.usize(1, 3) {
                            if p.is_empty() {
                                break;
                            }
                            let i = s.usize(0, p.len() - 1);
                            match s.below(4) {
                                0 => p[i] ^= 1 << s.below(8),
                                1 => p[i] = s.below(256) as u8,
                                2 => {
                                    p.remove(i);
                                }
                                _ => p.truncate(i),
                            }
                        }
                        what = "mutated plain bytes".into();
                    }
                    8 => {
                        offset = odd_number(s, offset).min(u64::MAX - (1 << 20)) + s.below(1 << 21).min(1 << 20);
                        what = format!("cipher offset {}", offset);
                    }
                    9 => {
                        p.extend(vec![0u8; if s.chance(1, 4) { 17 << 20 } else { 1 << 17 }]);
                        what = "a lot of zeros".into();
                    }
                    _ => {
                        let mut items: Vec<Cv> = match walker::seq(&p) {
                            Ok(x) => x.into_iter().map(|x| x.1).collect(),
                            Err(_) => continue,
                        };
                        let mut w = vec![];
                        for _ in 0..1 + s.below(3) / 2 {
                            w.push(mutate(s, &mut items, &low));
                        }
                        p.clear();
                        items.iter().for_each(|x| enc(x, &mut p));
                        what = w.join(" and ");
                        obs.label("structural");
                    }
                }
                if compressed.is_none() && p.len() < 100_000 && l != root && walker::seq(&p).is_ok() {
                    obs.label("valid");
                }
                if kind == 8 {
                    // may not fit
                    let data = zstd::stream::encode_all(&p[..], 0).expect("zstd");
                    offset = offset.min(u64::MAX - data.len() as u64);
                }
                new = match compressed {
                    Some(c) => super::crypto::make_block(offset, &raw.links, &walker::xor(&c, key, nonce, offset)),
                    None => reencode(offset, &raw.links, &p, key, nonce),
                };
            }
        }
        obs.note(|| format!("{} {} at level {}: {}", if leaf { "leaf" } else { "branch" }, l, height, what));
        if too_deep(&new, if leaf { secrets.value_key() } else { secrets.index_key() }, nonce) {
            obs.label("too deep");
            continue;
        }
        store.with(|x| x.blocks.insert(l, new.into()));
        victims.push(l);
    }
    Ok(victims)
}

/// run on a thread with a usual stack size
fn small_stack(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .name("vh-hostile".into())
            .stack_size(2 << 20)
            .spawn_scoped(sc, move || guard(f))
            .map_err(|e| Fail::new("infra", e.to_string()))?
            .join()
            .unwrap_or_else(|_| Err(Fail::new("panic", "thread panicked")))
    })
}

fn small_cfg(s: &mut Src) -> Config {
    Config {
        max_leaf_count: s.usize(1, 6),
        max_key_branches: s.usize(1, 4),
        max_summary_branches: s.usize(2, 4),
        target_leaf_size: 10000,
        max_uncompressed_leaf_size: 16 << 20,
        zstd_level: 0,
    }
}

fn c21(s: &mut Src, obs: &mut Obs) -> R {
    if s.chance(1, 3) {
        tt_case(s, obs)
    } else {
        ht_case(s, obs)
    }
}

fn ht_case(s: &mut Src, obs: &mut Obs) -> R {
    let cfg = small_cfg(s);
    let prof = ValProfile { max_len: 20, big: false, links: true };
    let mut w = World::with(s, obs, cfg, prof);
    let mut steps = 0;
    while steps < 1 || (steps < 5 && s.more(3)) {
        steps += 1;
        let step = gen_step_w(s, &w, 20, &[6, 5, 2, 2, 1, 0, 0, 0, 0]);
        apply_step(s, obs, &mut w, &step)?;
        if s.chance(1, 6) && w.b.index().is_some() {
            let q = gen_query(s, w.n(), w.clock, 0);
            obs.note(|| format!("step Retain {:?}", q));
            w.txn.retain(&mut w.b, &q.build()).must("retain")?;
            w.model = w.forest().collect(&w.b.snapshot()).must("collect")?;
        }
    }
    let (root, mem) = match w.b.link() {
        Some(l) => (l, w.b.snapshot()),
        None => return Ok(()),
    };
    let all = blocks(&forest(&w.store, 0), &mem)?;
    let queries: Vec<Q<HT>> = (0..2)
        .map(|_| {
            let q = gen_query(s, w.n(), w.clock, 1);
            obs.note(|| format!("query {:?}", q));
            q.build()
        })
        .collect();
    let mut offsets: Vec<u64> = (0..3).map(|_| gen_off(s, w.n())).collect();
    offsets.push(0);
    offsets.push(u64::MAX);
    let store = w.store.fork();
    let victims = corrupt(s, obs, &store, &w.secrets, &HT_NONCE, &all, root)?;
    let cx = Ctx {
        secrets: w.secrets.clone(),
        cfg: w.cfg.clone(),
        root,
        store: store.clone(),
        cache: if s.bool() { 0 } else { 1 << 20 },
        queries,
        offsets,
    };
    if obs.labels.contains_key("valid") {
        obs.nontrivial = true;
    }
    small_stack(move || {
        cx.all(&mem)?;
        for v in victims {
            let b = store.raw(&v).expect("block");
            // the dump tools decode recursively (values are not nested deeply by assumption)
            if b.len() > 5000 || depth(&b) > 200 {
                continue;
            }
            for key in [cx.secrets.value_key(), cx.secrets.index_key()] {
                let _ = dump_json(store.clone(), v, key, (&HT_NONCE).into(), &mut Vec::new());
                let r = guard(|| {
                    let _ = dump_cbor(store.clone(), v, key, (&HT_NONCE).into(), &mut Vec::new());
                    Ok(())
                });
                // known finding of C28 (container-map-key): printing an array or map used as a map key
                if let Err(e) = r {
                    if !(e.kind.contains("cbor-data") && e.kind.contains("validated/item.rs")) {
                        return Err(e);
                    }
                }
            }
        }
        Ok(())
    })
}

fn tt_case(s: &mut Src, obs: &mut Obs) -> R {
    let cfg = small_cfg(s);
    let secrets = gen_secrets(s);
    let store = HStore::new();
    let mut t: Transaction<TT, HStore, HStore> = Transaction::new(Forest::new(store.clone(), BranchCache::new(0)), store.clone());
    let mut b: StreamBuilder<TT, Val> = StreamBuilder::new(cfg.clone(), secrets.clone());
    obs.note(|| format!("tagged tree, config {}", cfg_str(&cfg)));
    let tags = ["a", "b", "cc", "d"];
    let mut time = 0;
    let tagset = |bits: u64| -> TagSet { (0..4).filter(|i| bits >> i & 1 == 1).map(|i| Tag::from(tags[i as usize])).collect() };
    for _ in 0..s.usize(1, 4) {
        let n = s.usize(1, 20);
        let unpacked = s.bool();
        obs.note(|| format!("append {} unpacked={}", n, unpacked));
        let items: Vec<(Key, Val)> = (0..n)
            .map(|_| {
                time += s.below(3);
                (Key::single(time, time, tagset(1 + s.below(15))), to_val(&[time as u8 & 15]))
            })
            .collect();
        if unpacked {
            t.extend_unpacked(&mut b, items).must("extend_unpacked")?;
        } else {
            t.extend(&mut b, items).must("extend")?;
        }
        if s.chance(1, 8) {
            let from = s.below(b.count());
            t.retain(&mut b, &OffsetRangeQuery::from(from..)).must("retain")?;
        }
    }
    let root = b.link().expect("not empty");
    let mem = b.snapshot();
    let all = blocks(t.read(), &mem)?;
    let corrupted = store.fork();
    let nonce: &[u8; 24] = <TT as TreeTypes>::NONCE;
    corrupt(s, obs, &corrupted, &secrets, nonce, &all, root)?;
    let queries: Vec<Q<TT>> = vec![
        Arc::new(DnfQuery(vec![Key::range(s.below(time + 1), s.u64_any(), tagset(s.below(16)))])),
        Arc::new(DnfQuery(vec![Key::filter_tags(tagset(s.below(16))), Key::range(0, s.below(time + 1), tagset(15))])),
    ];
    let offsets = vec![0, gen_off(s, b.count()), u64::MAX];
    let cx = Ctx { secrets, cfg, root, store: corrupted, cache: if s.bool() { 0 } else { 1 << 20 }, queries, offsets };
    if obs.labels.contains_key("valid") {
        obs.nontrivial = true;
    }
    small_stack(move || cx.all(&mem))
}

// ------------------------------------------------------------------------------- regressions

/// a tree of 12 elements in leaves of 2 and branches of 2
fn fixture() -> R<(HStore, Secrets, Config, Tr, Vec<Link>, Vec<Link>)> {
    let cfg = Config {
        max_leaf_count: 2,
        max_key_branches: 2,
        max_summary_branches: 2,
        target_leaf_size: 10000,
        max_uncompressed_leaf_size: 16 << 20,
        zstd_level: 0,
    };
    let secrets = Secrets::default();
    let store = HStore::new();
    let mut t = txn(&store, 0);
    let mut b: Bld = StreamBuilder::new(cfg.clone(), secrets.clone());
    let items: Vec<Item> = (0..12u8).map(|i| (HKey { t: i as u64, c: i & 7, p: String::new(), l: vec![] }, to_val(&[i]))).collect();
    t.extend(&mut b, items).must("extend")?;
    let tree = b.snapshot();
    let mut branches = vec![];
    let mut leaves = vec![];
    let mut seen = HashSet::new();
    for x in forest(&store, 0).iter_index(&tree, AllQuery) {
        let x = x.must("iter_index")?;
        let l = x.link().expect("link");
        if seen.insert(l) {
            match x {
                Index::Leaf(_) => leaves.push(l),
                Index::Branch(_) => branches.push(l),
            }
        }
    }
    Ok((store, secrets, cfg, tree, branches, leaves))
}

fn edit(store: &HStore, key: &[u8], l: &Link, f: impl FnOnce(&mut Vec<Cv>)) -> R {
    let raw = walker::parse_block(&store.raw(l).expect("block"))?;
    let p = walker::open(&raw, key, &HT_NONCE).map_err(|e| Fail::new("open", e))?;
    let mut items: Vec<Cv> = walker::seq(&p).map_err(|e| Fail::new("open", e))?.into_iter().map(|x| x.1).collect();
    f(&mut items);
    let mut out = vec![];
    items.iter().for_each(|x| enc(x, &mut out));
    let b = reencode(raw.offset, &raw.links, &out, key, &HT_NONCE);
    store.with(|x| x.blocks.insert(*l, b.into()));
    Ok(())
}

fn field<'a>(v: &'a mut Cv, name: &str) -> &'a mut Cv {
    match v {
        Cv::M(xs) => &mut xs.iter_mut().find(|x| x.0 == Cv::T(name.into())).expect("field").1,
        _ => panic!("not a map"),
    }
}

fn regress_with(f: impl Fn(&HStore, &Secrets, &[Link], &[Link]) -> R) -> R {
    let (store, secrets, cfg, tree, branches, leaves) = fixture()?;
    f(&store, &secrets, &branches, &leaves)?;
    let cx = Ctx {
        secrets,
        cfg,
        root: branches[0],
        store,
        cache: 0,
        queries: vec![Arc::new(OffsetRangeQuery::from(3..8)), Arc::new(AllQuery)],
        offsets: vec![0, 3, 7, 11, 12, u64::MAX],
    };
    small_stack(move || cx.all(&tree))
}

fn r_empty_branch() -> R {
    for i in 0..2 {
        regress_with(|st, sec, br, _| edit(st, sec.index_key(), &br[i], |x| x.clear()))?;
    }
    Ok(())
}
fn r_empty_leaf() -> R {
    regress_with(|st, sec, br, _| {
        edit(st, sec.index_key(), br.last().expect("branch"), |x| *field(&mut x[0], "keys") = Cv::A(vec![Cv::A(vec![])]))
    })
}
fn r_huge_level() -> R {
    for l in [0, i32::MAX as u64, i32::MAX as u64 + 1, u32::MAX as u64] {
        regress_with(|st, sec, br, _| edit(st, sec.index_key(), &br[0], |x| *field(&mut x[0], "level") = Cv::U(l)))?;
    }
    Ok(())
}
fn r_count_overflow() -> R {
    for f in ["count", "value_bytes", "key_bytes"] {
        regress_with(|st, sec, br, _| edit(st, sec.index_key(), &br[0], |x| *field(&mut x[0], f) = Cv::U(u64::MAX)))?;
    }
    Ok(())
}
fn r_child_count() -> R {
    for b in 0..3 {
        regress_with(|st, sec, br, _| {
            edit(st, sec.index_key(), &br[b], |x| {
                x.pop();
            })
        })?;
        regress_with(|st, sec, br, _| edit(st, sec.index_key(), &br[b], |x| x.push(x[0].clone())))?;
    }
    Ok(())
}
fn r_cycle() -> R {
    // the first child refers to the block it is in
    regress_with(|st, sec, br, _| {
        let root = br[0];
        edit(st, sec.index_key(), &br[0], |x| {
            let mut o = vec![];
            cb_cid(&mut o, &root.into());
            *field(&mut x[0], "link") = P::new(&o).item().expect("cid");
        })
    })
}
/// runs in a process of its own, since a stack overflow can not be caught
fn r_deep() -> R {
    if std::env::var_os("VERIF_INNER").is_none() {
        use std::os::unix::process::ExitStatusExt;
        let out = std::process::Command::new(std::env::current_exe().expect("exe"))
            .args(["regress", "C21", "deep-value"])
            .env("VERIF_INNER", "1")
            .output()
            .map_err(|e| Fail::new("harness", e.to_string()))?;
        return match out.status.signal() {
            Some(s) => Err(Fail::new("crash", format!("process killed by signal {}", s))),
            None if out.status.success() => Ok(()),
            None => Err(Fail::new("deep", String::from_utf8_lossy(&out.stdout).to_string())),
        };
    }
    let (store, sec, cfg, tree, _, lv) = fixture()?;
    let raw = walker::parse_block(&store.raw(&lv[0]).expect("block"))?;
    let mut plain = vec![0x81; 1 << 20];
    plain.push(0);
    store.with(|x| x.blocks.insert(lv[0], reencode(raw.offset, &raw.links, &plain, sec.value_key(), &HT_NONCE).into()));
    small_stack(move || {
        let _ = (sec, cfg);
        let _ = forest(&store, 0).collect(&tree);
        Ok(())
    })
}
fn r_missing_values() -> R {
    regress_with(|st, sec, _, lv| {
        edit(st, sec.value_key(), &lv[0], |x| {
            x.pop();
        })
    })?;
    regress_with(|st, sec, _, lv| edit(st, sec.value_key(), &lv[0], |x| x.push(Cv::U(1))))
}
fn r_huge_frame() -> R {
    for n in [1u64 << 30, 17 << 20, 16 << 20] {
        regress_with(|st, sec, br, lv| {
            for (l, key) in [(&br[1], sec.index_key()), (&lv[0], sec.value_key())] {
                let raw = walker::parse_block(&st.raw(l).expect("block"))?;
                let mut c = vec![0x28, 0xb5, 0x2f, 0xfd, 0xc0, 0x50];
                c.extend_from_slice(&n.to_le_bytes());
                c.extend_from_slice(&[0x09, 0, 0, 0x40]);
                let b = super::crypto::make_block(raw.offset, &raw.links, &walker::xor(&c, key, &HT_NONCE, raw.offset));
                st.with(|x| x.blocks.insert(*l, b.into()));
            }
            Ok(())
        })?;
    }
    Ok(())
}
fn r_offset() -> R {
    regress_with(|st, sec, br, _| {
        let raw = walker::parse_block(&st.raw(&br[0]).expect("block"))?;
        let p = walker::open(&raw, sec.index_key(), &HT_NONCE).map_err(|e| Fail::new("open", e))?;
        let len = zstd::stream::encode_all(&p[..], 0).expect("zstd").len() as u64;
        let b = reencode(u64::MAX - len - 5, &raw.links, &p, sec.index_key(), &HT_NONCE);
        st.with(|x| x.blocks.insert(br[0], b.into()));
        Ok(())
    })
}
