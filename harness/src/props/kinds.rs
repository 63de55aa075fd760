//! the same behaviour for all key, summary, sequence, value and store types, through the whole API
use crate::engine::*;
use crate::model::{gen_cache, gen_config, gen_off, gen_secrets, HStore, Link};
use crate::{check, check_eq};
use banyan::index::{CompactSeq, Index, NodeInfo, Summarizable, UnitSeq, VecSeq};
use banyan::query::{AllQuery, OffsetRangeQuery};
use banyan::store::{BanyanValue, BlockWriter, BranchCache};
use banyan::{Config, Forest, Secrets, StreamBuilder, Transaction, Tree, TreeTypes};
use cbor_data::codec::{CodecError, ReadCbor, WriteCbor};
use cbor_data::{Cbor, CborOwned, ItemKind, Writer as CborWriter};
use futures::executor::block_on;
use futures::TryStreamExt;
use libipld::{Cid, DagCbor};
use std::collections::BTreeMap;
use std::fmt::Debug;

pub static PROPS: &[Prop] = &[Prop {
    id: "C34",
    rule: "short histories (packed and unpacked appends, single pushes, pack, reload, rolled back transaction, then maybe retain) with one of 5 families of key/summary/sequence types (unit keys, unit summaries, run length coded keys with min/max summaries, strings, column encoded records) and one of 7 value types; all reads, accessors, loaders and printed forms against the model. Non-trivial: at least 3 nodes and two appends",
    run: c34,
    quick: 80000,
    thorough: 4000000,
    threads: 0,
    regress: &[],
    assumptions: &[],
    level: "exploration",
}];

/// tree types that can be generated and whose summaries can be checked
trait Ty: TreeTypes<Link = Link> {
    const NAME: &'static str;
    fn key(s: &mut Src, i: u64) -> Self::Key;
    fn dup(k: &Self::Key) -> Self::Key;
    fn sum(keys: &[Self::Key]) -> Self::Summary;
}

/// no keys, no summaries
#[derive(Debug, Clone)]
struct Units;
impl TreeTypes for Units {
    type Key = ();
    type Summary = ();
    type KeySeq = UnitSeq;
    type SummarySeq = UnitSeq;
    type Link = Link;
}
impl Ty for Units {
    const NAME: &'static str = "unit keys";
    fn key(_: &mut Src, _: u64) {}
    fn dup(_: &()) {}
    fn sum(_: &[()]) {}
}

/// keys, but no summaries
#[derive(Debug, Clone)]
struct NoSums;
impl TreeTypes for NoSums {
    type Key = u64;
    type Summary = ();
    type KeySeq = VecSeq<u64>;
    type SummarySeq = UnitSeq;
    type Link = Link;
    const NONCE: &'static [u8; 24] = &[255; 24];
}
impl Ty for NoSums {
    const NAME: &'static str = "unit summaries";
    fn key(s: &mut Src, _: u64) -> u64 {
        s.u64_any()
    }
    fn dup(k: &u64) -> u64 {
        *k
    }
    fn sum(_: &[u64]) {}
}

/// run length encoded
#[derive(Debug, Clone, DagCbor)]
struct Runs {
    values: Vec<u64>,
    lens: Vec<u64>,
}
impl CompactSeq for Runs {
    type Item = u64;
    fn len(&self) -> usize {
        self.lens.iter().sum::<u64>() as usize
    }
    fn get(&self, index: usize) -> Option<u64> {
        let mut at = 0;
        for (v, n) in self.values.iter().zip(&self.lens) {
            at += n;
            if (index as u64) < at {
                return Some(*v);
            }
        }
        None
    }
}
impl std::iter::FromIterator<u64> for Runs {
    fn from_iter<I: IntoIterator<Item = u64>>(iter: I) -> Self {
        let mut r = Runs { values: vec![], lens: vec![] };
        for x in iter {
            if r.values.last() == Some(&x) {
                *r.lens.last_mut().unwrap() += 1;
            } else {
                r.values.push(x);
                r.lens.push(1);
            }
        }
        r
    }
}
#[derive(Debug, Clone, PartialEq, DagCbor)]
struct MinMax(u64, u64);
impl Summarizable<MinMax> for Runs {
    fn summarize(&self) -> MinMax {
        MinMax(*self.values.iter().min().unwrap(), *self.values.iter().max().unwrap())
    }
}
impl Summarizable<MinMax> for VecSeq<MinMax> {
    fn summarize(&self) -> MinMax {
        let v = self.as_ref();
        MinMax(v.iter().map(|x| x.0).min().unwrap(), v.iter().map(|x| x.1).max().unwrap())
    }
}
#[derive(Debug, Clone)]
struct Rle;
impl TreeTypes for Rle {
    type Key = u64;
    type Summary = MinMax;
    type KeySeq = Runs;
    type SummarySeq = VecSeq<MinMax>;
    type Link = Link;
}
impl Ty for Rle {
    const NAME: &'static str = "run length";
    fn key(s: &mut Src, _: u64) -> u64 {
        s.below(3)
    }
    fn dup(k: &u64) -> u64 {
        *k
    }
    fn sum(keys: &[u64]) -> MinMax {
        MinMax(*keys.iter().min().unwrap(), *keys.iter().max().unwrap())
    }
}

/// strings, summary is the first and last one
#[derive(Debug, Clone)]
struct Strings;
#[derive(Debug, Clone, PartialEq, DagCbor)]
struct Ends(String, String);
impl Summarizable<Ends> for VecSeq<String> {
    fn summarize(&self) -> Ends {
        Ends(self.first(), self.last())
    }
}
impl Summarizable<Ends> for VecSeq<Ends> {
    fn summarize(&self) -> Ends {
        Ends(self.first().0, self.last().1)
    }
}
impl TreeTypes for Strings {
    type Key = String;
    type Summary = Ends;
    type KeySeq = VecSeq<String>;
    type SummarySeq = VecSeq<Ends>;
    type Link = Link;
    const NONCE: &'static [u8; 24] = b"0123456789abcdefghijklmn";
}
impl Ty for Strings {
    const NAME: &'static str = "strings";
    fn key(s: &mut Src, i: u64) -> String {
        let n = s.small(20) as usize;
        format!("{}{}", i, "ü".repeat(n))
    }
    fn dup(k: &String) -> String {
        k.clone()
    }
    fn sum(keys: &[String]) -> Ends {
        Ends(keys[0].clone(), keys[keys.len() - 1].clone())
    }
}

/// records as columns, without Clone
#[derive(Debug, PartialEq)]
struct Rec {
    a: u64,
    b: bool,
}
#[derive(Debug, Clone, DagCbor)]
struct Columns {
    a: Vec<u64>,
    b: Vec<bool>,
}
impl CompactSeq for Columns {
    type Item = Rec;
    fn len(&self) -> usize {
        self.a.len()
    }
    fn get(&self, i: usize) -> Option<Rec> {
        Some(Rec { a: *self.a.get(i)?, b: *self.b.get(i)? })
    }
    fn estimated_size(&self) -> usize {
        9 * self.a.len() + 48
    }
}
impl std::iter::FromIterator<Rec> for Columns {
    fn from_iter<I: IntoIterator<Item = Rec>>(iter: I) -> Self {
        let (a, b) = iter.into_iter().map(|x| (x.a, x.b)).unzip();
        Columns { a, b }
    }
}
#[derive(Debug, Clone, PartialEq, DagCbor)]
struct Xor(u64);
impl Summarizable<Xor> for Columns {
    fn summarize(&self) -> Xor {
        Xor(self.a.iter().fold(0, |x, y| x ^ y))
    }
}
impl Summarizable<Xor> for VecSeq<Xor> {
    fn summarize(&self) -> Xor {
        Xor(self.as_ref().iter().fold(0, |x, y| x ^ y.0))
    }
}
#[derive(Debug, Clone)]
struct Recs;
impl TreeTypes for Recs {
    type Key = Rec;
    type Summary = Xor;
    type KeySeq = Columns;
    type SummarySeq = VecSeq<Xor>;
    type Link = Link;
}
impl Ty for Recs {
    const NAME: &'static str = "columns";
    fn key(s: &mut Src, i: u64) -> Rec {
        Rec { a: i ^ s.small(1 << 40), b: s.bool() }
    }
    fn dup(k: &Rec) -> Rec {
        Rec { a: k.a, b: k.b }
    }
    fn sum(keys: &[Rec]) -> Xor {
        Xor(keys.iter().fold(0, |x, y| x ^ y.a))
    }
}

/// a value that is a link
#[derive(Debug, Clone, PartialEq)]
struct Lk(Cid);
impl WriteCbor for Lk {
    fn write_cbor<W: CborWriter>(&self, w: W) -> W::Output {
        w.write_bytes_chunked([&[0][..], &self.0.to_bytes()], [42])
    }
}
impl ReadCbor for Lk {
    fn fmt(f: &mut impl std::fmt::Write) -> std::fmt::Result {
        write!(f, "Lk")
    }
    fn read_cbor(cbor: &Cbor) -> cbor_data::codec::Result<Self> {
        let d = cbor.tagged_item();
        match (d.tags().single(), d.kind()) {
            (Some(42), ItemKind::Bytes(b)) => Cid::try_from(&b.as_cow()[1..]).map(Lk).map_err(CodecError::custom),
            _ => Err(CodecError::type_error("Lk", &d)),
        }
    }
}

/// a writer that counts
struct Writer {
    store: HStore,
    written: Vec<Link>,
}
impl BlockWriter<Link> for Writer {
    fn put(&mut self, data: Vec<u8>) -> anyhow::Result<Link> {
        let l = self.store.put(data)?;
        self.written.push(l);
        Ok(l)
    }
}

fn c34(s: &mut Src, obs: &mut Obs) -> R {
    match s.below(5) {
        0 => values::<Units>(s, obs),
        1 => values::<NoSums>(s, obs),
        2 => values::<Rle>(s, obs),
        3 => values::<Strings>(s, obs),
        _ => values::<Recs>(s, obs),
    }
}

fn values<T: Ty>(s: &mut Src, obs: &mut Obs) -> R {
    obs.label(T::NAME);
    match s.below(7) {
        0 => trees::<T, u64>(s, obs, "u64", |s| s.u64_any()),
        1 => trees::<T, String>(s, obs, "string", |s| {
            let n = s.small(60) as usize;
            "x\0é".repeat(n)
        }),
        2 => trees::<T, Option<u64>>(s, obs, "option", |s| if s.bool() { None } else { Some(s.small(300)) }),
        3 => trees::<T, Vec<u64>>(s, obs, "vec", |s| (0..s.small(9)).map(|i| i << 30).collect()),
        4 => trees::<T, (u64, String)>(s, obs, "tuple", |s| (s.small(1 << 33), "t".repeat(s.small(9) as usize))),
        5 => trees::<T, BTreeMap<String, Vec<u8>>>(s, obs, "map", |s| {
            (0..s.small(4)).map(|i| (i.to_string(), s.blob(i as usize))).collect()
        }),
        _ => trees::<T, Lk>(s, obs, "link", |s| Lk(Cid::from(Link::new(&s.u64_any().to_be_bytes())))),
    }
}

struct Env<T: Ty, V> {
    name: &'static str,
    cfg: Config,
    secrets: Secrets,
    model: Vec<(T::Key, V)>,
    gone: u64,
}

type Xn<T> = Transaction<T, HStore, Writer>;

fn trees<T: Ty, V: BanyanValue + Clone + PartialEq + Debug>(s: &mut Src, obs: &mut Obs, name: &'static str, mk: fn(&mut Src) -> V) -> R {
    obs.label(name);
    let (mut cfg, _) = gen_config(s);
    // room for the largest value
    cfg.max_uncompressed_leaf_size = cfg.max_uncompressed_leaf_size.max(500);
    let secrets = gen_secrets(s);
    let store = HStore::new();
    // the transaction may work on another store than the forest it is made from
    let same_store = s.bool();
    let forest: Forest<T, HStore> = Forest::new(if same_store { store.clone() } else { HStore::new() }, BranchCache::new(gen_cache(s)));
    obs.note(|| format!("{} {} {}", T::NAME, name, crate::model::cfg_str(&cfg)));
    let mut x: Xn<T> = forest.transaction(|r| {
        let r = if same_store { r } else { store.clone() };
        (r.clone(), Writer { store: r, written: vec![] })
    });
    let mut b: StreamBuilder<T, V> = StreamBuilder::new(cfg.clone(), secrets.clone());
    let mut e = Env { name, cfg, secrets, model: vec![], gone: 0 };
    let mut made = 0u64;
    let mut appends = 0;
    let mut steps = 0;
    reads(s, &x, &b, &e)?;
    while steps < 1 || (steps < 6 && s.more(3)) {
        steps += 1;
        let put0 = store.with(|x| x.puts.len());
        let w0 = x.writer().written.len();
        let mut items = |s: &mut Src, n: usize| -> Vec<(T::Key, V)> {
            (0..n)
                .map(|_| {
                    made += 1;
                    (T::key(s, made), mk(s))
                })
                .collect()
        };
        let dup = |v: &Vec<(T::Key, V)>| v.iter().map(|(k, v)| (T::dup(k), v.clone())).collect::<Vec<_>>();
        match s.weighted(&[5, 4, 3, 2, 2, 2]) {
            0 => {
                let n = s.small(60) as usize;
                let it = items(s, n);
                obs.note(|| format!("extend {:?}", it));
                x.extend(&mut b, dup(&it)).must("extend")?;
                e.model.extend(it);
                appends += 1;
            }
            1 => {
                let n = s.small(8) as usize;
                let it = items(s, n);
                obs.note(|| format!("extend_unpacked {:?}", it));
                x.extend_unpacked(&mut b, dup(&it)).must("extend_unpacked")?;
                e.model.extend(it);
                appends += 1;
            }
            2 => {
                let it = items(s, 1).pop().unwrap();
                obs.note(|| format!("push {:?}", it));
                x.push(&mut b, T::dup(&it.0), it.1.clone()).must("push")?;
                e.model.push(it);
                appends += 1;
            }
            3 => {
                obs.note(|| "pack".into());
                x.pack(&mut b).must("pack")?;
                check!(x.is_packed(&b.snapshot()).must("is_packed")?, "packed", "tree is not packed after pack");
            }
            4 => {
                obs.note(|| "reload".into());
                if let Some(l) = b.link() {
                    // everything that was written is in the store, whatever was in the writer or cache
                    let f: Forest<T, HStore> = Forest::new(store.clone(), BranchCache::default());
                    x = Transaction::new(f.clone(), Writer { store: store.clone(), written: vec![] });
                    b = f.load_stream_builder(e.secrets.clone(), e.cfg.clone(), l).must("load_stream_builder")?;
                }
                reads(s, &x, &b, &e)?;
                continue;
            }
            _ => {
                obs.note(|| "rolled back".into());
                let before = format!("{} {:?}", b, b);
                let n = s.small(20) as usize;
                let it = items(s, n);
                let mut t = b.transaction();
                x.extend(&mut t, it).must("extend")?;
                if s.bool() {
                    x.pack(&mut t).must("pack")?;
                }
                drop(t);
                check_eq!(format!("{} {:?}", b, b), before, "rollback", "builder");
            }
        }
        let new = store.with(|x| x.puts[put0..].to_vec());
        check!(x.writer().written[w0..] == new[..], "writer", "blocks were not written through the writer");
        reads(s, &x, &b, &e)?;
    }
    x.assert_invariants(&b).must("assert_invariants")?;
    if s.chance(1, 3) && b.count() > 0 {
        let keep = s.range(0, b.count());
        obs.note(|| format!("retain {}..", keep));
        x.retain(&mut b, &OffsetRangeQuery::from(keep..)).must("retain")?;
        e.gone = keep;
        reads(s, &x, &b, &e)?;
        obs.label("retain");
    }
    let w = x.writer_mut().written.clone();
    check!(x.into_writer().written == w, "writer", "into_writer");
    obs.nontrivial = appends >= 2 && b.level() >= 1 && e.model.len() >= 3;
    Ok(())
}

fn reads<T: Ty, V: BanyanValue + Clone + PartialEq + Debug>(s: &mut Src, x: &Xn<T>, b: &StreamBuilder<T, V>, e: &Env<T, V>) -> R {
    let n = e.model.len() as u64;
    let t: Tree<T, V> = b.snapshot();
    // accessors agree
    check_eq!((b.count(), t.count()), (n, n), "count", "count");
    check_eq!((b.is_empty(), t.is_empty()), (n == 0, n == 0), "empty", "is_empty");
    check_eq!(b.level(), t.level(), "level", "level");
    check_eq!(b.link(), t.link(), "link", "link");
    check_eq!(b.root().copied(), b.link(), "link", "root of builder");
    check_eq!(t.root().copied(), b.link(), "link", "root of tree");
    check_eq!(b.link().is_none(), n == 0 || e.gone == n && b.link().is_none(), "link", "link of an empty tree");
    for i in [b.index(), b.as_index_ref(), t.index(), t.as_index_ref()] {
        match i {
            None => check_eq!(n, 0, "index", "no index, but elements"),
            Some(i) => {
                check_eq!((i.count(), i.level() as i32, *i.link()), (n, b.level(), b.link()), "index", "index");
            }
        }
    }
    check_eq!(
        t.secrets().map(|x| (*x.index_key(), *x.value_key())),
        if n == 0 { None } else { Some((*e.secrets.index_key(), *e.secrets.value_key())) },
        "secrets",
        "secrets of the tree"
    );
    let shown = match n {
        0 => "empty tree".to_string(),
        _ => format!("{:?}", b.link()),
    };
    check_eq!(b.to_string(), shown.clone(), "print", "builder");
    check_eq!(t.to_string(), shown.clone(), "print", "tree");
    for d in [format!("{:?}", b), format!("{:?}", t)] {
        check!(d.contains(&format!("count: {}", n)) && (n == 0 || d.contains(&shown)), "print", "debug form {:?}", d);
    }
    // content
    let same = |what: &str, at: u64, got: Option<(T::Key, V)>| -> R {
        let want = e.model.get(at as usize);
        match (got, want) {
            (None, None) => Ok(()),
            (None, Some(_)) if at < e.gone => Ok(()),
            (Some(g), Some(w)) if &g == w => Ok(()),
            (g, w) => Err(Fail::new("content", format!("{} ({}, {}): element {} is {:?}, expected {:?}", what, T::NAME, e.name, at, g, w))),
        }
    };
    let all = x.collect(&t).must("collect")?;
    check_eq!(all.len() as u64, n, "content", "length of collect");
    for (i, g) in all.into_iter().enumerate() {
        same("collect", i as u64, g)?;
    }
    let o = gen_off(s, n);
    same("get", o, x.get(&t, o).must("get")?)?;
    let part = match x.collect_from(&t, o) {
        Ok(p) => p,
        Err(_) if o > n => vec![],
        Err(err) => return Err(Fail::new("collect_from", format!("collect_from {} of {}: {:#}", o, n, err))),
    };
    check_eq!(part.len() as u64, n.saturating_sub(o), "content", "length of collect_from {}", o);
    for (i, g) in part.into_iter().enumerate() {
        same("collect_from", o + i as u64, g)?;
    }
    let seq = |what: &str, got: Vec<(u64, T::Key, V)>, from: u64, to: u64| -> R {
        let to = to.min(n);
        let mut at = from;
        for (o, k, v) in got {
            check!(o >= at && o < to.max(from), "order", "{}: offset {} after {}", what, o, at);
            check!(o == at || o <= e.gone, "order", "{}: {} to {} is missing", what, at, o);
            same(what, o, Some((k, v)))?;
            at = o + 1;
        }
        check!(at >= to || to <= e.gone, "order", "{}: {} to {} is missing", what, at, to);
        Ok(())
    };
    seq("iter_from", x.iter_from(&t).collect::<anyhow::Result<Vec<_>>>().must("iter_from")?, 0, n)?;
    let a = s.range(0, n + 1);
    let z = a + s.range(0, (n + 2).saturating_sub(a));
    let q = OffsetRangeQuery::from(a..z);
    seq("iter_filtered", x.iter_filtered(&t, q.clone()).collect::<anyhow::Result<Vec<_>>>().must("iter_filtered")?, a, z)?;
    let mut rev = x.iter_filtered_reverse(&t, q.clone()).collect::<anyhow::Result<Vec<_>>>().must("iter_filtered_reverse")?;
    rev.reverse();
    seq("iter_filtered_reverse", rev, a, z)?;
    seq("stream_filtered", block_on(x.stream_filtered(&t, q).try_collect::<Vec<_>>()).must("stream_filtered")?, a, z)?;
    // indexes
    let mut at = 0usize;
    let mut of_leaves = vec![];
    for i in x.iter_index(&t, AllQuery) {
        let i: Index<T> = i.must("iter_index")?;
        let k = i.count() as usize;
        match &i {
            Index::Leaf(l) => {
                check_eq!(l.keys.count() as usize, k, "keys", "count of a leaf");
                check!(!l.keys.is_empty() && l.keys.len() == k, "keys", "len of a leaf");
                let want = &e.model[at..at + k];
                check!(l.keys().eq(want.iter().map(|x| T::dup(&x.0))), "keys", "keys of leaf at {}", at);
                check!(l.keys.first() == want[0].0 && l.keys.last() == want[k - 1].0, "keys", "first and last key of leaf at {}", at);
                check!(l.keys.get(k).is_none(), "keys", "key past the end");
                let bits: Vec<bool> = (0..k).map(|_| s.bool()).collect();
                let sel = want.iter().zip(&bits).filter(|x| *x.1).map(|x| T::dup(&x.0 .0));
                check!(l.select_keys(&bits).eq(sel), "keys", "select_keys of leaf at {}", at);
                of_leaves.push(i.link().is_some());
                at += k;
            }
            Index::Branch(br) => {
                if br.link.is_none() {
                    // its elements are gone with it
                    at += k;
                } else {
                    check_eq!(br.summaries().count() as u64, br.summaries.count(), "summaries", "number of summaries");
                }
            }
        }
        let from = at - if matches!(i, Index::Leaf(_)) || i.link().is_none() { k } else { 0 };
        let keys: Vec<T::Key> = e.model[from..from + k].iter().map(|x| T::dup(&x.0)).collect();
        check!(i.summarize() == T::sum(&keys), "summaries", "summary of a node of {} elements at {} is {:?}", k, from, i.summarize());
    }
    check_eq!(at as u64, n, "index", "elements below the visited leaves");
    // loaders
    if let Some(link) = b.link() {
        let root = x.load_tree::<V>(e.secrets.clone(), link).must("load_tree")?;
        check_eq!((root.count(), root.level(), root.link()), (n, b.level(), b.link()), "load_tree", "tree from link");
        let mut errs = vec![];
        let seen = std::cell::RefCell::new(&mut errs);
        x.dump_graph(&t, |(_, node)| {
            let r = loaders::<T, V>(node);
            if let Err(f) = r {
                seen.borrow_mut().push(f);
            }
        })
        .must("dump_graph")?;
        if let Some(f) = errs.pop() {
            return Err(f);
        }
    }
    Ok(())
}

fn loaders<T: Ty, V: BanyanValue + PartialEq + Debug>(node: &NodeInfo<T, HStore>) -> R {
    match node {
        NodeInfo::Branch(i, l) => {
            let (a, b) = (l.load().must("load")?, l.load_cached().must("load_cached")?);
            check_eq!(a.byte_range, b.byte_range, "loader", "byte range of a branch");
            let links = |x: &banyan::index::Branch<T>| x.children.iter().map(|c| (*c.link(), c.count(), c.level(), c.sealed())).collect::<Vec<_>>();
            check_eq!(links(&a), links(&b), "loader", "children of a branch");
            check_eq!(a.count(), i.summaries.count(), "loader", "number of children");
            check_eq!(a.children.iter().map(|x| x.count()).sum::<u64>(), i.count, "loader", "number of elements");
            check_eq!(*a.first_child().link(), *a.children[0].link(), "loader", "first child");
            check_eq!(*a.last_child().link(), *a.children[a.children.len() - 1].link(), "loader", "last child");
            let text = node.to_string();
            check!(text.starts_with("Branch(") && text.contains(&format!("count={},", i.count)), "print", "branch is shown as {}", text);
        }
        NodeInfo::Leaf(i, l) => {
            let leaf = l.load().must("load")?;
            let n = i.keys.count();
            check_eq!(leaf.as_ref().count().must("count")?, n, "loader", "number of values");
            let all: Vec<V> = leaf.as_ref().items().must("items")?;
            for at in [0, n / 2, n - 1] {
                check_eq!(leaf.child_at::<V>(at).must("child_at")?, all[at as usize], "loader", "value {} of {}", at, n);
            }
            check!(leaf.child_at::<V>(n).is_err(), "loader", "value past the end of a leaf");
            check_eq!(leaf.as_ref().items::<CborOwned>().must("items")?.len() as u64, n, "loader", "raw values");
            let text = node.to_string();
            check!(text.starts_with("Leaf(") && text.contains(&format!("count={},", n)), "print", "leaf is shown as {}", text);
        }
        NodeInfo::PurgedBranch(i) => check!(i.link.is_none(), "loader", "purged branch with a link"),
        NodeInfo::PurgedLeaf(i) => check!(i.link.is_none(), "loader", "purged leaf with a link"),
    }
    Ok(())
}
