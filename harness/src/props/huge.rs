//! trees with more elements than fit into memory: most of them forgotten
use crate::engine::*;
use crate::model::*;
use crate::props::crypto::{made_of, store_items_linked, Made};
use crate::props::query::{extra, extra_of, needed, Extra};
use crate::walker::{self, Node};
use crate::{check, check_eq};
use banyan::index::{CompactSeq, Index};
use banyan::FilteredChunk;
use futures::executor::{block_on, ThreadPool};
use futures::{stream, StreamExt, TryStreamExt};
use libipld::Cid;
use std::collections::{HashMap, HashSet};
use std::sync::OnceLock;

pub static PROPS: &[Prop] = &[Prop {
    id: "C35",
    rule: "random history that is put behind a forgotten (purged) part of 2^16 .. 2^64 elements by the independent writer, reloaded, and continued with appends, packs, retains, rolled back transactions and reloads; point reads, tails, queries, chunks in both directions, index iteration and streams over the snapshots, with offsets around the start of what is left, 2^31, 2^32 and 2^53, against the model shifted by the forgotten count. Non-trivial: at least 5 elements behind the forgotten part and one more step after it",
    run: c35,
    quick: 20000,
    thorough: 400000,
    threads: 0,
    regress: &[],
    assumptions: &["the forgotten part is one purged branch, or a few, as retain leaves behind"],
    level: "exploration",
}];

fn pool() -> ThreadPool {
    static P: OnceLock<ThreadPool> = OnceLock::new();
    P.get_or_init(|| ThreadPool::builder().pool_size(3).name_prefix("huge-").create().unwrap()).clone()
}

struct Huge {
    w: World,
    /// number of forgotten elements at the start
    h: u64,
    value_bytes: u64,
    key_bytes: u64,
    retained: bool,
    grafts: u32,
}

fn tri(m: &[ModelItem], h: u64, q: &Qx) -> Vec<(u64, HKey, Val)> {
    m.iter()
        .enumerate()
        .filter_map(|(o, x)| x.as_ref().map(|(k, v)| (h + o as u64, k.clone(), v.clone())))
        .filter(|(o, k, _)| q.matches(*o, k))
        .collect()
}

/// a query for a tree whose offsets start at h
fn shift(s: &mut Src, q: Qx, h: u64) -> Qx {
    match q {
        Qx::Off(k, a, b) => match s.weighted(&[8, 1, 1, 1]) {
            0 => Qx::Off(k, a.saturating_add(h), b.saturating_add(h)),
            1 => Qx::Off(k, s.below(3), b.saturating_add(h)),
            2 => {
                // somewhere in what has been forgotten
                let x = s.below(h.max(1));
                Qx::Off(k, x, x.saturating_add(b))
            }
            _ => Qx::Off(k, a, b),
        },
        Qx::And(a, b) => Qx::And(Box::new(shift(s, *a, h)), Box::new(shift(s, *b, h))),
        Qx::Or(a, b) => Qx::Or(Box::new(shift(s, *a, h)), Box::new(shift(s, *b, h))),
        q => q,
    }
}

fn gen_count(s: &mut Src) -> u64 {
    match s.weighted(&[4, 3, 2, 2, 2, 2]) {
        0 => (1u64 << 32) - s.below(40),
        1 => (1u64 << 31) - s.below(40),
        2 => (1u64 << 16) - s.below(40),
        3 => *s.pick(&[1u64 << 32, (1 << 32) + 1, 1 << 33, 1 << 31, 1 << 40, 1 << 48, 1 << 53, (1 << 53) + 1]),
        4 => s.range(1 << 32, 1 << 62),
        // not even in an i64
        _ => s.range(1 << 62, (1 << 63) + (1 << 62)),
    }
}

impl Huge {
    fn query(&self, s: &mut Src, depth: u32) -> Qx {
        let q = gen_query(s, self.w.n(), self.w.clock, depth);
        shift(s, q, self.h)
    }
    fn walk(&self) -> R<Option<Node>> {
        Ok(match self.w.b.index() {
            Some(i) => Some(walker::walk(&self.w.store, &self.w.secrets, i, 0)?),
            None => None,
        })
    }

    /// make the current tree the last child of a new root, behind a forgotten part
    fn graft(&mut self, s: &mut Src, obs: &mut Obs) -> R {
        let w = &mut self.w;
        let root = match w.b.index() {
            Some(i) => walker::walk(&w.store, &w.secrets, i, 0)?,
            None => return Ok(()),
        };
        let count = gen_count(s);
        if self.h.checked_add(count).map_or(true, |x| x > u64::MAX - (1 << 30)) {
            return Ok(());
        }
        let level = match s.weighted(&[4, 2, 1]) {
            0 => root.level(),
            1 => root.level() + s.below(6) as u32,
            // what has been forgotten must stay in the packed part
            _ if self.grafts > 0 => root.level(),
            _ => 1 + s.below(root.level() as u64 + 1) as u32,
        };
        // summaries are those of its children
        let parts = s.range(1, 3);
        let sums = (0..parts)
            .map(|i| HSum {
                n: if i == 0 { count - (count / parts) * (parts - 1) } else { count / parts },
                h: s.below(1 << 40),
                min: s.below(100),
                max: 100 + s.below(100),
                cats: 255,
            })
            .collect();
        let vb = *s.pick(&[1000, 1 << 32, (1 << 40) + 3, 1 << 60]);
        let kb = *s.pick(&[1000, 1 << 32, (1 << 33) + 3, 1 << 59]);
        let old = Made { link: None, level, sealed: true, count, keys: vec![], sums, value_bytes: vb, key_bytes: kb };
        obs.note(|| format!("forget {} elements before offset {} at level {}, tree has level {}", count, self.h, level, root.level()));
        let mut offset = root.raw().map(|r| r.range().end).unwrap_or_default();
        let mut plain = old.encode();
        plain.extend_from_slice(&made_of(&root).encode());
        let z = zstd::stream::encode_all(&plain[..], w.cfg.zstd_level.max(1)).expect("zstd");
        let links: Vec<Cid> = root.link().iter().map(|l| Cid::from(*l)).collect();
        let (link, len) = store_items_linked(&w.store, &z, &links, w.secrets.index_key(), &mut offset);
        w.fresh_txn();
        w.b = w.txn.load_stream_builder(w.secrets.clone(), w.cfg.clone(), link).must("load_stream_builder")?;
        w.may_rebase = false;
        self.h += count;
        self.value_bytes += vb;
        self.key_bytes += kb + len;
        self.grafts += 1;
        obs.label_if(level < root.level(), "unpacked");
        obs.label_if(self.h > u32::MAX as u64, "more than 2^32");
        obs.label_if(self.h > i64::MAX as u64, "more than 2^63");
        Ok(())
    }

    fn retain(&mut self, s: &mut Src, obs: &mut Obs) -> R {
        let q = self.query(s, 1);
        obs.note(|| format!("retain {:?}", q));
        let h = self.h;
        let w = &mut self.w;
        let before = w.b.count();
        w.txn.retain(&mut w.b, &q.build()).must("retain")?;
        check_eq!(w.b.count(), before, "retain-count", "count after retain");
        let got = w.forest().collect_from(&w.b.snapshot(), h).must("collect_from")?;
        check_eq!(got.len(), w.model.len(), "retain", "elements left after retain");
        for (i, (g, m)) in got.iter().zip(&w.model).enumerate() {
            match (g, m) {
                (Some(_), _) => check!(g == m, "retain", "element {} changed by retain", h + i as u64),
                (None, Some((k, _))) => {
                    check!(!q.matches(h + i as u64, k), "retain-lost", "element {} matches {:?} but was forgotten", h + i as u64, q);
                    self.retained = true;
                    obs.label("retained");
                }
                _ => {}
            }
        }
        w.model = got;
        Ok(())
    }

    /// point reads and tails
    fn check_reads(&self, s: &mut Src, tree: &Tr, f: &Fst) -> R {
        let (h, n) = (self.h, self.w.n());
        check_eq!(tree.count(), h + n, "count", "count of the snapshot");
        let mut os = vec![h.wrapping_sub(1), h, h + n.saturating_sub(1), h + n, u64::MAX, 0];
        for _ in 0..3 {
            os.push(h + s.below(n + 1));
        }
        // what a truncated offset would be taken for
        os.extend([h as u32 as u64, (h + n / 2) as u32 as u64, h & 0x7fff_ffff, (h as u32 as u64) + n / 2]);
        for o in os {
            let want = if o < h { None } else { self.w.model.get((o - h) as usize).cloned().flatten() };
            let got = f.get(tree, o).must("get")?;
            check!(got == want, "get", "get({}) of a tree with {} forgotten and {} more elements: {} instead of {}", o, h, n, fmt(&got), fmt(&want));
        }
        for from in [h, h + s.below(n + 1), h + n, h + n + 1, u64::MAX] {
            let got = f.collect_from(tree, from).must("collect_from")?;
            same_content(&format!("collect_from({})", from), &got, &self.w.model, from.saturating_sub(h).min(n + 1) as usize)?;
        }
        Ok(())
    }

    fn check_queries(&self, s: &mut Src, obs: &mut Obs, tree: &Tr, f: &Fst, root: &Node) -> R {
        let (h, n) = (self.h, self.w.n());
        let mut nodes: HashMap<(u64, u64), Vec<Extra>> = HashMap::new();
        for n in root.nodes() {
            nodes.entry((n.start(), n.count())).or_default().push(extra_of(n));
        }
        let q = self.query(s, 0);
        obs.note(|| format!("query {:?}", q));
        let built = q.build();
        let want = tri(&self.w.model, h, &q);
        let got: Vec<_> = f.iter_filtered(tree, built.clone()).collect::<anyhow::Result<_>>().must("iter_filtered")?;
        cmp_triples("iter_filtered", &got, &want)?;
        let mut rev = want;
        rev.reverse();
        let got: Vec<_> = f.iter_filtered_reverse(tree, built.clone()).collect::<anyhow::Result<_>>().must("iter_filtered_reverse")?;
        cmp_triples("iter_filtered_reverse", &got, &rev)?;
        for back in [false, true] {
            let what = if back { "reverse chunks" } else { "chunks" };
            let mut chunks: Vec<FilteredChunk<(u64, HKey, Val), Extra>> = match (back, s.bool()) {
                (false, false) => f.iter_filtered_chunked(tree, built.clone(), &extra).collect::<anyhow::Result<_>>().must(what)?,
                (true, false) => f.iter_filtered_chunked_reverse(tree, built.clone(), &extra).collect::<anyhow::Result<_>>().must(what)?,
                (false, true) => block_on(f.stream_filtered_chunked(tree, built.clone(), &extra).try_collect()).must(what)?,
                (true, true) => block_on(f.stream_filtered_chunked_reverse(tree, built.clone(), &extra).try_collect()).must(what)?,
            };
            if back {
                chunks.reverse();
            }
            let mut at = 0;
            for c in &chunks {
                check_eq!(c.range.start, at, "tiling", "{}: chunk {:?} does not continue at", what, c.range);
                check!(c.range.end > at, "tiling", "{}: chunk {:?} is empty", what, c.range);
                at = c.range.end;
                let want: Vec<_> = rev.iter().rev().filter(|x| c.range.contains(&x.0)).cloned().collect();
                cmp_triples(&format!("{} {:?}", what, c.range), &c.data, &want)?;
                let known = nodes.get(&(c.range.start, c.range.end - c.range.start)).map_or(false, |v| v.iter().any(|x| Extra { sealed: c.extra.sealed, ..x.clone() } == c.extra));
                check!(known, "extra", "{}: {:?} of chunk {:?} does not describe a node with that range", what, c.extra, c.range);
            }
            check_eq!(at, h + n, "tiling", "{} end at", what);
        }
        // index nodes
        let q = self.query(s, 0);
        let mut visited = vec![];
        needed(&q, root, &mut visited, &mut HashSet::new());
        let sig = |i: &Index<HT>| (i.link().as_ref().copied(), i.count(), i.level());
        // must be there: those with a match. May be there: those that can not be excluded
        for back in [false, true] {
            let what = if back { "iter_index_reverse" } else { "iter_index" };
            let got: Vec<Index<HT>> = if back {
                f.iter_index_reverse(tree, q.build()).collect::<anyhow::Result<_>>().must(what)?
            } else {
                f.iter_index(tree, q.build()).collect::<anyhow::Result<_>>().must(what)?
            };
            let got: HashSet<_> = got.iter().map(sig).collect();
            let may: HashSet<_> = visited.iter().map(|n| (n.link(), n.count(), n.level())).collect();
            check!(got.is_subset(&may), "index", "{} {:?}: {:?} can not match", what, q, got.difference(&may).next());
            for n in root.nodes() {
                let matches = n.start() >= h && tri(&self.w.model, h, &q).iter().any(|x| x.0 >= n.start() && x.0 < n.start() + n.count());
                check!(
                    !matches || got.contains(&(n.link(), n.count(), n.level())),
                    "index",
                    "{} {:?}: node of level {} at {} has matches and is not returned",
                    what,
                    q,
                    n.level(),
                    n.start()
                );
            }
        }
        Ok(())
    }

    fn check_whole(&self, obs: &mut Obs, root: &Node) -> R {
        let w = &self.w;
        let index = w.b.index().expect("not empty");
        check_eq!(index.count(), self.h + w.n(), "count", "count of the root");
        check_eq!(w.b.count(), self.h + w.n(), "count", "count of the builder");
        let all: HSum = match index {
            Index::Branch(b) => b.summaries.to_vec().into_iter().reduce(|a, b| a.combine(&b)).expect("not empty"),
            Index::Leaf(l) => HSum::of(l.keys.as_ref().iter()),
        };
        check_eq!(all.n, self.h + w.n(), "summary", "elements according to the summaries of the root");
        if !self.retained {
            let leaves: u64 = root.leaves().iter().map(|l| l.index.value_bytes).sum();
            check_eq!(index.value_bytes(), self.value_bytes + leaves, "value-bytes", "value_bytes of the root");
        }
        check!(index.key_bytes() >= self.key_bytes.min(1 << 59), "key-bytes", "key_bytes of the root: {}", index.key_bytes());
        let msgs = w.forest().check_invariants(&w.b).must("check_invariants")?;
        check!(msgs.is_empty(), "invariants", "check_invariants: {:?}", msgs);
        let roots = w.forest().roots(&w.b).must("roots")?;
        check!(roots.iter().map(|r| r.count()).sum::<u64>() >= self.h, "roots", "the sealed roots do not cover what was forgotten");
        obs.label_if(roots.len() > 1, "several roots");
        Ok(())
    }
}

fn fmt(x: &ModelItem) -> String {
    x.as_ref().map(fmt_item).unwrap_or_else(|| "None".into())
}

type Ch = FilteredChunk<(u64, HKey, Val), ()>;

/// growing snapshots, streamed
fn check_streams(s: &mut Src, obs: &mut Obs, g: &Huge, snaps: &[Snap], f: &Fst) -> R {
    let (h, n) = (g.h, g.w.n());
    let q = g.query(s, 1);
    let last = snaps.last().expect("not empty");
    // what later snapshots no longer know can not be expected
    let expect = |a: u64, b: u64| {
        let mut want = vec![];
        let mut start = a;
        for t in snaps {
            want.extend(tri(&t.model, h, &q).into_iter().filter(|x| x.0 >= start && x.0 <= b));
            start = start.max(h + t.model.len() as u64);
        }
        want
    };
    let (a, b) = match s.weighted(&[2, 4, 1]) {
        0 => (0, u64::MAX),
        1 => {
            let a = h + s.below(n + 1);
            (a, a + s.below(n + 3))
        }
        _ => (s.below(h), h + s.below(n + 1)),
    };
    obs.note(|| format!("stream {:?} over {}..={}", q, a, b));
    let list: Vec<Tr> = snaps.iter().map(|x| x.tree.clone()).collect();
    let limit = 40 * (n as usize + 10) * (snaps.len() + 1);
    let flat = |chunks: Vec<Ch>| chunks.into_iter().flat_map(|c| c.data).collect::<Vec<_>>();
    let chunks: Vec<Ch> = block_on(f.stream_trees_chunked(q.build(), stream::iter(list.clone()), a..=b, &|_| ()).take(limit).try_collect()).must("stream_trees_chunked")?;
    // it ends with the first chunk that reaches the end of the range
    for c in chunks.iter().rev().skip(1) {
        check!(c.range.end <= b, "end", "stream_trees_chunked continues after {:?} although it was to end at {}", c.range, b);
    }
    if h + n > b {
        check!(chunks.last().map_or(false, |c| c.range.end > b), "end", "stream_trees_chunked ended before {}", b);
    }
    cmp_triples("stream_trees_chunked", &flat(chunks), &expect(a, b))?;
    if s.chance(1, 3) {
        let chunks: Vec<Ch> = block_on(
            f.stream_trees_chunked_threaded(q.build(), stream::iter(list), a..=b, &|_| (), pool()).take(limit).try_collect(),
        )
        .must("stream_trees_chunked_threaded")?;
        cmp_triples("stream_trees_chunked_threaded", &flat(chunks), &expect(a, b))?;
    }
    // reverse: every tree covers the range
    let a = match s.below(3) {
        0 => s.below(h),
        _ => h + s.below(n),
    };
    let b = match s.below(3) {
        0 => u64::MAX,
        _ => (a.max(h)) + s.below(h + n - a.max(h)),
    };
    let trees = vec![last.tree.clone(); s.usize(1, 2)];
    let chunks: Vec<Ch> = block_on(f.stream_trees_chunked_reverse(q.build(), stream::iter(trees), a..=b, &|_| ()).take(limit).try_collect()).must("stream_trees_chunked_reverse")?;
    check!(chunks.last().map_or(false, |c| c.range.start <= a), "end", "stream_trees_chunked_reverse ended before {}", a);
    let mut at = h + n;
    for c in &chunks {
        check_eq!(c.range.end, at, "tiling", "reverse stream: chunk {:?} does not continue at", c.range);
        at = c.range.start;
    }
    let got: Vec<_> = chunks.into_iter().flat_map(|c| c.data.into_iter().rev()).collect();
    let mut want: Vec<_> = tri(&last.model, h, &q).into_iter().filter(|x| x.0 >= a && x.0 <= b).collect();
    want.reverse();
    cmp_triples("stream_trees_chunked_reverse", &got, &want)
}

fn c35(s: &mut Src, obs: &mut Obs) -> R {
    let w = World::new(s, obs);
    let mut g = Huge { w, h: 0, value_bytes: 0, key_bytes: 0, retained: false, grafts: 0 };
    let before = s.usize(1, 3);
    for _ in 0..before {
        let step = gen_step_w(s, &g.w, 60, &[6, 5, 2, 2, 1, 0, 0, 1, 0]);
        apply_step(s, obs, &mut g.w, &step)?;
    }
    g.graft(s, obs)?;
    if g.grafts == 0 {
        return Ok(());
    }
    let mut snaps: Vec<Snap> = vec![g.w.snap()];
    let mut steps = 0;
    let mut more = 0;
    while steps < 1 || (steps < 8 && s.more(4)) {
        steps += 1;
        if s.chance(1, 10) && !g.retained {
            g.graft(s, obs)?;
            // other offsets from here
            snaps.clear();
        } else if s.chance(1, 8) {
            g.retain(s, obs)?;
        } else {
            let n = g.w.n();
            let weights = if g.retained { [6, 5, 2, 0, 1, 1, 1, 1, 0] } else { [6, 5, 2, 3, 1, 1, 1, 1, 0] };
            let step = gen_step_w(s, &g.w, 60, &weights);
            apply_step(s, obs, &mut g.w, &step)?;
            more += (g.w.n() > n) as u32;
        }
        snaps.push(g.w.snap());
        if s.chance(1, 3) {
            let tree = g.w.b.snapshot();
            g.check_reads(s, &tree, &g.w.forest().clone())?;
        }
    }
    let root = g.walk()?.expect("not empty");
    g.check_whole(obs, &root)?;
    let f = if s.bool() { forest(&g.w.store, gen_cache(s)) } else { g.w.forest().clone() };
    let tree: Tr = if g.w.b.link().is_some() && s.chance(1, 3) {
        f.load_tree(g.w.secrets.clone(), g.w.b.link().expect("not empty")).must("load_tree")?
    } else {
        g.w.b.snapshot()
    };
    g.check_reads(s, &tree, &f)?;
    for _ in 0..s.usize(1, 3) {
        g.check_queries(s, obs, &tree, &f, &root)?;
    }
    if g.w.n() > 0 {
        check_streams(s, obs, &g, &snaps, &f)?;
    }
    if s.chance(1, 4) {
        // nothing to repair
        let link = g.w.b.link();
        let report = g.w.txn.repair(&mut g.w.b).must("repair")?;
        check!(report.is_empty(), "repair", "repair reports {:?}", report);
        check_eq!(g.w.b.link(), link, "repair", "root after repair");
    }
    obs.nontrivial = g.w.n() >= 5 && more > 0;
    Ok(())
}
