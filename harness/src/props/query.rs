//! queries, chunks, index iteration, selectivity
use crate::engine::*;
use crate::model::*;
use crate::walker::{self, Node};
use crate::{check, check_eq};
use banyan::index::{CompactSeq, Index, NodeInfo};
use banyan::FilteredChunk;
use futures::executor::block_on;
use futures::{StreamExt, TryStreamExt};
use std::collections::{HashMap, HashSet};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C02",
        rule: "random history (incl. retain), then 1..6 random query expressions (depth <= 3) over offset ranges, key predicates visible and invisible in summaries, evaluated forward, reverse, as iterator and stream, against filtering the model. Non-trivial: a query with a partial result on a tree of at least 3 nodes",
        run: c02,
        quick: 36000,
        thorough: 300000,
        threads: 0,
        regress: &[Regress { name: "reverse-multi-element-leaf", f: r_reverse }],
        assumptions: &["queries whose intersecting() never excludes a subtree with a match"],
        level: "exploration",
    },
    Prop {
        id: "C03",
        rule: "as C02; chunked reads in both directions, with an extra function that records kind, count, level, link and summary of the node. Non-trivial: at least 3 chunks, one of them skipped",
        run: c03,
        quick: 36000,
        thorough: 300000,
        threads: 0,
        regress: &[],
        assumptions: &[],
        level: "exploration",
    },
    Prop {
        id: "C16",
        rule: "as C02; the links fetched by each read on a cold forest are compared with the nodes that can contain a match, computed from an independent walk. Non-trivial: tree of at least 5 nodes of which the read needs at most 2/3",
        run: c16,
        quick: 48000,
        thorough: 300000,
        threads: 0,
        regress: &[],
        assumptions: &[],
        level: "exploration",
    },
    Prop {
        id: "C25",
        rule: "as C02; index iteration in both directions, dump_graph, roots and left_roots against an independent walk. Non-trivial: tree of at least 5 nodes",
        run: c25,
        quick: 36000,
        thorough: 300000,
        threads: 0,
        regress: &[],
        assumptions: &[],
        level: "exploration",
    },
];

/// reverse iteration over a tree with a leaf of several elements
fn r_reverse() -> R {
    let store = HStore::new();
    let mut t = txn(&store, 1000);
    let mut b: Bld = banyan::StreamBuilder::new(banyan::Config::debug(), Default::default());
    let items: Vec<Item> = (0..3)
        .map(|i| (HKey { t: i, c: 1, p: String::new(), l: vec![] }, to_val(&[i as u8])))
        .collect();
    t.extend(&mut b, items).must("extend")?;
    let got: Vec<u64> = t
        .iter_filtered_reverse(&b.snapshot(), banyan::query::AllQuery)
        .map(|x| x.map(|(o, _, _)| o))
        .collect::<anyhow::Result<_>>()
        .must("iter_filtered_reverse")?;
    check_eq!(got, vec![2, 1, 0], "results", "offsets of reverse iteration");
    Ok(())
}

/// a history for read properties
pub fn read_world(s: &mut Src, obs: &mut Obs, max: usize) -> R<World> {
    let mut w = World::new(s, obs);
    let mut steps = 0;
    let mut retained = false;
    while steps < 1 || (steps < 8 && s.more(4)) {
        steps += 1;
        let weights = if retained {
            [6, 5, 2, 0, 1, 1, 0, 0, 0]
        } else {
            [6, 5, 2, 2, 1, 1, 0, 0, 0]
        };
        let step = gen_step_w(s, &w, max, &weights);
        apply_step(s, obs, &mut w, &step)?;
        if s.chance(1, 10) && w.b.index().is_some() {
            let q = gen_query(s, w.n(), w.clock, 1);
            obs.note(|| format!("step Retain {:?}", q));
            w.txn.retain(&mut w.b, &q.build()).must("retain")?;
            let got = w.forest().collect(&w.b.snapshot()).must("collect")?;
            check_eq!(got.len(), w.model.len(), "retain", "retain changed the number of elements");
            if got != w.model {
                retained = true;
                obs.label("purged parts");
            }
            w.model = got;
        }
    }
    Ok(w)
}

fn partial(w: &World, want: usize) -> bool {
    want > 0 && want < w.model.len()
}

fn c02(s: &mut Src, obs: &mut Obs) -> R {
    let w = read_world(s, obs, 200)?;
    let tree = w.b.snapshot();
    let nodes = match w.b.index() {
        Some(i) => walker::walk(&w.store, &w.secrets, i, 0)?.nodes().len(),
        None => 0,
    };
    for _ in 0..s.usize(1, 6) {
        let q = gen_query(s, w.n(), w.clock, 0);
        obs.note(|| format!("query {:?}", q));
        let want = triples(&w.model, &q);
        let f = w.forest().clone();
        let built = q.build();
        let got: Vec<_> = f
            .iter_filtered(&tree, built.clone())
            .collect::<anyhow::Result<_>>()
            .must("iter_filtered")?;
        cmp_triples("iter_filtered", &got, &want)?;
        let mut rev = want.clone();
        rev.reverse();
        let got: Vec<_> = f
            .iter_filtered_reverse(&tree, built.clone())
            .collect::<anyhow::Result<_>>()
            .must("iter_filtered_reverse")?;
        cmp_triples("iter_filtered_reverse", &got, &rev)?;
        match s.below(4) {
            0 => {
                let got: Vec<_> = block_on(f.stream_filtered(&tree, built.clone()).try_collect())
                    .must("stream_filtered")?;
                cmp_triples("stream_filtered", &got, &want)?;
            }
            1 => {
                let got: Vec<_> = f
                    .iter_filtered_chunked(&tree, built.clone(), &|_| ())
                    .collect::<anyhow::Result<Vec<_>>>()
                    .must("iter_filtered_chunked")?
                    .into_iter()
                    .flat_map(|c| c.data)
                    .collect();
                cmp_triples("iter_filtered_chunked", &got, &want)?;
            }
            2 => {
                let got: Vec<_> = block_on(
                    f.stream_filtered_chunked(&tree, built.clone(), &|_| ())
                        .try_collect::<Vec<_>>(),
                )
                .must("stream_filtered_chunked")?
                .into_iter()
                .flat_map(|c| c.data)
                .collect();
                cmp_triples("stream_filtered_chunked", &got, &want)?;
            }
            _ => {
                let got: Vec<_> = block_on(
                    f.stream_filtered_chunked_reverse(&tree, built.clone(), &|_| ())
                        .try_collect::<Vec<_>>(),
                )
                .must("stream_filtered_chunked_reverse")?
                .into_iter()
                .flat_map(|c| c.data.into_iter().rev())
                .collect();
                cmp_triples("stream_filtered_chunked_reverse", &got, &rev)?;
            }
        }
        obs.label_if(want.is_empty(), "empty result");
        obs.label_if(partial(&w, want.len()), "partial result");
        obs.nontrivial |= partial(&w, want.len()) && nodes >= 3;
    }
    Ok(())
}

#[derive(Debug, Clone, PartialEq)]
pub struct Extra {
    pub kind: &'static str,
    pub count: u64,
    pub level: u32,
    pub link: Option<Link>,
    pub sealed: bool,
}

pub fn extra(info: &NodeInfo<HT, HStore>) -> Extra {
    match info {
        NodeInfo::Branch(b, _) => Extra { kind: "branch", count: b.count, level: b.level, link: b.link, sealed: b.sealed },
        NodeInfo::Leaf(b, _) => Extra { kind: "leaf", count: b.keys.count(), level: 0, link: b.link, sealed: b.sealed },
        NodeInfo::PurgedBranch(b) => Extra { kind: "purged branch", count: b.count, level: b.level, link: b.link, sealed: b.sealed },
        NodeInfo::PurgedLeaf(b) => Extra { kind: "purged leaf", count: b.keys.count(), level: 0, link: b.link, sealed: b.sealed },
    }
}

pub fn extra_of(n: &Node) -> Extra {
    Extra {
        kind: match (n, n.link()) {
            (Node::Leaf(_), Some(_)) => "leaf",
            (Node::Leaf(_), None) => "purged leaf",
            (Node::Branch(_), Some(_)) => "branch",
            (Node::Branch(_), None) => "purged branch",
        },
        count: n.count(),
        level: n.level(),
        link: n.link(),
        sealed: n.sealed(),
    }
}

type Chunk = FilteredChunk<(u64, HKey, Val), Extra>;

fn check_chunks(what: &str, chunks: &[Chunk], w: &World, q: &Qx, nodes: &HashMap<(u64, u64), Vec<Extra>>) -> R {
    let mut at = 0u64;
    for c in chunks {
        check!(c.range.start < c.range.end, "empty-range", "{}: empty range {:?}", what, c.range);
        check_eq!(c.range.start, at, "tiling", "{}: chunk {:?} does not continue at", what, c.range);
        at = c.range.end;
        let want: Vec<_> = (c.range.start..c.range.end)
            .filter_map(|o| w.model.get(o as usize).cloned().flatten().map(|(k, v)| (o, k, v)))
            .filter(|(o, k, _)| q.matches(*o, k))
            .collect();
        cmp_triples(&format!("{}: chunk {:?}", what, c.range), &c.data, &want)?;
        let key = (c.range.start, c.range.end - c.range.start);
        let ok = nodes.get(&key).map(|v| v.contains(&c.extra)).unwrap_or(false);
        check!(
            ok,
            "extra",
            "{}: extra {:?} of chunk {:?} does not describe a node of the tree with that range ({:?})",
            what,
            c.extra,
            c.range,
            nodes.get(&key)
        );
    }
    check_eq!(at, w.n(), "tiling", "{}: chunks end at", what);
    Ok(())
}

fn c03(s: &mut Src, obs: &mut Obs) -> R {
    let w = read_world(s, obs, 200)?;
    let tree = w.b.snapshot();
    let mut nodes: HashMap<(u64, u64), Vec<Extra>> = HashMap::new();
    if let Some(i) = w.b.index() {
        for n in walker::walk(&w.store, &w.secrets, i, 0)?.nodes() {
            nodes.entry((n.start(), n.count())).or_default().push(extra_of(n));
        }
    }
    for _ in 0..s.usize(1, 4) {
        let q = gen_query(s, w.n(), w.clock, 0);
        obs.note(|| format!("query {:?}", q));
        let f = w.forest().clone();
        let built = q.build();
        let fwd: Vec<Chunk> = f
            .iter_filtered_chunked(&tree, built.clone(), &extra)
            .collect::<anyhow::Result<_>>()
            .must("iter_filtered_chunked")?;
        check_chunks("forward", &fwd, &w, &q, &nodes)?;
        let mut rev: Vec<Chunk> = f
            .iter_filtered_chunked_reverse(&tree, built.clone(), &extra)
            .collect::<anyhow::Result<_>>()
            .must("iter_filtered_chunked_reverse")?;
        rev.reverse();
        check_chunks("reverse", &rev, &w, &q, &nodes)?;
        if s.chance(1, 3) {
            let fs: Vec<Chunk> = block_on(
                f.stream_filtered_chunked(&tree, built.clone(), &extra).try_collect(),
            )
            .must("stream_filtered_chunked")?;
            check!(fs == fwd, "stream", "stream and iterator give different chunks");
            let mut rs: Vec<Chunk> = block_on(
                f.stream_filtered_chunked_reverse(&tree, built, &extra).try_collect(),
            )
            .must("stream_filtered_chunked_reverse")?;
            rs.reverse();
            check!(rs == rev, "stream", "reverse stream and reverse iterator give different chunks");
        }
        let skipped = fwd.iter().any(|c| c.extra.kind == "branch");
        obs.label_if(skipped, "skipped branch");
        obs.label_if(fwd.iter().any(|c| c.extra.kind.starts_with("purged")), "purged chunk");
        obs.nontrivial |= fwd.len() >= 3 && fwd.iter().any(|c| c.data.is_empty());
    }
    Ok(())
}

/// which children of a branch can the query not exclude, by looking at the branch's offset range and the
/// summaries of its children
pub fn bits(q: &Qx, start: u64, b: &walker::NBranch) -> Vec<bool> {
    let sums = b.index.summaries.to_vec();
    let m = sums.len();
    match q {
        Qx::And(x, y) => bits(x, start, b).into_iter().zip(bits(y, start, b)).map(|(a, b)| a && b).collect(),
        Qx::Or(x, y) => bits(x, start, b).into_iter().zip(bits(y, start, b)).map(|(a, b)| a || b).collect(),
        Qx::Off(..) => vec![q.may_match_summary(start, b.index.count, &sums[0]); m],
        _ => sums.iter().map(|x| q.may_match_summary(start, 1, x)).collect(),
    }
}

/// nodes that are visited and, of these, those whose block has to be loaded
pub fn needed<'a>(q: &Qx, n: &'a Node, visited: &mut Vec<&'a Node>, blocks: &mut HashSet<Link>) {
    visited.push(n);
    match n {
        Node::Leaf(l) => {
            let any = l.index.keys.as_ref().iter().enumerate().any(|(i, k)| q.matches(l.start + i as u64, k));
            if let (true, Some(link)) = (any, l.link) {
                blocks.insert(link);
            }
        }
        Node::Branch(b) => {
            if let (Some(cs), Some(link)) = (&b.children, b.link) {
                let bits = bits(q, b.start, b);
                if bits.iter().any(|x| *x) {
                    blocks.insert(link);
                }
                for (c, bit) in cs.iter().zip(bits) {
                    if bit {
                        needed(q, c, visited, blocks)
                    }
                }
            }
        }
    }
}

fn c16(s: &mut Src, obs: &mut Obs) -> R {
    let w = read_world(s, obs, 200)?;
    let index = match w.b.index() {
        Some(i) => i,
        None => return Ok(()),
    };
    let tree = w.b.snapshot();
    let root = walker::walk(&w.store, &w.secrets, index, 0)?;
    let total = root.links().len();
    let leaf_links: HashSet<Link> = root.leaves().iter().filter_map(|l| l.link).collect();
    for _ in 0..s.usize(1, 4) {
        let big = s.bool();
        let f = forest(&w.store, if big { 1 << 26 } else { 0 });
        w.store.with(|x| x.get_log = Some(vec![]));
        let what;
        let mut allowed = HashSet::new();
        match s.weighted(&[4, 1, 2, 1, 1]) {
            0 => {
                let q = gen_query(s, w.n(), w.clock, 0);
                obs.note(|| format!("query {:?}", q));
                let built = q.build();
                needed(&q, &root, &mut vec![], &mut allowed);
                match s.below(3) {
                    0 => {
                        what = "iter_filtered";
                        f.iter_filtered(&tree, built).collect::<anyhow::Result<Vec<_>>>().must(what)?;
                    }
                    1 => {
                        what = "iter_filtered_reverse";
                        f.iter_filtered_reverse(&tree, built).collect::<anyhow::Result<Vec<_>>>().must(what)?;
                    }
                    _ => {
                        what = "stream_filtered_chunked";
                        block_on(f.stream_filtered_chunked(&tree, built, &|_| ()).try_collect::<Vec<_>>()).must(what)?;
                    }
                };
            }
            1 => {
                // a stream that is dropped early must not have read ahead
                what = "iter_filtered take(k)";
                let k = s.usize(0, 4);
                let q = Qx::All;
                let _: Vec<_> = f.iter_filtered(&tree, q.build()).take(k).collect();
                let avail: Vec<u64> = (0..w.n()).filter(|o| w.model[*o as usize].is_some()).collect();
                let end = match k {
                    0 => 0,
                    k if k > avail.len() => w.n(),
                    k => avail[k - 1] + 1,
                };
                root.visit(&mut |n| {
                    if n.start() < end {
                        allowed.extend(n.link());
                    }
                });
            }
            2 => {
                what = "get";
                let o = gen_off(s, w.n());
                f.get(&tree, o).must(what)?;
                root.visit(&mut |n| {
                    if o >= n.start() && o < n.start() + n.count() {
                        allowed.extend(n.link());
                    }
                });
            }
            3 => {
                what = "collect_from";
                let o = gen_off(s, w.n());
                f.collect_from(&tree, o).must(what)?;
                root.visit(&mut |n| {
                    if o < n.start() + n.count() {
                        allowed.extend(n.link());
                    }
                });
            }
            _ => {
                what = "iter_index";
                let q = gen_query(s, w.n(), w.clock, 0);
                f.iter_index(&tree, q.build()).collect::<anyhow::Result<Vec<_>>>().must(what)?;
                let mut v = vec![];
                needed(&q, &root, &mut v, &mut HashSet::new());
                allowed = v.iter().filter_map(|n| n.link()).filter(|l| !leaf_links.contains(l)).collect();
            }
        }
        let gets = w.store.with(|x| x.get_log.take().unwrap());
        obs.label(what);
        let distinct: HashSet<Link> = gets.iter().copied().collect();
        for g in &gets {
            let n = root.nodes().into_iter().find(|n| n.link() == Some(*g));
            check!(
                allowed.contains(g),
                "selective",
                "{}: fetched a block that is not needed: {} (offsets {:?}, level {:?}); needed {} of {} blocks",
                what,
                g,
                n.map(|n| n.start()..n.start() + n.count()),
                n.map(|n| n.level()),
                allowed.len(),
                total
            );
        }
        if big {
            check_eq!(gets.len(), distinct.len(), "refetch", "{}: blocks fetched vs distinct blocks with a big cache", what);
        }
        obs.nontrivial |= total >= 5 && allowed.len() * 3 <= total * 2;
    }
    Ok(())
}

fn index_sig(i: &Index<HT>) -> (Option<Link>, u64, u32, bool, u64, u64, Vec<HSum>, Vec<HKey>) {
    match i {
        Index::Leaf(l) => (l.link, l.keys.count(), 0, l.sealed, l.value_bytes, 0, vec![], l.keys.to_vec()),
        Index::Branch(b) => (b.link, b.count, b.level, b.sealed, b.value_bytes, b.key_bytes, b.summaries.to_vec(), vec![]),
    }
}

fn node_index(n: &Node) -> Index<HT> {
    match n {
        Node::Leaf(l) => Index::Leaf(l.index.clone()),
        Node::Branch(b) => Index::Branch(b.index.clone()),
    }
}

/// pre-order; children mirrored for reverse
fn preorder<'a>(n: &'a Node, rev: bool, into: &mut Vec<&'a Node>) {
    into.push(n);
    let cs: Vec<&Node> = n.children().iter().collect();
    if rev {
        cs.into_iter().rev().for_each(|c| preorder(c, rev, into))
    } else {
        cs.into_iter().for_each(|c| preorder(c, rev, into))
    }
}

fn has_match(q: &Qx, n: &Node, model: &[ModelItem]) -> bool {
    (n.start()..n.start() + n.count())
        .any(|o| matches!(&model[o as usize], Some((k, _)) if q.matches(o, k)))
}

fn c25(s: &mut Src, obs: &mut Obs) -> R {
    let w = read_world(s, obs, 200)?;
    let tree = w.b.snapshot();
    let index = match w.b.index() {
        Some(i) => i,
        None => {
            check_eq!(w.forest().iter_index(&tree, Qx::All.build()).count(), 0, "empty", "iter_index of an empty tree");
            check_eq!(w.forest().iter_index_reverse(&tree, Qx::All.build()).count(), 0, "empty", "iter_index_reverse of an empty tree");
            check!(w.forest().roots(&w.b).must("roots")?.is_empty(), "empty", "roots of an empty tree");
            check!(w.forest().left_roots(&tree).must("left_roots")?.is_empty(), "empty", "left_roots of an empty tree");
            return Ok(());
        }
    };
    let root = walker::walk(&w.store, &w.secrets, index, 0)?;
    let f = w.forest().clone();
    let nodes = root.nodes();
    obs.nontrivial = nodes.len() >= 5;
    for _ in 0..s.usize(1, 4) {
        let q = gen_query(s, w.n(), w.clock, 0);
        obs.note(|| format!("query {:?}", q));
        let mut v = vec![];
        needed(&q, &root, &mut v, &mut HashSet::new());
        let can: HashSet<*const Node> = v.iter().map(|n| *n as *const Node).collect();
        for rev in [false, true] {
            let what = if rev { "iter_index_reverse" } else { "iter_index" };
            let limit = nodes.len() + 5;
            let got: Vec<Index<HT>> = if rev {
                f.iter_index_reverse(&tree, q.build()).take(limit).collect::<anyhow::Result<_>>().must(what)?
            } else {
                f.iter_index(&tree, q.build()).take(limit).collect::<anyhow::Result<_>>().must(what)?
            };
            let mut order = vec![];
            preorder(&root, rev, &mut order);
            // the result is a subsequence of the full order: match greedily
            let mut it = order.iter().peekable();
            for g in &got {
                let sig = index_sig(g);
                loop {
                    match it.next() {
                        None => {
                            return Err(Fail::new(
                                "index-order",
                                format!("{}: unexpected node count={} level={} link={:?} (of {} returned)", what, sig.1, sig.2, sig.0, got.len()),
                            ))
                        }
                        Some(n) => {
                            if can.contains(&(*n as *const Node)) && index_sig(&node_index(n)) == sig {
                                break;
                            }
                            check!(
                                !(has_match(&q, n, &w.model)),
                                "index-missing",
                                "{}: node at {} level {} contains matches but was not returned",
                                what,
                                n.start(),
                                n.level()
                            );
                        }
                    }
                }
            }
            for n in it {
                check!(
                    !has_match(&q, n, &w.model),
                    "index-missing",
                    "{}: node at {} level {} contains matches but was not returned",
                    what,
                    n.start(),
                    n.level()
                );
            }
            if q == Qx::All {
                check_eq!(got.len(), nodes.len(), "index-all", "{}: number of nodes", what);
            }
        }
    }
    // graph
    let (edges, gnodes) = f.dump_graph(&tree, |(id, info)| (id, extra(info))).must("dump_graph")?;
    check_eq!(gnodes.len(), nodes.len(), "graph", "number of graph nodes");
    check_eq!(edges.len() + 1, nodes.len(), "graph", "number of graph edges");
    let mut parent: HashMap<usize, usize> = HashMap::new();
    for (a, b) in &edges {
        check!(parent.insert(*b, *a).is_none(), "graph", "node {} has two parents", b);
    }
    for ((id, (id2, e)), n) in gnodes.iter().zip(&nodes) {
        check_eq!(id, id2, "graph", "node id");
        check_eq!(*e, extra_of(n), "graph", "graph node {} in pre-order", id);
    }
    let ids: Vec<usize> = gnodes.keys().copied().collect();
    let pos: HashMap<*const Node, usize> = nodes.iter().enumerate().map(|(i, n)| (*n as *const Node, ids[i])).collect();
    for n in &nodes {
        for c in n.children() {
            check_eq!(parent.get(&pos[&(c as *const Node)]).copied(), Some(pos[&(*n as *const Node)]), "graph", "parent of node at {}", c.start());
        }
    }
    // roots
    let roots = f.roots(&w.b).must("roots")?;
    let mut at = 0;
    let mut level = u32::MAX;
    for r in &roots {
        check!(r.sealed(), "roots", "unsealed root at {}", at);
        check!(r.level() <= level, "roots", "root at {} is higher than its predecessor", at);
        let known = nodes.iter().any(|n| n.start() == at && index_sig(&node_index(n)) == index_sig(r));
        check!(known, "roots", "root at {} count {} level {} is not a node of the tree", at, r.count(), r.level());
        at += r.count();
        level = r.level();
    }
    if nodes.iter().all(|n| n.link().is_some()) {
        let sealed_prefix: u64 = root.leaves().iter().take_while(|l| l.index.sealed).map(|l| l.index.keys.count()).sum();
        check_eq!(at, sealed_prefix, "roots", "elements covered by the sealed roots vs leading sealed leaves");
    }
    // left roots
    let lr = f.left_roots(&tree).must("left_roots")?;
    let mut chain = vec![&root];
    while let Some(c) = chain.last().unwrap().children().first() {
        chain.push(c);
    }
    chain.reverse();
    check_eq!(lr.len(), chain.len(), "left_roots", "number of left roots");
    for (t, n) in lr.iter().zip(&chain) {
        check_eq!(t.link(), n.link(), "left_roots", "link of left root of level {}", n.level());
        check_eq!(t.count(), n.count(), "left_roots", "count of left root of level {}", n.level());
        check_eq!(t.level(), n.level() as i32, "left_roots", "level of left root");
        let got = f.collect(t).must("collect of left root")?;
        same_content("left root", &got, &w.model[..n.count() as usize], 0)?;
    }
    let _ = block_on(futures::stream::empty::<()>().collect::<Vec<_>>());
    Ok(())
}
