//! properties over append histories: snapshots, reload, structure, packing, sharing
use crate::engine::*;
use crate::model::*;
use crate::walker::{self, StructOpts};
use crate::{check, check_eq};
use std::collections::HashSet;

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C04",
        rule: "random histories (extend, unpacked, push, pack, reload, retain, rollback, config change); a snapshot is recorded after every step and all of them are re-read at the end from the live forest, from a cold forest and from a store that holds only the blocks reachable from it. Non-trivial: at least 3 snapshots of different trees and a later operation that replaced the root",
        run: c04,
        quick: 22500,
        thorough: 200000,
        threads: 0,
        regress: &[],
        assumptions: &["content addressed store that never loses a block"],
        level: "exploration",
    },
    Prop {
        id: "C05",
        rule: "random history, then the same continuation on the in-memory builder and on one reloaded from the root link (separate store copies). Non-trivial: tree of at least two nodes and a continuation that appends",
        run: c05,
        quick: 42000,
        thorough: 300000,
        threads: 0,
        regress: &[],
        assumptions: &[],
        level: "exploration",
    },
    Prop {
        id: "C06",
        rule: "random histories with a single config; the whole tree is decoded by an independent reader after every step and every statistic recomputed from the content. Non-trivial: at least 3 nodes and level >= 2",
        run: c06,
        quick: 30000,
        thorough: 300000,
        threads: 0,
        regress: &[],
        assumptions: &[],
        level: "exploration",
    },
    Prop {
        id: "C07",
        rule: "random histories biased to unpacked appends, followed by pack. Non-trivial: the tree was not packed before",
        run: c07,
        quick: 21000,
        thorough: 300000,
        threads: 0,
        regress: &[Regress { name: "pack-single-full-leaf", f: r_pack_full_leaf }],
        assumptions: &[],
        level: "exploration",
    },
    Prop {
        id: "C08",
        rule: "random history, then a single append; blocks written and fetched by it are compared with what the old and the new tree need. Non-trivial: old tree has at least 3 nodes",
        run: c08,
        quick: 14000,
        thorough: 300000,
        threads: 0,
        regress: &[],
        assumptions: &[],
        level: "exploration",
    },
];

/// pack of a tree that consists of a single full leaf (fixed: f7edf23)
fn r_pack_full_leaf() -> R {
    let cfg = banyan::Config {
        max_leaf_count: 1,
        ..banyan::Config::debug()
    };
    let store = HStore::new();
    let mut t = txn(&store, 1000);
    let mut b: Bld = banyan::StreamBuilder::new(cfg, Default::default());
    let k = HKey { t: 1, c: 1, p: String::new(), l: vec![] };
    let v = to_val(&[1]);
    t.extend(&mut b, vec![(k.clone(), v.clone())]).must("extend")?;
    t.pack(&mut b).must("pack")?;
    let tree: Tr = forest(&store, 0)
        .load_tree(Default::default(), b.link().unwrap())
        .must("load_tree")?;
    let got = forest(&store, 0).collect(&tree).must("collect")?;
    same_content("reloaded packed tree", &got, &[Some((k, v))], 0)
}

pub fn verify_snap(what: &str, f: &Fst, snap: &Snap) -> R {
    check_eq!(snap.tree.count(), snap.model.len() as u64, "count", "{}: count", what);
    let got = f.collect(&snap.tree).must(what)?;
    same_content(what, &got, &snap.model, 0)
}

fn c04(s: &mut Src, obs: &mut Obs) -> R {
    let mut w = World::new(s, obs);
    let mut snaps: Vec<Snap> = vec![];
    let mut steps = 0;
    let mut retained = 0;
    while steps < 2 || (steps < 14 && s.more(6)) {
        steps += 1;
        if s.chance(1, 12) && w.b.index().is_some() {
            // retain is a modification like any other as far as snapshots are concerned
            let q = gen_query(s, w.n(), w.clock, 1);
            obs.note(|| format!("step Retain {:?}", q));
            w.txn.retain(&mut w.b, &q.build()).must("retain")?;
            let got = w.forest().collect(&w.b.snapshot()).must("collect")?;
            check_eq!(got.len(), w.model.len(), "count", "retain changed the number of elements");
            for (g, m) in got.iter().zip(&w.model) {
                check!(g.is_none() || g == m, "content", "retain changed an element");
            }
            w.model = got;
            retained += 1;
            obs.label("retain");
        } else {
            let weights = if retained > 0 {
                [6, 5, 2, 0, 2, 1, 1, 1, 0]
            } else {
                [6, 5, 2, 2, 2, 1, 1, 1, 1]
            };
            let step = gen_step_w(s, &w, 120, &weights);
            apply_step(s, obs, &mut w, &step)?;
        }
        snaps.push(w.snap());
        if s.chance(1, 4) {
            let i = s.below(snaps.len() as u64) as usize;
            verify_snap("snapshot during history", w.forest(), &snaps[i])?;
        }
    }
    let cold = forest(&w.store, w.cache);
    for (i, snap) in snaps.iter().enumerate() {
        verify_snap(&format!("snapshot {} from live forest", i), w.forest(), snap)?;
        verify_snap(&format!("snapshot {} from cold forest", i), &cold, snap)?;
        // only the reachable blocks are needed, and the root link alone is enough to get there
        if let Some(link) = snap.tree.link() {
            let node = walker::walk(&w.store, &w.secrets, snap.tree.index().unwrap(), 0)?;
            let only = w.store.only(&node.links());
            let f = forest(&only, 0);
            let tree: Tr = f.load_tree(w.secrets.clone(), link).must("load_tree")?;
            let again = Snap {
                tree,
                model: snap.model.clone(),
            };
            verify_snap(&format!("snapshot {} from its root link and its own blocks", i), &f, &again)?;
        }
    }
    let links: HashSet<_> = snaps.iter().filter_map(|x| x.tree.link()).collect();
    obs.label_if(retained > 0, "history with retain");
    obs.nontrivial = links.len() >= 3;
    Ok(())
}

fn same_index(what: &str, a: Option<&banyan::index::Index<HT>>, b: Option<&banyan::index::Index<HT>>) -> R {
    use banyan::index::{CompactSeq, Index};
    match (a, b) {
        (None, None) => Ok(()),
        (Some(Index::Leaf(a)), Some(Index::Leaf(b))) => {
            check_eq!(a.link, b.link, "index", "{}: link", what);
            check_eq!(a.sealed, b.sealed, "index", "{}: sealed", what);
            check_eq!(a.value_bytes, b.value_bytes, "index", "{}: value_bytes", what);
            check_eq!(a.keys.to_vec(), b.keys.to_vec(), "index", "{}: keys", what);
            Ok(())
        }
        (Some(Index::Branch(a)), Some(Index::Branch(b))) => {
            check_eq!(a.link, b.link, "index", "{}: link", what);
            check_eq!(a.sealed, b.sealed, "index", "{}: sealed", what);
            check_eq!(a.level, b.level, "index", "{}: level", what);
            check_eq!(a.count, b.count, "index", "{}: count", what);
            check_eq!(a.value_bytes, b.value_bytes, "index", "{}: value_bytes", what);
            check_eq!(a.key_bytes, b.key_bytes, "index", "{}: key_bytes", what);
            check_eq!(a.summaries.to_vec(), b.summaries.to_vec(), "index", "{}: summaries", what);
            Ok(())
        }
        _ => Err(Fail::new("index", format!("{}: one is a leaf, the other a branch", what))),
    }
}

fn c05(s: &mut Src, obs: &mut Obs) -> R {
    let mut w = World::new(s, obs);
    let mut steps = 0;
    while steps < 1 || (steps < 8 && s.more(3)) {
        steps += 1;
        // no rolled back transactions: they consume cipher offsets, which are not persisted
        let step = gen_step_w(s, &w, 120, &[6, 5, 2, 2, 1, 1, 0, 0, 0]);
        apply_step(s, obs, &mut w, &step)?;
    }
    let link = match w.b.link() {
        Some(l) => l,
        None => return Ok(()),
    };
    // the other world: a copy of the store, a cold forest, the builder from the root link
    let store2 = w.store.fork();
    let cache2 = gen_cache(s);
    let (mut txn2, _) = txn_bc(&store2, cache2);
    let mut b2: Bld = txn2
        .load_stream_builder(w.secrets.clone(), w.cfg.clone(), link)
        .must("load_stream_builder")?;
    same_index("builder reloaded from root link", b2.index(), w.b.index())?;
    // and a read only tree
    let t2: Tr = txn2.load_tree(w.secrets.clone(), link).must("load_tree")?;
    check_eq!(t2.count(), w.n(), "load_tree", "count of loaded tree");
    check_eq!(t2.level(), w.b.level(), "load_tree", "level of loaded tree");
    check_eq!(t2.link(), Some(link), "load_tree", "link of loaded tree");
    check_eq!(t2.root().copied(), w.b.root().copied(), "load_tree", "root of loaded tree");
    same_content("loaded tree", &txn2.collect(&t2).must("collect")?, &w.model, 0)?;
    same_content("reloaded builder", &txn2.collect(&b2.snapshot()).must("collect")?, &w.model, 0)?;
    let nodes = walker::walk(&w.store, &w.secrets, w.b.index().unwrap(), 0)?.nodes().len();
    // continuation
    let mut appended = 0;
    for _ in 0..s.usize(1, 3) {
        match s.weighted(&[4, 4, 1]) {
            0 => {
                let n = w.gen_n(s, 60);
                let items = w.items(s, n);
                appended += n;
                obs.note(|| format!("continue extend {}", n));
                w.extend(items.clone(), false)?;
                txn2.extend(&mut b2, items).must("extend after reload")?;
            }
            1 => {
                let n = w.gen_n(s, 60);
                let items = w.items(s, n);
                appended += n;
                obs.note(|| format!("continue extend_unpacked {}", n));
                w.extend(items.clone(), true)?;
                txn2.extend_unpacked(&mut b2, items).must("extend_unpacked after reload")?;
            }
            _ => {
                obs.note(|| "continue pack".into());
                w.pack()?;
                txn2.pack(&mut b2).must("pack after reload")?;
            }
        }
        same_content(
            "continued after reload",
            &txn2.collect(&b2.snapshot()).must("collect")?,
            &w.model,
            0,
        )?;
        same_index("continued builders", b2.index(), w.b.index())?;
    }
    obs.label_if(nodes > 10, "nodes>10");
    obs.label_if(w.b.index().map(|x| x.sealed()).unwrap_or(false), "sealed root");
    obs.nontrivial = nodes >= 2 && appended > 0;
    Ok(())
}

fn c06(s: &mut Src, obs: &mut Obs) -> R {
    let mut w = World::new(s, obs);
    let mut steps = 0;
    let mut size = (0, 0);
    while steps < 1 || (steps < 10 && s.more(4)) {
        steps += 1;
        let step = gen_step_w(s, &w, 300, &[6, 6, 2, 2, 1, 1, 0, 1, 0]);
        apply_step(s, obs, &mut w, &step)?;
        let msgs = w.forest().check_invariants(&w.b).must("check_invariants")?;
        check!(msgs.is_empty(), "check_invariants", "reported {:?}", msgs);
        let index = match w.b.index() {
            Some(i) => i,
            None => {
                check_eq!(w.n(), 0, "empty", "no index but elements");
                check_eq!(w.b.level(), -1, "level", "level of empty tree");
                continue;
            }
        };
        let node = walker::walk(&w.store, &w.secrets, index, 0)?;
        walker::check_structure(&node, &w.cfg, &StructOpts { sizes: true, config: true }, &w.model)?;
        let tree = w.b.snapshot();
        check_eq!(
            w.forest().is_packed(&tree).must("is_packed")?,
            node.packed(),
            "is_packed",
            "is_packed of the tree"
        );
        check_eq!(tree.level(), node.level() as i32, "level", "tree level");
        check_eq!(w.b.level(), node.level() as i32, "level", "builder level");
        check_eq!(tree.count(), w.n(), "count", "tree count");
        check!(node.level() >= 1, "root-level", "the root of a non empty tree must be a branch");
        let (n, l) = node.depth_stats();
        size = (size.0.max(n), size.1.max(l));
        obs.label_if(node.packed(), "packed");
        obs.label_if(!node.packed(), "unpacked");
    }
    obs.label_if(size.1 >= 4, "level>=4");
    obs.nontrivial = size.0 >= 3 && size.1 >= 2;
    Ok(())
}

fn c07(s: &mut Src, obs: &mut Obs) -> R {
    let mut w = World::new(s, obs);
    let mut steps = 0;
    while steps < 1 || (steps < 12 && s.more(5)) {
        steps += 1;
        let step = gen_step_w(s, &w, 100, &[3, 8, 1, 1, 1, 1, 0, 1, 0]);
        apply_step(s, obs, &mut w, &step)?;
    }
    let before = w.snap();
    let index = match w.b.index() {
        Some(i) => i.clone(),
        None => {
            w.pack()?;
            check!(w.b.is_empty(), "empty", "pack of an empty tree");
            return Ok(());
        }
    };
    let node0 = walker::walk(&w.store, &w.secrets, &index, 0)?;
    let was_packed = node0.packed();
    obs.label_if(was_packed, "already packed");
    let puts0 = w.store.with(|x| x.puts.len());
    w.pack()?;
    let puts1 = w.store.with(|x| x.puts.len());
    let tree = w.b.snapshot();
    let node1 = walker::walk(&w.store, &w.secrets, w.b.index().unwrap(), 0)?;
    if was_packed {
        check_eq!(w.b.link(), index.link().clone(), "noop", "pack of a packed tree changed the root");
        check_eq!(puts1, puts0, "noop", "pack of a packed tree wrote blocks");
    }
    check!(w.forest().is_packed(&tree).must("is_packed")?, "packed", "is_packed is false after pack");
    check!(node1.packed(), "packed", "tree is not packed after pack");
    same_content("after pack", &w.forest().collect(&tree).must("collect")?, &w.model, 0)?;
    let cold = forest(&w.store, 0);
    let reloaded: Tr = cold.load_tree(w.secrets.clone(), w.b.link().unwrap()).must("load_tree")?;
    same_content("packed tree reloaded", &cold.collect(&reloaded).must("collect")?, &w.model, 0)?;
    walker::check_structure(&node1, &w.cfg, &StructOpts { sizes: true, config: true }, &w.model)?;
    let msgs = w.forest().check_invariants(&w.b).must("check_invariants")?;
    check!(msgs.is_empty(), "check_invariants", "after pack: {:?}", msgs);
    // all but the last leaf are full
    let leaves = node1.leaves();
    for l in &leaves[..leaves.len() - 1] {
        check!(l.index.sealed, "leaf-not-sealed", "leaf at {} is not sealed after pack", l.start);
    }
    // reuse: the leading run of sealed leaves is not rewritten
    let mut reused = 0;
    let after: HashSet<_> = node1.links();
    for l in node0.leaves() {
        if !l.index.sealed {
            break;
        }
        check!(
            after.contains(&l.link.unwrap()),
            "reuse",
            "sealed leaf at {} was rewritten by pack, although everything before it is sealed",
            l.start
        );
        reused += 1;
    }
    obs.label_if(reused > 0, "reused leaves");
    // idempotent
    let link = w.b.link();
    let puts = w.store.with(|x| x.puts.len());
    w.pack()?;
    check_eq!(w.b.link(), link, "idempotent", "second pack changed the root");
    check_eq!(w.store.with(|x| x.puts.len()), puts, "idempotent", "second pack wrote blocks");
    // the unpacked tree is still there
    verify_snap("tree before pack", w.forest(), &before)?;
    // and the packed one can be extended
    let n = s.usize(1, 10);
    let items = w.items(s, n);
    w.extend(items, s.bool())?;
    same_content("extended after pack", &w.forest().collect(&w.b.snapshot()).must("collect")?, &w.model, 0)?;
    obs.nontrivial = !was_packed;
    Ok(())
}

fn c08(s: &mut Src, obs: &mut Obs) -> R {
    let mut w = World::new(s, obs);
    let mut steps = 0;
    while steps < 1 || (steps < 8 && s.more(4)) {
        steps += 1;
        let step = gen_step_w(s, &w, 200, &[8, 3, 2, 3, 1, 1, 0, 0, 0]);
        apply_step(s, obs, &mut w, &step)?;
    }
    let old = match w.b.index() {
        Some(i) => walker::walk(&w.store, &w.secrets, i, 0)?,
        None => return Ok(()),
    };
    let old_links = old.links();
    let n = w.gen_n(s, 60).max(1);
    let items = w.items(s, n);
    let unpacked = s.chance(1, 3);
    obs.note(|| format!("measured append of {} unpacked={}", n, unpacked));
    w.fresh_txn();
    let puts0 = w.store.with(|x| {
        x.get_log = Some(vec![]);
        x.puts.len()
    });
    w.extend(items, unpacked)?;
    let (gets, puts) = w.store.with(|x| (x.get_log.take().unwrap(), x.puts[puts0..].to_vec()));
    let new = walker::walk(&w.store, &w.secrets, w.b.index().unwrap(), 0)?;
    let new_links = new.links();
    // right edge of the old tree
    let mut edge = HashSet::new();
    let mut cur = &old;
    loop {
        edge.insert(cur.link().unwrap());
        match cur.children().last() {
            Some(c) => cur = c,
            None => break,
        }
    }
    // 1. only blocks on the right edge were read
    for g in &gets {
        check!(edge.contains(g), "reads", "append fetched block {} that is not on the right edge", g);
    }
    if unpacked {
        check!(gets.is_empty(), "reads", "unpacked append fetched {} blocks", gets.len());
    }
    // 2. everything sealed is shared
    let packed = old.packed();
    for node in old.nodes() {
        let must_share = node.sealed() || unpacked || !packed || !edge.contains(&node.link().unwrap());
        if must_share {
            check!(
                new_links.contains(&node.link().unwrap()),
                "sharing",
                "node at {} level {} sealed={} is not shared with the new tree",
                node.start(),
                node.level(),
                node.sealed()
            );
        }
    }
    // 3. only blocks that are part of the new tree were written
    let fresh: HashSet<_> = new_links.difference(&old_links).copied().collect();
    for p in &puts {
        check!(fresh.contains(p), "writes", "append wrote block {} which is not part of the new tree", p);
    }
    check_eq!(puts.len(), fresh.len(), "writes", "number of blocks written vs number of new nodes");
    check!(fresh.contains(&new.link().unwrap()), "writes", "root was not written");
    obs.label_if(packed, "packed before");
    obs.label_if(unpacked, "unpacked append");
    obs.label_if(old.sealed(), "sealed root before");
    obs.nontrivial = old_links.len() >= 3;
    Ok(())
}
