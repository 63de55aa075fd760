//! retain, repair, failing writes and failing reads
use super::history::verify_snap;
use super::query::{needed, read_world};
use crate::engine::*;
use crate::model::*;
use crate::walker::{self, Node, StructOpts};
use crate::{check, check_eq};
use banyan::index::{CompactSeq, Index};
use banyan::Secrets;
use futures::executor::block_on;
use futures::StreamExt;
use std::collections::{BTreeSet, HashSet};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C12",
        rule: "random histories in which about a third of the steps retain with a random query expression; the tree is walked independently before and after. Non-trivial: a retain forgot something and kept something",
        run: c12,
        quick: 22500,
        thorough: 200000,
        threads: 0,
        regress: &[],
        assumptions: &["queries whose intersecting() never excludes a subtree with a match"],
        level: "exploration",
    },
    Prop {
        id: "C13",
        rule: "random history (incl. retain), then a random subset of the blocks of the tree is lost (missing, empty, random bytes or cut short), then repair on the live and on a cold transaction. Non-trivial: something lost and something left",
        run: c13,
        quick: 27000,
        thorough: 200000,
        threads: 0,
        regress: &[],
        assumptions: &["lost blocks stay lost during the repair"],
        level: "exploration",
    },
    Prop {
        id: "C14",
        rule: "random history; then operations (extend, extend_unpacked, push, pack, retain, repair, in a transaction or not) that fail at a chosen put or get, on a too large element, or are rolled back; the same operation without the fault on a copy is the reference for the retry. Non-trivial: a fault was hit after at least one put or get of the operation had succeeded",
        run: c14,
        quick: 9000,
        thorough: 200000,
        threads: 0,
        regress: &[Regress { name: "pack-fails-midway", f: r_pack_fails }],
        assumptions: &["a failed put stores nothing"],
        level: "exploration",
    },
    Prop {
        id: "C15",
        rule: "random history (incl. retain), a random subset of blocks unreadable (missing, failing k times, empty, random, cut short, or well formed with an undecodable content), then reads of every kind on cold and warm forests, compared with what an independent walk says is still readable; afterwards the fault is removed and everything is read again. Non-trivial: at least one read failed and at least one succeeded with data",
        run: c15,
        quick: 22500,
        thorough: 200000,
        threads: 0,
        regress: &[Regress { name: "iter-index-after-error", f: r_iter_index }],
        assumptions: &["an unreadable block gives a store error, bytes that are no block at all, or a block without a single decodable item"],
        level: "exploration",
    },
];

// ------------------------------------------------------------------------------------------
// C12

fn c12(s: &mut Src, obs: &mut Obs) -> R {
    let mut w = World::new(s, obs);
    let mut steps = 0;
    let mut retained = false;
    while steps < 2 || (steps < 10 && s.more(5)) {
        steps += 1;
        if w.b.index().is_some() && s.chance(1, 3) {
            retained |= do_retain(s, obs, &mut w)?;
        } else {
            let step = gen_step_w(s, &w, 120, &[6, 5, 2, 2, 2, 1, 1, 1, 0]);
            apply_step(s, obs, &mut w, &step)?;
            obs.label_if(retained && matches!(step, Step::Pack), "pack after retain");
            obs.label_if(retained && matches!(step, Step::Extend(_)), "extend after retain");
            let got = w.forest().collect(&w.b.snapshot()).must("collect")?;
            same_content("after a step", &got, &w.model, 0)?;
        }
    }
    // everything survives a reload
    if let Some(link) = w.b.link() {
        let f = forest(&w.store, gen_cache(s));
        let tree: Tr = f.load_tree(w.secrets.clone(), link).must("load_tree")?;
        same_content("reloaded", &f.collect(&tree).must("collect")?, &w.model, 0)?;
        let o = gen_off(s, w.n());
        check!(
            f.get(&tree, o).must("get")? == w.model.get(o as usize).cloned().flatten(),
            "get",
            "get({}) on the reloaded tree",
            o
        );
        let b: Bld = f.load_stream_builder(w.secrets.clone(), w.cfg.clone(), link).must("load_stream_builder")?;
        same_content("reloaded builder", &f.collect(&b.snapshot()).must("collect")?, &w.model, 0)?;
    }
    Ok(())
}

fn do_retain(s: &mut Src, obs: &mut Obs, w: &mut World) -> R<bool> {
    let q = gen_query(s, w.n(), w.clock, 1);
    obs.note(|| format!("retain {:?}", q));
    let before = w.snap();
    let index0 = w.b.index().unwrap().clone();
    let node0 = walker::walk(&w.store, &w.secrets, &index0, 0)?;
    let puts0 = w.store.with(|x| x.puts.len());
    w.txn.retain(&mut w.b, &q.build()).must("retain")?;
    let puts = w.store.with(|x| x.puts[puts0..].to_vec());
    let tree = w.b.snapshot();
    let index1 = w.b.index().unwrap().clone();
    check_eq!(w.b.count(), w.n(), "count", "count after retain");
    check_eq!(index1.level(), index0.level(), "level", "level after retain");
    check!(index1.summarize() == index0.summarize(), "summary", "summary of the root changed by retain");
    let got = w.forest().collect(&tree).must("collect")?;
    check_eq!(got.len() as u64, w.n(), "count", "number of elements after retain");
    for (o, (g, m)) in got.iter().zip(&w.model).enumerate() {
        match (g, m) {
            (Some(g), Some(m)) => check!(g == m, "changed", "retain changed the element at {}", o),
            (Some(_), None) => return Err(Fail::new("resurrected", format!("retain brought back offset {}", o))),
            (None, Some((k, _))) => {
                check!(!q.matches(o as u64, k), "lost", "retain forgot the matching element at offset {}", o)
            }
            (None, None) => {}
        }
    }
    let mut forgot = 0;
    let packed = node0.packed();
    for l in node0.leaves() {
        if l.link.is_none() {
            continue;
        }
        let n = l.index.keys.len();
        let a = l.start as usize;
        let gone = got[a..a + n].iter().filter(|x| x.is_none()).count();
        check!(gone == 0 || gone == n, "partial", "leaf {}..{} was forgotten only in part", a, a + n);
        let any = l.index.keys.as_ref().iter().enumerate().any(|(i, k)| q.matches((a + i) as u64, k));
        if gone > 0 {
            forgot += n;
            check!(l.index.sealed, "unsealed", "leaf {}..{} was forgotten although it is not full", a, a + n);
        } else if packed && l.index.sealed {
            check!(any, "kept", "full leaf {}..{} of a packed tree was kept without a match", a, a + n);
        }
    }
    // forgotten branches are full, too
    let node1 = walker::walk(&w.store, &w.secrets, &index1, 0)?;
    for n in node1.nodes() {
        check!(n.link().is_some() || n.sealed(), "unsealed", "unsealed node at {} level {} forgotten", n.start(), n.level());
    }
    walker::check_structure(&node1, &w.cfg, &StructOpts { sizes: false, config: false }, &w.model)?;
    // only the path to what was forgotten is rewritten
    let (old, new) = (node0.links(), node1.links());
    let fresh: HashSet<_> = new.difference(&old).copied().collect();
    for p in &puts {
        check!(fresh.contains(p), "writes", "retain wrote a block that is not part of the tree");
    }
    if forgot == 0 && node0.nodes().len() == node1.nodes().len() {
        check!(puts.is_empty() && index0.link() == index1.link(), "noop", "retain without effect rewrote the tree");
    }
    w.model = got;
    // reading what is left
    let cold = forest(&w.store, 0);
    for f in [w.forest(), &cold] {
        let q2 = gen_query(s, w.n(), w.clock, 1);
        let want = triples(&w.model, &q2);
        let got: Vec<_> = f.iter_filtered(&tree, q2.build()).collect::<anyhow::Result<_>>().must("iter_filtered")?;
        cmp_triples("query after retain", &got, &want)?;
        let mut got: Vec<_> =
            f.iter_filtered_reverse(&tree, q2.build()).collect::<anyhow::Result<_>>().must("iter_filtered_reverse")?;
        got.reverse();
        cmp_triples("reverse query after retain", &got, &want)?;
        for _ in 0..3 {
            let o = gen_off(s, w.n());
            check!(
                f.get(&tree, o).must("get")? == w.model.get(o as usize).cloned().flatten(),
                "get",
                "get({}) after retain",
                o
            );
            let got = f.collect_from(&tree, o).must("collect_from")?;
            same_content("collect_from after retain", &got, &w.model, o.min(1 << 40) as usize)?;
        }
    }
    // the old tree is still there
    verify_snap("tree before retain", w.forest(), &before)?;
    let left = w.model.iter().any(|x| x.is_some());
    obs.nontrivial |= forgot > 0 && left;
    obs.label_if(forgot > 0, "forgot something");
    obs.label_if(index1.link().is_none(), "forgot everything");
    obs.label_if(!packed, "not packed");
    obs.label_if(fresh.len() > 1, "rewrote a path");
    Ok(forgot > 0)
}

// ------------------------------------------------------------------------------------------
// damaged blocks

#[derive(Clone, Debug)]
enum Damage {
    Missing,
    Flaky(u32),
    Empty,
    Random(Vec<u8>),
    Cut(usize),
    /// a well formed block with a content that can not be decoded
    Garbled(Vec<u8>),
}

/// the block with another content: no zstd frame, or a zstd frame without a single decodable item
fn garble(s: &mut Src, block: &[u8], key: &[u8]) -> Vec<u8> {
    let raw = walker::parse_block(block).expect("block");
    let data = if s.bool() {
        let mut data = walker::xor(&raw.cipher, key, &HT_NONCE, raw.offset);
        data[0] ^= 0xff;
        data
    } else {
        let plain: &[u8] = *s.pick(&[&[0xffu8][..], &[0x82, 0x01], &[0x1b, 0, 0], &[0x5f]]);
        zstd::stream::encode_all(plain, 0).expect("zstd")
    };
    super::crypto::make_block(raw.offset, &raw.links, &walker::xor(&data, key, &HT_NONCE, raw.offset))
}

fn gen_damage(s: &mut Src, old: &[u8], key: Option<&[u8]>) -> Damage {
    let len = old.len();
    let (flaky, garbled) = if key.is_some() { (3, 2) } else { (0, 0) };
    match s.weighted(&[6, flaky, 1, 1, 1, garbled]) {
        0 => Damage::Missing,
        1 => Damage::Flaky(1 + s.below(3) as u32),
        2 => Damage::Empty,
        3 => {
            let n = s.usize(8, 60);
            Damage::Random(s.blob(n))
        }
        4 => Damage::Cut(s.usize(0, len - 1)),
        _ => Damage::Garbled(garble(s, old, key.expect("key"))),
    }
}

fn inflict(store: &HStore, l: &Link, d: &Damage) {
    store.with(|x| {
        let old = x.blocks[l].clone();
        match d {
            Damage::Missing => {
                x.missing.insert(*l);
            }
            Damage::Flaky(n) => {
                x.flaky.insert(*l, *n);
            }
            Damage::Empty => {
                x.blocks.insert(*l, [][..].into());
            }
            Damage::Random(b) | Damage::Garbled(b) => {
                x.blocks.insert(*l, b[..].into());
            }
            Damage::Cut(n) => {
                x.blocks.insert(*l, old[..*n].into());
            }
        }
    })
}

/// choose blocks to damage: scattered, a whole subtree, or along one path. With secrets, there are also transient
/// failures and blocks that are well formed, but can not be decoded.
fn gen_bad(s: &mut Src, root: &Node, secrets: Option<&Secrets>, store: &HStore) -> Vec<(Link, Damage)> {
    let nodes: Vec<&Node> = root.nodes().into_iter().filter(|n| n.link().is_some()).collect();
    let mut links = BTreeSet::new();
    match s.weighted(&[3, 3, 1, 1]) {
        0 => {
            links.insert(s.below(nodes.len() as u64) as usize);
        }
        1 => {
            for _ in 0..s.usize(1, 6) {
                // prefer nodes that are not the root
                let i = s.below(nodes.len() as u64) as usize;
                links.insert(i);
            }
        }
        2 => {
            let p = s.range(2, 6);
            for i in 0..nodes.len() {
                if s.below(p) == 1 {
                    links.insert(i);
                }
            }
        }
        _ => {}
    }
    links
        .into_iter()
        .map(|i| {
            let l = nodes[i].link().unwrap();
            let key = secrets.map(|x| -> &[u8] {
                if nodes[i].level() == 0 {
                    x.value_key()
                } else {
                    x.index_key()
                }
            });
            (l, gen_damage(s, &store.raw(&l).unwrap(), key))
        })
        .collect()
}

// ------------------------------------------------------------------------------------------
// C13

/// content of the tree when the given blocks are lost, and the topmost lost nodes
fn surviving<'a>(n: &'a Node, bad: &HashSet<Link>, into: &mut Vec<ModelItem>, top: &mut Vec<&'a Node>, model: &[ModelItem]) {
    match n.link() {
        Some(l) if bad.contains(&l) => {
            top.push(n);
            into.extend((0..n.count()).map(|_| None));
        }
        Some(_) => match n {
            Node::Leaf(l) => {
                let a = l.start as usize;
                into.extend(model[a..a + l.index.keys.len()].iter().cloned())
            }
            Node::Branch(_) => n.children().iter().for_each(|c| surviving(c, bad, into, top, model)),
        },
        None => into.extend((0..n.count()).map(|_| None)),
    }
}

fn c13(s: &mut Src, obs: &mut Obs) -> R {
    let mut w = read_world(s, obs, 150)?;
    let index = match w.b.index() {
        Some(i) => i.clone(),
        None => {
            let r = w.txn.repair(&mut w.b).must("repair")?;
            check!(r.is_empty() && w.b.is_empty(), "empty", "repair of an empty tree reported {:?}", r);
            return Ok(());
        }
    };
    let root = walker::walk(&w.store, &w.secrets, &index, 0)?;
    if root.link().is_none() {
        return Ok(());
    }
    if s.bool() {
        obs.label("cold");
        w.fresh_txn();
    } else {
        // warm the cache with everything, repair must not trust it
        w.forest().collect(&w.b.snapshot()).must("collect")?;
    }
    let bad = gen_bad(s, &root, None, &w.store);
    for (l, d) in &bad {
        obs.note(|| format!("lose {} {:?}", l, d));
        inflict(&w.store, l, d);
    }
    let badset: HashSet<Link> = bad.iter().map(|x| x.0).collect();
    let mut want = vec![];
    let mut top = vec![];
    surviving(&root, &badset, &mut want, &mut top, &w.model);
    let puts0 = w.store.with(|x| x.puts.len());
    let report = w.txn.repair(&mut w.b).must("repair")?;
    obs.note(|| format!("report {:?}", report));
    let puts = w.store.with(|x| x.puts[puts0..].to_vec());
    // the report
    let toplinks: HashSet<Link> = top.iter().map(|n| n.link().unwrap()).collect();
    for n in root.nodes() {
        if let Some(l) = n.link() {
            let txt = l.to_string();
            let hit = report.iter().any(|r| r.contains(&txt));
            let expect = toplinks.contains(&l);
            check_eq!(hit, expect, "report", "unreadable node {} level {} reported", l, n.level());
        }
    }
    if top.is_empty() {
        check!(report.is_empty(), "report", "nothing lost, but reported {:?}", report);
        check_eq!(&w.b.link(), index.link(), "noop", "repair without loss changed the root");
        check!(puts.is_empty(), "noop", "repair without loss wrote blocks");
    }
    // the tree
    let tree = w.b.snapshot();
    check_eq!(tree.count(), w.n(), "count", "count after repair");
    let cold = forest(&w.store, gen_cache(s));
    for f in [w.forest(), &cold] {
        same_content("after repair", &f.collect(&tree).must("collect after repair")?, &want, 0)?;
        let q = gen_query(s, w.n(), w.clock, 1);
        let got: Vec<_> = f.iter_filtered(&tree, q.build()).collect::<anyhow::Result<_>>().must("iter_filtered after repair")?;
        cmp_triples("query after repair", &got, &triples(&want, &q))?;
        let o = gen_off(s, w.n());
        check!(f.get(&tree, o).must("get")? == want.get(o as usize).cloned().flatten(), "get", "get({}) after repair", o);
        f.iter_index(&tree, Qx::All.build()).take(10 * root.nodes().len() + 10).collect::<anyhow::Result<Vec<_>>>().must("iter_index after repair")?;
    }
    let node1 = walker::walk(&w.store, &w.secrets, w.b.index().unwrap(), 0)?;
    let mut c = vec![];
    walker::content(&node1, &mut c);
    same_content("independent reader after repair", &c, &want, 0)?;
    walker::check_structure(&node1, &w.cfg, &StructOpts { sizes: false, config: false }, &want)?;
    let fresh = node1.links();
    for p in &puts {
        check!(fresh.contains(p), "writes", "repair wrote a block that is not part of the tree");
    }
    // repairing again
    let link = w.b.link();
    let puts = w.store.with(|x| x.puts.len());
    let again = w.txn.repair(&mut w.b).must("second repair")?;
    check!(again.is_empty(), "again", "second repair reported {:?}", again);
    check_eq!(w.b.link(), link, "again", "second repair changed the root");
    check_eq!(w.store.with(|x| x.puts.len()), puts, "again", "second repair wrote blocks");
    // and from the new root link
    if let Some(link) = link {
        let tree: Tr = cold.load_tree(w.secrets.clone(), link).must("load_tree after repair")?;
        same_content("repaired tree reloaded", &cold.collect(&tree).must("collect")?, &want, 0)?;
    }
    obs.label_if(top.iter().any(|n| n.level() > 0), "lost branch");
    obs.label_if(top.len() > 1, "several losses");
    obs.label_if(top.is_empty(), "no loss");
    obs.nontrivial = !top.is_empty() && want.iter().any(|x| x.is_some());
    Ok(())
}

// ------------------------------------------------------------------------------------------
// C14

#[derive(Clone, Debug)]
enum Op {
    Extend(Vec<Item>),
    Unpacked(Vec<Item>),
    Push(Item),
    Pack,
    Retain(Qx),
    Repair,
}

impl Op {
    fn name(&self) -> &'static str {
        match self {
            Op::Extend(_) => "extend",
            Op::Unpacked(_) => "extend_unpacked",
            Op::Push(_) => "push",
            Op::Pack => "pack",
            Op::Retain(_) => "retain",
            Op::Repair => "repair",
        }
    }
    fn run(&self, t: &mut Txn, b: &mut Bld) -> anyhow::Result<()> {
        match self {
            Op::Extend(x) => t.extend(b, x.clone()),
            Op::Unpacked(x) => t.extend_unpacked(b, x.clone()),
            Op::Push((k, v)) => t.push(b, k.clone(), v.clone()),
            Op::Pack => t.pack(b),
            Op::Retain(q) => t.retain(b, &q.build()),
            Op::Repair => t.repair(b).map(|_| ()),
        }
    }
}

/// shape of a tree, without links and sizes
fn shape(n: &Node) -> Vec<(u64, u64, u32, bool, bool)> {
    n.nodes()
        .iter()
        .map(|n| (n.start(), n.count(), n.level(), n.sealed(), n.link().is_some()))
        .collect()
}

fn unchanged(w: &World, index: &Option<Index<HT>>, what: &str) -> R {
    check_eq!(w.b.count(), w.n(), "count", "{}: count changed", what);
    check_eq!(w.b.link(), index.as_ref().and_then(|x| *x.link()), "root", "{}: root changed", what);
    check_eq!(
        w.b.index().map(|x| (x.level(), x.sealed(), x.value_bytes(), x.key_bytes())),
        index.as_ref().map(|x| (x.level(), x.sealed(), x.value_bytes(), x.key_bytes())),
        "root",
        "{}: statistics changed",
        what
    );
    let got = w.forest().collect(&w.b.snapshot()).must("collect after failure")?;
    same_content(what, &got, &w.model, 0)
}

fn too_large(w: &World, s: &mut Src) -> Val {
    // a byte string that does not fit
    let n = w.cfg.max_uncompressed_leaf_size;
    let mut out = vec![];
    let extra = s.usize(0, 3);
    // head is at most 9 bytes, so that the encoding is longer than n
    let b = s.blob(n + extra);
    cb_bytes(&mut out, &b);
    to_val(&out)
}

fn c14(s: &mut Src, obs: &mut Obs) -> R {
    let mut w = World::new(s, obs);
    let mut steps = 0;
    while steps < 1 || (steps < 6 && s.more(3)) {
        steps += 1;
        let step = gen_step_w(s, &w, 100, &[6, 6, 2, 1, 1, 1, 0, 1, 0]);
        apply_step(s, obs, &mut w, &step)?;
    }
    let mut snaps = vec![w.snap()];
    for _ in 0..s.usize(1, 4) {
        let retained = w.model.iter().any(|x| x.is_none());
        let op = match s.weighted(&[4, 3, 1, 4, 2, 1]) {
            0 | 1 => {
                let n = w.gen_n(s, 80).max(1);
                let items = w.items(s, n);
                if s.bool() {
                    Op::Extend(items)
                } else {
                    Op::Unpacked(items)
                }
            }
            2 => Op::Push(w.items(s, 1).pop().unwrap()),
            3 => Op::Pack,
            4 => Op::Retain(gen_query(s, w.n(), w.clock, 1)),
            _ => Op::Repair,
        };
        obs.note(|| format!("operation {}", op.name()));
        // how it should go: on a copy of everything
        let store2 = w.store.fork();
        if retained && w.b.index().is_some() && w.b.link().is_none() {
            break;
        }
        let (mut t2, _) = txn_bc(&store2, 0);
        let mut b2: Bld = match w.b.link() {
            Some(l) => t2.load_stream_builder(w.secrets.clone(), w.cfg.clone(), l).must("load")?,
            None => banyan::StreamBuilder::new(w.cfg.clone(), w.secrets.clone()),
        };
        // a lost block gives repair something to write
        let mut lost = None;
        if let (Op::Repair, Some(i)) = (&op, w.b.index()) {
            let root = walker::walk(&w.store, &w.secrets, i, 0)?;
            let leaves: Vec<Link> = root.leaves().iter().filter_map(|x| x.link).collect();
            if !leaves.is_empty() {
                let l = *s.pick(&leaves);
                lost = Some(l);
                w.store.with(|x| x.missing.insert(l));
                store2.with(|x| x.missing.insert(l));
            }
        }
        store2.with(|x| x.get_count = 0);
        op.run(&mut t2, &mut b2).must(op.name())?;
        let (puts, gets) = store2.with(|x| (x.put_count, x.get_count));
        let want = t2.collect(&b2.snapshot()).must("collect")?;
        let want_shape = match b2.index() {
            Some(i) if i.link().is_some() => shape(&walker::walk(&store2, &w.secrets, i, 0)?),
            _ => vec![],
        };
        // now with failures
        if s.chance(1, 3) {
            w.fresh_txn();
        }
        let index = w.b.index().cloned();
        for _ in 0..s.usize(1, 3) {
            let in_txn = s.chance(1, 3);
            let mut kind = s.weighted(&[5, 3, 2, 2]);
            // (huge elements are slow)
            if kind == 2 && w.cfg.max_uncompressed_leaf_size > 1 << 20 && !s.chance(1, 20) {
                kind = 0;
            }
            let injected0 = w.store.with(|x| x.injected);
            let (p0, g0) = w.store.with(|x| (x.put_count, x.get_count));
            let mut o2 = op.clone();
            match kind {
                0 if puts > 0 => {
                    let k = s.below(puts);
                    let p = if s.bool() { Plan::Nth(k) } else { Plan::From(k) };
                    obs.note(|| format!("  put fault {:?} of {}", p, puts));
                    w.store.with(|x| x.fail_put = p);
                }
                // for repair a failing read is a lost block
                1 if gets > 0 && !matches!(op, Op::Repair) => {
                    let k = s.below(gets);
                    let p = if s.bool() { Plan::Nth(k) } else { Plan::From(k) };
                    obs.note(|| format!("  get fault {:?} of {}", p, gets));
                    w.store.with(|x| x.fail_get = p);
                }
                2 => {
                    // an element that can never fit, somewhere in the batch
                    let v = too_large(&w, s);
                    match &mut o2 {
                        Op::Extend(x) | Op::Unpacked(x) => {
                            let i = s.below(x.len() as u64) as usize;
                            obs.note(|| format!("  too large element at {} of {}", i, x.len()));
                            x[i].1 = v;
                        }
                        Op::Push(x) => x.1 = v,
                        _ => continue,
                    }
                }
                _ => {}
            }
            let r = if in_txn {
                let mut guard = w.b.transaction();
                let r = o2.run(&mut w.txn, &mut guard);
                // dropped without commit, whether it worked or not
                drop(guard);
                r
            } else if kind == 3 || (kind == 2 && s.bool()) {
                // rolled back although nothing failed
                match if kind == 2 { 0 } else { s.weighted(&[3, 1, 1, 1]) } {
                    0 => {
                        let mut guard = w.b.transaction();
                        let r = o2.run(&mut w.txn, &mut guard);
                        if kind == 2 && r.is_ok() {
                            guard.commit();
                        }
                        r
                    }
                    1 => {
                        obs.label("nested, committed, outer rolled back");
                        let mut guard = w.b.transaction();
                        let mut inner = guard.transaction();
                        let r = o2.run(&mut w.txn, &mut inner);
                        inner.commit();
                        drop(guard);
                        r
                    }
                    2 => {
                        obs.label("nested, rolled back, outer committed");
                        let mut guard = w.b.transaction();
                        let inner0 = guard.link();
                        let mut inner = guard.transaction();
                        let r = o2.run(&mut w.txn, &mut inner);
                        drop(inner);
                        check_eq!(guard.link(), inner0, "nested", "root after the inner transaction was rolled back");
                        guard.commit();
                        r
                    }
                    _ => {
                        obs.label("panic in a transaction");
                        let mut out = Ok(());
                        let (b, txn) = (&mut w.b, &mut w.txn);
                        let o = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            let mut guard = b.transaction();
                            out = o2.run(txn, &mut guard);
                            std::panic::panic_any("something else went wrong in the transaction");
                        }));
                        check!(o.is_err(), "panic", "no panic");
                        out
                    }
                }
            } else {
                o2.run(&mut w.txn, &mut w.b)
            };
            let (injected, p1, g1) = w.store.with(|x| {
                x.fail_put = Plan::None;
                x.fail_get = Plan::None;
                (x.injected - injected0, x.put_count - p0, x.get_count - g0)
            });
            match r {
                Err(e) => {
                    obs.note(|| format!("  failed: {}", e));
                    check!(injected > 0 || kind == 2, "error", "{} failed without a fault: {}", op.name(), e);
                    obs.nontrivial |= p1 + g1 > 1;
                    obs.label(match &op {
                        Op::Extend(_) => "failed extend",
                        Op::Unpacked(_) => "failed extend_unpacked",
                        Op::Push(_) => "failed push",
                        Op::Pack => "failed pack",
                        Op::Retain(_) => "failed retain",
                        Op::Repair => "failed repair",
                    });
                }
                Ok(()) => {
                    check!(kind != 2, "too-large", "{} accepted an element that is too large", op.name());
                    if !in_txn && kind != 3 {
                        // the fault did not hit (e.g. the read was served from the cache): this was the real thing
                        let rep_ok = matches!(op, Op::Repair) && lost.is_some();
                        check!(injected == 0 || rep_ok, "swallowed", "{} swallowed a fault", op.name());
                        w.b.index().map(|_| ());
                        w.model = want.clone();
                        break;
                    }
                    obs.label("rolled back");
                }
            }
            if let Some(l) = lost {
                w.store.with(|x| x.missing.remove(&l));
            }
            unchanged(&w, &index, &format!("after failed {}", op.name()))?;
            if let Some(l) = lost {
                w.store.with(|x| x.missing.insert(l));
            }
            for sn in &snaps {
                if lost.is_none() {
                    verify_snap("earlier snapshot after failure", w.forest(), sn)?;
                }
            }
        }
        if w.b.link() == index.as_ref().and_then(|x| *x.link()) {
            // try again, without the fault
            let r = if s.bool() {
                let mut guard = w.b.transaction();
                let r = op.run(&mut w.txn, &mut guard);
                guard.commit();
                r
            } else {
                op.run(&mut w.txn, &mut w.b)
            };
            r.must("retry")?;
            w.model = want.clone();
        }
        let got = w.forest().collect(&w.b.snapshot()).must("collect after retry")?;
        same_content("after retry", &got, &want, 0)?;
        if let Some(i) = w.b.index() {
            if i.link().is_some() {
                let n = walker::walk(&w.store, &w.secrets, i, 0)?;
                let sh = shape(&n);
                check_eq!(sh, want_shape, "shape", "shape of the tree after retry of {}", op.name());
            }
        }
        if let Some(l) = lost {
            w.store.with(|x| x.missing.remove(&l));
            // the repaired tree may not be safe to append to
            break;
        }
        snaps.push(w.snap());
    }
    for sn in &snaps {
        verify_snap("snapshot at the end", &forest(&w.store, 0), sn)?;
    }
    Ok(())
}

/// pack fails after it has already replaced the root
fn r_pack_fails() -> R {
    let cfg = banyan::Config { max_leaf_count: 2, ..banyan::Config::debug() };
    let store = HStore::new();
    let mut t = txn(&store, 0);
    let mut b: Bld = banyan::StreamBuilder::new(cfg, Default::default());
    let mut model: Vec<ModelItem> = vec![];
    for i in 0..5u64 {
        let k = HKey { t: i, c: 1, p: String::new(), l: vec![] };
        let v = to_val(&[i as u8]);
        model.push(Some((k.clone(), v.clone())));
        t.extend_unpacked(&mut b, vec![(k, v)]).must("extend_unpacked")?;
    }
    let link = b.link();
    for k in 0..20 {
        store.with(|x| x.fail_put = Plan::Nth(k));
        let r = t.pack(&mut b);
        store.with(|x| x.fail_put = Plan::None);
        if r.is_ok() {
            return Ok(());
        }
        check_eq!(b.link(), link, "root", "failed pack changed the root");
        same_content("after failed pack", &t.collect(&b.snapshot()).must("collect")?, &model, 0)?;
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------
// C15

/// index iteration over a tree with an unreadable branch
fn r_iter_index() -> R {
    let store = HStore::new();
    let mut t = txn(&store, 0);
    let mut b: Bld = banyan::StreamBuilder::debug();
    for i in 0..5u64 {
        let k = HKey { t: i, c: 1, p: String::new(), l: vec![] };
        t.extend_unpacked(&mut b, vec![(k, to_val(&[1]))]).must("extend_unpacked")?;
    }
    let tree = b.snapshot();
    store.with(|x| x.missing.insert(tree.link().unwrap()));
    for (what, n) in [
        ("iter_index", t.iter_index(&tree, Qx::All.build()).take(5).count()),
        ("iter_index_reverse", t.iter_index_reverse(&tree, Qx::All.build()).take(5).count()),
    ] {
        check_eq!(n, 1, "after-error", "{}: number of results", what);
    }
    Ok(())
}

struct Ctx<'a> {
    w: &'a World,
    root: &'a Node,
    bad: HashSet<Link>,
    tree: Tr,
    /// nothing is cached, so unreadable blocks must show
    cold: bool,
}

#[derive(Default)]
struct Seen {
    failed: u32,
    worked: u32,
}

impl<'a> Ctx<'a> {
    fn bad_in(&self, links: &HashSet<Link>) -> bool {
        links.iter().any(|l| self.bad.contains(l))
    }
    fn overlapping(&self, from: u64, to: u64) -> HashSet<Link> {
        self.root
            .nodes()
            .iter()
            .filter(|n| from < n.start() + n.count() && to > n.start())
            .filter_map(|n| n.link())
            .collect()
    }
    /// judge a read that returns everything at once
    fn verdict<T>(&self, what: &str, r: anyhow::Result<T>, links: &HashSet<Link>, seen: &mut Seen) -> R<Option<T>> {
        match r {
            Ok(x) => {
                check!(
                    !(self.cold && self.bad_in(links)),
                    "swallowed",
                    "{} succeeded although it needs an unreadable block",
                    what
                );
                seen.worked += 1;
                Ok(Some(x))
            }
            Err(e) => {
                check!(self.bad_in(links), "spurious", "{} failed although all blocks it needs are readable: {}", what, e);
                seen.failed += 1;
                Ok(None)
            }
        }
    }
    /// judge an incremental read
    fn incremental(&self, what: &str, q: &Qx, rev: bool, items: Vec<anyhow::Result<(u64, HKey, Val)>>, seen: &mut Seen) -> R {
        let mut want = triples(&self.w.model, q);
        if rev {
            want.reverse();
        }
        let n = items.len();
        let mut got = vec![];
        let mut err = None;
        for (i, x) in items.into_iter().enumerate() {
            match x {
                Ok(x) => got.push(x),
                Err(e) => {
                    check!(i + 1 == n, "after-error", "{} continues after an error", what);
                    err = Some(e);
                }
            }
        }
        let mut links = HashSet::new();
        let mut visited = vec![];
        needed(q, self.root, &mut visited, &mut links);
        match err {
            None => {
                cmp_triples(what, &got, &want)?;
                check!(!(self.cold && self.bad_in(&links)), "swallowed", "{} ended without error although it needs an unreadable block", what);
                seen.worked += (!got.is_empty()) as u32;
            }
            Some(e) => {
                check!(self.bad_in(&links), "spurious", "{} failed although all blocks it needs are readable: {}", what, e);
                check!(got.len() <= want.len(), "results", "{}: {} results before the error, {} in total", what, got.len(), want.len());
                cmp_triples(&format!("{} (before the error)", what), &got, &want[..got.len()])?;
                // everything in front of the first unreadable block it needs has been delivered
                let bad = visited.iter().filter(|n| n.link().map(|l| links.contains(&l) && self.bad.contains(&l)).unwrap_or(false));
                let due = if rev {
                    let p = bad.map(|n| n.start() + n.count()).max().unwrap();
                    want.iter().filter(|x| x.0 >= p).count()
                } else {
                    let p = bad.map(|n| n.start()).min().unwrap();
                    want.iter().filter(|x| x.0 < p).count()
                };
                check!(got.len() >= due, "early", "{}: only {} results before the error, {} lie in front of the first unreadable block", what, got.len(), due);
                seen.failed += 1;
                seen.worked += (!got.is_empty()) as u32;
            }
        }
        Ok(())
    }
    fn read(&self, s: &mut Src, obs: &mut Obs, f: &Fst, seen: &mut Seen) -> R {
        let w = self.w;
        let n = w.n();
        match s.weighted(&[3, 2, 4, 3, 2, 1, 1, 1]) {
            0 => {
                let o = gen_off(s, n);
                obs.note(|| format!("get {}", o));
                let links = if o < n { self.overlapping(o, o + 1) } else { HashSet::new() };
                if let Some(x) = self.verdict("get", f.get(&self.tree, o), &links, seen)? {
                    check!(x == w.model.get(o as usize).cloned().flatten(), "get", "get({}) returned something else", o);
                }
            }
            1 => {
                let o = gen_off(s, n);
                obs.note(|| format!("collect_from {}", o));
                let links = self.overlapping(o, u64::MAX);
                if let Some(x) = self.verdict("collect_from", f.collect_from(&self.tree, o), &links, seen)? {
                    same_content("collect_from", &x, &w.model, o.min(1 << 40) as usize)?;
                }
            }
            2 => {
                let q = gen_query(s, n, w.clock, 0);
                let max = w.model.len() + 3;
                let b = q.build();
                let (what, rev, items): (_, _, Vec<_>) = match s.below(3) {
                    0 => ("iter_filtered", false, f.iter_filtered(&self.tree, b).take(max).collect()),
                    1 => ("iter_filtered_reverse", true, f.iter_filtered_reverse(&self.tree, b).take(max).collect()),
                    _ => ("stream_filtered", false, block_on(f.stream_filtered(&self.tree, b).take(max).collect())),
                };
                obs.note(|| format!("{} {:?}", what, q));
                self.incremental(what, &q, rev, items, seen)?;
            }
            3 => {
                let q = gen_query(s, n, w.clock, 0);
                let max = self.root.nodes().len() + 3;
                let b = q.build();
                let (what, rev, chunks): (_, _, Vec<_>) = match s.below(4) {
                    0 => ("iter_filtered_chunked", false, f.iter_filtered_chunked(&self.tree, b, &|_| ()).take(max).collect()),
                    1 => ("iter_filtered_chunked_reverse", true, f.iter_filtered_chunked_reverse(&self.tree, b, &|_| ()).take(max).collect()),
                    2 => ("stream_filtered_chunked", false, block_on(f.stream_filtered_chunked(&self.tree, b, &|_| ()).take(max).collect())),
                    _ => ("stream_filtered_chunked_reverse", true, block_on(f.stream_filtered_chunked_reverse(&self.tree, b, &|_| ()).take(max).collect())),
                };
                obs.note(|| format!("{} {:?}", what, q));
                let mut items = vec![];
                let mut at = if rev { n } else { 0 };
                for c in chunks {
                    match c {
                        Ok(c) => {
                            let (a, b) = if rev { (c.range.end, c.range.start) } else { (c.range.start, c.range.end) };
                            check_eq!(a, at, "tiling", "{}: chunk {:?}", what, c.range);
                            at = b;
                            let mut d = c.data;
                            if rev {
                                d.reverse();
                            }
                            items.extend(d.into_iter().map(Ok));
                        }
                        Err(e) => items.push(Err(e)),
                    }
                }
                self.incremental(what, &q, rev, items, seen)?;
            }
            4 => {
                let q = gen_query(s, n, w.clock, 0);
                let rev = s.bool();
                let mut visited = vec![];
                needed(&q, self.root, &mut visited, &mut HashSet::new());
                let links: HashSet<Link> = visited.iter().filter(|n| n.level() > 0).filter_map(|n| n.link()).collect();
                let max = self.root.nodes().len() + 5;
                let what = if rev { "iter_index_reverse" } else { "iter_index" };
                obs.note(|| format!("{} {:?}", what, q));
                let items: Vec<_> = if rev {
                    f.iter_index_reverse(&self.tree, q.build()).take(max).collect()
                } else {
                    f.iter_index(&self.tree, q.build()).take(max).collect()
                };
                let k = items.len();
                let failed = items.iter().position(|x| x.is_err());
                if let Some(p) = failed {
                    check!(p + 1 == k, "after-error", "{} continues after an error", what);
                }
                let valid: HashSet<(Option<Link>, u64, u32)> = self.root.nodes().iter().map(|n| (n.link(), n.count(), n.level())).collect();
                for i in items.iter().flatten() {
                    check!(valid.contains(&(*i.link(), i.count(), i.level())), "results", "{} returned an index that is not in the tree", what);
                }
                let r = match items.into_iter().collect::<anyhow::Result<Vec<_>>>() {
                    Ok(x) => {
                        check_eq!(x.len(), visited.len(), "results", "{}: number of nodes", what);
                        Ok(())
                    }
                    Err(e) => Err(e),
                };
                self.verdict(what, r, &links, seen)?;
            }
            5 => {
                let mut links = HashSet::new();
                let mut chain = vec![self.root];
                let mut cur = self.root;
                while let Some(c) = cur.children().first() {
                    links.extend(cur.link());
                    chain.push(c);
                    cur = c;
                }
                obs.note(|| "left_roots".into());
                if let Some(x) = self.verdict("left_roots", f.left_roots(&self.tree), &links, seen)? {
                    check_eq!(x.len(), chain.len(), "results", "left_roots");
                }
            }
            6 => {
                let links: HashSet<Link> = self.root.nodes().iter().filter(|n| n.level() > 0).filter_map(|n| n.link()).collect();
                obs.note(|| "dump_graph".into());
                if let Some((_, nodes)) = self.verdict("dump_graph", f.dump_graph(&self.tree, |_| ()), &links, seen)? {
                    check_eq!(nodes.len(), self.root.nodes().len(), "results", "dump_graph");
                }
            }
            _ => {
                if let Some(l) = self.root.link() {
                    let links: HashSet<Link> = Some(l).into_iter().collect();
                    obs.note(|| "load".into());
                    // loading a root never uses the cache
                    let r: anyhow::Result<Tr> = f.load_tree(w.secrets.clone(), l);
                    check_eq!(r.is_err(), self.bad.contains(&l), "load_tree", "load_tree failed");
                    if let Some(t) = self.verdict("load_tree", r, &links, seen)? {
                        check_eq!(t.count(), n, "results", "count of loaded tree");
                    }
                    let r: anyhow::Result<Bld> = f.load_stream_builder(w.secrets.clone(), w.cfg.clone(), l);
                    check_eq!(r.is_err(), self.bad.contains(&l), "load_stream_builder", "load_stream_builder failed");
                }
            }
        }
        Ok(())
    }
}

fn c15(s: &mut Src, obs: &mut Obs) -> R {
    let w = read_world(s, obs, 150)?;
    let index = match w.b.index() {
        Some(i) => i.clone(),
        None => return Ok(()),
    };
    let root = walker::walk(&w.store, &w.secrets, &index, 0)?;
    if root.link().is_none() {
        return Ok(());
    }
    let healthy = w.store.with(|x| x.blocks.clone());
    let bad = gen_bad(s, &root, Some(&w.secrets), &w.store);
    for (l, d) in &bad {
        let n = root.nodes().iter().find(|n| n.link() == Some(*l)).map(|n| (n.start(), n.level()));
        obs.note(|| format!("unreadable {:?} {} {:?}", n, l, d));
        inflict(&w.store, l, d);
    }
    let transient = bad.iter().any(|x| matches!(x.1, Damage::Flaky(_)));
    obs.label_if(transient, "transient failures");
    obs.label_if(bad.iter().any(|x| !matches!(x.1, Damage::Flaky(_) | Damage::Missing)), "garbage blocks");
    obs.label_if(bad.iter().any(|x| matches!(x.1, Damage::Garbled(_))), "undecodable blocks");
    let mut ctx = Ctx {
        w: &w,
        root: &root,
        bad: bad.iter().map(|x| x.0).collect(),
        tree: w.b.snapshot(),
        cold: true,
    };
    let mut seen = Seen::default();
    if transient {
        // failures that go away by themselves: a read either works or fails, and works in the end
        ctx.cold = false;
        let f = forest(&w.store, gen_cache(s));
        for _ in 0..s.usize(1, 5) {
            // loading the root twice in one read would make a flaky root ambiguous
            let before = w.store.with(|x| x.flaky.clone());
            let r = ctx.read_transient(s, obs, &f, &mut seen);
            let after = w.store.with(|x| x.flaky.clone());
            r?;
            obs.label_if(before != after, "hit a transient failure");
        }
    } else {
        let cold = forest(&w.store, 0);
        for _ in 0..s.usize(2, 6) {
            ctx.read(s, obs, &cold, &mut seen)?;
        }
        obs.label_if(seen.failed > 0, "failed read");
        // a warm cache may hide failures, but nothing else
        ctx.cold = false;
        for _ in 0..s.usize(1, 4) {
            ctx.read(s, obs, w.forest(), &mut seen)?;
        }
        // a forest that caches, and has seen failures
        let f = forest(&w.store, 1 << 20);
        ctx.cold = true;
        ctx.read(s, obs, &f, &mut seen)?;
        ctx.read(s, obs, &f, &mut seen)?;
        // heal
        w.store.with(|x| {
            x.missing.clear();
            x.flaky.clear();
            x.blocks = healthy;
        });
        ctx.bad.clear();
        for f in [&cold, &f, w.forest()] {
            let got = f.collect(&ctx.tree).must("collect after the fault is gone")?;
            same_content("after the fault is gone", &got, &w.model, 0)?;
            for _ in 0..s.usize(1, 3) {
                ctx.read(s, obs, f, &mut Seen::default())?;
            }
        }
    }
    obs.nontrivial = seen.failed > 0 && seen.worked > 0;
    Ok(())
}

impl<'a> Ctx<'a> {
    fn read_transient(&self, s: &mut Src, obs: &mut Obs, f: &Fst, seen: &mut Seen) -> R {
        let w = self.w;
        let n = w.n();
        let q = gen_query(s, n, w.clock, 0);
        let what = s.below(4);
        let o = gen_off(s, n);
        for attempt in 0..50 {
            check!(attempt < 40, "transient", "read still fails after all transient failures are over");
            let injected = w.store.with(|x| x.injected);
            let r: anyhow::Result<()> = match what {
                0 => match f.get(&self.tree, o) {
                    Ok(x) => {
                        check!(x == w.model.get(o as usize).cloned().flatten(), "get", "get({}) returned something else", o);
                        Ok(())
                    }
                    Err(e) => Err(e),
                },
                1 => match f.collect_from(&self.tree, o) {
                    Ok(x) => {
                        same_content("collect_from", &x, &w.model, o.min(1 << 40) as usize)?;
                        Ok(())
                    }
                    Err(e) => Err(e),
                },
                k => {
                    let rev = k == 2;
                    let max = w.model.len() + 3;
                    let items: Vec<_> = if rev {
                        f.iter_filtered_reverse(&self.tree, q.build()).take(max).collect()
                    } else {
                        f.iter_filtered(&self.tree, q.build()).take(max).collect()
                    };
                    let failed = items.iter().any(|x| x.is_err());
                    // a failure that is over by the time it is needed again shows up once
                    let mut got = vec![];
                    let k = items.len();
                    for (i, x) in items.into_iter().enumerate() {
                        match x {
                            Ok(x) => got.push(x),
                            Err(_) => check!(i + 1 == k, "after-error", "iteration continues after an error"),
                        }
                    }
                    let mut want = triples(&w.model, &q);
                    if rev {
                        want.reverse();
                    }
                    if failed {
                        check!(got.len() <= want.len(), "results", "too many results before the error");
                        cmp_triples("before the error", &got, &want[..got.len()])?;
                        Err(anyhow::anyhow!("failed"))
                    } else {
                        cmp_triples("query", &got, &want)?;
                        Ok(())
                    }
                }
            };
            match r {
                Ok(()) => {
                    obs.note(|| format!("transient read {} worked at attempt {}", what, attempt));
                    seen.worked += 1;
                    // persistent damage is not part of this scenario
                    return Ok(());
                }
                Err(e) => {
                    seen.failed += 1;
                    // garbage and missing blocks stay
                    if w.store.with(|x| x.injected) == injected {
                        check!(self.persistent(), "transient", "read fails although the failure is over: {}", e);
                        return Ok(());
                    }
                    if attempt >= 20 && self.persistent() {
                        return Ok(());
                    }
                }
            }
        }
        Ok(())
    }
    fn persistent(&self) -> bool {
        let root = self.root;
        self.w.store.with(|x| {
            self.bad.iter().any(|l| x.missing.contains(l)) || root.nodes().iter().filter_map(|n| n.link()).any(|l| x.blocks[&l].len() < 8 || !self.intact(&l, &x.blocks[&l]))
        })
    }
    fn intact(&self, l: &Link, b: &[u8]) -> bool {
        Link::new(b) == *l
    }
}
