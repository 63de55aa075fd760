//! C37 every configuration that is accepted works
use crate::engine::*;
use crate::model::*;
use crate::walker::{self, StructOpts};
use crate::{check, check_eq};
use banyan::Config;
use parking_lot::Mutex;

pub static PROPS: &[Prop] = &[Prop {
    id: "C37",
    rule: "configurations whose fields are drawn from the edges of what is acceptable (0, 1, 2, limits and their neighbours, usize::MAX, all zstd levels), validated and compared with the documented limits; with each accepted one a history of appends whose values have encodings around the limits and whose keys may be megabytes long. Oracle: Vec model read through a cold forest, independent reader for the limits of all nodes, bounded number of blocks. Non-trivial: an accepted config with a field at an edge and a history of at least two appends that wrote at least two leaves, or with an element or node at or beyond its maximum size",
    run: c37,
    quick: 12000,
    thorough: 200000,
    threads: 0,
    regress: &[
        Regress { name: "zero-leaf-count", f: r_zero_leaf_count },
        Regress { name: "branch-too-large-to-read", f: r_large_branch },
    ],
    assumptions: &["configurations that are not accepted by validate are not used"],
    level: "exploration",
}];

const MIB: usize = 1 << 20;

/// zstd encoders of the highest levels take the better part of a gigabyte
static HUGE_LEVEL: Mutex<()> = Mutex::new(());

fn expected(c: &Config) -> bool {
    c.max_summary_branches >= 2
        && c.max_key_branches >= 1
        && c.max_leaf_count >= 1
        && (1..=MIB).contains(&c.target_leaf_size)
        && c.max_uncompressed_leaf_size <= 16 * MIB
        && (1..=22).contains(&c.zstd_level)
}

fn gen_edge_config(s: &mut Src, bad: bool) -> Config {
    let small = |s: &mut Src, lo: usize| match s.weighted(&[6, 2, 1, 1, 1]) {
        0 => s.usize(lo, lo + 4),
        1 => s.usize(lo, 40),
        2 => usize::MAX,
        3 => *s.pick(&[usize::MAX - 1, usize::MAX / 2, u32::MAX as usize, u32::MAX as usize + 1]),
        _ => s.usize(lo, 5000),
    };
    let mut c = Config {
        max_leaf_count: small(s, 1),
        max_key_branches: small(s, 1),
        max_summary_branches: small(s, 2),
        target_leaf_size: match s.weighted(&[2, 2, 2, 2]) {
            0 => 10000,
            1 => s.usize(1, 3),
            2 => s.usize(1, 600),
            _ => MIB - s.usize(0, 1),
        },
        max_uncompressed_leaf_size: match s.weighted(&[3, 3, 2, 2]) {
            0 => 16 * MIB,
            1 => s.usize(20, 400),
            2 => s.usize(0, 20),
            _ => *s.pick(&[16 * MIB - 1, 4 * MIB, 4 * MIB + 1, 4 * MIB - 1, 65536, 8 * MIB]),
        },
        zstd_level: match s.weighted(&[400, 50, 5, 1]) {
            0 => s.usize(1, 3) as i32,
            1 => s.usize(1, 9) as i32,
            2 => s.usize(10, 19) as i32,
            _ => s.usize(20, 22) as i32,
        },
    };
    if bad {
        for _ in 0..s.usize(1, 2) {
            match s.below(6) {
                0 => c.max_leaf_count = s.usize(0, 1),
                1 => c.max_key_branches = s.usize(0, 1),
                2 => c.max_summary_branches = s.usize(0, 2),
                3 => c.target_leaf_size = *s.pick(&[0, 1, MIB, MIB + 1, 16 * MIB, usize::MAX, 1 << 32, (1 << 32) + 5]),
                4 => c.max_uncompressed_leaf_size = *s.pick(&[0, 16 * MIB, 16 * MIB + 1, 17 * MIB, 32 * MIB, usize::MAX, 1 << 32, (1 << 32) + 5]),
                _ => c.zstd_level = *s.pick(&[0, 1, 22, 23, -1, -5, i32::MIN, i32::MAX, 100, -22]),
            }
        }
    }
    c
}

/// a value whose encoding has exactly len bytes, or the closest smaller possible length
fn val_of_len(len: usize, fill: u8) -> Val {
    let mut len = len.max(1);
    loop {
        for h in [1usize, 2, 3, 5, 9] {
            if len < h {
                continue;
            }
            let mut out = vec![];
            cb_head(&mut out, 2, (len - h) as u64);
            if out.len() == h {
                out.resize(len, fill);
                return to_val(&out);
            }
        }
        len -= 1;
    }
}

fn key(t: u64, len: usize) -> HKey {
    HKey { t, c: (t % 7) as u8, p: "k".repeat(len), l: vec![] }
}

/// (values, bytes of keys) of a batch
fn gen_batch(s: &mut Src, w: &mut World, big: bool) -> (Vec<Item>, &'static str) {
    let m = w.cfg.max_uncompressed_leaf_size;
    let mut kind = "";
    if big {
        // a few large elements, at most some tens of megabytes
        let n = s.usize(1, 20);
        let keys = s.bool();
        let klen = if keys { *s.pick(&[100_000, 800_000, MIB, 3 * MIB, 5_500_000, 8 * MIB, 16 * MIB - 200, 16 * MIB, 17 * MIB]) } else { 0 };
        let n = if keys { n.min(40 * MIB / klen) } else { n };
        let items = (0..n)
            .map(|_| {
                w.clock += 1;
                let k = key(w.clock, if keys && s.chance(4, 5) { klen } else { 0 });
                let len = if !keys && s.chance(1, 3) {
                    (*s.pick(&[m, m, m.saturating_sub(1), m + 1, m / 2, m / 2 + 1, m / 3, w.cfg.target_leaf_size])).min(17 * MIB)
                } else {
                    s.usize(1, 30)
                };
                (k, val_of_len(len, s.below(256) as u8))
            })
            .collect();
        return (items, "large");
    }
    let n = match s.weighted(&[4, 3, 2]) {
        0 => s.usize(1, 4),
        1 => s.usize(0, 20),
        _ => {
            let f = w.cfg.max_leaf_count.saturating_mul(w.cfg.max_key_branches);
            let f = if s.bool() { f } else { f.saturating_mul(w.cfg.max_summary_branches) };
            f.saturating_add(s.usize(0, 2)).saturating_sub(1).min(60)
        }
    };
    let items = (0..n)
        .map(|_| {
            let prof = w.prof;
            let k = gen_key(s, &mut w.clock, &prof);
            let t = w.cfg.target_leaf_size;
            let len = match s.weighted(&[12, 3, 2]) {
                0 => s.usize(1, 20.min(m.max(1))),
                1 => (*s.pick(&[m, m, m / 2, m / 2 + 1, m / 3, m.saturating_sub(1)])).min(3000),
                _ => (*s.pick(&[m, t, t + 20, m + 1, m.saturating_sub(20)])).min(3000),
            };
            let v = if s.bool() { val_of_len(len, s.below(256) as u8) } else {
                // not compressible
                let mut out = vec![];
                cb_head(&mut out, 2, 0);
                if len > 9 {
                    out.clear();
                    cb_bytes(&mut out, &s.blob(len - 9));
                }
                to_val(&out)
            };
            if v.as_slice().len() >= m {
                kind = "value of maximum size or more";
            }
            (k, v)
        })
        .collect();
    (items, kind)
}

fn c37(s: &mut Src, obs: &mut Obs) -> R {
    let bad = s.chance(1, 4);
    let cfg = gen_edge_config(s, bad);
    let want = expected(&cfg);
    check_eq!(cfg.validate().is_ok(), want, "validate", "config {}", cfg_str(&cfg));
    if !want {
        obs.label("rejected config");
        return Ok(());
    }
    if cfg.zstd_level > 19 && !s.chance(1, 16) {
        obs.label("zstd level above 19, only validated");
        return Ok(());
    }
    let _lock = if cfg.zstd_level > 19 { Some(HUGE_LEVEL.lock()) } else { None };
    let edge = cfg.max_leaf_count == 1
        || cfg.max_key_branches == 1
        || cfg.max_summary_branches == 2
        || cfg.target_leaf_size <= 2
        || cfg.target_leaf_size >= MIB - 1
        || cfg.max_uncompressed_leaf_size <= 20
        || cfg.max_uncompressed_leaf_size >= 16 * MIB - 1
        || cfg.zstd_level >= 10
        || [cfg.max_leaf_count, cfg.max_key_branches, cfg.max_summary_branches].iter().any(|x| *x > u32::MAX as usize);
    let heavy = cfg.zstd_level > 9;
    let big = !heavy && s.chance(1, 60);
    obs.label_if(heavy, "zstd level above 9");
    obs.label_if(big, "megabytes");
    let mut w = World::with(s, obs, cfg, ValProfile { max_len: 40, big: false, links: true });
    // appends that never end write blocks for ever
    w.store.with(|x| x.fail_put = Plan::From(20_000));
    let m = w.cfg.max_uncompressed_leaf_size;
    let mut at_limit = false;
    let mut key_bytes = 0usize;
    let (mut steps, mut appends) = (0, 0);
    let max = if big || heavy { 3 } else { 10 };
    while steps < 2 || (steps < max && s.more(3)) {
        steps += 1;
        let (mut items, kind) = gen_batch(s, &mut w, big);
        let op = s.below(6);
        if op == 0 {
            items.truncate(1);
        }
        let too_large = items.iter().any(|x| x.1.as_slice().len() > m);
        let kb: usize = items.iter().map(|x| x.0.p.len() + x.0.l.len() * 100 + 300).sum();
        // all keys would fit into a single block, with room to spare
        let fits = key_bytes + kb <= 15 * MIB;
        obs.note(|| {
            format!("step {}: append {} elements, op {}, {} bytes of keys, values up to {}", steps, items.len(), op, kb, items.iter().map(|x| x.1.as_slice().len()).max().unwrap_or(0))
        });
        let before = (w.b.link(), w.b.count(), w.b.level());
        let n0 = w.store.with(|x| x.put_count);
        let it = items.clone();
        let r = match op {
            0 if !items.is_empty() => {
                let (k, v) = items[0].clone();
                w.txn.extend(&mut w.b, Some((k, v)))
            }
            0..=3 => w.txn.extend(&mut w.b, it),
            _ => w.txn.extend_unpacked(&mut w.b, it),
        };
        let used = w.store.with(|x| x.put_count) - n0;
        check!(w.store.with(|x| x.injected) == 0, "runaway", "append of {} elements wrote {} blocks and did not end", items.len(), used);
        match r {
            Ok(()) => {
                check!(!too_large, "oversize-accepted", "a value larger than {} bytes was accepted", m);
                at_limit |= !kind.is_empty() || !fits;
                appends += 1;
                key_bytes += kb;
                w.model.extend(items.into_iter().map(Some));
            }
            Err(e) => {
                check!(too_large || !fits, "append", "append of {} elements failed: {}", items.len(), e);
                obs.label("rejected append");
                at_limit = true;
                w.aborted += 1;
                check_eq!((w.b.link(), w.b.count(), w.b.level()), before, "rollback", "builder after a rejected append");
            }
        }
        if s.chance(1, 5) && fits {
            obs.note(|| "pack".to_string());
            w.pack()?;
        }
        let cold = forest(&w.store, w.cache);
        if let Some(link) = w.b.link() {
            let tree: Tr = cold.load_tree(w.secrets.clone(), link).must("load_tree")?;
            check_eq!(tree.count(), w.n(), "count", "elements of the loaded tree");
            let got = cold.collect(&tree).must("collect")?;
            same_content("loaded tree", &got, &w.model, 0)?;
        }
        if s.chance(1, 3) {
            obs.note(|| "reload".to_string());
            w.reload()?;
        }
    }
    let got = w.forest().collect(&w.b.snapshot()).must("collect")?;
    same_content("at the end", &got, &w.model, 0)?;
    let n = w.n();
    let q = gen_query(s, n, w.clock, 1);
    let got = w.forest().iter_filtered(&w.b.snapshot(), q.build()).collect::<anyhow::Result<Vec<_>>>().must("iter_filtered")?;
    cmp_triples("iter_filtered", &got, &triples(&w.model, &q))?;
    let mut leaves = 0;
    if let Some(i) = w.b.index() {
        let node = walker::walk(&w.store, &w.secrets, i, 0)?;
        walker::check_structure(&node, &w.cfg, &StructOpts { sizes: true, config: true }, &w.model)?;
        leaves = node.leaves().len();
    }
    obs.nontrivial = edge && appends >= 2 && leaves >= 2 || at_limit;
    Ok(())
}

/// a limit of zero elements per leaf was accepted, and appends did not end
fn r_zero_leaf_count() -> R {
    let c = Config { max_leaf_count: 0, zstd_level: 1, ..Config::debug() };
    check!(c.validate().is_err(), "validate", "config {}", cfg_str(&c));
    Ok(())
}

/// an append whose branch is larger than what can be decompressed succeeded, and the tree was lost
fn r_large_branch() -> R {
    let store = HStore::new();
    let mut t = txn(&store, 0);
    let mut b: Bld = banyan::StreamBuilder::debug();
    let v = to_val(&[1]);
    t.extend(&mut b, vec![(key(1, 3), v.clone())]).must("extend")?;
    let mut want = vec![Some((key(1, 3), v.clone()))];
    let items: Vec<Item> = (0..9).map(|i| (key(2 + i, 2 * MIB), v.clone())).collect();
    match t.extend(&mut b, items.clone()) {
        Ok(()) => want.extend(items.into_iter().map(Some)),
        Err(_) => check_eq!(b.count(), 1, "rollback", "elements after a rejected append"),
    }
    let link = b.link().unwrap();
    let f = forest(&store, 0);
    let tree: Tr = f.load_tree(Default::default(), link).must("load_tree")?;
    same_content("loaded tree", &f.collect(&tree).must("collect")?, &want, 0)
}
