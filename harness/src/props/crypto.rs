//! block format: key stream use, encryption, links
use crate::engine::*;
use crate::model::*;
use crate::walker::{self, Cv, Node};
use crate::{check, check_eq};
use banyan::index::CompactSeq;
use banyan::{Secrets, StreamBuilder, Tree, TreeTypes};
use libipld::{cbor::DagCborCodec, codec::Codec, Cid};
use std::collections::{BTreeSet, HashMap, HashSet};

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C09",
        rule: "random histories of one builder: appends, packs, retains, repairs, dropped transactions, operations that fail at a random put, reloads from the last stored root; the key stream range of every block ever handed to the store (also of failed puts) is recorded. Non-trivial: at least 10 blocks and at least one failed or rolled back operation or reload",
        run: c09,
        quick: 72000,
        thorough: 200000,
        threads: 0,
        regress: &[Regress { name: "reload-after-abort", f: r_reload_after_abort }],
        assumptions: &["one builder per stream: builders that fork from the same root share key stream by design"],
        level: "exploration",
    },
    Prop {
        id: "C10",
        rule: "random histories and secrets; every stored block is decoded and re-encoded by an independent implementation of the format, trees written by that implementation are read by banyan, and trees are read with wrong keys. Non-trivial: at least 3 nodes",
        run: c10,
        quick: 24000,
        thorough: 200000,
        threads: 0,
        regress: &[],
        assumptions: &["ciphertext is not authenticated: accidental acceptance under a wrong key has negligible probability because of the zstd header"],
        level: "exploration",
    },
    Prop {
        id: "C11",
        rule: "random histories with links nested in keys and values; the link section of every block is compared with the links found by an independent cbor parser. Non-trivial: at least 3 nodes and at least one content link",
        run: c11,
        quick: 84000,
        thorough: 200000,
        threads: 0,
        regress: &[],
        assumptions: &["values mark links with tag 42 as dag-cbor requires"],
        level: "exploration",
    },
];

// ---------------------------------------------------------------------------------- C09

#[derive(Default)]
struct Ranges {
    seen: usize,
    /// per key: disjoint ranges, start -> (end, hash of the cipher text)
    by_key: HashMap<bool, std::collections::BTreeMap<u64, (u64, u64)>>,
}

impl Ranges {
    fn update(&mut self, attempts: &[Vec<u8>], secrets: &Secrets) -> R {
        for a in &attempts[self.seen..] {
            let raw = walker::parse_block(a)?;
            let r = raw.range();
            if r.is_empty() {
                continue;
            }
            let same = secrets.index_key() == secrets.value_key();
            // blocks that do not open with either key count for both
            let leaf = walker::open(&raw, secrets.value_key(), &HT_NONCE).is_ok();
            let branch = walker::open(&raw, secrets.index_key(), &HT_NONCE).is_ok();
            let classes: &[bool] = match (same, leaf, branch) {
                (true, _, _) => &[true],
                (_, true, false) => &[true],
                (_, false, true) => &[false],
                _ => &[true, false],
            };
            let h = fnv(&raw.cipher);
            for c in classes {
                let m = self.by_key.entry(*c).or_default();
                let clash = m
                    .range(..r.end)
                    .next_back()
                    .filter(|(_, (end, _))| *end > r.start)
                    .map(|(s, (e, h))| (*s, *e, *h));
                if let Some((s, e, h0)) = clash {
                    if (s, e, h0) == (r.start, r.end, h) {
                        // the very same bytes again
                        continue;
                    }
                    return Err(Fail::new(
                        "keystream-reuse",
                        format!("a block was encrypted with key stream {:?} after {:?} had been used under the same key", r, s..e),
                    ));
                }
                m.insert(r.start, (r.end, h));
            }
        }
        self.seen = attempts.len();
        Ok(())
    }
}

fn c09(s: &mut Src, obs: &mut Obs) -> R {
    let mut w = World::new(s, obs);
    w.store.with(|x| x.attempts = Some(vec![]));
    let mut ranges = Ranges::default();
    let mut steps = 0;
    let mut special = 0;
    let mut failed_or_aborted = 0;
    let mut no_append = false;
    let mut retained = false;
    while steps < 2 || (steps < 14 && s.more(7)) {
        steps += 1;
        let last = w.store.with(|x| x.attempts.as_ref().unwrap().last().map(|b| Link::new(b)));
        let at_root = w.b.link().is_some() && last == w.b.link();
        match s.weighted(&[8, 3, 1, 1, 1]) {
            0 | 1 if no_append => {}
            0 => {
                let weights = if retained { [5, 4, 1, 0, 0, 1, 1, 3, 0] } else { [5, 4, 1, 3, 0, 1, 1, 3, 0] };
                let step = gen_step_w(s, &w, 60, &weights);
                if matches!(step, Step::Rollback(..)) {
                    special += 1;
                    failed_or_aborted += 1;
                }
                apply_step(s, obs, &mut w, &step)?;
            }
            1 => {
                let weights = if retained { [5, 4, 1, 0, 0, 0, 0, 0, 0] } else { [5, 4, 1, 4, 0, 0, 0, 0, 0] };
                let step = gen_step_w(s, &w, 60, &weights);
                let k = s.below(8);
                obs.note(|| format!("fail put {}", k));
                w.store.with(|x| x.fail_put = Plan::Nth(k));
                let n = w.model.len();
                let r = apply_step(s, obs, &mut w, &step);
                w.store.with(|x| x.fail_put = Plan::None);
                if let Err(f) = r {
                    if !f.kind.starts_with("error:") {
                        return Err(f);
                    }
                    w.model.truncate(n);
                    special += 1;
                    failed_or_aborted += 1;
                    obs.label("failed operation");
                }
            }
            2 if at_root => {
                obs.note(|| "reload".into());
                obs.label("reload");
                special += 1;
                w.reload()?;
            }
            3 => {
                let q = gen_query(s, w.n(), w.clock, 1);
                obs.note(|| format!("retain {:?}", q));
                match s.weighted(&[3, 3, 1]) {
                    0 => {
                        retained = true;
                        w.txn.retain(&mut w.b, &q.build()).must("retain")?;
                    }
                    1 => {
                        let k = s.below(4);
                        obs.note(|| format!("fail put {} of it", k));
                        w.store.with(|x| x.fail_put = Plan::Nth(k));
                        if w.txn.retain(&mut w.b, &q.build()).is_err() {
                            special += 1;
                            failed_or_aborted += 1;
                            obs.label("failed retain");
                        } else {
                            retained = true;
                        }
                        w.store.with(|x| x.fail_put = Plan::None);
                    }
                    _ => {
                        obs.note(|| "rolled back".into());
                        let mut tx = w.b.transaction();
                        w.txn.retain(&mut tx, &q.build()).must("retain")?;
                        drop(tx);
                        special += 1;
                        failed_or_aborted += 1;
                    }
                }
            }
            4 if w.b.index().is_some() => {
                // lose a block, repair, see what gets written. A repaired tree must not be extended.
                let links: Vec<Link> = w.store.with(|x| {
                    let mut v = x.puts.clone();
                    v.dedup();
                    v
                });
                let l = *s.pick(&links);
                obs.note(|| format!("lose {} and repair", l));
                w.fresh_txn();
                w.store.with(|x| x.missing.insert(l));
                if s.chance(1, 3) {
                    let k = s.below(3);
                    obs.note(|| format!("fail put {} of it", k));
                    w.store.with(|x| x.fail_put = Plan::Nth(k));
                    match w.txn.repair(&mut w.b) {
                        Ok(report) => no_append |= !report.is_empty(),
                        Err(_) => {
                            failed_or_aborted += 1;
                            obs.label("failed repair");
                        }
                    }
                    w.store.with(|x| x.fail_put = Plan::None);
                }
                let report = w.txn.repair(&mut w.b).must("repair")?;
                w.store.with(|x| x.missing.clear());
                if !report.is_empty() {
                    no_append = true;
                    obs.label("repair");
                }
            }
            _ => {}
        }
        let attempts = w.store.with(|x| std::mem::take(x.attempts.as_mut().unwrap()));
        let r = ranges.update(&attempts, &w.secrets);
        w.store.with(|x| x.attempts = Some(attempts));
        r?;
    }
    obs.label_if(failed_or_aborted > 0, "failed or rolled back");
    obs.nontrivial = ranges.seen >= 10 && special > 0;
    Ok(())
}

/// the blocks of an operation that was rolled back are not accounted for in the stored root, so a builder that is
/// reloaded afterwards uses the same part of the key stream again
fn r_reload_after_abort() -> R {
    let store = HStore::new();
    store.with(|x| x.attempts = Some(vec![]));
    let mut t = txn(&store, 1000);
    let secrets = Secrets::default();
    let mut b: Bld = StreamBuilder::new(banyan::Config::debug(), secrets.clone());
    let item = |i: u64| (HKey { t: i, c: 1, p: String::new(), l: vec![] }, to_val(&[i as u8]));
    t.extend(&mut b, vec![item(1)]).must("extend")?;
    {
        let mut tx = b.transaction();
        t.extend(&mut tx, vec![item(2)]).must("extend")?;
    }
    let mut b: Bld = t
        .load_stream_builder(secrets.clone(), banyan::Config::debug(), b.link().unwrap())
        .must("load_stream_builder")?;
    t.extend(&mut b, vec![item(3)]).must("extend")?;
    let attempts = store.with(|x| x.attempts.take().unwrap());
    Ranges::default().update(&attempts, &secrets)
}

// ---------------------------------------------------------------------------------- C10

fn enc_seq(out: &mut Vec<u8>, n: usize) {
    cb_head(out, 4, n as u64)
}
/// a tuple struct with one field is an array with one element
fn enc_vecseq(out: &mut Vec<u8>, n: usize) {
    enc_seq(out, 1);
    enc_seq(out, n)
}
pub fn enc_key(out: &mut Vec<u8>, k: &HKey) {
    // maps are sorted by key length, then bytewise
    cb_head(out, 5, 4);
    cb_str(out, "c");
    cb_u64(out, k.c as u64);
    cb_str(out, "l");
    enc_seq(out, k.l.len());
    for c in &k.l {
        cb_cid(out, c);
    }
    cb_str(out, "p");
    cb_str(out, &k.p);
    cb_str(out, "t");
    cb_u64(out, k.t);
}
pub fn enc_sum(out: &mut Vec<u8>, k: &HSum) {
    cb_head(out, 5, 5);
    for (n, v) in [("h", k.h), ("n", k.n), ("max", k.max), ("min", k.min), ("cats", k.cats)] {
        cb_str(out, n);
        cb_u64(out, v);
    }
}
pub fn enc_link(out: &mut Vec<u8>, l: Option<Link>) {
    match l {
        Some(l) => cb_cid(out, &Cid::from(l)),
        None => out.push(0xf6),
    }
}
fn enc_bool(out: &mut Vec<u8>, b: bool) {
    out.push(if b { 0xf5 } else { 0xf4 })
}

fn hex(b: &[u8]) -> String {
    b.iter().take(400).map(|x| format!("{:02x}", x)).collect()
}

/// what the independent writer knows about a node
#[derive(Clone, Debug)]
pub struct Made {
    pub link: Option<Link>,
    pub level: u32,
    pub sealed: bool,
    pub count: u64,
    pub keys: Vec<HKey>,
    pub sums: Vec<HSum>,
    pub value_bytes: u64,
    pub key_bytes: u64,
}

impl Made {
    pub fn sum(&self) -> HSum {
        if self.level == 0 {
            HSum::of(self.keys.iter())
        } else {
            self.sums[1..].iter().fold(self.sums[0].clone(), |a, x| a.combine(x))
        }
    }
    /// the serialized index of this node, as it is found in its parent
    pub fn encode(&self) -> Vec<u8> {
        let mut o = vec![];
        if self.level == 0 {
            cb_head(&mut o, 5, 4);
            cb_str(&mut o, "keys");
            enc_vecseq(&mut o, self.keys.len());
            self.keys.iter().for_each(|k| enc_key(&mut o, k));
            cb_str(&mut o, "link");
            enc_link(&mut o, self.link);
            cb_str(&mut o, "sealed");
            enc_bool(&mut o, self.sealed);
            cb_str(&mut o, "value_bytes");
            cb_u64(&mut o, self.value_bytes);
        } else {
            cb_head(&mut o, 5, 7);
            cb_str(&mut o, "link");
            enc_link(&mut o, self.link);
            cb_str(&mut o, "count");
            cb_u64(&mut o, self.count);
            cb_str(&mut o, "level");
            cb_u64(&mut o, self.level as u64);
            cb_str(&mut o, "sealed");
            enc_bool(&mut o, self.sealed);
            cb_str(&mut o, "key_bytes");
            cb_u64(&mut o, self.key_bytes);
            cb_str(&mut o, "summaries");
            enc_vecseq(&mut o, self.sums.len());
            self.sums.iter().for_each(|k| enc_sum(&mut o, k));
            cb_str(&mut o, "value_bytes");
            cb_u64(&mut o, self.value_bytes);
        }
        o
    }
}

pub fn make_block(offset: u64, links: &[Cid], cipher: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    cb_head(&mut o, 4, 3);
    cb_u64(&mut o, offset);
    enc_seq(&mut o, links.len());
    links.iter().for_each(|c| cb_cid(&mut o, c));
    cb_bytes(&mut o, cipher);
    o
}

/// compress, encrypt and store plain items
pub fn store_items(store: &HStore, plain: &[u8], links: &[Cid], key: &[u8], offset: &mut u64, level: i32) -> (Link, u64, u64) {
    let z = zstd::stream::encode_all(plain, level).expect("zstd");
    let c = walker::xor(&z, key, &HT_NONCE, *offset);
    let block = make_block(*offset, links, &c);
    *offset += c.len() as u64;
    (store.put_raw(&block), c.len() as u64, block.len() as u64)
}

/// encrypt and store a compressed block as if a builder had written it
pub fn store_items_linked(store: &HStore, z: &[u8], links: &[Cid], key: &[u8], offset: &mut u64) -> (Link, u64) {
    let c = walker::xor(z, key, &HT_NONCE, *offset);
    let block = make_block(*offset, links, &c);
    *offset += c.len() as u64;
    let link = store.put_raw(&block);
    let len = block.len() as u64;
    store.with(|x| {
        x.puts.push(link);
        if let Some(a) = &mut x.attempts {
            a.push(block);
        }
    });
    (link, len)
}

/// write a tree of arbitrary shape with the independent writer
pub fn make_tree(s: &mut Src, store: &HStore, secrets: &Secrets, items: &[Item], offset: &mut u64, level: i32) -> Made {
    // leaves
    let mut nodes: Vec<Made> = vec![];
    let mut at = 0;
    while at < items.len() {
        let n = s.usize(1, (items.len() - at).min(8));
        let part = &items[at..at + n];
        at += n;
        let mut plain = vec![];
        for (_, v) in part {
            let b: &[u8] = v.as_ref();
            plain.extend_from_slice(b);
        }
        let (link, value_bytes, _) = store_items(store, &plain, &[], secrets.value_key(), offset, level);
        nodes.push(Made {
            link: Some(link),
            level: 0,
            sealed: s.bool(),
            count: n as u64,
            keys: part.iter().map(|x| x.0.clone()).collect(),
            sums: vec![],
            value_bytes,
            key_bytes: 0,
        });
    }
    // combine random runs of neighbours until there is a single branch left
    loop {
        if nodes.len() == 1 && nodes[0].level > 0 {
            return nodes.pop().unwrap();
        }
        // a branch with a single child only now and then, so that this terminates
        let n = if nodes.len() == 1 || s.chance(1, 12) { 1 } else { s.usize(2, nodes.len().min(6)) };
        let from = s.usize(0, nodes.len() - n);
        let cs: Vec<Made> = nodes[from..from + n].to_vec();
        let mut plain = vec![];
        let mut links = vec![];
        for c in &cs {
            plain.extend_from_slice(&c.encode());
            links.extend(c.link.map(Cid::from));
        }
        let (link, _, len) = store_items(store, &plain, &links, secrets.index_key(), offset, level);
        let lv = cs.iter().map(|c| c.level).max().unwrap() + 1;
        let made = Made {
            link: Some(link),
            level: lv,
            sealed: cs.iter().all(|c| c.sealed && c.level + 1 == lv) && s.bool(),
            count: cs.iter().map(|c| c.count).sum(),
            keys: vec![],
            sums: cs.iter().map(|c| c.sum()).collect(),
            value_bytes: cs.iter().map(|c| c.value_bytes).sum(),
            key_bytes: cs.iter().map(|c| c.key_bytes).sum::<u64>() + len,
        };
        nodes.splice(from..from + n, Some(made));
    }
}

pub fn made_of(n: &Node) -> Made {
    Made {
        link: n.link(),
        level: n.level(),
        sealed: n.sealed(),
        count: n.count(),
        keys: match n {
            Node::Leaf(l) => l.index.keys.to_vec(),
            _ => vec![],
        },
        sums: match n {
            Node::Branch(b) => b.index.summaries.to_vec(),
            _ => vec![],
        },
        value_bytes: n.value_bytes(),
        key_bytes: n.key_bytes(),
    }
}

/// same types, other nonce
#[derive(Debug, Clone)]
struct Other;
impl TreeTypes for Other {
    type Key = HKey;
    type Summary = HSum;
    type KeySeq = <HT as TreeTypes>::KeySeq;
    type SummarySeq = <HT as TreeTypes>::SummarySeq;
    type Link = Link;
    const NONCE: &'static [u8; 24] = b"some other nonce, 24 byt";
}

fn c10(s: &mut Src, obs: &mut Obs) -> R {
    if s.chance(1, 4) {
        return foreign_tree(s, obs);
    }
    let mut w = World::new(s, obs);
    let mut steps = 0;
    while steps < 1 || (steps < 6 && s.more(3)) {
        steps += 1;
        let step = gen_step_w(s, &w, 60, &[6, 5, 2, 2, 1, 1, 0, 0, 0]);
        apply_step(s, obs, &mut w, &step)?;
    }
    let index = match w.b.index() {
        Some(i) => i.clone(),
        None => return Ok(()),
    };
    let root = walker::walk(&w.store, &w.secrets, &index, 0)?;
    let nodes = root.nodes();
    obs.nontrivial = nodes.len() >= 3;
    for n in &nodes {
        let raw = n.raw().unwrap();
        let bytes = w.store.raw(&n.link().unwrap()).unwrap();
        check!(
            make_block(raw.offset, &raw.links, &raw.cipher) == bytes.to_vec(),
            "block-encoding",
            "block of node at {} level {} is not the canonical encoding of (offset, links, bytes)",
            n.start(),
            n.level()
        );
        if let Node::Branch(b) = n {
            let plain = walker::open(raw, w.secrets.index_key(), &HT_NONCE).map_err(|e| Fail::new("open", e))?;
            let mut want = vec![];
            for c in b.children.as_ref().unwrap() {
                want.extend_from_slice(&made_of(c).encode());
            }
            check!(
                plain == want,
                "index-encoding",
                "children of the branch at {} level {} are not encoded as specified: {} instead of {}",
                b.start,
                b.index.level,
                hex(&plain),
                hex(&want)
            );
        }
        // never readable with the other key
        let (own, other) = match n {
            Node::Leaf(_) => (w.secrets.value_key(), w.secrets.index_key()),
            Node::Branch(_) => (w.secrets.index_key(), w.secrets.value_key()),
        };
        if own != other {
            check!(walker::open(raw, other, &HT_NONCE).is_err(), "wrong-key-used", "node at {} level {} can be opened with the wrong key", n.start(), n.level());
        }
        // and not in the clear
        if raw.cipher.len() >= 12 {
            check!(walker::unzstd(&raw.cipher).is_err(), "plain", "node at {} is not encrypted", n.start());
        }
    }
    // wrong keys
    let link = w.b.link().unwrap();
    let mut k = s.key32();
    k[0] ^= 0x77;
    let wrong_index = Secrets::new(k.into(), *w.secrets.value_key());
    let wrong_value = Secrets::new(*w.secrets.index_key(), k.into());
    let swapped = Secrets::new(*w.secrets.value_key(), *w.secrets.index_key());
    let cold = forest(&w.store, 1000);
    check!(cold.load_tree::<Val>(wrong_index.clone(), link).is_err(), "wrong-index-key", "load_tree succeeds with a wrong index key");
    check!(
        cold.load_stream_builder::<Val>(wrong_index, w.cfg.clone(), link).is_err(),
        "wrong-index-key",
        "load_stream_builder succeeds with a wrong index key"
    );
    if w.secrets.index_key() != w.secrets.value_key() {
        check!(cold.load_tree::<Val>(swapped, link).is_err(), "wrong-index-key", "load_tree succeeds with swapped keys");
    }
    let f2 = banyan::Forest::<Other, HStore>::new(w.store.clone(), banyan::store::BranchCache::new(1000));
    check!(f2.load_tree::<Val>(w.secrets.clone(), link).is_err(), "wrong-nonce", "load_tree succeeds with another nonce");
    let t: Tree<HT, Val> = cold.load_tree(wrong_value, link).must("load_tree with the index key only")?;
    check_eq!(t.count(), w.n(), "count", "count with the index key only");
    check!(cold.collect(&t).is_err(), "wrong-value-key", "collect succeeds with a wrong value key");
    let o = s.range(0, w.n() - 1);
    check!(cold.get(&t, o).is_err(), "wrong-value-key", "get({}) succeeds with a wrong value key", o);
    let it: Vec<_> = cold.iter_from(&t).take(3).collect();
    check!(it.len() == 1 && it[0].is_err(), "wrong-value-key", "iter_from with a wrong value key does not end with an error");
    // the index alone is accessible
    let nix = cold.iter_index(&t, Qx::All.build()).collect::<anyhow::Result<Vec<_>>>().must("iter_index with the index key only")?.len();
    check_eq!(nix, nodes.len(), "index-only", "index nodes readable with the index key only");
    Ok(())
}

/// trees of any valid shape written by the independent writer are read by banyan
fn foreign_tree(s: &mut Src, obs: &mut Obs) -> R {
    let (cfg, prof) = gen_config(s);
    let secrets = gen_secrets(s);
    let store = HStore::new();
    let n = s.usize(1, 60);
    let mut clock = 0;
    let items = gen_items(s, n, &mut clock, &cfg, &prof);
    let mut offset = match s.weighted(&[3, 1, 1]) {
        0 => 0,
        1 => s.below(1 << 20),
        _ => *s.pick(&[1u64 << 32, (1 << 38) - 100, 1 << 38, (1 << 40) + 7, 1 << 60]),
    };
    let level = s.range(1, 9) as i32;
    obs.note(|| format!("foreign tree of {} items, offset {}, zstd {}", n, offset, level));
    let made = make_tree(s, &store, &secrets, &items, &mut offset, level);
    obs.label("foreign tree");
    obs.nontrivial = n >= 3;
    let f = forest(&store, 1000);
    let tree: Tr = f.load_tree(secrets.clone(), made.link.unwrap()).must("load_tree of a foreign tree")?;
    check_eq!(tree.count(), n as u64, "count", "count of a foreign tree");
    check_eq!(tree.level(), made.level as i32, "level", "level of a foreign tree");
    let model: Vec<ModelItem> = items.iter().cloned().map(Some).collect();
    same_content("foreign tree", &f.collect(&tree).must("collect")?, &model, 0)?;
    let q = gen_query(s, n as u64, clock, 1);
    let got: Vec<_> = f.iter_filtered(&tree, q.build()).collect::<anyhow::Result<_>>().must("iter_filtered")?;
    cmp_triples("iter_filtered on a foreign tree", &got, &triples(&model, &q))?;
    let i = tree.index().unwrap();
    check_eq!(i.value_bytes(), made.value_bytes, "value_bytes", "value_bytes of a foreign tree");
    check_eq!(i.key_bytes(), made.key_bytes, "key_bytes", "key_bytes of a foreign tree");
    // appending to it continues the key stream where the root block ends
    let mut t = txn(&store, 1000);
    let mut b: Bld = t.load_stream_builder(secrets.clone(), cfg.clone(), made.link.unwrap()).must("load_stream_builder")?;
    store.with(|x| x.attempts = Some(vec![]));
    let more = gen_items(s, 2, &mut clock, &cfg, &prof);
    t.extend_unpacked(&mut b, more.clone()).must("extend_unpacked")?;
    let mut model = model;
    model.extend(more.into_iter().map(Some));
    same_content("extended foreign tree", &t.collect(&b.snapshot()).must("collect")?, &model, 0)?;
    let first = store.with(|x| x.attempts.take().unwrap().remove(0));
    check!(
        walker::parse_block(&first)?.offset >= offset,
        "keystream-reuse",
        "block appended to a foreign tree starts at key stream offset {}, but {} is in use",
        walker::parse_block(&first)?.offset,
        offset
    );
    Ok(())
}

// ---------------------------------------------------------------------------------- C11

fn c11(s: &mut Src, obs: &mut Obs) -> R {
    let mut w = World::new(s, obs);
    let mut steps = 0;
    let mut retained = false;
    let mut content_links = false;
    while steps < 1 || (steps < 8 && s.more(4)) {
        steps += 1;
        let step = gen_step_w(s, &w, 40, &[6, 5, 2, if retained { 0 } else { 2 }, 1, 1, 0, 1, 0]);
        apply_step(s, obs, &mut w, &step)?;
        if s.chance(1, 10) && w.b.index().is_some() {
            let q = gen_query(s, w.n(), w.clock, 1);
            obs.note(|| format!("step Retain {:?}", q));
            w.txn.retain(&mut w.b, &q.build()).must("retain")?;
            w.model = w.forest().collect(&w.b.snapshot()).must("collect")?;
            retained = true;
        }
        if s.chance(1, 12) {
            // something that only looks like a link must be rejected
            let mut o = vec![];
            cb_head(&mut o, 6, 42);
            match s.below(3) {
                0 => cb_bytes(&mut o, &[]),
                1 => cb_bytes(&mut o, &[1, 2, 3]),
                _ => cb_bytes(&mut o, &[0, 0xff]),
            }
            let before = w.b.snapshot();
            let r = w.txn.extend_unpacked(&mut w.b, vec![(HKey { t: 1, c: 1, p: String::new(), l: vec![] }, to_val(&o))]);
            check!(r.is_err(), "bad-link", "a value with a malformed link was stored");
            check_eq!(w.b.link(), before.link(), "bad-link", "root after a rejected value");
        }
    }
    let index = match w.b.index() {
        Some(i) => i.clone(),
        None => return Ok(()),
    };
    let root = walker::walk(&w.store, &w.secrets, &index, 0)?;
    let nodes = root.nodes();
    let mut all_content: BTreeSet<Cid> = BTreeSet::new();
    for n in &nodes {
        let raw = match n.raw() {
            Some(r) => r,
            None => continue,
        };
        let key = match n {
            Node::Leaf(_) => w.secrets.value_key(),
            Node::Branch(_) => w.secrets.index_key(),
        };
        let plain = walker::open(raw, key, &HT_NONCE).map_err(|e| Fail::new("open", e))?;
        let mut want = BTreeSet::new();
        for (_, v) in walker::seq(&plain).map_err(|e| Fail::new("seq", e))? {
            walker::cv_links(&v, &mut want);
        }
        let got: BTreeSet<Cid> = raw.links.iter().copied().collect();
        check_eq!(got.len(), raw.links.len(), "duplicate-links", "links of the node at {} level {}", n.start(), n.level());
        check!(
            got == want,
            "links",
            "links of the block of the node at {} level {}: {} in the block, {} in the content; missing {:?}, extra {:?}",
            n.start(),
            n.level(),
            got.len(),
            want.len(),
            want.difference(&got).take(3).collect::<Vec<_>>(),
            got.difference(&want).take(3).collect::<Vec<_>>()
        );
        if let Node::Branch(b) = n {
            for c in b.children.as_ref().unwrap() {
                if let Some(l) = c.link() {
                    check!(got.contains(&Cid::from(l)), "child-link", "link to the child at {} is not exposed", c.start());
                }
            }
        }
        all_content.extend(want);
    }
    // everything can be found without keys
    let mut seen: HashSet<Cid> = HashSet::new();
    let mut todo = vec![Cid::from(index.link().unwrap_or_else(|| Link::new(&[])))];
    if index.link().is_none() {
        return Ok(());
    }
    while let Some(c) = todo.pop() {
        if !seen.insert(c) {
            continue;
        }
        if let Ok(l) = Link::try_from(c) {
            if let Some(b) = w.store.raw(&l) {
                todo.extend(walker::parse_block(&b)?.links);
            }
        }
    }
    for n in &nodes {
        if let Some(l) = n.link() {
            check!(seen.contains(&Cid::from(l)), "closure", "node at {} level {} can not be found without keys", n.start(), n.level());
        }
    }
    for m in w.model.iter().flatten() {
        let mut ls = BTreeSet::new();
        let b: &[u8] = m.1.as_ref();
        for (_, v) in walker::seq(b).map_err(|e| Fail::new("seq", e))? {
            walker::cv_links(&v, &mut ls);
        }
        ls.extend(m.0.l.iter().copied());
        content_links |= !ls.is_empty();
        for l in ls {
            check!(seen.contains(&l), "closure", "content link {} can not be found without keys", l);
        }
    }
    let _: Option<Cv> = None;
    let _ = DagCborCodec.decode::<u64>(&[1]);
    obs.label_if(content_links, "content links");
    obs.nontrivial = nodes.len() >= 3 && content_links;
    Ok(())
}
