//! Independent reader for the persistent format: parses blocks with a small CBOR parser of its
//! own, decrypts with the cipher primitive, decompresses with the zstd primitive, and walks trees.
use crate::engine::*;
use crate::model::*;
use crate::{check, check_eq, fail};
use banyan::{
    index::{BranchIndex, CompactSeq, Index, LeafIndex, Summarizable},
    Config, Secrets,
};
use chacha20::cipher::{NewCipher, StreamCipher, StreamCipherSeek};
use chacha20::XChaCha20;
use libipld::{cbor::DagCborCodec, codec::Codec, Cid};
use std::collections::BTreeSet;
use std::sync::Arc;

// ---------------------------------------------------------------- mini cbor
#[derive(Clone, Debug, PartialEq)]
pub enum Cv {
    U(u64),
    N(u64),
    B(Vec<u8>),
    T(String),
    A(Vec<Cv>),
    M(Vec<(Cv, Cv)>),
    Tag(u64, Box<Cv>),
    Simple(u8),
    Float(u64),
}

pub struct P<'a> {
    pub b: &'a [u8],
    pub i: usize,
}

impl<'a> P<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        P { b, i: 0 }
    }
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.b.len() - self.i < n {
            return Err("eof".into());
        }
        let r = &self.b[self.i..self.i + n];
        self.i += n;
        Ok(r)
    }
    fn arg(&mut self, low: u8) -> Result<u64, String> {
        Ok(match low {
            0..=23 => low as u64,
            24 => self.take(1)?[0] as u64,
            25 => u16::from_be_bytes(self.take(2)?.try_into().unwrap()) as u64,
            26 => u32::from_be_bytes(self.take(4)?.try_into().unwrap()) as u64,
            27 => u64::from_be_bytes(self.take(8)?.try_into().unwrap()),
            _ => return Err("indefinite or reserved".into()),
        })
    }
    pub fn item(&mut self) -> Result<Cv, String> {
        let h = self.take(1)?[0];
        let (major, low) = (h >> 5, h & 31);
        if major == 7 {
            return Ok(match low {
                0..=23 => Cv::Simple(low),
                24 => Cv::Simple(self.take(1)?[0]),
                25 => Cv::Float(u16::from_be_bytes(self.take(2)?.try_into().unwrap()) as u64),
                26 => Cv::Float(u32::from_be_bytes(self.take(4)?.try_into().unwrap()) as u64),
                27 => Cv::Float(u64::from_be_bytes(self.take(8)?.try_into().unwrap())),
                _ => return Err("bad simple".into()),
            });
        }
        let n = self.arg(low)?;
        Ok(match major {
            0 => Cv::U(n),
            1 => Cv::N(n),
            2 => Cv::B(self.take(n as usize)?.to_vec()),
            3 => Cv::T(
                std::str::from_utf8(self.take(n as usize)?)
                    .map_err(|e| e.to_string())?
                    .to_string(),
            ),
            4 => {
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.item()?);
                }
                Cv::A(v)
            }
            5 => {
                let mut v = vec![];
                for _ in 0..n {
                    let k = self.item()?;
                    v.push((k, self.item()?));
                }
                Cv::M(v)
            }
            _ => Cv::Tag(n, Box::new(self.item()?)),
        })
    }
}

pub fn cv_cid(v: &Cv) -> Result<Cid, String> {
    if let Cv::Tag(42, x) = v {
        if let Cv::B(b) = &**x {
            if b.first() == Some(&0) {
                return Cid::read_bytes(&b[1..]).map_err(|e| e.to_string());
            }
        }
    }
    Err("not a link".into())
}

pub fn cv_links(v: &Cv, into: &mut BTreeSet<Cid>) {
    match v {
        Cv::Tag(42, x) => match cv_cid(v) {
            Ok(c) => {
                into.insert(c);
            }
            Err(_) => cv_links(x, into),
        },
        Cv::Tag(_, x) => cv_links(x, into),
        Cv::A(xs) => xs.iter().for_each(|x| cv_links(x, into)),
        Cv::M(xs) => xs.iter().for_each(|(a, b)| {
            cv_links(a, into);
            cv_links(b, into)
        }),
        _ => {}
    }
}

/// the items of a cbor sequence: (raw bytes, parsed)
pub fn seq(bytes: &[u8]) -> Result<Vec<(Vec<u8>, Cv)>, String> {
    let mut p = P::new(bytes);
    let mut res = vec![];
    while p.i < bytes.len() {
        let s = p.i;
        let v = p.item()?;
        res.push((bytes[s..p.i].to_vec(), v));
    }
    Ok(res)
}

// ---------------------------------------------------------------- blocks
#[derive(Debug, Clone)]
pub struct Raw {
    pub offset: u64,
    pub links: Vec<Cid>,
    pub cipher: Vec<u8>,
    pub len: usize,
}

impl Raw {
    pub fn range(&self) -> std::ops::Range<u64> {
        self.offset..self.offset + self.cipher.len() as u64
    }
}

pub fn parse_block(bytes: &[u8]) -> R<Raw> {
    let mut p = P::new(bytes);
    let v = p
        .item()
        .map_err(|e| Fail::new("block-format", format!("block is not cbor: {}", e)))?;
    check!(p.i == bytes.len(), "block-format", "trailing bytes in block");
    if let Cv::A(xs) = v {
        if xs.len() == 3 {
            if let (Cv::U(offset), Cv::A(links), Cv::B(cipher)) = (&xs[0], &xs[1], &xs[2]) {
                let links = links
                    .iter()
                    .map(cv_cid)
                    .collect::<Result<Vec<_>, _>>()
                    .map_err(|e| Fail::new("block-format", e))?;
                return Ok(Raw {
                    offset: *offset,
                    links,
                    cipher: cipher.clone(),
                    len: bytes.len(),
                });
            }
        }
    }
    fail!("block-format", "block is not (offset, links, bytes)")
}

pub fn xor(data: &[u8], key: &[u8], nonce: &[u8; 24], offset: u64) -> Vec<u8> {
    let mut out = data.to_vec();
    let key = chacha20::Key::clone_from_slice(key);
    let nonce = chacha20::XNonce::clone_from_slice(nonce);
    let mut c = XChaCha20::new(&key, &nonce);
    c.seek(offset);
    c.apply_keystream(&mut out);
    out
}

pub fn unzstd(data: &[u8]) -> Result<Vec<u8>, String> {
    zstd::stream::decode_all(data).map_err(|e| e.to_string())
}

/// decrypt and decompress
pub fn open(raw: &Raw, key: &[u8], nonce: &[u8; 24]) -> Result<Vec<u8>, String> {
    unzstd(&xor(&raw.cipher, key, nonce, raw.offset))
}

// ---------------------------------------------------------------- trees
pub struct NLeaf {
    pub start: u64,
    pub index: Arc<LeafIndex<HT>>,
    pub link: Option<Link>,
    pub raw: Option<Raw>,
    pub plain_len: usize,
    pub values: Option<Vec<Vec<u8>>>,
}
pub struct NBranch {
    pub start: u64,
    pub index: Arc<BranchIndex<HT>>,
    pub link: Option<Link>,
    pub raw: Option<Raw>,
    pub plain_len: usize,
    pub children: Option<Vec<Node>>,
}
pub enum Node {
    Leaf(NLeaf),
    Branch(NBranch),
}

impl Node {
    pub fn link(&self) -> Option<Link> {
        match self {
            Node::Leaf(l) => l.link,
            Node::Branch(b) => b.link,
        }
    }
    pub fn start(&self) -> u64 {
        match self {
            Node::Leaf(l) => l.start,
            Node::Branch(b) => b.start,
        }
    }
    pub fn count(&self) -> u64 {
        match self {
            Node::Leaf(l) => l.index.keys.count(),
            Node::Branch(b) => b.index.count,
        }
    }
    pub fn level(&self) -> u32 {
        match self {
            Node::Leaf(_) => 0,
            Node::Branch(b) => b.index.level,
        }
    }
    pub fn sealed(&self) -> bool {
        match self {
            Node::Leaf(l) => l.index.sealed,
            Node::Branch(b) => b.index.sealed,
        }
    }
    pub fn raw(&self) -> Option<&Raw> {
        match self {
            Node::Leaf(l) => l.raw.as_ref(),
            Node::Branch(b) => b.raw.as_ref(),
        }
    }
    pub fn value_bytes(&self) -> u64 {
        match self {
            Node::Leaf(l) => l.index.value_bytes,
            Node::Branch(b) => b.index.value_bytes,
        }
    }
    pub fn key_bytes(&self) -> u64 {
        match self {
            Node::Leaf(_) => 0,
            Node::Branch(b) => b.index.key_bytes,
        }
    }
    pub fn children(&self) -> &[Node] {
        match self {
            Node::Leaf(_) => &[],
            Node::Branch(b) => b.children.as_deref().unwrap_or(&[]),
        }
    }
    /// all keys below, if they can still be determined
    pub fn keys(&self, into: &mut Vec<HKey>) -> bool {
        match self {
            Node::Leaf(l) => {
                into.extend(l.index.keys.as_ref().iter().cloned());
                true
            }
            Node::Branch(b) => match &b.children {
                Some(cs) => cs.iter().all(|c| c.keys(into)),
                None => false,
            },
        }
    }
    pub fn visit<'a>(&'a self, f: &mut impl FnMut(&'a Node)) {
        f(self);
        for c in self.children() {
            c.visit(f)
        }
    }
    pub fn nodes(&self) -> Vec<&Node> {
        let mut v = vec![];
        self.visit(&mut |n| v.push(n));
        v
    }
    pub fn links(&self) -> std::collections::HashSet<Link> {
        self.nodes().iter().filter_map(|n| n.link()).collect()
    }
    pub fn leaves(&self) -> Vec<&NLeaf> {
        let mut v = vec![];
        self.visit(&mut |n| {
            if let Node::Leaf(l) = n {
                v.push(l)
            }
        });
        v
    }
    pub fn depth_stats(&self) -> (usize, usize) {
        let n = self.nodes();
        (n.len(), self.level() as usize)
    }
    pub fn packed(&self) -> bool {
        match self {
            Node::Leaf(_) => true,
            Node::Branch(b) => {
                if b.index.sealed {
                    return true;
                }
                match &b.children {
                    None => true,
                    Some(cs) => {
                        let (last, rest) = cs.split_last().unwrap();
                        rest.iter()
                            .all(|c| c.sealed() && c.level() + 1 == b.index.level)
                            && last.level() < b.index.level
                            && last.packed()
                    }
                }
            }
        }
    }
}

pub fn walk(store: &HStore, secrets: &Secrets, index: &Index<HT>, start: u64) -> R<Node> {
    Ok(match index {
        Index::Leaf(l) => {
            let (raw, values, plain_len) = match l.link {
                None => (None, None, 0),
                Some(link) => {
                    let b = store
                        .raw(&link)
                        .ok_or_else(|| Fail::new("walk-missing", format!("leaf {} not in store", link)))?;
                    let raw = parse_block(&b)?;
                    let plain = open(&raw, secrets.value_key(), &HT_NONCE)
                        .map_err(|e| Fail::new("walk-leaf", format!("can not open leaf {}: {}", link, e)))?;
                    let vs = seq(&plain)
                        .map_err(|e| Fail::new("walk-leaf", format!("leaf {} is not a cbor seq: {}", link, e)))?;
                    (
                        Some(raw),
                        Some(vs.into_iter().map(|x| x.0).collect()),
                        plain.len(),
                    )
                }
            };
            Node::Leaf(NLeaf {
                start,
                index: l.clone(),
                link: l.link,
                raw,
                values,
                plain_len,
            })
        }
        Index::Branch(b) => {
            let (raw, children, plain_len) = match b.link {
                None => (None, None, 0),
                Some(link) => {
                    let bytes = store.raw(&link).ok_or_else(|| {
                        Fail::new("walk-missing", format!("branch {} not in store", link))
                    })?;
                    let raw = parse_block(&bytes)?;
                    let plain = open(&raw, secrets.index_key(), &HT_NONCE)
                        .map_err(|e| Fail::new("walk-branch", format!("can not open branch {}: {}", link, e)))?;
                    let items = seq(&plain)
                        .map_err(|e| Fail::new("walk-branch", format!("branch {}: {}", link, e)))?;
                    check!(!items.is_empty(), "walk-branch", "branch {} has no children", link);
                    let mut o = start;
                    let mut children = vec![];
                    for (bytes, _) in items {
                        let idx: Index<HT> = DagCborCodec
                            .decode(&bytes)
                            .map_err(|e| Fail::new("walk-branch", format!("index decode: {}", e)))?;
                        let n = idx.count();
                        children.push(walk(store, secrets, &idx, o)?);
                        o += n;
                    }
                    (Some(raw), Some(children), plain.len())
                }
            };
            Node::Branch(NBranch {
                start,
                index: b.clone(),
                link: b.link,
                raw,
                children,
                plain_len,
            })
        }
    })
}

/// content of the tree as seen by the independent reader
pub fn content(n: &Node, into: &mut Vec<ModelItem>) {
    match n {
        Node::Leaf(l) => match &l.values {
            Some(vs) => {
                for (k, v) in l.index.keys.as_ref().iter().zip(vs) {
                    into.push(Some((k.clone(), to_val(v))))
                }
            }
            None => into.extend((0..l.index.keys.count()).map(|_| None)),
        },
        Node::Branch(b) => match &b.children {
            Some(cs) => cs.iter().for_each(|c| content(c, into)),
            None => into.extend((0..b.index.count).map(|_| None)),
        },
    }
}

/// documented structural invariants of every reachable tree (built with a single config)
pub struct StructOpts {
    /// sizes are exact (not after retain / repair)
    pub sizes: bool,
    /// sealed exactly when a limit of the config was reached
    pub config: bool,
}

pub fn check_structure(root: &Node, cfg: &Config, opts: &StructOpts, model: &[ModelItem]) -> R {
    check_node(root, cfg, opts)?;
    if opts.config {
        // leaves are sealed exactly when full
        for l in root.leaves() {
            let n = l.index.keys.len();
            check!(n >= 1, "leaf-empty", "leaf without elements at offset {}", l.start);
            check!(
                n <= cfg.max_leaf_count,
                "leaf-count",
                "leaf at {} has {} elements, limit {}",
                l.start,
                n,
                cfg.max_leaf_count
            );
            if l.raw.is_some() {
                check!(
                    l.plain_len <= cfg.max_uncompressed_leaf_size,
                    "leaf-uncompressed",
                    "leaf at {} has {} uncompressed bytes, limit {}",
                    l.start,
                    l.plain_len,
                    cfg.max_uncompressed_leaf_size
                );
                let vb = l.index.value_bytes as usize;
                let full = n >= cfg.max_leaf_count
                    || vb >= cfg.target_leaf_size
                    || l.plain_len >= cfg.max_uncompressed_leaf_size;
                if !l.index.sealed {
                    check!(!full, "leaf-unsealed-full", "leaf at {} is full but not sealed", l.start);
                } else if !full {
                    // the next element did not fit
                    let next = model.get(l.start as usize + n);
                    let ok = match next {
                        Some(Some((_, v))) => {
                            let b: &[u8] = v.as_ref();
                            l.plain_len + b.len() > cfg.max_uncompressed_leaf_size
                        }
                        _ => false,
                    };
                    check!(
                        ok,
                        "leaf-sealed-early",
                        "leaf at {} with {} elements is sealed without being full",
                        l.start,
                        n
                    );
                }
            }
        }
    }
    Ok(())
}

fn check_node(n: &Node, cfg: &Config, o: &StructOpts) -> R {
    match n {
        Node::Leaf(l) => {
            if let (Some(vs), Some(raw)) = (&l.values, &l.raw) {
                check_eq!(vs.len(), l.index.keys.len(), "keys-values", "number of values vs keys in leaf at {}", l.start);
                if o.sizes {
                    check_eq!(l.index.value_bytes, raw.cipher.len() as u64, "value-bytes", "value_bytes of leaf at {}", l.start);
                }
            }
        }
        Node::Branch(b) => {
            let i = &b.index;
            check!(i.level >= 1, "level", "branch with level 0");
            if let (Some(cs), Some(raw)) = (&b.children, &b.raw) {
                let max = cs.iter().map(|c| c.level()).max().unwrap();
                check_eq!(i.level, max + 1, "level", "level of branch at {}", b.start);
                check_eq!(i.count, cs.iter().map(|c| c.count()).sum::<u64>(), "count", "count of branch at {}", b.start);
                check_eq!(i.summaries.len(), cs.len(), "summaries", "number of summaries at {}", b.start);
                if o.sizes {
                    check_eq!(i.value_bytes, cs.iter().map(|c| c.value_bytes()).sum::<u64>(), "value-bytes", "value_bytes of branch at {}", b.start);
                    check_eq!(i.key_bytes, cs.iter().map(|c| c.key_bytes()).sum::<u64>() + raw.len as u64, "key-bytes", "key_bytes of branch at {}", b.start);
                }
                for (c, s) in cs.iter().zip(i.summaries.to_vec()) {
                    let mut keys = vec![];
                    let want = if c.keys(&mut keys) {
                        HSum::of(keys.iter())
                    } else {
                        match c {
                            Node::Leaf(l) => l.index.keys.summarize(),
                            Node::Branch(b) => b.index.summaries.summarize(),
                        }
                    };
                    check_eq!(s, want, "summary", "summary of child at {} (level {})", c.start(), c.level());
                }
                let all_full = cs.iter().all(|c| c.sealed() && c.level() + 1 == i.level);
                if i.sealed {
                    check!(all_full, "sealed-children", "sealed branch at {} has an unsealed or misplaced child", b.start);
                }
                if o.config {
                    let maxb = if i.level == 1 { cfg.max_key_branches } else { cfg.max_summary_branches };
                    // the two children of an unpacked branch are always allowed
                    check!(cs.len() <= maxb.max(2), "branch-size", "branch at {} has {} children, limit {}", b.start, cs.len(), maxb);
                    let want = all_full && cs.len() >= maxb;
                    check_eq!(i.sealed, want, "sealed", "sealed flag of branch at {} level {} with {} children", b.start, i.level, cs.len());
                }
                for c in cs {
                    check_node(c, cfg, o)?;
                }
            }
        }
    }
    Ok(())
}
