//! the block codec
use crate::engine::*;
use crate::model::*;
use crate::walker;
use crate::{check, check_eq};
use banyan::store::ZstdDagCborSeq;
use cbor_data::CborOwned;
use libipld::{cbor::DagCborCodec, codec::Codec, Cid, Ipld};
use std::collections::{BTreeMap, BTreeSet};

pub static PROPS: &[Prop] = &[Prop {
    id: "C20",
    rule: "random item sequences (cbor and ipld, with links, from one byte to several 100 KB, rarely MBs) encoded in one go or filled in several steps with random limits, levels -5..22 and key stream offsets over the full u64 range; every decoder is compared with the generated items, the fill result with a reference implementation of its contract. Non-trivial: at least 3 items and at least one limit hit or two fill steps",
    run: c20,
    quick: 20000,
    thorough: 600000,
    threads: 0,
    regress: &[],
    assumptions: &[
        "an item sequence must stay below the 16 MiB that can be decompressed, as Config::validate demands",
        "the compressed size limit may be overshot by what zstd buffers (300 KB assumed)",
    ],
    level: "exploration",
}];

/// items in both of their forms
trait Form: Sized + Clone {
    fn enc(&self) -> Vec<u8>;
    fn from_items(items: &[Self], level: i32) -> anyhow::Result<ZstdDagCborSeq>;
    fn single(item: &Self, level: i32) -> anyhow::Result<ZstdDagCborSeq>;
    #[allow(clippy::too_many_arguments)]
    fn fill(
        compressed: &[u8],
        from: &mut std::iter::Peekable<std::vec::IntoIter<(u64, Self)>>,
        keys: &mut Vec<u64>,
        level: i32,
        comp: usize,
        uncomp: usize,
        max: usize,
    ) -> anyhow::Result<(ZstdDagCborSeq, bool)>;
}

impl Form for CborOwned {
    fn enc(&self) -> Vec<u8> {
        let b: &[u8] = self.as_ref();
        b.to_vec()
    }
    fn from_items(items: &[Self], level: i32) -> anyhow::Result<ZstdDagCborSeq> {
        ZstdDagCborSeq::from_iter(items, level)
    }
    fn single(item: &Self, level: i32) -> anyhow::Result<ZstdDagCborSeq> {
        ZstdDagCborSeq::single(item, level)
    }
    fn fill(
        compressed: &[u8],
        from: &mut std::iter::Peekable<std::vec::IntoIter<(u64, Self)>>,
        keys: &mut Vec<u64>,
        level: i32,
        comp: usize,
        uncomp: usize,
        max: usize,
    ) -> anyhow::Result<(ZstdDagCborSeq, bool)> {
        ZstdDagCborSeq::fill(compressed, from, keys, level, comp, uncomp, max)
    }
}

impl Form for Ipld {
    fn enc(&self) -> Vec<u8> {
        DagCborCodec.encode(self).unwrap()
    }
    fn from_items(items: &[Self], level: i32) -> anyhow::Result<ZstdDagCborSeq> {
        ZstdDagCborSeq::from_iter_ipld(items, level)
    }
    fn single(item: &Self, level: i32) -> anyhow::Result<ZstdDagCborSeq> {
        ZstdDagCborSeq::single_ipld(item, level)
    }
    fn fill(
        compressed: &[u8],
        from: &mut std::iter::Peekable<std::vec::IntoIter<(u64, Self)>>,
        keys: &mut Vec<u64>,
        level: i32,
        comp: usize,
        uncomp: usize,
        max: usize,
    ) -> anyhow::Result<(ZstdDagCborSeq, bool)> {
        ZstdDagCborSeq::fill_ipld(compressed, from, keys, level, comp, uncomp, max)
    }
}

fn gen_ipld(s: &mut Src, depth: u32) -> Ipld {
    match s.weighted(if depth > 2 { &[4, 1, 1, 1, 1] } else { &[4, 1, 1, 1, 1, 2, 2] }) {
        0 => Ipld::Integer(s.u64_any() as i128),
        1 => Ipld::String(s.pick(STRS).to_string()),
        2 => match s.below(4) {
            0 => Ipld::Null,
            1 => Ipld::Bool(s.bool()),
            2 => Ipld::Integer(-1 - (s.below(1 << 40) as i128)),
            _ => Ipld::Float(s.below(1000) as f64 / 8.0),
        },
        3 => {
            let n = s.usize(0, 60);
            Ipld::Bytes(s.blob(n))
        }
        4 => Ipld::Link(rand_cid(s)),
        5 => Ipld::List((0..s.usize(0, 4)).map(|_| gen_ipld(s, depth + 1)).collect()),
        _ => {
            let mut m = BTreeMap::new();
            for i in 0..s.usize(0, 3) {
                m.insert(format!("{}{}", s.pick(STRS), i), gen_ipld(s, depth + 1));
            }
            Ipld::Map(m)
        }
    }
}

fn gen_item(s: &mut Src, big: bool) -> Vec<u8> {
    let mut out = vec![];
    match s.weighted(&[5, 5, 3, if big { 3 } else { 0 }]) {
        0 => {
            let v = s.below(1000);
            cb_u64(&mut out, v)
        }
        1 => gen_cbor(s, &mut out, 0, 200, &mut Some(vec![])),
        2 => {
            let n = s.usize(0, 300);
            let b = if s.bool() { s.blob(n) } else { vec![9; n] };
            cb_bytes(&mut out, &b)
        }
        _ => {
            let n = s.usize(0, 200_000);
            let b = if s.bool() { s.blob(n) } else { vec![9; n] };
            cb_bytes(&mut out, &b)
        }
    }
    out
}

fn gen_level(s: &mut Src) -> i32 {
    match s.weighted(&[16, 16, 8, 1]) {
        0 => 0,
        1 => s.range(1, 9) as i32,
        2 => -(s.range(1, 5) as i32),
        _ => {
            let max = if s.chance(1, 8) { 22 } else { 17 };
            s.range(10, max) as i32
        }
    }
}

fn all_links(encs: &[Vec<u8>]) -> R<BTreeSet<Cid>> {
    let mut l = BTreeSet::new();
    for e in encs {
        for (_, v) in walker::seq(e).map_err(|e| Fail::new("harness", e))? {
            walker::cv_links(&v, &mut l);
        }
    }
    Ok(l)
}

/// compare a sequence with the items it must contain, in all ways it can be read
fn verify(s: &mut Src, what: &str, z: &ZstdDagCborSeq, encs: &[Vec<u8>]) -> R {
    let plain: Vec<u8> = encs.concat();
    let got = walker::unzstd(z.compressed()).map_err(|e| Fail::new("codec", format!("{}: not zstd: {}", what, e)))?;
    check!(got == plain, "content", "{}: decompressed content differs ({} bytes, expected {})", what, got.len(), plain.len());
    check_eq!(z.count().must("count")?, encs.len() as u64, "count", "{}", what);
    let items: Vec<Val> = z.items().must("items")?;
    check!(
        items.len() == encs.len() && items.iter().zip(encs).all(|(a, b)| a.enc() == *b),
        "items",
        "{}: items differ",
        what
    );
    for i in [0, encs.len() as u64, s.range(0, encs.len() as u64), s.u64_any()] {
        let got: Option<Val> = z.get(i).must("get")?;
        let want = encs.get(i as usize);
        check!(got.as_ref().map(|x| x.enc()).as_ref() == want, "get", "{}: get({}) of {}", what, i, encs.len());
    }
    let n = match s.below(4) {
        0 => s.usize(0, encs.len()),
        1 => encs.len() + s.usize(0, 5),
        _ => encs.len(),
    };
    let density = s.below(5);
    let mut sub = Src::random(if n > 60 { s.derived().next() } else { 0 });
    let mut bit = || if n > 60 { sub.below(4) } else { s.below(4) };
    let bits: Vec<bool> = (0..n).map(|_| bit() < density).collect();
    let got: Vec<Val> = z.select(&bits).must("select")?;
    let want: Vec<&Vec<u8>> = encs.iter().zip(&bits).filter(|x| *x.1).map(|x| x.0).collect();
    check!(
        got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| a.enc() == **b),
        "select",
        "{}: select {:?} of {} gives {} instead of {} items",
        what,
        bits,
        encs.len(),
        got.len(),
        want.len()
    );
    // wrong type: an error, not a panic or another value
    if encs.iter().any(|e| e[0] >> 5 != 3) {
        check!(z.items::<String>().is_err(), "type", "{}: items decode as strings", what);
    }
    Ok(())
}

fn cipher(s: &mut Src, z: &ZstdDagCborSeq, links: &BTreeSet<Cid>) -> R {
    let key: chacha20::Key = s.key32().into();
    let mut nonce = [0u8; 24];
    nonce.copy_from_slice(&s.key32()[..24]);
    let xn: chacha20::XNonce = nonce.into();
    let len = z.compressed().len() as u64;
    let offset = match s.weighted(&[3, 3, 1, 1]) {
        0 => s.below(1000),
        1 => s.u64_any().min(u64::MAX - len),
        2 => u64::MAX - len - s.below(3),
        _ => (1 << s.range(30, 63)) - s.below(200),
    }
    .min(u64::MAX - len);
    let bytes = z.encrypt(&key, &xn, offset).must("encrypt")?;
    let raw = walker::parse_block(&bytes)?;
    check_eq!(raw.offset, offset, "offset", "offset of the block");
    check_eq!(raw.links.len(), links.len(), "links", "number of links");
    check!(raw.links.iter().copied().collect::<BTreeSet<_>>() == *links, "links", "links of the block");
    check!(
        walker::xor(&raw.cipher, &key, &nonce, offset) == z.compressed(),
        "cipher",
        "encrypted at {} bytes differ from the key stream xor the compressed data",
        offset
    );
    let (z2, r) = ZstdDagCborSeq::decrypt(&bytes, &key, &xn).must("decrypt")?;
    check!(z2 == *z, "decrypt", "decrypted block differs");
    check_eq!(r, offset..offset + len, "range", "key stream range");
    if offset < u64::MAX - len {
        // no space for that many bytes: must be rejected
        let b = super::crypto::make_block(u64::MAX - len + 1, &raw.links, &raw.cipher);
        check!(ZstdDagCborSeq::decrypt(&b, &key, &xn).is_err(), "wraparound", "key stream range wraps around");
    }
    Ok(())
}

fn c20(s: &mut Src, obs: &mut Obs) -> R {
    let huge = s.chance(1, 300);
    let big = !huge && s.chance(1, 6);
    if s.chance(1, 4) {
        let n = s.small(20) as usize;
        let items: Vec<Ipld> = (0..n).map(|_| gen_ipld(s, 0)).collect();
        obs.label("ipld");
        return run(s, obs, items, |z, items| {
            let got: Vec<Ipld> = z.items_ipld().must("items_ipld")?;
            check!(got == items, "items_ipld", "ipld items differ: {:?} / {:?}", got, items);
            Ok(())
        });
    }
    let mut items: Vec<Val> = vec![];
    if huge {
        // around the sizes of the decompression buffers
        obs.label("huge");
        let total = match s.below(3) {
            0 => (4 << 20) - 20 + s.usize(0, 40),
            1 => (16 << 20) - s.usize(0, 200),
            _ => s.usize(1 << 20, 16 << 20),
        };
        let mut left = total;
        while left > 0 {
            let n = if s.chance(1, 3) { left } else { s.usize(1, left) };
            let mut o = vec![];
            let body = n.saturating_sub(5);
            let b = if s.bool() { s.blob(body) } else { vec![3; body] };
            cb_bytes(&mut o, &b);
            left = left.saturating_sub(o.len());
            items.push(to_val(&o));
            if left < 6 {
                break;
            }
        }
    } else {
        let many = if big { 0 } else { s.weighted(&[600, 20, 1]) };
        if many > 0 {
            obs.label("many items");
            let n = if many == 1 { s.usize(61, 700) } else { s.usize(65_000, 70_000) };
            let mut sub = Src::random(s.derived().next());
            for _ in 0..n {
                let mut o = vec![];
                cb_u64(&mut o, sub.below(70_000));
                items.push(to_val(&o));
            }
            return run(s, obs, items, |_, _| Ok(()));
        }
        let n = if big { s.usize(0, 12) } else { s.small(60) as usize };
        items = (0..n).map(|_| to_val(&gen_item(s, big))).collect();
    }
    run(s, obs, items, |_, _| Ok(()))
}

fn run<T: Form>(s: &mut Src, obs: &mut Obs, items: Vec<T>, extra: impl Fn(&ZstdDagCborSeq, &[T]) -> R) -> R {
    let encs: Vec<Vec<u8>> = items.iter().map(|i| i.enc()).collect();
    let n = items.len();
    let total: usize = encs.iter().map(|x| x.len()).sum();
    let level = if total > 1 << 20 { s.range(0, 4) as i32 } else { gen_level(s) };
    obs.note(|| format!("{} items, {} bytes, level {}", n, total, level));
    // in one go
    let z = T::from_items(&items, level).must("from_iter")?;
    verify(s, "from_iter", &z, &encs)?;
    cipher(s, &z, &all_links(&encs)?)?;
    extra(&z, &items)?;
    if n > 0 {
        let i = s.usize(0, n - 1);
        let z1 = T::single(&items[i], level).must("single")?;
        verify(s, "single", &z1, &encs[i..i + 1])?;
    }
    // in steps. Each step has its own limits
    let initial = s.usize(0, n.min(5));
    let mut have: Vec<Vec<u8>> = encs[..initial].to_vec();
    let mut z = T::from_items(&items[..initial], level).must("from_iter")?;
    let mut from = items[initial..]
        .iter()
        .cloned()
        .enumerate()
        .map(|(i, x)| ((initial + i) as u64, x))
        .collect::<Vec<_>>()
        .into_iter()
        .peekable();
    let mut at = initial;
    let mut keys: Vec<u64> = (0..initial as u64).collect();
    let mut steps = 0;
    let mut limits = 0;
    while steps < 1 || (steps < 4 && s.more(2)) {
        steps += 1;
        let level = if total > 1 << 20 { 1 } else { gen_level(s) };
        let have_size: usize = have.iter().map(|x| x.len()).sum();
        let uncomp = match s.weighted(&[3, 3, 1]) {
            0 => 16 << 20,
            1 => {
                // somewhere around a boundary between items
                let k = s.usize(at, n);
                (have_size + encs[at..k].iter().map(|x| x.len()).sum::<usize>() + s.usize(0, 2)).saturating_sub(1).max(1)
            }
            _ => s.usize(1, 2000),
        };
        let comp = match s.weighted(&[3, 3, 1]) {
            0 => 1 << 20,
            1 => s.usize(1, 500),
            _ => s.usize(1, 200_000),
        };
        let max = match s.weighted(&[3, 3, 1, 1]) {
            0 => 1 << 30,
            3 => s.usize(at, n),
            1 => (at + s.usize(0, 6)).saturating_sub(1),
            _ => s.usize(0, 60),
        };
        obs.note(|| format!("fill level {} compressed {} uncompressed {} max {} with {} items", level, comp, uncomp, max, at));
        // an empty sequence may also be given as no bytes at all
        let start: Vec<u8> = if at == 0 && s.bool() { vec![] } else { z.compressed().to_vec() };
        let res = T::fill(&start, &mut from, &mut keys, level, comp, uncomp, max);
        // reference
        let mut size = have_size;
        let mut i = at;
        let mut hit_full = false;
        let mut hit_error = false;
        while i < n {
            if i >= max {
                break;
            }
            if encs[i].len() > uncomp {
                hit_error = true;
                break;
            }
            if size + encs[i].len() > uncomp {
                hit_full = true;
                break;
            }
            size += encs[i].len();
            i += 1;
        }
        let left = from.clone().count();
        let taken = n - left;
        match res {
            Err(e) => {
                check!(hit_error, "fill-error", "fill failed without reason: {}", e);
                check_eq!(taken, i, "fill-error", "items taken before the item that is too large");
                obs.label("item too large");
                // nothing more to be done with this iterator
                return Ok(());
            }
            Ok((z1, full)) => {
                check!(taken <= i, "fill-limit", "fill took {} items, but only {} fit", taken, i);
                check_eq!(keys.len(), taken, "fill-keys", "keys after fill");
                check!(keys.iter().enumerate().all(|(i, k)| *k == i as u64), "fill-keys", "keys after fill: {:?}", keys);
                have.extend_from_slice(&encs[at..taken]);
                verify(s, "fill", &z1, &have)?;
                cipher(s, &z1, &all_links(&have)?)?;
                let clen = z1.compressed().len();
                let size: usize = have.iter().map(|x| x.len()).sum();
                let want_full = clen >= comp || taken >= max || size >= uncomp || (taken == i && hit_full);
                check_eq!(full, want_full, "fill-full", "full flag, compressed {} uncompressed {} items {}", clen, size, taken);
                if taken < i || (taken == i && hit_error) {
                    check!(clen >= comp, "fill-short", "fill stopped at item {} of {} with {} compressed bytes of {}", taken, i, clen, comp);
                }
                if taken > at + 1 {
                    // it must have stopped when the limit was reached, give or take the buffers of zstd
                    let l = zstd::stream::encode_all(&have[..taken - 1].concat()[..], level).unwrap().len();
                    check!(
                        l < comp + 300_000,
                        "fill-overshoot",
                        "fill went on after {} compressed bytes, limit {}",
                        l,
                        comp
                    );
                }
                if full {
                    limits += 1;
                }
                at = taken;
                z = z1;
            }
        }
    }
    obs.label_if(limits > 0, "limit hit");
    obs.nontrivial = n >= 3 && (limits > 0 || steps > 1);
    Ok(())
}
