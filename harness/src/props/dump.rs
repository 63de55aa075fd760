//! block dumps, graphs, and deep trees
use crate::engine::*;
use crate::model::*;
use crate::walker::{self, Cv, Node};
use crate::{check, check_eq, fail};
use banyan::query::AllQuery;
use banyan::{Config, StreamBuilder};
use banyan_utils::dump::{dump_cbor, dump_json, graph};
use cbor_data::Cbor;
use futures::executor::block_on;
use futures::TryStreamExt;
use std::fmt::Write;

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C27",
        rule: "a tree of 300..5000 levels (thorough: 40000) made of unpacked appends (1..3 elements each, now and then a packed one or a retain), then filtered reads, streams and index iteration in both directions on a thread with 1 MiB of stack, compared with the model; a stack overflow kills the process and is reported. Non-trivial: level >= 1500",
        run: c27,
        quick: 48,
        thorough: 480,
        threads: 0,
        regress: &[],
        assumptions: &["reads that are recursive by design (get, collect, pack, retain, repair, check_invariants, dumps) are not covered"],
        level: "exploration",
    },
    Prop {
        id: "C28",
        rule: "blocks of random trees dumped as json and cbor text with the right and with wrong keys, and as dot graph, compared with an independent rendering of the decoded blocks; plus plain dag-cbor and garbage blocks. Non-trivial: a block with at least 3 items of at least 2 kinds",
        run: c28,
        quick: 6000,
        thorough: 100000,
        threads: 0,
        regress: &[Regress { name: "container-map-key", f: r_map_key }],
        assumptions: &["text of cbor values as printed by the cbor-data crate", "map keys are not arrays or maps (see KNOWN_FINDINGS: container-map-key)"],
        level: "exploration",
    },
];

// ------------------------------------------------------------------------------------------ C27

fn c27(s: &mut Src, obs: &mut Obs) -> R {
    let cfg = Config {
        max_leaf_count: s.usize(1, 10),
        max_key_branches: s.usize(1, 8),
        max_summary_branches: s.usize(2, 8),
        target_leaf_size: 10000,
        max_uncompressed_leaf_size: 16 << 20,
        zstd_level: 0,
    };
    let secrets = gen_secrets(s);
    let store = HStore::new();
    let mut t = txn(&store, if s.bool() { 0 } else { 64 << 20 });
    let mut b: Bld = StreamBuilder::new(cfg.clone(), secrets.clone());
    let depth = match s.weighted(&[1, 3, 2]) {
        0 => s.usize(300, 1500),
        1 => s.usize(1500, 3000),
        _ => s.usize(3000, if std::env::var("VERIF_DEEP").is_ok() { 40000 } else { 5000 }),
    };
    obs.note(|| format!("{} unpacked appends, config {}", depth, cfg_str(&cfg)));
    let mut model: Vec<ModelItem> = vec![];
    let mut clock = 0;
    let mut rng = s.derived();
    for i in 0..depth {
        let n = 1 + rng.next() % 3;
        let mut items: Vec<Item> = vec![];
        for _ in 0..n {
            clock += rng.next() % 3;
            let k = HKey { t: clock, c: (1 << (rng.next() % 8)) as u8 as _, p: String::new(), l: vec![] };
            items.push((k, to_val(&[0x19, (rng.next() & 255) as u8, i as u8])));
        }
        model.extend(items.iter().cloned().map(Some));
        t.extend_unpacked(&mut b, items).must("extend_unpacked")?;
    }
    let n = model.len() as u64;
    if s.chance(1, 4) {
        let q = gen_query(s, n, clock, 1);
        obs.note(|| format!("retain {:?}", q));
        t.retain(&mut b, &q.build()).must("retain")?;
        let got = t.collect(&b.snapshot()).must("collect")?;
        check_eq!(got.len(), model.len(), "retain", "length after retain");
        for (a, b) in got.iter().zip(&model) {
            check!(a.is_none() || a == b, "retain", "element changed");
        }
        model = got;
    }
    let level = b.level();
    let link = b.link().expect("not empty");
    let qs: Vec<Qx> = (0..2).map(|_| gen_query(s, n, clock, 1)).collect();
    obs.note(|| format!("level {} queries {:?}", level, qs));
    let cold = forest(&store, if s.bool() { 0 } else { 1 << 20 });
    let sec = secrets.clone();
    let r: R = std::thread::Builder::new()
        .name("vh-deep".into())
        .stack_size(1 << 20)
        .spawn(move || {
            guard(move || {
                let tree: Tr = cold.load_tree(sec, link).must("load_tree")?;
                check_eq!(tree.count(), n, "count", "count of the loaded tree");
                for q in &qs {
                    let want = triples(&model, q);
                    let got = cold.iter_filtered(&tree, q.build()).collect::<anyhow::Result<Vec<_>>>().must("iter_filtered")?;
                    cmp_triples("iter_filtered", &got, &want)?;
                    let mut got = cold
                        .iter_filtered_reverse(&tree, q.build())
                        .collect::<anyhow::Result<Vec<_>>>()
                        .must("iter_filtered_reverse")?;
                    got.reverse();
                    cmp_triples("iter_filtered_reverse", &got, &want)?;
                    let got = block_on(cold.stream_filtered(&tree, q.build()).try_collect::<Vec<_>>()).must("stream_filtered")?;
                    cmp_triples("stream_filtered", &got, &want)?;
                    let trees = futures::stream::iter(vec![tree.clone(), tree.clone()]);
                    let got = block_on(cold.stream_trees(q.build(), trees).try_collect::<Vec<_>>()).must("stream_trees")?;
                    cmp_triples("stream_trees", &got, &want)?;
                    let mut end = 0;
                    for c in cold.iter_filtered_chunked(&tree, q.build(), &|_| ()) {
                        let c = c.must("iter_filtered_chunked")?;
                        check_eq!(c.range.start, end, "tiling", "start of chunk");
                        end = c.range.end;
                    }
                    check_eq!(end, n, "tiling", "end of the last chunk");
                    let mut start = n;
                    for c in cold.iter_filtered_chunked_reverse(&tree, q.build(), &|_| ()) {
                        let c = c.must("iter_filtered_chunked_reverse")?;
                        check_eq!(c.range.end, start, "tiling", "end of reverse chunk");
                        start = c.range.start;
                    }
                    check_eq!(start, 0, "tiling", "start of the last reverse chunk");
                }
                let ids = |it: &mut dyn Iterator<Item = anyhow::Result<banyan::index::Index<HT>>>| -> R<Vec<(u32, u64, Option<Link>)>> {
                    it.map(|x| x.map(|x| (x.level() as u32, x.count(), *x.link())))
                        .collect::<anyhow::Result<Vec<_>>>()
                        .must("index iteration")
                };
                let fwd = ids(&mut cold.iter_index(&tree, AllQuery))?;
                let rev = ids(&mut cold.iter_index_reverse(&tree, AllQuery))?;
                let leaves: u64 = fwd.iter().filter(|x| x.0 == 0).map(|x| x.1).sum();
                let purged: u64 = fwd.iter().filter(|x| x.0 > 0 && x.2.is_none()).map(|x| x.1).sum();
                check_eq!(leaves + purged, n, "index", "elements in the leaves of the index iteration");
                let (mut a, mut b) = (fwd, rev);
                a.sort();
                b.sort();
                check!(a == b, "index", "index iteration and reverse index iteration visit different nodes");
                Ok(())
            })
        })
        .unwrap()
        .join()
        .unwrap();
    r?;
    obs.label_if(level >= 3000, "level>=3000");
    obs.nontrivial = level >= 1500;
    Ok(())
}

// ------------------------------------------------------------------------------------------ C28

fn b64(b: &[u8]) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut out = String::new();
    for c in b.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() {
            out.push(T[(v >> (18 - 6 * i) & 63) as usize] as char);
        }
    }
    out
}

/// dag-json, None if the value is not in the data model
fn render(v: &Cv, out: &mut String) -> Option<()> {
    match v {
        Cv::U(n) => write!(out, "{}", n).ok()?,
        Cv::N(n) => write!(out, "{}", -1 - *n as i128).ok()?,
        Cv::B(b) => write!(out, "{{\"/\":{{\"bytes\":\"{}\"}}}}", b64(b)).ok()?,
        Cv::T(t) => out.push_str(&serde_json::to_string(t).ok()?),
        Cv::A(xs) => {
            out.push('[');
            for (i, x) in xs.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                render(x, out)?;
            }
            out.push(']');
        }
        Cv::M(xs) => {
            let mut kv = vec![];
            for (k, x) in xs {
                let Cv::T(k) = k else { return None };
                kv.push((k, x));
            }
            kv.sort_by_key(|x| x.0);
            out.push('{');
            for (i, (k, x)) in kv.into_iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                out.push_str(&serde_json::to_string(k).ok()?);
                out.push(':');
                render(x, out)?;
            }
            out.push('}');
        }
        Cv::Tag(42, _) => write!(out, "{{\"/\":\"{}\"}}", walker::cv_cid(v).ok()?).ok()?,
        Cv::Tag(..) => return None,
        Cv::Simple(20) => out.push_str("false"),
        Cv::Simple(21) => out.push_str("true"),
        Cv::Simple(22) => out.push_str("null"),
        Cv::Simple(_) => return None,
        Cv::Float(x) => out.push_str(&serde_json::to_string(&f64::from_bits(*x)).ok()?),
    }
    Some(())
}

fn kind(v: &Cv) -> u8 {
    match v {
        Cv::U(_) | Cv::N(_) => 0,
        Cv::B(_) => 1,
        Cv::T(_) => 2,
        Cv::A(_) => 3,
        Cv::M(_) => 4,
        Cv::Tag(..) => 5,
        _ => 6,
    }
}

fn r_map_key() -> R {
    // {[]: 0}
    let st = HStore::new();
    let l = st.put_raw(&[0xa1, 0x80, 0x00]);
    let nonce = chacha20::XNonce::clone_from_slice(&HT_NONCE);
    let key = chacha20::Key::clone_from_slice(&[7; 32]);
    let mut out = vec![];
    guard(|| {
        let _ = dump_cbor(st, l, &key, &nonce, &mut out);
        Ok(())
    })
}

fn c28(s: &mut Src, obs: &mut Obs) -> R {
    let w = super::query::read_world(s, obs, 60)?;
    let nonce = chacha20::XNonce::clone_from_slice(&HT_NONCE);
    let json = |st: &HStore, l: Link, k: &chacha20::Key| {
        let mut out = vec![];
        dump_json(st.clone(), l, k, &nonce, &mut out).map(|_| String::from_utf8(out).expect("utf-8"))
    };
    let cbor = |st: &HStore, l: Link, k: &chacha20::Key| {
        let mut out = vec![];
        dump_cbor(st.clone(), l, k, &nonce, &mut out).map(|_| String::from_utf8(out).expect("utf-8"))
    };
    let mut gr = vec![];
    let tree = w.b.snapshot();
    let root = match w.b.index() {
        None => {
            check!(graph(w.forest(), &tree, &mut gr).is_err(), "graph", "graph of an empty tree");
            return Ok(());
        }
        Some(i) => walker::walk(&w.store, &w.secrets, i, 0)?,
    };
    let nodes = root.nodes();
    for _ in 0..s.usize(1, 5) {
        let n = *s.pick(&nodes);
        let (Some(link), Some(raw)) = (n.link(), n.raw()) else { continue };
        let (key, other) = match n {
            Node::Leaf(_) => (w.secrets.value_key(), w.secrets.index_key()),
            Node::Branch(_) => (w.secrets.index_key(), w.secrets.value_key()),
        };
        let plain = walker::open(raw, key, &HT_NONCE).map_err(|e| Fail::new("harness", e))?;
        let items = walker::seq(&plain).map_err(|e| Fail::new("harness", e))?;
        obs.note(|| format!("block {} with {} items", link, items.len()));
        let want: Option<String> = items
            .iter()
            .map(|(_, v)| {
                let mut o = String::new();
                render(v, &mut o).map(|_| o + "\n")
            })
            .collect();
        match (want, json(&w.store, link, key)) {
            (Some(want), Ok(got)) => check_eq!(got, format!("ZstdDagCborSeq\n{}", want), "json", "json dump"),
            (Some(_), Err(e)) => fail!("json", "json dump fails: {}", e),
            (None, Ok(got)) => fail!("json", "json dump of something that is not ipld: {}", got),
            (None, Err(_)) => obs.label("not ipld"),
        }
        let mut want = String::from("ZstdDagCborSeq\n");
        for (b, _) in &items {
            writeln!(want, "{}", Cbor::checked(b).map_err(|e| Fail::new("harness", e.to_string()))?).unwrap();
        }
        check_eq!(cbor(&w.store, link, key).must("dump_cbor")?, want, "cbor", "cbor dump");
        // other keys
        let mut bad = *key;
        bad[s.below(32) as usize] ^= 1 << s.below(8);
        check!(json(&w.store, link, &bad).is_err(), "key", "json dump with a wrong key");
        check!(cbor(&w.store, link, &bad).is_err(), "key", "cbor dump with a wrong key");
        if other != key {
            check!(json(&w.store, link, other).is_err(), "key", "json dump with the other key");
            check!(cbor(&w.store, link, other).is_err(), "key", "cbor dump with the other key");
        }
        let kinds: std::collections::BTreeSet<u8> = items.iter().map(|x| kind(&x.1)).collect();
        if items.len() >= 3 && kinds.len() >= 2 {
            obs.nontrivial = true;
        }
    }
    // blocks that are not ours
    let key = w.secrets.value_key();
    let st = HStore::new();
    let mut b = vec![];
    gen_cbor(s, &mut b, 0, 300, &mut Some(vec![]));
    let cv = walker::seq(&b).map_err(|e| Fail::new("harness", e))?.pop().expect("one item").1;
    let l = st.put_raw(&b);
    let mut want = String::new();
    match (render(&cv, &mut want), json(&st, l, key)) {
        (Some(()), Ok(got)) => check_eq!(got, want + "\n", "plain", "json dump of a plain block"),
        (Some(()), Err(e)) => fail!("plain", "json dump of a plain block fails: {}", e),
        (None, Ok(got)) => fail!("plain", "json dump of something that is not ipld: {}", got),
        (None, Err(_)) => {}
    }
    let text = format!("{}\n", Cbor::checked(&b).map_err(|e| Fail::new("harness", e.to_string()))?);
    check_eq!(cbor(&st, l, key).must("dump_cbor")?, text, "plain", "cbor dump of a plain block");
    let cut = b.len().saturating_sub(1);
    let l = st.put_raw(&b[..cut]);
    check!(json(&st, l, key).is_err(), "garbage", "json dump of a truncated block");
    check!(cbor(&st, l, key).is_err(), "garbage", "cbor dump of a truncated block");
    let l = banyan_utils::tags::Sha256Digest::digest(b"missing");
    check!(json(&st, l, key).is_err() && cbor(&st, l, key).is_err(), "missing", "dump of a missing block");
    // graph
    graph(w.forest(), &tree, &mut gr).must("graph")?;
    let text = String::from_utf8(gr).must("graph utf-8")?;
    let mut want_nodes = vec![];
    let mut want_edges = vec![];
    dot(&root, None, &mut want_nodes, &mut want_edges);
    let mut got_nodes = vec![];
    let mut got_edges = vec![];
    for line in text.lines() {
        let line = line.trim();
        let Some(rest) = line.strip_prefix('N') else { continue };
        let num = |x: &str| -> R<usize> {
            x.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().must("number in the graph")
        };
        if let Some((a, b)) = rest.split_once("->") {
            let Some(b) = b.trim().strip_prefix('N') else { fail!("graph", "line {}", line) };
            got_edges.push((num(a)?, num(b)?));
        } else {
            let Some((_, label)) = rest.split_once("label=\"") else { fail!("graph", "line {}", line) };
            got_nodes.push((num(rest)?, num(label)?, line.contains("shape=\"box\""), line.contains("grey")));
        }
    }
    got_nodes.sort();
    got_edges.sort();
    want_nodes.sort();
    want_edges.sort();
    check_eq!(got_nodes, want_nodes, "graph", "nodes (id, label, box, grey)");
    check_eq!(got_edges, want_edges, "graph", "edges");
    Ok(())
}

/// nodes are numbered in pre-order
fn dot(n: &Node, parent: Option<usize>, nodes: &mut Vec<(usize, usize, bool, bool)>, edges: &mut Vec<(usize, usize)>) {
    let id = nodes.len();
    if let Some(p) = parent {
        edges.push((p, id));
    }
    match n {
        Node::Leaf(l) => nodes.push((id, l.index.keys.as_ref().len(), false, n.sealed())),
        Node::Branch(_) => nodes.push((id, id, true, n.sealed())),
    }
    for c in n.children() {
        dot(c, Some(id), nodes, edges)
    }
}
