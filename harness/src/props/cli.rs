//! the command line tool, run as a process
use super::ipfs::{with_net, Mode, Shared};
use crate::engine::*;
use crate::model::*;
use crate::{check, check_eq, fail};
use banyan::query::{AllQuery, OffsetRangeQuery};
use banyan::store::{BlockWriter, BranchCache, ReadOnlyStore};
use banyan::{Config, Forest, Secrets, StreamBuilder, Transaction, Tree};
use banyan_utils::sqlite::SqliteStore;
use banyan_utils::tag_index::{Tag, TagSet};
use banyan_utils::tags::{Key, TT};
use cid::Cid;
use ipfs_sqlite_block_store::{BlockStore, Config as DbConfig, Synchronous};
use libipld::DefaultParams;
use std::collections::{BTreeSet, VecDeque};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicU64, Ordering};

pub static PROPS: &[Prop] = &[Prop {
    id: "C30",
    rule: "a tree built by the library (random tags, values, histories, passwords, missing blocks for repair) in a sqlite file, then 1..4 runs of banyan-cli on it (dump-values, dump, graph, dump-block, stream, filter, forget, pack, repair, build, bench, recv-stream, send-stream; storage sqlite, and ipfs by way of a service on localhost); what it prints, and the tree it leaves behind, is compared with the model and with the library. Non-trivial: a run that changes a tree of at least 5 elements, or one that reads a tree of at least 10 elements",
    run: c30,
    quick: 1500,
    thorough: 60000,
    threads: 8,
    regress: &[Regress { name: "password-ignored", f: r_password }],
    assumptions: &["trees that are packed, forgotten from, or filtered were built with the config of the tool"],
    level: "exploration",
}];

type El = (Key, String);
type T3 = (u64, Key, String);
type Txn3<S> = Transaction<TT, S, S>;
type B3 = StreamBuilder<TT, String>;

struct Dir(PathBuf);
impl Dir {
    fn new() -> R<Self> {
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("vh-cli-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&p).must("scratch directory")?;
        Ok(Dir(p))
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn open(p: &Path) -> R<SqliteStore<DefaultParams>> {
    let db: BlockStore<DefaultParams> =
        BlockStore::open(p, DbConfig::default().with_pragma_synchronous(Synchronous::Off)).must("open sqlite")?;
    Ok(SqliteStore::new(db))
}

/// exit code, output
fn cli(args: &[String]) -> R<(i32, Vec<String>, String)> {
    let exe = std::env::current_exe().must("exe")?.with_file_name("vh-cli");
    let out = Command::new(exe).args(args).env("RUST_BACKTRACE", "0").output().must("run banyan-cli")?;
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let err = String::from_utf8_lossy(&out.stderr).to_string();
    Ok((out.status.code().unwrap_or(-1), text.lines().map(|x| x.to_string()).collect(), err))
}

fn cli_ok(args: &[String]) -> R<Vec<String>> {
    let (code, out, err) = cli(args)?;
    check!(code == 0, "exit", "banyan-cli {:?} ends with {}: {}", args, code, err);
    Ok(out)
}

const TAGS: &[&str] = &["fizz", "buzz", "a", "b", "a b", "ü", "\"", "long.tag.with.dots"];

fn gen_els(s: &mut Src, n: usize, at: &mut u64) -> Vec<El> {
    (0..n)
        .map(|_| {
            *at += s.below(3);
            let tags: TagSet = (0..s.usize(1, 3)).map(|_| Tag::from(*s.pick(TAGS))).collect();
            let v = match s.weighted(&[4, 1, 1]) {
                0 => at.to_string(),
                1 => s.pick(&["", "\n", "\"", "ü\u{0}", "{}", "Branch(count=1, link=x)"]).to_string(),
                _ => {
                    let n = s.usize(0, 200);
                    "x".repeat(n)
                }
            };
            (Key::single(*at, *at, tags), v)
        })
        .collect()
}

fn present(m: &[Option<El>]) -> Vec<T3> {
    m.iter().enumerate().filter_map(|(i, x)| x.as_ref().map(|(k, v)| (i as u64, k.clone(), v.clone()))).collect()
}

/// the tool has a Debug line for an element
fn line(x: &T3) -> String {
    format!("{:?}", x)
}

fn build_tag(i: u64) -> &'static str {
    match (i % 3 == 0, i % 5 == 0) {
        (true, true) => "fizzbuzz",
        (true, false) => "fizz",
        (false, true) => "buzz",
        _ => "we.like.long.identifiers.because.they.seem.professional",
    }
}

fn built(n: u64) -> Vec<El> {
    (0..n).map(|i| (Key::single(i, i, TagSet::single(Tag::from(build_tag(i)))), i.to_string())).collect()
}

/// root of the last tree that was dumped
fn dumped_root(out: &[String]) -> R<Link> {
    let l = match out.iter().rev().find(|x| x.starts_with("Branch(")) {
        Some(l) => l,
        None => fail!("output", "no root in the output {:?}", out.iter().take(5).collect::<Vec<_>>()),
    };
    dumped_link(l)?.must_some("link of the root")
}

trait MustSome<T> {
    fn must_some(self, what: &str) -> R<T>;
}
impl<T> MustSome<T> for Option<T> {
    fn must_some(self, what: &str) -> R<T> {
        self.ok_or_else(|| Fail::new("output", format!("no {}", what)))
    }
}

fn dumped_link(l: &str) -> R<Option<Link>> {
    match l.split("link=").nth(1) {
        Some(x) => {
            let t = x.split([',', ')']).next().unwrap_or("");
            if t.is_empty() {
                return Ok(None);
            }
            Ok(Some(t.parse::<Link>().must("link in a dump")?))
        }
        None => Ok(None),
    }
}

struct W3 {
    dir: Dir,
    secrets: Secrets,
    pass: Vec<String>,
    root: Link,
    model: Vec<Option<El>>,
    /// blocks that are missing
    broken: bool,
    /// what was repaired is for reading only
    repaired: bool,
}

impl W3 {
    fn path(&self) -> PathBuf {
        self.dir.0.join("db.sqlite")
    }
    fn db(&self) -> R<SqliteStore<DefaultParams>> {
        open(&self.path())
    }
    fn args(&self, cmd: &[&str]) -> Vec<String> {
        let mut v: Vec<String> = cmd.iter().map(|x| x.to_string()).collect();
        v.push(format!("--storage={}", self.path().display()));
        v.extend(self.pass.iter().cloned());
        v
    }
    fn content(&self, root: Link) -> R<Vec<Option<El>>> {
        let f: Forest<TT, _> = Forest::new(self.db()?, BranchCache::default());
        let t: Tree<TT, String> = f.load_tree(self.secrets.clone(), root).must("load_tree of what the tool made")?;
        f.collect(&t).must("collect of what the tool made")
    }
}

fn password(s: &mut Src) -> String {
    match s.below(3) {
        0 => "secret".into(),
        1 => s.pick(&["ü", " ", "a=b", "0123456789012345678901234567890123456789", "--"]).to_string(),
        _ => (0..s.usize(1, 40)).map(|_| (b'a' + s.below(26) as u8) as char).collect(),
    }
}

/// independent of create_chacha_key
fn key_of(p: &str) -> [u8; 32] {
    let mut k = [0u8; 32];
    let b = p.as_bytes();
    let n = b.len().min(32);
    k[..n].copy_from_slice(&b[..n]);
    k
}

fn gen_w(s: &mut Src, obs: &mut Obs) -> R<(W3, Vec<Link>)> {
    let mut pass = vec![];
    let (mut ik, mut vk) = ([0u8; 32], [0u8; 32]);
    if s.chance(1, 2) {
        let p = password(s);
        ik = key_of(&p);
        pass.push(format!("--index-pass={}", p));
    }
    if s.chance(1, 2) {
        let p = password(s);
        vk = key_of(&p);
        pass.push(format!("--value-pass={}", p));
    }
    let secrets = Secrets::new(ik.into(), vk.into());
    let store = HStore::new();
    let mut t: Txn3<HStore> = Transaction::new(Forest::new(store.clone(), BranchCache::default()), store.clone());
    let mut b: B3 = StreamBuilder::new(Config::debug(), secrets.clone());
    let mut at = 0;
    let mut roots = vec![];
    for _ in 0..s.usize(1, 4) {
        let n = match s.weighted(&[3, 4, 1]) {
            0 => s.usize(1, 5),
            1 => s.usize(1, 60),
            _ => match s.weighted(&[8, 1]) {
                0 => s.usize(60, 400),
                _ => s.usize(1000, 2500),
            },
        };
        let els = gen_els(s, n, &mut at);
        if s.bool() {
            t.extend(&mut b, els).must("extend")?;
        } else {
            t.extend_unpacked(&mut b, els).must("extend_unpacked")?;
        }
        if s.chance(1, 8) {
            t.pack(&mut b).must("pack")?;
        }
        if s.chance(1, 8) {
            let from = s.below(b.count() + 1);
            t.retain(&mut b, &OffsetRangeQuery::from(from..)).must("retain")?;
        }
        roots.extend(b.link());
    }
    let model = t.collect(&b.snapshot()).must("collect")?;
    let root = b.link().must_some("root")?;
    // missing blocks
    let mut gone: BTreeSet<Link> = BTreeSet::new();
    let links: Vec<Link> = t
        .iter_index(&b.snapshot(), AllQuery)
        .filter_map(|x| x.ok().and_then(|x| *x.link()))
        .filter(|x| *x != root)
        .collect();
    if s.chance(1, 5) && !links.is_empty() {
        for _ in 0..s.usize(1, 3) {
            gone.insert(*s.pick(&links));
        }
    }
    let w = W3 { dir: Dir::new()?, secrets, pass, root, model, broken: !gone.is_empty(), repaired: false };
    let mut db = w.db()?;
    let mut all: Vec<(Link, Vec<u8>)> = store.with(|x| x.blocks.iter().map(|(k, v)| (*k, v.to_vec())).collect());
    all.sort_by_key(|x| x.0);
    for (l, d) in all {
        if !gone.contains(&l) {
            let got = db.put(d).must("put")?;
            check_eq!(got, l, "put", "link");
        }
    }
    obs.note(|| format!("tree of {} elements ({} present), root {}, args {:?}, {} blocks missing", w.model.len(), present(&w.model).len(), root, w.pass, gone.len()));
    Ok((w, roots))
}

fn cmp_lines(what: &str, got: &[String], want: &[String]) -> R {
    for (i, (a, b)) in got.iter().zip(want).enumerate() {
        check!(a == b, what, "line {} is {:?} instead of {:?}", i, a, b);
    }
    check_eq!(got.len(), want.len(), what, "number of lines");
    Ok(())
}

fn c30(s: &mut Src, obs: &mut Obs) -> R {
    let (mut w, roots) = gen_w(s, obs)?;
    let clean = Txn3::new(Forest::new(w.db()?, BranchCache::default()), w.db()?);
    drop(clean);
    for _ in 0..s.usize(1, 3) {
        let root = w.root.to_string();
        let n = w.model.len() as u64;
        let have = present(&w.model);
        let f: Forest<TT, _> = Forest::new(w.db()?, BranchCache::default());
        let tree: Tree<TT, String> = f.load_tree(w.secrets.clone(), w.root).must("load_tree")?;
        if w.broken {
            // what can not be read is reported, and repair makes the rest accessible
            match s.below(3) {
                0 => {
                    obs.note(|| "dump-values of a broken tree".into());
                    let (code, out, _) = cli(&w.args(&["dump-values", "--root", &root]))?;
                    check!(code != 0, "exit", "dump-values of a tree that can not be read ends with 0");
                    for (a, b) in out.iter().zip(&have) {
                        check_eq!(a, &format!("{:?} {:?} {:?}", b.0, b.1, b.2), "dump-values", "line of a broken tree");
                    }
                    obs.label("broken");
                }
                1 => {
                    obs.note(|| "pack of a broken tree".into());
                    let (code, ..) = cli(&w.args(&["dump", "--root", &root]))?;
                    // leaves are not read
                    let ok = f.iter_index(&tree, AllQuery).all(|x| match x {
                        Ok(x) => x.level() == 0 || x.link().is_none() || f.store().get(&x.link().unwrap()).is_ok(),
                        Err(_) => false,
                    });
                    check_eq!(code == 0, ok, "exit", "dump of a broken tree succeeds");
                }
                _ => {
                    obs.note(|| "repair".into());
                    let out = cli_ok(&w.args(&["repair", "--root", &root]))?;
                    let r = dumped_root(&out)?;
                    let got = w.content(r)?;
                    check_eq!(got.len(), w.model.len(), "repair", "count");
                    // what the library makes of it
                    let mut t = Txn3::new(Forest::new(w.db()?, BranchCache::default()), w.db()?);
                    let mut b: B3 = t.load_stream_builder(w.secrets.clone(), Config::debug(), w.root).must("load")?;
                    t.repair(&mut b).must("repair")?;
                    let want = t.collect(&b.snapshot()).must("collect")?;
                    check!(got == want, "repair", "content after repair differs from that of the library");
                    for (a, b) in got.iter().zip(&w.model) {
                        check!(a.is_none() || a == b, "repair", "element changed");
                    }
                    w.model = got;
                    w.root = r;
                    w.broken = false;
                    w.repaired = true;
                    obs.label("repair");
                    obs.nontrivial |= n >= 5;
                }
            }
            continue;
        }
        match s.weighted(&[3, 2, 2, 2, 2, 3, 3, 3, 1, 3, 1, 2, 2]) {
            0 => {
                obs.note(|| "dump-values".into());
                let out = cli_ok(&w.args(&["dump-values", "--root", &root]))?;
                let want: Vec<String> = have.iter().map(|x| format!("{:?} {:?} {:?}", x.0, x.1, x.2)).collect();
                cmp_lines("dump-values", &out, &want)?;
                obs.label("dump-values");
                obs.nontrivial |= have.len() >= 10;
            }
            1 => {
                obs.note(|| "dump".into());
                let out = cli_ok(&w.args(&["dump", "--root", &root]))?;
                check_eq!(dumped_root(&out)?, w.root, "dump", "root");
                let mut got: Vec<Link> = vec![];
                for l in &out {
                    got.extend(dumped_link(l)?);
                }
                let mut want = vec![];
                let mut nodes = 0;
                for x in f.iter_index(&tree, AllQuery) {
                    let x = x.must("iter_index")?;
                    nodes += 1;
                    want.extend(*x.link());
                }
                got.sort();
                want.sort();
                check!(got == want, "dump", "{} links in the dump, {} in the tree", got.len(), want.len());
                check_eq!(out.len(), nodes, "dump", "lines of the dump");
                obs.label("dump");
                obs.nontrivial |= n >= 10;
            }
            2 => {
                obs.note(|| "graph".into());
                let out = cli_ok(&w.args(&["graph", "--root", &root]))?;
                let mut want = vec![];
                banyan_utils::dump::graph(&f, &tree, &mut want).must("graph")?;
                let want = String::from_utf8(want).must("graph")?;
                cmp_lines("graph", &out, &want.lines().map(|x| x.to_string()).collect::<Vec<_>>())?;
                obs.label("graph");
                obs.nontrivial |= n >= 10;
            }
            3 => {
                let links: Vec<Link> = f
                    .iter_index(&tree, AllQuery)
                    .filter_map(|x| x.ok().filter(|x| x.level() == 0).and_then(|x| *x.link()))
                    .collect();
                if links.is_empty() {
                    continue;
                }
                let l = *s.pick(&links);
                let cbor = s.bool();
                obs.note(|| format!("dump-block {} cbor: {}", l, cbor));
                let lt = l.to_string();
                let mut a = vec!["dump-block", "--hash", &lt];
                if cbor {
                    a.push("--cbor");
                }
                let out = cli_ok(&w.args(&a))?;
                let nonce: &chacha20::XNonce = <TT as banyan::TreeTypes>::NONCE.into();
                let mut want = vec![];
                if cbor {
                    banyan_utils::dump::dump_cbor(w.db()?, l, w.secrets.value_key(), nonce, &mut want).must("dump_cbor")?;
                } else {
                    banyan_utils::dump::dump_json(w.db()?, l, w.secrets.value_key(), nonce, &mut want).must("dump_json")?;
                }
                let want = String::from_utf8(want).must("text")?;
                check!(want.starts_with("ZstdDagCborSeq\n"), "dump-block", "not decrypted");
                cmp_lines("dump-block", &out, &want.lines().map(|x| x.to_string()).collect::<Vec<_>>())?;
                obs.label("dump-block");
            }
            4 => {
                obs.note(|| "stream".into());
                let out = cli_ok(&w.args(&["stream", "--root", &root]))?;
                let want: Vec<String> = have.iter().step_by(1000).map(line).collect();
                cmp_lines("stream", &out, &want)?;
                obs.label("stream");
            }
            5 => {
                let tags: Vec<&str> = (0..s.usize(1, 3)).map(|_| *s.pick(TAGS)).collect();
                obs.note(|| format!("filter {:?}", tags));
                let mut a = vec!["filter".to_string(), "--root".into(), root.clone()];
                for t in &tags {
                    a.push(format!("--tag={}", t));
                }
                let out = cli_ok(&w.args(&a.iter().map(|x| x.as_str()).collect::<Vec<_>>()))?;
                let out: Vec<String> = out.into_iter().filter(|x| x.starts_with('(')).collect();
                // an event is contained in a filter when it has no tag that the filter does not have
                let want: Vec<String> = have
                    .iter()
                    .filter(|x| tags.iter().any(|t| tags_of(&x.1) == BTreeSet::from([Tag::from(*t)])))
                    .step_by(1000)
                    .map(line)
                    .collect();
                cmp_lines("filter", &out, &want)?;
                obs.label("filter");
                obs.nontrivial |= n >= 10;
            }
            6 => {
                let before = gen_off(s, n);
                obs.note(|| format!("forget before {}", before));
                let out = cli_ok(&w.args(&["forget", "--root", &root, "--before", &before.to_string()]))?;
                let r = dumped_root(&out);
                // nothing may be left
                let mut t = Txn3::new(Forest::new(w.db()?, BranchCache::default()), w.db()?);
                let mut b: B3 = t.load_stream_builder(w.secrets.clone(), Config::debug(), w.root).must("load")?;
                t.retain(&mut b, &OffsetRangeQuery::from(before..)).must("retain")?;
                let want = t.collect(&b.snapshot()).must("collect")?;
                if b.link().is_none() {
                    check!(out.iter().any(|x| x.starts_with("PurgedBranch(")), "forget", "something is left");
                    obs.label("forget everything");
                    return Ok(());
                }
                let r = r?;
                let got = w.content(r)?;
                check_eq!(got.len(), w.model.len(), "forget", "count");
                for (i, (a, b)) in got.iter().zip(&w.model).enumerate() {
                    check!(if i as u64 >= before { a == b } else { a.is_none() || a == b }, "forget", "element {}", i);
                }
                check!(got == want, "forget", "forgets something else than the library");
                obs.label_if(got != w.model, "something forgotten");
                w.model = got;
                w.root = r;
                obs.label("forget");
                obs.nontrivial |= n >= 5;
            }
            7 => {
                if w.repaired {
                    continue;
                }
                obs.note(|| "pack".into());
                let (code, out, err) = cli(&w.args(&["pack", "--root", &root]))?;
                if have.len() < w.model.len() {
                    // nothing to expect of trees with purged parts in the way
                    if code != 0 {
                        obs.label("pack of a tree with purged parts fails");
                        continue;
                    }
                }
                check!(code == 0, "exit", "pack: {}", err);
                let r = dumped_root(&out)?;
                let got = w.content(r)?;
                check!(got == w.model, "pack", "content changes");
                let mut t = Txn3::new(Forest::new(w.db()?, BranchCache::default()), w.db()?);
                let mut b: B3 = t.load_stream_builder(w.secrets.clone(), Config::debug(), r).must("load")?;
                check!(t.is_packed(&b.snapshot()).must("is_packed")?, "pack", "not packed");
                t.pack(&mut b).must("pack")?;
                w.root = r;
                obs.label("pack");
                obs.nontrivial |= n >= 5;
            }
            8 => {
                obs.note(|| "repair of an intact tree".into());
                let out = cli_ok(&w.args(&["repair", "--root", &root]))?;
                let r = dumped_root(&out)?;
                check!(w.content(r)? == w.model, "repair", "content of an intact tree changes");
                w.root = r;
                obs.label("repair of an intact tree");
            }
            9 => {
                let (batches, count) = (s.usize(1, 3), s.usize(0, 40));
                let base = s.bool();
                let unbalanced = s.bool();
                obs.note(|| format!("build {} x {}, on top: {}, unbalanced: {}", batches, count, base, unbalanced));
                let (bt, ct) = (batches.to_string(), count.to_string());
                let mut a = vec!["build", "--count", &ct, "--batches", &bt];
                if base {
                    a.extend(["--base", &root]);
                }
                if unbalanced {
                    a.push("--unbalanced");
                }
                if base && (w.repaired || have.len() < w.model.len()) {
                    // invariants of the tool do not hold for trees with purged parts
                    continue;
                }
                let out = cli_ok(&w.args(&a))?;
                let mut want = if base { w.model.clone() } else { vec![] };
                want.extend(built((batches * count) as u64).into_iter().map(Some));
                if want.is_empty() {
                    continue;
                }
                let r = dumped_root(&out)?;
                let got = w.content(r)?;
                check_eq!(got.len(), want.len(), "build", "count");
                for (i, (a, b)) in got.iter().zip(&want).enumerate() {
                    check!(a == b, "build", "element {} is {:?} instead of {:?}", i, a, b);
                }
                w.model = want;
                w.root = r;
                obs.label("build");
                obs.nontrivial |= got.len() >= 5;
            }
            10 => {
                let count = s.small(3000);
                obs.note(|| format!("bench {}", count));
                let out = cli_ok(&w.args(&["bench", "--count", &count.to_string()]))?;
                let nums: Vec<u64> = out.iter().filter_map(|x| x.parse().ok()).collect();
                let fizz = (0..count).filter(|i| build_tag(*i) == "fizz").count() as u64;
                let rare = (0..count).filter(|i| build_tag(*i) == "fizzbuzz" && *i <= count / 10).count() as u64;
                check_eq!(nums, vec![fizz, rare], "bench", "numbers of matches");
                obs.label("bench");
            }
            11 => {
                let r = with_net(|svc, _| recv(s, obs, &w, &roots, svc));
                r?;
            }
            12 if s.chance(1, 20) => {
                let r = with_net(|svc, _| send(s, obs, &w, svc));
                r?;
            }
            _ => {
                let r = with_net(|svc, _| ipfs(s, obs, &w, &have, svc));
                r?;
            }
        }
    }
    if s.chance(1, 10) {
        // unknown root, malformed root
        let bad = if s.bool() { Link::new(b"nothing").to_string() } else { "bafynothing".to_string() };
        let cmd = *s.pick(&["dump-values", "dump", "graph", "stream", "pack", "repair"]);
        obs.note(|| format!("{} of {}", cmd, bad));
        let (code, ..) = cli(&w.args(&[cmd, "--root", &bad]))?;
        check!(code != 0, "exit", "{} of an unknown root ends with 0", cmd);
        obs.label("unknown root");
    }
    Ok(())
}

fn tags_of(k: &Key) -> BTreeSet<Tag> {
    let v = serde_json::to_value(k).expect("json");
    v["tags"].as_array().map(|a| a.iter().map(|x| Tag::from(x.as_str().unwrap_or(""))).collect()).unwrap_or_default()
}

fn recv(s: &mut Src, obs: &mut Obs, w: &W3, roots: &[Link], svc: &Shared) -> R {
    // older roots, then the current one; things that are not roots
    let mut pay: Vec<Vec<u8>> = vec![];
    let same = roots.contains(&w.root);
    for r in roots.iter().filter(|_| same) {
        if s.bool() {
            pay.push(r.to_string().into_bytes());
        }
        if s.chance(1, 4) {
            pay.push(s.pick(&[&b"x"[..], b"\xff", b"", b"bafyreigh2akiscaildcqabsyg3dfr6chu3fgpregiymsck7e7aqa4s52zy"]).to_vec());
        }
        if *r == w.root {
            break;
        }
    }
    pay.push(w.root.to_string().into_bytes());
    let topic = s.pick(&["t", "a/b", "ü ", "%"]).to_string();
    obs.note(|| format!("recv-stream of {:?}", pay.iter().map(|x| String::from_utf8_lossy(x).to_string()).collect::<Vec<_>>()));
    let mut feed = vec![];
    for p in &pay {
        feed.extend_from_slice(super::ipfs::event(s, &topic, p).as_bytes());
        feed.push(b'\n');
    }
    {
        let mut g = svc.lock().unwrap();
        g.feed = feed;
        g.script = VecDeque::from(vec![Mode::Ok(super::ipfs::gen_frame(s))]);
    }
    let out = cli_ok(&w.args(&["recv-stream", &format!("--topic={}", topic)]))?;
    // older trees may contain what the current one does not have any more
    let have = present(&w.model);
    let want: Vec<String> = have.iter().map(|x| format!("Ok({:?})", x)).collect();
    let set: BTreeSet<&String> = out.iter().collect();
    check_eq!(set.len(), out.len(), "recv-stream", "elements that are printed once");
    if have.len() == w.model.len() || pay.len() == 1 {
        cmp_lines("recv-stream", &out, &want)?;
    } else {
        for l in &out {
            check!(l.starts_with("Ok("), "recv-stream", "line {}", l);
        }
    }
    obs.label("recv-stream");
    obs.nontrivial |= have.len() >= 10;
    Ok(())
}

fn ipfs(s: &mut Src, obs: &mut Obs, w: &W3, have: &[T3], svc: &Shared) -> R {
    obs.label("ipfs");
    let mut args = w.args(&[]);
    args.retain(|x| !x.starts_with("--storage"));
    args.push("--storage=ipfs".into());
    if s.bool() {
        let f: Forest<TT, _> = Forest::new(w.db()?, BranchCache::default());
        let tree: Tree<TT, String> = f.load_tree(w.secrets.clone(), w.root).must("load_tree")?;
        for x in f.iter_index(&tree, AllQuery) {
            if let Some(l) = x.must("iter_index")?.link() {
                let d = f.store().get(l).must("get")?.to_vec();
                svc.lock().unwrap().blocks.insert(Cid::from(*l).to_string(), d);
            }
        }
        obs.note(|| "dump-values from ipfs".into());
        args.extend(["dump-values".into(), "--root".into(), w.root.to_string()]);
        let out = cli_ok(&args)?;
        let want: Vec<String> = have.iter().map(|x| format!("{:?} {:?} {:?}", x.0, x.1, x.2)).collect();
        return cmp_lines("dump-values", &out, &want);
    }
    let count = s.usize(1, 30);
    obs.note(|| format!("build {} to ipfs", count));
    args.extend(["build".into(), "--count".into(), count.to_string()]);
    let out = cli_ok(&args)?;
    let r = dumped_root(&out)?;
    let store = HStore::new();
    for d in svc.lock().unwrap().blocks.values() {
        store.put_raw(d);
    }
    let f: Forest<TT, _> = Forest::new(store, BranchCache::default());
    let t: Tree<TT, String> = f.load_tree(w.secrets.clone(), r).must("load_tree of what the tool made")?;
    let got = f.collect(&t).must("collect")?;
    check!(got == built(count as u64).into_iter().map(Some).collect::<Vec<_>>(), "build", "tree in ipfs");
    Ok(())
}

/// roots are published until the node refuses one
fn send(s: &mut Src, obs: &mut Obs, w: &W3, svc: &Shared) -> R {
    let n = s.usize(0, 2);
    let topic = s.pick(&["t", "a/b", "ü ", "%"]).to_string();
    obs.note(|| format!("send-stream, {} times", n));
    obs.label("send-stream");
    let mut script: VecDeque<Mode> = (0..n).map(|_| Mode::Ok(super::ipfs::gen_frame(s))).collect();
    script.push_back(Mode::Status(500, b"pubsub is off".to_vec(), super::ipfs::Frame::Length));
    svc.lock().unwrap().script = script;
    let (code, ..) = cli(&w.args(&["send-stream", &format!("--topic={}", topic)]))?;
    check!(code != 0, "exit", "send-stream ends with 0 although the node refused");
    let seen = std::mem::take(&mut svc.lock().unwrap().seen);
    check_eq!(seen.len(), n + 1, "send-stream", "number of messages");
    for (i, x) in seen.iter().enumerate() {
        check_eq!(x.path, "/api/v0/pubsub/pub", "send-stream", "path");
        check!(x.args.len() == 2 && x.args[0].1 == topic.as_bytes(), "send-stream", "arguments {:?}", x.args);
        let root = String::from_utf8_lossy(&x.args[1].1).parse::<Link>().must("published root")?;
        let got = w.content(root)?;
        check_eq!(got.len(), i + 1, "send-stream", "count of a published tree");
        for (j, x) in got.iter().enumerate() {
            let want = Key::single(j as u64, j as u64, TagSet::single(Tag::from(build_tag(j as u64))));
            check!(*x == Some((want, "xxx".to_string())), "send-stream", "element {} is {:?}", j, x);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------- regressions

/// what is built with a password must not be readable without
fn r_password() -> R {
    let dir = Dir::new()?;
    let st = format!("--storage={}", dir.0.join("db.sqlite").display());
    let p = ["--index-pass=a".to_string(), "--value-pass=b".to_string()];
    let arg = |cmd: &[&str], pass: bool| -> Vec<String> {
        let mut v: Vec<String> = cmd.iter().map(|x| x.to_string()).collect();
        v.push(st.clone());
        if pass {
            v.extend(p.iter().cloned());
        }
        v
    };
    let out = cli_ok(&arg(&["build", "--count", "5"], true))?;
    let root = dumped_root(&out)?.to_string();
    let (code, ..) = cli(&arg(&["dump-values", "--root", &root], false))?;
    check!(code != 0, "password", "tree built with passwords can be read without");
    let out = cli_ok(&arg(&["dump-values", "--root", &root], true))?;
    check_eq!(out.len(), 5, "password", "values with the passwords");
    for cmd in ["pack", "filter", "forget"] {
        let mut a = vec![cmd, "--root", &root];
        match cmd {
            "filter" => a.extend(["--tag", "fizz"]),
            "forget" => a.extend(["--before", "1"]),
            _ => {}
        }
        cli_ok(&arg(&a, true))?;
    }
    Ok(())
}
