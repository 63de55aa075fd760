W = "banyan/src/forest/write.rs"
RD = "banyan/src/forest/read.rs"
ST = "banyan/src/forest/stream.rs"
II = "banyan/src/forest/index_iter.rs"
M = "banyan/src/forest/mod.rs"
T = "banyan/src/tree.rs"
Q = "banyan/src/query.rs"
U = "banyan/src/util.rs"
Z = "banyan/src/store/zstd_dag_cbor_seq.rs"
SB = "banyan/src/stream_builder.rs"
TI = "banyan-utils/src/tag_index.rs"
TG = "banyan-utils/src/tags.rs"
IP = "banyan-utils/src/ipfs.rs"
CL = "banyan-utils/src/bin/cli.rs"
LB = "banyan-utils/src/lib.rs"
DU = "banyan-utils/src/dump.rs"
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c01-drop-at-uncompressed-limit", "C01", [(Z, """            // check that we don't exceed the uncompressed_size goal before adding
            if size + bytes.len() > uncompressed_size {
                // we know that the next item does not fit, so we are full even if
                // there is some space left.
                full = true;
                break;
            }
            // scrape links from the new item
            scrape_links(bytes.as_ref(), &mut links)?;
            // this is guaranteed to work because of the peek above.
            // Now we are committed to add the item.
            let (key, _) = from.next().unwrap();
            size += bytes.len();
            encoder.write_all(&bytes)?;
            keys.push(key);
            if encoder.get_ref().len() >= compressed_size {
                break;
            }
        }
        // call finish to write the zstd frame
        let data = encoder.finish()?;
        // log elapsed time and compression rate
        tracing::trace!(
            "ZstdArray::fill elapsed={} compressed={} uncompressed={}",
            t0.elapsed().as_secs_f64(),
            data.len(),
            size
        );
        full |= data.len() >= compressed_size;
        full |= keys.len() >= max_keys;
        full |= size >= uncompressed_size;
        Ok((Self::new(data, links.into_iter().collect()), full))
    }

    /// create a ZStdArray by filling from an iterator""", """            // this is guaranteed to work because of the peek above.
            let (key, _) = from.next().unwrap();
            // check that we don't exceed the uncompressed_size goal before adding
            if size + bytes.len() > uncompressed_size {
                // we know that the next item does not fit, so we are full even if
                // there is some space left.
                full = true;
                break;
            }
            // scrape links from the new item
            scrape_links(bytes.as_ref(), &mut links)?;
            size += bytes.len();
            encoder.write_all(&bytes)?;
            keys.push(key);
            if encoder.get_ref().len() >= compressed_size {
                break;
            }
        }
        // call finish to write the zstd frame
        let data = encoder.finish()?;
        // log elapsed time and compression rate
        tracing::trace!(
            "ZstdArray::fill elapsed={} compressed={} uncompressed={}",
            t0.elapsed().as_secs_f64(),
            data.len(),
            size
        );
        full |= data.len() >= compressed_size;
        full |= keys.len() >= max_keys;
        full |= size >= uncompressed_size;
        Ok((Self::new(data, links.into_iter().collect()), full))
    }

    /// create a ZStdArray by filling from an iterator""")],
    "a leaf whose next item does not fit within max_uncompressed_leaf_size although the other limits are not reached",
    "fill consumes the item that no longer fits, so the element is lost",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut c = cfg(1000, 4, 4);
    c.max_uncompressed_leaf_size = 100;
    let mut b = builder(c);
    t.extend(&mut b, (0..300u64).map(|i| (key(i), i + (1 << 20)))).unwrap();
    assert_eq!(values(&forest(&s), &b.snapshot()), range((1 << 20)..(1 << 20) + 300));
}
""")

bug("c02-or-after-first", "C02", [(Q, """    fn intersecting(&self, offset: u64, index: &BranchIndex<T>, res: &mut [bool]) {
        let mut tmp = res.to_vec();
        self.0.intersecting(offset, index, res);
        self.1""", """    fn intersecting(&self, offset: u64, index: &BranchIndex<T>, res: &mut [bool]) {
        self.0.intersecting(offset, index, res);
        let mut tmp = res.to_vec();
        self.1""")],
    "an or query where a branch child can only match the second operand",
    "children that only the second operand can match are skipped, so matching elements are missing",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(2, 2, 2));
    t.extend(&mut b, items(0..40)).unwrap();
    let q = OrQuery(
        OffsetRangeQuery::from(3..5),
        OffsetRangeQuery::from(33..35),
    ).boxed();
    let q: Arc<dyn Query<TT>> = q;
    let got: Vec<u64> = forest(&s).iter_filtered(&b.snapshot(), q).map(|x| x.unwrap().2).collect();
    assert_eq!(got, vec![3, 4, 33, 34]);
}
""")

bug("c03-merge-skipped", "C03", [(RD, """                        let index = &branch.children[next_idx];
                        head.next_pos(&self.mode);
                        // calculate the range in advance
                        let range = match self.mode {
                            Mode::Forward => self.offset..self.offset.saturating_add(index.count()),
                            Mode::Backward => {
                                self.offset.saturating_sub(index.count())..self.offset
                            }
                        };
                        let info = self.forest.node_info(&self.secrets, index);
                        // move offset
                        match self.mode {
                            Mode::Forward => self.offset += index.count(),
                            Mode::Backward => self.offset -= index.count(),
                        };""", """                        let index = &branch.children[next_idx];
                        head.next_pos(&self.mode);
                        // report adjacent children that are skipped as one
                        let mut count = index.count();
                        while !head.is_exhausted(&self.mode)
                            && !head.filter[head.position as usize]
                        {
                            count += branch.children[head.position as usize].count();
                            head.next_pos(&self.mode);
                        }
                        // calculate the range in advance
                        let range = match self.mode {
                            Mode::Forward => self.offset..self.offset.saturating_add(count),
                            Mode::Backward => self.offset.saturating_sub(count)..self.offset,
                        };
                        let info = self.forest.node_info(&self.secrets, index);
                        // move offset
                        match self.mode {
                            Mode::Forward => self.offset += count,
                            Mode::Backward => self.offset -= count,
                        };""")],
    "a query that rules out two or more adjacent children of a branch but not all",
    "adjacent skipped nodes are merged into one chunk whose extra data is computed from only the first",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(3, 4, 4));
    t.extend(&mut b, (0..12u64).map(|i| (Key::single(i, i, tags(&[if i < 3 { "a" } else { "b" }])), i))).unwrap();
    let q = Arc::new(DnfQuery(vec![Key::filter_tags(tags(&["a"]))])) as Arc<dyn Query<TT>>;
    let f = forest(&s);
    for c in f.iter_filtered_chunked::<_, u64, _, _>(&b.snapshot(), q, &|info| match info {
        NodeInfo::Branch(x, _) | NodeInfo::PurgedBranch(x) => x.count,
        NodeInfo::Leaf(x, _) | NodeInfo::PurgedLeaf(x) => x.keys.count(),
    }) {
        let c = c.unwrap();
        assert_eq!(c.extra, c.range.end - c.range.start);
    }
}
""")

bug("c04-cache-rewritten-branch", "C04", [(W, """                        let (link, _) = self.persist_branch(&children, stream)?;
                        // todo: update size data
                        index.link = Some(link);""", """                        let (link, _) = self.persist_branch(&children, stream)?;
                        // the next read is likely to need the children
                        if let Some(link) = index.link {
                            let branch = crate::index::Branch::new(children, node.byte_range);
                            self.branch_cache.put(link, branch);
                        }
                        // todo: update size data
                        index.link = Some(link);""")],
    "a snapshot of a tree is read through a shared branch cache after a retain of the builder that forgot part of it",
    "retain puts the rewritten children into the cache under the link of the old branch, so earlier snapshots lose data",
    """
fn main() {
    let s = S::new();
    let mut t = txn_cached(&s);
    let mut b = builder(cfg(2, 2, 2));
    t.extend(&mut b, items(0..20)).unwrap();
    let snap = b.snapshot();
    t.retain(&mut b, &OffsetRangeQuery::from(10..)).unwrap();
    assert_eq!(values(t.read(), &snap), range(0..20));
}
""")

bug("c05-reload-sealed-ignores-level", "C05", [(T, """            |items, level| config.branch_sealed(items, level),""", """            |items, level| {
                let max = if level == 1 {
                    config.max_key_branches
                } else {
                    config.max_summary_branches
                };
                items.len() >= max && items.iter().all(|x| x.sealed())
            },""")],
    "a reload of an unpacked root whose children are all full but of different levels, with max_summary_branches 2",
    "the reloaded builder considers its root sealed and continues differently",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(2, 2, 2));
    t.extend_unpacked(&mut b, items(0..8)).unwrap();
    t.extend_unpacked(&mut b, items(8..12)).unwrap();
    let link = b.link().unwrap();
    let b2: B = forest(&s).load_stream_builder(secrets(), cfg(2, 2, 2), link).unwrap();
    assert_eq!(b.index().unwrap().sealed(), b2.index().unwrap().sealed());
}
""")

bug("c06-sealed-last-child-level", "C06", [(M, """        if items.iter().any(|x| x.level() != level - 1) {""", """        if items.last().map(|x| x.level()) != Some(level - 1) {""")],
    "an unpacked append of a taller tree to a smaller full one with max_summary_branches 2",
    "a branch with children of different levels is marked sealed",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(2, 2, 2));
    t.extend_unpacked(&mut b, items(0..4)).unwrap();
    t.extend_unpacked(&mut b, items(4..12)).unwrap();
    assert!(!b.index().unwrap().sealed());
    assert!(forest(&s).check_invariants(&b).unwrap().is_empty());
}
""")

bug("c09-rollback-restores-offset", "C09", [(SB, """    restore: Option<Option<Index<T>>>,""", """    restore: Option<(Option<Index<T>>, CipherOffset)>,"""),
    (SB, """        Self {
            builder,
            restore: Some(index),
        }""", """        let offset = builder.state.offset.clone();
        Self {
            builder,
            restore: Some((index, offset)),
        }"""),
    (SB, """        if let Some(index) = self.restore.take() {
            self.builder.set_index(index);
        }""", """        if let Some((index, offset)) = self.restore.take() {
            self.builder.set_index(index);
            self.builder.state_mut().offset = offset;
        }""")],
    "a transaction that wrote blocks is rolled back and the builder is used again",
    "key stream offsets of the rolled back blocks are used again for other data",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(4, 4, 4));
    t.extend(&mut b, items(0..6)).unwrap();
    {
        let mut x = b.transaction();
        t.extend(&mut x, items(100..110)).unwrap();
    }
    t.extend(&mut b, items(6..20)).unwrap();
    let mut ranges: Vec<std::ops::Range<u64>> = vec![];
    for x in s.with(|x| x.blocks.values().cloned().collect::<Vec<_>>()) {
        let k = secrets();
        let n: &chacha20::XNonce = <&chacha20::XNonce>::try_from(TT::NONCE).unwrap();
        let is_leaf = |key: &chacha20::Key| {
            let (z, r) = ZstdDagCborSeq::decrypt(&x, key, n).unwrap();
            (z.count().is_ok(), r)
        };
        let (leaf, r) = is_leaf(k.value_key());
        if !leaf {
            continue;
        }
        for o in &ranges {
            assert!(o.end <= r.start || r.end <= o.start, "key stream reused {:?} {:?}", o, r);
        }
        ranges.push(r);
    }
}
""")

bug("c10-leaf-with-index-key", "C10", [(W, """            &stream.value_key().clone(),""", """            &stream.index_key().clone(),"""),
    (RD, """        let (items, range) = ZstdDagCborSeq::decrypt(data, stream.value_key(), nonce::<T>())?;""", """        let (items, range) = ZstdDagCborSeq::decrypt(data, stream.index_key(), nonce::<T>())?;""")],
    "a reader that only has the index key, or a tool that has only the value key",
    "values are encrypted with the index key, so they can be read without the value key",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(4, 4, 4));
    t.extend(&mut b, items(0..20)).unwrap();
    let x = Secrets::new([1; 32].into(), [9; 32].into());
    let tree: Tree<TT, u64> = forest(&s).load_tree(x, b.link().unwrap()).unwrap();
    assert!(forest(&s).collect::<u64>(&tree).is_err());
}
""")

bug("c13-repair-cached", "C13", [(W, """                // important not to hit the cache here!
                let branch = self.load_branch(stream.secrets(), index);""", """                let branch = index
                    .link
                    .map(|link| self.load_branch_cached_from_link(stream.secrets(), &link))
                    .transpose();""")],
    "a branch block is lost while its content is still in the branch cache",
    "repair does not notice the lost branch, and the tree can not be read once the cache is gone",
    """
fn main() {
    let s = S::new();
    let mut t = txn_cached(&s);
    let mut b = builder(cfg(2, 2, 2));
    t.extend(&mut b, items(0..20)).unwrap();
    values(t.read(), &b.snapshot());
    let f = forest(&s);
    let lost = f.iter_index(&b.snapshot(), AllQuery).map(|x| x.unwrap()).filter(|x| x.level() == 1).nth(1).unwrap();
    s.with(|x| x.blocks.remove(&lost.link().unwrap()));
    assert!(!t.repair(&mut b).unwrap().is_empty());
    let got = forest(&s).collect::<u64>(&b.snapshot()).unwrap();
    assert_eq!(got.len(), 20);
}
""")

bug("c15-skip-unreadable", "C15", [(RD, """                // ensure we are done after the error
                self.stack.clear();
                Some(Err(cause))""", """                // report the error and proceed with the next node
                if let Some(state) = self.stack.pop() {
                    match self.mode {
                        Mode::Forward => self.offset += state.index.count(),
                        Mode::Backward => self.offset -= state.index.count(),
                    }
                }
                if let Some(last) = self.stack.last_mut() {
                    last.next_pos(&self.mode);
                }
                Some(Err(cause))""")],
    "a block that can not be read or decoded, and a consumer that does not stop at the first error",
    "reads continue after the error and deliver data with a gap",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(2, 2, 2));
    t.extend(&mut b, items(0..20)).unwrap();
    let f = forest(&s);
    let lost = f.iter_index(&b.snapshot(), AllQuery).map(|x| x.unwrap()).filter(|x| x.level() == 0).nth(3).unwrap();
    s.with(|x| x.broken.insert(lost.link().unwrap()));
    let mut failed = false;
    for x in f.iter_filtered(&b.snapshot(), AllQuery) {
        assert!(!failed, "data after error");
        failed = x.is_err();
    }
    assert!(failed);
}
""")

bug("c18-end-not-updated", "C18", [(ST, """                let end_offset = end_offset_ref.load(Ordering::SeqCst);
""", """                let end_offset = *range.end();
""")],
    "a reverse live stream where reading one tree fails half way and the next tree takes over",
    "elements that were already delivered are delivered again",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(4, 4, 4));
    t.extend(&mut b, items(0..20)).unwrap();
    let a = b.snapshot();
    t.extend(&mut b, items(20..21)).unwrap();
    let f = forest(&s);
    let lost = f.iter_index(&a, AllQuery).map(|x| x.unwrap()).filter(|x| x.level() == 0).nth(2).unwrap().link().unwrap();
    s.with(|x| x.broken.insert(lost));
    let s2 = s.clone();
    let n = b.snapshot();
    let trees = stream::iter(vec![a, n]).enumerate().map(move |(i, x)| {
        if i == 1 {
            s2.with(|x| x.broken.clear());
        }
        x
    });
    let got: Vec<_> = futures::executor::block_on(
        f.stream_trees_chunked_reverse(AllQuery, trees, 0..=19, &|_| ()).collect::<Vec<_>>(),
    );
    let got: Vec<u64> = got.into_iter().flat_map(|x| x.unwrap().data.into_iter().rev()).map(|x| x.0).collect();
    assert_eq!(got, (0..20).rev().collect::<Vec<u64>>());
}
""")

bug("c19-memstore-limit", "C19", [("banyan/src/store/mem_store.rs", """        if blocks.current_size + data.len() > self.0.max_size {""", """        if blocks.current_size > self.0.max_size {""")],
    "a put that exceeds the remaining capacity of a MemStore that is not full yet",
    "the store takes more data than its maximum size",
    """
fn main() {
    let mut m = MemStore::new(100, L::digest);
    m.put(vec![1; 90]).unwrap();
    assert!(m.put(vec![2; 90]).is_err());
}
""")

bug("c21-unbounded-buffer", "C21", [("banyan/src/store/thread_local_zstd.rs", """            .unwrap_or(MAX_CAPACITY)
            .min(MAX_CAPACITY);""", """            .unwrap_or(MAX_CAPACITY);""")],
    "a block with a zstd frame whose header claims a huge content size",
    "the claimed size is allocated, which aborts the process",
    """
fn main() {
    // zstd frame header with an 8 byte content size
    let mut data = vec![0x28, 0xb5, 0x2f, 0xfd, 0xe0];
    data.extend_from_slice(&(1u64 << 62).to_le_bytes());
    data.extend_from_slice(&[1, 0, 0]);
    assert!(ZstdDagCborSeq::fill(
        &data,
        &mut vec![(0u64, 1u64)].into_iter().peekable(),
        &mut vec![],
        3,
        100,
        100,
        100
    )
    .is_err());
}
""")

bug("c22-absorb-wrong-way", "C22", [(TI, """            for b in that.0.iter() {
                let mut r = TagSet::default();""", """            for b in that.0.iter() {
                // a & (a & x | ...)
                if a.is_subset(b) {
                    insert_unless_redundant(&mut rs, b.clone());
                    break;
                }
                let mut r = TagSet::default();""")],
    "a conjunction of a term with a disjunction that contains a larger term first and an unrelated one later",
    "the products with the remaining terms are missing from the normal form",
    """
use banyan_utils::tag_index::Expression;
fn main() {
    let l = |x: &str| Expression::literal(x.into());
    let e = l("a") & ((l("a") & l("b")) | l("c"));
    let d = e.dnf();
    assert!(d.0.iter().any(|x| x.is_subset(&tags(&["a", "c"]))));
}
""")

bug("c23-unknown-tag-matches-nothing", "C23", [(TI, """        let query = query.0.iter().filter_map(lookup).collect::<Vec<_>>();
        // not""", """        let query = query
            .0
            .iter()
            .map(lookup)
            .collect::<Option<Vec<_>>>()
            .unwrap_or_default();
        // not""")],
    "a query with several terms, one of which has a tag that does not occur in the index",
    "elements that match one of the other terms are not found",
    """
use banyan_utils::tag_index::{Expression, TagIndex};
fn main() {
    let l = |x: &str| Expression::literal(x.into());
    let t = TagIndex::from_elements(&[tags(&["a"]), tags(&["b"])]);
    assert_eq!(t.matching((l("a") | l("zz")).dnf()), vec![0]);
}
""")

bug("c24-max-time-last", "C24", [(TG, """        let max_time = *self.max_time.iter().max().unwrap();""", """        let max_time = *self.max_time.last().unwrap();""")],
    "events whose times are not ascending, and a query for the later times",
    "the summary of a node does not cover all times in it, so matching events are missed",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(2, 2, 2));
    let k = |x: u64| Key::single(x, x, tags(&["t"]));
    t.extend(&mut b, vec![(k(9), 0u64), (k(1), 1), (k(2), 2), (k(3), 3), (k(4), 4)]).unwrap();
    let q = Arc::new(DnfQuery(vec![Key::range(8, 10, tags(&["t"]))])) as Arc<dyn Query<TT>>;
    assert_eq!(forest(&s).iter_filtered(&b.snapshot(), q).count(), 1);
}
""")

bug("c25-reverse-index-offset", "C25", [(II, """                            Mode::Backward => self.offset - index.count,""", """                            Mode::Backward => self.offset,""")],
    "reverse index iteration with an offset range query",
    "the query is asked about the wrong offsets, so nodes are missing",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(2, 2, 2));
    t.extend(&mut b, items(0..30)).unwrap();
    let f = forest(&s);
    let n = |x: &[L]| x.iter().cloned().collect::<BTreeSet<_>>();
    let a: Vec<L> = f.iter_index(&b.snapshot(), OffsetRangeQuery::from(10..13)).map(|x| x.unwrap().link().unwrap()).collect();
    let r: Vec<L> = f.iter_index_reverse(&b.snapshot(), OffsetRangeQuery::from(10..13)).map(|x| x.unwrap().link().unwrap()).collect();
    assert_eq!(n(&a), n(&r));
}
""")

bug("c25-graph-ids", "C25", [(T, """                cur += n.len();""", """                cur += 1;""")],
    "the graph of a tree with at least two levels of branches",
    "nodes get the same id, so nodes are missing and edges are wrong",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(2, 2, 2));
    t.extend(&mut b, items(0..16)).unwrap();
    let f = forest(&s);
    let n = f.iter_index(&b.snapshot(), AllQuery).count();
    let (edges, nodes) = f.dump_graph(&b.snapshot(), |(id, _)| id).unwrap();
    assert_eq!(nodes.len(), n);
    assert_eq!(edges.len(), n - 1);
}
""")

bug("c26-cache-double-lock", "C26", [("banyan/src/store/branch_cache.rs", """        self.0.as_ref().and_then(|x| x.lock().get(link).cloned())""", """        let cache = self.0.as_ref()?;
        if cache.lock().get(link).is_none() {
            return None;
        }
        let res = cache.lock().get(link).cloned();
        Some(res.expect("just checked"))""")],
    "two threads share a small branch cache and one evicts an entry between the check and the access of the other",
    "the reader panics",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(1, 2, 2));
    t.extend(&mut b, items(0..300)).unwrap();
    let tree = b.snapshot();
    let start = std::time::Instant::now();
    let f = Forest::new(s.clone(), BranchCache::new(4000));
    let ok: Vec<_> = (0..8).map(|_| {
        let (f, tree) = (f.clone(), tree.clone());
        std::thread::spawn(move || {
            while start.elapsed().as_secs() < 20 {
                assert_eq!(values(&f, &tree), range(0..300));
            }
        })
    }).collect();
    for x in ok {
        x.join().unwrap();
    }
}
""")

bug("c27-recursive-ascent-index", "C27", [(II, """                // increase last stack ptr, if there is still something left to
                // traverse
                if let Some(last) = self.stack.last_mut() {
                    last.next_pos(&self.mode);
                }
                continue;""", """                // increase last stack ptr, if there is still something left to
                // traverse
                if let Some(last) = self.stack.last_mut() {
                    last.next_pos(&self.mode);
                }
                let span = tracing::trace_span!("ascend");
                let _entered = span.enter();
                return self.next();""")],
    "reverse index iteration of a tree that is thousands of levels deep because of many unpacked appends",
    "going back up recurses for each level and overflows the stack",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(4, 2, 2));
    for i in 0..6000 {
        t.extend_unpacked(&mut b, items(i..i + 1)).unwrap();
    }
    let f = forest(&s);
    let tree = b.snapshot();
    std::thread::Builder::new()
        .stack_size(500_000)
        .spawn(move || {
            assert_eq!(f.iter_index_reverse(&tree, AllQuery).filter(|x| x.as_ref().unwrap().level() == 0).count(), 6000);
            std::mem::forget(tree);
        })
        .unwrap()
        .join()
        .unwrap();
}
""")

bug("c28-fallback-on-undecodable", "C28", [(DU, """        Ok((dag_cbor, _)) => {
            let cs = dag_cbor.items::<CborOwned>()?;
            writeln!""", """        Ok((dag_cbor, _)) => {
            let cs = dag_cbor.items::<CborOwned>().unwrap_or_default();
            writeln!""")],
    "a block is dumped as cbor with a key that is not the one it was encrypted with",
    "the dump succeeds with no items instead of reporting an error",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(4, 2, 2));
    t.extend(&mut b, items(0..2)).unwrap();
    let n: &chacha20::XNonce = <&chacha20::XNonce>::try_from(TT::NONCE).unwrap();
    let link = s.with(|x| x.puts[0]);
    let mut out = vec![];
    assert!(banyan_utils::dump::dump_cbor(s, link, &[9; 32].into(), n, &mut out).is_err());
}
""")

bug("c07-packed-ignores-level", "C07", [(RD, """                        .all(|child| child.sealed() && child.level() == index.level - 1);""", """                        .all(|child| child.sealed());""")],
    "packing an unpacked tree whose full children are of different levels, the tallest not first",
    "the tree is considered packed although it is not, so pack does nothing",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(2, 2, 2));
    t.extend_unpacked(&mut b, items(0..4)).unwrap();
    t.extend_unpacked(&mut b, items(4..12)).unwrap();
    t.pack(&mut b).unwrap();
    let f = forest(&s);
    let n = f.iter_index(&b.snapshot(), AllQuery).map(|x| x.unwrap()).filter(|x| x.level() == 1).count();
    assert_eq!(n, 3);
    let top = b.index().unwrap();
    assert_eq!(top.level(), 3);
    let roots = f.roots(&b).unwrap();
    assert_eq!(roots[0].level(), 2, "not packed");
}
""")

bug("c08-unpacked-extends-small-tree", "C08", [(W, """        // create a completely new tree
        let b = self.extend_above(None, u32::max_value(), &mut from, stream)?;""", """        // a small tree that is not yet full can just be extended
        if let Some(small) = index.filter(|x| x.level() <= 1 && !x.sealed()) {
            return Ok(Some(self.extend_above(
                Some(small),
                u32::max_value(),
                &mut from,
                stream,
            )?));
        }
        // create a completely new tree
        let b = self.extend_above(None, u32::max_value(), &mut from, stream)?;""")],
    "an unpacked append to a tree of level 1 that is not full",
    "the unpacked append reads and rewrites the old tree instead of leaving it in place",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(10, 4, 4));
    t.extend_unpacked(&mut b, items(0..3)).unwrap();
    s.with(|x| x.gets.clear());
    t.extend_unpacked(&mut b, items(3..6)).unwrap();
    assert_eq!(s.with(|x| x.gets.len()), 0);
}
""")

LINKS = """
use libipld::{Cid, Ipld};
#[derive(Debug, Clone)]
struct V(Option<Cid>);
impl cbor_data::codec::WriteCbor for V {
    fn write_cbor<W: cbor_data::Writer>(&self, w: W) -> W::Output {
        match &self.0 {
            Some(c) => {
                let mut b = vec![0u8];
                b.extend(c.to_bytes());
                w.write_bytes(b.as_slice(), [42])
            }
            None => w.write_pos(1, None),
        }
    }
}
impl cbor_data::codec::ReadCbor for V {
    fn fmt(f: &mut impl std::fmt::Write) -> std::fmt::Result {
        write!(f, "V")
    }
    fn read_cbor(_: &cbor_data::Cbor) -> cbor_data::codec::Result<Self> {
        Ok(V(None))
    }
}
fn check(vs: Vec<Vec<V>>, c: Vec<Cid>) {
    let s = S::new();
    let mut t = txn(&s);
    let mut b: StreamBuilder<TT, V> = StreamBuilder::new(cfg(100, 4, 4), secrets());
    for v in vs {
        t.extend(&mut b, v.into_iter().map(|v| (key(0), v))).unwrap();
    }
    let f = forest(&s);
    for i in f.iter_index(&b.snapshot(), AllQuery) {
        let i = i.unwrap();
        if i.level() == 0 {
            let data = f.store().get(&i.link().unwrap()).unwrap();
            let x: Ipld = libipld::codec::Codec::decode(&libipld::cbor::DagCborCodec, &data[..]).unwrap();
            let mut refs = BTreeSet::new();
            x.references(&mut refs);
            assert_eq!(refs, c.iter().cloned().collect::<BTreeSet<_>>(), "links are not visible");
        }
    }
}
"""
FILL_PREFIX = """        max_keys: usize,
    ) -> anyhow::Result<(Self, bool)> {
        let mut links = BTreeSet::new();
        let t0 = Instant::now();
        let mut encoder = zstd::Encoder::new(Vec::new(), zstd_level)?;
        // decompress into the encoder, if necessary
        //
        // also init decompressed size
        let mut size = if !compressed.is_empty() {
            // the first ? is to handle the io error from decompress_and_transform, the second to handle the inner io error from write_all
            let (size, data) =
                decompress_and_transform(compressed, &mut |decompressed| -> anyhow::Result<()> {
                    scrape_links(decompressed, &mut links)?;
                    encoder.write_all(decompressed)?;
                    Ok(())
                })?;
            data?;
            size
        } else {
            0
        };
        let mut full = false;
        let mut bytes = Vec::new();"""
bug("c11-links-of-extended-leaf", "C11", [(Z, FILL_PREFIX, FILL_PREFIX.replace("scrape_links(decompressed, &mut links)?;", "scrape_links(Cbor::checked_prefix(decompressed)?.0.as_slice(), &mut links)?;"))],
    "a leaf that already contains a link, but not in its first item, is extended in place by a later append",
    "the rewritten leaf no longer lists the links of its existing items",
    LINKS + """
fn main() {
    let c = Cid::from(L::digest(b"x"));
    check(vec![vec![V(None), V(Some(c))], vec![V(None)]], vec![c]);
}
""")

bug("c11-links-only-small-items", "C11", [(Z, """            if let (Some(42), ItemKind::Bytes(b)) = (item.tags().single(), item.kind()) {""", """            if let (Some(42), ItemKind::Bytes(b)) = (item.tags().first(), item.kind()) {""")],
    "a byte string with the link tag as the innermost or outermost of several tags, which is not a link",
    "bytes that are not a link are taken for one, so the item is rejected or listed wrongly",
    LINKS.replace("w.write_bytes(b.as_slice(), [42])", "w.write_bytes(b.as_slice(), [42, 99])") + """
fn main() {
    let c = Cid::from(L::digest(b"x"));
    check(vec![vec![V(None), V(Some(c))]], vec![]);
}
""")

bug("c16-exclusive-bounds", "C16", [(U, "(Bound::Excluded(end), Bound::Excluded(start)) => end <= start,", "(Bound::Excluded(end), Bound::Excluded(start)) => end < start,")],
    "an offset range with an exclusive start bound that is exactly the end of a branch",
    "a branch that can not contain a match is loaded",
    """
use std::ops::Bound;
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(2, 2, 2));
    t.extend(&mut b, items(0..64)).unwrap();
    let f = forest(&s);
    s.with(|x| x.gets.clear());
    let n = f.iter_filtered(&b.snapshot(), OffsetRangeQuery::from((Bound::Excluded(64), Bound::Unbounded))).count();
    assert_eq!(n, 0);
    assert_eq!(s.with(|x| x.gets.len()), 0);
}
""")

bug("c16-leaf-load-reverse", "C16", [(RD, """        // materialize the actual (offset, key, value) triples for the matching bits
        let data = if matching.any() {""", """        // materialize the actual (offset, key, value) triples for the matching bits
        let data = if matching.any() || range.start == 0 {""")],
    "a filtered read where no key of the first leaf matches",
    "the first leaf is always loaded",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(4, 4, 4));
    t.extend(&mut b, items(0..16)).unwrap();
    let f = forest(&s);
    let leaf = f.iter_index(&b.snapshot(), AllQuery).map(|x| x.unwrap()).find(|x| x.level() == 0).unwrap();
    s.with(|x| x.gets.clear());
    assert_eq!(f.iter_filtered(&b.snapshot(), OffsetRangeQuery::from(5..9)).count(), 4);
    assert!(!s.with(|x| x.gets.contains(&leaf.link().unwrap())));
}
""")

STREAM2 = """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(4, 4, 4));
    let k = |i: u64| Key::single(i, i, tags(&[if i % 4 == 3 { "a" } else { "b" }]));
    let mut trees = vec![];
    for i in 0..5u64 {
        t.extend(&mut b, (i * 10..i * 10 + 10).map(|i| (k(i), i))).unwrap();
        trees.push(b.snapshot());
    }
    let q = Arc::new(DnfQuery(vec![Key::filter_tags(tags(&["a"]))])) as Arc<dyn Query<TT>>;
    let pool = futures::executor::ThreadPool::new().unwrap();
    let got: Vec<_> = futures::executor::block_on(
        forest(&s)
            .stream_trees_chunked_threaded(q.clone(), stream::iter(trees.clone()), 0..=u64::MAX, &|_| (), pool)
            .collect::<Vec<_>>(),
    );
    let a: Vec<u64> = got.into_iter().flat_map(|x| x.unwrap().data).map(|x| x.0).collect();
    let got: Vec<_> = futures::executor::block_on(
        forest(&s)
            .stream_trees_chunked(q, stream::iter(trees), 0..=u64::MAX, &|_| ())
            .collect::<Vec<_>>(),
    );
    let b: Vec<u64> = got.into_iter().flat_map(|x| x.unwrap().data).map(|x| x.0).collect();
    let e = (0..50u64).filter(|x| x % 4 == 3).collect::<Vec<_>>();
    assert_eq!(b, e);
    assert_eq!(a, e);
}
"""
bug("c17-threaded-offset-from-data", "C17", [(ST, """                            offset.fetch_max(chunk.range.end, Ordering::SeqCst);""", """                            if let Some((last, _, _)) = chunk.data.last() {
                                offset.fetch_max(*last, Ordering::SeqCst);
                            }""")],
    "a live stream on a thread pool over more than one tree with a match that is seen again",
    "the last matching element of a tree is delivered again for the next tree",
    STREAM2)

bug("c20-item-at-limit", "C20", [(Z, """            value.write_cbor(CborBuilder::append_to(&mut bytes));
            // if a single item is too big, bail out
            anyhow::ensure!(bytes.len() <= uncompressed_size, "single item too large!");
            // check that we don't exceed the uncompressed_size goal before adding
            if size + bytes.len() > uncompressed_size {""", """            value.write_cbor(CborBuilder::append_to(&mut bytes));
            // if a single item is too big, bail out
            anyhow::ensure!(bytes.len() <= uncompressed_size, "single item too large!");
            // check that we don't exceed the uncompressed_size goal before adding
            if !keys.is_empty() && size + bytes.len() >= uncompressed_size {""")],
    "the next item would exactly use up the uncompressed size limit",
    "an item that fits is left out and the block is reported as full",
    """
fn main() {
    let mut keys = vec![];
    let mut from = (0..10u64).map(|x| (x, x)).peekable();
    let (_, full) = ZstdDagCborSeq::fill(&[], &mut from, &mut keys, 3, 1000, 10, 1000).unwrap();
    assert_eq!(keys.len(), 10);
    assert!(full);
}
""")


bug("c12-leaf-last-match", "C12", [(W, """                    query.containing(offset, &index, &mut matching);
                    if !matching.any() {""", """                    query.containing(offset, &index, &mut matching);
                    if matching.last() == Some(&false) {""")],
    "a retain whose query matches an element of a leaf but not its last one",
    "the leaf is forgotten although it contains matching elements",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(4, 4, 4));
    t.extend(&mut b, items(0..32)).unwrap();
    t.retain(&mut b, &OffsetRangeQuery::from(4..6)).unwrap();
    let got = forest(&s).collect::<u64>(&b.snapshot()).unwrap();
    assert!(got[4].is_some() && got[5].is_some());
}
""")

bug("c12-second-retain-offset", "C12", [(W, """                    let offsets = zip_with_offset_ref(node.children.iter(), offset);
                    for (i, (child, offset)) in offsets.enumerate() {""", """                    let present = node.children.iter().filter(|x| x.link().is_some());
                    let offsets = zip_with_offset_ref(present, offset);
                    let skip = node.children.iter().take_while(|x| x.link().is_none()).count();
                    for (i, (child, offset)) in offsets.enumerate() {
                        // no need to look at what is already forgotten
                        let i = i + skip;""")],
    "a second retain of a tree in which the first retain has forgotten leading children of a branch",
    "offsets of the remaining children are wrong, so matching elements are forgotten",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(2, 4, 4));
    t.extend(&mut b, items(0..24)).unwrap();
    t.retain(&mut b, &OffsetRangeQuery::from(4..)).unwrap();
    t.retain(&mut b, &OffsetRangeQuery::from(6..)).unwrap();
    let got = forest(&s).collect::<u64>(&b.snapshot()).unwrap();
    assert!(got[6..].iter().all(|x| x.is_some()));
}
""")

bug("c14-rollback-to-empty", "C14", [(SB, """        if let Some(index) = self.restore.take() {
            self.builder.set_index(index);
        }""", """        if let Some(Some(index)) = self.restore.take() {
            self.builder.set_index(Some(index));
        }""")],
    "a transaction on an empty builder is dropped after an append",
    "the first transaction of a stream can not be rolled back",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(2, 4, 4));
    {
        let mut x = b.transaction();
        t.extend(&mut x, items(0..5)).unwrap();
    }
    assert!(b.is_empty());
    t.extend(&mut b, items(7..9)).unwrap();
    assert_eq!(values(&forest(&s), &b.snapshot()), vec![7, 8]);
}
""")

bug("c14-take-index", "C14", [(T, """        let index = tree.as_index_ref().cloned();
        let index = self.extend_unpacked0(index.as_ref(), from, tree.state_mut())?;""", """        let index = tree.take_index();
        let index = self.extend_unpacked0(index.as_ref(), from, tree.state_mut())?;"""),
    (SB, """    pub(crate) fn set_index(&mut self, index: Option<Index<T>>) {""", """    pub(crate) fn take_index(&mut self) -> Option<Index<T>> {
        self.root.take()
    }

    pub(crate) fn set_index(&mut self, index: Option<Index<T>>) {""")],
    "extend_unpacked that fails at a block write or on an item that is too large",
    "the builder is empty after the failed append",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(2, 4, 4));
    t.extend(&mut b, items(0..5)).unwrap();
    s.with(|x| x.fail_put_in = Some(2));
    assert!(t.extend_unpacked(&mut b, items(5..12)).is_err());
    assert_eq!(values(&forest(&s), &b.snapshot()), range(0..5));
}
""")

bug("c09-retain-offset", "C09", [(T, """            let index = self.retain0(0, query, &index, &mut level, tree.state_mut())?;
            tree.set_index(Some(index));""", """            let mut state = tree.state().clone();
            let index = self.retain0(0, query, &index, &mut level, &mut state)?;
            *tree.state_mut() = state;
            tree.set_index(Some(index));"""),
    (SB, """#[derive(Debug)]
pub(crate) struct StreamBuilderState {""", """#[derive(Debug, Clone)]
pub(crate) struct StreamBuilderState {""")],
    "a retain that fails after it has written a block, and then another operation",
    "the key stream range of blocks written by the failed retain is used again",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(2, 2, 2));
    t.extend(&mut b, items(0..16)).unwrap();
    let before = s.with(|x| x.blocks.keys().cloned().collect::<Vec<_>>());
    s.with(|x| x.fail_put_in = Some(1));
    assert!(t.retain(&mut b, &OffsetRangeQuery::from(3..)).is_err());
    let mut ranges: Vec<std::ops::Range<u64>> = vec![];
    t.retain(&mut b, &OffsetRangeQuery::from(7..)).unwrap();
    for (l, x) in s.with(|x| x.blocks.clone()) {
        if before.contains(&l) {
            continue;
        }
        let k = secrets();
        let n: &chacha20::XNonce = <&chacha20::XNonce>::try_from(TT::NONCE).unwrap();
        let (_, r) = ZstdDagCborSeq::decrypt(&x, k.index_key(), n).unwrap();
        for o in &ranges {
            assert!(o.end <= r.start || r.end <= o.start, "key stream reused {:?} {:?}", o, r);
        }
        ranges.push(r);
    }
    assert!(ranges.len() > 2);
}
""")

bug("c13-deep-change", "C13", [(W, """                            let child1 = self.repair0(child, report, level, stream)?;
                            if child1.link() != child.link() {""", """                            let child1 = self.repair0(child, report, level, stream)?;
                            if child1.link().is_none() && child.link().is_some() {""")],
    "a lost block at least two levels below the root",
    "the repaired branch is not put in place, so the tree stays unreadable",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(2, 2, 2));
    t.extend(&mut b, items(0..20)).unwrap();
    let f = forest(&s);
    let lost = f.iter_index(&b.snapshot(), AllQuery).map(|x| x.unwrap()).filter(|x| x.level() == 0).nth(3).unwrap();
    s.with(|x| x.blocks.remove(&lost.link().unwrap()));
    assert!(!t.repair(&mut b).unwrap().is_empty());
    let got = forest(&s).collect::<u64>(&b.snapshot()).unwrap();
    assert_eq!(got.iter().flatten().count(), 18);
}
""")

bug("c02-stream-ends-early", "C02", [(RD, """        self.stream_filtered_chunked0(secrets, query, index, &|_| {})
            .map_ok(|chunk| stream::iter(chunk.data).map(Ok))
            .try_flatten()
            .boxed()""", """        let mut started = false;
        self.stream_filtered_chunked0(secrets, query, index, &|_| {})
            .try_take_while(move |chunk| {
                // no need to go on after the last match
                let done = started && chunk.data.is_empty();
                started |= !chunk.data.is_empty();
                future::ready(Ok(!done))
            })
            .map_ok(|chunk| stream::iter(chunk.data).map(Ok))
            .try_flatten()
            .boxed()""")],
    "a query whose matches are not contiguous, read as a stream",
    "the stream ends at the first chunk without matches after a match",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(2, 4, 4));
    t.extend(&mut b, items(0..40)).unwrap();
    let q = OrQuery(OffsetRangeQuery::from(3..5), OffsetRangeQuery::from(33..35)).boxed();
    let q: Arc<dyn Query<TT>> = q;
    let got: Vec<u64> = futures::executor::block_on(forest(&s).stream_filtered::<u64>(&b.snapshot(), q).map(|x| x.unwrap().2).collect::<Vec<_>>());
    assert_eq!(got, vec![3, 4, 33, 34]);
}
""")

bug("c16-get-all-children", "C16", [(RD, """                    if offset < child.count() {
                        self.collect0(stream, child, offset, into)?;
                    }
                    offset = offset.saturating_sub(child.count());""", """                    let mut tmp = Vec::new();
                    self.collect0(stream, child, 0, &mut tmp)?;
                    into.extend(tmp.into_iter().skip(offset as usize));
                    offset = offset.saturating_sub(child.count());""")],
    "collect_from with an offset past the first leaf",
    "all leaves before the offset are fetched as well",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(2, 4, 4));
    t.extend(&mut b, items(0..32)).unwrap();
    let f = forest(&s);
    let tree = b.snapshot();
    s.with(|x| x.gets.clear());
    assert_eq!(f.collect_from::<u64>(&tree, 30).unwrap().len(), 2);
    assert!(s.with(|x| x.gets.len()) <= 6);
}
""")

SERVE = r"""
/// answers the requests one after the other, returns the request lines and bodies
fn serve(answers: Vec<(&'static str, Vec<u8>)>) -> std::thread::JoinHandle<Vec<(String, Vec<u8>)>> {
    use std::io::{Read, Write};
    let l = std::net::TcpListener::bind("127.0.0.1:5001").unwrap();
    std::thread::spawn(move || {
        let mut seen = vec![];
        for (status, body) in answers {
            let (mut c, _) = l.accept().unwrap();
            let mut buf = vec![];
            let mut tmp = [0u8; 4096];
            let head = loop {
                let n = c.read(&mut tmp).unwrap();
                assert!(n > 0);
                buf.extend_from_slice(&tmp[..n]);
                if let Some(i) = buf.windows(4).position(|x| x == b"\r\n\r\n") {
                    break i;
                }
            };
            let text = String::from_utf8_lossy(&buf[..head]).to_string();
            let len: usize = text.to_lowercase().lines().find_map(|x| x.strip_prefix("content-length: ").map(|x| x.parse().unwrap())).unwrap_or(0);
            while buf.len() < head + 4 + len {
                let n = c.read(&mut tmp).unwrap();
                assert!(n > 0);
                buf.extend_from_slice(&tmp[..n]);
            }
            seen.push((text.lines().next().unwrap().to_string(), buf[head + 4..].to_vec()));
            let _ = c.write_all(format!("HTTP/1.1 {}\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", status, body.len()).as_bytes());
            let _ = c.write_all(&body);
        }
        seen
    })
}
"""

bug("c29-topic-escape", "C29", [(IP, """    use percent_encoding::{percent_encode, NON_ALPHANUMERIC};
    let topic = percent_encode(topic.as_bytes(), NON_ALPHANUMERIC).to_string();
    let data = percent_encode(data, NON_ALPHANUMERIC).to_string();""", """    use percent_encoding::{percent_encode, AsciiSet, CONTROLS};
    const QUERY: &AsciiSet = &CONTROLS.add(b' ').add(b'"').add(b'#').add(b'&').add(b'+').add(b'<').add(b'>');
    let topic = percent_encode(topic.as_bytes(), QUERY).to_string();
    let data = percent_encode(data, QUERY).to_string();""")],
    "a payload that contains a percent sign followed by two hex digits",
    "the percent sign is not escaped, so the node gets another payload",
    SERVE + """
fn main() {
    let h = serve(vec![("200 OK", vec![])]);
    publish("t", b"100%25");
    let seen = h.join().unwrap();
    assert_eq!(seen[0].0, "POST /api/v0/pubsub/pub?arg=t&arg=100%2525 HTTP/1.1");
}

fn publish(topic: &str, data: &[u8]) {
    tokio::runtime::Runtime::new().unwrap().block_on(banyan_utils::ipfs::pubsub_pub(topic, data)).unwrap();
}
""")

bug("c29-url-safe-base64", "C29", [(IP, """base64::decode(v).map(Base64Blob)""", """base64::decode_config(v, base64::URL_SAFE).map(Base64Blob)""")],
    "a message whose base64 form contains + or /",
    "the event is taken as malformed",
    """
fn main() {
    let x: banyan_utils::ipfs::Base64Blob = serde_json::from_str("\\"+/8=\\"").unwrap();
    assert_eq!(x.0, vec![0xfb, 0xff]);
}
""")

bug("c29-put-in-background", "C29", [(IP, """        let cid = std::thread::spawn(move || crate::ipfs::block_put(&data, 0x71, false))
            .join()
            .map_err(|_| anyhow!("join error!"))??;
        assert!(cid.hash().code() == 0x12);
        assert!(cid.hash().digest().len() == 32);
        cid.try_into()""", """        // the link is determined by the data, so there is no need to wait for the node
        let digest = Sha256Digest::new(&data);
        let expected: Cid = digest.into();
        std::thread::spawn(move || match crate::ipfs::block_put(&data, 0x71, false) {
            Ok(cid) => assert_eq!(cid, expected),
            Err(cause) => tracing::error!("block_put: {}", cause),
        });
        expected.try_into()""")],
    "a node that refuses to store a block",
    "put of the store returns a link although the block has not been stored",
    SERVE + """
fn main() {
    let h = serve(vec![("500 Error", b"{}".to_vec())]);
    let r = banyan_utils::ipfs::IpfsStore::default().put(vec![0x80]);
    h.join().unwrap();
    assert!(r.is_err());
}
""")

bug("c30-forget-one-more", "C30", [(CL, """OffsetRangeQuery::from(before..)""", """OffsetRangeQuery::from(before + 1..)""")],
    "the offset before which to forget is the last one of a leaf",
    "the leaf with the element at the given offset is forgotten as well",
    """#cli
r = root(cli("build", "--count", "60")[1])
leaf = int(os.environ.get("LEAF", "10"))
for before in range(1, 30):
    x = root(cli("forget", "--root", r, "--before", str(before))[1])
    offs = [int(l.split()[0]) for l in cli("dump-values", "--root", x)[1]]
    assert set(range(before, 60)) <= set(offs), before
""")

bug("c30-password-chars", "C30", [(LB, """    for (i, v) in text.as_bytes().iter().take(32).enumerate() {
        key[i] = *v;
    }""", """    for (k, c) in key.iter_mut().zip(text.chars()) {
        *k = c as u8;
    }""")],
    "a password with characters outside of latin 1",
    "such characters are cut to their low byte, in the extreme case to the key for no password",
    """#cli
p = ["--value-pass", "\u0100\u0200"]
r = root(cli("build", "--count", "5", *p)[1])
assert len(cli("dump-values", "--root", r, *p)[1]) == 5
assert cli("dump-values", "--root", r, ok=False)[0] != 0
""")

bug("c30-dump-block-key", "C30", [(CL, """dump::dump_json(store, hash, &value_key, nonce, &mut std::io::stdout())?;""", """dump::dump_json(store, hash, &index_key, nonce, &mut std::io::stdout())?;""")],
    "dump-block without --cbor of a leaf of a tree with two different passwords",
    "the block is decrypted with the wrong password",
    """#cli
p = ["--value-pass", "a", "--index-pass", "b"]
out = cli("build", "--count", "5", *p)[1]
leaf = re.search("link=([a-z0-9]+)", [x for x in out if "Leaf(" in x][0]).group(1)
assert '"4"' in "".join(cli("dump-block", "--hash", leaf, *p)[1])
""")

bug("c30-recv-ends-at-bad-root", "C30", [(CL, """            let trees = links.filter_map(move |link| {
                let forest = forest2.clone();
                let secrets = secrets.clone();
                future::ready(
                    link.and_then(move |link| forest.load_tree::<String>(secrets, link))
                        .ok(),
                )
            });""", """            let trees = links
                .map(move |link| {
                    let forest = forest2.clone();
                    let secrets = secrets.clone();
                    link.and_then(move |link| forest.load_tree::<String>(secrets, link))
                        .ok()
                })
                .take_while(|tree| future::ready(tree.is_some()))
                .filter_map(future::ready);""")],
    "a message that is no known root, followed by one that is",
    "recv-stream ends at the first message it can not make sense of",
    """#cli
r = root(cli("build", "--count", "5")[1])
feed("hello", r)
assert len(cli("recv-stream", "--topic", "t")[1]) == 5
""")

BCF = "banyan/src/store/branch_cache.rs"
IX = "banyan/src/index.rs"

bug("c31-summaries-weigh-nothing", "C31", [(BCF, """                    bytes += branch.summaries.estimated_size();
""", """                    bytes += std::mem::size_of_val(branch);
""")],
    "a cache that is full of branches above the lowest level, with large summaries",
    "the size of summaries is not counted, so the cache holds far more than its capacity",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(Config { max_leaf_count: 1, max_key_branches: 2, max_summary_branches: 64, ..Config::debug() });
    t.extend(&mut b, items(0..600)).unwrap();
    let cap = 30_000;
    let cache = BranchCache::<TT>::new(cap);
    let f = Forest::new(s.clone(), cache.clone());
    for x in f.iter_index(&b.snapshot(), AllQuery) {
        x.unwrap();
    }
    let mut held = 0;
    for l in s.with(|x| x.puts.clone()) {
        if let Some(br) = cache.get(&l) {
            for c in br.children.iter() {
                held += match c {
                    Index::Leaf(x) => x.keys.estimated_size(),
                    Index::Branch(x) => x.summaries.estimated_size(),
                };
            }
        }
    }
    assert!(held <= cap, "{} in a cache of {}", held, cap);
}
""")

bug("c31-single-child-not-cached", "C31", [(RD, """                self.branch_cache().put(*link, branch.clone());
                Ok(branch)""", """                // not worth the space
                if branch.children.len() > 1 {
                    self.branch_cache().put(*link, branch.clone());
                }
                Ok(branch)""")],
    "branches with a single child (unpacked appends)",
    "such branches are read from the store each time",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(Config::debug());
    t.extend_unpacked(&mut b, items(0..5)).unwrap();
    let f = Forest::new(s.clone(), BranchCache::<TT>::new(1 << 20));
    for _ in 0..3 {
        for x in f.iter_index(&b.snapshot(), AllQuery) {
            x.unwrap();
        }
    }
    let gets = s.with(|x| x.gets.len());
    assert_eq!(gets, 1);
}
""")

bug("c32-packed-first-child", "C32", [(RD, """                    let first_ok = rest
                        .iter()
                        .all(|child| child.sealed() && child.level() == index.level - 1);""", """                    let first_ok = rest.windows(2).all(|x| {
                        x.iter()
                            .all(|child| child.sealed() && child.level() == index.level - 1)
                    });""")],
    "an unpacked tree whose branches have at most two children",
    "is_packed is true for a tree that is not packed",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(Config::debug());
    t.extend_unpacked(&mut b, items(0..3)).unwrap();
    t.extend_unpacked(&mut b, items(3..6)).unwrap();
    assert!(!t.is_packed(&b.snapshot()).unwrap());
    t.pack(&mut b).unwrap();
    assert!(t.is_packed(&b.snapshot()).unwrap());
}
""")

bug("c32-checks-below-unsealed", "C32", [(RD, """                for child in &branch.children.to_vec() {
                    self.check_invariants0(secrets, config, child, level, msgs)?;
                }""", """                for child in &branch.children.to_vec() {
                    // what is full has been checked when it was made
                    if !child.sealed() || child.level() == 0 {
                        self.check_invariants0(secrets, config, child, level, msgs)?;
                    }
                }""")],
    "an inconsistency below a sealed branch",
    "it is not reported",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(2, 2, 4));
    t.extend(&mut b, items(0..40)).unwrap();
    assert!(t.check_invariants(&b).unwrap().is_empty());
    // make the values of each leaf unreadable in turn
    for x in t.iter_index(&b.snapshot(), AllQuery) {
        let x = x.unwrap();
        if x.level() == 0 {
            let l = x.link().unwrap();
            s.with(|s| s.broken.insert(l));
            let found = t.check_invariants(&b).map(|x| !x.is_empty()).unwrap_or(true);
            s.with(|s| s.broken.remove(&l));
            assert!(found, "leaf {} is not checked", l);
        }
    }
}
""")

bug("c33-put-size-on-success-only", "C33", [(W, """        #[cfg(feature = "metrics")]
        prom::BLOCK_PUT_SIZE_HIST.observe(data.len() as f64);
        self.writer.put(data)""", """        #[cfg(feature = "metrics")]
        let len = data.capacity();
        let link = self.writer.put(data)?;
        #[cfg(feature = "metrics")]
        prom::BLOCK_PUT_SIZE_HIST.observe(len as f64);
        Ok(link)""")],
    "a block whose buffer has spare capacity, or a failing write",
    "the metric shows the size of the buffer instead of that of the block",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(100, 4, 4));
    t.extend(&mut b, items(0..333)).unwrap();
    let want: usize = s.with(|x| x.puts.iter().map(|l| x.blocks[l].len()).sum());
    let r = prometheus::Registry::new();
    banyan::register_metrics(&r).unwrap();
    for f in r.gather() {
        if f.get_name() == "banyan_block_put_size" {
            assert_eq!(f.get_metric()[0].get_histogram().get_sample_sum(), want as f64);
        }
    }
}
""")

bug("c33-get-size-of-values-only", "C33", [(RD, """        let res = self.store.get(link);
        #[cfg(feature = "metrics")]
        if let Ok(x) = &res {""", """        let res = self.store.get(link);
        #[cfg(feature = "metrics")]
        if let Some(x) = res.as_ref().ok().filter(|x| x.len() > 128) {""")],
    "small blocks",
    "blocks of at most 128 bytes are missing in the metric for the size of blocks read",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(100, 4, 4));
    t.extend(&mut b, items(0..3)).unwrap();
    s.with(|x| x.gets.clear());
    let f = forest(&s);
    let size = || {
        let r = prometheus::Registry::new();
        banyan::register_metrics(&r).unwrap();
        r.gather().iter().find(|f| f.get_name() == "banyan_block_get_size").unwrap().get_metric()[0].get_histogram().get_sample_sum()
    };
    let s0 = size();
    values(&f, &b.snapshot());
    let want: usize = s.with(|x| x.gets.iter().map(|l| x.blocks[l].len()).sum());
    assert_eq!(size() - s0, want as f64);
}
""")

bug("c34-unit-seq-past-end", "C34", [(IX, """        if index < self.0 {
            Some(())""", """        if index <= self.0 {
            Some(())""")],
    "tree types with unit keys, and asking for the key one past the end",
    "a sequence of unit keys has one element more than its length says",
    """
fn main() {
    let s: UnitSeq = vec![(), ()].into_iter().collect();
    assert_eq!(s.len(), 2);
    assert_eq!(s.get(1), Some(()));
    assert_eq!(s.get(2), None);
}
""")

bug("c34-transaction-reads-behind-writer", "C34", [(M, """        let (reader, writer) = f(self.0.as_ref().store.clone());
        Transaction {
            read: Self::new(reader, self.branch_cache.clone()),
            writer,
        }""", """        let (_reader, writer) = f(self.0.as_ref().store.clone());
        Transaction {
            read: self.clone(),
            writer,
        }""")],
    "a transaction whose reader is another store than that of the forest, made with Forest::transaction",
    "the transaction reads from the store of the forest, and does not find what it has written",
    """
fn main() {
    let old = S::new();
    let new = S::new();
    let f = forest(&old);
    let mut t = f.transaction(|_| (new.clone(), new.clone()));
    let mut b = builder(cfg(2, 2, 2));
    t.extend(&mut b, items(0..5)).unwrap();
    t.extend(&mut b, items(5..9)).unwrap();
    assert_eq!(values(t.read(), &b.snapshot()), range(0..9));
}
""")

bug("c34-child-at-wraps", "C34", [(IX, """        self.as_ref()
            .get(offset)?
            .ok_or_else(|| anyhow!("index out of bounds {}", offset))""", """        // avoids a second pass when it is the only one
        if let [value] = &mut self.as_ref().items::<T>()?[..] {
            let mut values = self.as_ref().items::<T>()?;
            let _ = value;
            return Ok(values.remove(0));
        }
        self.as_ref()
            .get(offset)?
            .ok_or_else(|| anyhow!("index out of bounds {}", offset))""")],
    "Leaf::child_at past the end of a leaf with a single value",
    "the value is returned for every offset",
    """
fn main() {
    let x = ZstdDagCborSeq::single(&5u64, 0).unwrap();
    let leaf = Leaf::new(x, 0..1);
    assert_eq!(leaf.child_at::<u64>(0).unwrap(), 5);
    assert!(leaf.child_at::<u64>(1).is_err());
}
""")

# ------------------------------------------------------------------ scale, ranges of integers, concurrency
bug("c09-reload-offset-u32", "C09", [(T, """        let state = StreamBuilderState::new(byte_range.end, secrets, config);""",
    """        let state = StreamBuilderState::new(byte_range.end as u32 as u64, secrets, config);""")],
    "a stream that has used more than 4 GiB of the key stream and is loaded again",
    "the offset of the loaded builder is truncated to 32 bits, so key stream is used twice",
    """
use banyan::chacha20::{Key as CKey, XNonce};
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(2, 2, 2));
    t.extend(&mut b, items(0..5)).unwrap();
    // the same root, further along in the key stream
    let (k, n) = (CKey::from([1; 32]), *XNonce::from_slice(TT::NONCE));
    let root = s.with(|x| x.blocks[&b.link().unwrap()].clone());
    let (x, _) = ZstdDagCborSeq::decrypt(&root, &k, &n).unwrap();
    let far = x.encrypt(&k, &n, 5 << 32).unwrap();
    let end = ZstdDagCborSeq::decrypt(&far, &k, &n).unwrap().1.end;
    let mut w = s.clone();
    let link = w.put(far).unwrap();
    let mut b: B = t.load_stream_builder(secrets(), cfg(2, 2, 2), link).unwrap();
    s.with(|x| x.puts.clear());
    t.extend(&mut b, items(5..9)).unwrap();
    for l in s.with(|x| x.puts.clone()) {
        let block = s.with(|x| x.blocks[&l].clone());
        let range = ZstdDagCborSeq::decrypt(&block, &k, &n).unwrap().1;
        assert!(range.start >= end, "{:?} {}", range, end);
    }
}
""")

bug("c01-key-position-u16", "C01", [(RD, """                let k = index.keys.get(offset as usize).unwrap();""",
    """                let k = index.keys.get(offset as u16 as usize).unwrap();""")],
    "a leaf with more than 65536 elements",
    "reading an element returns the key of another element",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(Config { target_leaf_size: 1 << 20, ..cfg(1 << 20, 4, 4) });
    t.extend(&mut b, items(0..66000)).unwrap();
    let tree = b.snapshot();
    for i in [0, 1, 65535, 65536, 65999] {
        assert_eq!(t.get::<u64>(&tree, i).unwrap(), Some((key(i), i)));
    }
}
""")

bug("c02-or-wide-branch", "C02", [(Q, """        let mut tmp = res.to_vec();
        self.0.intersecting(offset, index, res);
        self.1.intersecting(offset, index, &mut tmp);
        res.or_with(&tmp);""", """        // avoids an allocation
        let mut tmp = [false; 64];
        let n = res.len().min(tmp.len());
        tmp[..n].copy_from_slice(&res[..n]);
        self.0.intersecting(offset, index, res);
        self.1.intersecting(offset, index, &mut tmp[..n]);
        res.or_with(&tmp);""")],
    "a branch with more than 64 children and an or query whose second part matches past them",
    "elements below the 65th and later children that match only the second part are missing",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(1, 200, 4));
    t.extend(&mut b, items(0..150)).unwrap();
    let (x, y) = (DnfQuery(vec![Key::range(3, 3, tags(&["t"]))]), DnfQuery(vec![Key::range(140, 140, tags(&["t"]))]));
    let q = OrQuery(x, y).boxed();
    let r: Vec<u64> = t.iter_filtered(&b.snapshot(), q).map(|x: Result<(u64, Key, u64)>| x.unwrap().0).collect();
    assert_eq!(r, vec![3, 140]);
}
""")

bug("c24-times-signed", "C24", [(TG, """        if self.max_time < that.min_time {
            return false;
        }
        if self.min_time > that.max_time {
            return false;
        }
        true""", """        if self.max_time < that.min_time {
            return false;
        }
        let (a, b) = (self.min_time as i64, that.max_time as i64);
        if a > b {
            return false;
        }
        true""")],
    "events with times from 2^63 on",
    "subtrees are taken to be outside of the time range of the query",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(2, 4, 4));
    t.extend(&mut b, (0..5).map(|i| (Key::single(i, (1 << 63) + i, tags(&["t"])), i))).unwrap();
    let q = DnfQuery(vec![Key::range(1, u64::MAX, tags(&["t"]))]);
    let r: Vec<u64> = t.iter_filtered(&b.snapshot(), q.boxed()).map(|x: Result<(u64, Key, u64)>| x.unwrap().0).collect();
    assert_eq!(r, vec![0, 1, 2, 3, 4]);
}
""")

bug("c23-matching-index-u8", "C23", [(TI, """            s.iter()
                .map(|t| self.tags.as_ref().binary_search(t).ok().map(|x| x as u32))
                .collect::<Option<_>>()
        };""", """            s.iter()
                .map(|t| self.tags.as_ref().binary_search(t).ok().map(|x| x as u8 as u32))
                .collect::<Option<_>>()
        };""")],
    "a tag index with more than 256 distinct tags",
    "a query for one of the later tags matches the elements with another tag",
    """
use banyan_utils::tag_index::*;
fn main() {
    let e: Vec<TagSet> = (0..300).map(|i| tags(&[&format!("{:04}", i)])).collect();
    let x = TagIndex::from_elements(&e);
    for i in [0usize, 43, 44, 255, 256, 299] {
        assert_eq!(x.matching(Expression::literal(format!("{:04}", i).into()).dnf()), vec![i]);
    }
}
""")

bug("c24-query-index-u8", "C24", [(TI, """        .map(|t| table.as_ref().binary_search(t).ok().map(|x| x as u32))
        .collect::<Option<_>>()
}""", """        .map(|t| table.as_ref().binary_search(t).ok().map(|x| (x as u8).into()))
        .collect::<Option<_>>()
}""")],
    "a branch whose summary has more than 256 distinct tags",
    "a query for one of the later tags does not find its events",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(400, 4, 4));
    let name = |i: u64| format!("{:04}", i);
    t.extend(&mut b, (0..300).map(|i| (Key::single(i, i, tags(&[&name(i)])), i))).unwrap();
    for i in [0, 43, 44, 255, 256, 299] {
        let q = DnfQuery(vec![Key::filter_tags(tags(&[&name(i)]))]);
        let r: Vec<u64> = t.iter_filtered(&b.snapshot(), q.boxed()).map(|x: Result<(u64, Key, u64)>| x.unwrap().0).collect();
        assert_eq!(r, vec![i]);
    }
}
""")

bug("c22-no-absorption-when-large", "C22", [(TI, """        for b in that.0 {
            insert_unless_redundant(&mut rs, b);
        }
        Dnf(rs)""", """        // the check is quadratic, so avoid it for large expressions
        let large = rs.len() > 16;
        for b in that.0 {
            if large {
                rs.insert(b);
            } else {
                insert_unless_redundant(&mut rs, b);
            }
        }
        Dnf(rs)""")],
    "a disjunction with more than 16 terms",
    "the normal form has terms that subsume others",
    """
use banyan_utils::tag_index::*;
fn main() {
    let l = |i: usize| Expression::literal(format!("{}", i).into());
    let e = Expression::or((0..20).map(l).collect());
    let f = Expression::or(vec![e.clone(), Expression::and(vec![l(1), l(2)])]);
    assert_eq!(e.dnf(), f.dnf());
}
""")

bug("c26-torn-memo", "C26", [(BCF, """#[derive(Debug, Clone)]
pub struct BranchCache<T: TreeTypes>(CacheOrBypass<T>);""", """type Last<X> = Arc<Mutex<Option<X>>>;

#[derive(Debug, Clone)]
pub struct BranchCache<T: TreeTypes>(CacheOrBypass<T>, Last<T::Link>, Last<Branch<T>>);"""), (BCF, """        Self(cache)""", """        Self(cache, Default::default(), Default::default())"""),
  (BCF, """        self.0.as_ref().and_then(|x| x.lock().get(link).cloned())""", """        let cache = self.0.as_ref()?;
        // the last branch is often asked for again
        if self.1.lock().as_ref() == Some(link) {
            if let Some(branch) = self.2.lock().as_ref() {
                return Some(branch.clone());
            }
        }
        let branch = cache.lock().get(link).cloned()?;
        *self.1.lock() = Some(*link);
        *self.2.lock() = Some(branch.clone());
        Some(branch)"""), (BCF, """            *cache = WeightCache::new(capacity);""", """            *cache = WeightCache::new(capacity);
            *self.1.lock() = None;
            *self.2.lock() = None;""")],
    "two threads that use the same cache, one of which looks up a branch between the two writes of the other",
    "a reader gets another branch than the one it asked for",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(1, 2, 2));
    t.extend(&mut b, items(0..64)).unwrap();
    let tree = b.snapshot();
    let start = std::time::Instant::now();
    let f = Forest::new(s.clone(), BranchCache::new(1 << 20));
    let ok: Vec<_> = (0..8).map(|_| {
        let (f, tree) = (f.clone(), tree.clone());
        std::thread::spawn(move || {
            while start.elapsed().as_secs() < 20 {
                assert_eq!(values(&f, &tree), range(0..64));
            }
        })
    }).collect();
    for x in ok {
        x.join().unwrap();
    }
}
""")

bug("c10-static-nonce", "C10", [(U, """    <&chacha20::XNonce>::try_from(T::NONCE).unwrap()""", """    // convert it just once
    static NONCE: std::sync::OnceLock<&'static chacha20::XNonce> = std::sync::OnceLock::new();
    NONCE.get_or_init(|| <&chacha20::XNonce>::try_from(T::NONCE).unwrap())""")],
    "a process that uses two tree types with different nonces",
    "the nonce of the type that is used first is used for all of them",
    """
#[derive(Debug, Clone)]
struct T2;
impl TreeTypes for T2 {
    type Key = Key;
    type KeySeq = KeySeq;
    type Summary = Key;
    type SummarySeq = KeySeq;
    type Link = L;
    const NONCE: &'static [u8; 24] = b"another nonce of 24 byte";
}
fn main() {
    use banyan::chacha20::{Key as CKey, XNonce};
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(1, 2, 2));
    t.extend(&mut b, items(0..4)).unwrap();
    let mut t = Transaction::<T2, _, _>::new(Forest::new(s.clone(), BranchCache::new(0)), s.clone());
    let mut b = StreamBuilder::<T2, u64>::new(cfg(2, 2, 2), secrets());
    t.extend(&mut b, items(0..4)).unwrap();
    let root = s.with(|x| x.blocks[&b.link().unwrap()].clone());
    let (x, _) = ZstdDagCborSeq::decrypt(&root, &CKey::from([1; 32]), XNonce::from_slice(T2::NONCE)).unwrap();
    assert_eq!(x.items_ipld::<Index<T2>>().unwrap().len(), 2);
}
""")

bug("c19-double-count", "C19", [("banyan/src/store/mem_store.rs", """        let new = blocks.map.insert(digest, data.into()).is_none();
        if new {
            blocks.current_size += len;
        }""", """        blocks.map.insert(digest, data.into());
        blocks.current_size += len;""")],
    "blocks that are stored more than once",
    "the store reports that it is full long before its capacity is used",
    """
fn main() {
    let mut s: MemStore<L> = MemStore::new(1000, L::digest);
    for _ in 0..20 {
        s.put(vec![1; 100]).unwrap();
    }
    s.put(vec![2; 100]).unwrap();
}
""")

bug("c19-racy-limit", "C19", [("banyan/src/store/mem_store.rs", """        let mut blocks = self.0.blocks.lock();
        if blocks.current_size + data.len() > self.0.max_size {
            anyhow::bail!("full");
        }
        let new""", """        // do not hold the lock while copying
        let size = self.0.blocks.lock().current_size;
        if size + data.len() > self.0.max_size {
            anyhow::bail!("full");
        }
        let data: Box<[u8]> = data.into_boxed_slice();
        let mut blocks = self.0.blocks.lock();
        let new""")],
    "several threads that write to the same store when it is almost full",
    "the store holds more than its capacity",
    """
fn main() {
    for round in 0..3000u32 {
        let s: MemStore<L> = MemStore::new(1000, L::digest);
        let barrier = Arc::new(std::sync::Barrier::new(8));
        let ts: Vec<_> = (0..8u8).map(|i| {
            let (mut s, barrier) = (s.clone(), barrier.clone());
            std::thread::spawn(move || {
                barrier.wait();
                let _ = s.put(vec![i; 900]);
            })
        }).collect();
        for t in ts {
            t.join().unwrap();
        }
        let n: usize = s.into_inner().unwrap().values().map(|x| x.len()).sum();
        assert!(n <= 1000, "{} {}", round, n);
    }
}
""")

bug("c14-no-rollback-when-panicking", "C14", [(SB, """        if let Some(index) = self.restore.take() {
            self.builder.set_index(index);
        }""", """        if std::thread::panicking() {
            return;
        }
        if let Some(index) = self.restore.take() {
            self.builder.set_index(index);
        }""")],
    "a transaction that is dropped because of a panic, and the builder is used afterwards",
    "the changes of the transaction are not rolled back",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(2, 2, 2));
    t.extend(&mut b, items(0..4)).unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut x = b.transaction();
        t.extend(&mut x, items(4..8)).unwrap();
        panic!("bad luck");
    }));
    assert!(r.is_err());
    assert_eq!(b.count(), 4);
    assert_eq!(values(t.read(), &b.snapshot()), range(0..4));
}
""")

HUGE = """
/// the tree of the builder, behind a forgotten part
fn forget(s: &S, b: &B, count: u64, c: Config) -> B {
    let root = b.index().unwrap().clone();
    let summaries = match &root {
        Index::Branch(b) => b.summaries.clone(),
        _ => panic!(),
    };
    let old = Index::Branch(Arc::new(BranchIndex::<TT> { count, level: root.level(), sealed: true, link: None, summaries, value_bytes: 1, key_bytes: 1 }));
    let z = ZstdDagCborSeq::from_iter_ipld(&[old, root], 1).unwrap();
    let block = z.encrypt(secrets().index_key(), TT::NONCE.into(), 1 << 40).unwrap();
    let link = s.clone().put(block).unwrap();
    forest(s).load_stream_builder(secrets(), c, link).unwrap()
}
fn start(s: &S, count: u64) -> (Txn, B) {
    let mut t = txn(s);
    let mut b = builder(cfg(3, 3, 3));
    t.extend(&mut b, items(0..20)).unwrap();
    let b = forget(s, &b, count, cfg(3, 3, 3));
    (t, b)
}
"""

bug("c35-get-signed", "C35", [(RD, """                    if offset < child.count() {
                        return self.get0(stream, child, offset);
                    } else {""", """                    if (offset as i64) < child.count() as i64 {
                        return self.get0(stream, child, offset);
                    } else {""")],
    "a point read of a small offset in a stream with a child of more than 2^63 elements",
    "offsets are compared as signed numbers, so the wrong child is searched",
    HUGE + """
fn main() {
    let s = S::new();
    let (_, b) = start(&s, (1 << 63) + 5);
    assert!(forest(&s).get::<u64>(&b.snapshot(), (1 << 63) + 7).unwrap().unwrap().1 == 2);
    assert!(forest(&s).get::<u64>(&b.snapshot(), 3).unwrap().is_none());
}
""")

bug("c35-leaf-offsets-u32", "C35", [(RD, """                .map(|(i, _)| range.start + i as u64);""", """                .map(|(i, _)| u64::from(range.start as u32) + i as u64);""")],
    "a query result at an offset of at least 2^32",
    "the offsets of results are those modulo 2^32",
    HUGE + """
fn main() {
    let s = S::new();
    let h = (1u64 << 32) - 10;
    let (_, b) = start(&s, h);
    let got: Vec<u64> = forest(&s).iter_filtered(&b.snapshot(), AllQuery).map(|x| x.unwrap().0).collect();
    assert_eq!(got, range(h..h + 20));
}
""")

bug("c35-index-iter-reverse-signed", "C35", [(II, """                            Mode::Backward => self.offset - index.count,
                        };""", """                            Mode::Backward => {
                                (self.offset as i64 - index.count as i64).max(0) as u64
                            }
                        };""")],
    "reverse index iteration with an offset query in a stream that reaches beyond 2^63",
    "start offsets beyond 2^63 are taken for 0, so nodes with matches are not returned",
    HUGE + """
fn main() {
    let s = S::new();
    let h = (1u64 << 63) + 10;
    let (_, b) = start(&s, h);
    let q = OffsetRangeQuery::from(h + 12..h + 13);
    let n = |x: Vec<Index<TT>>| x.iter().filter(|x| x.level() == 0).count();
    let f = forest(&s);
    let a = n(f.iter_index(&b.snapshot(), q.clone()).map(|x| x.unwrap()).collect());
    let b = n(f.iter_index_reverse(&b.snapshot(), q).map(|x| x.unwrap()).collect());
    assert_eq!(a, b);
    assert!(b > 0);
}
""")

bug("c35-range-end-float", "C35", [(Q, """        let range = offset..offset + index.count;
        if !&self.0.intersects(&range) {
            res.clear();
        }
    }
}

/// A query that matches nothing""", """        let range = offset..(offset as f64 + index.count as f64) as u64;
        if !&self.0.intersects(&range) {
            res.clear();
        }
    }
}

/// A query that matches nothing""")],
    "an offset query for the last element of a node beyond offset 2^53",
    "the end of a node is rounded to what a float can hold, so its last elements are not found",
    HUGE + """
fn main() {
    let s = S::new();
    for h in (1u64 << 53) - 3..(1u64 << 53) + 9 {
        let (_, b) = start(&s, h);
        for i in 0..20 {
            let q = OffsetRangeQuery::from(h + i..h + i + 1);
            let got: Vec<u64> = forest(&s).iter_filtered(&b.snapshot(), q).map(|x| x.unwrap().2).collect();
            assert_eq!(got, vec![i]);
        }
    }
}
""")

bug("c35-pooled-stream-start-u32", "C35", [(ST, """                            offset.fetch_max(chunk.range.end, Ordering::SeqCst);
                        }
                        // abort at the first non-ok offset
                        result.is_ok()""", """                            let end = chunk.range.end as u32;
                            offset.fetch_max(end.into(), Ordering::SeqCst);
                        }
                        // abort at the first non-ok offset
                        result.is_ok()""")],
    "a pooled stream over several trees with more than 2^32 elements",
    "what has been delivered is remembered modulo 2^32, so elements are delivered again from the next tree",
    HUGE + """
fn main() {
    let s = S::new();
    let h = 1u64 << 32;
    let (mut t, mut b) = start(&s, h);
    let first = b.snapshot();
    t.extend(&mut b, items(20..30)).unwrap();
    let pool = futures::executor::ThreadPool::new().unwrap();
    let st = forest(&s).stream_trees_chunked_threaded(AllQuery, stream::iter(vec![first, b.snapshot()]), 0..=u64::MAX, &|_| (), pool);
    let got: Vec<u64> = futures::executor::block_on(st.collect::<Vec<_>>()).into_iter().flat_map(|x| x.unwrap().data).map(|x| x.0).collect();
    assert_eq!(got, range(h..h + 30));
}
""")

bug("c35-retain-offset-u32", "C35", [(IX, """    value.into_iter().scan(offset, |offset, x| {
        let o0 = *offset;
        *offset += x.count();
        Some((x, o0))""", """    value.into_iter().scan(offset as u32, |offset, x| {
        let o0 = u64::from(*offset);
        *offset = offset.wrapping_add(x.count() as u32);
        Some((x, o0))""")],
    "retain with an offset query in a stream of more than 2^32 elements",
    "retain decides by offsets modulo 2^32, so it forgets elements that match",
    HUGE + """
fn main() {
    let s = S::new();
    let h = (1u64 << 32) + 1000;
    let (mut t, mut b) = start(&s, h);
    t.extend(&mut b, items(20..60)).unwrap();
    t.pack(&mut b).unwrap();
    t.retain(&mut b, &OffsetRangeQuery::from(h..)).unwrap();
    let got: Vec<bool> = t.read().collect_from::<u64>(&b.snapshot(), h).unwrap().into_iter().map(|x| x.is_some()).collect();
    assert_eq!(got, vec![true; 60]);
}
""")


REENTRANT = """
/// a query that looks something up on the way
#[derive(Clone)]
struct Curious(Forest<TT, S>, Tree<TT, u64>);
impl std::fmt::Debug for Curious {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "curious")
    }
}
impl Query<TT> for Curious {
    fn containing(&self, _: u64, _: &LeafIndex<TT>, _: &mut [bool]) {
        self.look()
    }
    fn intersecting(&self, _: u64, _: &BranchIndex<TT>, _: &mut [bool]) {
        self.look()
    }
}
impl Curious {
    fn look(&self) {
        let x: Vec<_> = self.0.iter_filtered(&self.1, OffsetRangeQuery::from(3..)).take(1).map(|x| x.unwrap().2).collect();
        assert_eq!(x, vec![3u64]);
    }
}
"""

bug("c36-scratch-mask", "C36", [(RD, """                    let mut matching: SmallVec<[_; 32]> = smallvec![true; index.keys.len()];
                    self.query.containing(range.start, &index, &mut matching);
                    let result = self.visitor.leaf(range, index.clone(), leaf, &matching)?;
""", """                    // one mask per thread is enough, a leaf can have a lot of elements
                    thread_local!(static MASK: std::cell::RefCell<Vec<bool>> = Default::default());
                    let (query, visitor) = (&self.query, &self.visitor);
                    let result = MASK.with(|mask| {
                        let mut matching = mask.borrow_mut();
                        matching.clear();
                        matching.resize(index.keys.len(), true);
                        query.containing(range.start, &index, &mut matching);
                        visitor.leaf(range, index.clone(), leaf, &matching)
                    })?;
""")],
    "a query or extra data function that itself reads a tree on the same thread",
    "the scratch buffer is in use, so the inner read panics",
    REENTRANT + """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(3, 3, 3));
    t.extend(&mut b, items(0..20)).unwrap();
    let q = Curious(t.read().clone(), b.snapshot());
    let got: Vec<u64> = t.read().iter_filtered(&b.snapshot(), q).map(|x| x.unwrap().2).collect();
    assert_eq!(got, range(0..20));
}
""")

bug("c36-root-taken-while-appending", "C36", [(T, """        let index = self.extend_above(
            index.as_ref(),
            u32::max_value(),
            from.by_ref(),
            tree.state_mut(),
        )?;
        tree.set_index(Some(index));
        Ok(())""", """        // the old root must not be used while it is being replaced
        tree.set_index(None);
        let res = self.extend_above(
            index.as_ref(),
            u32::max_value(),
            from.by_ref(),
            tree.state_mut(),
        );
        let (index, res) = match res {
            Ok(index) => (Some(index), Ok(())),
            Err(cause) => (index, Err(cause)),
        };
        tree.set_index(index);
        res""")],
    "a source of elements that panics half way through an append",
    "the builder has lost its root afterwards",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(2, 2, 2));
    t.extend(&mut b, items(0..4)).unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        t.extend(&mut b, items(4..9).into_iter().map(|x| if x.1 == 7 { panic!("bad element") } else { x })).unwrap();
    }));
    assert!(r.is_err());
    assert_eq!(b.count(), 4);
    assert_eq!(values(t.read(), &b.snapshot()), range(0..4));
}
""")

bug("c36-fill-while-decompressed", "C36", [(Z, """        // decompress into the encoder, if necessary
        //
        // also init decompressed size
        let mut size = if !compressed.is_empty() {
            // the first ? is to handle the io error from decompress_and_transform, the second to handle the inner io error from write_all
            let (size, data) =
                decompress_and_transform(compressed, &mut |decompressed| -> anyhow::Result<()> {
                    scrape_links(decompressed, &mut links)?;
                    encoder.write_all(decompressed)?;
                    Ok(())
                })?;
            data?;
            size
        } else {
            0
        };
        let mut full = false;
        let mut bytes = Vec::new();
        // fill until rough size goal exceeded
        while let Some((_, value)) = from.peek() {
            // do this check here, in case somebody calls us with an already full keys vec
            if keys.len() >= max_keys {
                break;
            }
            bytes.clear();
            value.write_cbor(CborBuilder::append_to(&mut bytes));
            // if a single item is too big, bail out
            anyhow::ensure!(bytes.len() <= uncompressed_size, "single item too large!");
            // check that we don't exceed the uncompressed_size goal before adding
            if size + bytes.len() > uncompressed_size {
                // we know that the next item does not fit, so we are full even if
                // there is some space left.
                full = true;
                break;
            }
            // scrape links from the new item
            scrape_links(bytes.as_ref(), &mut links)?;
            // this is guaranteed to work because of the peek above.
            // Now we are committed to add the item.
            let (key, _) = from.next().unwrap();
            size += bytes.len();
            encoder.write_all(&bytes)?;
            keys.push(key);
            if encoder.get_ref().len() >= compressed_size {
                break;
            }
        }
""", """        // take over what is there, and continue with the new items right away
        let mut full = false;
        let mut take = |decompressed: &[u8]| -> anyhow::Result<usize> {
            scrape_links(decompressed, &mut links)?;
            encoder.write_all(decompressed)?;
            let mut size = decompressed.len();
            let mut bytes = Vec::new();
            // fill until rough size goal exceeded
            while let Some((_, value)) = from.peek() {
                // do this check here, in case somebody calls us with an already full keys vec
                if keys.len() >= max_keys {
                    break;
                }
                bytes.clear();
                value.write_cbor(CborBuilder::append_to(&mut bytes));
                // if a single item is too big, bail out
                anyhow::ensure!(bytes.len() <= uncompressed_size, "single item too large!");
                // check that we don't exceed the uncompressed_size goal before adding
                if size + bytes.len() > uncompressed_size {
                    // we know that the next item does not fit, so we are full even if
                    // there is some space left.
                    full = true;
                    break;
                }
                // scrape links from the new item
                scrape_links(bytes.as_ref(), &mut links)?;
                // this is guaranteed to work because of the peek above.
                // Now we are committed to add the item.
                let (key, _) = from.next().unwrap();
                size += bytes.len();
                encoder.write_all(&bytes)?;
                keys.push(key);
                if encoder.get_ref().len() >= compressed_size {
                    break;
                }
            }
            Ok(size)
        };
        let size = if compressed.is_empty() {
            take(&[])?
        } else {
            decompress_and_transform(compressed, &mut take)?.1?
        };
""")],
    "a source of elements that reads a tree on the way, appended to a tree whose last leaf is not full",
    "the source runs while the thread's decompression buffer is in use, so the read panics",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut a = builder(cfg(2, 3, 3));
    t.extend(&mut a, items(0..20)).unwrap();
    let mut b = builder(cfg(30, 3, 3));
    t.extend(&mut b, items(0..10)).unwrap();
    let f = t.read().clone();
    // copy from one tree to the other
    t.extend(&mut b, f.iter_filtered(&a.snapshot(), OffsetRangeQuery::from(10..)).map(|x| { let x = x.unwrap(); (x.1, x.2) })).unwrap();
    assert_eq!(values(t.read(), &b.snapshot()), range(0..20));
}
""")

bug("c37-full-when-exactly-filled", "C37", [(Z, """            // check that we don't exceed the uncompressed_size goal before adding
            if size + bytes.len() > uncompressed_size {
                // we know that the next item does not fit, so we are full even if
                // there is some space left.
                full = true;
                break;
            }
            // scrape links from the new item
            scrape_links(bytes.as_ref(), &mut links)?;
            // this is guaranteed to work because of the peek above.
            // Now we are committed to add the item.
            let (key, _) = from.next().unwrap();
            size += bytes.len();
            encoder.write_all(&bytes)?;
            keys.push(key);
            if encoder.get_ref().len() >= compressed_size {
                break;
            }
        }
        // call finish to write the zstd frame
        let data = encoder.finish()?;
        // log elapsed time and compression rate
        tracing::trace!(
            "ZstdArray::fill elapsed={} compressed={} uncompressed={}",
            t0.elapsed().as_secs_f64(),
            data.len(),
            size
        );
        full |= data.len() >= compressed_size;
        full |= keys.len() >= max_keys;
        full |= size >= uncompressed_size;
        Ok((Self::new(data, links.into_iter().collect()), full))
    }

    /// create a ZStdArray by filling from an iterator
    ///
    /// Takes""", """            // check that there is some space left after adding
            if size + bytes.len() >= uncompressed_size {
                // we know that the next item does not fit, so we are full even if
                // there is some space left.
                full = true;
                break;
            }
            // scrape links from the new item
            scrape_links(bytes.as_ref(), &mut links)?;
            // this is guaranteed to work because of the peek above.
            // Now we are committed to add the item.
            let (key, _) = from.next().unwrap();
            size += bytes.len();
            encoder.write_all(&bytes)?;
            keys.push(key);
            if encoder.get_ref().len() >= compressed_size {
                break;
            }
        }
        // call finish to write the zstd frame
        let data = encoder.finish()?;
        // log elapsed time and compression rate
        tracing::trace!(
            "ZstdArray::fill elapsed={} compressed={} uncompressed={}",
            t0.elapsed().as_secs_f64(),
            data.len(),
            size
        );
        full |= data.len() >= compressed_size;
        full |= keys.len() >= max_keys;
        full |= size >= uncompressed_size;
        Ok((Self::new(data, links.into_iter().collect()), full))
    }

    /// create a ZStdArray by filling from an iterator
    ///
    /// Takes""")],
    "a value whose encoding has exactly max_uncompressed_leaf_size bytes",
    "the append writes empty leaves and does not end",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b: StreamBuilder<TT, String> = StreamBuilder::new(Config { max_uncompressed_leaf_size: 50, ..cfg(4, 4, 4) }, secrets());
    // two bytes for the length
    let x = "x".repeat(48);
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(20));
        eprintln!("the append does not end");
        std::process::exit(1);
    });
    t.extend(&mut b, vec![(key(1), "a".to_string()), (key(2), x.clone())]).unwrap();
    let got: Vec<String> = t.read().collect(&b.snapshot()).unwrap().into_iter().map(|x| x.unwrap().1).collect();
    assert_eq!(got, vec!["a".to_string(), x]);
}
""")

bug("c37-target-size-any", "C37", [(M, """        anyhow::ensure!(self.target_leaf_size > 0 && self.target_leaf_size <= 1024 * 1024);
        anyhow::ensure!(self.max_uncompressed_leaf_size <= 16 * 1024 * 1024);""", """        anyhow::ensure!(self.target_leaf_size > 0);
        anyhow::ensure!(
            self.target_leaf_size <= 1024 * 1024
                || self.max_uncompressed_leaf_size <= 16 * 1024 * 1024
        );""")],
    "a config in which only one of the two limits of the leaf size is out of range",
    "a config is accepted with which leaves are written that can not be decompressed",
    """
fn main() {
    let ok = Config { zstd_level: 3, ..Config::debug() };
    assert!(ok.validate().is_ok());
    assert!(Config { target_leaf_size: 1024 * 1024 + 1, ..ok.clone() }.validate().is_err());
    assert!(Config { max_uncompressed_leaf_size: 16 * 1024 * 1024 + 1, ..ok.clone() }.validate().is_err());
    assert!(Config { max_uncompressed_leaf_size: 16 * 1024 * 1024, ..ok }.validate().is_ok());
}
""")

bug("c37-large-values-only-once", "C37", [("banyan/src/store/thread_local_zstd.rs", """        let buffer = if capacity <= MIN_CAPACITY {
            &mut self.buffer[..]
        } else {
            tmp.resize(capacity, 0u8);
            &mut tmp
        };
""", """        let buffer = if capacity <= MIN_CAPACITY {
            &mut self.buffer[..]
        } else {
            // leave room for a single block that is not complete
            tmp.resize((compressed.len() * 1024).clamp(MIN_CAPACITY, capacity), 0u8);
            &mut tmp
        };
""")],
    "a leaf or branch of more than 4 MiB that is compressed by a factor of more than 1024",
    "it can be written but not read",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b: StreamBuilder<TT, String> = StreamBuilder::new(cfg(4, 4, 4), secrets());
    let x = "x".repeat(9_000_000);
    t.extend(&mut b, vec![(key(1), x.clone())]).unwrap();
    let got: Vec<String> = t.read().collect(&b.snapshot()).unwrap().into_iter().map(|x| x.unwrap().1).collect();
    assert!(got == vec![x]);
}
""")

bug("c03-purged-gap-reverse", "C03", [(RD, """                // `data.len()`.
                _ => break self.skip(range),
            };
        }))
    }
}

impl<T, R, Q, V> Iterator for TreeIter""", """                // `data.len()`.
                _ => {
                    let purged_leaf = head.index.level() == 0;
                    let res = self.skip(range);
                    // nobody can have asked for a leaf that is gone when coming from the end
                    if purged_leaf && matches!(self.mode, Mode::Backward) && !self.stack.is_empty() {
                        continue;
                    }
                    break res;
                }
            };
        }))
    }
}

impl<T, R, Q, V> Iterator for TreeIter""")],
    "a reverse chunked read of a tree with a forgotten leaf next to a leaf that is still there",
    "no chunk covers the range of the forgotten leaf",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(2, 4, 4));
    t.extend(&mut b, items(0..12)).unwrap();
    t.retain(&mut b, &OffsetRangeQuery::from(4..)).unwrap();
    let f = forest(&s);
    let mut end = 12;
    for c in f.iter_filtered_chunked_reverse(&b.snapshot(), AllQuery, &|_| ()) {
        let c: FilteredChunk<(u64, Key, u64), ()> = c.unwrap();
        assert_eq!(c.range.end, end);
        end = c.range.start;
    }
    assert_eq!(end, 0);
}
""")

bug("c06-summary-limit-ignored", "C06", [(W, """        let max_branch_count = if level == 1 {
            stream.config().max_key_branches
        } else {
            stream.config().max_summary_branches
        };""", """        // branches that are already larger, e.g. with an older config, are filled to the same size
        let max_branch_count = if level == 1 {
            stream.config().max_key_branches
        } else {
            stream
                .config()
                .max_summary_branches
                .max(children.len().min(stream.config().max_key_branches) + 2)
        };""")],
    "an append to a tree in which an unfinished branch above level 1 has as many full children as max_summary_branches - 1 or more allow, with larger max_key_branches",
    "a branch gets more children than max_summary_branches",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(1, 5, 3));
    for i in 0..30 {
        t.extend(&mut b, items(i * 10..i * 10 + 10)).unwrap();
    }
    let f = forest(&s);
    for x in f.iter_index(&b.snapshot(), AllQuery) {
        if let Index::Branch(x) = x.unwrap() {
            assert!(x.level == 1 || x.summaries.len() <= 3, "{} children at level {}", x.summaries.len(), x.level);
        }
    }
    assert_eq!(values(&f, &b.snapshot()), range(0..300));
}
""")

bug("c07-level-one-uses-key-limit", "C07", [(W, """    let max_count = if first_level == 0 {""", """    let max_count = if first_level <= 1 {""")],
    "packing a tree with several full branches of level 1, with different limits for branches of keys and of summaries",
    "the packed tree is not packed: branches of level 2 have as many children as branches of level 1 may have",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(2, 5, 3));
    for i in 0..20 {
        t.extend_unpacked(&mut b, items(i * 10..i * 10 + 10)).unwrap();
    }
    t.pack(&mut b).unwrap();
    let f = forest(&s);
    for x in f.iter_index(&b.snapshot(), AllQuery) {
        if let Index::Branch(x) = x.unwrap() {
            assert!(x.level == 1 || x.summaries.len() <= 3, "{} children at level {}", x.summaries.len(), x.level);
        }
    }
    assert_eq!(values(&f, &b.snapshot()), range(0..200));
}
""")

bug("c15-get-undecodable", "C15", [(RD, """                let v = leaf.child_at::<V>(offset)?;
                Ok(Some((k, v)))""", """                // the value may be of another type, then there is no such element
                Ok(leaf.child_at::<V>(offset).ok().map(|v| (k, v)))""")],
    "a point read of an element in a leaf block that can be fetched but not be decoded",
    "the element is reported as absent",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(4, 4, 4));
    t.extend(&mut b, items(0..4)).unwrap();
    let leaf = s.with(|x| x.puts[0]);
    // damaged
    s.with(|x| {
        let n = x.blocks[&leaf].len();
        x.blocks.get_mut(&leaf).unwrap()[n - 3] ^= 0x55;
        for i in 6..14 {
            x.blocks.get_mut(&leaf).unwrap()[n - i] ^= 0xff;
        }
    });
    let f = forest(&s);
    let r: Result<Option<(Key, u64)>> = f.get(&b.snapshot(), 2);
    assert!(r.is_err(), "{:?}", r);
}
""")

bug("c28-purged-unsealed", "C28", [(DU, """                items: idx.keys().fold(0, |acc, _| acc + 1),
                bytes: idx.value_bytes,
                sealed: idx.sealed,""", """                items: idx.keys().fold(0, |acc, _| acc + 1),
                bytes: idx.value_bytes,
                // what is not there can not be full
                sealed: idx.sealed && idx.link.is_some(),""")],
    "a graph dump of a tree with a leaf that was forgotten alone",
    "the leaf is not shown as full",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(2, 4, 4));
    t.extend(&mut b, items(0..8)).unwrap();
    let f = forest(&s);
    let dump = |b: &B| {
        let mut out = vec![];
        banyan_utils::dump::graph(&f, &b.snapshot(), &mut out).unwrap();
        String::from_utf8(out).unwrap().matches("grey").count()
    };
    let before = dump(&b);
    t.retain(&mut b, &OffsetRangeQuery::from(2..)).unwrap();
    assert_eq!(dump(&b), before);
}
""")

bug("c17-same-tree-skipped", "C17", [(ST, """        let end = *range.end();
        let start_offset_ref = Arc::new(AtomicU64::new(*range.start()));
        let forest = self.clone();
        let result = trees
            .filter_map(move |tree| future::ready(tree.into_inner()))""", """        let end = *range.end();
        let start_offset_ref = Arc::new(AtomicU64::new(*range.start()));
        let forest = self.clone();
        let mut seen = None;
        let result = trees
            .filter_map(move |tree| {
                // nothing to do if there is nothing new
                let link = tree.link();
                let new = link.is_none() || link != seen;
                seen = link;
                future::ready(if new { tree.into_inner() } else { None })
            })""")],
    "a live stream that gets the same tree again after a temporary failure to read it",
    "the rest of the tree is not delivered until it grows",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(4, 4, 4));
    t.extend(&mut b, items(0..20)).unwrap();
    let f = forest(&s);
    let lost = f.iter_index(&b.snapshot(), AllQuery).map(|x| x.unwrap()).filter(|x| x.level() == 0).nth(2).unwrap().link().unwrap();
    s.with(|x| x.broken.insert(lost));
    let s2 = s.clone();
    let trees = stream::iter(vec![b.snapshot(), b.snapshot()]).enumerate().map(move |(i, x)| {
        if i == 1 {
            s2.with(|x| x.broken.clear());
        }
        x
    });
    let got: Vec<_> = futures::executor::block_on(f.stream_trees(AllQuery, trees).collect::<Vec<_>>());
    let got: Vec<u64> = got.into_iter().map(|x| x.unwrap()).map(|x: (u64, Key, u64)| x.0).collect();
    assert_eq!(got, range(0..20));
}
""")

bug("c20-oversize-deferred", "C20", [(Z, """            value.write_cbor(CborBuilder::append_to(&mut bytes));
            // if a single item is too big, bail out
            anyhow::ensure!(bytes.len() <= uncompressed_size, "single item too large!");""", """            value.write_cbor(CborBuilder::append_to(&mut bytes));
            // if a single item is too big, bail out
            anyhow::ensure!(
                size > 0 && keys.len() + 1 >= max_keys || bytes.len() <= uncompressed_size,
                "single item too large!"
            );""")],
    "an item that is too large for any leaf, at the last place of a leaf that is otherwise full",
    "fill reports success instead of rejecting the item",
    """
fn main() {
    let xs: Vec<(u64, String)> = vec![(1, "a".into()), (2, "x".repeat(100))];
    let mut keys = vec![];
    let mut from = xs.into_iter().peekable();
    assert!(ZstdDagCborSeq::fill(&[], &mut from, &mut keys, 1, 100000, 50, 2).is_err());
}
""")

bug("c05-level-from-first-child", "C05", [(RD, """        let level = children.iter().map(|x| x.level()).max().unwrap() + 1;
        let count = checked_sum""", """        // the first child is the largest one, since everything is packed to the left
        let level = children[0].level() + 1;
        let count = checked_sum""")],
    "a reload of a tree that got an unpacked append that is larger than the tree itself",
    "the reloaded tree has the wrong level and can not be read, or is continued differently",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(2, 2, 2));
    t.extend(&mut b, items(0..2)).unwrap();
    t.extend_unpacked(&mut b, items(2..40)).unwrap();
    let link = b.link().unwrap();
    let b2: B = forest(&s).load_stream_builder(secrets(), cfg(2, 2, 2), link).unwrap();
    assert_eq!(b.level(), b2.level());
    assert_eq!(forest(&s).collect(&b2.snapshot()).unwrap().len(), 40);
}
""")

bug("c08-leaf-full-by-count-only", "C08", [(W, """        if index.sealed() || from.peek().is_none() {
            return Ok(index.clone());
        }
        let secrets = stream.secrets().clone();""", """        let full = match index {
            Index::Leaf(leaf) => leaf.keys.len() >= stream.config().max_leaf_count,
            Index::Branch(branch) => branch.sealed,
        };
        if full || from.peek().is_none() {
            return Ok(index.clone());
        }
        let secrets = stream.secrets().clone();""")],
    "an append to a tree whose last leaf is full because of its size, not because of the number of elements",
    "the full leaf is read and rewritten instead of shared",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut c = cfg(1000, 10, 10);
    c.max_uncompressed_leaf_size = 20;
    let mut b = builder(c);
    // 20 values of one byte each
    t.extend(&mut b, items(0..20)).unwrap();
    s.with(|x| x.gets.clear());
    let f = forest(&s);
    let leaves = |b: &B| -> Vec<String> {
        f.iter_index(&b.snapshot(), AllQuery).map(|x| x.unwrap()).filter(|x| x.level() == 0).map(|x| x.link().unwrap().to_string()).collect()
    };
    let old = leaves(&b);
    t.extend(&mut b, items(20..21)).unwrap();
    assert_eq!(leaves(&b)[..old.len()], old[..]);
}
""")

bug("c18-end-reset-for-each-tree", "C18", [(ST, """                let end_offset = end_offset_ref.load(Ordering::SeqCst);
""", """                // start from the end for this tree, until there is a first chunk
                let end_offset = end_offset_ref.swap(*range.end(), Ordering::SeqCst);
""")],
    "a reverse live stream where reading one tree fails half way, and the next at its root",
    "elements that were delivered from the first tree are delivered again from the third",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(4, 4, 4));
    t.extend(&mut b, items(0..20)).unwrap();
    let f = forest(&s);
    let lost = f.iter_index(&b.snapshot(), AllQuery).map(|x| x.unwrap()).filter(|x| x.level() == 0).nth(2).unwrap().link().unwrap();
    s.with(|x| x.broken.insert(lost));
    let s2 = s.clone();
    let trees = stream::iter(vec![b.snapshot(), b.snapshot(), b.snapshot()]).enumerate().map(move |(i, x)| {
        // the root can not be read either
        if i == 1 {
            s2.with(|y| y.broken.insert(x.link().unwrap()));
        }
        if i == 2 {
            s2.with(|x| x.broken.clear());
        }
        x
    });
    let got: Vec<_> = futures::executor::block_on(
        f.stream_trees_chunked_reverse::<_, _, u64, _, _>(AllQuery, trees, 0..=100, &|_| ()).collect::<Vec<_>>(),
    );
    let got: Vec<u64> = got.into_iter().flat_map(|x| x.unwrap().data.into_iter().rev()).map(|x| x.0).collect();
    assert_eq!(got, (0..20).rev().collect::<Vec<_>>());
}
""")

bug("c21-value-count-unchecked", "C21", [(RD, """                let v = leaf.child_at::<V>(offset)?;""", """                // all values are needed to get at one, so we might as well decode them
                let v = leaf.as_ref().items::<V>()?.swap_remove(offset as usize);""")],
    "reading an element from a leaf block that has fewer values than its index has keys",
    "panics instead of returning an error",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(10, 4, 4));
    t.extend(&mut b, items(0..5)).unwrap();
    let f = forest(&s);
    let leaf = f.iter_index(&b.snapshot(), AllQuery).map(|x| x.unwrap()).find(|x| x.level() == 0).unwrap().link().unwrap();
    let mut keys = vec![];
    let (seq, _) = ZstdDagCborSeq::fill(&[], &mut vec![(0u64, 1u64)].into_iter().peekable(), &mut keys, 1, 1000, 1000, 10).unwrap();
    let bytes = seq.encrypt(secrets().value_key(), &[0u8; 24].into(), 0).unwrap();
    s.with(|x| x.blocks.insert(leaf, bytes.into()));
    assert!(f.get::<u64>(&b.snapshot(), 3).is_err());
}
""")

bug("c27-depth-guard", "C27", [(RD, """                    if head.filter[next_idx] {
                        // Descend into next child
                        self.stack""", """                    if head.filter[next_idx] {
                        // protect against malicious trees
                        ensure!(self.stack.len() < 4096, "tree too deep");
                        // Descend into next child
                        self.stack""")],
    "iterating a tree that is more than 4096 levels deep because of many unpacked appends",
    "the tree can not be read",
    """
fn main() {
    let s = S::new();
    let mut t = txn(&s);
    let mut b = builder(cfg(4, 2, 2));
    for i in 0..6000 {
        t.extend_unpacked(&mut b, items(i..i + 1)).unwrap();
    }
    let tree = b.snapshot();
    assert_eq!(forest(&s).iter_filtered(&tree, AllQuery).filter(|x: &anyhow::Result<(u64, Key, u64)>| x.is_ok()).count(), 6000);
}
""")
