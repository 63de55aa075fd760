#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json for the properties the harness implements."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, q, why, files, mech, observe=(), level_note="", technique=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files,
                  mech=mech, observe=list(observe), level_note=level_note, technique=technique))

W="banyan/src/forest/write.rs"; RD="banyan/src/forest/read.rs"; TR="banyan/src/tree.rs"; ST="banyan/src/forest/stream.rs"
Z="banyan/src/store/zstd_dag_cbor_seq.rs"; IX="banyan/src/index.rs"; Q="banyan/src/query.rs"; SB="banyan/src/stream_builder.rs"
II="banyan/src/forest/index_iter.rs"; BC="banyan/src/store/branch_cache.rs"; MC="banyan/src/store/mem_cache.rs"; MS="banyan/src/store/mem_store.rs"
TZ="banyan/src/store/thread_local_zstd.rs"; UT="banyan/src/util.rs"; FM="banyan/src/forest/mod.rs"
TG="banyan-utils/src/tags.rs"; TI="banyan-utils/src/tag_index.rs"; DU="banyan-utils/src/dump.rs"; SQ="banyan-utils/src/sqlite.rs"; CL="banyan-utils/src/bin/cli.rs"; IP="banyan-utils/src/ipfs.rs"

prop("C01","Trees hold exactly the appended sequence",
 "After any sequence of appends (packed, unpacked, single), packs, reloads, configuration changes and rolled back transactions, the tree holds exactly the key/value pairs of the operations that took effect, in append order, at contiguous offsets starting at 0. Element count, reading the element at any offset, collecting from any offset and iterating everything all agree with that sequence, and an offset at or past the end yields nothing.",
 ["histories","inputs","configurations"],
 "every append history, every valid configuration (leaf, branch and size limits down to 1 or 2), every key/value, every read offset",
 "build_check.rs samples short batches of small integers with the fixed debug config and mostly one kind of append; mixed histories, byte-limit-driven leaf boundaries, reloads and odd configs are not reached.",
 [W,TR,RD,Z], [("extend / extend_unpacked / pack",TR),("extend_leaf / extend_branch / extend_above",W),("get0 / collect0",RD),("fill",Z)],
 ["Forest::get","Forest::collect","Forest::collect_from","Forest::iter_from","count"],
 technique="stateful model-based property testing against a Vec, plus an independent reader of the stored blocks")
prop("C02","Queries return exactly the matching elements, in order",
 "For every tree and every query built from offset ranges, key predicates and boolean combinations whose summary test never rejects a matching key, the filtered reads return exactly the (offset, key, value) triples of the elements that match, each once. Forward iteration and streams are in ascending offset order, the reverse ones in exactly the opposite order.",
 ["inputs","histories","configurations"],
 "every tree shape (packed, unpacked, partially purged), every query expression, both directions, iterator and stream interfaces",
 "The tests use single offset range filters on trees of tiny batches and compare chunked reads; nested boolean queries, key predicates pruned by summaries, purged parts and flat reverse reads of multi-element leaves are not covered.",
 [RD,Q,TR,UT], [("TreeIter traversal",RD),("OffsetRangeQuery / AndQuery / OrQuery",Q),("intersects, or_with",UT)],
 ["iter_filtered","iter_filtered_reverse","stream_filtered","iter_filtered_chunked","stream_filtered_chunked"],
 technique="property testing with generated trees and query expressions against brute-force filtering")
prop("C03","Filtered chunks tile the tree and describe what they cover",
 "The chunks of a chunked read, forward or reverse, have non-empty ranges that cover every offset of the tree exactly once in traversal order, with no gap and no overlap. Each chunk holds exactly the matching elements of its own range in ascending order, and its extra data is computed from the node that covers that range.",
 ["inputs","histories","configurations"],
 "every tree shape including purged parts, every query, both directions, every extra function",
 "Tests check 'no holes' for one filter type on debug-config trees and never look at the extra data or at purged nodes.",
 [RD,ST,TR], [("TreeIter::next_fallible / skip",RD),("ChunkVisitor",RD)],
 ["iter_filtered_chunked","iter_filtered_chunked_reverse","stream_filtered_chunked","stream_filtered_chunked_reverse"],
 technique="property testing: tiling invariant and differential against the model and an independent tree walk")
prop("C04","Snapshots are immutable and self-contained",
 "A snapshot of a tree keeps reading exactly the content it had when it was taken, whatever is later done to the builder it came from (appends, packs, retains, rollbacks, cache resets). Its root link, the keys and the blocks reachable from it are enough to read the same content with a forest that has seen nothing else.",
 ["histories","configurations"],
 "every history, every snapshot of it, warm and cold caches, stores reduced to the reachable blocks",
 "Tests never keep old snapshots across later mutations, nor read from a store stripped to the reachable blocks.",
 [TR,SB,RD,W], [("snapshot",SB),("load_tree / create_index_from_link",TR+", "+RD),("persistent nodes",W)],
 ["StreamBuilder::snapshot","Forest::load_tree","Forest::collect"],
 technique="stateful model-based property testing over histories with all snapshots re-read")
prop("C05","A builder reloaded from its root link is the same builder",
 "Loading a builder from the root link of a stored tree gives the same tree statistics as the builder that wrote it, and loading it read-only the same content. Any continuation applied to both has the same effect, down to the resulting root link.",
 ["histories","crash_points","configurations"],
 "every history, a reload after any successful operation, every continuation",
 "Tests reload once after one batch and only compare counts; equality of the continued trees and of sealing state is not examined.",
 [TR,RD,SB,FM], [("load_stream_builder",TR),("create_index_from_link",RD),("branch_sealed",FM),("CipherOffset",SB)],
 ["Forest::load_stream_builder","Forest::load_tree","root link"],
 technique="differential property testing: in-memory builder vs. builder reloaded from storage")
prop("C06","Node statistics, sealing and limits match the content",
 "In every reachable tree each branch's level, element count, byte counts, per-child summaries and each leaf's keys and byte count are what its content determines, and no leaf or branch exceeds its configured limits. A node is sealed exactly when a configured limit was reached (for branches: all children sealed and directly below). The library's own invariant and packedness checks agree.",
 ["histories","configurations","inputs"],
 "every history under one configuration, every node of the tree",
 "Tests call the library's own assertion helper on a few trees; it does not recompute counts, levels, byte sizes or limits from content.",
 [W,FM,IX,RD,Z], [("new_branch",W),("branch_sealed",FM),("fill",Z),("check_invariants0 / is_packed0",RD)],
 ["Tree::index","Forest::check_invariants","Forest::is_packed"],
 technique="property testing with an independent block decoder that recomputes every statistic")
prop("C07","Packing keeps content, packs fully, reuses and is idempotent",
 "Packing any tree leaves content and offsets unchanged and gives a tree in which every leaf but the last is full and branches are filled to the left, which can be reloaded and extended. The leading full leaves are reused rather than rewritten. Packing a packed tree changes and writes nothing.",
 ["histories","configurations"],
 "every history of packed and unpacked appends before the pack, every configuration",
 "Tests pack a few quickcheck trees of the debug config and compare content; reuse, idempotence, reload of the result and minimal trees are not checked.",
 [TR,W,RD], [("pack / tree_from_roots",TR),("simplify_roots / find_valid_branch",W),("roots0 / is_packed0",RD)],
 ["Transaction::pack","Forest::is_packed","Forest::roots"],
 technique="stateful property testing with metamorphic (idempotence, reuse) and model oracles")
prop("C08","Appends rewrite only the right edge and share the rest",
 "An append reads no block outside the right edge of the old tree (an unpacked append reads none), and every old node that is full, or that an unpacked append leaves in place, is shared by link with the new tree. It writes exactly the blocks that are new in the resulting tree, each once.",
 ["histories","configurations"],
 "every old tree, every batch, packed and unpacked appends",
 "ops_counting.rs counts operations of one fixed scenario; sharing is never checked on generated trees.",
 [W,TR], [("extend0 / extend_above / extend_branch",W),("extend_unpacked0",W)],
 ["block store get and put calls"],
 technique="property testing with an instrumented block store; oracle from an independent walk of old and new tree")
prop("C09","No two blocks of a stream share keystream",
 "All blocks a builder ever writes under one key are encrypted with disjoint ranges of the key stream, including blocks of rolled back or failed operations, and also after reloading the builder from its root when that is the last block it wrote. Different data is never encrypted with the same key stream bytes.",
 ["histories","fault_sequences","crash_points","configurations"],
 "every history of one builder: appends, packs, retains, repairs, aborted and failed operations, reloads after successful operations",
 "One unit test compares block offsets of a linear history; rollback, failed puts, pack, retain and reload are not combined.",
 [SB,Z,W,RD], [("CipherOffset::reserve",SB),("into_encrypted / decrypt",Z),("byte_range in create_index_from_link",RD)],
 ["offset field and length of every stored block"],
 technique="stateful property testing: interval-disjointness invariant over the history of stored blocks")
prop("C10","Blocks are encrypted with the right key and open only with it",
 "Every stored block is a dag-cbor triple of key stream offset, links and ciphertext; leaves open with the value key and branches with the index key, XChaCha20 with the type's nonce at that offset, giving a zstd frame with the encoded items. Values cannot be read without the value key, nothing can be read without the index key, and reading with wrong keys is an error, never other data.",
 ["inputs","histories","configurations"],
 "every key pair, every content, every wrong key",
 "Wire format tests cover two hand-written index values; key separation and wrong-key behaviour are untested.",
 [Z,W,RD,IX,FM], [("into_encrypted / decrypt",Z),("persist_branch / extend_leaf",W),("load_leaf / load_branch",RD)],
 ["stored bytes","Forest::collect with other secrets"],
 technique="property testing against an independent implementation of the block format; wrong-key fault injection")
prop("C11","Links of a block expose exactly what it references",
 "The unencrypted links of a stored block are exactly the distinct content links in its items: for leaves those in the values, for branches those of the children and in their keys and summaries. So the blocks of a tree and all content it references can be found from the root without any key.",
 ["inputs","histories"],
 "every value and key with links nested anywhere, every history of extension, recompression and repacking",
 "link_scraping.rs checks one tree; links in keys, in extended and recompressed leaves, nested in maps, and their removal are not generated.",
 [Z,W,IX], [("scrape_links in from_iter / fill",Z),("Index encode",IX)],
 ["link section of stored blocks"],
 technique="property testing with an independent cbor link extractor and key-less closure")
prop("C12","Retain forgets only what the query does not need",
 "Retaining with a query never removes or changes an element that matches the query, never changes offsets, count or the remaining elements, and only forgets complete full nodes. Forgotten elements read as absent, and the tree can still be reloaded, queried and appended to afterwards.",
 ["histories","inputs","configurations"],
 "every tree, every sequence of retain queries, every later append",
 "Two tests retain with one offset range on fixed trees; combinations with unpacked parts, reload, later appends and repeated retains are not covered.",
 [TR,W,Q], [("retain / retain0",TR+", "+W)],
 ["Transaction::retain","Forest::get","Forest::collect","iter_filtered"],
 technique="stateful model-based property testing with a masked-sequence oracle")
prop("C13","Repair recovers everything that is still reachable",
 "After any set of blocks is lost, repairing reports every unreadable node it reached and makes the tree readable: elements whose path to the root is intact keep their value and offset, all others read as absent, and nothing is reported or changed if nothing is lost. Repairing again reports nothing.",
 ["fault_sequences","histories"],
 "every tree and every subset of lost or undecodable blocks below the root",
 "One test removes a single block of a fixed tree.",
 [TR,W,RD], [("repair / repair0",TR+", "+W)],
 ["Transaction::repair","Forest::collect"],
 technique="property testing with block-loss injection; oracle from an independent reachability walk")
prop("C14","A failed write leaves the tree untouched and usable",
 "If an append, pack, retain or repair fails at any block write or read, or because an item is too large, or is rolled back, the builder and all earlier snapshots have exactly the content they had before. Retrying the operation after the fault succeeds with the same result as without it.",
 ["fault_sequences","crash_points","histories"],
 "every history, a fault at every put or get of the operation, transactions dropped at any point",
 "No test injects a failing store on the write path.",
 [TR,W,SB,Z], [("set_index only after success",TR),("StreamTransaction drop",SB),("fill item limit",Z)],
 ["StreamBuilder content after Err","Transaction::*"],
 technique="stateful property testing with fault injection at every store operation")
prop("C15","Read faults surface as errors, never as missing or wrong data",
 "If a block cannot be read or decoded, reads that need it return an error after delivering only correct results in order, and then end; reads that do not need it are unaffected. Once the fault is gone the same forest reads correctly, so no failure is cached or turned into absent elements.",
 ["fault_sequences","inputs"],
 "every tree, every set of failing or corrupted blocks, every read operation and query",
 "No test reads from a failing or corrupting store.",
 [RD,II,TZ,BC,IX], [("error propagation in TreeIter / IndexIter / get0 / collect0",RD+", "+II)],
 ["Result of all read operations"],
 technique="property testing with read-fault and bit-corruption injection")
prop("C16","Reads fetch only the blocks they need",
 "Reading one element or a filtered range fetches only nodes whose offset range or summary can contain a match, and leaf blocks only if one of their keys matches. Index iteration fetches no leaf block at all.",
 ["inputs","histories","configurations"],
 "every tree and query",
 "ops_counting.rs asserts one fixed count; a query that degenerates to a full scan returns the same results and passes all tests.",
 [RD,II,Q], [("early return in TreeIter, matching.any() before leaf load",RD),("OffsetRangeQuery::intersecting",Q)],
 ["block store get calls"],
 technique="property testing with an instrumented store against the minimal set of needed blocks")
prop("C17","Live streams deliver every matching element exactly once, in order",
 "Streaming a growing sequence of trees delivers the matching elements of the requested offset range in ascending order, each exactly once and with none skipped, up to what the last tree contains, whether chunked, flattened or on a thread pool. A bounded stream ends by itself once the end of its range is reached, and after a temporary read failure of one tree the next tree continues where it stopped.",
 ["schedules","histories","inputs","fault_sequences"],
 "every sequence of growing snapshots (including repeats, empty and repacked trees), every inclusive range and query, every polling schedule",
 "Tests use one or two trees and compare the flattened result of a full range.",
 [ST,UT,RD], [("start offset tracking",ST),("take_until_condition, into_stream",UT)],
 ["stream_trees","stream_trees_chunked","stream_trees_chunked_threaded"],
 technique="property testing of generated tree sequences, ranges, poll schedules and transient faults against the model")
prop("C18","Reverse live streams deliver exactly once, in descending order",
 "Streaming trees in reverse delivers the matching elements of the requested range in descending chunks, each element exactly once, and ends once the start of the range is reached. After a temporary read failure of one tree the next tree continues below what was already delivered.",
 ["schedules","histories","inputs","fault_sequences"],
 "every sequence of trees that cover the range, every inclusive range and query, every transient fault",
 "Tests stream one fixed tree with the full range.",
 [ST,RD,UT], [("end offset tracking",ST)],
 ["stream_trees_chunked_reverse"],
 technique="property testing of generated tree sequences, ranges and transient faults against the model")
prop("C19","Caches and stores are transparent",
 "Branch caches of any capacity, including none, tiny, shared and reset ones, never change the result of any operation. The provided block stores and caching layers return for a link exactly the bytes stored under it, or fail, under any sequence of operations, and respect their capacity.",
 ["histories","configurations","inputs"],
 "every history executed with different caches and stores; every sequence of store operations",
 "Tests use one cache size and the memory store; eviction, zero capacity, layered caches and the sqlite store are not compared.",
 [BC,MC,MS,SQ], [("BranchCache::get/put/reset",BC),("MemCache / MemWriter",MC),("MemStore",MS),("SqliteStore",SQ)],
 ["results of operations across cache configurations","store get/put"],
 technique="differential property testing across cache/store configurations and model-based testing of the stores")
prop("C20","Block codec round trips and respects its fill limits",
 "Encoding any sequence of items, encrypting, decrypting and decoding gives back the same items, whichever decoder (all, selected, single, count) is used, for any compression level and key stream offset. Incremental filling takes the longest prefix its limits allow, reports being full exactly when a limit was hit, never takes an item it does not store, and rejects an item that can never fit.",
 ["inputs","configurations"],
 "every item sequence, every starting content, every combination of limits, levels, offsets and selections",
 "zstd_dag_cbor_seq.rs has unit tests for round trips of byte vectors with generous limits.",
 [Z,TZ,SB], [("from_iter / fill / fill_ipld / select / get / count",Z),("decompress_and_transform",TZ)],
 ["ZstdDagCborSeq"],
 technique="property testing of round trips and of the fill contract against a reference implementation")
prop("C21","Untrusted blocks are rejected with an error, never a crash",
 "Whatever bytes a block store returns for a link, and even if they are correctly encrypted but malformed inside, loading, reading, querying, dumping and repairing return an error or consistent data. They never panic, crash, loop, read more blocks than the elements they report warrant, or allocate memory just because a block claims to need it (for values that are not nested deeper than the CBOR decoders can take), and everything returned without an error by different operations agrees.",
 ["inputs","fault_sequences"],
 "every byte string in place of any block: random, mutated, truncated, and validly encrypted blocks with malformed content",
 "No test feeds malformed blocks.",
 [Z,IX,RD,TZ,TI], [("decode errors",Z+", "+IX),("bounded decompression buffer",TZ)],
 ["all read operations"],
 technique="structured fuzzing of block bytes (mutation and grammar based) with panic, budget and differential oracles")
prop("C22","Tag expressions keep their meaning in normal form",
 "Converting a boolean tag expression to disjunctive normal form preserves its meaning for every set of tags (operators with at least one operand), no term of the result subsumes another, and the result does not depend on operand order or grouping. Combining normal forms with and/or, and printing or converting them back, preserves meaning too.",
 ["inputs"],
 "every expression over tags and every tag set (all subsets of the tags used)",
 "tag_index.rs tests a few fixed expressions by their printed form.",
 [TI], [("Dnf::bitand / bitor / insert_unless_redundant",TI)],
 ["Expression::dnf","Dnf"],
 technique="property testing with exhaustive evaluation over all tag subsets per generated expression")
prop("C23","Tag indexes and tag sequences round trip and match correctly",
 "Building a tag index from any sequence of tag sets and reading it back, also after encoding and decoding, gives the same sets, and matching a query against it selects exactly the elements whose tags satisfy the query. Digests, content ids and key sequences convert to and from their encoded forms without loss, and malformed encodings are rejected.",
 ["inputs"],
 "every sequence of tag sets, every query, every digest",
 "Unit tests cover a handful of fixed tag sets.",
 [TI,TG], [("TagIndex / DnfQuery matching",TI),("KeySeq encode/decode, Sha256Digest",TG)],
 ["TagIndex::from_elements / matching","KeySeq","Sha256Digest"],
 technique="property testing of round trips and of matching against direct evaluation")
prop("C24","Tag and time queries on trees return exactly the matching events",
 "On trees of events with a time and at least one tag, offset, time range and tag expression queries return exactly the events whose key satisfies them, in order (a tag term matches an event if its time is in the range of the term and all tags of the event are among those of the term), and every subtree containing a match is visible in its summary. The result does not depend on how the tree is laid out.",
 ["inputs","histories","configurations"],
 "every history of tagged events with every tag expression and time range",
 "ops_counting.rs and the CLI run fixed tag queries; no test compares tag queries with direct evaluation.",
 [TI,TG,RD], [("DnfQuery containing/intersecting",TG+", "+TI),("summaries",TG)],
 ["iter_filtered with tag queries"],
 technique="property testing of trees of tagged events against direct evaluation of the expression")
prop("C25","Index iteration, graph dumps and roots describe the actual tree",
 "Iterating the index nodes, forward and reverse, yields exactly the nodes the query cannot exclude, in pre-order resp. its mirrored order, with their true statistics. Graph dumps enumerate every node once with the true parent edges; sealed roots are a contiguous sealed prefix of non-increasing level and left roots the chain of first children.",
 ["histories","inputs","configurations"],
 "every tree and query",
 "Tests compare index iteration only against its own reverse for a fixed tree.",
 [II,TR,RD,DU], [("IndexIter",II),("dump_graph0 / left_roots0",TR),("roots0",RD)],
 ["iter_index","iter_index_reverse","dump_graph","left_roots","roots"],
 technique="property testing against an independent walk of the stored blocks")
prop("C26","Concurrent readers and writers do not disturb each other",
 "Any number of threads reading snapshots through one shared forest and cache, while another thread keeps appending and packing through the same cache, see exactly the content of their snapshot. Live streams running concurrently deliver every element exactly once.",
 ["schedules","histories"],
 "thread schedules of readers, writer and cache resets over generated histories",
 "No test uses a forest from more than one thread besides the thread pool stream.",
 [BC,TZ,RD,ST,MS], [("BranchCache lock",BC),("thread local decompressor",TZ),("Arc-shared indexes",RD)],
 ["results of concurrent reads"],
 technique="randomized concurrent stress of generated histories with a model oracle per snapshot (sampled OS schedules)")
prop("C27","Deep unpacked trees are handled with bounded stack",
 "Trees that became very deep by many unpacked appends can be filtered, streamed and iterated in both directions and have their index iterated with a stack that does not grow with depth, and give correct results.",
 ["histories","inputs"],
 "every depth and read direction, with small stacks",
 "One test traverses a tree of depth 100 with all elements.",
 [RD,II], [("explicit stack in TreeIter / IndexIter",RD+", "+II)],
 ["iter_filtered*, iter_index* on a thread with a small stack"],
 technique="property testing of generated deep trees on threads with a fixed small stack (crash = violation)")
prop("C28","Block and graph dumps reproduce the stored data",
 "Dumping a block with the key it was written with gives exactly its stored items in order, as JSON or as cbor text; a plain dag-cbor block is dumped as it is. A wrong key, garbage or a missing block gives an error. The graph dump shows every node of the tree once with its true edges, counts and sealed state.",
 ["inputs","configurations"],
 "every stored block of generated trees, every key",
 "The dump functions have no tests.",
 [DU], [("dump_json / dump_cbor / graph",DU)],
 ["banyan_utils::dump"],
 technique="property testing: generated trees, dump output compared with an independent rendering")
prop("C29","The ipfs client returns and delivers only what the node holds and sends",
 "Every request the client makes is the right one for the node's HTTP interface (method, path, arguments, unchanged payload). A block that is put is stored with exactly its bytes under the link that is returned and is read back unchanged. A block the node does not have, refuses to store, or only sends in part is an error, never other data. A message is published with exactly its topic and payload, or an error results. A subscription delivers exactly the payloads of the events the node sends, in order, however they are split into or merged in chunks of the reply, and what is no event is an error, not a panic.",
 ["inputs","fault_sets","schedules"],
 "every payload and topic, every framing of the reply, every error status, cut reply or dropped connection",
 "The ipfs client has no test (it needs a running node).",
 [IP], [("block_get / block_put",IP),("pubsub_pub / pubsub_sub",IP),("IpfsStore",IP)],
 ["banyan_utils::ipfs"],
 technique="property testing against a scripted http service with fault injection, compared with a model of the node")
prop("C30","The command line tool does to a stored tree what it says",
 "banyan-cli, given a tree that was stored with the passwords passed to it, prints exactly its elements (dump-values), its nodes (dump, graph), the items of a block (dump-block), the elements that pass a filter, or those received as roots over pubsub. Build appends exactly the announced elements, forget makes nothing inaccessible at or after the given offset and otherwise what the library does, pack leaves content unchanged and the tree packed, repair leaves what is still readable; the tree whose root it prints last is complete in the storage and encrypted with the given passwords. A tree that can not be read makes it fail.",
 ["histories","inputs","configurations"],
 "every stored tree, command and pair of passwords, sqlite and ipfs storage",
 "The tool has no tests.",
 [CL,SQ,IP], [("main",CL),("build_tree / bench_build",CL),("create_chacha_key","banyan-utils/src/lib.rs"),("SqliteStore",SQ)],
 ["banyan-cli"],
 technique="property testing of the real binary on generated trees, differential against model and library")

prop("C31","The branch cache stays within its capacity and saves reads",
 "The branches a branch cache holds, and the memory they take, stay within the capacity it was created or reset with, whatever is read through it and by however many forests; capacity 0 holds nothing and reset forgets everything. What it returns for a link is the branch of that link. As long as everything read fits, no branch is fetched from the store a second time, and memory is released with the cache.",
 ["histories","configurations"],
 "every tree, capacity and sequence of reads and resets",
 "Tests use the default cache, which never fills, and never look at what is held or fetched.",
 [BC,RD,II], [("Weighable for Branch",BC),("BranchCache::get / put / reset",BC),("load_branch_cached_from_link",RD)],
 ["BranchCache::get","the calls the store sees","live memory"],
 technique="property testing with a model of branch sizes, a recording store and a counting allocator")
prop("C32","The structural checks report exactly the unsound trees",
 "check_invariants reports nothing, and assert_invariants passes, on every tree whose nodes have as many values as keys and summaries as children, the summary of every child, levels that fit and the sealed flags that follow from the configuration; if any reachable node violates one of these, check_invariants reports it (or an error) and assert_invariants fails. is_packed is true exactly if on the right edge all children but the last are sealed and one level below, recursively. Parts that were purged are left out.",
 ["inputs","configurations"],
 "every tree of any shape, including ones the library would never write, with any number and place of inconsistencies",
 "Tests call the checks on sound trees only; a check that never reports anything would pass them all.",
 [TR,RD,FM], [("check_invariants0",RD),("is_packed0",RD),("Config::branch_sealed",FM)],
 ["check_invariants","assert_invariants","is_packed"],
 technique="property testing on trees written by an independent encoder with injected inconsistencies, against an independent evaluation")
prop("C33","The metrics count exactly the blocks and bytes read and written",
 "Over every history, with failing reads and writes included, the registered metrics show one block put per block handed to the store and its size, one block get per block asked for and the size of those received, and at least one node stored per block put. All eight metrics are registered, once.",
 ["histories","crash points"],
 "every history, cache capacity, and failing read or write",
 "No test looks at the metrics.",
 ["banyan/src/forest/prom.rs",RD,W,"banyan/src/lib.rs"], [("register_metrics","banyan/src/lib.rs"),("timers and sizes",W),("load_node / get_block",RD)],
 ["register_metrics","prometheus::Registry::gather"],
 technique="stateful property testing with injected faults, differential against what the store has seen")
prop("C34","Behaviour does not depend on key, summary, value or writer types",
 "For every choice of key, summary, sequence and value types that fulfil the contracts, including unit keys, unit summaries and compressed sequences, trees built through any writer hold the appended elements, answer offset queries in all read forms, survive reload and roll back, and report per node the keys and the summary of what is below. Builder, snapshot, loaded tree, index, loaders and printed forms agree about link, level, count and secrets; all blocks go through the writer of the transaction.",
 ["inputs","histories","configurations"],
 "every family of tree types and every value type (five families and seven value types are instantiated), every short history",
 "Tests use a single instantiation with copyable integer-like keys and values; contracts of CompactSeq, and accessors that only other users call, are not exercised.",
 [IX,TR,SB,FM], [("UnitSeq / VecSeq / CompactSeq",IX),("BranchLoader / LeafLoader / NodeInfo",IX),("Tree and StreamBuilder accessors",TR),("Forest::transaction, writer, into_writer",FM)],
 ["whole API of Tree, StreamBuilder, Forest and Transaction"],
 technique="stateful model-based property testing, generic over tree types and value types")

prop("C35","Everything works for streams of any 64 bit length",
 "For every history behind a forgotten part of any number of elements, also more than 2^32, 2^53 or 2^63: the count, point reads, reads of the tail, queries and chunks in both directions, index iteration and streams (plain, pooled, reverse) give exactly the elements at their true offsets, and appends, packs, retain, dropped transactions, repair and reload treat them as in a short stream. Nothing takes time or memory proportional to what was forgotten.",
 ["inputs","histories","configurations"],
 "every history, forgotten count up to 2^64 minus 2^30, level of the forgotten part, query and range",
 "Streams of that length can not be written in a test; all tests stay below a few thousand elements, so an offset that is narrowed, signed or rounded passes them.",
 [RD,II,ST,W,Q,IX], [("TreeIter / get0 / collect0",RD),("IndexIter",II),("start and end offsets of streams",ST),("zip_with_offset_ref",IX),("OffsetRangeQuery",Q),("roots / tree_from_roots",TR)],
 ["get","collect_from","iter_filtered*","iter_index*","stream_trees_*","StreamBuilder::count","retain","pack"],
 technique="stateful model-based property testing on streams whose huge forgotten part is written by an independent encoder")

prop("C36","Code supplied by the user may use the forest itself, or panic",
 "Sources of appended elements, queries and extra-data functions may themselves read (also the tree they are used on) through the same forest and cache, or write other trees: results are the same as with plain data, and nothing dead-locks. Any number of iterators and streams can be advanced alternately with appends, packs and cache resets. If a source, query, extra-data function, value codec or block store panics, the tree and all snapshots have exactly the content they had before, and the forest, cache and builder go on working, on that thread too.",
 ["inputs","histories","schedules","crash points"],
 "every history, query, source and point at which supplied code reads or panics",
 "Tests only append vectors and never interleave two operations, so state that is borrowed, taken out or half updated while foreign code runs is invisible.",
 [W,RD,Z,TR,SB,BC], [("fill: source is polled while a block is made",Z),("thread local decompressor",TZ),("query and extra data callbacks",RD),("extend / pack / retain set the root last",TR),("rollback on unwind",SB),("locking of the branch cache",BC)],
 ["extend","extend_unpacked","pack","retain","repair","get","collect_from","iter_filtered*","iter_index*","stream_filtered","stream_trees"],
 technique="stateful model-based property testing with re-entrant and panicking callbacks, interleaved iterators, differential against plain data")

prop("C37","Every accepted configuration works, with elements of any size",
 "Config::validate accepts exactly the configs with at least 2 summary branches, 1 key branch and 1 element per leaf, a target leaf size of 1 byte to 1 MiB, at most 16 MiB of uncompressed values per leaf, and a zstd level of 1 to 22. With every accepted config each append ends. It is either rejected with an error that changes nothing (exactly if an element's encoding exceeds the leaf limit, or its keys could not be read back from a block), or all elements so far can be read back from the root link, and no node exceeds a limit.",
 ["inputs","histories","configurations"],
 "every configuration, including each limit and its neighbours, and every history of elements of any size",
 "Tests use two or three hard-coded configurations that validate itself rejects (zstd level 0), values of some bytes and keys of some integers.",
 [FM,W,Z,TZ,IX], [("Config::validate",FM),("branch_sealed",FM),("fill: limits and fullness",Z),("MAX_CAPACITY",TZ),("serialize_compressed",IX),("extend_leaf / extend_branch",W)],
 ["Config::validate","extend","extend_unpacked","pack","load_tree","load_stream_builder","collect"],
 technique="boundary-value and stateful model-based property testing over configurations and element sizes, with bounded number of writes")

def main():
    out = subprocess.run([V+"/harness/target/debug/vh","list"],capture_output=True,text=True,check=True).stdout
    have = {}
    for l in out.splitlines():
        f = l.split(); have[f[0]] = f
    props = [p for p in P if p["id"] in have]
    missing = set(have) - {p["id"] for p in P}
    assert not missing, missing
    with open(V+"/properties.jsonl","w") as f:
        for p in props:
            f.write(json.dumps(dict(id=p["id"],title=p["title"],statement=p["statement"],
              quantifier=dict(over=p["over"],text=p["q"]), why_tests_cant=p["why"],
              anchors=dict(files=p["files"], mechanism=[dict(name=a,where=b) for a,b in p["mech"]],
                           observe_at=p["observe"], hook_needed=None)),ensure_ascii=False)+"\n")
            assert len(p["title"])<=80, p["title"]
    checks=[]
    for p in props:
        i=p["id"]
        checks.append(dict(property=i,
          quick_cmd=f"bash /verif/run.sh check {i} --tier quick",
          thorough_cmd=f"bash /verif/run.sh check {i} --tier thorough",
          evidence_file=f"evidence/{i}.json",
          technique=p["technique"], level="exploration",
          level_note=p["level_note"] or "Search over generated cases with shrinking and replay: no violation among the cases counted in the evidence file; not a proof. Trusts the harness's reference model and generators (DESIGN.md), the Rust toolchain and third-party crates."))
    m=dict(version=1, setup_cmd="bash /verif/run.sh setup", checks=checks, not_applicable=[],
      hooks=dict(guard="none", enable="no hooks: the harness uses only the public API of /repo's crates", source_commits=[]),
      notes="Replay of a failure: bash /verif/run.sh replay <file>. All checks take --seed N / --cases N; VERIF_SEED sets the seed. Known findings and fixed defects: KNOWN_FINDINGS.txt.")
    json.dump(m,open(V+"/MANIFEST.json","w"),indent=1); open(V+"/MANIFEST.json","a").write("\n")
main()
