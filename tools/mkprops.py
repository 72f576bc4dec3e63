#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts live)."""
import json, os
N="src/node/mod.rs"; BS="src/store/blob_store.rs"; MS="src/store/mem_store.rs"; PS="src/store/paged_file_store.rs"; L="src/lib.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   **({"state":[dict(name=n,meaning=m,where=w) for n,m,w in state]} if state else {}),
                   **({"observe_at":list(observe)} if observe else {}), hook_needed=None)))
p("T01","A radix tree is an ordered byte-string map",
 "After any sequence of insertions, overwrites, removals and bulk constructions, a tree contains exactly the keys and values an ordinary ordered map would contain after the same sequence. Lookups, containment tests, emptiness and iteration over entries or values report exactly that content, iteration in ascending lexicographic byte order of the keys, each key once. Empty keys, empty values and keys or values of any length are ordinary keys and values.",
 ["inputs","histories"],"for every finite sequence of insert / remove / collect operations over arbitrary byte-string keys and values",
 "Unit tests and proptests sample random maps; they do not cover every order of splitting and merging nodes, nor the representation switches at 8/9 and 127/128 bytes and at 256 children.",
 [N,L],[("try_insert/try_remove are in-place combines with a single-entry tree",N),("find walks prefix and children, binary search or direct index for 256 children",N),("split/canonicalize keep the tree shape",N)],
 observe=["RadixTree::{insert,remove,get,contains_key,iter,values,is_empty}, FromIterator, radixtree!, single, leaf"])
p("T02","Prefix queries and extremes equal their definition on the content",
 "For every tree and every byte string p: the existence test for p is true exactly when some key starts with p; scanning p yields exactly the entries whose key starts with p, with their full keys, in order; filtering by p with a substitution s yields a tree containing exactly those entries with the leading p replaced by s. First and last value and first and last entry (with any caller-supplied leading bytes prepended to the key) are those of the smallest and largest key, and absent exactly for the empty tree.",
 ["inputs","histories"],"for every tree content, however it was produced, every prefix string and every substitution",
 "Existing tests query a few prefixes of random maps; prefixes that end exactly on, inside, or just past a node boundary and the empty tree are hit by chance or not at all.",
 [N],[("find distinguishes exact hit, hit inside a node prefix, and miss",N),("scan_prefix, filter_prefix, first_/last_ value/entry",N)])
p("T03","Prefix-set retain and remove keep exactly the matching elements",
 "Retaining a tree by another tree with a predicate keeps exactly the entries for which some key of the other tree, whose value satisfies the predicate, is a prefix of the entry's key; removing keeps exactly the remaining entries. Removing a single prefix removes exactly the entries whose key starts with it. The other tree is never changed.",
 ["inputs","histories"],"for every pair of trees and every predicate on the values of the second tree",
 "Tests use random pairs with an always-true predicate; nested prefixes with mixed predicate outcomes are not covered.",
 [N],[("retain_prefix_with / remove_prefix_with recurse over both trees in lockstep",N),("try_remove_prefix",N)])
p("T04","Outer, inner and left combine equal pointwise combination",
 "For every two trees and every combiner, the outer, inner and left combination contain exactly what combining the two contents key by key gives: keys in only one operand are kept (outer), dropped (inner), or kept if left (left), and for each key in both the combiner decides value or absence. The combiner is consulted exactly once for each key present in both operands, with the left value first, and for no other key. Both operands are unchanged.",
 ["inputs","programs"],"for every pair of trees and every combiner function, including combiners that drop entries",
 "Proptests compare random pairs with one or two fixed combiners; combiners that delete, and trees whose nodes overlap in every possible way, are not enumerated.",
 [N],[("outer_combine, inner_combine, left_combine and their *_children joins over OuterJoin",N)])
p("T05","In-place combines agree with the pointwise combination",
 "For every two trees, every in-place combiner (overwriting, keeping or clearing the left value) and every way of converting the right operand, the in-place outer, inner and left combination leave the left tree with exactly the pointwise combination of the two contents. The combiner is consulted exactly once for each key present in both operands and for no other key, and the right operand and every earlier clone of the left operand are unchanged.",
 ["inputs","programs"],"for every pair of trees, every in-place combiner and every applicable node converter",
 "Existing tests run random pairs with one combiner each; in-place merging has separate code from the functional version and only sampled overlap patterns are compared.",
 [N],[("outer_combine_with, inner_combine_with, left_combine_with; InPlaceVecBuilder merges children in place",N),("NodeConverter implementations",N)])
p("T06","Combine predicates decide intersection and difference exactly",
 "The inner predicate query is true exactly when some key is present in both trees and the predicate accepts the two values. The left predicate query is true exactly when some key of the left tree is either absent from the right tree or has values accepted by the predicate. Hence disjointness and subset tests built on them are exact.",
 ["inputs","programs"],"for every pair of trees and every predicate on value pairs",
 "Tests sample random pairs, where intersections are rare or total; the boundary cases (one shared key below a prefix, empty operands) are not enumerated.",
 [N],[("inner_combine_pred, left_combine_pred",N)])
p("T07","Grouping partitions the entries in order",
 "For every tree and every descend function, grouping yields subtrees that together contain every entry exactly once, in ascending order, with full keys and values. A group is either one single entry, at a position where the function chose to descend, or all entries below one common prefix at which the function declined. The function is consulted with the full leading bytes of the position, only where all shorter positions were descended.",
 ["inputs","programs"],"for every tree and every descend decision function",
 "Only one example-based test exists; decisions per node are not enumerated.",
 [N],[("GroupBy iterator",N)])
p("T08","Equal content means equal trees, independent of history",
 "Two in-memory trees compare equal exactly when they contain the same entries, whatever sequences of operations (insertions, removals, prefix removals, in-place and functional combinations, filtering, attach and detach) produced them. A tree that contains nothing reports being empty; a tree with at most one entry, and no other, reports being a leaf; the root prefix is the longest common prefix of all keys and the root value the value stored at that prefix.",
 ["histories","inputs"],"for every pair of operation histories",
 "Tests compare maps, or trees built the same way; they cannot visit all histories that lead to the same content.",
 [N],[("canonicalize after every in-place and functional step",N),("PartialEq for TreeNode<Detached>",N)])
p("T09","Clones, iterators and extracted values are isolated snapshots",
 "Once obtained, a clone of a tree, a started iterator, a yielded key or value, a filtered subtree and an operand of a combination never change, whatever operations are later applied to the tree they came from or to one another. Dropping any of them in any order does not affect the others.",
 ["histories"],"for every interleaving of taking snapshots, mutating any of the sharing trees, advancing iterators and dropping",
 "Sharing bugs need a specific sharing pattern (which node is shared when it is modified in place); tests hardly ever keep a snapshot across a mutation.",
 [N],[("copy on write through Arc::make_mut on children vectors, immutable shared prefix/value blobs",N),("IterKey copy on write",N),("owned iterators keep the visited nodes alive",N)])
p("T10","No leak, double free or use of freed memory",
 "For every sequence of operations, including operations in which a user function panics, and dropping clones, values, keys and half-consumed iterators in any order, all memory allocated for trees is released exactly once when the last holder is dropped, and is never accessed after its release. A panic in a user function leaves the other operands and all clones unchanged and the modified tree usable.",
 ["histories"],"for every operation sequence, sharing pattern and drop order",
 "The node representation manages unions by hand with length-dependent ownership; a leak or double free only shows for particular size classes and sharing patterns and is not observed by value-comparing tests.",
 [N,BS],[("manual_clone / manual_drop discriminated by header bytes",N),("Blob owner keeps the slice alive",BS)])
p("T11","What an operation does not concern is shared, not copied",
 "Trees are cheap to copy: cloning a tree, lookups, starting an iteration, scan or grouping, and selecting the subtree of a prefix need an amount of memory that does not depend on the values or on the entries below keys that are not concerned, and the results share these with the tree. Inserting, removing, removing a prefix and combining in place with a small tree copy, even if the tree is shared with clones, at most the lists of children on the paths of the keys concerned; values, and everything below other children, stay shared however large they are. (The functional combinations, which build new trees, are excepted.)",
 ["inputs","histories"],"for every content, every operation and key, on shared and unshared trees",
 "Copied and shared trees are equal, so tests that compare contents can not see it.",
 [N],[("values and long prefixes are reference counted",N),("load_children_mut copies one list of children if it is shared",N),("filter_prefix clones the node it finds",N)])
p("S01","Attach, detach, reattach and load preserve the content",
 "Attaching a tree to any blob store, detaching it again, writing it back and loading it from the returned root id (including in a new handle to the same storage) each preserve exactly the keys, values and order, for every content including empty trees, empty and long keys and values, and any number of children. A tree that was detached compares equal to the tree that was attached.",
 ["inputs","configurations","histories"],"for every tree content, every store (in-memory, paged file, user-defined with any id length up to the format's limit) and every mix of persisted and in-memory parts",
 "Tests round-trip random maps through one store; they do not cover all thresholds, id lengths and partially persisted trees.",
 [N,L],[("serialize/deserialize of nodes, indirect prefix/value above 127 bytes",N),("try_attached, try_detached, try_reattach, try_load",N)])
p("S02","Persisted trees answer reads exactly like in-memory trees",
 "Every read-only operation on a tree attached to a store (lookup, containment, prefix test, iteration, values, scan, filter, extremes, grouping) gives the same result as on the in-memory tree with the same content, whichever parts of it are persisted, loaded or newly modified.",
 ["inputs","histories","configurations"],"for every content, every persisted/loaded/modified mix of its parts, and every query",
 "Tests mostly query fully persisted trees; partially loaded mixtures arise only along specific histories.",
 [N],[("BorrowedTreeNode parsing, BorrowedTreeNodeIter find/next/last",N),("TreeNodeRef dispatch",N)])
p("S03","Operations on persisted trees have the same effect as in memory",
 "Every modifying or combining operation whose operands are attached to a store, in memory, or a mixture of both, in the same or in different stores, yields the same content (or answer) as the same operation on in-memory trees with the same contents, whichever parts are persisted, loaded or modified.",
 ["inputs","histories","configurations"],"for every operation, every operand content, every attachment combination and every loaded/modified mix",
 "Only a handful of attached/detached combinations are exercised, with keys and values too short to be stored indirectly.",
 [N],[("load_children_mut, split, canonicalize on attached nodes",N),("NodeConverter conversions between stores",N)])
p("S04","Persisted versions are immutable",
 "Once a tree was written to a store and its root id returned, loading that id always yields the content at that time, whatever modifications are later made to the tree, to trees loaded from the same store, or written to the store. A loaded or cloned version remains readable and unchanged while other versions are modified and written.",
 ["histories"],"for every history of modifications and write-backs over any number of versions",
 "Tests write one version; no test revisits an older root after later write-backs.",
 [N,MS,PS],[("stores are append only; write-back creates new blocks",N)])
p("S05","The serialized form follows the documented format, both ways",
 "Every block written to a store is a well-formed node or children sequence in the documented format: header bytes, inline data up to 127 bytes, longer data indirect, indirect prefixes carrying their first byte, children sorted by first byte with the record size if constant, no empty prefix below the root, no node without value and children except the empty root; decoding it by that description gives exactly the content. Conversely every block sequence that conforms to the description is read correctly, and equal contents serialize to equal bytes in a content-addressed store.",
 ["inputs","histories"],"for every tree content, every history producing it, and every conforming encoding",
 "Tests only round-trip the implementation against itself, so a writer and a reader that are wrong together pass.",
 [L,N],[("serialize, BorrowedTreeNode::read_one, OwnedBlobRef::serialize",N)])
p("S06","A failing store or combiner never corrupts or falsifies a tree",
 "If any read or write of a store, or any user function, fails during an operation, the operation reports an error (or still gives the right result); it never panics, never returns a wrong or silently incomplete answer, and leaves every tree with exactly its previous content, so that repeating the operation after the failure has gone succeeds with the right result. The error that comes out is the one the store or the function gave. An iterator that meets an error has yielded only correct leading entries, reports the error, and then ends. (In-place combination of a purely in-memory left operand, whose error type cannot express a failure, with an attached right operand is excepted.)",
 ["fault_sequences","inputs"],"for every operation, every tree, and every single failing call or permanent failure from some call on",
 "No test injects store failures.",
 [N],[("try_update works on a copy of the root for fallible stores",N),("iterators clear their stack on error",N)])
p("S07","Damaged or foreign blocks never crash the reader",
 "Loading a root id or following children whose stored bytes are truncated, altered or arbitrary yields an error or some tree content, but never a panic, an out-of-bounds access, or unbounded work as long as the blocks do not refer back to themselves. A block that is not a sequence of whole nodes is reported as an error when it is read, and iterating or detaching a tree gives exactly what the readable blocks contain.",
 ["inputs"],"for every byte string as a root block or as a children block",
 "No test reads malformed blocks; the parser works with unchecked pointers.",
 [N],[("BorrowedTreeNode::read_one bounds and header checks",N),("BorrowedTreeNodeIter::load validates a block",N)])
p("S08","Persisted trees are read and written only as far as needed",
 "A tree attached to a store is used block by block. Loading reads at most the root block. A lookup, containment or prefix test, prefix filter, first or last query, insertion, removal, or the start of a combination with a small tree reads only blocks of nodes on the path of the keys concerned (and prefixes of the children of those nodes), and a scan, iterator or grouping only those up to the entries it has yielded; none of them reads the values of other keys, and reading operations never write. Writing a tree back reads nothing and writes, besides the root, only blocks of nodes on the paths of keys that changed since it was loaded or last written, each once; an unchanged tree writes nothing but at most its root.",
 ["inputs","histories"],"for every tree content, every persisted/loaded/modified mix of its parts and every operation",
 "Results are the same when a tree is read or rewritten as a whole, so value-comparing tests cannot see it; only for trees that do not fit into memory does it matter.",
 [N,L],[("find, scan_prefix, filter_prefix load children on demand",N),("children stay an id until they are modified; serialize skips what is persisted",N),("iterators load children when they are reached",N)])
p("S09","Trees written to a file survive restarts, crashes and, once synced, power loss",
 "When a tree attached to a paged file store, directly or through a dynamic store, has been written back, the version with the returned root id keeps exactly its content whatever happens later: after the file was closed and opened again, after a crash of the process at any point of any later modifications, write-backs (also of clones and of older versions), syncs, failing file operations and reopenings, and, if the store was synced after the write-back, after a power loss that loses any subset of the later changes of the file. From the end of a write-back until the next one begins, also after a crash, the last id of the file store is the root id of the version written last. After recovery trees can be modified and written further, without harm to any version.",
 ["crash_points","histories","fault_sequences"],"for every history of tree and store operations, every crash point, every failing file operation and every subset of unsynced file changes",
 "The tests never reopen a file, never interrupt a write-back, and no test writes a tree to a file store.",
 [N,PS,BS],[("try_reattach writes the blocks of children before the root",N),("DynBlobStore forwards read, write and sync",BS),("append commits the size after the data; sync_all",PS)])
p("P01","A blob store returns exactly what was written",
 "Every blob successfully written to the in-memory store or to the paged file store is returned byte for byte under the returned id, at any later time, in the same handle, in clones of it and, for a file, after any number of reopenings, whatever other blobs were written or read before or after and wherever blobs fall relative to page boundaries. Ids are unique, and the last id reported by a file store is that of the most recent successful write, also after reopening, and none for a new file.",
 ["inputs","histories","configurations"],"for every sequence of writes of any sizes up to the limit, reads and reopenings, at every page size that is a multiple of 8",
 "The proptest writes random blobs with one page size and never reopens; exact fits and off-by-one distances to the page end are rarely hit.",
 [PS,MS,BS],[("append pads and closes pages, trailing length",PS),("bytes reads from mapped pages or recent blobs",PS)])
p("P02","After a process crash all acknowledged blobs are readable",
 "If the process dies at any point during a history of operations on a paged file store, some of which may have failed, the file can be reopened, every blob whose write had returned is read back exactly under its id, the last id reported is that of the blob acknowledged last, or of the readable blob that was being written, and none only if nothing was acknowledged, and further writes neither fail nor damage earlier blobs.",
 ["crash_points","histories"],"for every history and every point between or inside the file operations it performs",
 "No test interrupts a write.",
 [PS],[("data is appended before the committed size in the header is updated",PS),("Inner::new truncates to the committed size",PS)])
p("P03","Synced blobs survive power loss",
 "If power is lost at any point of a history of operations on a paged file store, some of which may have failed, so that any subset of the file changes made since the last completed sync is lost, the file can be reopened and every blob written before the last completed sync is read back exactly under its id, also after further writes to the reopened store.",
 ["crash_points","histories","fault_sequences"],"for every history with syncs, every crash point and every subset of unsynced file changes",
 "No test models an unsynced page cache.",
 [PS],[("sync calls sync_all on the file",PS)])
p("P04","File errors are reported and lose nothing that was acknowledged",
 "If any file operation of a paged file store fails or is only partly performed, the store operation reports an error or completes correctly; every blob acknowledged before or after remains readable under its id in the same handle and after reopening, the last id reported is that of a blob that remains, and the store remains usable once the failure has gone.",
 ["fault_sequences","histories"],"for every history and every failing or short file operation in it",
 "No test injects I/O errors.",
 [PS],[("append orders seek, pad, write, commit; position is re-derived from the file end",PS)])
p("P05","Invalid ids and oversized blobs are rejected without harm",
 "Reading any byte string that is not an id of the store, of any length, returns an error or some bytes of the file, and writing a blob that is larger than the store can hold returns an error; neither panics, hangs, accesses memory out of bounds, or changes what any valid id returns or what later writes do.",
 ["inputs","histories"],"for every id byte string and every blob size, on every reachable store",
 "Tests only read ids that were just returned and only write fitting blobs.",
 [PS,MS],[("id and size checks in bytes/append/read",PS)])
p("P06","A paged file has one fixed layout",
 "A file of a paged store consists of a 4096 byte header that holds at offset 16 the number of committed bytes as an 8 byte big endian integer, followed by the blobs in the order of their writing, each followed by its length as a 4 byte big endian integer and lying with it in one page. The id of a blob is the 8 byte big endian offset of its end behind the header, and the committed size is the id of the last blob. After every operation the file is of this form, and every file of this form, of any size and whatever program wrote it, is opened, read and extended correctly.",
 ["inputs","histories","configurations"],"for every history of writes and reopenings, every conforming file, and every page size that is a multiple of 8",
 "Tests write and read with the same build, so a writer and a reader that change together pass although existing files become unreadable; large offsets are never reached.",
 [PS],[("append, commit and write_size",PS),("Page::bytes, load_recent, read_size",PS)])
p("P07","A store holds on to bounded resources and gives them back",
 "A paged file store maps each completed page of its file at most once and otherwise keeps in memory only the blobs of the page being written and a fixed amount per page; a memory store keeps just its blobs. Reading again what was read before needs nothing more, and neither do failed reads and writes. A blob that is kept holds on to no more than its own page or its own bytes. When the last handle of a store and the last thing derived from it (trees, iterators, values, blobs) are dropped, in whatever order and also after errors, the file is closed and all mappings and memory are released.",
 ["histories","fault_sequences","inputs"],"for every history of store operations with any file operation failing, and every order of dropping handles, trees and blobs",
 "No test looks at memory, mappings or descriptors, and each uses a store that lives as long as the test; a leak only shows in a process that runs for long.",
 [PS,MS,BS],[("recent keeps the blobs of the unfinished page only, pages maps each page once",PS),("a blob owns its mapping or its vector",BS)])
p("B01","Blob views denote exactly their bytes for as long as they live",
 "Slicing a blob by any range, taking a sub-slice reference, cloning it or converting it to an owned blob yields exactly the corresponding bytes, out-of-range requests are rejected, and comparison, ordering and hashing are those of the byte strings. Every owned blob, including those read from a store, keeps its bytes unchanged after the blob it came from, the tree and the store are modified or dropped.",
 ["inputs","histories"],"for every blob, every range, and every order of deriving and dropping blobs, stores and trees",
 "Tests only check a from-slice round trip.",
 [BS,PS,MS],[("Blob::{slice,slice_ref,to_owned,from_arc_vec}",BS),("mapped pages are reference counted",PS)])
p("C01","Concurrent use of a store behaves like some sequential use",
 "When several threads read, write and query clones of one in-memory or paged file store, every call completes, and the results are those of some sequential order of the calls consistent with each thread's order and with real time: every write gets a distinct id, every read of a returned id gives exactly the bytes written. At any moment the file of a paged store contains every block whose write has returned, so that the end of the process loses none, and when a sync returns, everything written before it was called has been synced, whatever other threads do meanwhile.",
 ["schedules"],"for every interleaving of the threads' lock operations and file operations",
 "Tests are single threaded.",
 [PS,MS],[("one mutex around the file cursor, page and recent tables",PS),("one mutex around the map",MS)])
p("C02","Trees shared between threads are independent snapshots",
 "When clones of one tree are used from several threads at the same time, each thread observes exactly the content that results from the operations it performs on its own clone, as if the other threads did not exist; iterators and the keys, values and trees they yield stay what they are when they are handed to another thread, and when all clones are gone all memory is released exactly once.",
 ["schedules"],"for every interleaving of reading, modifying, combining and dropping clones in several threads, in memory or attached to one store",
 "Tests are single threaded.",
 [N,BS],[("Arc reference counts decide between in-place modification and copying",N),("unsafe Send/Sync for Blob",BS)])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
