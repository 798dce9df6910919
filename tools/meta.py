#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M, P, S = "src/merkle.rs", "src/proof.rs", "src/store/"

def a(files, mech, observe, state=()):
    d = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        d["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return d

PROPS = [
 dict(id="C01", title="A built tree is exactly the Merkle tree of its leaves",
  statement="For every list of leaves whose count is a positive power of a supported arity, every hash algorithm and every store, the built tree holds the hashed leaves in order followed by each row of parents, each parent being the algorithm's node hash of its consecutive children together with the number of its row (counted from 0 for the first row above the leaves), and ends with the root. Reading any element or range of elements, the root, the number of leaves, the number of elements and the number of rows all agree with that one sequence. This holds at every size, including sizes at which leaves and parents are written in several blocks or hashed in several parallel chunks.",
  over=["inputs", "configurations"], q="every arity (2, 4, 8, 16, 64), height, leaf values, element width, algorithm (row-dependent or not), store and way of feeding leaves",
  why="The tests compare roots of a few sizes with one algorithm that ignores the row number; they cannot see a wrong interior element, a wrong row number, or an error at a chunk border of a size they do not use.",
  anchors=a([M, S+"mod.rs", S+"disk.rs", S+"mmap.rs", S+"vec.rs"], [("row by row building, small and in parallel chunks", M+" + "+S+"mod.rs: process_layer, build_small_tree, build"), ("hash of leaves while collecting them, in blocks", M+": populate_data, populate_data_par")], ["root(), read_at, read_range, len, leafs, row_count"]),
  level_note="Element-by-element comparison with an independent reference tree for every generated case (up to 2^19 leaves quick, 2^21 thorough). Sampled sizes, five arities, two element/algorithm pairs per arity; trusts the reference model."),
 dict(id="C02", title="Every constructor builds the same tree from the same data",
  statement="Given the same data, building from an iterator of leaves, from a fallible iterator, from a parallel iterator, from hashable objects, from a slice of leaf bytes, from the bytes of a complete tree or from a filled store gives trees that are equal in every element, in root, size, row count and in every proof, whatever the store and with or without a storage configuration. A tree built from complete-tree bytes or leaf bytes takes the leaves as they are, one built from leaves hashes each leaf exactly once.",
  over=["inputs", "configurations"], q="every shape, data, store kind (memory, disk, memory-mapped, level cache with any valid discard count) and pair of constructors",
  why="The tests try each constructor at one or two sizes and compare roots with a constant or with one other constructor.",
  anchors=a([M], [("constructors", M+": new, new_with_config, from_data, from_par_iter, from_byte_slice, from_tree_slice, try_from_iter, from_data_store and their _with_config forms")], ["the constructors, compared through root, elements and proofs"]),
  level_note="Differential: all constructors on the same generated data, each also against the reference tree. Sampled shapes and values."),
 dict(id="C03", title="Every leaf has an exact, accepted proof; nothing else has one",
  statement="For every leaf of every tree, tree of trees and tree of trees of trees, the generated proof names that leaf, its root, exactly its siblings in order and its path, with the inner proofs of its components, and it is accepted. Asking for the proof of a leaf past the end is an error, never a panic and never a proof.",
  over=["inputs", "configurations"], q="every shape including compound ones, store, leaf values and every leaf index, valid or not",
  why="The tests validate proofs of a few trees but do not compare their contents, so a proof with a wrong path or an extra element that still hashes to the root, or an index past the end, goes unseen.",
  anchors=a([M, P], [("proof generation for plain and compound trees", M+": gen_proof, gen_sub_tree_proof, gen_top_tree_proof"), ("proof accessors", P+": item, root, lemma, path, sub_tree_proof")], ["gen_proof, the accessors of the proof, validate"]),
  level_note="Field-by-field comparison with the proof read off the reference tree, for all leaves of small trees and a spread in larger ones."),
 dict(id="C04", title="A proof is accepted exactly when it hashes up to its root",
  statement="Validation of any proof, genuine or altered in leaf, siblings, root, path, lengths, layer structure or inner proofs, accepts it if and only if its shape fits and hashing its item with its siblings along its path, with the row numbers used in building, gives its root at every layer, the inner root being the item of the layer above. Anything else is rejected by a false result or an error; no proof makes validation panic.",
  over=["inputs"], q="every genuine proof of every generated tree and every sequence of alterations of it",
  why="The tests break proofs of a handful of trees in four fixed ways; acceptance of any one of the countless other alterations would be a forgery.",
  anchors=a([P], [("validation by layers and hashing along the path", P+": validate, validate_sub_tree_proof, validate_leaf of the path")], ["Proof::validate"]),
  level_note="800 000 mutated proofs per quick run against an independent verifier, plus hash functions with collisions so that both verdicts occur; malformed shapes must not panic."),
 dict(id="C05", title="Proof plus data is accepted exactly for the data of that leaf",
  statement="Checking a proof together with raw data accepts it if and only if the proof itself is acceptable and the leaf it proves is the leaf hash of exactly that data. This holds for plain and compound proofs, and for data that equal another leaf, an interior node's children, the bytes of the leaf itself, or nothing at all.",
  over=["inputs"], q="every tree over hashable data, every leaf, candidate data and alteration of the proof",
  why="The tests check only that the right data are accepted on one tree.",
  anchors=a([P, "src/hash.rs"], [("validation with data", P+": validate_with_data"), ("hash of data as leaf", "src/hash.rs: Hashable, Algorithm::leaf")], ["Proof::validate_with_data"]),
  level_note="500 000 cases per quick run against an independent verifier."),
 dict(id="C06", title="A proof from cached rows equals the proof from the whole tree",
  statement="For every leaf of a tree whose lower rows were dropped, the proof regenerated from the leaves and the kept rows is identical to the proof the whole tree gives, for plain and compound trees, for each of the compact formats, and for every number of rows skipped that the store can honour, the default included. A request that cannot be honoured is an error, never a wrong proof and never a panic.",
  over=["inputs", "configurations"], q="every shape, compact format, number of dropped rows, number of rows asked to be skipped and leaf",
  why="The tests use fixed sizes with the default number of rows and check only that the proof validates.",
  anchors=a([M, S+"level_cache.rs"], [("partial tree rebuilding", M+": gen_cached_proof, generate_partial_tree, gen_cached_top_tree_proof, gen_cached_sub_tree_proof")], ["gen_cached_proof"]),
  level_note="Comparison with reference proofs for sampled shapes, discard counts and leaves."),
 dict(id="C07", title="Compaction keeps exactly the configured rows and nothing else",
  statement="Compacting a tree on disk leaves in its file exactly the rows kept by the configuration (with the base row in front of them in the older format, without it in the newer), and the tree reopened from that file has the same root, leaves and proofs as before. A configuration that keeps nothing or that the tree cannot satisfy is refused and leaves the file unchanged; a memory-mapped tree is unchanged by it, and stores that cannot be compacted say so.",
  over=["inputs", "configurations", "histories"], q="every shape, leaf values, discard count, format version and sequence of compactions and reopenings",
  why="The tests compact a few fixed trees with the default configuration and never look at the bytes that stay.",
  anchors=a([S+"disk.rs", S+"level_cache.rs", S+"mmap.rs", S+"vec.rs", M], [("copying of the cached region and truncation", S+"disk.rs: compact"), ("release and renewal of a mapping", S+"mmap.rs: compact, reinit")], ["compact, the data file, reopening"]),
  level_note="File bytes compared with the kept rows of the reference tree after every step; sampled shapes and sequences."),
 dict(id="C08", title="Building compact equals building in full and compacting",
  statement="A tree built directly as a compact (level-cache) tree leaves the same file, root, sizes, cached rows and cached proofs as the same tree built in full on disk and then compacted with the same number of dropped rows, for every constructor; one created from complete-tree bytes leaves the file of the older compact format, as compacting to that format does. A number of dropped rows that keeps nothing is refused.",
  over=["inputs", "configurations"], q="every shape, leaf values, valid and invalid discard count and constructor",
  why="The tests build compact trees at a few sizes and compare a root.",
  anchors=a([S+"level_cache.rs", M], [("building with a level cache and front truncation", S+"level_cache.rs: process_layer, build, front_truncate")], ["the data file, root, read_at, gen_cached_proof"]),
  level_note="Differential between the two ways, and against the reference tree; sampled."),
 dict(id="C09", title="A compact tree never passes anything off as a dropped row",
  statement="Any read of one element or a range from a compact tree, however it came about, either returns exactly the elements that the whole tree has there, or is an error: dropped rows, ranges that touch them, and positions past the end are always errors. Leaves and kept rows are always readable.",
  over=["inputs", "configurations", "histories"], q="every shape, origin of the compact tree (compacted in either format, built compact, handed over as complete bytes), discard count and sequence of element and range reads",
  why="The tests read leaves and the root; they never read near the borders of what was dropped.",
  anchors=a([S+"level_cache.rs"], [("translation of positions to base data or cached rows", S+"level_cache.rs: read_at, read_range, read_into, read_range_into, store_read_range, store_read_into")], ["read_at, read_range, read_into, read_range_into, last"]),
  level_note="About 350 000 reads per quick run, most around the borders, against the reference tree."),
 dict(id="C10", title="Trees of trees keep order and contents however they are assembled",
  statement="A compound tree assembled from trees, stores, slices, configurations or sub-trees has the leaves of its components in their order, a root hashed from the component roots in that order, the declared counts of leaves, elements and rows, and for every leaf a proof that leads through its component. Every way of assembling gives the same tree, another order of components gives the tree of that order, persisted components are not changed by assembling, and a leaf past the end is an error.",
  over=["inputs", "configurations"], q="every combination of layer arities, base tree size, store, leaf values and order of components",
  why="The tests assemble equal components with the same leaves, so an exchange of components is invisible to them.",
  anchors=a([M], [("assembling and indexing of compound trees", M+": from_trees, from_sub_trees, from_sub_trees_as_trees, from_slices, from_stores, from_store_configs, from_sub_tree_store_configs, read_at, compound gen_proof")], ["root, leafs, len, row_count, read_at, gen_proof"]),
  level_note="11 combinations of layer arities with different leaves in every component, against a reference compound."),
 dict(id="C11", title="What is not the shape of a tree is refused, and leaves nothing behind",
  statement="Leaf counts that are not a positive power of the arity, unsupported arities, byte lengths that do not match the declared number of leaves, iterators without a size or with fewer items than announced, and components of a compound tree that are missing, surplus, of unequal size or not on disk make the constructor return an error. It does not panic, does not return a tree, and does not leave a file under the configured name or create missing components.",
  over=["inputs", "configurations"], q="every constructor and store with every kind of malformed shape",
  why="The tests cover two or three invalid counts with an expected panic or error on the in-memory store.",
  anchors=a([M, S+"mod.rs"], [("checks of counts and sizes", M+": ensure!s of the constructors, is_merkle_tree_size_valid, get_merkle_tree_len"), ("clean-up after failed builds", M+": try_from_iter_with_config and the other _with_config constructors")], ["results of the constructors and the directory afterwards"]),
  level_note="24 000 malformed constructions per quick run; whether the shape is valid is decided by the harness's own arithmetic."),
 dict(id="C12", title="The size functions describe the trees that are built",
  statement="For every arity that is a power of two and every count that fits, the functions for tree length, leaf count, row count, cache size, proof length, validity of a leaf count and default number of rows to drop agree with the rows of an actual tree added up one by one, and are inverse to each other where both are defined. A length or count that belongs to no tree is reported as invalid, never as some other tree.",
  over=["inputs"], q="every arity 2..64, every leaf count and tree length that fits, every discard count, plain and compound",
  why="The tests check about a dozen values.",
  anchors=a([M, S+"mod.rs"], [("size arithmetic", M+": get_merkle_tree_len, get_merkle_tree_len_generic, get_merkle_tree_leafs, get_merkle_tree_row_count, get_merkle_tree_cache_size, get_merkle_proof_lemma_len, is_merkle_tree_size_valid, next_pow2, log2_pow2"), ("default rows to drop", S+"mod.rs: StoreConfig::default_rows_to_discard")], ["the functions themselves"]),
  level_note="All shapes exhaustively and candidates around them, random candidates elsewhere; arithmetic beyond about 2^62 is out of scope."),
 dict(id="C13", title="What was persisted is what is reopened, and only if it is complete",
  statement="A tree persisted under a configuration is, after reopening it by any documented way and by any kind of store that reads that format (as owner or read-only), the same tree in every element and proof, and building again over it with other data gives the persisted tree and leaves its file unchanged. A file that is missing, too short, too long or of a tree of another size is refused with an error and not modified; consistency tests answer exactly that question. Configurations keep their contents over derivation and serialization, and different identifiers name different files.",
  over=["inputs", "configurations", "fault_sequences"], q="every shape, constructor, kind of persistent store, identifier, damage of the file, requested size and discard count",
  why="The tests reopen a few undamaged stores of the right size.",
  anchors=a([S+"disk.rs", S+"mmap.rs", S+"level_cache.rs", S+"mod.rs", M], [("opening and size checks", S+"disk.rs, "+S+"mmap.rs, "+S+"level_cache.rs: new_with_config, new_from_disk, new_from_disk_with_reader, is_consistent"), ("configurations", S+"mod.rs: StoreConfig, ReplicaConfig")], ["reopened trees and the data file"]),
  level_note="10 000 generated persist/damage/reopen scenarios per quick run. A content change of the right size cannot be detected by design; trailing bytes in the older compact format are accepted by design."),
 dict(id="C14", title="Every store behaves as an array of elements",
  statement="After any sequence of writing single elements, copying blocks of elements, appending, reading elements and ranges, syncing, releasing and reopening, every store returns for each position the value last written there and reports as its length one more than the highest position written. Reads and writes beyond length or capacity are refused without changing anything, in the stores of fixed capacity. This holds for stores of any size, over 4 GiB included; elements that can no longer be read, because the resources were released or the file lost its end, are errors.",
  over=["inputs", "histories", "configurations"], q="every store kind (memory, disk, memory-mapped, level cache base row), capacity, element width and history of operations at valid, border and invalid positions",
  why="Stores have almost no tests of their own; no test mixes writes out of order, overwrites, block copies and reopening.",
  anchors=a([S+"vec.rs", S+"disk.rs", S+"mmap.rs", S+"level_cache.rs", S+"mod.rs"], [("element and range access", S+"*.rs: write_at, copy_from_slice, push, read_at, read_range, read_into, read_range_into, last, len, sync, reinit, new_from_slice, new_from_disk")], ["the Store trait"]),
  level_note="250 000 histories of up to 40 operations per quick run against an array model."),
 dict(id="C15", title="Parallel iteration over a store visits every element once, in place",
  statement="The parallel producer and iterator of a store, however it is split, walked from the front or the back, or combined by the adaptors of the parallel-iterator library, yields every element of the store exactly once, in order, with the right lengths. An element that can no longer be read ends the walk; nothing else is delivered in its place. Building a tree from such an iterator gives the tree of those elements.",
  over=["inputs", "schedules"], q="every store that can be iterated, length, tree of split points, mixed front/back walk and number of threads",
  why="Two tests sum or count a fixed store with the library's own splitting.",
  anchors=a([S+"mod.rs", S+"vec.rs", S+"disk.rs"], [("producer, splitting and double-ended iteration", S+"mod.rs: impl_parallel_iter!, ")], ["into_par_iter, the producer"]),
  level_note="The splits are generated by the harness itself, so every split tree is reachable; sampled."),
 dict(id="C16", title="Trees do not depend on threads, timing or neighbours",
  statement="What is built, and what concurrent readers of one tree see, is the same for every number of threads, every relative speed of the workers, builds nested in a shared pool and other trees built at the same time, in the same directory or without any configuration.",
  over=["schedules", "inputs", "configurations"], q="every number of worker threads, delays in hashing and in the leaf iterator, simultaneous builds and concurrent readers",
  why="The tests run with one pool and one timing and compare roots of single builds.",
  anchors=a([M, S+"mod.rs", S+"disk.rs", S+"mmap.rs", S+"level_cache.rs"], [("chunked parallel rows behind a lock", S+"mod.rs, "+S+"level_cache.rs: process_layer"), ("parallel collection of leaves", M+": populate_data_par"), ("temporary files", S+"disk.rs, "+S+"mmap.rs: new")], ["root, elements and proofs of trees built and read concurrently"]),
  level_note="Seeded delays perturb the schedule, which the harness does not own: a sample of interleavings, no exhaustive exploration."),
 dict(id="C17", title="The bytes hashed for a value are its canonical encoding",
  statement="Hashing a value of any supported type (integers, booleans, text, bytes, arrays, slices, tuples, references, pointers and their nesting) feeds the hasher exactly the bytes its type prescribes, in order and once, independent of what was hashed before. The default rules of an algorithm hash a leaf as the byte 0 followed by the leaf and a node as the byte 1 followed by all its children in order, and a tree over data hashes each datum, then the result as a leaf.",
  over=["inputs"], q="every value of every supported type, nesting, and prior state of the hasher",
  why="The tests hash a few strings and integers and compare with a constant.",
  anchors=a(["src/hash.rs", "src/hash_impl.rs"], [("encodings of types", "src/hash_impl.rs"), ("default leaf, node and multi-node rules", "src/hash.rs: Algorithm")], ["the bytes a recording hasher receives; leaves of a tree over data"]),
  level_note="300 000 values per quick run against an encoder written independently."),
 dict(id="C18", title="A build that cannot complete says so and leaves no tree behind",
  statement="If the source of leaves fails, files cannot be opened or cannot grow, or the place is missing, unusable, not permitted or already taken, building or compacting returns an error (the first error of the source, where that is the cause) instead of panicking or delivering a wrong tree. What such a failure leaves never opens as a complete tree, other trees in the directory and a tree already in that place are unchanged, and the same build succeeds once the cause is gone.",
  over=["fault_sequences", "inputs", "configurations"], q="every shape, store, constructor and one injected fault at any point: position of failing leaves, number of files that may be opened, size files may reach, kind of unusable place",
  why="No test makes anything fail while a tree is being built or compacted.",
  anchors=a([M, S+"disk.rs", S+"mmap.rs", S+"level_cache.rs"], [("propagation of errors and clean-up", M+": try_from_iter_with_config, from_par_iter_with_config; "+S+"*: new_with_config, delete"), ("compaction opens before it writes", S+"disk.rs: compact")], ["the result, the directory afterwards, later opens and builds"]),
  level_note="16 000 injected faults per quick run through failing iterators, resource limits of the process, and unusable places. Crashes of the process are not injected: the library promises nothing about them."),
 dict(id="C19", title="Outside leaves are read from exactly where the configuration says",
  statement="A tree or tree of trees that dropped its leaves reads leaf i of part k from the outside data at the offset configured for part k, so its root, leaves and proofs equal those of the whole tree for every order and spacing of the parts in the outside data. Outside data that are missing, cut short or unreadable, wrong numbers of offsets and missing or wrongly sized parts give errors; altered outside leaves never give an accepted proof of them under the true root.",
  over=["inputs", "configurations", "fault_sequences"], q="every shape, compact format, placement of parts in the outside file, and fault of outside data, offsets, parts or reader",
  why="The tests lay out parts one after another without gaps, with identical leaves, and never fail a read.",
  anchors=a([S+"level_cache.rs", S+"mod.rs", M], [("outside readers and offsets", S+"mod.rs: ExternalReader, ReplicaConfig; "+M+": from_store_configs_and_replica, from_sub_tree_store_configs_and_replica, set_external_reader_path"), ("base reads from outside", S+"level_cache.rs: store_read_range, store_read_into, set_external_reader")], ["root, read_at, read_range, gen_cached_proof, validate"]),
  level_note="24 000 placements and faults per quick run against the reference compound."),
 dict(id="C20", title="Trees that share a directory live and die on their own",
  statement="Through any history of building, building over, reopening, compacting, releasing, mapping again and deleting trees of different stores under different identifiers of one directory, the directory contains exactly one file per living tree with exactly the bytes of its form, and each tree, in hand or reopened, stays the tree that was built under its identifier. Deleting removes exactly the file of that identifier, after which it cannot be opened and can be built anew; deleting what is not there is an error, and an in-memory tree never touches a file.",
  over=["histories", "inputs", "configurations"], q="every history of lifecycle operations on up to four identifiers (some prefixes of others) and four kinds of store",
  why="The tests use one tree per directory and at most one compaction; no test deletes a tree and looks at what is left.",
  anchors=a([M, S+"mod.rs", S+"disk.rs", S+"mmap.rs", S+"level_cache.rs", S+"vec.rs"], [("file per identifier", S+"mod.rs: StoreConfig::data_path"), ("lifecycle", S+"*.rs: new_with_config, new_from_disk, compact, reinit, delete; "+M+": compact, reinit, delete")], ["the whole directory after every step, and the trees"]),
  level_note="12 000 model-based histories of up to 30 steps per quick run; the directory is compared with the model after each step."),
 dict(id="C21", title="No failed operation on a file is passed over",
  statement="Whichever single system call on files fails or transfers only a part during building, opening, reading, compacting, deleting, assembling trees, testing consistency or using a store as an array (opening, reading, writing, copying, resizing, flushing, mapping, seeking, looking up or removing a file), alone or together with all that follow: the operation either still gives exactly the right result, or returns an error that carries the error of the system call; it never panics. A write, resize or flush that failed is always reported, and a transfer that was merely cut short or interrupted never spoils anything. After the error nothing incomplete passes for a tree, a component, a neighbour or a tree already in place is unchanged, a tree in hand stays readable, and the same operation succeeds once the fault is gone (a compaction: if nothing had been moved yet).",
  over=["fault_sequences", "inputs", "histories", "configurations"], q="every operation, store, constructor and shape, every system call of that operation on a file (counted in a run without fault), every error code and kind of failure tried",
  why="No test makes a system call fail; errors in the middle of a build, flush, copy or read are reached by no input.",
  anchors=a([M, S+"mod.rs", S+"disk.rs", S+"mmap.rs", S+"level_cache.rs"], [("results of operations on files", S+"disk.rs, "+S+"mmap.rs, "+S+"level_cache.rs: all of Store; "+S+"mod.rs: ExternalReader"), ("flushing after the leaves are written", M+": populate_data, populate_data_par"), ("clean-up of what failed", M+": remove_incomplete_store; "+S+"mod.rs: remove_incomplete")], ["the result and the chain of its error, files afterwards, later reads, opens and builds"]),
  level_note="60 000 operations per quick run, each with one of its system calls made to fail by functions that take the place of the C library's in the harness. Temporary files' creation is partly outside of these."),
 dict(id="C22", title="What an operation costs follows from its shape",
  statement="Up to small constant factors, costs are these. Building holds no more memory than a few blocks of leaves (for each thread that fills them, with a parallel source) plus a few chunks of nodes per thread (for the in-memory store also the tree itself), whatever the number of leaves; each leaf and each node is hashed once; a file never becomes longer than the whole tree, and rows are read from it once (moved once more in a compact tree). Opening a persisted tree, putting together a tree of trees, and refusing a file of the wrong size read and hold a bounded amount per component and hash no leaves. A full proof reads the leaf and the siblings on its path only and hashes nothing; a cached proof reads and hashes only the leaves below one node of the first kept row; verifying hashes one node per level; reading k elements reads k elements; compaction copies the kept rows piecewise. A component keeps a bounded number of files open and has at most one mapping, none after it was released. Whatever an operation took (memory, open files, mappings) is given back when its values are gone, also when it failed.",
  over=["inputs", "configurations", "histories"], q="every shape, store, form of a persisted tree, way of building or assembling, with sources that fail at any leaf",
  why="The tests check results only; what is read, held, hashed or left open to get them is observed by none, and a rebuilt, slurped or leaked tree gives the same results.",
  anchors=a([M, S+"mod.rs", S+"disk.rs", S+"mmap.rs", S+"level_cache.rs", "src/proof.rs"], [("blocks and chunks", M+": BUILD_DATA_BLOCK_SIZE, populate_data, populate_data_par; "+S+"mod.rs: BUILD_CHUNK_NODES; process_layer of all stores"), ("partial trees", M+": gen_cached_proof, gen_proof_with_partial_tree"), ("opening and compaction", S+"*.rs: new_from_disk*, compact, reinit, front_truncate")], ["peak of the heap, bytes read by system calls, length of files, calls of the hash function, open files and mappings"]),
  level_note="4 000 operations per quick run, measured by a counting allocator, counting stand-ins for system calls, a counting hash function and /proc. Limits are twice the need or more (six blocks of leaves in a build, 2 MiB to move rows), so small losses are not seen; reads through mappings are not counted."),
 dict(id="C23", title="Parts supplied by the user are used by their interface and believed",
  statement="With any store that implements the public Store trait, and with any reader of outside leaves given to a level-cache store, trees built, opened, put together, read and proved are exactly those of the built-in stores. The store is used as its interface says: nothing is read that was not written, nothing is read or written outside of the size asked for, buffers have the length of what is read, it is not assumed to keep its elements in files; compact, reinit and delete are handed through with their arguments and answers. The reader is only asked for bytes of leaves of its component, from its offset on. If a call on such a part fails, the operation fails with that error, without panic, and nothing else: a build removes the store it created (and no other) and can be repeated, a tree in hand stays usable. A reader that delivers fewer bytes than it was asked for is never believed to have delivered all.",
  over=["inputs", "fault_sequences", "configurations"], q="every constructor, shape, way of assembling and request, and every call on the store or the reader that fails, alone or with all later ones, or falls short",
  why="The tests use the built-in stores and readers of files only; no part of theirs ever fails or falls short.",
  anchors=a([M, S+"mod.rs", S+"level_cache.rs"], [("interface of stores", S+"mod.rs: trait Store, build, build_small_tree, process_layer"), ("use of stores", M+": all constructors, compact, reinit, delete, read_*, gen_proof, gen_cached_proof"), ("interface and use of readers", S+"mod.rs: ExternalReader; "+S+"level_cache.rs: store_read_range, store_read_into")], ["the calls that arrive at the part, results, errors and their cause, what the store keeps afterwards"]),
  level_note="60 000 cases per quick run with a recording store and a recording reader that fail or fall short at a chosen call."),
 dict(id="C24", title="What was finished stays when the process is killed",
  statement="If the process is killed at any moment, whatever it was doing and without anything being closed or dropped, then: every tree whose building with a configuration, or whose compaction, had been reported as done is afterwards in its file, byte for byte, is consistent, and opens to the same tree, with its proofs; also if the process was just opening it, reading it, or building over it. Elements written to a store with a configuration are in its file, but for those being written. A deletion that was interrupted has removed the whole file or nothing. What an interrupted compaction leaves is never taken for a compacted tree unless it is one. No place is touched but that of the interrupted operation; what an interrupted build left can be deleted and the tree built again. Stores without a configuration leave no files behind. Before a compaction or a flush is reported as done, the file was flushed after its last change. What an interrupted build leaves is not taken for a complete tree.",
  over=["histories", "crash_points", "configurations"], q="every history of builds (all stores and constructors), compactions, openings, deletions and writes, and every moment at which the process is killed: before or within each call on a file, at each leaf, between operations",
  why="The tests run in one process that ends orderly; none looks at what is in the files while the values still live, let alone when the process dies.",
  anchors=a([M, S+"mod.rs", S+"disk.rs", S+"mmap.rs", S+"level_cache.rs"], [("builds and where the file is written", S+"*.rs: new_with_config, write_at, copy_from_slice, process_layer, build; "+S+"mod.rs: build"), ("compaction, flushing, deleting", S+"*.rs: compact, sync, delete, is_consistent; "+M+": compact, delete")], ["files left in the directory by a killed process, opened by another"]),
  level_note="16 000 histories per quick run, each in a process of its own that is killed (SIGKILL) at a chosen call or item. The machine goes on: loss of unflushed data is judged by the order of changes and flushes only. Known findings: the file of an interrupted build or compaction, of full size, is taken for a complete tree."),
]
TECH = {
 "C01": "property-based testing against a reference tree", "C02": "differential property-based testing of constructors", "C03": "property-based testing against reference proofs",
 "C04": "structured mutation fuzzing of proofs against a reference verifier", "C05": "structured mutation fuzzing of proofs and data against a reference verifier",
 "C06": "property-based testing against reference proofs", "C07": "model-based testing of compaction sequences", "C08": "differential property-based testing", "C09": "model-based fuzzing of read sequences",
 "C10": "differential and metamorphic property-based testing", "C11": "fuzzing with malformed inputs", "C12": "exhaustive and random testing against an independent computation",
 "C13": "property-based testing with injected file damage", "C14": "stateful model-based testing", "C15": "property-based testing with generated split trees",
 "C16": "property-based testing with seeded schedule perturbation", "C17": "property-based testing against an independent encoder", "C18": "property-based fault injection",
 "C19": "property-based testing with generated placements and faults", "C20": "stateful model-based testing of directory histories",
 "C22": "property-based testing with measured costs against computed limits", "C23": "property-based testing with recording and failing stand-ins for the user's parts",
 "C24": "property-based crash injection into a child process, model of what was finished",
 "C21": "fault injection into system calls, property-based",
}
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"], "anchors": p["anchors"]}, ensure_ascii=False) + "\n")
        assert len(p["title"]) <= 80, p["id"]
man = {"version": 1, "setup_cmd": "./setup.sh",
       "checks": [{"property": p["id"], "quick_cmd": f"./check.sh {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p['id']}", "technique": TECH[p["id"]], "level": "exploration", "level_note": p["level_note"]} for p in PROPS],
       "not_applicable": [],
       "notes": "No hooks in /repo: every check uses the public API only. Repairs of genuine defects are the fix: commits, listed in known_findings.json."}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
