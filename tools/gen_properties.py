#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": q}, "why_tests_cant": why, "anchors": a})

p("C01", "Cell identity: hashes, depths and levels follow the format",
  "Every cell that can be built or decoded, of every kind (ordinary, pruned branch, library reference, Merkle proof, Merkle update), reports for every level 0..3 exactly the hash and depth the cell format prescribes for its data and children, and the level mask that follows from them. Data that does not form a valid cell of the declared kind (wrong length, wrong reference count, wrong level mask, depth over the limit) is refused with an error and never becomes a cell. Two cells compare equal exactly when their representation hashes are equal.",
  ["inputs"], "all trees of cells over a bounded alphabet of data lengths, kinds, reference counts and level masks, and all one-field corruptions of exotic cells",
  "Unit tests compare a few dozen fixed hashes; level-dependent hashes of nested exotic cells and odd data lengths are hardly reached.",
  ["src/cell/cell_context.rs", "src/cell/cell_impl/mod.rs", "src/cell/mod.rs", "src/cell/builder.rs", "src/boc/de.rs"],
  [("CellParts::compute_hashes", "src/cell/cell_context.rs"), ("HashesItem / PrunedBranch hash lookup", "src/cell/cell_impl"), ("LevelMask, CellDescriptor", "src/cell/mod.rs")])

p("C02", "Cell builder appends exactly the requested bits or changes nothing",
  "After any sequence of store operations the builder holds exactly the concatenation, most significant bit first, of the bits and references of the operations that succeeded, whatever the current bit offset. An operation that would exceed 1023 bits or 4 references, or whose argument is out of range, returns an error and leaves the builder unchanged; no argument makes it panic or write outside its buffer. Rewind, prepend and set operations affect only the bits they name, and the built cell and its slice contain exactly the builder's content.",
  ["inputs", "histories"], "all operations x all bit offsets 0..1023 x all operand widths, and all operation sequences to a bounded depth",
  "Tests use a few fixed sequences; the byte/bit shifting code has a separate path for every (offset mod 8, length) pair and for the capacity limits.",
  ["src/cell/builder.rs", "src/util.rs"],
  [("CellDataBuilder::store_*", "src/cell/builder.rs"), ("store_raw", "src/cell/builder.rs"), ("bigint store", "src/cell/builder.rs")])

p("C03", "Cell slices read exactly their window and never beyond it",
  "Every read, skip, load, prefix, compare, split, strip and uniformity operation on a slice returns exactly what the same operation on the slice's own bit string and list of references gives, whatever the offset of the window in the underlying cell. A request beyond the window returns an underflow error (or none) and leaves the slice unchanged; no argument makes a slice panic or observe bits or references outside its window.",
  ["inputs", "histories"], "all windows (start, length) of bounded cells x all operations x all operand widths, including extreme integer arguments",
  "Tests check a handful of offsets; each accessor has its own unaligned-access arithmetic and its own bound check.",
  ["src/cell/slice.rs", "src/util.rs"],
  [("CellSlice::get_*/load_*", "src/cell/slice.rs"), ("CellSliceRange", "src/cell/slice.rs"), ("strip/longest_common_prefix/lex_cmp/test_uniform", "src/cell/slice.rs")])

p("C04", "Bag-of-cells encoding round-trips every cell graph and is canonical",
  "Encoding any list of root cells and decoding the bytes yields the same roots in the same order, with the same hashes, kinds, data and references, for every encoding option (with or without checksum, with or without stored hashes, one or many roots, any reference-size). Each distinct cell is written once, children always after their parents, and the bytes are exactly those given by the format for that order; all encoding entry points and writers agree byte for byte.",
  ["inputs", "configurations"], "all small cell DAGs (with sharing, several roots, exotic cells) x all header options, and sizes straddling each index-width boundary",
  "Tests round-trip a few fixed blocks with default options; sharing patterns, multiple roots, options and width boundaries are not covered.",
  ["src/boc/ser.rs", "src/boc/mod.rs", "src/boc/de.rs", "src/boc/serde.rs"],
  [("BocHeader::encode / encode_to_writer", "src/boc/ser.rs"), ("fill (topological order)", "src/boc/ser.rs"), ("Boc, BocRepr entry points", "src/boc/mod.rs")])

p("C05", "Bag-of-cells decoding is total and accepts only well-formed input",
  "Decoding any byte string terminates, without panic or access outside the input, with either an error or a list of roots. It succeeds exactly for well-formed bags (known tag, consistent sizes and counts, forward references only, correct checksum when present, every cell valid), and then the cells are exactly those written in the bytes, hashes being recomputed and never taken from the input.",
  ["inputs", "fault_sequences"], "all single- and double-byte corruptions and all truncations and extensions of a corpus of encodings covering every header form, and all short byte strings over structured alphabets",
  "Two fuzz targets exist but no test; the space of hostile headers (counts, widths, indexes, descriptors) is not sampled by tests at all.",
  ["src/boc/de.rs", "src/boc/mod.rs", "src/cell/cell_context.rs"],
  [("BocHeader::decode", "src/boc/de.rs"), ("deserialize_cell / finalize", "src/boc/de.rs"), ("root index and forward reference checks", "src/boc/de.rs")])

p("C06", "Cells live exactly as long as they are owned",
  "Whatever the shape of a cell graph and the order (and thread interleaving) in which owners, weak handles, clones and wrappers are created and dropped, every cell is released exactly once, not before its last owner (direct or through a parent) is gone, and never used afterwards; surviving cells keep their content. Dropping a graph of any depth does not overflow the stack.",
  ["histories", "schedules"], "all small DAGs x all drop orders x cell kinds and wrappers x two-thread interleavings at the drop protocol's decision points",
  "Tests drop only simple chains; double free, leak or premature release depends on sharing, ordering and thread interleaving.",
  ["src/cell/cell_impl/mod.rs", "src/cell/cell_impl/sync.rs", "src/cell/cell_impl/rc.rs", "src/cell/usage_tree.rs", "src/util.rs"],
  [("SafeDeleter / deep_drop", "src/cell/cell_impl"), ("take_first_child / replace_first_child / take_next_child", "src/cell/cell_impl/mod.rs")], hook="yield points in the deep-drop loop")

p("C07", "Virtualized cells present the proven tree one level lower",
  "A virtualized cell has the hashes and depths, at every level, of the cell with the pruned branches of the removed level replaced by what they stand for: its representation hash and depth equal those of the original cell, recursively in all children obtained from it, by reference or owned, and repeatedly for repeated virtualization. Everything else about it (descriptor, data, references, slices) is that of the underlying cell. Virtualization of a cell that has no level changes nothing observable.",
  ["inputs"], "all bounded trees, all their pruned forms inside Merkle cells, nested to two levels, all paths and all query operations",
  "Tests virtualize two or three fixed proofs at the root only.",
  ["src/cell/cell_impl/mod.rs", "src/cell/mod.rs"],
  [("VirtualCell / VirtualCellWrapper", "src/cell/cell_impl/mod.rs"), ("LevelMask::virtualize", "src/cell/mod.rs")])

p("C08", "Usage tracking records exactly the cells that were touched",
  "A tracked cell behaves in every query like the cell it wraps. After any sequence of operations by any number of threads, in every interleaving, the usage tree contains exactly the cells of the tracked graph that were loaded (or whose data was accessed, in that mode) through it, and nothing else, each recorded before any thread can use what was loaded; an added subtree counts as a whole in the proofs and updates made from the tree; concurrent loads of one reference give the same child, and untracking returns the original cell.",
  ["histories", "schedules"], "all access sequences to a bounded depth over small DAGs in both modes, and all two- and three-thread interleavings of short access scripts at the points where tracking state is read or written",
  "Tests touch fixed paths in one thread; exactness over all access histories and races between loading and recording are not sampled.",
  ["src/cell/usage_tree.rs"],
  [("UsageCell::load_reference / data", "src/cell/usage_tree.rs"), ("UsageTreeState::insert", "src/cell/usage_tree.rs")], hook="yield points around the shared tracking state")

p("C09", "A dictionary behaves as a map under every sequence of operations",
  "For every key width, every history of set, add, replace, remove, remove-min/max and lookups gives the results an ordered map would give: values last stored are returned, absent keys are absent, booleans report whether something changed, removed values are handed back, and failed operations leave the dictionary as it was. Keys of the wrong length are errors.",
  ["histories", "inputs"], "all operation sequences over small key universes (all reachable dictionary states, closed under operations) for widths 1 to 8 and selected structured universes of wide keys up to 1023 bits",
  "Tests insert and delete particular key sets; edge splitting and joining depend on the relative position of every pair of keys and on label-format boundaries.",
  ["src/dict/mod.rs", "src/dict/raw.rs", "src/dict/typed.rs", "src/dict/ops/insert.rs", "src/dict/ops/remove.rs", "src/dict/ops/get.rs"],
  [("dict_insert", "src/dict/ops/insert.rs"), ("dict_remove_owned, dict_remove_bound_owned", "src/dict/ops/remove.rs"), ("dict_get", "src/dict/ops/get.rs")])

p("C10", "A dictionary's cell tree depends only on its content and is canonical",
  "Any two histories that lead to the same set of key-value pairs lead to the same root cell, and that cell is the canonical serialization of the pairs: the label of every edge is its longest common prefix encoded in the shortest of the three label forms (with the fixed tie-break), every fork has two non-empty branches and values sit at leaves only.",
  ["histories", "inputs"], "all reachable dictionary states of small universes reached along all transitions, all subsets of structured wide-key sets, and all (label content, remaining length) pairs up to 1023 bits",
  "Tests compare a few roots with constants; label-form boundaries depend on length and remaining key bits jointly.",
  ["src/dict/mod.rs", "src/dict/ops/*.rs"],
  [("write_label / read_label", "src/dict/mod.rs"), ("make_leaf / make_leaf_with_extra, split_edge", "src/dict/mod.rs")])

p("C11", "Dictionary iteration and ordered queries follow key order",
  "Iterators, in either direction, signed or unsigned, yield exactly the entries of the dictionary, each once, in key order; union iterators yield the ordered union of two dictionaries with each side's value; and minimum, maximum, next and previous queries (strict or not, signed or not) return the entry an ordered map would return, for any query key present or absent.",
  ["inputs"], "all subsets of small key universes x all query keys x all flag combinations, all pairs of subsets for unions, and structured wide keys",
  "Tests iterate over a few dictionaries; neighbour searches have many cases depending on where the query key leaves the trie.",
  ["src/dict/raw.rs", "src/dict/typed.rs", "src/dict/aug.rs", "src/dict/ops/find.rs"],
  [("RawIter, UnionRawIter", "src/dict/raw.rs"), ("dict_find_owned / dict_find_bound", "src/dict/ops/find.rs")])

p("C12", "Splitting, merging and cutting dictionaries preserve exactly their entries",
  "Splitting a dictionary (at its root or below a key prefix) gives two dictionaries holding exactly the entries of either half, merging sibling halves restores the original, and combining two dictionaries or taking the sub-dictionary under a prefix yields exactly the entries concerned, all in canonical form. Requests that do not fit the dictionary are errors or empty results, never wrong entries.",
  ["inputs"], "all subsets of small universes x all prefixes x all pairs",
  "Tests split at one or two prefixes; root-edge and empty-side cases are numerous.",
  ["src/dict/ops/split_merge.rs", "src/dict/ops/get.rs", "src/dict/mod.rs", "src/dict/raw.rs"],
  [("dict_split_by_prefix, dict_merge_siblings, dict_merge", "src/dict/ops/split_merge.rs"), ("dict_get_subdict", "src/dict/ops/get.rs")])

p("C13", "An augmented dictionary's extra is the fold of its leaves' extras",
  "After any history of operations on an augmented dictionary its entries behave as a map, the extra stored at every fork equals the combination of the extras of its two branches, left then right, and the root extra equals that of the root edge (the default for an empty dictionary). Bulk construction, bulk modification, split and merge give the same tree as the equivalent single operations, and search by extra follows these values.",
  ["histories", "inputs"], "all operation sequences over small universes with an order-sensitive extra, all subsets, and all bulk change lists",
  "Tests check the root extra after a few inserts; a stale extra on one of the many edge-restructuring paths is invisible to them.",
  ["src/dict/aug.rs", "src/dict/ops/insert.rs", "src/dict/ops/remove.rs", "src/dict/ops/build.rs", "src/dict/ops/modify.rs", "src/dict/ops/split_merge.rs"],
  [("aug_dict_insert, aug_dict_remove_owned", "src/dict/ops"), ("AugDict::update_root_extra", "src/dict/aug.rs")])

p("C14", "Bulk dictionary construction and modification equal step-by-step changes",
  "Building a dictionary from sorted entries, or applying a sorted list of insertions, replacements and deletions to an existing one, produces the same root as applying them one by one in that order (of entries with equal keys the first counts), reports no change only if the dictionary did not change, and fails on unsorted input, on an error of the value source or when the result does not fit into cells, leaving the dictionary unchanged.",
  ["inputs"], "all starting subsets x all change lists over small universes (every key: untouched, set, deleted), all subsets for construction, duplicates and unsorted lists, structured wide keys",
  "Tests use random lists over a few sizes; the rebuild algorithm restructures edges jointly and its errors need specific neighbour patterns.",
  ["src/dict/ops/build.rs", "src/dict/ops/modify.rs", "src/dict/typed.rs", "src/dict/raw.rs"],
  [("build_dict_from_sorted_iter", "src/dict/ops/build.rs"), ("dict_modify_from_sorted_iter", "src/dict/ops/modify.rs")])

p("C15", "Dictionary and model code never panics on arbitrary cell trees",
  "Interpreting any tree of cells (including pruned and other exotic cells) as a dictionary, augmented dictionary or any chain data structure, and applying any read or update to it, ends with a value or an error: no panic, no endless loop, no arithmetic overflow. An iterator yields nothing after an error, and a dictionary update that fails leaves the dictionary as it was.",
  ["inputs", "fault_sequences"], "all bounded-size corruptions (bit flips, truncations, removed or swapped references, pruned substitutions) of valid trees and all tiny trees, times all operations",
  "Tests feed valid trees only, while these trees arrive from the network.",
  ["src/dict/*.rs", "src/dict/ops/*.rs", "src/models/**"],
  [("read_label bounds", "src/dict/mod.rs"), ("Load implementations", "src/models")])

p("C16", "A Merkle proof proves the original root and reveals exactly what was visited",
  "A proof built for any cell graph and any set of visited cells is a valid Merkle proof cell whose hash and depth are those of the original root; virtualized, it lets exactly the visited cells (and cells required by the chosen options) be read with original content, every other subtree being a pruned branch carrying the original's hashes and depths at the right level, including inside nested Merkle cells. A visited set lacking the root is refused; changing any bit of a proof changes its hash or invalidates it.",
  ["inputs", "configurations"], "all small cell DAGs with nested Merkle cells and pruned branches x all visited subsets x builder options",
  "Tests prove one or two accounts; pruning at the wrong Merkle depth needs sharing across Merkle boundaries.",
  ["src/merkle/proof.rs", "src/merkle/pruned_branch.rs", "src/merkle/mod.rs"],
  [("MerkleProofBuilder / BuilderImpl", "src/merkle/proof.rs"), ("make_pruned_branch", "src/merkle/pruned_branch.rs")])

p("C17", "A Merkle update turns the old tree into exactly the new one",
  "An update created from an old and a new tree and a set of used old cells (or whole used subtrees) is a valid update cell naming both root hashes and depths; applied to the old tree it gives exactly the new tree, applied to any tree with another root hash it is refused, and it contains only cells that are new or needed as context. Storing and loading the update changes nothing, and corrupted updates are errors.",
  ["inputs"], "all pairs of small trees with shared parts x all ancestor-closed used sets, both apply entry points",
  "Tests apply one or two updates on dictionaries.",
  ["src/merkle/update.rs", "src/merkle/proof.rs"],
  [("MerkleUpdate::create / apply", "src/merkle/update.rs"), ("BuilderImpl, Applier", "src/merkle/update.rs")])

p("C18", "Merkle update diff reports exactly the cells the update removes",
  "For any old and new tree, the set of removed cells computed from the update (with the number of removed references to each) is exactly what reference counting over the two trees gives, and the trees can be recovered by applying it.",
  ["inputs"], "all pairs of small tree-shaped and DAG-shaped old and new roots",
  "Tests check a single example.",
  ["src/merkle/update.rs"],
  [("MerkleUpdate::compute_removed_cells", "src/merkle/update.rs")])

p("C19", "Parallel code paths give the results of the sequential ones",
  "Encoding bags of cells and building Merkle proofs and updates with the multi-threaded variants yields the same bytes and cells as the single-threaded ones, for every input, number of worker threads, split set and schedule of the tasks; sharing in the graph does not multiply the work.",
  ["inputs", "schedules", "configurations"], "all small DAGs and visited sets x split sets x pool sizes",
  "No test compiles the parallel variants.",
  ["src/boc/ser.rs", "src/merkle/proof.rs", "src/merkle/update.rs"],
  [("ParBuilderImpl", "src/merkle/proof.rs"), ("rayon BoC writer", "src/boc/ser.rs")])

p("C20", "Variable-length and narrow integers are stored, bounded and computed exactly",
  "Token amounts and the other length-prefixed or narrow integer types round-trip through cells with the shortest encoding and the announced size, refuse values out of range on store and accept on load only what they can hold, and their checked and saturating arithmetic, comparisons, conversions and text forms agree with exact integer arithmetic within their range.",
  ["inputs"], "all values of types up to 16 bits; all values around every byte-length boundary for wider ones, pairwise for binary operations; all encodings of every length prefix",
  "Tests check a few constants; defects live at byte-length boundaries.",
  ["src/num/mod.rs"],
  [("impl_var_uints / impl_small_uints", "src/num/mod.rs"), ("Tokens", "src/num/mod.rs")])

p("C21", "248-bit and arbitrary-precision integers agree with exact arithmetic",
  "Addition, subtraction, multiplication, division, remainder, shifts, comparison, conversions, text parsing and printing of the wide integer type agree with exact integer arithmetic, overflow being reported or saturating as documented. Arbitrary-precision integers stored in fixed or variable width cells are read back unchanged, out-of-range values being errors that leave the builder as it was.",
  ["inputs"], "all pairs from a structured set of word patterns (boundaries of every bit and byte length, division correction cases), all shift amounts, all widths and bit offsets",
  "Tests use few random operands; long-division corrections and carry chains need specific words.",
  ["src/num/varuint248.rs", "src/cell/builder.rs", "src/cell/slice.rs"],
  [("div_mod_knuth, umulddi3", "src/num/varuint248.rs"), ("store_bigint / load_bigint / store_var_bigint", "src/cell/builder.rs, src/cell/slice.rs")])

p("C22", "Currency arithmetic is exact per currency and all-or-nothing",
  "Adding, subtracting and clamping currency collections acts on each currency separately and exactly, a currency whose amount becomes zero disappears from the collection, overflow or a missing amount makes the whole operation fail, and results are stored canonically, independent of the order of operations.",
  ["inputs"], "all pairs (and triples for associativity) of collections over a small set of currencies and boundary amounts",
  "Tests add two or three collections.",
  ["src/models/currency.rs"],
  [("CurrencyCollection::checked_add/checked_sub/checked_clamp", "src/models/currency.rs"), ("ExtraCurrencyCollection", "src/models/currency.rs")])

p("C23", "Shard identifiers form an exact binary tree of address prefixes",
  "For every shard, parent, children, sibling, ancestor, intersection and account containment relations are exactly those of its bit prefix within its workchain; splitting and merging are inverse, invalid prefixes are refused, and shard and block identifiers print and parse, store and load to the same value, malformed text or data being refused.",
  ["inputs"], "all shard prefixes to depth 10 pairwise and all depths to the maximum on chosen paths, all account prefixes at boundaries, all single-character corruptions of texts",
  "Tests check a few prefixes.",
  ["src/models/block/block_id.rs"],
  [("ShardIdent", "src/models/block/block_id.rs"), ("BlockId, BlockIdShort parsing", "src/models/block/block_id.rs")])

p("C24", "Addresses round-trip through text, base64, cells and dictionary keys",
  "Every address of each kind (standard, variable, external, none) is read back unchanged from its cell form, standard addresses also from raw text, from both base64 alphabets with all flag combinations, and as dictionary keys, in the order of their bits; malformed texts, checksums, flags, lengths and tags are errors and never another address. Address prefixes and announced sizes equal the stored ones.",
  ["inputs"], "all flag combinations, workchains at boundaries, structured address bits, all single-character corruptions, all variable lengths and anycast depths",
  "Tests parse a few literals.",
  ["src/models/message/address.rs"],
  [("StdAddr parsing and formatting", "src/models/message/address.rs"), ("Load/Store for IntAddr, StdAddr, VarAddr, ExtAddr, Anycast", "src/models/message/address.rs")])

p("C25", "Every chain data structure stores and loads losslessly",
  "Each blockchain structure (messages and envelopes, accounts, transactions and phases, actions, blocks and headers, proofs, shard states, configuration parameters) written to a cell and read back is the same value, re-writing gives the same cell, and the bits and references are those of the published scheme: tags, field order, optional flags, either-inline-or-reference choices. Announced exact sizes equal actual ones, and a wrong tag or truncated data is an error.",
  ["inputs", "configurations"], "all combinations of variants, optional fields, flags and boundary field values of each structure, all layouts of messages, all truncations",
  "Tests decode a few real cells, so combinations of flags and optional parts and both layouts are not covered.",
  ["src/models/**", "proc/src/**"],
  [("Load/Store impls and derive macros", "src/models, proc/src"), ("MessageLayout", "src/models/message/mod.rs")])

p("C26", "The shard configuration tree lists exactly the shards of a partition",
  "Building the tree of shard descriptions from any complete partition of the workchains' address spaces and reading it back (by iteration, by lookup of a workchain, by latest blocks) yields exactly those shards with their descriptions; a set that is not a partition is refused. Raw and typed views agree, and malformed trees give errors.",
  ["inputs"], "all partitions to depth 4 in up to two workchains, all single-shard omissions, duplications and overlaps, all lookups",
  "Tests build two or three trees.",
  ["src/models/block/shard_hashes.rs"],
  [("ShardHashes::from_shards, iterators", "src/models/block/shard_hashes.rs"), ("ShardDescription", "src/models/block/shard_hashes.rs")])

p("C27", "Configuration accessors, fees and validator selection follow the protocol",
  "A configuration parameter set is read back unchanged through its accessor and only affects its own index. Fee and gas computations equal the exact integer formulas of the protocol (rounded as specified, saturating). The validator subset for a shard and session is the weight-respecting selection determined by the pseudo-random sequence: distinct validators, the requested size, deterministic, with the stated short hash.",
  ["inputs", "configurations"], "all parameters x boundary values; all small validator sets (weights, sizes, shuffle flags) x sessions; boundary arguments of every formula",
  "Tests decode one configuration and check one subset.",
  ["src/models/config/mod.rs", "src/models/config/params.rs"],
  [("BlockchainConfigParams get/set", "src/models/config/mod.rs"), ("ValidatorSet::compute_subset, ValidatorSetPRNG", "src/models/config/params.rs"), ("compute_*_fee", "src/models/config/params.rs")])

p("C28", "ABI values survive encoding and decoding for every type and version",
  "For every ABI type, including nested tuples, arrays, maps, optionals and references, and every ABI version, each value of that type encoded to cells decodes to the same value, regardless of how many preceding values share the cells; the layout over chained cells is the one the ABI version prescribes; a value not of the type, or data not of the type, is an error.",
  ["inputs", "configurations"], "all types to nesting depth 2 and tuples to length 3 over a boundary alphabet x versions 1.0 to 2.7 x boundary values",
  "Tests encode particular tuples; the cell-splitting decision depends on the sizes of all neighbours.",
  ["src/abi/value/ser.rs", "src/abi/value/de.rs", "src/abi/ty.rs", "src/abi/value/mod.rs"],
  [("AbiSerializer", "src/abi/value/ser.rs"), ("AbiValue::load_ext", "src/abi/value/de.rs"), ("AbiType::max_size", "src/abi/ty.rs")])

p("C29", "ABI calls: identifiers, headers, signatures and type texts are consistent",
  "Function and event identifiers are the specified hash of the signature text, type names print and parse to the same type, and bad names are errors. A message body built for a function decodes to the same headers-stripped inputs, and its signature verifies over exactly the data the version prescribes (hash of the body with signature omitted, destination address included from the version that requires it, with the signature id when given).",
  ["inputs", "configurations"], "all header combinations x versions x signed, unsigned and fake signature x signature ids, all type texts to nesting depth 3 and their single-character corruptions",
  "Tests check a few fixed calls.",
  ["src/abi/contract.rs", "src/abi/signature.rs", "src/abi/ty.rs", "src/abi/mod.rs"],
  [("Function::encode_external / decode_*", "src/abi/contract.rs"), ("UnsignedBody::fill_signature", "src/abi/contract.rs"), ("AbiType parsing", "src/abi/ty.rs")])

p("C30", "Text and serde forms of basic values round-trip and reject garbage",
  "Hashes, bit strings, cells, dictionaries and integers written as text, JSON or a binary serde format are read back unchanged, in every accepted notation; any other text, and any value out of range, is refused with an error and never panics.",
  ["inputs"], "all bit strings to 16 bits and all lengths to 1023, all single-character corruptions of valid texts, all short texts over an adversarial alphabet (including multi-byte characters)",
  "Tests parse valid literals.",
  ["src/cell/mod.rs", "src/util.rs", "src/boc/serde.rs", "src/dict/typed.rs", "src/cell/slice.rs"],
  [("HashBytes::from_str, Bitstring, decode_hex/base64", "src/cell/mod.rs, src/util.rs"), ("serde impls", "src/boc/serde.rs")])

p("C31", "Cell tree statistics count every distinct cell once and respect the limit",
  "The storage statistics of a cell, a slice or an account's storage equal the number of distinct reachable cells and the sum of their bits (the slice's own bits included, its root cell excluded where so documented), whatever the sharing; with a limit, a result is given exactly when the number of cells does not exceed it. Adding several roots counts shared cells once.",
  ["inputs"], "all small DAGs x all limits x all orders of adding roots and slices",
  "Tests check two fixed trees.",
  ["src/cell/mod.rs"],
  [("StorageStat::add_cell / add_slice", "src/cell/mod.rs"), ("compute_unique_stats", "src/cell/mod.rs")])
p("C32", "A cell context sees every cell that an operation loads or creates",
  "An operation that is given a cell context gives the result of the same operation without one. Dictionary lookups, insertions, removals, bounds, subdictionaries and splits load the dictionary cells they read through the context: each cell on the path of the key is charged exactly once (a removal also charges the sibling it joins; a nearest-key search may charge the cell where the key leaves the tree again), and cells which the context resolves from library references are invisible in the results. Every cell that appears in a result and was not there before was created by the context: in dictionary changes (which create none in vain), stored models, decoded bags, Merkle proofs and updates, and applied updates. A refusal of any load or creation is returned at once and leaves the dictionary as it was.",
  ["inputs", "fault_sequences"], "all dictionaries over small key sets x all operations with a context x sets of library references x each refused event; all small DAGs for bags and Merkle structures; all model values of the schema generator",
  "Tests use the empty context nearly everywhere; one cell loaded or created behind the context (and so not charged, not resolved or not interned) changes no result that they look at.",
  ["src/cell/cell_context.rs", "src/cell/builder.rs", "src/dict/mod.rs", "src/dict/ops/find.rs", "src/dict/ops/insert.rs", "src/dict/ops/remove.rs", "src/dict/ops/split_merge.rs", "src/dict/ops/modify.rs", "src/dict/ops/build.rs", "src/dict/aug.rs", "src/boc/de.rs", "src/merkle/proof.rs", "src/merkle/update.rs"],
  [("trait CellContext", "src/cell/cell_context.rs"), ("dict_find_owned", "src/dict/ops/find.rs"), ("dict_insert", "src/dict/ops/insert.rs"), ("dict_remove_owned", "src/dict/ops/remove.rs"), ("MerkleUpdate::apply_ext", "src/merkle/update.rs")])

p("C33", "Derived and composed Store/Load implementations follow the declaration",
  "A structure with derived Store and Load is written as its tag (any width, hexadecimal or binary notation) followed by its fields in the order of declaration, each as its own type is written, and reading is the exact inverse: it takes those bits and references and no more, gives InvalidTag for every other tag and CellUnderflow for every truncation; writing gives CellOverflow exactly when the data does not fit. With several tags the oldest version that holds all non-default fields is written, every later version of the same value is read as the same value, and fields newer than the version read as their default. A validation function refuses values with InvalidData both ways, before anything is written. The same holds for primitives, options, boxes, tuples, units, generic, nested and borrowed structures. Cells which the fields need are created by the context given to the store, and its refusal is passed on.",
  ["inputs", "fault_sequences"], "declarations with tags of all widths, versions and validations x all combinations of changed and default fields x boundary values x all builder fills around the capacity x all truncations and other tags x all refused cell creations",
  "Tests use derived implementations only through a few stored blocks of the current versions; a wrong tag width, version or refusal shows only for declarations and values which those do not contain.",
  ["proc/src/derive_store.rs", "proc/src/derive_load.rs", "proc/src/internals/attr.rs", "src/cell/builder.rs", "src/cell/slice.rs"],
  [("derive(Store)", "proc/src/derive_store.rs"), ("derive(Load)", "proc/src/derive_load.rs"), ("impl Store for tuples and options", "src/cell/builder.rs"), ("impl Load for tuples and options", "src/cell/slice.rs")])

p("C34", "Helper operations of the block models derive exactly what the fields say",
  "A value flow validates exactly when the incoming and the outgoing amounts agree in every currency, and is an error when a total does not fit. The weight of a signature list is the total weight of the distinct listed validators whose signature it contains, each counted once; an invalid signature of a listed validator or a total that does not fit is an error, unlisted signers do not count, and the signed data is the tag with both hashes. The root extra of every built-in augmentation is the sum or maximum over exactly the entries, after insertions, removals and bulk building; an addition that does not fit is refused and changes nothing. Previous-block references, software versions and master references written to a block header are read back. The list of out actions is read from last to first, and a damaged one ends with one error after its intact head. Capability sets behave as sets. Message headers give their type and convert to relaxed ones bit by bit; account wrappers give the status, balance and time of the account.",
  ["inputs", "histories"], "all combinations of boundary amounts in the ten fields of a flow; all signature lists of 3-4 slots x 5 signers' forms x validator sets x weights and all single-bit changes; all histories over four keys x five extras of every augmentation; all action lists to 4-5 with a defect at each link; all pairs of capabilities",
  "Tests verify one real proof and never a repeated signature, and do not call most of these helpers.",
  ["src/models/block/mod.rs", "src/models/block/block_extra.rs", "src/models/shard/shard_extra.rs", "src/models/shard/shard_accounts.rs", "src/models/message/in_message.rs", "src/models/message/mod.rs", "src/models/vm/out_actions.rs", "src/models/global_version.rs", "src/models/account/mod.rs", "src/models/currency.rs"],
  [("ValueFlow::validate", "src/models/block/mod.rs"), ("BlockSignatureExt::check_signatures", "src/models/block/block_extra.rs"), ("impl AugDictExtra", "src/models"), ("OutActionsRevIter", "src/models/vm/out_actions.rs"), ("GlobalCapabilities", "src/models/global_version.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
