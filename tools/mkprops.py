#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list lives here so that it can be edited readably)."""
import json, os
I = "include/sdsl/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

p("C01", "Word-level bit primitives compute their defined value",
  "For every 64-bit word, position, length and carry in the documented range, each word-level primitive (population counts, lowest/highest set bit, i-th set bit, bit reversal, 10/01/11 pattern counting and selecting, next/previous set bit, bit-granular read/write/unary read and pointer moves) returns exactly the value of its definition, and a bit-granular write changes only the addressed bits. The portable build and the build using hardware population count / bit-manipulation instructions give the same answers.",
  ["inputs", "configurations"], "all words x, arguments within the documented range, all (offset,length) pairs, all word arrays; portable and hardware builds",
  "bits_test checks a fixed seed of random words for cnt/sel/hi/lo/rev only, in the portable build; 11-patterns, carries, write/read with pointer moves, unary reads across words and the SSE4.2/BMI2 code paths are never exercised.",
  [I+"bits.hpp", "lib/bits.cpp"], [("broadword arithmetic and lookup tables", "bits.hpp, lib/bits.cpp"), ("#ifdef __SSE4_2__/__BMI2__ variants", "bits.hpp")], ["sdsl::bits static functions"])

p("C02", "Integer vectors behave as arrays of fixed-width integers",
  "Under any sequence of operations (construction, element reads and writes through references and iterators, bit-range reads and writes, resizing, width changes, bit compression/expansion, fill/modulo/identity utilities, swaps, copies, assignments, bitwise updates, comparisons, bit counting and bit scanning) an integer vector of any width behaves exactly like an array of integers modulo 2^width of the same length. Elements not addressed by an operation never change, and comparison operators agree with comparison of the element sequences (vectors that differ in width are unequal).",
  ["inputs", "histories", "configurations"], "all widths 1..64 (compile-time and run-time), all sizes including 0 and word boundaries, all operation histories",
  "int_vector_test runs straight-line random tests on a few sizes; no test mixes resizing, width changes, fills and bit-range writes, or checks that neighbours are untouched at every offset/width combination.",
  [I+"int_vector.hpp", I+"util.hpp", I+"memory_management.hpp", I+"iterators.hpp"], [("proxy reference and packed iterators", "int_vector.hpp: int_vector_reference, int_vector_iterator, int_vector_const_iterator"), ("capacity/padding handling", "memory_management.hpp: memory_manager::resize")], ["operator[]", "iterators", "get_int/set_int", "operator==,<,>", "util::*"])

p("C03", "Every bit vector encoding stores exactly the source bits",
  "For every bit sequence, each bit vector representation (plain, interleaved, RRR with every supported block size, sparse/Elias-Fano, hybrid), however it is built (from a plain bit vector, from a sorted position range, with the incremental builder), reports the original length and returns the original bit at every position, the original integer for every bit range read, and the original sequence when iterated. Builders reject position ranges that are not sorted, more positions than the capacity, and finishing before all announced positions were given, instead of producing a wrong vector.",
  ["inputs", "configurations"], "all bit sequences (all lengths, densities, run structures), all block-size / encoding parameters",
  "bit_vector_test reads a fixed list of about 30 vectors (lengths 0..16, powers of two up to 8192, 10^6, random half density plus six crafted ones); block, superblock and density boundaries of the compressed encodings are not searched.",
  [I+"bit_vectors.hpp", I+"bit_vector_il.hpp", I+"rrr_vector.hpp", I+"rrr_vector_15.hpp", I+"rrr_helper.hpp", I+"sd_vector.hpp", "lib/sd_vector.cpp", I+"hyb_vector.hpp", I+"iterators.hpp"], [("combinatorial number system encoding", "rrr_helper.hpp, rrr_vector*.hpp"), ("high/low split", "sd_vector.hpp"), ("per-block best-of encoding", "hyb_vector.hpp")], ["operator[]", "get_int", "size", "begin/end"])

p("C04", "Rank counts pattern occurrences in every prefix",
  "For every bit sequence and every position i from 0 to its length inclusive, each rank structure returns the number of occurrences of its bit pattern (0, 1, 00, 01, 10, 11) ending in the prefix of length i, for every bit vector representation it supports. Rank is unaffected by bits stored beyond the end of the vector.",
  ["inputs", "configurations"], "all bit sequences, all positions including 0 and size, all rank supports and patterns",
  "rank_support_test uses the same ~30 fixed vectors; block/superblock counters that overflow, saturate or are off by one only show at particular densities, lengths and run alignments.",
  [I+"rank_support.hpp", I+"rank_support_v.hpp", I+"rank_support_v5.hpp", I+"rank_support_scan.hpp", I+"bit_vector_il.hpp", I+"rrr_vector.hpp", I+"rrr_vector_15.hpp", I+"sd_vector.hpp", I+"hyb_vector.hpp"], [("two-level counter directories", "rank_support_v*.hpp"), ("pattern traits", "rank_support.hpp: rank_support_trait")], ["rank(i)", "operator()"])

p("C05", "Select is the exact inverse of rank",
  "For every bit sequence and every i from 1 to the number of occurrences of the supported pattern (0, 1, 00, 01, 10, 11), each select structure returns the position of the i-th occurrence, for every bit vector representation it supports. Select is unaffected by bits stored beyond the end of the vector.",
  ["inputs", "configurations"], "all bit sequences, all valid ranks, all select supports and patterns",
  "select_support_test covers ~30 fixed vectors; select directories switch between long, mini and scan blocks depending on the local density, and only inputs that place the switch at a boundary reach the other branches.",
  [I+"select_support.hpp", I+"select_support_mcl.hpp", I+"select_support_scan.hpp", I+"bit_vector_il.hpp", I+"rrr_vector.hpp", I+"rrr_vector_15.hpp", I+"sd_vector.hpp"], [("long/mini superblocks", "select_support_mcl.hpp"), ("pattern traits", "select_support.hpp: select_support_trait"), ("binary search over samples", "rrr_vector*.hpp, bit_vector_il.hpp, sd_vector.hpp")], ["select(i)", "operator()"])

p("C06", "Serialize then load reproduces every structure",
  "For every serializable structure in any state, loading what was serialized (to a string, a disk file or an in-memory file, also when several objects follow each other in one stream, also into an object that already held other content) yields a structure that answers every query like the original and serializes to the same bytes. The returned byte count equals the bytes written, loading consumes exactly those bytes, and a type-checked file is only accepted back by the type that wrote it.",
  ["inputs", "histories", "configurations"], "all structures and template parameters, all contents including empty/default constructed, all target streams, all prior contents of the loading object",
  "The tests store and load a structure once, from a fresh object, on a fixed input; returned byte counts, concatenated streams, reloading over old content and empty structures are mostly unchecked.",
  ["include/sdsl (serialize/load of every class)", I+"io.hpp", "lib/io.cpp", I+"int_vector.hpp", I+"sfstream.hpp"], [("serialize/load pairs", "every class"), ("store_to_file/load_from_file, checked variants", "io.hpp")], ["serialize", "load", "store_to_file", "load_from_file", "store_to_checked_file", "load_from_checked_file", "size_in_bytes"])

p("C07", "Structures are independent values under copy, move, swap",
  "After any sequence of copy construction, move construction, copy/move assignment (including onto objects with content and to itself), swap and destruction, every live structure answers all queries according to the content it logically holds, independent of what happens to the objects it was copied, moved or swapped from. No operation corrupts or frees memory of another object. (An object that was moved from may be assigned to, loaded into, built again or destroyed; a support structure that refers to a separate vector is re-attached with set_vector when the vector moves, as documented.)",
  ["histories", "configurations"], "all histories of value operations over several objects of each structure",
  "Tests do one swap or one move into a default object and check it while the source is still alive, so dangling internal pointers to the old owner still point to valid equal data.",
  ["include/sdsl (copy/move/swap of every class)"], [("re-seating of support-structure pointers", "copy(), swap(), operator= of every composite class; util::swap_support, util::init_support")], ["copy/move constructors", "assignment operators", "swap"])

p("C08", "A disk-backed integer buffer is a persistent array",
  "Under any sequence of opens, reads, writes, appends, iterator use, buffer-size changes, resets, moves, swaps and closes, with any buffer size, integer width and file offset and for disk and in-memory files, a disk-backed integer vector buffer returns the last value written to each position and 0 for positions skipped over, and after closing, the file contains exactly that sequence and is readable as a serialized integer vector. Opening for reading preserves the file, opening for writing truncates it, and a file that cannot be opened is reported.",
  ["inputs", "histories", "configurations"], "all operation histories, buffer sizes (including smaller than one element), widths 1..64, plain and header-carrying files, disk and RAM files",
  "int_vector_buffer_test runs long fixed scripts with a few buffer sizes; block boundary crossings, write-back of partially filled blocks and reopening in the middle of a history are sampled at a handful of points.",
  [I+"int_vector_buffer.hpp", I+"sfstream.hpp", "lib/sfstream.cpp"], [("single block cache with dirty flag", "int_vector_buffer.hpp: read_block/write_block")], ["operator[]", "push_back", "size", "close", "file bytes"])

p("C09", "A memory-mapped integer vector mirrors its file",
  "Under any sequence of element reads and writes, appends, resizes, width compression, iteration, remaps and unmaps, a memory-mapped integer vector reads like the array it models, and after unmapping the backing file holds exactly that array in serialized (or plain, if opened so) form. Read-only mappings never change the file, and temporary mapped vectors leave no file behind.",
  ["inputs", "histories", "configurations"], "all histories, widths 1..64 fixed and run-time, sizes around page/word boundaries, read-only/read-write/plain modes",
  "int_vector_mapper_test checks five scripted scenarios at one or two sizes.",
  [I+"int_vector_mapper.hpp", I+"memory_management.hpp"], [("mmap with over-allocation and final truncation", "int_vector_mapper.hpp: bit_resize, destructor")], ["operator[]", "push_back", "resize", "file bytes after destruction"])

p("C10", "Self-delimiting integer codes round-trip",
  "For every sequence of integers in a code's domain, decoding an encoded vector (or a hand-encoded bit stream, from any bit offset) with Elias-gamma, Elias-delta, Fibonacci and comma codes returns the original sequence, the predicted code length equals the bits written, and prefix sums computed directly on the code equal the sums of the decoded values. Encoding never alters bits outside the code words. (Elias and Fibonacci codes are for integers from 1 to 2^64-1.)",
  ["inputs", "configurations"], "all integer sequences over the full code domain (including the largest encodable values), all bit offsets, all decode lengths",
  "coder_test uses small consecutive values and a few random lists; extreme values, code words crossing several words and table-boundary prefix sums are not covered.",
  [I+"coder_elias_gamma.hpp", I+"coder_elias_delta.hpp", I+"coder_fibonacci.hpp", I+"coder_comma.hpp", "lib/coder_*.cpp"], [("lookup tables for several code words at once", "coder_*.hpp data tables and decode<>/decode_prefix_sum")], ["encode", "decode", "encoding_length", "decode_prefix_sum"])

p("C11", "Compressed integer vectors return the stored integers",
  "For every sequence of integers, every compressed integer vector (differentially encoded, variable-length coded, directly addressable codes with fixed and optimized layout) reports the original length and returns the original value at every position and in every iteration order, for every coder, sampling density and width configuration; values outside the coder's domain are refused.",
  ["inputs", "configurations"], "all integer sequences (monotone or not for the differential coder), all coders, sample densities and DAC parameters",
  "Compressed vectors are covered indirectly by csa/lcp tests on tiny texts and by one random DAC test; sample boundaries, 64-bit values, wraparound differences and skewed distributions are not searched.",
  [I+"enc_vector.hpp", I+"vlc_vector.hpp", I+"dac_vector.hpp", I+"vectors.hpp", I+"iterators.hpp"], [("sample pointers plus code stream", "enc_vector.hpp, vlc_vector.hpp"), ("level splitting with overflow bit vectors", "dac_vector.hpp")], ["operator[]", "size", "begin/end", "get_inter_sampled_values"])

p("C12", "Wavelet trees answer access, rank and select exactly",
  "For every sequence over every alphabet, each wavelet tree / wavelet matrix variant and shape reports the sequence length and alphabet size, and access, rank, select and inverse-select return exactly what counting on the sequence gives, including rank for symbols that do not occur (0).",
  ["inputs", "configurations"], "all sequences and alphabets (byte and integer, dense and sparse, skewed, single symbol, empty), all shapes and bit-vector backends, in-memory and file construction with any prefix length",
  "wt_byte_test/wt_int_test run on about ten fixed files, most of them tiny or uniform random; degenerate shapes (one symbol, power-of-two alphabets, extremely skewed codes, chunk boundaries in wt_gmr) are hardly represented.",
  [I+"wavelet_trees.hpp", I+"wt_pc.hpp", I+"wt_huff.hpp", I+"wt_hutu.hpp", I+"wt_blcd.hpp", I+"wt_int.hpp", I+"wm_int.hpp", I+"wt_gmr.hpp", I+"wt_ap.hpp", I+"wt_rlmn.hpp", I+"wt_helper.hpp", "lib/wt_helper.cpp"], [("code tree shapes", "wt_huff/wt_hutu/wt_blcd"), ("node offsets and rank directories", "wt_pc.hpp, wt_int.hpp, wm_int.hpp"), ("run-length and alphabet partitioning", "wt_rlmn.hpp, wt_ap.hpp"), ("chunked inverse permutations", "wt_gmr.hpp")], ["operator[]", "rank", "select", "inverse_select", "size", "sigma"])

p("C13", "Wavelet tree range and order queries equal brute force",
  "For every sequence and every range, the range queries offered on wavelet trees (symbols occurring in an interval with their ranks, lexicographic smaller/greater counts, quantiles with frequencies, two-dimensional range reporting and counting, range intersection, unique values in a value range, next/previous symbol in the alphabet, top-k style node expansion) return exactly the brute-force result, and node navigation partitions positions and symbols consistently.",
  ["inputs", "configurations"], "all sequences, all (possibly empty) ranges and value ranges, all wavelet trees offering the query",
  "The tests pick random ranges on the same small fixed files and check only the variants listed per test; boundaries such as empty ranges, whole range, absent symbols and value limits are rarely hit.",
  [I+"wt_algorithm.hpp", I+"wt_pc.hpp", I+"wt_int.hpp", I+"wm_int.hpp", I+"wt_gmr.hpp", I+"wt_ap.hpp", I+"wt_helper.hpp"], [("node expansion", "wt_*: expand, children, root, sym, bit_vec"), ("range algorithms", "wt_algorithm.hpp")], ["interval_symbols", "lex_count", "lex_smaller_count", "quantile_freq", "range_search_2d", "intersect", "restricted_unique_range_values", "symbol_lte/gte"])

p("C14", "Suffix array, inverse and BWT construction are correct",
  "For every text over a byte or integer alphabet (symbols below 2^63) terminated by a unique smallest sentinel, each construction algorithm (in-memory byte, in-memory integer, semi-external) produces the suffix array, i.e. the permutation listing all suffixes in lexicographic order, and the derived Burrows-Wheeler transform and inverse suffix array are exactly those of that permutation.",
  ["inputs", "configurations"], "all texts (periodic, runs, Fibonacci-like, random, all byte values, large integer symbols), all algorithms, disk and RAM cache",
  "sa_construct_test and the csa tests use four tiny texts; the semi-external block boundaries and the integer sorter's group refinement are only reached by longer repetitive inputs.",
  [I+"construct_sa.hpp", I+"construct_sa_se.hpp", "lib/construct_sa.cpp", "lib/construct_sa_se.cpp", I+"qsufsort.hpp", I+"construct_bwt.hpp", I+"construct_isa.hpp", "lib/construct_isa.cpp", I+"construct_config.hpp"], [("induced sorting on disk", "construct_sa_se.*"), ("doubling with group refinement", "qsufsort.hpp")], ["construct_sa", "construct_bwt", "construct_isa", "qsufsort::construct_sa", "algorithm::calculate_sa"])

p("C15", "LCP arrays are correct for every algorithm and encoding",
  "For every text, each LCP construction algorithm (Kasai, PHI, semi-external PHI, Go, Go-PHI, both BWT based ones) produces the length of the longest common prefix of every pair of lexicographically adjacent suffixes, and each LCP array representation (bit-compressed, byte, DAC, VLC, wavelet tree, sampled/permuted, tree-compressed) returns exactly those values at every position.",
  ["inputs", "configurations"], "all texts over byte and integer alphabets, all algorithms and representations",
  "lcp_construct_test compares the algorithms on three tiny texts; values above 254, deep queues, long repeats and switching thresholds inside the algorithms are not reached.",
  [I+"construct_lcp.hpp", "lib/construct_lcp.cpp", I+"construct_lcp_helper.hpp", "lib/construct_lcp_helper.cpp", I+"lcp*.hpp", "lib/lcp_support_tree.cpp"], [("per-algorithm invariants", "construct_lcp.*"), ("escape for large values", "lcp_byte.hpp"), ("PLCP select encoding", "lcp_support_sada.hpp"), ("sampled lcp + tree navigation", "lcp_support_tree*.hpp")], ["construct_lcp_*", "lcp[i]"])

p("C16", "Compressed suffix arrays answer like the suffix array",
  "For every text, every compressed suffix array variant (every sampling strategy, sampling density, alphabet strategy and underlying structure) returns the exact suffix array, inverse, LF and Psi mapping, BWT, first column, text symbol and cumulative-count values at every position, and extracts exactly text[begin..end] for every range.",
  ["inputs", "configurations"], "all texts over byte and integer alphabets, all positions and ranges, all template configurations",
  "csa tests run on tiny texts, where a sample lies within a few steps of every position; behaviour at sampling boundaries for other lengths and alphabets is not searched.",
  [I+"csa_bitcompressed.hpp", I+"csa_sada.hpp", I+"csa_wt.hpp", I+"csa_sampling_strategy.hpp", I+"csa_alphabet_strategy.hpp", "lib/csa_alphabet_strategy.cpp", I+"suffix_array_helper.hpp", I+"suffix_arrays.hpp", I+"fast_cache.hpp", I+"inv_perm_support.hpp"], [("SA/ISA samples", "csa_sampling_strategy.hpp"), ("alphabet mapping", "csa_alphabet_strategy.*"), ("psi/lf/bwt proxies", "suffix_array_helper.hpp")], ["csa[i]", "csa.isa[i]", "csa.lf[i]", "csa.psi[i]", "csa.bwt[i]", "csa.text[i]", "csa.F[i]", "csa.C", "extract"])

p("C17", "Pattern search finds all and only the occurrences",
  "For every text and every pattern (empty, absent, occurring, longer than the text, containing symbols outside the alphabet, but not the reserved symbol 0), count, locate, lexicographic interval, backward, forward and bidirectional search on every index return exactly the occurrences of the pattern and the suffix array interval of its suffixes, and stepwise extension in either direction keeps forward and reverse intervals synchronized.",
  ["inputs", "histories", "configurations"], "all (text, pattern) pairs and all extension sequences, all CSA/CST configurations",
  "The tests search patterns cut from tiny texts; absent symbols, empty patterns and mixed bidirectional extension orders are only sampled.",
  [I+"suffix_array_algorithm.hpp", I+"suffix_tree_algorithm.hpp", I+"csa_*.hpp"], [("backward/forward search", "suffix_array_algorithm.hpp"), ("lex_count synchronization", "bidirectional_search*")], ["count", "locate", "lex_interval", "backward_search", "forward_search", "bidirectional_search*"])

p("C18", "Compressed suffix trees have the topology of the suffix tree",
  "For every text, every compressed suffix tree variant exposes exactly the nodes of the text's suffix tree: number of nodes, root, leaves, parent, children (count, order, i-th), siblings, leftmost/rightmost leaf, leaf intervals, lowest common ancestors, node depth, inner-node numbering (a bijection with its inverse), and depth-first and bottom-up traversals visiting every node the right number of times in the right order.",
  ["inputs", "configurations"], "all texts over byte and integer alphabets, all nodes and node pairs, all variants and backends",
  "cst tests traverse trees of three tiny texts plus one random integer text without deep repeats; deep, highly repetitive and wide trees are not covered and several operations are only checked for self-consistency.",
  [I+"cst_sct3.hpp", I+"cst_sada.hpp", I+"cst_fully.hpp", I+"cst_iterators.hpp", I+"suffix_tree_helper.hpp", I+"bp_support_*.hpp"], [("balanced parentheses topology", "cst_sct3.hpp, cst_sada.hpp"), ("sampled tree", "cst_fully.hpp")], ["node navigation API", "begin/end", "begin_bottom_up/end_bottom_up"])

p("C19", "Compressed suffix trees have the string semantics of the tree",
  "For every text and every node, string depth, edge characters, the path label, child by character, suffix link, Weiner link, leaf label (suffix number), and the character-wise navigation of every compressed suffix tree variant agree with the set of suffixes the node represents, and are undefined/root exactly where no such node exists. Searches in the tree report exactly the pattern's suffix interval.",
  ["inputs", "configurations"], "all texts, all nodes, all characters, all depths; all variants",
  "Tests verify these mostly on trees of 12 to 100 symbols, comparing operations of the library with each other.",
  [I+"cst_sct3.hpp", I+"cst_sada.hpp", I+"cst_fully.hpp", I+"suffix_tree_algorithm.hpp", I+"suffix_tree_helper.hpp"], [("lcp/rmq based depth", "cst_*.hpp: depth"), ("csa-psi based edge/sl/wl", "cst_*.hpp: edge, sl, wl, child")], ["depth", "edge", "child(v,c)", "sl", "wl", "sn", "extract(cst,v)", "forward/backward search on cst"])

p("C20", "Balanced parentheses operations equal their definitions",
  "For every balanced parentheses sequence and every valid position, each parentheses structure returns the defined matching, enclosing, double-enclosing and range-restricted enclosing parenthesis, excess, rank and select and range-minimum-excess positions, or its documented not-found value. The static helper algorithms (pioneers, nearest smaller values, matching tables) agree with brute force.",
  ["inputs", "configurations"], "all balanced sequences (deep chains, wide combs, random, near block boundaries), all positions, all block sizes",
  "There is no direct unit test: parentheses structures are exercised only through rmq and cst tests on a few inputs.",
  [I+"bp_support.hpp", I+"bp_support_g.hpp", I+"bp_support_gg.hpp", I+"bp_support_sada.hpp", I+"bp_support_algorithm.hpp", "lib/bp_support_algorithm.cpp"], [("pioneer hierarchy", "bp_support_g.hpp, bp_support_gg.hpp"), ("min-max tree", "bp_support_sada.hpp"), ("lookup tables", "bp_support_algorithm.hpp: excess")], ["find_open", "find_close", "enclose", "double_enclose", "rr_enclose", "rmq", "excess", "level_anc"])

p("C21", "Range minimum/maximum queries return an extreme position",
  "For every array and every range l<=r, each range minimum (maximum) structure returns the position inside the range that holds the minimum (maximum), choosing the tie-breaking position its documentation states consistently across structures that do not keep the array. Structures that do not need the array answer the same after the array is gone.",
  ["inputs", "configurations"], "all arrays (ties, monotone, alternating, extreme values), all ranges, min and max variants, all structures and backends",
  "rmq_test uses three array shapes of 10^6 elements with 10^5 random ranges; ties are rare there and minima positions at block borders are only hit by chance.",
  [I+"rmq_support.hpp", I+"rmq_succinct_sada.hpp", I+"rmq_succinct_sct.hpp", I+"rmq_support_sparse_table.hpp"], [("super-Cartesian tree in BP", "rmq_succinct_sct.hpp, rmq_succinct_sada.hpp"), ("sparse table of offsets", "rmq_support_sparse_table.hpp")], ["operator()(l,r)"])

p("C22", "The k2-treap answers weighted 2D range queries exactly",
  "For every set of distinct weighted grid points, the k2-treap reports, for every query rectangle, exactly the points inside it: top-k iteration in non-increasing weight order, three-sided weight-range reporting exactly the points with weight in range, and counting exactly the number of points. This holds for in-memory and file construction and every branching factor (coordinates below 2^60).",
  ["inputs", "configurations"], "all point sets (collinear, clustered, large coordinates, single, empty), all rectangles and weight ranges, all k",
  "k2_treap_test queries a handful of random rectangles on uniformly random points.",
  [I+"k2_treap.hpp", I+"k2_treap_algorithm.hpp", I+"k2_treap_helper.hpp"], [("max-weight treap over k2 partition", "k2_treap.hpp"), ("priority queue / stack iterators", "k2_treap_algorithm.hpp")], ["top_k", "range_3d", "count", "size"])

p("C23", "The k2-tree answers adjacency queries like the matrix",
  "For every directed graph given as a matrix, an edge list or an edge file, the k2-tree answers adjacency, forward neighbours, reverse neighbours and rectangular range queries exactly as the adjacency matrix does, for every branching factor and bit-vector backend, including empty graphs and sizes that are not a power of k.",
  ["inputs", "configurations"], "all graphs and vertex counts, all k, all construction routes",
  "k2_tree_test checks a few hand-written matrices and one random matrix.",
  [I+"k2_tree.hpp", I+"k2_tree_helper.hpp"], [("recursive partition and level bitmaps", "k2_tree.hpp")], ["adj", "neigh", "reverse_neigh", "range"])

p("C24", "Inverse permutation and nearest-neighbour dictionaries are exact",
  "For every permutation, inverse-permutation support returns the inverse at every position for every sampling. For every set of integers, the static and the dynamic dictionary answer membership/rank/select and previous/next element queries exactly, the dynamic one after every sequence of insertions and deletions.",
  ["inputs", "histories", "configurations"], "all permutations (all cycle structures), all sets and update histories, all sampling parameters",
  "inv_perm_support_test and nn_dict_dynamic_test use uniformly random data of one size; cycle lengths at the sampling boundary and tree-level boundaries (powers of 64) are not searched; the static dictionary has no test.",
  [I+"inv_perm_support.hpp", I+"nearest_neighbour_dictionary.hpp", I+"nn_dict_dynamic.hpp", "lib/nn_dict_dynamic.cpp"], [("back pointers on long cycles", "inv_perm_support.hpp"), ("64-ary bitmap tree", "nn_dict_dynamic.hpp"), ("block-sampled dictionary", "nearest_neighbour_dictionary.hpp")], ["inv_perm[i]", "prev/next", "rank/select", "operator[]"])

p("C25", "Succinct sorted stacks behave like a stack",
  "Under every sequence of pushes of strictly increasing values within the declared range (non-decreasing for the multi-stack), pops and top queries, each succinct stack reports the same top, size and emptiness as an ordinary stack, and keeps doing so after serialization, copying and swapping in the middle of the history.",
  ["histories", "inputs", "configurations"], "all push/pop/top histories over all declared ranges",
  "The tests run one push-everything-then-pop pattern on random data; gaps that skip whole words or superblocks followed by pops back over them are not generated.",
  [I+"sorted_int_stack.hpp", I+"sorted_stack_support.hpp", I+"sorted_multi_stack_support.hpp"], [("two-level bitmap with block pointers", "sorted_int_stack.hpp, sorted_stack_support.hpp")], ["push", "pop", "top", "size", "empty"])

p("C26", "LOUDS trees keep the shape of the source tree",
  "For every ordinal tree, the LOUDS representation exposes the same tree: number of nodes, root, leaf test, degree, i-th child, parent and a unique node identifier in [0..nodes), with child and parent being inverse.",
  ["inputs"], "all ordinal trees (paths, stars, caterpillars, random)",
  "There is no unit test for the LOUDS tree.",
  [I+"louds_tree.hpp", "lib/louds_tree.cpp"], [("level-order unary degree sequence", "louds_tree.hpp")], ["root", "child", "parent", "degree", "is_leaf", "id", "nodes"])

p("C27", "Wide unsigned integers obey modular arithmetic",
  "For all operands, the 128-bit and 256-bit unsigned integer types compute addition, subtraction, multiplication, division by supported operands, shifts, bitwise operations, comparisons, conversions and population/select/high-bit functions exactly modulo 2^128 respectively 2^256, in every operator form offered.",
  ["inputs", "configurations"], "all operand values, shift distances and mixed-type operator forms",
  "Wide integers are only exercised through large RRR block sizes, which use a few operations on small values.",
  [I+"uint128_t.hpp", I+"uint256_t.hpp", "lib/uint128_t.cpp", "lib/uint256_t.cpp", I+"rrr_helper.hpp"], [("limb arithmetic with carries", "uint128_t.hpp, uint256_t.hpp")], ["operators", "conversion", "rrr_helper traits"])

p("C28", "In-memory files behave like disk files",
  "Under every sequence of store, exists, size, remove, rename and stream open/read/write/seek/tell/close operations, the in-memory file system gives the same contents, sizes, positions and success/failure results as the same operations on disk files (one stream writes to a file at a time, readers reposition after the file changed), and different names never share content.",
  ["histories", "inputs", "configurations"], "all operation histories over several names, all open modes offered, all chunk sizes and seek positions",
  "RAM files are only used as a by-product in construct_im; no test checks the stream or file operations themselves.",
  [I+"ram_fs.hpp", "lib/ram_fs.cpp", I+"ram_filebuf.hpp", "lib/ram_filebuf.cpp", I+"sfstream.hpp", "lib/sfstream.cpp"], [("content map", "lib/ram_fs.cpp"), ("get/put area over the vector", "lib/ram_filebuf.cpp"), ("dispatch by name", "lib/sfstream.cpp")], ["osfstream", "isfstream", "ram_fs", "sdsl::remove/rename", "util::file_size"])

p("C29", "Index construction gives one result on every route, cleanly",
  "For every valid input, constructing an index from a file, from an in-memory object, with a disk or an in-memory cache, with every configured suffix-array algorithm and with pre-existing cached intermediates yields indexes with identical contents, and afterwards exactly the requested temporary files are gone and no user file is changed. Inputs containing the reserved symbol 0 are rejected with an exception, and an index over the empty input is valid.",
  ["inputs", "configurations", "histories"], "all inputs and numbers of bytes per symbol, all cache configurations and construction sequences in one directory",
  "Tests construct once per type with one cache configuration and do not look at the directory afterwards or compare routes.",
  [I+"construct.hpp", I+"construct_config.hpp", I+"config.hpp", "lib/config.cpp", "lib/construct_config.cpp", I+"io.hpp", "lib/util.cpp"], [("cache file registration and cleanup", "construct.hpp, io.hpp: cache_config, register_cache_file"), ("tmp files with unique ids", "util::id, util::pid")], ["construct", "construct_im", "directory content", "cache_config.file_map"])

p("C30", "Reported sizes equal real sizes",
  "For every structure, the in-memory/byte size reported by the library equals the number of bytes its serialization writes, and the structure tree produced by serialization (and its JSON/HTML renderings) is well-formed and assigns to every composite the size of its serialized bytes, equal to or above the sum of its named components, with a root equal to the total.",
  ["inputs", "configurations"], "all structures and contents",
  "No test reads the structure tree or the reported sizes of anything but a few types.",
  [I+"structure_tree.hpp", "lib/structure_tree.cpp.cmake", I+"io.hpp", "include/sdsl (serialize of every class)"], [("size accounting in serialize", "every serialize()"), ("merging of equal children", "structure_tree.hpp: sdsl::structure_tree")], ["size_in_bytes", "size_in_mega_bytes", "write_structure<JSON_FORMAT>", "write_structure<HTML_FORMAT>"])

p("C31", "Memory manager: allocations never overlap, usage adds up",
  "Under every sequence of allocations, reallocations and frees, blocks handed out by the huge-page allocator are disjoint, inside its region, keep their contents until freed (across reallocation up to the smaller size) and freed space becomes reusable. A request is refused only if there is no stretch of free memory of that length, and a refused request changes nothing. Every structure works in such memory as elsewhere. The memory monitor's recorded usage at the start and end of every event equals the bytes held by live integer vectors since the log was started, and its peak equals the maximum of that value (if every change is logged; with a coarser granularity it never exceeds it).",
  ["histories", "inputs"], "all allocation histories and sizes",
  "No test covers the memory manager; huge pages are not available on test machines.",
  [I+"memory_management.hpp", "lib/memory_management.cpp"], [("block headers/footers, free list, coalescing", "lib/memory_management.cpp: hugepage_allocator"), ("record() on resize/clear", "memory_management.hpp: memory_monitor")], ["mm_alloc/mm_realloc/mm_free", "memory_monitor::peak", "write_memory_log"])

p("C32", "Integer data survives every supported file format",
  "For every integer sequence, writing it in a supported raw or serialized file format and reading it back through any matching reader (serialized vector, plain arrays of 1, 2, 4 or 8 byte integers, decimal text, byte text with appended sentinel, fixed written as variable width) gives the same sequence with the smallest sufficient or requested width, and the file size is what the format defines. Missing files and trailing partial elements are reported by the result instead of giving wrong data.",
  ["inputs", "configurations"], "all sequences and value ranges, all formats, disk and RAM files",
  "int_vector_test writes and reads one vector per width; the other readers and conversions are used only as set-up code of other tests.",
  [I+"io.hpp", "lib/io.cpp", I+"int_vector.hpp", I+"int_vector_io_wrappers.hpp"], [("load_vector_from_file / store_to_plain_array", "io.hpp")], ["load_vector_from_file", "load_from_file", "store_to_file", "store_to_plain_array"])

p("C33", "Structures are a function of the data they are built from",
  "The serialized bytes of a structure and its answers depend only on its type and on the data it was built from: not on what the memory contained before, on earlier contents of the object, on whether it was built, copied, moved or loaded, or on queries answered in between. The same holds for the index and all intermediate files of a construction on disk or in memory.",
  ["inputs", "configurations", "histories"], "all structures and contents, all previous contents of heap, stack and object",
  "Tests run once in fresh memory, which is mostly zero, and never compare the bytes of two runs.",
  ["include/sdsl (all structures)", "lib"], [("allocation without initialization, zeroing of unused bits", "memory_management.hpp: memory_manager::resize"), ("initial values of members", "constructors and load() of all classes"), ("buffers of the construction", "construct_*.hpp, int_vector_buffer.hpp")], ["serialize", "all queries", "files in cache_config.file_map"])

p("C34", "Formatted printing shows the true members of an index",
  "For every suffix array or tree index and every format string, csXprintf writes one line per suffix in which literal text is copied and every token (%I, %S, %s, %P, %p, %L, %B, %T, %% with optional widths) is replaced as documented: row, SA, ISA, Psi, LF, LCP, BWT symbol, the first min(size, w) symbols of the suffix, with the symbol 0 shown as the sentinel character.",
  ["inputs", "configurations"], "all texts, index types, format strings and sentinels",
  "csXprintf is not called by any test.",
  [I+"io.hpp", "lib/io.cpp"], [("parsing of tokens and widths", "io.hpp: csXprintf; lib/io.cpp: _parse_number")], ["csXprintf"])

p("C35", "Containers are random-access containers for standard algorithms",
  "For every structure with elements (integer vectors, bit vectors, compressed vectors, wavelet trees, suffix and LCP arrays and the arrays derived from them, permutations), begin() to end() walks over exactly the elements that operator[] returns, and its iterators obey the laws of random access iterators under every sequence of increments, decrements, jumps, assignments, differences and comparisons, so that standard algorithms, reverse iterators and range constructors give the same results as on an array of the elements.",
  ["inputs", "histories"], "all structures, contents and sequences of iterator operations",
  "Tests use iterators in loops over a few containers; comparisons, jumps backwards and standard algorithms on the compressed ones are not tested.",
  [I+"iterators.hpp", I+"int_vector.hpp", "include/sdsl (begin() and end() of all containers)"], [("generic iterator", "iterators.hpp: random_access_const_iterator"), ("word and offset of iterators", "int_vector.hpp: int_vector_const_iterator")], ["begin", "end", "empty", "iterator operators"])

p("C36", "Shared structures answer concurrent queries as single-threaded",
  "For every structure and every schedule, threads that query one common structure through its const operations, each with its own queries, get the answers a single thread gets, without data races. Threads that work on different objects do not disturb each other: building, storing and loading, in-memory files under different names, unique names and identifiers, and the accounting of recorded memory have the same results as one after the other.",
  ["schedules", "inputs", "histories"], "all structures, queries and interleavings of threads",
  "No test starts a second thread.",
  ["include/sdsl (const operations of all structures)", "lib/ram_fs.cpp", "lib/util.cpp", "lib/memory_management.cpp"], [("lock of the in-memory file system", "ram_fs.cpp"), ("counter behind unique names", "lib/util.cpp: util::id"), ("buffers and caches inside structures", "csa_sada.hpp, all mutable or static members"), ("counters of the memory monitor", "memory_management.hpp: memory_monitor::record")], ["all const queries", "construct", "store_to_file", "load_from_file", "ram_fs", "util::id", "memory_monitor::record"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
